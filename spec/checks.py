"""Specification-level properties: generate specifications, compile them with the compiler of the current tree, drive the generated code against an oracle."""
import hashlib, json, os, random, re, shutil, sys, time, traceback
from multiprocessing import Pool
from lib import common
from . import model, gen, ref, cdrv, run as R, shrink as S
from .model import T

sys.path.insert(0, os.path.join(common.ROOT, "compiler"))
import build_asn1scc  # noqa: E402

REG = {}


def register(cls):
    REG[cls.pid] = REG.get(cls.pid, []) + [cls()]
    return cls


def rt(n): return T("ref", ref=n)


def bits2hex(w):
    h = w + "0" * (-len(w) % 8)
    return "".join("%02x" % int(h[i:i + 8], 2) for i in range(0, len(h), 8))


class Check:
    """One generated-input search. A case is a tuple whose first item is the name of the type it is about."""
    pid = sub = None
    opts = ["-uPER", "-equal"]
    cflags = ()
    quick, thorough = 48, 1200     # specifications
    limit = (55, 600)             # seconds of generation per tier
    cases_per_type = 24
    sanitize = "address"
    # tags of failures whose reproduction on a shrunk case keeps the tag
    rule = "a case is a type with a value or an input drawn for it; it is non-trivial when its encoding or input has more than 8 bits, and distinct by the text of the type and the case"

    def prof(self, r): return gen.Prof(types=8, depth=r.choice([2, 2, 3]))

    def make(self, r):
        g = gen.Gen(r, self.prof(r))
        return g.spec()

    def options(self, r, spec): return list(self.opts)

    def build(self, spec, d, opts): return R.Built(spec, d, opts, cflags=self.cflags, sanitize=self.sanitize)

    def roots(self, spec): return list(spec.types)

    def cases(self, r, spec, roots, n): raise NotImplementedError

    def evaluate(self, b, spec, cases):
        """[(case index, tag, message)]"""
        lines, at = [], []
        for i, c in enumerate(cases):
            ls = self.requests(b, spec, c)
            at.append((len(lines), len(lines) + len(ls)))
            lines += ls
        res = b.run(lines)
        out = []
        for i, c in enumerate(cases):
            ans = res[at[i][0]:at[i][1]]
            bad = next((a for a in ans if isinstance(a, dict)), None)
            if bad:
                if bad["crash"] != "not run": out.append((i, "crash", "the generated code fails: " + bad["crash"]))
                continue
            m = self.judge(spec, c, ans)
            if m: out.append((i,) + tuple(m))
        return out

    def show(self, spec, c): return "%s: %.300s" % (c[0], ", ".join(str(x) for x in c[1:]))

    def nontrivial(self, spec, c): return len(str(c[1:])) > 8

    def probes(self):
        """[(key suffix, spec, opts, cases)]: fixed cases of recorded defects"""
        return []


def type_text(spec, n):
    return "%s ::= %s" % (n, model.ptype(spec, spec.types[n]))


def attempt(chk, spec, opts, cases, d):
    """[(case or None, tag, msg)]"""
    shutil.rmtree(d, ignore_errors=True)
    try:
        try:
            b = chk.build(spec, d, opts)
        except R.CompileError as e:
            return [(None, "refused", "the compiler does not accept a well-formed specification: %s" % e)]
        except R.CodeError as e:
            return [(None, "code", "the generated code does not compile: %s" % e)]
        return [(cases[i], tag, msg) for i, tag, msg in chk.evaluate(b, spec, cases)]
    finally:
        shutil.rmtree(d, ignore_errors=True)


CH, TMP = None, None


def seed_of(seed, sub, i): return int.from_bytes(hashlib.sha256(("%s/%s/%d" % (seed, sub, i)).encode()).digest()[:8], "big")


def worker(job):
    ci, seed, deadline = job
    if time.time() > deadline: return None
    chk = CH[ci]
    r = random.Random(seed)
    try:
        spec = chk.make(r)
        opts = chk.options(r, spec)
        roots = chk.roots(spec)
        cases = chk.cases(r, spec, roots, chk.cases_per_type)
        fs = attempt(chk, spec, opts, cases, os.path.join(TMP, "w%d_%d" % (os.getpid(), seed % 100000)))
        nt = set()
        for c in cases:
            if chk.nontrivial(spec, c): nt.add(hashlib.sha1((chk.case_id(spec, c) if hasattr(chk, "case_id") else type_text(spec, c[0]) + repr(c[1:])).encode("utf8", "replace")).digest()[:10])
        sm = [chk.show(spec, c) for c in r.sample(cases, min(2, len(cases)))]
        return {"ci": ci, "seed": seed, "n": len(cases), "nt": nt, "samples": sm, "fails": [(R.pack((spec, opts, c)), t, m) for c, t, m in fs[:6]], "nf": len(fs)}
    except Exception:
        return {"ci": ci, "seed": seed, "n": 0, "nt": set(), "samples": [], "fails": [], "nf": 0, "error": traceback.format_exc()}


def setup(ctx):
    global CH, TMP
    try:
        R.ASN1SCC = build_asn1scc.ensure(common.REPO)
    except build_asn1scc.BuildError as e:
        raise common.BrokenTree("the compiler does not build:\n" + str(e)[-3500:])
    TMP = ctx.tmp


def gist(m):
    """a compiler message without names, numbers and positions"""
    m = [l for l in m.split("\n") if "rror" in l] or [m]
    return re.sub(r"[\w.-]*\d[\w.-]*|'[^']*'", "#", m[0])


def reduce(chk, spec, opts, case, tag, budget, seed, msg=None):
    """structural shrinking, values drawn again for each candidate"""
    cnt = [0]
    best = [case]

    def fails(s, roots):
        cnt[0] += 1
        rr = random.Random(seed)
        cs = []
        if case is not None:
            cs = chk.cases(rr, s, [n for n in roots if n in s.types], max(40, chk.cases_per_type))
            if case[0] in s.types:
                cs = [case] + cs
        d = os.path.join(TMP, "s%d_%d" % (os.getpid(), cnt[0]))
        for c, t, m in attempt_safe(chk, s, opts, cs, d):
            if t == tag and (tag not in ("refused", "code") or msg is None or gist(m) == gist(msg)): return True
        return False

    roots = [case[0]] if case is not None else chk.roots(spec)
    try:
        s2, r2 = S.shrink(spec, roots, fails, budget=budget)
    except Exception:
        if os.environ.get("VERIF_DEBUG"): traceback.print_exc()
        return spec, case, None
    rr = random.Random(seed)
    cs = chk.cases(rr, s2, [n for n in r2 if n in s2.types], 120) if case is not None else []
    fs = [x for x in attempt(chk, s2, opts, cs, os.path.join(TMP, "sf")) if x[1] == tag]
    if not fs: return spec, case, None
    c, t, m = min(fs, key=lambda x: len(repr(x[0])))
    return s2, c, m


def attempt_safe(chk, s, opts, cs, d):
    try:
        return attempt(chk, s, opts, cs, d)
    except Exception:
        return []


def mkreplay(pid, ci, chk, spec, opts, c, tag, msg):
    o = {"property": pid, "check": ci, "sub": chk.sub, "tag": tag, "message": msg, "options": opts, "payload": R.pack((spec, opts, c))}
    try:
        for fn, text in R.default_files(spec, opts): o[fn] = text.split("\n")
        if c is not None: o["case"] = chk.show(spec, c)
    except Exception:
        pass
    return o


def run(pid, tier, seed, ctx):
    global CH
    setup(ctx)
    CH = REG[pid]
    th = tier == "thorough"
    t0 = time.time()
    fails, n, nt, samples, detail, nspec, errors = [], 0, set(), [], {}, 0, []
    known = common.known_for(pid)
    # recorded defects
    pj = []
    for ci, chk in enumerate(CH):
        for suf, spec, opts, cases in chk.probes(): pj.append((ci, suf, spec, opts, cases))
    with Pool(8) as pool:
        for key, fs in pool.imap_unordered(probe_worker, [(i, x[0]) for i, x in enumerate(pj)]) if pj else []:
            ci, suf, spec, opts, cases = pj[key]
            chk = CH[ci]
            n += max(1, len(cases))
            if fs:
                c, tag, msg = fs[0]
                fails.append({"key": "%s/%s" % (chk.sub, suf), "msg": msg, "replay": mkreplay(pid, ci, chk, spec, opts, c, tag, msg)})
        jobs = []
        for ci, chk in enumerate(CH):
            k = chk.thorough if th else chk.quick
            lim = time.time() + chk.limit[1 if th else 0] / (len(CH) if len(CH) > 1 else 1) * (ci + 1)
            jobs += [(ci, seed_of(seed, chk.sub, i), lim) for i in range(k)]
        bytag = {}
        for res in pool.imap_unordered(worker, jobs):
            if res is None: continue
            if "error" in res:
                errors.append(res["error"])
                continue
            chk = CH[res["ci"]]
            nspec += 1
            n += res["n"]
            nt |= res["nt"]
            dd = detail.setdefault(chk.sub, {"specifications": 0, "cases": 0, "failures": 0})
            dd["specifications"] += 1; dd["cases"] += res["n"]; dd["failures"] += res["nf"]
            if len(samples) < 12: samples += ["%s %s" % (chk.sub, s) for s in res["samples"][:1]]
            for p, t, m in res["fails"]: bytag.setdefault((res["ci"], t), []).append((p, m, res["seed"]))
            if sum(len(v) for (i, t), v in bytag.items() if "%s/%s" % (CH[i].sub, t) not in known) > 60: break
    if errors: print("note: %d specifications could not be evaluated:\n%s" % (len(errors), errors[0][-1500:]))
    if errors and len(errors) * 5 > nspec: raise RuntimeError("too many internal errors")
    for (ci, tag), l in sorted(bytag.items(), key=lambda x: str(x[0])):
        chk = CH[ci]
        key = "%s/%s" % (chk.sub, tag)
        l.sort(key=lambda x: len(x[0]))
        done = False
        for p, m, sd in l[:3]:
            spec, opts, case = R.unpack(p)
            # reproduce before reporting
            again = [x for x in attempt_safe(chk, spec, opts, [case] if case is not None else [], os.path.join(TMP, "again")) if x[1] == tag]
            if not again: continue
            if key not in known and time.time() - t0 < (300 if not th else 700) and sum(f["key"] not in known for f in fails) < 3:
                s2, c2, m2 = reduce(chk, spec, opts, case, tag, (64 if tag not in ("code", "refused") else 40) if not th else 160, sd, m)
                if m2 is not None: spec, case, m = s2, c2, m2
            fails.append({"key": key, "msg": m, "replay": mkreplay(pid, ci, chk, spec, opts, case, tag, m)})
            done = True
            break
        if not done: print("note: %s was not reproducible alone and is not reported: %s" % (key, l[0][1][:500]))
    cov = {"evaluations": n, "distinct_nontrivial": len(nt), "rule": CH[0].rule, "samples": samples[:12] or ["none"], "specifications": nspec, "by_sub_property": detail, "recorded_defect_probes": len(pj)}
    return {"failures": fails, "coverage": cov, "assumptions": ["64-bit little-endian Linux target; generated C compiled by clang 18 with the address sanitizer" if CH[0].sanitize else "64-bit little-endian Linux target",
            "the generator stays inside the supported subset described in DESIGN.md"]}


def probe_worker(a):
    i, ci = a
    chk = CH[ci]
    suf, spec, opts, cases = [x for c in CH for x in c.probes()][i]
    return i, attempt_safe(chk, spec, opts, cases, os.path.join(TMP, "p%d" % i))


def replay(pid, path, ctx):
    global CH
    o = json.load(open(path))
    try:
        setup(ctx)
    except common.BrokenTree as e:
        return str(e)[-2000:]
    if o.get("kind") == "build": return None
    CH = REG[pid]
    chk = CH[o["check"]]
    spec, opts, case = R.unpack(o["payload"])
    fs = attempt(chk, spec, opts, [case] if case is not None else [], os.path.join(TMP, "r"))
    return "%s/%s: %s" % (chk.sub, fs[0][1], fs[0][2]) if fs else None


from . import props, props_acn, props_ada, props_opt, props_more, props_bad  # noqa: E402,F401
