"""P08 rewritings, P09 determinism, P11 XER, P14 automatic test cases."""
import copy, glob, os, re, shutil, subprocess
import xml.etree.ElementTree as ET
from . import acn, gen, model, ref, run as R
from .checks import Check, register, rt
from .model import Comp, T
from .props import cut, has_kind, mkspec
from .props_opt import Options
from .props_acn import AcnSpecs, above127


# ---------------------------------------------------------------- P08
def clone(spec): return copy.deepcopy(spec)


def inlinable(t): return t.k not in ("ref",)


def rewrite(r, spec):
    """(name, specification) with the same meaning"""
    s = clone(spec)
    how = []
    taken = {c.name.lower() for x in s.types.values() for t in model.walk(x) for c in (t.comps or [])} | {n.lower() for n in s.types}
    # a type written inline gets a name
    spots = [(t, i) for x in s.types.values() for t in model.walk(x) for i, c in enumerate(model.children(t)) if c.k != "ref"]
    if spots and r.random() < 0.7:
        for t, i in r.sample(spots, min(len(spots), r.choice([1, 2, 4]))):
            c = model.children(t)[i]
            if c.k == "ref": continue
            n = "Named%d" % (len(s.types) + 1)
            if n.lower() in taken: continue
            own = []
            if c.cons and c.k == "int" and model.bounds(s, c.cons)[1] is not None and all(abs(v) < 1 << 62 for x in c.cons for v in ints(x)) and r.random() < 0.4: own, c.cons = c.cons, []
            s.types[n] = c
            new = T("ref", ref=n, cons=own)
            if t.k == "seqof": t.elem = new
            else: t.comps[i].t = new
            how.append("name")
    # a reference is replaced by what it stands for
    spots = [(t, i) for x in s.types.values() for t in model.walk(x) for i, c in enumerate(model.children(t)) if c.k == "ref" and not c.cons and s.types[c.ref].k not in ("ref", "enum")]
    if spots and r.random() < 0.7:
        for t, i in r.sample(spots, min(len(spots), r.choice([1, 2]))):
            c = model.children(t)[i]
            if c.k != "ref" or sum(1 for _ in model.walk(s.types[c.ref])) > 8: continue
            if any(x.k in ("enum", "choice") for x in model.walk(s.types[c.ref])): continue
            new = copy.deepcopy(s.types[c.ref])
            if t.k == "seqof": t.elem = new
            else: t.comps[i].t = new
            how.append("inline")
    # numbers become named values and back
    if r.random() < 0.4 and s.consts:
        s.consts = {}
        how.append("numbers")
    elif r.random() < 0.6:
        nums = sorted({v for x in s.types.values() for t in model.walk(x) for c in t.cons for v in ints(c)})
        for v in r.sample(nums, min(len(nums), 4)):
            if v not in s.consts.values(): s.consts["named-number-%d" % len(s.consts)] = v
        how.append("constants")
    # order
    if r.random() < 0.7:
        l = list(s.types.items())
        r.shuffle(l)
        s.types = dict(l)
        how.append("order")
    s.split = sorted(model.deps(s, r.choice(list(s.types)))) if r.random() < 0.5 else None      # modules must not import from each other
    if s.split and len(s.split) == len(s.types): s.split = None
    if s.split: how.append("modules")
    s.generic = [n for n in s.types if s.types[n].k in ("seq", "seqof", "octs", "choice", "bits") and r.random() < 0.4] if r.random() < 0.5 else []
    if s.generic: how.append("parameters")
    return " ".join(how) or "none", s


def ints(c):
    for x in c[1:]:
        if isinstance(x, bool): continue
        if isinstance(x, int): yield x
        elif isinstance(x, tuple) and x and isinstance(x[0], str): yield from ints(x)


def texts(s):
    """files of a rewritten specification: some assignments in another module, some through parameterised types"""
    def assign(n):
        t = s.types[n]
        body = model.ptype(s, t)
        if n not in s.generic: return ["%s ::= %s" % (n, body)]
        # a reference inside the body becomes the parameter
        refs = [x.ref for x in model.walk(t) if x.k == "ref"]
        if refs:
            a = refs[0]
            b = re.sub(r"(?<![\w-])%s(?![\w-])" % re.escape(a), "TPARAM", body)
            if not any(x.k == "ref" and x.ref == a and x.cons for x in model.walk(t)): return ["Gen-%s{TPARAM} ::= %s" % (n, b), "%s ::= Gen-%s{%s}" % (n, n, a)]
        nums = [v for c in t.cons for v in ints(c) if v >= 0] if t.k != "ref" else []
        nums = [v for v in nums if v not in s.consts.values()]
        if nums:
            b = re.sub(r"(?<![\w.-])%d(?![\w.-])" % nums[0], "nparam", body)
            if re.sub(r"(?<![\w-])nparam(?![\w-])", str(nums[0]), b) == body and not re.search(r"\[\d+\]|nparam\)?[,}]|DEFAULT|ENUMERATED|\"|REAL", b): return ["Gen-%s{INTEGER:nparam} ::= %s" % (n, b), "%s ::= Gen-%s{%d}" % (n, n, nums[0])]
        return ["%s ::= %s" % (n, body)]

    def need(names):
        text = "\n".join(l for n in names for l in assign(n))
        return set(re.findall(r"(?<![\w-])[A-Za-z][\w-]*", text))
    one = [n for n in s.types if not s.split or n not in s.split]
    two = [n for n in s.types if s.split and n in s.split]
    out = []
    consts = ["%s INTEGER ::= %d" % (n, v) for n, v in s.consts.items()]
    for mod, other, names, more, have in (("MODA", "MODB", one, [] if two else consts, two + list(s.consts) if two else []), ("MODB", "MODA", two, consts, [])):
        if not names: continue
        imp = sorted(x for x in need(names) if x in have)
        l = ["%s DEFINITIONS %s ::= BEGIN" % (mod, s.tags)] + (["IMPORTS %s FROM %s;" % (", ".join(imp), other)] if imp else []) + more
        for n in names: l += assign(n)
        out.append((mod.lower() + ".asn1", "\n".join(l + ["END"]) + "\n"))
    return out


class Pair:
    pass


@register
class P08uper(Options):
    pid = "P08"
    sub = "P08.uper"
    opts = ["-uPER"]
    quick, thorough = 26, 600
    rule = "a case is a type with a value, or with octets to decode, given to the code of a specification and of its rewriting (inline types named and back, numbers named and back, assignments reordered, two modules, parameterised types); it is non-trivial when its encoding or input has more than 8 bits; distinct by type, value or octets"

    def prof(self, r): return gen.Prof(types=7, depth=r.choice([1, 2, 3]), big=0.02, maxelems=12, enum_max=20, default=r.random() < 0.3)

    def make(self, r): return gen.Gen(r, self.prof(r)).spec()

    def options(self, r, spec): return r.randrange(1 << 30)

    def build(self, spec, d, opts):
        import random
        b = Pair()
        how, s = rewrite(random.Random(opts), spec)
        b.opts = [["-uPER"], []], [["-uPER"], ["(rewritten: %s)" % how]]
        b.v = [R.Built(spec, d + "/0", ["-uPER"], sanitize=self.sanitize), R.Built(s, d + "/1", ["-uPER"], files=texts(s), sanitize=self.sanitize)]
        return b

    def requests(self, b, spec, c): raise NotImplementedError


# ---------------------------------------------------------------- P09
def tree(d):
    out = {}
    for p, _, fs in os.walk(d):
        for f in fs: out[os.path.relpath(os.path.join(p, f), d)] = open(os.path.join(p, f), "rb").read()
    return out


@register
class P09(Check):
    pid, sub = "P09", "P09.out"
    quick, thorough = 48, 900
    limit = (80, 600)
    cases_per_type = 1
    rule = "a case is a type of a generated specification that is compiled twice with the same randomly drawn target language and options, from other working directories into other output directories; all cases with an output are non-trivial; distinct by the text of the type and the options"

    def make(self, r):
        self.acn = r.random() < 0.6
        if not self.acn: return gen.Gen(r, gen.Prof(types=8, depth=r.choice([1, 2, 3]))).spec()
        g = gen.Gen(r, gen.Prof(types=6, depth=2, big=0, tricky=False, oid=False))
        g.cap = lambda: r.choice([6, 20, 60])
        g.spec()
        return acn.Deco(g, plain=r.random() < 0.4).spec()

    def options(self, r, spec):
        lang = r.choice(["-c", "-c", "-Ada", "-Ada", "-Scala"]) if not has_any(spec, ("oid", "roid")) else r.choice(["-c", "-Ada"])
        o = [lang, "-ACN"] if spec.use_acn else [lang, "-uPER"]
        pool = [["-atc"], ["-equal"], ["-slim"], ["-typePrefix", "Pp"], ["-eee", "1"], ["-uPER"], ["-x", "ast.xml"]]
        if spec.use_acn: pool += [["-icdAcn", "icd.html"]]
        else: pool += [["-icdUper", "icd.html"], ["-ACN"]]
        if lang == "-c": pool += [["-XER"], ["-ig"], ["-renamePolicy", "3"], ["-sm"]]
        for x in r.sample(pool, r.choice([0, 1, 2, 3, 4])):
            if x[0] not in o: o += x
        return o

    def cases(self, r, spec, roots, n): return [(t, "compile") for t in roots]

    def build(self, spec, d, opts):
        res = []
        for i, wd in enumerate(("a", "b/longer/path")):
            w = os.path.join(d, wd)
            os.makedirs(w)
            names = []
            for fn, text in R.default_files(spec, opts):
                open(os.path.join(w, fn), "w").write(text)
                names.append(fn if i == 0 else "./" + fn if i == 2 else fn)
            od = "out" if i == 0 else "another-output"
            if i == 0:
                rc, txt = R.asn1scc(opts + ["-o", od] + names, w)
            else:                     # after an earlier run for something else in the same place
                rc, txt = R.asn1scc(opts + ["-o", od] + names, w)
            res.append((rc, tree(os.path.join(w, od)), txt, tree(w) if False else {f: open(os.path.join(w, f), "rb").read() for f in ("ast.xml", "icd.html") if os.path.exists(os.path.join(w, f))}))
        return res

    def evaluate(self, b, spec, cases):
        (r1, t1, x1, e1), (r2, t2, x2, e2) = b
        if r1 != r2: return [(0, "status", "two runs end with status %d and %d: %s" % (r1, r2, cut(x1 + x2, 500)))]
        if r1: return []                         # whether a specification is accepted is decided by other properties
        t1.update(e1), t2.update(e2)
        if set(t1) != set(t2): return [(0, "files", "the sets of files differ: %s" % sorted(set(t1) ^ set(t2))[:8])]
        if not t1: return [(0, "nothing", "no files are generated")]
        for f in sorted(t1):
            if t1[f] != t2[f]:
                a, c = t1[f].split(b"\n"), t2[f].split(b"\n")
                i = next((i for i, (x, y) in enumerate(zip(a, c)) if x != y), min(len(a), len(c)))
                return [(0, "contents", "%s differs between two runs, line %d: %s / %s" % (f, i + 1, a[i:i + 1], c[i:i + 1]))]
        return []

    def nontrivial(self, spec, c): return True


def has_any(spec, kinds): return any(t.k in kinds for x in spec.types.values() for t in model.walk(x))


# ---------------------------------------------------------------- P14
class Suites(Check):
    pid = "P14"
    quick, thorough = 22, 500
    limit = (110, 700)
    cases_per_type = 1
    rule = "a case is a type of a generated specification whose automatic test cases are generated, built by the generated build file and run; all are non-trivial; distinct by the text of the type and the options"

    def cases(self, r, spec, roots, n): return [(t, "suite") for t in roots]

    def nontrivial(self, spec, c): return True

    def build(self, spec, d, opts):
        os.makedirs(d, exist_ok=True)
        names = []
        for fn, text in R.default_files(spec, opts):
            open(os.path.join(d, fn), "w").write(text)
            names.append(fn)
        rc, txt = R.asn1scc(opts + ["-o", "out"] + names, d)
        if rc: raise R.CompileError(rc, txt)
        env = dict(os.environ, MAKEFLAGS="")
        p = subprocess.run(["make", "CC=gcc -fwrapv -Wno-error=shadow -Wno-error=unused-const-variable", "-j2"] if opts[0] == "-c" else ["gprbuild", "-q", "-gnat2012", "-P", "asn1_x86.gpr", "mainprogram.adb", "--subdirs=debug", "-cargs", "-O0", "-gnatws", "-gnatyN"], cwd=d + "/out", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env, timeout=400)
        if p.returncode: raise R.CodeError("\n".join(l for l in p.stdout.split("\n") if "rror:" in l or "undefined" in l or "error" in l and " -c " not in l)[:2500])
        exe = d + ("/out/mainprogram" if opts[0] == "-c" else "/out/obj_x86/debug/mainprogram")
        try:
            p = subprocess.run([exe], cwd=os.path.dirname(exe), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=120)
            return p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            return -99, "the suite does not end within 120 s"

    def evaluate(self, b, spec, cases):
        rc, out = b
        m = re.search(r"All test cases \((\d+)\) run successfully", out)
        bad = [l for l in out.split("\n") if "fail" in l.lower() or "error" in l.lower() or "raised" in l.lower()]
        if rc == 0 and m and int(m.group(1)) > 0: return []
        return [(0, "fails", "the generated suite ends with status %s: %s" % (rc, cut("\n".join(bad) or out[-600:], 900)))]


def plain(spec):
    """without the forms whose initial value or C code is wrong (known findings)"""
    from .props_ada import ada_safe
    def gaps(c): return c[0] in ("or", "and", "exc", "allexc") and any(isinstance(x, tuple) and (x[0] == "size" or gaps(x)) for x in c[1:]) or c[0] == "size" and c[1][0] not in ("rng", "val")
    for x in spec.types.values():
        for t in model.walk(x):
            for c in t.comps or []:
                if c.opt not in (None, "OPT"): c.opt = "OPT"
            if t.k == "ref": t.cons = [c for c in t.cons if not gaps(c)] if model.resolve(spec, t)[0].k in ("seqof", "octs", "bits", "str") else t.cons
            elif t.k in ("seqof", "octs", "bits", "str"): t.cons = [("size", ("rng", 1, 7, False, False)) if gaps(c) else c for c in t.cons]
    return ada_safe(spec)


def slim_chain(spec): return any(t.k == "ref" and t.cons and spec.types[t.ref].k == "ref" for x in spec.types.values() for t in model.walk(x))


@register
class P14c(Suites):
    sub = "P14.c"

    def make(self, r): return plain(gen.Gen(r, gen.Prof(types=6, depth=r.choice([1, 2]), big=0, maxelems=12, enum_max=20, tricky=False, fixref=False)).spec())

    def options(self, r, spec):
        o = ["-c", "-atc"] + r.choice([["-uPER"], ["-ACN"], ["-XER"], ["-uPER", "-ACN"], ["-uPER", "-ACN", "-XER"]])
        for x in r.sample([["-slim"], ["-eee", "1"], ["-typePrefix", "Pp"], ["-renamePolicy", "3"], ["-ig"]], r.choice([0, 0, 1, 2])): o += x
        if "-slim" in o and ("-XER" in o or slim_chain(spec)): o.remove("-slim")      # known finding
        if "-ig" in o and any(t.k == "ref" and t.cons and model.resolve(spec, t)[0].k == "seqof" for x in spec.types.values() for t in model.walk(x)): o.remove("-ig")      # known finding of P12
        return o

    def probes(self):
        rng = lambda a, b: ("size", ("rng", a, b, False, False))
        s = mkspec({"TyA": T("seqof", elem=T("bool"), cons=[rng(0, 9)]), "TyB": T("ref", ref="TyA"), "TyC": T("seq", comps=[Comp("aa", T("ref", ref="TyB", cons=[rng(1, 7)]))])})
        x = mkspec({"TyA": T("int", cons=[("rng", 0, 9, False, False)])})
        g = mkspec({"TyA": T("seqof", elem=T("bool"), cons=[("size", ("or", ("rng", 1, 2, False, False), ("val", 7)))]), "TyB": T("ref", ref="TyA", cons=[rng(6, 7)])})
        e = mkspec({"TyA": T("seqof", elem=T("choice", comps=[Comp("aa", T("bool")), Comp("bb", T("null"))]), cons=[rng(0, 9)]), "TyB": T("ref", ref="TyA", cons=[rng(1, 7)])})
        return [("slim-XER-integer", x, ["-c", "-atc", "-XER", "-slim"], []), ("size-gap", g, ["-c", "-atc", "-uPER"], [(n, "suite") for n in g.types]), ("constrained-list-of-inline", e, ["-c", "-atc", "-uPER"], []), ("slim-constrained-chain", s, ["-c", "-atc", "-uPER", "-slim"], [])]


@register
class P14ada(Suites):
    sub = "P14.ada"
    quick, thorough = 14, 300

    def make(self, r):
        return plain(gen.Gen(r, gen.Prof(types=5, depth=r.choice([1, 2]), big=0, maxelems=12, enum_max=20, tricky=False)).spec())

    def options(self, r, spec): return ["-Ada", "-atc"] + r.choice([["-uPER"], ["-ACN"], ["-uPER", "-ACN"]])


# ---------------------------------------------------------------- P11
@register
class P11(Check):
    pid, sub = "P11", "P11.xer"
    opts = ["-XER", "-equal"]
    quick, thorough = 40, 900
    limit = (90, 600)
    rule = "a case is a type with a valid value, encoded in XML, parsed by an independent XML reader and decoded again; it is non-trivial when the document has more than 60 octets; distinct by type and value"

    def prof(self, r): return gen.Prof(types=7, depth=r.choice([1, 2, 2]), big=0, maxelems=8, enum_max=30, tricky=False)

    def cases(self, r, spec, roots, n):
        out = []
        for t in roots:
            for _ in range(n):
                try: out.append((t, gen.gen_value(spec, r, rt(t))))
                except gen.Unsat: pass
            if isinstance(spec.types[t], T) and spec.types[t].k in ("seqof", "str", "octs", "bits"):
                try: out.append((t, max((gen.gen_value(spec, r, rt(t)) for _ in range(12)), key=len)))
                except (gen.Unsat, TypeError): pass
        return out

    def requests(self, b, spec, c): return [R.line_enc(b, c[0], c[1], co="X", fill=0), "%d S" % b.idx[c[0]]]

    def evaluate(self, b, spec, cases):
        ls = [R.line_enc(b, c[0], c[1], co="X", fill=0) for c in cases]
        res = b.run(ls)
        out, dec = [], []
        for i, (c, x) in enumerate(zip(cases, res)):
            if isinstance(x, dict):
                if x["crash"] != "not run": out.append((i, "crash", "%s: the encoder fails: %s" % (self.show(spec, c), x["crash"])))
                continue
            e = R.Enc(x)
            if e.oob: continue
            if not e.ok: out.append((i, "encode-refused", "%s: the encoder refuses with error %d" % (self.show(spec, c), e.err))); continue
            doc = bytes.fromhex(e.hex)
            doc = doc[:(e.bits + 7) // 8]
            try:
                root = ET.fromstring(doc.decode("utf-8"))
            except (ET.ParseError, UnicodeDecodeError) as x:
                if not has_control(c[1]): out.append((i, "malformed", "%s is encoded as no well-formed XML (%s): %s" % (self.show(spec, c), x, cut(repr(doc), 300))))
                root = None
            if root is not None:
                m = text_of(spec, rt(c[0]), c[1], root, c[0])
                if m: out.append((i, "text", "%s: %s: %s" % (self.show(spec, c), m, cut(repr(doc), 400))))
            dec.append((i, doc))
        ans = b.run([R.line_dec(b, cases[i][0], doc.hex(), co="X") for i, doc in dec])
        for (i, doc), x in zip(dec, ans):
            c = cases[i]
            if isinstance(x, dict):
                if x["crash"] != "not run": out.append((i, "crash", "%s: the decoder fails: %s" % (self.show(spec, c), x["crash"])))
                continue
            d = R.Dec(x, spec, rt(c[0]))
            if not d.ok: out.append((i, "decode-refused", "%s: its encoding is refused with error %d: %s" % (self.show(spec, c), d.err, cut(repr(doc), 300)))); continue
            if d.garbled or not model.eq(spec, rt(c[0]), d.value, c[1]): out.append((i, "round-trip", "%s is decoded to %s from %s" % (self.show(spec, c), cut(str(d.value)), cut(repr(doc), 300))))
        return out

    def nontrivial(self, spec, c): return len(str(c[1])) > 12


def has_control(v):
    if isinstance(v, str): return any(ord(x) < 32 and x not in "\t\n" or ord(x) > 126 for x in v)
    if isinstance(v, dict): return any(has_control(x) for x in v.values())
    if isinstance(v, (list, tuple)): return any(has_control(x) for x in v)
    return False


def text_of(spec, t, v, e, name):
    """what is wrong with the element for a value; None when it denotes it"""
    b, _ = model.resolve(spec, t)
    k = b.k
    tx = (e.text or "")
    if k == "int": return None if tx.strip() == str(v) else "the text of <%s> is no %s" % (e.tag, v)
    if k == "octs": return None if re.sub(r"\s", "", tx).lower() == v.hex() else "the text of <%s> is not the octets" % e.tag if isinstance(v, bytes) else None
    if k == "seq":
        want = [c.name for c in b.comps if not c.acnonly and c.name in v]
        have = [x.tag for x in e]
        if [x for x in have if x not in [c.name for c in b.comps]]: return "unexpected element in %s" % have
        if [x for x in want if x in have] != have or any(x not in have and next(c for c in b.comps if c.name == x).opt is None for x in want): return "the elements are %s" % have
        for x in e:
            c = next(c for c in b.comps if c.name == x.tag)
            m = text_of(spec, c.t, v[c.name], x, x.tag)
            if m: return m
    return None
