"""P02 (and the ACN part of P05): generated ACN encoding properties against the reference encoder."""
from . import acn, gen, model, run as R, cdrv
from .checks import Check, register, rt, bits2hex
from .model import T, Comp
from .props import cut, diff, bytes_mutation, mkspec


def reference(spec, c):
    """('ok', pattern) | ('conflict', text) | ('ambiguous', '')"""
    try:
        return "ok", acn.encode(spec, rt(c[0]), c[1])
    except acn.Conflict as e:
        return "conflict", str(e)
    except acn.Ambiguous:
        return "ambiguous", ""


def acn_cases(spec, r, roots, n, tries=12):
    out = []
    for t in roots:
        for _ in range(n):
            try:
                c = None
                for k in range(r.choice([1, tries, tries])):
                    c = (t, acn.fix_value(spec, rt(t), gen.gen_value(spec, r, rt(t))), r.choice([0, 255, 165]))
                    if not model.valid(spec, rt(t), c[1]): c = None; continue
                    if reference(spec, c)[0] == "ok": break
                if c is not None and reference(spec, c)[0] != "ambiguous": out.append(c)
            except gen.Unsat:
                continue
    return out


@register
class P02(Check):
    pid, sub = "P02", "P02.acn"
    opts = ["-ACN"]
    limit = (60, 640)
    quick, thorough = 56, 1400
    rule = "a case is a type with ACN properties and a value drawn for it; it is non-trivial when its encoding has more than 8 bits, and distinct by the text of the type and the value"

    def prof(self, r): return gen.Prof(types=7, depth=r.choice([1, 2, 2, 3]), big=0, tricky=False, maxelems=12, enum_max=20)

    def make(self, r):
        g = gen.Gen(r, self.prof(r))
        g.cap = lambda: r.choice([6, 20, 60, 300])
        g.spec()
        return acn.Deco(g, plain=r.random() < 0.4).spec()

    def probes(self):
        rng = lambda a, b: ("rng", a, b, False, False)
        ref = lambda n, **k: T("ref", ref=n, **k)
        octs = lambda det, a=0: T("octs", cons=[("size", rng(a, 3))], acn={"size": det})
        ab = lambda: [Comp("aa", T("bool")), Comp("bb", T("int", cons=[rng(0, 7)]))]
        def ins(n, ty, sample=0):
            c = Comp(n, ref(ty), acnonly=ty)
            c.sample = sample
            return c
        df = self.opts + ["-acnDeferred"]
        sp = lambda prm=None, **ty: asn(mkspec(ty), prm)
        def asn(s, prm):
            s.use_acn = True
            for n, x in (prm or {}).items(): s.params[n] = x
            return s
        enum = sp({"TyP": [("TyS", "prm")]}, TyS=T("enum", items=[("aa", 1), ("bb", 5)], acn={"enc": "pos-int", "size": 8}), TyP=T("choice", comps=ab(), acn={"det": "prm"}),
                  TyA=T("seq", comps=[ins("sel", "TyS", "aa"), Comp("cc", ref("TyP", args=["sel"]))]))
        unsup = sp({"TyP": [("TyL", "prm")]}, TyL=T("int", cons=[rng(0, 9)], acn={"enc": "ASCII", "size": 16}), TyP=octs("prm"), TyA=T("seq", comps=[ins("len", "TyL"), Comp("cc", ref("TyP", args=["len"]))]))
        key = sp({"TyP": [("TyK", "prm")]}, TyK=T("str", sk="IA5String", cons=[("size", ("val", 2))], acn={"enc": "ASCII"}),
                 TyP=T("choice", comps=[Comp("aa", T("bool"), pres=("eq", [("prm", "AA")])), Comp("bb", T("bool"), pres=("eq", [("prm", "BB")]))]), TyA=T("seq", comps=[ins("key", "TyK", "AA"), Comp("cc", ref("TyP", args=["key"]))]))
        both = sp({"TyP": [("TyL", "prm")]}, TyL=T("int", cons=[rng(0, 9)]), TyP=octs("prm"), TyA=T("seq", comps=[ins("len", "TyL"), Comp("cc", ref("TyP", args=["len"])), Comp("dd", octs("len"))]))
        nest = sp({"TyP": [("TyL", "prm")]}, TyL=T("int", cons=[rng(0, 65535)], acn={"enc": "pos-int", "size": 64}), TyP=octs("prm"),
                  TyA=T("seq", comps=[Comp("bb", T("seq", comps=[Comp("ee", T("bool")), ins("len", "TyL")])), Comp("cc", ref("TyP", args=["bb.len"]))]))
        absent = sp(TyL=T("int", cons=[rng(0, 9)]), TyA=T("seq", comps=[ins("len", "TyL"), Comp("cc", octs("len"), opt="OPT")]))
        fixed = sp(TyA=T("octs", cons=[("size", ("val", 3))], acn={"size": "null-terminated", "term": ("H", "FFFF")}))
        alig = sp({"TyP": [("TyL", "prm")]}, TyL=T("int", cons=[rng(0, 9)], acn={"enc": "pos-int", "size": 16, "align": "word"}), TyP=octs("prm"), TyA=T("seq", comps=[Comp("aa", T("bool")), ins("len", "TyL"), Comp("cc", ref("TyP", args=["len"]))]))
        return [("deferred-aligned-determinant", alig, df, [("TyA", {"aa": True, "cc": b"1"}, 0)]), ("deferred-enumerated-determinant", enum, df, [("TyA", {"cc": ("bb", 3)}, 0)]), ("deferred-unsupported-determinant", unsup, df, [("TyA", {"cc": b"12"}, 0)]),
                ("deferred-ASCII-key", key, df, [("TyA", {"cc": ("bb", True)}, 0)]), ("deferred-argument-and-local-use", both, df, [("TyA", {"cc": b"1", "dd": b"2"}, 0)]),
                ("deferred-nested-determinant", nest, df, [("TyA", {"bb": {"ee": True}, "cc": b"1"}, 0)]), ("determinant-of-absent-component", absent, self.opts, [("TyA", {}, 0)]),
                ("null-terminated-fixed-size", fixed, self.opts, [("TyA", b"123", 0)])]

    def options(self, r, spec): return self.opts + (["-acnDeferred"] if r.random() < 0.6 and acn.deferrable(spec) else [])

    def roots(self, spec): return [n for n in spec.types if n not in spec.params]

    def cases(self, r, spec, roots, n): return acn_cases(spec, r, [x for x in roots if x not in spec.params], n)

    def evaluate(self, b, spec, cases):
        out, dec = [], []
        for i, a in enumerate(b.run([R.line_enc(b, n, v, co="A", fill=f) for n, v, f in cases])):
            n, v, f = cases[i]
            e = R.Enc(a)
            what = "%s %s" % (n, cut(str(v)))
            if e.crash:
                if e.crash != "not run": out.append((i, "crash", "the generated code fails: " + e.crash))
                continue
            if e.oob: continue
            k, pat = reference(spec, cases[i])
            if k == "conflict":
                if e.ok: out.append((i, "conflict-accepted", "%s is encoded although the users of an inserted field disagree: %s" % (what, pat)))
                elif e.err == 0: out.append((i, "no-error-code", "%s is refused without an error code" % what))
                continue
            if k != "ok": continue
            if not e.ok: out.append((i, "encode-refused", "%s is refused with error %s" % (what, e.err))); continue
            if e.err: out.append((i, "error-on-success", "%s is encoded, but the error code is %s" % (what, e.err))); continue
            if not acn.matches(pat, e.bitstr() or ""): out.append((i, "encode-bits", "%s is encoded as %s" % (what, diff(e.bitstr() or "", pat)))); continue
            w = e.bitstr()
            dec += [(i, w, R.line_dec(b, n, bits2hex(w), co="A", fill=f ^ 90)), (i, w, R.line_dec(b, n, bits2hex(w) + "c3", co="A", fill=f))]
        bad = set()
        for (i, w, _), a in zip(dec, b.run([x[2] for x in dec])):
            if i in bad: continue
            n, v, f = cases[i]
            what = "%s %s" % (n, cut(str(v)))
            d = R.Dec(a, spec, rt(n))
            m = None
            if d.crash:
                if d.crash != "not run": m = ("crash", "the generated decoder fails: " + d.crash)
            elif not d.ok: m = ("decode-refused", "the encoding of %s is refused with error %s" % (what, d.err))
            elif d.err: m = ("error-on-success", "decoding %s reports success together with error %s" % (what, d.err))
            elif d.garbled or not model.eq(spec, rt(n), d.value, v): m = ("decode-value", "%s is decoded as %s" % (what, cut(d.garbled or str(d.value))))
            elif d.bits != len(w): m = ("decode-length", "decoding %s consumed %d of %d bits" % (what, d.bits, len(w)))
            if m:
                bad.add(i)
                out.append((i,) + m)
        return out

    def nontrivial(self, spec, c):
        k, w = reference(spec, c)
        return k == "ok" and len(w) > 8

    def case_id(self, spec, c): return model.asn1(spec) + model.acn(spec) + repr(c[:2])


class AcnSpecs:
    """what the checks over ACN-decorated specifications share"""
    opts = ["-ACN"]
    prof, make, roots = P02.prof, P02.make, P02.roots

    def options(self, r, spec): return self.opts + (["-acnDeferred"] if r.random() < 0.3 and acn.deferrable(spec) else [])


@register
class P04acn(AcnSpecs, Check):
    pid, sub = "P04", "P04.acn"
    limit = (80, 640)
    quick, thorough = 32, 900
    cases_per_type = 12

    def cases(self, r, spec, roots, n):
        out = []
        for t in roots:
            for _ in range(n):
                try:
                    vs = []
                    for _ in range(5):
                        v = acn.fix_value(spec, rt(t), gen.gen_value(spec, r, rt(t)))
                        c = (t, v, r.choice([0, 255]))
                        if not model.valid(spec, rt(t), v): continue
                        k, w = reference(spec, c)
                        if k == "ok": vs.append((len(w), len(vs), c))
                    if vs: out.append(max(vs)[2])
                except gen.Unsat:
                    continue
        return out

    def requests(self, b, spec, c): return ["%d S" % b.idx[c[0]], R.line_enc(b, c[0], c[1], co="A", fill=c[2])]

    def judge(self, spec, c, ans):
        sz = [int(x) for x in ans[0].split()]
        bi, by = sz[2], sz[3]
        if by != (bi + 7) // 8: return ("bytes-vs-bits", "%s announces %d ACN bits and %d bytes" % (c[0], bi, by))
        w = reference(spec, c)[1]
        if len(w) > bi: return ("bound-too-small", "%s %s has %d ACN bits, %d are announced" % (c[0], cut(str(c[1])), len(w), bi))
        e = R.Enc(ans[1])
        if e.crash: return ("crash", e.crash)
        if e.oob: return None
        if not e.ok: return ("refused", "%s %s does not fit the announced %d bytes: error %s" % (c[0], cut(str(c[1])), by, e.err))
        if e.bits > bi: return ("over", "%s %s takes %d ACN bits, %d are announced" % (c[0], cut(str(c[1])), e.bits, bi))

    def nontrivial(self, spec, c): return reference(spec, c)[0] == "ok" and len(reference(spec, c)[1]) > 8

    case_id = P02.case_id


@register
class P05acn(AcnSpecs, Check):
    pid, sub = "P05", "P05.acn"
    limit = (85, 700)
    quick, thorough = 40, 1200
    cases_per_type = 60
    sanitize = "address,bounds"
    cflags = ("-fno-sanitize-recover=all",)

    def make(self, r):
        g = gen.Gen(r, self.prof(r))
        g.cap = lambda: r.choice([6, 20, 60, 300])
        for x in g.spec().types.values():
            for t in model.walk(x):
                if t.k == "str": t.sk = "IA5String"      # nothing keeps octets outside of the alphabet out of a NumericString (known finding of P03)
        return acn.Deco(g, plain=r.random() < 0.4).spec()

    def cases(self, r, spec, roots, n):
        out = []
        for t in roots:
            base = []
            for _ in range(6):
                try:
                    k, w = reference(spec, (t, acn.fix_value(spec, rt(t), gen.gen_value(spec, r, rt(t))), 0))
                    if k == "ok": base.append("".join(r.choice("01") if x == "?" else x for x in w))
                except (gen.Unsat, KeyError, ValueError):
                    pass
            for i in range(n): out.append((t, "A", bytes_mutation(r, base).hex(), r.choice([0, 255, 165])))
        return out

    def probes(self):
        pad = mkspec({"TyA": T("seq", comps=[Comp("aa", T("bool")), Comp("bb", T("null", acn={"align": "word"}))])}, use_acn=True)
        high = mkspec({"TyA": T("str", sk="IA5String", cons=[("size", ("val", 1))], acn={"enc": "ASCII"})}, use_acn=True)
        return [("padding-past-the-end", pad, self.opts, [("TyA", "A", "80", 0, "probe")]), ("ASCII-above-127", high, self.opts, [("TyA", "A", "ff", 0, "probe")])]

    def requests(self, b, spec, c): return ["%d D A %d -%s" % (b.idx[c[0]], c[3], c[2])]

    def judge(self, spec, c, ans):
        n = c[0]
        d = R.Dec(ans[0], spec, rt(n))
        if d.crash: return ("crash", d.crash)
        if not d.ok: return ("no-error-code", "decoding %s fails without an error code" % n) if d.err == 0 else None
        over = d.bits - 4 * len(c[2])
        if over > 0 and (c[-1] == "probe" or not (over < 32 and "align-to-next" in model.acn(spec))): return ("consumed", "decoding %s consumed %d of %d bits" % (n, d.bits, 4 * len(c[2])))
        if d.garbled: return ("garbled", "decoding %s reports success with %s" % (n, d.garbled))
        if not d.valid: return ("invalid", "decoding %s reports success for %s, which the validity function refuses" % (n, cut(str(d.value))))
        if not model.valid(spec, rt(n), d.value) and (c[-1] == "probe" or not above127(d.value)): return ("invalid", "decoding %s reports success for %s, which violates the constraints" % (n, cut(str(d.value))))

    def nontrivial(self, spec, c): return len(c[2]) >= 4


def above127(v):
    """some string has a character outside of IA5"""
    if isinstance(v, str): return any(ord(c) > 127 for c in v)
    if isinstance(v, dict): return any(above127(x) for x in v.values())
    if isinstance(v, (list, tuple)): return any(above127(x) for x in v)
    return False
