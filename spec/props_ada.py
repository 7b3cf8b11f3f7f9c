"""P06: the C and the Ada code generated from one specification agree on every input."""
from . import acn, gen, model, ref, run as R, adrv
from .model import Comp, T
from .checks import Check, register, rt, bits2hex
from .props import cut, bytes_mutation, has_kind, mkspec
from .props_acn import AcnSpecs, above127, reference


class Both:
    pass


def inline_elem(b): return b.k == "seqof" and b.elem.k not in ("ref", "int", "bool", "real", "null")


def ascii_det(spec):
    """an inserted integer in ASCII: its Ada code does not compile when it is not negative (known finding)"""
    def is_ascii(t):
        b, _ = model.resolve(spec, t)
        return b.k == "int" and "ASCII" in ((t.acn or {}).get("enc"), (b.acn or {}).get("enc"))
    return any(c.acnonly and is_ascii(c.t) for x in spec.types.values() for t in model.walk(x) if t.k == "seq" for c in t.comps)


def ada_safe(spec):
    """without the constrained references whose Ada code does not compile (known findings)"""
    for x in spec.types.values():
        for t in model.walk(x):
            if t.k == "ref" and t.cons and (inline_elem(model.resolve(spec, t)[0]) or spec.types[t.ref].k == "ref" or model.resolve(spec, t)[0].k == "str"): t.cons = []
    return spec


def c_probe(c): return c[-1] == "probe"


def unranged(spec, t):
    """contains an integer whose Ada decoder does not know the range of the target"""
    def go(t):
        b, _ = model.resolve(spec, t)
        a = model.acn_of(spec, t) if hasattr(model, "acn_of") else (t.acn or b.acn)
        return (b.k in ("int", "enum") and bool(a) and bool(a.get("enc")) and not isinstance(a.get("size"), int)) or any(go(x) for x in model.children(b))
    return go(t)


def bcd(spec, t):
    b, _ = model.resolve(spec, t)
    return "BCD" in ((t.acn or {}).get("enc"), (b.acn or {}).get("enc")) or any(bcd(spec, x) for x in model.children(b))


def huge(v):
    if isinstance(v, dict): return any(huge(x) for x in v.values())
    if isinstance(v, (list, tuple)): return any(huge(x) for x in v)
    return isinstance(v, int) and abs(v) >= 10 ** 18


class Agree(Check):
    pid = "P06"
    quick, thorough = 24, 700
    limit = (110, 700)
    cases_per_type = 24
    codec = "U"
    rule = "a case is a type and the contents of a buffer of the announced size, given to the C and the Ada decoder; it is non-trivial when the C decoder accepts it or it has at least 4 octets; distinct by type and contents"

    def build(self, spec, d, opts):
        b = Both()
        b.c = R.Built(spec, d + "/c", opts, sanitize="address")
        b.a = adrv.BuiltAda(spec, d + "/a", opts, self.codec)
        return b

    def pattern(self, spec, t, v): return ref.uper(spec, rt(t), v)

    def value(self, spec, r, t): return gen.gen_value(spec, r, rt(t))

    def cases(self, r, spec, roots, n):
        out = []
        for t in roots:
            base = []
            for _ in range(n // 2):
                try:
                    v = self.value(spec, r, t)
                    w = self.pattern(spec, t, v)
                    if w is None: continue
                    w = "".join(r.choice("01") if x == "?" else x for x in w)
                    base.append(w)
                    out.append((t, bits2hex(w), True))
                except (gen.Unsat, KeyError, ValueError):
                    pass
            for _ in range(n - len(base)): out.append((t, bytes_mutation(r, base).hex(), False))
        return out

    def evaluate(self, b, spec, cases):
        names = sorted({c[0] for c in cases})
        cs = b.c.run(["%d S" % b.c.idx[n] for n in names])
        as_ = b.a.run(["%d %s S" % (b.a.idx[n], self.codec) for n in names])
        size, out = {}, []
        for n, x, y in zip(names, cs, as_):
            size[n] = int(x.split()[1 if self.codec == "U" else 3])
            if y.split()[0] != str(size[n]): out.append((next(i for i, c in enumerate(cases) if c[0] == n), "size", "C announces %d octets for %s, Ada %s" % (size[n], n, y)))
        ok = [i for i, c in enumerate(cases) if size[c[0]] <= 40000]
        def buf(c):
            k = max(1, size[c[0]]) * 2
            return (c[1] + "0" * k)[:k]
        rc = b.c.run(["%d D %s 165 -%s" % (b.c.idx[cases[i][0]], self.codec, buf(cases[i])) for i in ok])
        ra = b.a.run(["%d %s %s" % (b.a.idx[cases[i][0]], self.codec, buf(cases[i])) for i in ok])
        for i, x, y in zip(ok, rc, ra):
            n = cases[i][0]
            d = R.Dec(x, spec, rt(n))
            if d.crash: continue                     # property P05
            what = "the octets %s for %s" % (cut(buf(cases[i]), 80), n)
            f = y.split()
            if d.ok and (d.garbled or above127(d.value)): continue     # known finding of P05
            if not d.ok and "CONSTRAINT_ERROR" in y and y.startswith("exception") and not c_probe(cases[i]) and unranged(spec, rt(n)): continue       # known finding
            at = "encode" if d.ok and y.startswith("1") else "decode"
            if "exception " in y or y.startswith("crash"): out.append((i, "ada-%s-exception" % at, "the Ada code raises an exception for %s: %s" % (what, cut(y, 200)))); continue
            f = (f + ["?", "?"])[:max(2, len(f))]
            if d.ok and f[0] != "1" and d.re and d.bits > d.re[2] and has_kind(spec, rt(n), ("real",)): continue      # padded mantissas and exponents: compared by P33
            if d.ok and f[0] == "0" and bcd(spec, rt(n)) and huge(d.value): continue      # beyond the digits the Ada runtime promises (its preconditions)
            if d.ok != (f[0] == "1"): out.append((i, "verdict", "%s: C %s, Ada %s" % (what, "accepts" if d.ok else "refuses with error %d" % d.err, "accepts" if f[0] == "1" else "refuses with error " + f[1]))); continue
            if not d.ok: continue
            if d.bits != int(f[1]): out.append((i, "consumed", "%s: C consumes %d bits, Ada %s" % (what, d.bits, f[1]))); continue
            if d.re is None: continue
            if d.re[0] != (f[2] == "1"): out.append((i, "encode-verdict", "%s: the decoded value is encoded by C: %s, by Ada: %s" % (what, d.re[0], f[2]))); continue
            if d.re[0]:
                cb, ab = bin_of(d.re[3], d.re[2]), bin_of(f[4][1:], int(f[3]))
                if cb != ab: out.append((i, "encode-bits", "%s: the decoded value is encoded differently: C %d bits %s, Ada %s bits %s" % (what, d.re[2], cut(d.re[3], 80), f[3], cut(f[4], 80))))
        return out

    def nontrivial(self, spec, c): return c[2] is True or len(c[1]) >= 8


def bin_of(h, n): return "".join(format(x, "08b") for x in bytes.fromhex(h))[:n]


@register
class P06uper(Agree):
    sub = "P06.uper"
    opts = ["-uPER", "-equal"]

    def make(self, r): return ada_safe(gen.Gen(r, self.prof(r)).spec())

    def probes(self):
        rng = lambda a, b: ("size", ("rng", a, b, False, False))
        s1 = mkspec({"TyA": T("str", sk="IA5String", cons=[rng(0, 32)]), "TyB": T("ref", ref="TyA", cons=[rng(9, 21)])})
        s2 = mkspec({"TyA": T("octs", cons=[rng(0, 9)]), "TyB": T("ref", ref="TyA"), "TyC": T("seq", comps=[Comp("aa", T("ref", ref="TyB", cons=[rng(4, 5)]))])})
        s3 = mkspec({"TyA": T("int"), "TyB": T("ref", ref="TyA", cons=[("rng", 0, None, False, False)]), "TyC": T("ref", ref="TyB", cons=[("rng", 0, None, False, False)])})
        s4 = mkspec({"TyA": T("seqof", elem=T("seq", comps=[Comp("aa", T("bool"))]), cons=[rng(3, 6)]), "TyB": T("ref", ref="TyA", cons=[rng(4, 5)])})
        return [("constrained-list-of-inline", s4, self.opts, []), ("constrained-string-reference", s1, self.opts, []), ("constrained-reference-chain", s2, self.opts, []), ("constrained-integer-chain", s3, self.opts, [])]

    def prof(self, r): return gen.Prof(types=6, depth=r.choice([1, 2, 2]), big=0, maxelems=12, enum_max=20)


@register
class P06acn(Agree):
    sub = "P06.acn"
    codec = "A"
    opts = ["-ACN"]
    roots = AcnSpecs.roots

    def make(self, r):
        while True:
            s = self.make1(r)
            if not ascii_det(s): return s

    def make1(self, r):
        g = gen.Gen(r, self.prof(r))
        g.cap = lambda: r.choice([6, 20, 60, 300])
        for x in ada_safe(g.spec()).types.values():
            for t in model.walk(x):
                if t.k == "str": t.sk = "IA5String"      # nothing keeps octets outside of the alphabet out of a NumericString (known finding of P03)
        return acn.Deco(g, plain=r.random() < 0.4).spec()

    def prof(self, r): return gen.Prof(types=5, depth=r.choice([1, 2, 2]), big=0, tricky=False, maxelems=12, enum_max=20)

    def probes(self):
        s = mkspec({"TyA": T("int", cons=[("rng", 5, 9, False, False)], acn={"enc": "ASCII", "size": "null-terminated", "term": ("H", "FF")})}, use_acn=True)
        ins = Comp("len", T("ref", ref="TyL", acn={"enc": "ASCII", "size": 16}), acnonly="TyL")
        ins.sample = 0
        d = mkspec({"TyL": T("int", cons=[("rng", 0, 5, False, False)]), "TyA": T("seq", comps=[ins, Comp("aa", T("bits", cons=[("size", ("rng", 0, 2, False, False))], acn={"size": "len"}))])}, use_acn=True)
        return [("ASCII-determinant", d, self.opts, []), ("unranged-integer", s, self.opts, [("TyA", "2b30ff", "probe")])]

    def pattern(self, spec, t, v):
        k, w = reference(spec, (t, v, 0))
        return w if k == "ok" else None

    def value(self, spec, r, t): return acn.fix_value(spec, rt(t), gen.gen_value(spec, r, rt(t)))
