"""P07: options that select code style or memory representation do not change what is encoded and decoded."""
from . import acn, cdrv, gen, model, ref, run as R
from .checks import Check, register, rt, bits2hex
from .props import cut, bytes_mutation
from .props_acn import AcnSpecs, above127, reference

PRE = "Xy_"


def variant(r, spec, base, small):
    """(options, compiler flags)"""
    o, f = list(base), []
    pool = [["-slim"], ["-eee", "1"], ["-eee"], ["-typePrefix", PRE], ["-renamePolicy", r.choice("0123")], ["-ig"], ["-sm"], ["-atc"], ["-equal"], ["-uPER"], ["-ACN"], ["-XER"]]
    if "-ACN" in base and acn.deferrable(spec): pool += [["-acnDeferred"]] * 2
    if small: pool += [["-wordSize", "4", "-fpWordSize", "4"]] * 3
    for x in r.sample(pool, r.choice([1, 1, 2, 3, 4])):
        if x[0] not in o: o += x
    if "-XER" in o and "-acnDeferred" in o: o.remove("-XER")
    if "-wordSize" in o: f += ["-DWORD_SIZE=4", "-DFP_WORD_SIZE=4"]
    if "-sm" in o and r.random() < 0.5: f += ["-DASN1SCC_STREAMING"]
    return [o, f]


class Both:
    pass


class Options(Check):
    pid = "P07"
    quick, thorough = 20, 500
    limit = (100, 700)
    cases_per_type = 20
    codec = "U"
    sanitize = "address"
    rule = "a case is a type with a value, or with octets to decode, given to code generated with the plain options and with a random set of other options; it is non-trivial when its encoding or input has more than 8 bits; distinct by type, value or octets"

    def options(self, r, spec):
        small = not any(model.resolve(spec, t)[0].k == "real" for x in spec.types.values() for t in model.walk(x)) and getattr(spec, "small", False) and not any(isinstance((t.acn or {}).get("size"), int) and t.acn["size"] >= 32 for x in spec.types.values() for t in spec_types(x))
        return [[self.opts, []]] + [variant(r, spec, self.opts, small) for _ in range(2)]

    def build(self, spec, d, opts):
        b = Both()
        b.v = []
        for i, (o, f) in enumerate(opts):
            pre = PRE if "-typePrefix" in o else ""
            b.v.append(R.Built(spec, "%s/%d" % (d, i), o, cflags=f, sanitize=self.sanitize, tn=lambda n, p=pre: p + cdrv.cn(n)))
        b.opts = opts
        return b

    def pattern(self, spec, t, v): return ref.uper(spec, rt(t), v)

    def value(self, spec, r, t): return gen.gen_value(spec, r, rt(t))

    def cases(self, r, spec, roots, n):
        out = []
        for t in roots:
            base = []
            for _ in range(n // 2):
                try:
                    v = self.value(spec, r, t)
                    w = self.pattern(spec, t, v)
                    if w is None: continue
                    base.append("".join(r.choice("01") if x == "?" else x for x in w))
                    out.append((t, "E", v))
                except (gen.Unsat, KeyError, ValueError):
                    pass
            for w in base: out.append((t, "D", bits2hex(w)))
            for _ in range(n - 2 * len(base) + n // 2): out.append((t, "D", bytes_mutation(r, base).hex()))
        return out

    def evaluate(self, b, spec, cases):
        res = []
        for x in b.v:
            res.append(x.run([R.line_enc(x, c[0], c[2], co=self.codec) if c[1] == "E" else R.line_dec(x, c[0], c[2], co=self.codec) for c in cases]))
        out = []
        for k in range(1, len(b.v)):
            names = "%s instead of %s" % (" ".join(b.opts[k][0] + b.opts[k][1]), " ".join(b.opts[0][0]))
            for i, c in enumerate(cases):
                x, y = res[0][i], res[k][i]
                if isinstance(x, dict): continue                 # P05
                if isinstance(y, dict):
                    if y["crash"] != "not run": out.append((i, "crash", "%s: with %s the code fails: %s" % (self.show(spec, c), names, y["crash"])))
                    continue
                if c[1] == "E":
                    e, f = R.Enc(x), R.Enc(y)
                    if e.oob or f.oob: continue
                    if (e.ok, e.bits, e.hex) != (f.ok, f.bits, f.hex) and (e.ok or f.ok): out.append((i, "encode", "%s is encoded as %s, with %s as %s" % (self.show(spec, c), cut(x), names, cut(y))))
                    continue
                d, g = R.Dec(x, spec, rt(c[0])), R.Dec(y, spec, rt(c[0]))
                if d.ok and (d.garbled or above127(d.value)): continue
                if d.ok != g.ok: out.append((i, "verdict", "%s: accepted: %s, with %s: %s (error %s)" % (self.show(spec, c), d.ok, names, g.ok, g.err if d.ok else d.err))); continue
                if not d.ok: continue
                if g.garbled or not same(d.value, g.value): out.append((i, "value", "%s is decoded to %s, with %s to %s" % (self.show(spec, c), cut(str(d.value)), names, cut(str(g.value))))); continue
                if d.bits != g.bits: out.append((i, "consumed", "%s: %d bits consumed, with %s %d" % (self.show(spec, c), d.bits, names, g.bits))); continue
                if d.re and g.re and (d.re[0], d.re[2:]) != (g.re[0], g.re[2:]): out.append((i, "encode", "%s: the decoded value is encoded as %s, with %s as %s" % (self.show(spec, c), cut(str(d.re)), names, cut(str(g.re)))))
        return out

    def nontrivial(self, spec, c): return c[1] == "E" or len(c[2]) > 2


def spec_types(x):
    """with the inserted fields"""
    for t in model.walk(x):
        yield t
        for c in t.comps or []:
            if c.acnonly: yield c.t


def same(a, b): return repr(a) == repr(b)


def small_ints(r, g):
    """half of the specifications fit a 4 octet word"""
    g.s.small = r.random() < 0.5
    if g.s.small:
        g.p.ubits, g.p.real, g.p.oid, g.p.unbounded = 31, False, False, False
    return g


@register
class P07uper(Options):
    sub = "P07.uper"
    opts = ["-uPER"]

    def prof(self, r): return gen.Prof(types=6, depth=r.choice([1, 2, 2]), big=0.02, maxelems=12, enum_max=30)

    def make(self, r): return small_ints(r, gen.Gen(r, self.prof(r))).spec()


@register
class P07acn(Options):
    sub = "P07.acn"
    codec = "A"
    opts = ["-ACN"]
    roots = AcnSpecs.roots

    def prof(self, r): return gen.Prof(types=5, depth=r.choice([1, 2, 2]), big=0, tricky=False, maxelems=12, enum_max=20)

    def make(self, r):
        g = gen.Gen(r, self.prof(r))
        g.cap = lambda: r.choice([6, 20, 60, 300])
        small_ints(r, g)
        for x in g.spec().types.values():
            for t in model.walk(x):
                if t.k == "str": t.sk = "IA5String"
        return acn.Deco(g, plain=r.random() < 0.4).spec()

    def pattern(self, spec, t, v):
        k, w = reference(spec, (t, v, 0))
        return w if k == "ok" else None

    def value(self, spec, r, t): return acn.fix_value(spec, rt(t), gen.gen_value(spec, r, rt(t)))
