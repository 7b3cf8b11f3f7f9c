"""The specification-level properties decided through the C driver."""
import random
from . import gen, model, ref, run as R, cdrv
from .checks import Check, register, rt, bits2hex
from .model import T, Comp, Spec

U64 = 2**64 - 1


def cut(s, n=240): return s if len(s) <= n else s[:n] + "...(%d)" % len(s)


def diff(a, b):
    i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
    return "%d bits, expected %d, first difference at bit %d: ...%s, expected ...%s" % (len(a), len(b), i, a[max(0, i - 8):i + 48], b[max(0, i - 8):i + 48])


def mkspec(types, **kw):
    s = Spec()
    s.types = types
    for k, v in kw.items(): setattr(s, k, v)
    return s


class ValueCheck(Check):
    def cases(self, r, spec, roots, n):
        out = []
        for t in roots:
            for _ in range(n):
                try:
                    v = gen.gen_value(spec, r, rt(t))
                except gen.Unsat:
                    continue
                out.append((t, v, r.choice([0, 255, 165])))
        return out


@register
class P01(ValueCheck):
    pid, sub = "P01", "P01.uper"
    limit = (55, 640)

    def prof(self, r): return gen.Prof(types=9, depth=r.choice([1, 2, 2, 3]), big=r.choice([0.03, 0.03, 0.2]))

    def requests(self, b, spec, c):
        n, v, f = c
        w = ref.uper(spec, rt(n), v)
        return [R.line_enc(b, n, v, fill=f), R.line_dec(b, n, bits2hex(w), fill=f ^ 90), R.line_dec(b, n, bits2hex(w) + "c3", fill=f)]

    def judge(self, spec, c, ans):
        n, v, f = c
        w = ref.uper(spec, rt(n), v)
        e = R.Enc(ans[0])
        if e.oob: return None
        if not e.ok: return ("encode-refused", "%s %s is refused with error %s" % (n, cut(str(v)), e.err))
        if e.bitstr() != w: return ("encode-bits", "%s %s is encoded as %s" % (n, cut(str(v)), diff(e.bitstr() or "", w)))
        for i, d in ((1, R.Dec(ans[1], spec, rt(n))), (2, R.Dec(ans[2], spec, rt(n)))):
            if not d.ok: return ("decode-refused", "the encoding of %s %s is refused with error %s" % (n, cut(str(v)), d.err))
            if d.err: return ("error-on-success", "decoding %s %s reports success together with error %s" % (n, cut(str(v)), d.err))
            if d.garbled or not model.eq(spec, rt(n), d.value, v): return ("decode-value", "%s %s is decoded as %s" % (n, cut(str(v)), cut(d.garbled or str(d.value))))
            if d.bits != len(w): return ("decode-length", "decoding %s %s consumed %d of %d bits" % (n, cut(str(v)), d.bits, len(w)))

    def nontrivial(self, spec, c): return len(ref.uper(spec, rt(c[0]), c[1])) > 8

    def probes(self):
        fx = mkspec({"TyA": T("seqof", elem=T("bool"), cons=[("size", ("rng", 0, 9, False, False))]), "TyB": T("ref", ref="TyA", cons=[("size", ("val", 3))])})
        tags = mkspec({"TyC": T("choice", comps=[Comp("aa", T("int", cons=[("rng", 0, 15, False, False)]), tag=1), Comp("bb", T("bool"), tag=0)])}, tags="")
        return [("fixed-size-reference", fx, ["-uPER"], [("TyB", [True, False, True], 165)]),
                ("choice-tag-order", tags, ["-uPER"], [("TyC", ("bb", True), 0)])]


@register
class P03(Check):
    pid, sub = "P03", "P03.valid"
    opts = ["-uPER", "-equal"]
    cases_per_type = 40
    limit = (55, 640)

    def prof(self, r): return gen.Prof(types=8, depth=r.choice([1, 2, 2]), tricky=r.random() < 0.6, wc=r.random() < 0.5, big=0.01)

    def cases(self, r, spec, roots, n):
        out = []
        for t in roots:
            for i in range(n):
                try:
                    v = gen.gen_value(spec, r, rt(t))
                    if i % 4 == 0:
                        out.append((t, v, r.choice([0, 255, 165])))
                        continue
                    for _ in range(r.choice([1, 1, 1, 2])):
                        w = gen.mutate(spec, r, rt(t), v)
                        if w is None: break
                        v = w
                    if w is not None: out.append((t, v, r.choice([0, 255, 165])))
                except gen.Unsat:
                    continue
        return out

    def requests(self, b, spec, c):
        n, v, f = c
        s = cdrv.ser(spec, rt(n), v)
        return ["%d V %d %s" % (b.idx[n], f, s), R.line_enc(b, n, v, fill=f, chk=1), R.line_enc(b, n, v, fill=f, chk=0, extra=4096)]

    def judge(self, spec, c, ans):
        n, v, f = c
        if "oob" in ans: return None
        if ans[0] == "noop": ans = ["1 0"] + ans[1:]
        want = model.valid(spec, rt(n), v)
        got, err = [int(x) for x in ans[0].split()]
        if want and not got: return ("valid-refused", "%s %s satisfies the constraints but is refused with error %d" % (n, cut(str(v)), err))
        if not want and got: return ("invalid-accepted", "%s %s does not satisfy the constraints but is accepted" % (n, cut(str(v))))
        if not got and err == 0: return ("no-error-code", "%s %s is refused without an error code" % (n, cut(str(v))))
        e = R.Enc(ans[1])
        if want and not e.ok: return ("encode-refused", "the encoder refuses the valid %s %s with error %s" % (n, cut(str(v)), e.err))
        if not want and e.ok: return ("encode-accepted", "the encoder accepts the invalid %s %s" % (n, cut(str(v))))
        if e.ok and e.err: return ("error-on-success", "the encoder reports success for %s %s together with error %s" % (n, cut(str(v)), e.err))
        if not e.ok and e.err == 0: return ("no-error-code", "the encoder refuses %s %s without an error code" % (n, cut(str(v))))

    def probes(self):
        nu = mkspec({"TyA": T("str", sk="NumericString", cons=[("size", ("rng", 0, 4, False, False))])})
        fx = mkspec({"TyA": T("octs", cons=[("size", ("rng", 0, 9, False, False))]), "TyB": T("ref", ref="TyA", cons=[("size", ("val", 3))])})
        return [("numeric-alphabet", nu, ["-uPER"], [("TyA", "1z", 0)]), ("fixed-size-reference", fx, ["-uPER"], [("TyB", b"12", 0)])]

    def evaluate(self, b, spec, cases):
        """second phase: what the encoder wrote for an invalid value must not decode to a value that is refused"""
        out = []
        lines = [self.requests(b, spec, c) for c in cases]
        res = b.run([x for l in lines for x in l])
        dec, who = [], []
        for i, c in enumerate(cases):
            ans = res[3 * i:3 * i + 3]
            if isinstance(ans[2], dict) and not isinstance(ans[0], dict) and not isinstance(ans[1], dict):
                ans = ans[:2] + ["oob"] if not model.valid(spec, rt(c[0]), c[1]) else ans   # unchecked encoding of an invalid value promises nothing
            bad = next((a for a in ans if isinstance(a, dict)), None)
            if bad:
                if bad["crash"] != "not run": out.append((i, "crash", "the generated code fails: " + bad["crash"]))
                continue
            m = self.judge(spec, c, ["x" if a == "oob" and j == 2 else a for j, a in enumerate(ans)])
            if m: out.append((i,) + m)
            elif ans[2] != "oob":
                e = R.Enc(ans[2])
                if e.ok and e.hex:
                    dec.append(R.line_dec(b, c[0], e.hex)); who.append(i)
        for i, a in zip(who, b.run(dec)):
            c = cases[i]
            if isinstance(a, dict):
                if a["crash"] != "not run": out.append((i, "crash", "decoding what was encoded unchecked fails: " + a["crash"]))
                continue
            d = R.Dec(a, spec, rt(c[0]))
            if d.ok and (d.garbled or not d.valid or not model.valid(spec, rt(c[0]), d.value)):
                out.append((i, "decoded-invalid", "decoding reports success for the invalid %s %s" % (c[0], cut(d.garbled or str(d.value)))))
            if d.ok and d.err: out.append((i, "error-on-success", "decoding %s reports success together with error %s" % (c[0], d.err)))
            if not d.ok and d.err == 0: out.append((i, "no-error-code", "decoding %s fails without an error code" % c[0]))
        return out


@register
class P04(Check):
    pid, sub = "P04", "P04.size"
    opts = ["-uPER", "-ACN", "-XER"]
    limit = (80, 640)

    def prof(self, r): return gen.Prof(types=8, depth=r.choice([1, 2, 2]), big=r.choice([0.02, 0.1]))

    def cases(self, r, spec, roots, n):
        out = []
        for t in roots:
            out.append((t, None, 0))
            for i in range(n // 2):
                try:
                    v = gen.gen_value(spec, r, rt(t))
                    if i % 2:
                        for _ in range(6):
                            w = gen.gen_value(spec, r, rt(t))
                            if len(ref.uper(spec, rt(t), w)) > len(ref.uper(spec, rt(t), v)): v = w
                    out.append((t, v, r.choice([0, 255])))
                except gen.Unsat:
                    continue
        return out

    def requests(self, b, spec, c):
        n, v, f = c
        if v is None: return ["%d S" % b.idx[n]]
        return ["%d S" % b.idx[n]] + [R.line_enc(b, n, v, co=x, fill=f) for x in "UAX"]

    def judge(self, spec, c, ans):
        n, v, f = c
        sz = [int(x) for x in ans[0].split()]
        sizes = {"U": sz[0:2], "A": sz[2:4], "X": sz[4:6]}
        if v is None:
            for x in "UA":
                bi, by = sizes[x]
                if bi >= 0 and by != (bi + 7) // 8: return ("bytes-vs-bits", "%s announces %d bits and %d bytes (%s)" % (n, bi, by, x))
            m = ref.uper_max(spec, rt(n))
            if m is None: return None
            if sizes["U"][0] < m: return ("bound-too-small", "%s announces %d uPER bits, its longest encoding has %d" % (n, sizes["U"][0], m))
            if sizes["U"][0] > m and not has_kind(spec, rt(n), ("real",)) and max_size(spec, rt(n)) < 65536: return ("bound-not-attained", "%s announces %d uPER bits, its longest encoding has %d" % (n, sizes["U"][0], m))
            if sizes["A"][0] != sizes["U"][0] and max_size(spec, rt(n)) < 65536: return ("acn-bound", "%s announces %d ACN bits without ACN properties, %d uPER bits" % (n, sizes["A"][0], sizes["U"][0]))
            return None
        for x, a in zip("UAX", ans[1:]):
            e = R.Enc(a)
            if e.oob: continue
            if not e.ok: return ("refused-" + x, "%s %s does not fit the announced %d bytes: error %s" % (n, cut(str(v)), sizes[x][1], e.err))
            if sizes[x][0] >= 0 and e.bits > sizes[x][0]: return ("over-" + x, "%s %s takes %d bits, %d are announced" % (n, cut(str(v)), e.bits, sizes[x][0]))
            if e.bits > 8 * sizes[x][1]: return ("over-" + x, "%s %s takes %d bits, %d bytes are announced" % (n, cut(str(v)), e.bits, sizes[x][1]))


@register
class P04big(P04):
    """lists and strings around the sizes at which the length is fragmented"""
    sub = "P04.fragments"
    quick, thorough = 6, 60
    cases_per_type = 2
    EDGES = (16384, 32768, 49152, 65536, 65536, 65536 + 16384, 65536 + 49152, 131072, 131072 + 16384)

    def make(self, r):
        types = {}
        for i in range(4):
            hi = r.choice(self.EDGES) + r.choice([-1, 0, 1, 127, 128, 129, 5000])
            lo = r.choice([0, 1, 3, hi, hi - 1, hi // 2])
            c = [("size", ("rng", lo, hi, False, False) if lo < hi else ("val", hi))]
            k = r.choice(["bits", "octs", "octs", "str", "seqof", "seqof"])
            t = T("str", sk="IA5String", cons=c) if k == "str" else T("seqof", elem=T(r.choice(["bool", "int"]), cons=[]), cons=c) if k == "seqof" else T(k, cons=c)
            if k == "seqof" and t.elem.k == "int": t.elem.cons = [("rng", 0, r.choice([1, 6, 255]), False, False)]
            if r.random() < 0.4: t = T("seq", comps=[Comp("aa", T("bool")), Comp("bb", t)])
            types["Ty%d" % i] = t
        return mkspec(types)

    def cases(self, r, spec, roots, n):
        out = []
        for t in roots:
            out.append((t, None, 0))
            b = spec.types[t]
            inner = b.comps[1].t if b.k == "seq" else b
            lo, hi = ref.bounds(spec, inner.cons, True)
            for m in sorted({hi, max(lo, hi - r.choice([1, 127, 128, 129]))}):
                v = (bytes(r.randrange(256) for _ in range(m)) if inner.k == "octs" else "".join(r.choice("01") for _ in range(m)) if inner.k == "bits" else
                     "".join(r.choice("azAZ09") for _ in range(m)) if inner.k == "str" else [r.random() < 0.5 if inner.elem.k == "bool" else r.randint(0, inner.elem.cons[0][2]) for _ in range(m)])
                out.append((t, {"aa": True, "bb": v} if b.k == "seq" else v, 0))
        return out


@register
class P05(Check):
    pid, sub = "P05", "P05.bytes"
    opts = ["-uPER", "-ACN", "-XER"]
    cases_per_type = 60
    limit = (85, 700)
    sanitize = "address,bounds"
    cflags = ("-fno-sanitize-recover=all",)
    codecs = "UUA"
    rule = "a case is a type with an input of bytes (a valid encoding that was truncated, extended, spliced or had bits changed, or random bytes); it is non-trivial when the input has at least 2 bytes, and distinct by the text of the type and the input"

    def prof(self, r): return gen.Prof(types=8, depth=r.choice([1, 2, 2, 3]), tricky=r.random() < 0.4, big=0.02)

    def encode(self, spec, t, v): return ref.uper(spec, rt(t), v)

    def cases(self, r, spec, roots, n):
        out = []
        for t in roots:
            base = []
            for _ in range(6):
                try:
                    base.append(self.encode(spec, t, gen.gen_value(spec, r, rt(t))))
                except gen.Unsat:
                    pass
            for i in range(n):
                out.append((t, r.choice(self.codecs), bytes_mutation(r, base).hex(), r.choice([0, 255, 165])))
        return out

    def requests(self, b, spec, c): return ["%d D %s %d -%s" % (b.idx[c[0]], c[1], c[3], c[2])]

    def judge(self, spec, c, ans):
        n = c[0]
        if ans[0] == "noop": return None
        d = R.Dec(ans[0], spec, rt(n))
        if d.crash: return ("crash", d.crash)
        if not d.ok:
            return ("no-error-code", "decoding %s fails without an error code" % n) if d.err == 0 else None
        if d.bits > 4 * len(c[2]): return ("consumed", "decoding %s consumed %d of %d bits" % (n, d.bits, 4 * len(c[2])))
        if d.garbled: return ("garbled", "decoding %s reports success with %s" % (n, d.garbled))
        if not d.valid: return ("invalid", "decoding %s reports success for %s, which the validity function refuses" % (n, cut(str(d.value))))
        if not model.valid(spec, rt(n), d.value): return ("invalid", "decoding %s reports success for %s, which violates the constraints" % (n, cut(str(d.value))))
        if d.re is not None and not d.re[0]: return ("re-encode", "decoding %s reports success for %s, which cannot be encoded: error %d" % (n, cut(str(d.value)), d.re[1]))
        if c[1] == "U" and d.re is not None and d.re[3] is not None and canonical(spec, rt(n)):
            bits = lambda h, k: "".join(format(x, "08b") for x in bytes.fromhex(h))[:k]
            if bits(d.re[3], d.re[2]) != bits(c[2], d.bits): return ("not-the-encoding", "decoding %s reports success for %s from %s, its encoding is %s" % (n, cut(str(d.value)), cut(bits(c[2], d.bits)), cut(bits(d.re[3], d.re[2]))))

    def nontrivial(self, spec, c): return len(c[2]) >= 4


def bytes_mutation(r, base):
    w = r.choice(base) if base else ""
    k = r.random()
    bits = list(w)
    if k < 0.12:
        return bytes(r.randrange(256) for _ in range(r.choice([0, 1, 2, 3, 5, 9, 20, 60])))
    if k < 0.2:
        return bytes([r.choice([0, 255, 128, 127])]) * r.choice([1, 2, 4, 8, 16, 40])
    if k < 0.4 and bits: bits = bits[:r.randrange(len(bits))]
    elif k < 0.5 and bits:
        i, j = sorted((r.randrange(len(bits)), r.randrange(len(bits))))
        bits = bits[:i] + bits[j:]
    elif k < 0.6 and base:
        o = r.choice(base)
        i = r.randrange(len(bits) + 1)
        bits = bits[:i] + list(o[i:])
    if k > 0.35:
        for _ in range(r.choice([0, 1, 1, 2, 3, 8])):
            if bits:
                i = min(len(bits) - 1, int(len(bits) * r.random() ** 2)) if r.random() < 0.5 else r.randrange(len(bits))
                n = r.choice([1, 1, 1, 4, 8, 64])
                x = r.choice("01f")
                for j in range(i, min(i + n, len(bits))): bits[j] = ("1" if bits[j] == "0" else "0") if x == "f" else x
    return bytes.fromhex(bits2hex("".join(bits))) + (bytes(r.randrange(256) for _ in range(r.choice([1, 4, 16]))) if r.random() < 0.3 else b"")


@register
class P12(Check):
    pid, sub = "P12", "P12.init"
    opts = ["-uPER", "-ACN", "-equal", "-ig"]
    cases_per_type = 16
    limit = (55, 640)

    def prof(self, r): return gen.Prof(types=8, depth=r.choice([1, 2, 2]), big=0.02)

    def cases(self, r, spec, roots, n):
        out = []
        for t in roots:
            if not has_kind(spec, rt(t), ("oid", "roid")) and not size_gap(spec, rt(t)) and not chain_gap(spec, t): out += [(t, "I", 0), (t, "I", 255)]   # known findings object-identifier, size-gap, reference-chain
            for i in range(n):
                try:
                    a = gen.gen_value(spec, r, rt(t))
                    b = None
                    if i % 4 == 0: b = a
                    elif i % 4 == 1: b = gen.gen_value(spec, r, rt(t))
                    else:
                        b = gen.mutate(spec, r, rt(t), a)
                        if b is not None and not model.valid(spec, rt(t), b): b = None
                    if b is None: b = gen.gen_value(spec, r, rt(t))
                    out.append((t, "Q", a, b, r.choice([0, 165]), r.choice([0, 255])))
                except gen.Unsat:
                    continue
        return out

    def probes(self):
        elem = mkspec({"TyA": T("seqof", elem=T("seq", comps=[Comp("aa", T("bool"))]), cons=[("size", ("rng", 1, 7, False, False))]),
                       "TyB": T("ref", ref="TyA", cons=[("size", ("rng", 2, 5, False, False))])})
        gap = mkspec({"TyA": T("str", sk="IA5String", cons=[("size", ("or", ("rng", 13, 14, False, False), ("val", 16))), ("size", ("rng", 13, 15, False, False))])})
        i = lambda a, b: ("rng", a, b, False, False)
        chain = mkspec({"TyA": T("int", cons=[i(-2, 100)]), "TyB": T("ref", ref="TyA"), "TyC": T("ref", ref="TyB", cons=[i(5, 9)]), "TyD": T("seq", comps=[Comp("aa", T("ref", ref="TyC"))])})
        return [("size-gap", gap, self.opts, [("TyA", "I", 0)]), ("reference-chain", chain, ["-uPER", "-ACN", "-equal"], [("TyD", "I", 0)]), ("object-identifier", mkspec({"TyA": T("oid")}), self.opts, [("TyA", "I", 0)]),
                ("ig-constrained-list", elem, self.opts, [("TyB", "I", 0)])]

    def options(self, r, spec):
        # with -ig, the constants of the elements of a constrained reference are not emitted (known finding ig-constrained-list)
        bad = any(t.k == "ref" and t.cons and model.resolve(spec, t)[0].k == "seqof" and model.resolve(spec, t)[0].elem.k not in ("ref", "int", "bool", "real", "enum", "null", "str") for x in spec.types.values() for t in model.walk(x))
        return [o for o in self.opts if o != "-ig" or (not bad and r.random() < 0.7)]

    def requests(self, b, spec, c):
        i = b.idx[c[0]]
        if c[1] == "I": return ["%d I %d" % (i, c[2])]
        return ["%d Q %d %s %d %s" % (i, c[4], cdrv.ser(spec, rt(c[0]), c[2]), c[5], cdrv.ser(spec, rt(c[0]), c[3]))]

    def judge(self, spec, c, ans):
        n = c[0]
        if ans[0] in ("noop", "oob"): return None
        if c[1] == "Q":
            x, y, z = [int(q) for q in ans[0].split()]
            want = model.eq(spec, rt(n), c[2], c[3]) 
            if has_default(spec, rt(n)): want = None if c[2] != c[3] else want   # an absent and an equal present default are the same abstract value only on the wire
            if bool(z) is not True: return ("not-reflexive", "%s %s is not equal to itself" % (n, cut(str(c[2]))))
            if bool(x) != bool(y): return ("not-symmetric", "equality of %s %s and %s depends on the order" % (n, cut(str(c[2])), cut(str(c[3]))))
            if want is True and not x: return ("equal-refused", "%s %s and %s are equal but reported different" % (n, cut(str(c[2])), cut(str(c[3]))))
            if want is False and x and not near(c[2], c[3]): return ("different-accepted", "%s %s and %s are different but reported equal" % (n, cut(str(c[2])), cut(str(c[3]))))
            return None
        ok, val = ans[0].split("|")
        what = "the initial value"
        try:
            v = cdrv.parse_all(spec, rt(n), val.split())
        except (cdrv.Garbled, StopIteration, ValueError) as e:
            return ("init-garbled", "%s of %s is no value: %s" % (what, n, e))
        if not model.valid(spec, rt(n), v): return ("init-invalid", "%s of %s violates the constraints: %s" % (what, n, cut(str(v))))
        if not int(ok): return ("init-refused", "%s of %s is refused by its validity function: %s" % (what, n, cut(str(v))))

    def evaluate(self, b, spec, cases):
        out = super().evaluate(b, spec, cases)
        bad = {i for i, _, _ in out}
        # the initial value survives every codec
        l1, who = [], []
        for i, c in enumerate(cases):
            if c[1] == "I" and i not in bad:
                l1.append("%d I %d" % (b.idx[c[0]], c[2])); who.append(i)
        vals = b.run(l1)
        l2, w2 = [], []
        for i, a in zip(who, vals):
            if isinstance(a, dict): continue
            v = cdrv.parse_all(spec, rt(cases[i][0]), a.split("|")[1].split())
            for co in "UA":
                l2.append(R.line_enc(b, cases[i][0], v, co=co)); w2.append((i, v, co))
        l3, w3 = [], []
        for (i, v, co), a in zip(w2, b.run(l2)):
            e = R.Enc(a)
            if e.crash: out.append((i, "crash", e.crash)); continue
            if e.oob or a == "noop": continue
            if not e.ok: out.append((i, "init-encode", "the initial value of %s is refused by the %s encoder: error %s" % (cases[i][0], co, e.err))); continue
            l3.append("%d D %s 165 -%s" % (b.idx[cases[i][0]], co, e.hex)); w3.append((i, v, co))
        for (i, v, co), a in zip(w3, b.run(l3)):
            n = cases[i][0]
            d = R.Dec(a, spec, rt(n))
            if d.crash: out.append((i, "crash", d.crash))
            elif not d.ok or d.garbled or not model.eq(spec, rt(n), d.value, v): out.append((i, "init-round-trip", "the initial value of %s does not survive %s: %s" % (n, co, cut(str(d.raw)))))
        return out

    def nontrivial(self, spec, c): return c[1] == "Q"


def near(a, b):
    """equal up to REAL components of almost the same value: equality of reals has a documented relative tolerance of 1e-5"""
    if isinstance(a, float) and isinstance(b, float): return a == b or (a != 0 and b != 0 and abs(a - b) <= 1.1e-5 * max(abs(a), abs(b)))
    if type(a) is not type(b): return False
    if isinstance(a, dict): return a.keys() == b.keys() and all(near(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)): return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    return a == b


def has_kind(spec, t, ks):
    b, _ = model.resolve(spec, t)
    return b.k in ks or (b.k in ("seq", "choice") and any(has_kind(spec, c.t, ks) for c in b.comps)) or (b.k == "seqof" and has_kind(spec, b.elem, ks))


def canonical(spec, t):
    """every abstract value has exactly one encoding the decoder may accept"""
    b, cons = model.resolve(spec, t)
    if b.k in ("real", "oid", "roid"): return False
    if b.k == "int": return None not in model.bounds(spec, cons)
    if b.k == "str":
        al = model.alpha(cons, ref.NUMERIC if b.sk == "NumericString" else ref.IA5)
        if "\0" in al or len(al) > 64: return False   # a C string ends at NUL, which can be decoded when the alphabet has it or characters are sent by code
    if b.k in ("bits", "octs", "str", "seqof") and (model.bounds(spec, cons, True)[1] is None or model.bounds(spec, cons, True)[1] >= 65536): return False
    if b.k in ("seq", "choice"): return all(canonical(spec, c.t) for c in b.comps)
    return b.k != "seqof" or canonical(spec, b.elem)


def chain_gap(spec, name):
    """somewhere a component refers to a type that constrains a reference to a reference: its initial value is that of the end of the chain"""
    for n in model.deps(spec, name):
        for x in model.walk(spec.types[n]):
            if x.k != "ref": continue
            while x.k == "ref":
                y = spec.types[x.ref]
                if x.cons and y.k == "ref": return True
                x = y
    return False


def size_gap(spec, t):
    """a size constraint somewhere is not a plain range: the initial size is the minimum or maximum of the hull"""
    b, cons = model.resolve(spec, t)
    if b.k in ("bits", "octs", "str", "seqof") and any(not (c[0] == "size" and c[1][0] in ("val", "rng")) and c[0] != "from" for c in cons): return True
    if b.k == "seqof": return size_gap(spec, b.elem)
    return b.k in ("seq", "choice") and any(size_gap(spec, c.t) for c in b.comps)


def max_size(spec, t):
    """the largest size a value of the type can have anywhere"""
    b, cons = model.resolve(spec, t)
    m = 0
    if b.k in ("bits", "octs", "str", "seqof"): m = model.bounds(spec, cons, True)[1] or 0
    if b.k == "seqof": m = max(m, max_size(spec, b.elem))
    if b.k in ("seq", "choice"): m = max([m] + [max_size(spec, c.t) for c in b.comps])
    return m


def has_default(spec, t):
    b, _ = model.resolve(spec, t)
    if b.k == "seq": return any(c.opt not in (None, "OPT") or has_default(spec, c.t) for c in b.comps)
    if b.k == "choice": return any(has_default(spec, c.t) for c in b.comps)
    return b.k == "seqof" and has_default(spec, b.elem)


@register
class P13(ValueCheck):
    pid, sub = "P13", "P13.acn"
    opts = ["-uPER", "-ACN"]
    limit = (55, 640)

    def prof(self, r): return gen.Prof(types=9, depth=r.choice([1, 2, 2, 3]), big=0.03, tricky=r.random() < 0.5)

    def options(self, r, spec): return self.opts + (["-eee"] if r.random() < 0.25 else [])

    def roots(self, spec): return [n for n in spec.types if max_size(spec, rt(n)) < 65536]

    def probes(self):
        big = mkspec({"TyA": T("octs", cons=[("size", ("rng", 0, 70000, False, False))])})
        return [("size-64K", big, ["-uPER", "-ACN"], [("TyA", b"12", 0)])]

    def requests(self, b, spec, c):
        n, v, f = c
        return ["%d S" % b.idx[n]] + [R.line_enc(b, n, v, co=x, fill=f) for x in "UA"]

    def judge(self, spec, c, ans):
        n, v, f = c
        sz = [int(x) for x in ans[0].split()]
        if sz[0:2] != sz[2:4]: return ("bound", "%s announces %d/%d bits/bytes for uPER and %d/%d for ACN" % (n, sz[0], sz[1], sz[2], sz[3]))
        u, a = R.Enc(ans[1]), R.Enc(ans[2])
        if u.oob or a.oob: return None
        if u.ok != a.ok: return ("refused", "%s %s: uPER %s, ACN %s" % (n, cut(str(v)), u.raw[:20], a.raw[:20]))
        if u.ok and u.bitstr() != a.bitstr(): return ("bits", "%s %s in ACN: %s" % (n, cut(str(v)), diff(a.bitstr() or "", u.bitstr() or "")))

    def evaluate(self, b, spec, cases):
        out = super().evaluate(b, spec, cases)
        bad = {i for i, _, _ in out}
        l, w = [], []
        for i, c in enumerate(cases):
            if i in bad: continue
            e = ref_or_none(spec, c)
            if e is None: continue
            for co in "UA":
                l.append("%d D %s 165 -%s" % (b.idx[c[0]], co, bits2hex(e))); w.append(i)
        res = b.run(l)
        for k in range(0, len(res), 2):
            i = w[k]
            if isinstance(res[k], dict) or isinstance(res[k + 1], dict):
                x = res[k] if isinstance(res[k], dict) else res[k + 1]
                if x["crash"] != "not run": out.append((i, "crash", x["crash"]))
                continue
            p, q = res[k].split("|"), res[k + 1].split("|")
            if p[0].split()[0:1] + p[0].split()[2:] != q[0].split()[0:1] + q[0].split()[2:] or p[1:2] != q[1:2]:
                out.append((i, "decode", "%s %s: uPER decoding gives %s, ACN decoding %s" % (cases[i][0], cut(str(cases[i][1])), cut(res[k]), cut(res[k + 1]))))
        return out


def ref_or_none(spec, c):
    try:
        return ref.uper(spec, rt(c[0]), c[1])
    except Exception:
        return None
