"""ACN: decoration of generated specifications with encoding properties, and a reference encoder written from the ACN manual."""
import copy, math, struct
from .model import *
from . import ref, gen
from .ref import nb, width, hexbits

ALIGN = {"byte": 8, "word": 16, "dword": 32}


class Conflict(Exception):
    """two users of one inserted field need different values: the value cannot be encoded"""


class Ambiguous(Exception):
    """the contents hold the termination pattern: the encoding would not decode to the value"""


# ---------------------------------------------------------------- reference encoder
class Slot:
    """an inserted field that gets its value from what it describes"""
    def __init__(self, enc, pos, comp, w): self.enc, self.pos, self.comp, self.w, self.val = enc, pos, comp, w, None

    def set(self, v):
        if self.val is not None:
            if self.val != v: raise Conflict("%s: %s and %s" % (self.comp.name, self.val, v))
            return
        e = Encoder(self.enc.spec)
        e.prim(*merged(self.enc.spec, self.comp.t), v, True)
        assert len(e.out) == self.w, (self.comp.name, v)
        self.val = v
        self.enc.out[self.pos:self.pos + self.w] = e.out


def merged(spec, t):
    """(type without references, constraints in order, ACN properties of the whole chain)"""
    cons, acn = list(t.cons), dict(t.acn)
    while t.k == "ref":
        t = spec.types[t.ref]
        cons = list(t.cons) + cons
        acn = {**t.acn, **acn}
    return t, cons, acn


def decint(v): return str(v)


def int_bits(acn, v, signed):
    """the bits of an integer with encoding properties"""
    e, s = acn["enc"], acn["size"]
    n = s if isinstance(s, int) else None
    if acn.get("map") == "milbus": v = 0 if v == 32 else v
    if e in ("pos-int", "twos-complement"):
        w = nb(v & ((1 << n) - 1), n)
        if acn.get("endian") == "little": w = "".join(w[i:i + 8] for i in range(n - 8, -1, -8))
        return w
    if e == "BCD":
        if n is not None: return "".join(nb(int(c), 4) for c in str(v).rjust(n // 4, "0"))
        return "".join(nb(int(c), 4) for c in (str(v) if v else "")) + "1111"
    if e == "ASCII":
        sg = ("-" if v < 0 else "+") if signed else ""
        if n is not None: return hexbits((sg + str(abs(v)).rjust(n // 8 - len(sg), "0")).encode())
        return hexbits((sg + str(abs(v))).encode()) + hexbits(term(acn))
    raise ValueError(acn)


def term(acn): return bytes.fromhex(acn["term"][1]) if "term" in acn else b"\0"


def enum_acn(b, acn):
    """{name: number} used by encode-values"""
    return {n: acn.get("set", {}).get(n, v) for n, v in enum_values(b)}


class Encoder:
    def __init__(self, spec): self.spec, self.out = spec, []

    def put(self, bits): self.out += bits

    def align(self, acn):
        if "align" in acn:
            while len(self.out) % ALIGN[acn["align"]]: self.out.append("0")

    def signed(self, b):
        """ASCII integers have a sign unless the definition itself (not a constrained reference to it) excludes negative numbers"""
        lo, _ = bounds(self.spec, b.cons)
        return lo is None or lo < 0

    def prim(self, b, cons, acn, v, ins=False):
        """types without structure"""
        k = b.k
        if k == "int":
            lo, hi = bounds(self.spec, cons)
            if "enc" in acn: return self.put(int_bits(acn, v, ins if ins or acn.get("unsigned") else self.signed(b)))
            return self.put(ref.enc_int(v, lo, hi))
        if k == "bool":
            if "true" in acn or "false" in acn:
                inv = lambda x: "".join("1" if c == "0" else "0" for c in x)
                t = acn.get("true") or inv(acn["false"])
                f = acn.get("false") or inv(acn["true"])
                return self.put(t if v else f)
            return self.put("1" if v else "0")
        if k == "null":
            if "pattern" in acn: self.put(acn["pattern"][1] if acn["pattern"][0] == "B" else hexbits(bytes.fromhex(acn["pattern"][1])))
            return
        if k == "real" and "enc" in acn:
            o = struct.pack((">" if acn.get("endian") != "little" else "<") + ("f" if acn["enc"].endswith("32") else "d"), v)
            return self.put(hexbits(o))
        if k == "enum":
            vals = enum_acn(b, acn)
            if "values" in acn:
                x, lo, hi = vals[v], min(vals.values()), max(vals.values())
                if "enc" in acn: return self.put(int_bits(acn, x, lo < 0))
                return self.put(nb(x - lo, width(hi - lo)))
            if "enc" in acn: return self.put(int_bits(acn, sorted(x for _, x in enum_values(b)).index(dict(enum_values(b))[v]), False))
        if k == "str" and acn.get("enc") == "ASCII": return self.put(hexbits(v.encode()))
        x = copy.copy(b)
        x.cons = cons
        self.put(ref.uper(self.spec, x, v))

    def sized(self, b, cons, acn, scope, n, items, fixed):
        """items: list of bit strings or closures appended in order"""
        lo, hi = bounds(self.spec, cons, True)
        lo = lo or 0
        s = acn.get("size")
        if s is None and not fixed:
            self.put(nb(n - lo, width(hi - lo)))
        elif s is not None and s != "null-terminated":
            look(scope, s).set(n)
        start = len(self.out)
        marks = []
        for it in items:
            marks.append(len(self.out))
            if callable(it): it()
            else: self.put(it)
        if s == "null-terminated":
            if b.k == "str": t = hexbits(term(acn))
            else: t = acn["term"][1] if acn["term"][0] == "B" else hexbits(bytes.fromhex(acn["term"][1]))
            self.put(t)
            for m in marks:
                if "".join(self.out[m:m + len(t)]) == t: raise Ambiguous()

    def enc(self, t, v, scope):
        spec = self.spec
        b, cons, acn = merged(spec, t)
        sc = scope
        x = t
        while x.k == "ref":   # parameters of the referenced assignment
            ps = spec.params.get(x.ref, [])
            sc = {p: look(scope, a) for (_, p), a in zip(ps, x.args)} if ps else {}
            x = spec.types[x.ref]
        self.align(acn)
        k = b.k
        if k in ("bits", "octs", "str", "seqof") and (acn.keys() & {"size", "enc"} or k == "seqof"):
            lo, hi = bounds(spec, cons, True)
            if k == "bits": items = list(v)
            elif k == "octs": items = [nb(c, 8) for c in v]
            elif k == "str":
                if acn.get("enc") == "ASCII": items = [nb(ord(c), 8) for c in v]
                else:
                    al = alpha(cons, NUMERIC if b.sk == "NumericString" else IA5)
                    w, direct = ref.char_table(al)
                    if acn.get("size"): direct = False      # with an external length ACN writes the index in the alphabet
                    items = [nb(ord(c) if direct else al.index(c), w) for c in v]
            else: items = [(lambda e=e: self.enc(b.elem, e, sc)) for e in v]
            return self.sized(b, cons, acn, sc, len(v), items, lo == hi)
        if k == "seq":
            sc = dict(sc)
            for c in b.comps:
                if c.opt is not None and c.pres is None and not c.acnonly: self.put("1" if c.name in v else "0")
            for c in b.comps:
                if c.acnonly:
                    self.align(merged(spec, c.t)[2])
                    if merged(spec, c.t)[0].k == "null":
                        self.prim(*merged(spec, c.t), None)
                        continue
                    e = Encoder(spec)
                    e.prim(*merged(spec, c.t), c.sample, True)
                    sc[c.name] = Slot(self, len(self.out), c, len(e.out))
                    self.put("?" * len(e.out))
                    continue
                if c.pres is not None and c.pres[0] == "bool": look(sc, c.pres[1]).set(c.name in v)
                if c.name in v:
                    r = self.enc(c.t, v[c.name], sc)
                    if isinstance(r, dict): sc[c.name] = r
            return sc
        if k == "choice":
            c = [c for c in b.comps if c.name == v[0]][0]
            if "det" in acn: look(sc, acn["det"]).set(v[0])
            elif c.pres is not None:
                for f, x in c.pres[1]: look(sc, f).set(x)
            else:
                i = [c.name for c in b.comps].index(v[0])
                self.put(nb(i, width(len(b.comps) - 1)))
            self.enc(c.t, v[1], sc)
            return None
        self.prim(b, cons, acn, v)


def look(scope, path):
    for p in path.split("."):
        scope = scope[p]
    return scope


def encode(spec, t, v):
    """bit string; '?' where an inserted field describes nothing"""
    e = Encoder(spec)
    e.enc(t, v, {})
    return "".join(e.out)


def matches(pat, s): return len(pat) == len(s) and all(a == b or a == "?" for a, b in zip(pat, s))


# ---------------------------------------------------------------- decoration
def deferrable(spec):
    """-acnDeferred can write every inserted field of the specification (the others are known findings of P02)"""
    args, local = set(), set()
    for x in spec.types.values():
        for t in walk(x):
            args |= set(t.args or [])
            local |= {t.acn.get("size"), t.acn.get("det")}
            for c in t.comps or []:
                if c.pres: local |= {c.pres[1]} if c.pres[0] == "bool" else {p for p, _ in c.pres[1]}
    if args & local: return False
    for x in spec.types.values():
        for t in walk(x):
            if any("." in a for a in t.args or []): return False
            if t.k != "seq": continue
            for c in t.comps:
                if not c.acnonly: continue
                b, _, a = merged(spec, c.t)
                if "align" in a: return False
                if a.get("enc") in ("BCD", "ASCII") and b.k != "str" or a.get("endian") == "little" and b.k == "enum": return False
                if b.k == "str" and a.get("enc"): return False
                if b.k == "bool" and ("true" in a or "false" in a): return False
                if b.k == "enum":
                    num = enum_acn(b, a) if a.get("values") else {n: i for i, (n, _) in enumerate(sorted(enum_values(b), key=lambda y: y[1]))}
                    if num != dict(enum_values(b)): return False
    return True


class Deco:
    def __init__(self, g, plain=False):
        self.g, self.r, self.s, self.plain = g, g.r, g.s, plain

    def ch(self, p): return self.r.random() < p

    def spec(self):
        s = self.s
        s.use_acn = True
        self.extra = {}
        for n, t in list(s.types.items()):
            self.deco(t, top=True)
        s.types = {**self.extra, **s.types}
        return s

    def align(self, t, p=0.08, ins=False):
        if ins and self.plain: return
        if self.ch(p): t.acn["align"] = self.r.choice(["byte", "byte", "word", "dword"])

    def intprops(self, lo, hi, fixed=False):
        """encoding properties for the values lo..hi (None: unbounded)"""
        r = self.r
        uns = lo is not None and lo >= 0
        top = (U64MAX if hi is None else hi) if uns else max(I64MAX if hi is None else hi, -(I64MIN if lo is None else lo) - 1)
        need = max(1, top.bit_length() + (0 if uns else 1))
        a = {}
        f = r.random() * (0.6 if self.plain else 1)
        mag = max(abs(I64MIN if lo is None and not uns else lo or 0), abs(top if hi is None else hi))
        dig = len(str(mag))
        if f < 0.6:
            a["enc"] = "pos-int" if uns else "twos-complement"
            c = [w for w in (need, need + 1, need + 5, 8, 16, 16, 24, 32, 32, 48, 64, 64) if need <= w <= 64]
            a["size"] = r.choice(c)
            if a["size"] in (16, 32, 64) and self.ch(0.6): a["endian"] = r.choice(["little", "big"])
        elif f < 0.75 and uns:
            a["enc"] = "BCD"
            if dig <= 19 and (fixed or self.ch(0.7)): a["size"] = 4 * r.choice([dig, min(19, dig + 1), min(19, dig + 4)])
            elif not fixed: a["size"] = "null-terminated"
            else: a["size"] = 4 * dig
        else:
            a["enc"] = "ASCII"
            d = dig + 1      # the compiler wants room for a sign
            if d <= 20 and (fixed or self.ch(0.7)): a["size"] = 8 * r.choice([d, min(20, d + 1), min(20, d + 3)])
            else:
                a["size"] = "null-terminated"
                a["term"] = ("H", r.choice(["00", "2C", "FF", "0000", "0D0A", "0A", "FFFE", "AABBCC", "000102030405"]))
        return a

    def deco(self, t, top=False):
        r, s = self.r, self.s
        k = t.k
        if resolve(self.s, t)[0].k not in ("oid", "roid"): self.align(t, 0.04 if top else 0.08)
        if k == "ref": return
        b, cons = resolve(s, t)
        if k == "int" and self.ch(0.55):
            lo, hi = bounds(s, cons)
            t.acn.update(self.intprops(lo, hi))
        elif k == "bool" and self.ch(0.35):
            n = r.choice([1, 2, 3, 5, 7, 8, 9, 12, 16, 17])
            a = gen.gen_bits(r, n)
            f = r.random()
            if f < 0.4: t.acn["true"] = a
            elif f < 0.7: t.acn["false"] = a
            else:
                c = gen.gen_bits(r, n)
                if c != a: t.acn["true"], t.acn["false"] = a, c
                else: t.acn["true"] = a
        elif k == "null" and self.ch(0.5):
            t.acn["pattern"] = ("B", gen.gen_bits(r, r.choice([1, 2, 3, 7, 8, 9, 15, 17]))) if self.ch(0.5) else ("H", r.randbytes(r.choice([1, 2, 3, 5])).hex().upper())
        elif k == "real" and self.ch(0.6):
            t.acn["enc"] = r.choice(["IEEE754-1985-32", "IEEE754-1985-64"])
            if self.ch(0.6): t.acn["endian"] = r.choice(["little", "big"])
        elif k == "enum" and self.ch(0.6):
            f = r.random()
            if f < 0.35: t.acn.update(self.intprops(0, len(t.items) - 1))
            else:
                t.acn["values"] = True
                if self.ch(0.4):
                    vs = r.sample(sorted(set(range(3 * len(t.items))) | {200, 255, 256, 1000, 65535}), len(t.items)) 
                    t.acn["set"] = {n: v for (n, _), v in zip(t.items, vs)}
                vs = enum_acn(t, t.acn).values()
                if self.ch(0.6): t.acn.update(self.intprops(min(vs), max(vs)))
        elif k == "str":
            f = r.random()
            if f < 0.25: t.acn["enc"] = "ASCII"
            elif f < 0.5: self.nullterm(t, cons)
        elif k in ("octs", "bits") and self.ch(0.2): self.nullterm(t, cons)
        elif k == "seq": self.seq(t)
        elif k == "choice":
            for c in t.comps: self.deco(c.t)
        elif k == "seqof":
            self.deco(t.elem)
            if self.ch(0.12): self.nullterm(t, cons)

    def nullterm(self, t, cons):
        r = self.r
        lo, hi = bounds(self.s, cons, True)
        if hi is None or hi > 300 or t.k != "str" and lo == hi: return
        if t.k == "str":
            t.acn["enc"], t.acn["size"] = "ASCII", "null-terminated"
            al = {ord(c) for c in alpha(cons, IA5)}
            if not any(c[0] == "from" for c in cons): al = set(range(1, 256))
            pats = [x for x in ["00", "01", "2C", "FF", "FFFF", "0D0A", "80", "010203", "7F", "FEDCBA9876"] if not al & set(bytes.fromhex(x))]
            t.acn["term"] = ("H", r.choice(pats))
            if t.acn["term"][1] == "00" and self.ch(0.5): del t.acn["term"]
            return
        if t.k == "seqof" and ref.uper_max(self.s, t.elem) in (None, 0): return
        t.acn["size"] = "null-terminated"
        if t.k == "bits" or self.ch(0.3): t.acn["term"] = ("B", gen.gen_bits(r, r.choice([8, 16]) if t.k != "bits" else r.choice([3, 7, 8, 9, 12, 16, 20])))
        else: t.acn["term"] = ("H", r.choice(["FFFF", "FF", "0F0F", "0000", "FFFFFF", "ABCD"]))

    # ------------------------------------------------------------ inserted fields
    def new_type(self, pre, t):
        if t.k not in ("seq", "choice", "ref"): self.align(t, 0.06, ins=pre in ("Len", "Flag", "Sel", "Key"))
        n = self.g.nm(pre)
        self.extra[n] = t
        self.s.types[n] = t
        return n

    def lendet(self, hi):
        """an inserted field for a number 0..hi: (Comp, its ACN parameter type)"""
        r = self.r
        name = self.g.nm(r.choice(["len-", "nn", "cnt-d"]))
        if self.ch(0.6):
            t = T("int", acn=self.intprops(0, hi, fixed=True))
            t.acn["unsigned"] = True
            c = Comp(name, t, acnonly="INTEGER")
            ty = "INTEGER"
        else:
            top = r.choice([hi, hi, hi + 3, max(hi, 255), max(hi, 65535)])
            t = T("int", cons=[("rng", 0, top, False, False)] if top else [("val", 0)])
            if self.ch(0.7): t.acn.update(self.intprops(0, top, fixed=True))
            ty = self.new_type("Len", t)
            c = Comp(name, T("ref", ref=ty), acnonly=ty)
        c.sample = 0
        self.align(c.t, ins=True)
        return c, ty

    def booldet(self):
        r = self.r
        name = self.g.nm(r.choice(["has-", "pp"]))
        t = T("bool")
        if self.ch(0.3) and not self.plain: t.acn["true"] = gen.gen_bits(r, r.choice([1, 2, 4, 8, 9]))
        if self.ch(0.6): c, ty = Comp(name, t, acnonly="BOOLEAN"), "BOOLEAN"
        else:
            ty = self.new_type("Flag", t)
            c = Comp(name, T("ref", ref=ty), acnonly=ty)
        c.sample = False
        self.align(c.t, ins=True)
        return c, ty

    def enumdet(self, names):
        """an ENUMERATED with the names of the alternatives"""
        r = self.r
        ns = list(names)
        vs = [None] * len(ns) if self.plain or self.ch(0.4) else r.sample(range(3 * len(ns) + 2), len(ns))
        t = T("enum", items=list(zip(ns, vs)))
        f = r.random()
        if f < 0.3: t.acn.update(self.intprops(0, len(ns) - 1, fixed=True))
        elif f < 0.7:
            t.acn["values"] = True
            v = enum_acn(t, t.acn).values()
            if self.ch(0.7): t.acn.update(self.intprops(min(v), max(v), fixed=True))
        ty = self.new_type("Sel", t)
        c = Comp(self.g.nm("sel-"), T("ref", ref=ty), acnonly=ty)
        c.sample = ns[0]
        self.align(c.t, ins=True)
        return c, ty

    def strdet(self, n):
        ty = self.new_type("Key", T("str", cons=[("size", ("val", n))], acn={"enc": "ASCII"} if self.ch(0.5) and not self.plain else {}))
        c = Comp(self.g.nm("key-"), T("ref", ref=ty), acnonly=ty)
        c.sample = "A" * n
        return c, ty

    def place(self, t, new, before, dets):
        """insert a determinant somewhere in front of component `before` of sequence t; its path from the sequence"""
        i = [id(c) for c in t.comps].index(id(before))
        sibs = [c for c in t.comps[:i] if not c.acnonly and c.t.k == "seq" and c.opt is None]
        if sibs and not self.plain and self.ch(0.5):
            sb = self.r.choice(sibs)
            sb.t.comps.insert(self.r.randint(0, len(sb.t.comps)), new)
            return sb.name + "." + new.name
        j = self.r.randint(0, i)
        t.comps.insert(j, new)
        return new.name

    def wrap(self, t, c, prm, path):
        """move the type of component c into an assignment with parameters prm = [(acn type, name)]; arguments are the given paths"""
        # sometimes through an intermediate sequence
        inner = c.t
        ty = self.new_type("Par", inner)
        self.s.params[ty] = prm
        c.t = T("ref", ref=ty, args=list(path))
        if self.ch(0.35):
            mid = T("seq", comps=[Comp(self.g.field(), T("bool"))] if self.ch(0.5) else [])
            mid.comps.append(Comp(self.g.field(), T("ref", ref=ty, args=[p + "q" for _, p in prm])))
            t2 = self.new_type("Mid", mid)
            self.s.params[t2] = [(a, p + "q") for a, p in prm]
            c.t = T("ref", ref=t2, args=list(path))
            c.mid = mid.comps[-1].name if True else None
            return mid
        return None

    def seq(self, t):
        r, s = self.r, self.s
        for c in t.comps: self.deco(c.t)
        dets = []     # (kind, path, acn type, extra) of determinants placed for earlier components
        for c in list(t.comps):
            if c.acnonly: continue
            k = c.t.k
            own = c.t.cons
            if k in ("octs", "bits", "seqof", "str") and not c.t.acn.get("size") and c.opt is None and self.ch(0.5):
                lo, hi = bounds(s, own, True)
                if hi is None or hi >= 65536 or lo == hi: continue
                if k == "seqof" and ref.uper_max(s, c.t.elem) == 0 and False: continue
                same = [d for d in dets if d[0] == "len" and d[3] >= hi]
                if same and self.ch(0.25): _, path, ty, _ = r.choice(same)
                else:
                    d, ty = self.lendet(hi)
                    path = self.place(t, d, c, dets)
                    dets.append(("len", path, ty, hi))
                if self.ch(0.3):
                    p = self.g.nm("prm-")
                    c.t.acn["size"] = p
                    self.wrap(t, c, [(ty, p)], [path])
                else: c.t.acn["size"] = path
            elif k == "choice" and c.opt is None and self.ch(0.6) and not any(x.pres for x in c.t.comps): self.chdet(t, c, dets)
            if c.opt == "OPT" and self.ch(0.4):
                same = [d for d in dets if d[0] == "bool"]
                if same and self.ch(0.25): path = r.choice(same)[1]
                else:
                    d, ty = self.booldet()
                    path = self.place(t, d, c, dets)
                    dets.append(("bool", path, ty, None))
                c.pres = ("bool", path)
        if self.ch(0.08):
            d = Comp(self.g.nm("nul-"), T("null", acn={"pattern": ("B", gen.gen_bits(r, r.choice([1, 4, 9])))}), acnonly="NULL")
            t.comps.insert(r.randint(0, len(t.comps)), d)

    def chdet(self, t, c, dets):
        r = self.r
        ch = c.t
        names = [x.name for x in ch.comps]
        f = r.random()
        if f < 0.5:
            d, ty = self.enumdet(names)
            path = self.place(t, d, c, dets)
            if self.ch(0.5):
                p = self.g.nm("prm-")
                ch.acn["det"] = p
                self.wrap(t, c, [(ty, p)], [path])
            else: ch.acn["det"] = path
        elif f < 0.75:
            n = len(names)
            two = self.ch(0.4)
            d1, ty1 = self.lendet(2 * n + 3)
            p1 = self.place(t, d1, c, dets)
            prm, paths = [], [p1]
            if two:
                d2, ty2 = self.lendet(n + 1)
                paths.append(self.place(t, d2, c, dets))
            combos = r.sample([(a, b) for a in range(2 * n + 3) for b in (range(n + 1) if two else [0])], n) if two else [(a, 0) for a in r.sample(range(2 * n + 3), n)]
            wrap = self.ch(0.5)
            nm = paths
            if wrap:
                prm = [(ty, self.g.nm("prm-")) for ty in ([ty1, ty2] if two else [ty1])]
                nm = [p for _, p in prm]
            for x, co in zip(ch.comps, combos): x.pres = ("eq", list(zip(nm, co)))
            if wrap: self.wrap(t, c, prm, paths)
        else:
            L = r.choice([1, 2, 3, 5])
            d, ty = self.strdet(L)
            path = self.place(t, d, c, dets)
            keys = set()
            while len(keys) < len(names): keys.add("".join(r.choice("ABCDEFGHabcdefgh0123456789") for _ in range(L)))
            wrap = self.ch(0.4)
            p = self.g.nm("prm-") if wrap else path
            for x, y in zip(ch.comps, sorted(keys)): x.pres = ("eq", [(p, y)])
            if wrap: self.wrap(t, c, [(ty, p)], [path])


def fix_value(spec, t, v):
    """values of REAL components with a 32-bit encoding are those a float holds"""
    b, _, acn = merged(spec, t)
    k = b.k
    if k == "real" and acn.get("enc", "").endswith("32"):
        try:
            return struct.unpack(">f", struct.pack(">f", v))[0]
        except OverflowError:
            return 1.5
    if k == "seq": return {c.name: fix_value(spec, c.t, v[c.name]) for c in b.comps if not c.acnonly and c.name in v}
    if k == "choice": return (v[0], fix_value(spec, [c for c in b.comps if c.name == v[0]][0].t, v[1]))
    if k == "seqof": return [fix_value(spec, b.elem, x) for x in v]
    return v
