"""Random specifications, values and mutated (possibly invalid) values. Everything is a function of a random.Random."""
import random, struct
from .model import *

PRINT = [chr(c) for c in range(32, 127)]
EDGES = sorted({0, 1, 2, 3, 7, 8, 15, 16, 100, 127, 128, 129, 254, 255, 256, 257, 1000, 32767, 32768, 65534, 65535, 65536, 65537, 2**24 - 1, 2**24, 2**31 - 1, 2**31,
                2**32 - 2, 2**32 - 1, 2**32, 2**40, 2**48 - 1, 2**56, 2**62, 2**63 - 2, 2**63 - 1, 2**63, 2**64 - 2, 2**64 - 1})


class Prof:
    """what a generated specification may contain"""
    def __init__(self, **kw):
        self.types = 8            # assignments
        self.depth = 3
        self.tricky = False       # constraint forms that are not PER-visible or whose visible part is a matter of interpretation
        self.real = True
        self.oid = True
        self.default = True
        self.big = 0.03           # probability of a size that needs the general or fragmented length
        self.wc = False           # WITH COMPONENT(S), string value constraints
        self.kinds = None
        self.maxelems = 40
        self.consts = True
        self.fullsize = False
        self.sets = True
        self.exotic = False        # SEQUENCE {} (not usable from the C++ driver: its size differs)
        self.ubits = 64
        self.enum_max = 300
        self.realcons = True
        self.includes = True
        self.unbounded = True      # integers without a lower or an upper bound
        self.intmeet = True
        self.fixref = False        # a reference that fixes the size of a variable size type (known finding)
        for k, v in kw.items():
            assert hasattr(self, k), k
            setattr(self, k, v)


class Gen:
    def __init__(self, rng, prof=None, name="MODA"):
        self.r, self.p, self.s, self.n = rng, prof or Prof(), Spec(name), 0

    def nm(self, pre):
        self.n += 1
        return "%s%d" % (pre, self.n)

    def field(self):
        return self.nm(self.r.choice(["fa", "fb", "f-c", "fld-d-", "longFieldName"]))

    def ch(self, p): return self.r.random() < p

    # ------------------------------------------------------------ constraints
    def ipoint(self, neg=True):
        r = self.r
        v = r.choice(EDGES) if self.ch(0.6) else r.randrange(0, 2 ** r.randrange(1, self.p.ubits + 1))
        if neg and self.ch(0.4): v = -v
        m = self.p.ubits
        return max(-2 ** (m - 1), min(2 ** m - 1, v))

    def irange(self):
        for _ in range(100):
            a = self.ipoint()
            if self.ch(0.55):
                w = self.r.choice(EDGES) if self.ch(0.7) else self.r.randrange(0, 2 ** self.r.randrange(1, self.p.ubits + 1))
                b = a + w
            else:
                b = self.ipoint()
            if a > b: a, b = b, a
            if a >= 0 and b <= 2 ** self.p.ubits - 1: return a, b
            if a >= -2 ** (self.p.ubits - 1) and b <= 2 ** (self.p.ubits - 1) - 1: return a, b
        return 0, 255

    def icons(self):
        """serial constraints of an INTEGER"""
        r = self.r
        f = r.random()
        a, b = self.irange()
        lim = 2 ** self.p.ubits - 1 if a >= 0 else 2 ** (self.p.ubits - 1) - 1
        if f < 0.21 and not self.p.unbounded: return [("rng", a, b, False, False)] if b > a else [("val", a)]
        if f < 0.08: return []
        if f < 0.16: return [("rng", a, None, False, False)]
        if f < 0.21:
            b = min(b, 2 ** (self.p.ubits - 1) - 1)
            return [("rng", None, b, False, False)]
        if f < 0.26: return [("val", a)]
        if f < 0.30 and b - a >= 3: return [("rng", a, b, self.ch(0.6), self.ch(0.6))]
        if f < 0.40 and b - a >= 8:
            m1 = r.randint(a, b - 3)
            m2 = r.randint(m1 + 1, b - 1)
            c1 = ("rng", a, m1, False, False) if m1 > a else ("val", a)
            c2 = ("rng", m2, b, False, False) if self.ch(0.7) else ("val", b)
            cs = ("or", c1, c2)
            if self.ch(0.3): cs = ("or", cs, ("val", r.randint(a, b)))
            return [cs]
        if f < 0.48 and b - a >= 4:
            lo = r.randint(a, a + (b - a) // 2)
            hi = r.randint(lo, b)
            return [("rng", a, b, False, False), ("rng", lo, hi, False, False)]
        if f < 0.54 and b - a >= 6:
            lo = r.randint(a + 1, b - 1)
            hi = min(b - 1, lo + r.randrange(0, 5))
            ex = ("rng", lo, hi, False, False) if hi > lo else ("val", lo)
            return [("exc", ("rng", a, b, False, False), ex)]
        if f < 0.58 and b - a >= 4 and self.p.intmeet:
            x, y = sorted((r.randint(a, b), r.choice([a, b, r.randint(a, b)])))
            u, v = ("rng", a, b, False, False), r.choice([("rng", x, y, False, False), ("rng", x, None, False, False), ("rng", None, y, False, False),
                                                            ("rng", r.choice([a, x]), lim if b < lim and self.ch(0.5) else None, False, False)])
            if self.ch(0.4): u, v = v, u
            return [("and", u, v)] if self.ch(0.6) else [u, v]
        if f < 0.62 and self.p.includes:
            ns = [n for n, t in self.s.types.items() if t.k == "int" and t.cons]
            if ns:
                n = r.choice(ns)
                return [("inc", n)]
        if self.p.tricky and f < 0.72 and b - a >= 20:
            q = sorted(r.sample(range(a, a + min(b - a, 10 ** 6)), 6))
            u = ("or", ("rng", q[0], q[1], False, False), ("rng", q[3], q[5], False, False))
            v = ("or", ("rng", q[0], q[2], False, False), ("rng", q[4], q[5], False, False))
            w = ("exc", ("rng", q[0], q[5], False, False), ("rng", q[1], q[2], False, False))
            x = r.choice([("and", u, v), ("exc", u, ("val", q[4])), ("and", u, w), ("or", ("val", q[2]), w), ("exc", u, w)])
            return [x] if self.ch(0.7) else [x, r.choice([u, v, w])]
        return [("rng", a, b, False, False)]

    def size(self, cap):
        """(constraint over the size, lo, hi)"""
        r = self.r
        cand = [n for n in (1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 300) if n <= cap]
        big = [n for n in (1000, 16383, 16384, 16385, 32768, 49152, 65535, 65536, 65537, 70000, 131072) if n <= cap * 500]
        if self.ch(self.p.big) and cap >= 300:
            hi = r.choice(big)
            lo = r.choice([0, 1, hi, hi - 1, hi // 2])
        else:
            hi = r.choice(cand)
            lo = r.choice([hi, hi, 0, 0, 1, r.randint(0, hi), hi - 1])
        lo = max(0, min(lo, hi))
        f = r.random()
        if lo == hi: return ("val", lo), lo, hi
        if f < 0.1 and hi - lo >= 3:
            m = r.randint(lo, hi - 2)
            return ("or", ("rng", lo, m, False, False) if m > lo else ("val", lo), ("val", hi) if self.ch(0.5) else ("rng", m + 2, hi, False, False) if m + 2 < hi else ("val", hi)), lo, hi
        if f < 0.14 and hi - lo >= 3: return ("rng", lo, hi, True, False), lo + 1, hi
        return ("rng", lo, hi, False, False), lo, hi

    def scons(self, cap):
        c, lo, hi = self.size(cap)
        if self.ch(0.08) and hi - lo >= 2:  # serial sizes
            return [("size", c), ("size", ("rng", lo, hi - 1, False, False))]
        return [("size", c)]

    def fcons(self, base):
        r = self.r
        b = [ch for ch in base if ch in PRINT]
        f = r.random()
        def rg():
            i = r.randrange(len(b)); j = min(len(b) - 1, i + r.choice([0, 1, 2, 3, 7, 8, 15, 16, 25, 31, 63]))
            return ("rng", b[i], b[j], False, False) if j > i else ("val", b[i])
        if f < 0.4: return rg()
        if f < 0.7: return ("val", "".join(r.sample(b, min(len(b), r.choice([1, 2, 3, 4, 5, 8, 9])))))
        if f < 0.9: return ("or", rg(), rg())
        if self.p.tricky: return ("exc", ("rng", b[0], b[-1], False, False), rg())
        return ("rng", b[0], b[-1], False, False)

    # ------------------------------------------------------------ types
    def prim(self):
        r = self.r
        ks = self.p.kinds or (["int"] * 8 + ["bool"] * 2 + ["null"] + ["enum"] * 3 + ["bits"] * 2 + ["octs"] * 3 + ["str"] * 3 + (["real"] * 2 if self.p.real else []) + (["oid", "roid"] if self.p.oid and self.ch(0.5) else []))
        k = r.choice(ks)
        for _ in range(30):
            t = self.mk(k)
            if self.sat(t): return t
        return T("bool")

    def sat(self, t):
        b, cons = resolve(self.s, t)
        if b.k == "str" and not [ch for ch in alpha(cons, NUMERIC if b.sk == "NumericString" else IA5) if ch != "\0"]: return False
        try:
            return all(valid(self.s, t, self.val(t)) for _ in range(4))
        except Unsat:
            return False

    def mk(self, k):
        r = self.r
        if k == "int": return T("int", cons=self.icons())
        if k == "real":
            cons = []
            if self.p.realcons and self.ch(0.3):
                a, b = sorted([r.choice([-1e3, -1.0, 0.0, 0.5, 1.0, 10.0, 1e6, -2.5, 100.25]), r.choice([-5.0, 2.0, 3.5, 1e9, 64.0, -0.125])])
                if a < b: cons = [("rng", a, b, False, False)]
            return T("real", cons=cons)
        if k == "enum":
            n = r.choice([1, 2, 2, 3, 4, 5, 8, 9]) if not self.ch(0.04) else r.choice([127, 128, 130, 255, 257])
            n = min(n, self.p.enum_max)
            style = r.random()
            names = [self.nm("en") for _ in range(n)]
            vals = [None] * n
            if style < 0.4: vals = r.sample(sorted(set(range(n * 3)) | {255, 256, 65535, -1, -5, -128, 2**31 - 1, -2**31}), n)
            elif style < 0.55: vals = [v if self.ch(0.4) else None for v in r.sample(range(n * 2 + 3), n)]
            t = T("enum", items=list(zip(names, vals)))
            if len({v for _, v in enum_values(t)}) != n: return T("enum", items=[(x, None) for x in names])
            if self.ch(0.15) and 3 <= n <= 20:
                sub = r.sample(names, r.randint(2, n - 1))
                c = ("val", sub[0])
                for x in sub[1:]: c = ("or", c, ("val", x))
                if self.p.tricky and self.ch(0.3): c = ("allexc", c)
                t.cons = [c]
            return t
        if k in ("bits", "octs"):
            t = T(k, cons=self.scons(self.cap()))
            if self.p.wc and self.ch(0.12):
                _, hi = bounds(self.s, t.cons, True)
                vs = sorted({self.val(t) for _ in range(3)}) if hi <= 40 else []
                if vs:
                    c = ("val", vs[0])
                    for x in vs[1:]: c = ("or", c, ("val", x))
                    t.cons.append(c)
            return t
        if k == "str":
            sk = r.choice(["IA5String", "IA5String", "NumericString"])
            base = NUMERIC if sk == "NumericString" else IA5
            cons = self.scons(self.cap())
            if self.ch(0.5):
                f = ("from", self.fcons(base))
                if self.ch(0.3): cons = [("and", cons[0], f)] + cons[1:]
                elif self.ch(0.5): cons = [f] + cons
                else: cons = cons + [f]
            t = T("str", sk=sk, cons=cons)
            if self.p.wc and self.ch(0.12):
                _, hi = bounds(self.s, t.cons, True)
                vs = sorted({self.val(t) for _ in range(3)}) if hi <= 40 else []
                vs = [v for v in vs if all(ch in PRINT for ch in v)]
                if vs:
                    c = ("val", vs[0])
                    for x in vs[1:]: c = ("or", c, ("val", x))
                    t.cons.append(c)
            return t
        return T(k)

    def cap(self): return 300

    def weight(self, t):
        """rough size of the C value"""
        b, cons = resolve(self.s, t)
        if b.k in ("seq", "choice"): return 8 + sum(self.weight(c.t) for c in b.comps)
        _, hi = bounds(self.s, cons, True) if b.k in ("seqof", "bits", "octs", "str") else (0, 1)
        if b.k == "seqof": return 8 + (hi or 1) * self.weight(b.elem)
        if b.k == "bits": return 8 + (hi or 8) // 8
        if b.k in ("octs", "str"): return 8 + (hi or 1)
        if b.k in ("oid", "roid"): return 170
        return 8

    def gtype(self, d):
        r = self.r
        if d <= 0 or self.ch(0.3): 
            return self.maybe_ref() or self.prim()
        f = r.random()
        if f < 0.15:
            x = self.maybe_ref()
            if x: return x
        if f < 0.55: return self.seq(d)
        if f < 0.75: return self.choice(d)
        return self.seqof(d)

    def maybe_ref(self):
        if not self.s.types or not self.ch(0.4): return None
        n = self.r.choice(list(self.s.types))
        if self.weight(T("ref", ref=n)) > 60000: return None
        t = T("ref", ref=n)
        b, cons = resolve(self.s, t)
        if inline_enum(self.s, b) and not self.p.fixref: return t
        if self.ch(0.3):
            if b.k == "int":
                lo, hi = bounds(self.s, cons)
                if lo is not None and hi is not None and hi - lo > 4:
                    a = self.r.randint(lo, hi - 2); z = self.r.randint(a + 1, hi)
                    t.cons = [("rng", a, z, False, False)]
            elif b.k in ("octs", "bits", "seqof") or (b.k == "str" and self.ch(0.5)):
                lo, hi = bounds(self.s, cons, True)
                if lo is not None and hi - lo >= 2:
                    a = self.r.randint(lo, hi - 1); z = self.r.randint(a if b.k == "str" or self.p.fixref else a + 1, hi)
                    t.cons = [("size", ("rng", a, z, False, False) if z > a else ("val", a))]
            elif b.k == "str":
                t.cons = [("from", self.fcons(NUMERIC if b.sk == "NumericString" else IA5))]
            if t.cons and not self.sat(t): t.cons = []
        if self.p.wc and not t.cons and self.ch(0.4):
            c = self.wcs(t)
            if c:
                t.cons = [c]
                if not self.sat(t): t.cons = []
        return t

    def wcs(self, t):
        """a WITH COMPONENT(S) constraint for a reference to a SEQUENCE, CHOICE or SEQUENCE OF"""
        r = self.r
        b, bc = resolve(self.s, t)
        if any(x[0] in ("wc", "wcs") for x in bc): return None   # one WITH COMPONENT(S) per chain: two may contradict each other
        if b.k == "seqof":
            e, ec = resolve(self.s, b.elem)
            c = self.narrow(b.elem)
            return ("wc", c, e.k) if c else None
        if b.k not in ("seq", "choice") or not b.comps: return None
        rows, kinds = [], {}
        for c in b.comps:
            if not self.ch(0.5): continue
            e, _ = resolve(self.s, c.t)
            kinds[c.name] = e.k
            n = self.narrow(c.t) if self.ch(0.5) else []
            p = None
            if b.k == "seq" and c.opt == "OPT" and self.ch(0.6): p = r.choice(["PRESENT", "ABSENT"])
            if b.k == "choice" and self.ch(0.3): p = "ABSENT"
            if p == "ABSENT": n = []
            if n or p: rows.append((c.name, n, p))
        return ("wcs", True, rows, kinds) if rows else None

    def narrow(self, t):
        b, cons = resolve(self.s, t)
        if b.k == "int":
            lo, hi = bounds(self.s, cons)
            if lo is not None and hi is not None and hi - lo > 4:
                a = self.r.randint(lo, hi - 2)
                return [("rng", a, self.r.randint(a + 1, hi), False, False)]
        if b.k in ("octs", "bits", "str", "seqof"):
            lo, hi = bounds(self.s, cons, True)
            if lo is not None and hi - lo >= 2:
                a = self.r.randint(lo, hi - 1)
                z = self.r.randint(a if b.k == "str" or self.p.fixref else a + 1, hi)
                return [("size", ("rng", a, z, False, False) if z > a else ("val", a))]
        if b.k == "enum" and len(b.items) > 2: return [("or", ("val", b.items[0][0]), ("val", b.items[-1][0]))]
        if b.k == "bool" and self.ch(0.3): return [("val", True)]
        return []

    def comp_type(self, d):
        if self.ch(0.15) and len(self.s.types) < self.p.types * 2:
            n = self.nm("Ty")
            self.s.types[n] = self.gtype(d - 1)
            return T("ref", ref=n)
        return self.gtype(d - 1) if d > 1 else (self.maybe_ref() or self.prim())

    def seq(self, d):
        r = self.r
        n = r.choice([0, 1, 2, 3, 3, 4, 5, 6]) if self.p.exotic else r.choice([1, 2, 3, 4, 5])
        if self.ch(0.02): n = r.choice([9, 17, 33])
        comps = []
        for _ in range(n):
            t = self.comp_type(d)
            if self.weight(t) > 3000 and d < 3: t = T("bool")
            opt = None
            if self.ch(0.3): opt = "OPT"
            elif self.p.default and self.ch(0.12):
                b, cons = resolve(self.s, t)
                if b.k in ("int", "bool", "enum", "real", "octs", "bits", "str") and self.weight(t) < 100:
                    v = self.val(t)
                    if b.k == "real": v = r.choice([0.0, 1.5, -2.25, 100.0])
                    if b.k == "str" and any(ch not in PRINT for ch in v): v = None
                    if v is not None and valid(self.s, t, v): opt = ("DEF", v)
            comps.append(Comp(self.field(), t, opt))
        return T("seq", comps=comps, set=self.p.sets and self.ch(0.08))

    def choice(self, d):
        r = self.r
        n = r.choice([1, 2, 2, 3, 4, 5, 8, 9])
        if self.ch(0.02): n = r.choice([16, 17, 64, 65])
        return T("choice", comps=[Comp(self.field(), self.comp_type(d if n < 10 else 0)) for _ in range(n)])

    def seqof(self, d):
        e = self.comp_type(d)
        w = self.weight(e)
        if w > 4000: e, w = T("bool"), 8
        cap = 300 if w <= 16 and d >= 2 else max(2, min(self.p.maxelems, 20000 // w))
        return T("seqof", elem=e, cons=self.scons(cap)[:1], set=self.p.sets and self.ch(0.1))

    def spec(self):
        if self.p.consts:
            for _ in range(self.r.randrange(3)): self.s.consts[self.nm("kc")] = self.r.choice(EDGES[:24])
        k = 0
        while k < self.p.types:
            k += 1
            n = self.nm("Ty")
            t = self.gtype(self.p.depth if k > self.p.types // 3 else self.r.choice([0, 1]))
            if self.weight(t) > 400000 or not self.sat(t): continue
            self.s.types[n] = t
        return self.s

    # ------------------------------------------------------------ values
    def val(self, t, depth=0):
        """a valid value"""
        return gen_value(self.s, self.r, t)


def inline_enum(spec, b):
    """an ENUMERATED or CHOICE defined inside (not by reference): a constrained reference defines it again (known finding)"""
    def go(t):
        if t.k == "enum": return True
        if t.k == "choice" and t is not b: return True
        if t.k == "seqof": return go(t.elem)
        return t.k in ("seq", "choice") and any(go(c.t) for c in t.comps)
    return b.k in ("seqof", "seq", "choice") and go(b)


class Unsat(Exception):
    pass


def points(c, out, spec):
    if c[0] == "val" and not isinstance(c[1], bool): out.append(c[1])
    elif c[0] == "rng":
        for x in c[1:3]:
            if x is not None: out.append(x)
    elif c[0] in ("or", "and", "exc"): points(c[1], out, spec); points(c[2], out, spec)
    elif c[0] == "allexc": points(c[1], out, spec)
    elif c[0] == "inc":
        for x in resolve(spec, T("ref", ref=c[1]))[1]: points(x, out, spec)


def sat_all(spec, cons, v): return all(sat(spec, c, v) for c in cons)


def int_candidates(spec, r, cons, lo, hi):
    pts = []
    for c in cons: points(c, pts, spec)
    pts = [p for p in pts if isinstance(p, int)]
    out = [lo, hi, 0, 1, -1]
    for p in pts: out += [p, p - 1, p + 1]
    blo, bhi = bounds(spec, cons)
    blo, bhi = lo if blo is None else blo, hi if bhi is None else bhi
    if blo <= bhi:
        for _ in range(4): out.append(r.randint(blo, bhi))
        for e in r.sample(EDGES, 3): out += [blo + e, bhi - e, e, -e]
    return [v for v in out if lo <= v <= hi]


def gen_int(spec, r, t):
    b, cons = resolve(spec, t)
    lo, hi = int_type(spec, t)
    c = [v for v in int_candidates(spec, r, cons, lo, hi) if sat_all(spec, cons, v)]
    if not c: raise Unsat()
    return r.choice(c)


def size_cons(cons):
    """only the constraints on the size, as a predicate over n"""
    def f(c, n):
        if c[0] == "size": return sat(None, c[1], n)
        if c[0] == "and": return f(c[1], n) and f(c[2], n)
        if c[0] == "or": return f(c[1], n) or f(c[2], n)
        return True
    return lambda n: all(f(c, n) for c in cons)


def size_points(cons):
    pts = []
    def f(c):
        if c[0] == "size": points(c[1], pts, None)
        elif c[0] in ("and", "or", "exc"): f(c[1]); f(c[2])
    for c in cons: f(c)
    return pts


def gen_size(spec, r, cons, small=False):
    lo, hi = bounds(spec, cons, True)
    lo = lo or 0
    if hi is None: hi = lo + 10
    c = [lo, hi] + [p + d for p in size_points(cons) for d in (-1, 0, 1)] + [r.randint(lo, hi) for _ in range(3)] + [min(hi, lo + k) for k in (1, 2, 3)]
    ok = size_cons(cons)
    c = [n for n in c if lo <= n <= hi and ok(n)]
    if not c: raise Unsat()
    if small: return min(c) if r.random() < 0.7 else sorted(c)[len(c) // 3]
    return r.choice(c)


def gen_bits(r, n):
    f = r.random()
    if f < 0.1: return "0" * n
    if f < 0.2: return "1" * n
    return format(r.getrandbits(n), "0%db" % n) if n else ""


def gen_bytes(r, n):
    f = r.random()
    if f < 0.08: return b"\0" * n
    if f < 0.16: return b"\xff" * n
    return r.randbytes(n)


SPECIAL = [0.0, 1.0, -1.0, 0.5, 2.0, 3.0, -0.1, 0.1, 1e10, -1e-10, 1.7976931348623157e308, 2.2250738585072014e-308, 5e-324, 4.9e-320, float("inf"), float("-inf"),
           3.141592653589793, 2.0**52, 2.0**53 - 1, 2.0**-1022, 255.0, 256.0, -65536.0, 1e100]


def gen_real(r):
    f = r.random()
    if f < 0.5: return r.choice(SPECIAL)
    if f < 0.7: return float(r.randint(-2**r.randrange(1, 60), 2**r.randrange(1, 60)))
    while True:
        v = struct.unpack(">d", r.randbytes(8))[0]
        if v == v: return v


def gen_value(spec, r, t, budget=None):
    b, cons = resolve(spec, t)
    k = b.k
    budget = budget if budget is not None else [3000]
    for _ in range(40):
        if k == "int": v = gen_int(spec, r, t)
        elif k == "bool": v = r.random() < 0.5
        elif k == "null": v = None
        elif k == "real":
            v = gen_real(r)
            if cons and r.random() < 0.7:
                pts = []
                for c in cons: points(c, pts, spec)
                pts = [float(p) for p in pts]
                v = r.choice(pts + [pts[0] + (pts[-1] - pts[0]) * r.random()])
        elif k == "enum": v = r.choice(b.items)[0] if r.random() < 0.8 else r.choice([b.items[0], b.items[-1]])[0]
        elif k in ("bits", "octs", "str"):
            vals = []
            for c in cons:
                if c[0] in ("val", "or") and not size_points([c]) : str_points(c, vals)
            if vals and r.random() < 0.9: v = r.choice(vals)
            else:
                n = gen_size(spec, r, cons, small=budget[0] < 0)
                budget[0] -= n // 8
                if k == "bits": v = gen_bits(r, n)
                elif k == "octs": v = gen_bytes(r, n)
                else:
                    al = [ch for ch in alpha(cons, NUMERIC if b.sk == "NumericString" else IA5) if ch != "\0"]
                    if not al and n: raise Unsat()
                    f = r.random()
                    if f < 0.15: v = (al[0] if al else "") * n
                    elif f < 0.3: v = (al[-1] if al else "") * n
                    else: v = "".join(r.choice(al) for _ in range(n)) if n else ""
        elif k == "oid": v = gen_oid(r)
        elif k == "roid": v = tuple(gen_arc(r) for _ in range(r.choice([1, 1, 2, 3, 19, 20])))
        elif k == "seq":
            v, mode = {}, r.random()
            for c in b.comps:
                if c.acnonly: continue
                if c.opt is not None and (mode < 0.1 or (mode > 0.2 and r.random() < 0.5)): continue
                x = gen_value(spec, r, c.t, budget)
                if c.opt not in (None, "OPT") and eq(spec, c.t, x, c.opt[1]): continue
                v[c.name] = x
        elif k == "choice":
            c = r.choice(b.comps)
            v = (c.name, gen_value(spec, r, c.t, budget))
        elif k == "seqof":
            budget[0] -= 10
            n = gen_size(spec, r, cons, small=budget[0] < 0)
            v = [gen_value(spec, r, b.elem, budget) for _ in range(n)]
            budget[0] -= n
        else: raise ValueError(k)
        if k not in ("seq", "choice", "seqof", "bits", "octs", "str", "real", "enum"): 
            if sat_all(spec, cons, v): return v
            continue
        if all(sat(spec, c, v) for c in cons): return v
        w = steer(spec, r, t, b, cons, v, budget)
        if w is not None and all(sat(spec, c, w) for c in cons): return w
    raise Unsat()


def steer(spec, r, t, b, cons, v, budget):
    """repair a value that misses WITH COMPONENT(S) constraints"""
    try:
        if b.k == "seq":
            v = dict(v)
            for c in cons:
                if c[0] != "wcs": continue
                for name, ic, pres in c[2]:
                    comp = [x for x in b.comps if x.name == name][0]
                    if pres == "ABSENT": v.pop(name, None)
                    elif name in v or pres == "PRESENT":
                        v[name] = gen_value(spec, r, narrowed(comp.t, ic), budget)
            return {c.name: v[c.name] for c in b.comps if c.name in v}
        if b.k == "seqof":
            for c in cons:
                if c[0] == "wc": v = [gen_value(spec, r, narrowed(b.elem, c[1]), budget) for _ in v]
            return v
        if b.k == "choice":
            for c in cons:
                if c[0] != "wcs": continue
                for name, ic, pres in c[2]:
                    if v[0] == name and pres != "ABSENT":
                        comp = [x for x in b.comps if x.name == name][0]
                        v = (name, gen_value(spec, r, narrowed(comp.t, ic), budget))
            return v
    except Unsat:
        return None
    return None


def narrowed(t, ic):
    import copy
    n = copy.copy(t)
    n.cons = list(t.cons) + list(ic)
    return n


def str_points(c, out):
    if c[0] == "val": out.append(c[1])
    elif c[0] in ("or", "and", "exc"): str_points(c[1], out); str_points(c[2], out)


def gen_arc(r):
    return r.choice([0, 1, 39, 40, 79, 80, 127, 128, 16383, 16384, 2**31, 2**32 - 1, 2**56]) if r.random() < 0.6 else r.randrange(0, 2 ** r.randrange(1, 60))


def gen_oid(r):
    a = r.choice([0, 1, 2])
    b = r.randint(0, 39) if a < 2 else r.choice([0, 39, 40, 47, 48, 127, 999, 2**32])
    return (a, b) + tuple(gen_arc(r) for _ in range(r.choice([0, 1, 2, 5, 17, 18])))


# ---------------------------------------------------------------- mutated values (not necessarily valid, always representable)
def mutate(spec, r, t, v):
    """change one random place of a value to something representable that may violate a constraint; None when nothing changed"""
    spots = []
    def go(t, v, setter):
        b, cons = resolve(spec, t)
        k = b.k
        if k not in ("seq", "choice", "null"): spots.append((t, v, setter))
        if k == "seq":
            for c in b.comps:
                if c.acnonly: continue
                if c.name in v: go(c.t, v[c.name], lambda x, n=c.name: setter({**v, n: x}))
                if c.opt is not None:
                    def tog(x, n=c.name, c=c):
                        w = dict(v)
                        if n in w: del w[n]
                        else: w[n] = gen_value(spec, r, c.t)
                        return setter({q.name: w[q.name] for q in b.comps if q.name in w})
                    spots.append(("toggle", None, tog))
        elif k == "choice":
            c = [c for c in b.comps if c.name == v[0]][0]
            go(c.t, v[1], lambda x: setter((v[0], x)))
            def alt(x):
                c2 = r.choice(b.comps)
                return setter((c2.name, gen_value(spec, r, c2.t)))
            spots.append(("alt", None, alt))
        elif k == "seqof":
            for i in range(len(v)):
                if len(v) > 8 and r.random() > 8 / len(v): continue
                go(b.elem, v[i], lambda x, i=i: setter(v[:i] + [x] + v[i + 1:]))
    go(t, v, lambda x: x)
    if not spots: return None
    t1, v1, st = r.choice(spots)
    try:
        return st(None if isinstance(t1, str) else other(spec, r, t1, v1))
    except Unsat:
        return None


def capacity(spec, t):
    """(fixed?, capacity) of the C representation of a sized type: given by the size constraint of the assignment that defines it"""
    b, cons = resolve(spec, t)
    lo, hi = bounds(spec, cons, True)
    return lo, hi


def struct_bounds(spec, t):
    """size bounds that shape the C type: the type a reference names keeps its own representation"""
    while t.k == "ref": t = spec.types[t.ref]
    return bounds(spec, t.cons, True)


def other(spec, r, t, v):
    b, cons = resolve(spec, t)
    k = b.k
    if k == "int":
        lo, hi = repr_int(spec, t)
        return r.choice(int_candidates(spec, r, cons, lo, hi))
    if k == "bool": return not v
    if k == "real":
        pts = []
        for c in cons: points(c, pts, spec)
        pts = [float(p) for p in pts]
        return r.choice([gen_real(r)] + [p + d for p in pts for d in (-1.0, 0.0, 1.0, 2.0**-20, -2.0**-20)])
    if k == "enum": return r.choice(b.items)[0]
    if k in ("octs", "bits", "str", "seqof"):
        lo, hi = struct_bounds(spec, t)
        lo = lo or 0
        if lo == hi and k != "str": n = hi
        else: n = r.choice([len(v), 0, 1, hi, hi - 1, lo, max(0, lo - 1)] + [p + d for p in size_points(cons) for d in (-1, 0, 1)])
        n = max(0, min(n, hi))
        if n > 400 and k == "seqof": n = min(n, len(v) + 1)
        if k == "octs": return (v + gen_bytes(r, n))[:n] if r.random() < 0.6 else gen_bytes(r, n)
        if k == "bits": return (v + gen_bits(r, n))[:n] if r.random() < 0.6 else gen_bits(r, n)
        if k == "seqof": return (v + [gen_value(spec, r, b.elem) for _ in range(max(0, n - len(v)))])[:n]
        # NumericString does not check its own alphabet (known finding P03.valid/numeric-alphabet)
        base = NUMERIC if b.sk == "NumericString" else [chr(c) for c in range(1, 128)]
        if r.random() < 0.5 and v:
            i = r.randrange(len(v))
            return v[:i] + r.choice(base) + v[i + 1:]
        return (v + "".join(r.choice(base) for _ in range(n)))[:n]
    if k == "oid": return r.choice([gen_oid(r), (3, 1), (1, 40), (0, 39, 5), (2, 40)])
    if k == "roid": return tuple(gen_arc(r) for _ in range(r.choice([1, 2, 20])))
    return v


def repr_int(spec, t):
    """range of the C integer that holds the type: unsigned when the type that defines it has no negative value"""
    n = t
    chain = [n]
    while n.k == "ref":
        n = spec.types[n.ref]
        chain.append(n)
    for x in reversed(chain):  # the definition decides; a reference keeps its representation
        return int_type(spec, x)
