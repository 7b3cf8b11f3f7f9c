"""Abstract model of an ASN.1 (+ ACN) specification: types, constraints, printing, validity, effective PER constraints.

Written from X.680 / X.691 and the ACN manual; nothing here is derived from the compiler's output."""

I64MIN, I64MAX, U64MAX = -2**63, 2**63 - 1, 2**64 - 1
NUMERIC = [" "] + [chr(c) for c in range(0x30, 0x3A)]
IA5 = [chr(c) for c in range(128)]


class T:
    """one type node"""
    def __init__(self, k, **kw):
        self.k = k
        self.cons = kw.pop("cons", [])      # serially applied constraints
        self.sk = kw.pop("sk", "IA5String")  # string kind
        self.items = kw.pop("items", None)  # enum: [(name, value or None)]
        self.comps = kw.pop("comps", None)  # seq: [Comp]; choice: [Comp]
        self.elem = kw.pop("elem", None)
        self.ref = kw.pop("ref", None)      # name of the referenced assignment
        self.acn = kw.pop("acn", {})        # ACN properties
        self.args = kw.pop("args", [])      # ACN arguments of a reference: list of paths
        self.set = kw.pop("set", False)     # SET / SET OF
        self.text = kw.pop("text", None)    # ASN.1 text to print instead (P08 rewritings)
        assert not kw, kw


class Comp:
    """component of a SEQUENCE (opt: None | 'OPT' | ('DEF', value)) or alternative of a CHOICE, or an ACN-inserted field"""
    def __init__(self, name, t, opt=None, acnonly=None, pres=None, tag=None):
        self.name, self.t, self.opt, self.acnonly, self.pres, self.tag = name, t, opt, acnonly, pres, tag
        # acnonly: None, or the ACN type text of an inserted field; pres: ACN presence condition


class Spec:
    def __init__(self, name="MODA"):
        self.name = name
        self.types = {}    # assignments, in order
        self.consts = {}   # INTEGER value assignments
        self.params = {}   # type name -> [(acn type text, param name)]
        self.values = []   # (name, type name, value)
        self.acnconsts = {}
        self.use_acn = False
        self.tags = "AUTOMATIC TAGS"


def resolve(spec, t):
    """the type a node denotes without references, and all constraints in order of application"""
    cons = list(t.cons)
    while t.k == "ref":
        t = spec.types[t.ref]
        cons = list(t.cons) + cons
    return t, cons


# ---------------------------------------------------------------- constraints
# ('val',v) ('rng',lo,hi,loOpen,hiOpen) ('or',a,b) ('and',a,b) ('exc',a,b) ('allexc',a) ('size',c) ('from',c)
# ('wc',[cons]) inner type of SEQUENCE OF   ('wcs',partial,[(name,[cons],presence)]) ('inc',typename)
def sat(spec, c, v):
    o = c[0]
    if o == "val":
        return v == c[1]
    if o == "rng":
        if c[1] is not None and (v < c[1] or (c[3] and v == c[1])): return False
        if c[2] is not None and (v > c[2] or (c[4] and v == c[2])): return False
        return True
    if o == "or": return sat(spec, c[1], v) or sat(spec, c[2], v)
    if o == "and": return sat(spec, c[1], v) and sat(spec, c[2], v)
    if o == "exc": return sat(spec, c[1], v) and not sat(spec, c[2], v)
    if o == "allexc": return not sat(spec, c[1], v)
    if o == "size": return sat(spec, c[1], len(v))
    if o == "from": return all(satc(c[1], ch) for ch in v)
    if o == "inc": return all(sat(spec, x, v) for x in resolve(spec, T("ref", ref=c[1]))[1])
    if o == "wc": return all(all(sat(spec, x, e) for x in c[1]) for e in v)
    if o == "wcs":
        for name, cons, pres in c[2]:
            if isinstance(v, tuple):  # choice
                here = v[0] == name
                val = v[1]
            else:
                here = name in v
                val = v.get(name)
            if pres == "PRESENT" and not here: return False
            if pres == "ABSENT" and here: return False
            if here and not all(sat(spec, x, val) for x in cons): return False
        if not c[1]:  # full specification: what is not listed is absent
            listed = {n for n, _, _ in c[2]}
            names = [v[0]] if isinstance(v, tuple) else list(v)
            if any(n not in listed for n in names): return False
        return True
    raise ValueError(o)


def satc(c, ch):
    o = c[0]
    if o == "val": return ch in c[1]
    if o == "rng":
        if c[1] is not None and (ch < c[1] or (c[3] and ch == c[1])): return False
        if c[2] is not None and (ch > c[2] or (c[4] and ch == c[2])): return False
        return True
    if o == "or": return satc(c[1], ch) or satc(c[2], ch)
    if o == "and": return satc(c[1], ch) and satc(c[2], ch)
    if o == "exc": return satc(c[1], ch) and not satc(c[2], ch)
    if o == "allexc": return not satc(c[1], ch)
    raise ValueError(o)


def hull(a, b):
    lo = None if a[0] is None or b[0] is None else min(a[0], b[0])
    hi = None if a[1] is None or b[1] is None else max(a[1], b[1])
    return lo, hi


def meet(a, b):
    lo = a[0] if b[0] is None else b[0] if a[0] is None else max(a[0], b[0])
    hi = a[1] if b[1] is None else b[1] if a[1] is None else min(a[1], b[1])
    return lo, hi


def er(c, size=False, spec=None):
    """bounds of the PER-visible part of one constraint (None = unbounded)"""
    o = c[0]
    if o == "val": return (None, None) if size else (c[1], c[1])
    if o == "rng":
        if size: return (None, None)
        return (None if c[1] is None else c[1] + (1 if c[3] else 0), None if c[2] is None else c[2] - (1 if c[4] else 0))
    if o == "or": return hull(er(c[1], size, spec), er(c[2], size, spec))
    if o == "and": return meet(er(c[1], size, spec), er(c[2], size, spec))
    if o == "exc": return er(c[1], size, spec)
    if o == "size" and size: return er(c[1])
    if o == "inc" and not size:
        r = (None, None)
        for x in resolve(spec, T("ref", ref=c[1]))[1]: r = meet(r, er(x, False, spec))
        return r
    return (None, None)


def bounds(spec, cons, size=False):
    r = (None, None)
    for c in cons: r = meet(r, er(c, size, spec))
    return r


def alpha(cons, base):
    """effective permitted alphabet, in canonical order"""
    def f(c):
        if c[0] == "from": return {ch for ch in base if satc(c[1], ch)}
        if c[0] == "and": return f(c[1]) & f(c[2])
        if c[0] == "or": return f(c[1]) | f(c[2])
        if c[0] == "exc": return f(c[1])
        return set(base)
    s = set(base)
    for c in cons: s &= f(c)
    return sorted(s)


def int_type(spec, t):
    """(lo, hi) of the C/Ada integer that represents the type"""
    b, cons = resolve(spec, t)
    lo, hi = bounds(spec, cons)
    if lo is not None and lo >= 0: return 0, U64MAX
    return I64MIN, I64MAX


def enum_values(t):
    """[(name, value)] in definition order with X.680 numbering of the unnumbered items"""
    used = {v for _, v in t.items if v is not None}
    out, nxt = [], 0
    for n, v in t.items:
        if v is None:
            while nxt in used: nxt += 1
            v = nxt
            nxt += 1
        out.append((n, v))
    return out


def valid(spec, t, v):
    """does the value satisfy every constraint of the type and its components?"""
    b, cons = resolve(spec, t)
    k = b.k
    if k == "int":
        lo, hi = int_type(spec, t)
        if not (lo <= v <= hi): return False
    if k == "enum" and v not in dict(b.items): return False
    if k == "oid" and not (2 <= len(v) <= 20 and v[0] <= 2 and (v[0] == 2 or v[1] <= 39)): return False
    if k == "roid" and not (1 <= len(v) <= 20): return False
    if k == "str":
        base = NUMERIC if b.sk == "NumericString" else IA5
        if any(ch not in base for ch in v): return False
    if k == "choice":
        alt = [c for c in b.comps if c.name == v[0]]
        if not alt or not valid(spec, alt[0].t, v[1]): return False
    if k == "seq":
        for c in b.comps:
            if c.acnonly: continue
            if c.name in v:
                if not valid(spec, c.t, v[c.name]): return False
            elif c.opt is None: return False
    if k == "seqof" and not all(valid(spec, b.elem, x) for x in v): return False
    for c in cons:
        if not sat(spec, c, v): return False
    return True


# ---------------------------------------------------------------- printing
def pval(spec, t, v):
    """ASN.1 value notation"""
    b, _ = resolve(spec, t)
    k = b.k
    if k == "int": return str(v)
    if k == "bool": return "TRUE" if v else "FALSE"
    if k == "null": return "NULL"
    if k == "real":
        if v == float("inf"): return "PLUS-INFINITY"
        if v == float("-inf"): return "MINUS-INFINITY"
        return preal(v)
    if k == "enum": return v
    if k == "bits": return "'%s'B" % v
    if k == "octs": return "'%s'H" % v.hex().upper()
    if k == "str": return '"%s"' % v.replace('"', '""')
    if k in ("oid", "roid"): return "{%s}" % " ".join(map(str, v))
    if k == "seq": return "{%s}" % ", ".join("%s %s" % (c.name, pval(spec, c.t, v[c.name])) for c in b.comps if not c.acnonly and c.name in v)
    if k == "seqof": return "{%s}" % ", ".join(pval(spec, b.elem, x) for x in v)
    if k == "choice": return "%s: %s" % (v[0], pval(spec, [c for c in b.comps if c.name == v[0]][0].t, v[1]))
    raise ValueError(k)


def preal(v):
    import decimal
    s = format(decimal.Decimal(v), "f") if abs(v) < 1e15 and (v == 0 or abs(v) > 1e-15) else "%.17e" % v
    if "e" not in s and "." not in s: s += ".0"
    return s


def pcv(k, v):
    if k == "str" or k == "char": return '"%s"' % v.replace('"', '""')
    if k == "octs": return "'%s'H" % v.hex().upper()
    if k == "bits": return "'%s'B" % v
    if k == "real": return preal(v)
    if k == "bool": return "TRUE" if v else "FALSE"
    return str(v)


def pcon(c, k, spec=None):
    o = c[0]
    if o == "val": return pcv(k, c[1]) if spec is None or not isinstance(c[1], int) or isinstance(c[1], bool) else cname(spec, c[1])
    if o == "rng":
        lo = "MIN" if c[1] is None else pcv(k, c[1]) if k != "int" else cname(spec, c[1])
        hi = "MAX" if c[2] is None else pcv(k, c[2]) if k != "int" else cname(spec, c[2])
        return lo + ("<" if c[3] else "") + ".." + ("<" if c[4] else "") + hi
    if o in ("or", "and", "exc"):
        op = {"or": " | ", "and": " ^ ", "exc": " EXCEPT "}[o]
        return "(%s)%s(%s)" % (pcon(c[1], k, spec), op, pcon(c[2], k, spec)) if not simple(c) else pcon(c[1], k, spec) + op + pcon(c[2], k, spec)
    if o == "allexc": return "ALL EXCEPT (%s)" % pcon(c[1], k, spec)
    if o == "size": return "SIZE(%s)" % pcon(c[1], "int", spec)
    if o == "from": return "FROM(%s)" % pcon(c[1], "char", spec)
    if o == "inc": return "INCLUDES " + c[1]
    if o == "wc": return "WITH COMPONENT %s" % "".join("(%s)" % pcon(x, c[2], spec) for x in c[1])
    if o == "wcs":
        parts = (["..."] if c[1] else []) + ["%s %s%s" % (n, "".join("(%s)" % pcon(x, c[3][n], spec) for x in cons), " " + p if p else "") for n, cons, p in c[2]]
        return "WITH COMPONENTS {%s}" % ", ".join(parts)
    raise ValueError(o)


def simple(c):
    return c[1][0] in ("val", "rng", "size", "from") and c[2][0] in ("val", "rng", "size", "from")


def cname(spec, v):
    """a named constant instead of the number, where the specification declares one"""
    if spec is not None:
        for n, x in spec.consts.items():
            if x == v: return n
    return str(v)


NAMES = {"int": "INTEGER", "bool": "BOOLEAN", "null": "NULL", "real": "REAL", "bits": "BIT STRING", "octs": "OCTET STRING",
         "oid": "OBJECT IDENTIFIER", "roid": "RELATIVE-OID"}


def ptype(spec, t, ind=1):
    if t.text is not None: return t.text
    pad = "  " * ind
    base, k = t, t.k
    if k == "ref":
        base, _ = resolve(spec, t)
    kk = base.k
    cons = "".join(" (%s)" % pcon(c, kk, spec) for c in t.cons)
    if k == "ref": return t.ref + cons
    if k == "str": return t.sk + cons
    if k in NAMES: return NAMES[k] + cons
    if k == "enum": return "ENUMERATED {%s}" % ", ".join(n if v is None else "%s(%d)" % (n, v) for n, v in t.items) + cons
    if k == "seq":
        rows = []
        for c in t.comps:
            if c.acnonly: continue
            o = "" if c.opt is None else " OPTIONAL" if c.opt == "OPT" else " DEFAULT " + pval(spec, c.t, c.opt[1])
            tag = "" if c.tag is None else "[%d] " % c.tag
            rows.append("%s%s %s%s%s" % (pad, c.name, tag, ptype(spec, c.t, ind + 1), o))
        return ("SET" if t.set else "SEQUENCE") + " {\n" + ",\n".join(rows) + "}" + cons
    if k == "choice":
        return "CHOICE {\n" + ",\n".join("%s%s %s%s" % (pad, c.name, "" if c.tag is None else "[%d] " % c.tag, ptype(spec, c.t, ind + 1)) for c in t.comps) + "}" + cons
    if k == "seqof":
        return ("SET" if t.set else "SEQUENCE") + cons + " OF " + ptype(spec, t.elem, ind + 1)
    raise ValueError(k)


def asn1(spec):
    out = ["%s DEFINITIONS %s ::= BEGIN" % (spec.name, spec.tags)]
    for n, v in spec.consts.items(): out.append("%s INTEGER ::= %d" % (n, v))
    for n, t in spec.types.items(): out.append("%s ::= %s" % (n, ptype(spec, t)))
    for n, tn, v in spec.values: out.append("%s %s ::= %s" % (n, tn, pval(spec, T("ref", ref=tn), v)))
    out.append("END")
    return "\n".join(out) + "\n"


# ---------------------------------------------------------------- ACN printing
def pprops(t, pres=None):
    a, p = t.acn, []
    if "enc" in a: p.append("encoding " + a["enc"])
    if "size" in a: p.append("size %s" % a["size"])
    if "term" in a: p.append("termination-pattern '%s'%s" % (a["term"][1], a["term"][0]))
    if "endian" in a: p.append("endianness " + a["endian"])
    if "align" in a: p.append("align-to-next " + a["align"])
    if "values" in a: p.append("encode-values")
    if "true" in a: p.append("true-value '%s'B" % a["true"])
    if "false" in a: p.append("false-value '%s'B" % a["false"])
    if "pattern" in a: p.append("pattern '%s'%s" % (a["pattern"][1], a["pattern"][0]))
    if "map" in a: p.append("mapping-function " + a["map"])
    if "det" in a: p.append("determinant " + a["det"])
    if "save" in a: p.append("save-position")
    if pres is not None: p.append("present-when " + ppres(pres))
    return "[%s]" % ", ".join(p)


def ppres(p):
    if p[0] == "bool": return p[1]
    if p[0] == "eq": return " ".join("%s==%s" % (f, ('"%s"' % v) if isinstance(v, str) else v) for f, v in p[1])
    if p[0] == "exp": return p[2]
    raise ValueError(p)


def pacn(spec, t, ind, pres=None):
    pad = "  " * ind
    s = pprops(t, pres)
    if t.k in ("seq", "choice") and not t.acn.get("nospec"):
        rows = []
        for c in t.comps:
            args = "<%s>" % ", ".join(c.t.args) if c.t.args else ""
            rows.append("%s%s %s%s" % (pad, c.name, (c.acnonly + " ") if c.acnonly else "", args + (" " if args else "") + pacn(spec, c.t, ind + 1, c.pres)))
        s += " {\n" + ",\n".join(rows) + "}"
    elif t.k == "seqof" and not t.acn.get("nospec"):
        args = "<%s> " % ", ".join(t.elem.args) if t.elem.args else ""
        s += " { %s%s }" % (args, pacn(spec, t.elem, ind + 1))
    elif t.k == "enum" and "set" in t.acn:
        s += " { %s }" % ", ".join("%s [%d]" % (n, t.acn["set"][n]) for n, _ in t.items)
    return s


def acn(spec):
    out = ["%s DEFINITIONS ::= BEGIN" % spec.name]
    for n, v in spec.acnconsts.items(): out.append("CONSTANT %s ::= %d" % (n, v))
    for n, t in spec.types.items():
        if n in getattr(spec, "acn_skip", ()): continue
        prm = "<%s>" % ", ".join("%s:%s" % x for x in spec.params[n]) if spec.params.get(n) else ""
        out.append("%s%s %s" % (n, prm, pacn(spec, t, 1)))
    out.append("END")
    return "\n".join(out) + "\n"


# ---------------------------------------------------------------- structure helpers
def children(t):
    if t.k in ("seq", "choice"): return [c.t for c in t.comps]
    if t.k == "seqof": return [t.elem]
    return []


def walk(t):
    yield t
    for c in children(t): yield from walk(c)


def con_refs(c):
    if c[0] == "inc": yield c[1]
    for x in c[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in ("val", "rng", "or", "and", "exc", "allexc", "size", "from", "inc", "wc", "wcs"): yield from con_refs(x)
        elif isinstance(x, list):
            for y in x:
                for z in (y[1] if isinstance(y, tuple) and len(y) == 3 and isinstance(y[1], list) else [y]):
                    if isinstance(z, tuple): yield from con_refs(z)


def deps(spec, name, seen=None):
    """assignments the given one needs, itself included"""
    seen = seen if seen is not None else set()
    if name in seen: return seen
    seen.add(name)
    for n in walk(spec.types[name]):
        if n.k == "ref": deps(spec, n.ref, seen)
        for c in n.cons:
            for r in con_refs(c): deps(spec, r, seen)
        for c in (n.comps or []):
            if c.acnonly and c.acnonly in spec.types: deps(spec, c.acnonly, seen)
    for at, _ in spec.params.get(name, []):
        if at in spec.types: deps(spec, at, seen)
    return seen


def eq(spec, t, a, b):
    """equality of abstract values (an absent DEFAULT component equals its default value)"""
    b0, _ = resolve(spec, t)
    k = b0.k
    if k == "real": return (a == b and (a != 0 or True)) or (a != a and b != b)
    if k == "seq":
        for c in b0.comps:
            if c.acnonly: continue
            x, y = a.get(c.name), b.get(c.name)
            hx, hy = c.name in a, c.name in b
            if c.opt not in (None, "OPT"):
                x = x if hx else c.opt[1]; y = y if hy else c.opt[1]; hx = hy = True
            if hx != hy: return False
            if hx and not eq(spec, c.t, x, y): return False
        return True
    if k == "seqof": return len(a) == len(b) and all(eq(spec, b0.elem, x, y) for x, y in zip(a, b))
    if k == "choice": return a[0] == b[0] and eq(spec, [c for c in b0.comps if c.name == a[0]][0].t, a[1], b[1])
    return a == b
