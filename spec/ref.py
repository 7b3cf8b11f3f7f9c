"""Independent reference encoder: unaligned PER (X.691), written from the standard over the model types. Bits are '0'/'1' strings."""
from .model import *
from fractions import Fraction
import math


def nb(n, w): return format(n, "0%db" % w) if w else ""


def width(rng): return rng.bit_length()  # bits for a number in 0..rng


def octets(n, signed):
    if signed:
        k = 1
        while not -(1 << (8 * k - 1)) <= n < (1 << (8 * k - 1)): k += 1
        return n.to_bytes(k, "big", signed=True)
    return n.to_bytes(max(1, (n.bit_length() + 7) // 8), "big")


def hexbits(b): return "".join(format(x, "08b") for x in b)


def enc_int(v, lo, hi):
    if lo is not None and hi is not None: return nb(v - lo, width(hi - lo))
    o = octets(v - lo, False) if lo is not None else octets(v, True)
    return nb(len(o), 8) + hexbits(o)


def frag(n, item):
    """general length determinant over n items; item(i, j) gives the bits of the items i..j-1"""
    out, i = [], 0
    while True:
        left = n - i
        if left < 128: out.append(nb(left, 8) + item(i, n)); return "".join(out)
        if left < 16384: out.append("10" + nb(left, 14) + item(i, n)); return "".join(out)
        m = min(4, left // 16384)
        out.append("11" + nb(m, 6) + item(i, i + m * 16384))
        i += m * 16384


def sized(n, lo, hi, item):
    lo = lo or 0
    if hi is None or hi >= 65536: return frag(n, item)
    if lo == hi: return item(0, n)
    return nb(n - lo, width(hi - lo)) + item(0, n)


def real_contents(v):
    """X.690 8.5 / 11.3 binary form, base 2; the mantissa is the 53-bit one the runtime uses (not made odd: known finding of P22)"""
    if v == 0: return b"" if math.copysign(1, v) > 0 else b"\x43"
    if v == float("inf"): return b"\x40"
    if v == float("-inf"): return b"\x41"
    m, e = math.frexp(abs(v))
    m, e = int(m * 2**53), e - 53
    return m, e, v < 0


def real_bytes(v):
    c = real_contents(v)
    if isinstance(c, bytes): return c
    m, e, neg = c
    eo = octets(e, True)
    mo = octets(m, False)
    return bytes([0x80 | (0x40 if neg else 0) | (len(eo) - 1)]) + eo + mo


def arcs(vs):
    out = b""
    for n in vs:
        o = [n & 127]
        n >>= 7
        while n:
            o.insert(0, 0x80 | (n & 127))
            n >>= 7
        out += bytes(o)
    return out


def char_table(al):
    """(bits per character, direct?)"""
    w = width(len(al) - 1)
    return w, bool(al) and ord(al[-1]) <= (1 << w) - 1


def uper(spec, t, v):
    b, cons = resolve(spec, t)
    k = b.k
    if k == "int": return enc_int(v, *bounds(spec, cons))
    if k == "bool": return "1" if v else "0"
    if k == "null": return ""
    if k == "real":
        o = real_bytes(v)
        return nb(len(o), 8) + hexbits(o)
    if k == "enum":
        vs = sorted(x for _, x in enum_values(b))
        return nb(vs.index(dict(enum_values(b))[v]), width(len(vs) - 1))
    if k == "bits":
        lo, hi = bounds(spec, cons, True)
        return sized(len(v), lo, hi, lambda i, j: v[i:j])
    if k == "octs":
        lo, hi = bounds(spec, cons, True)
        return sized(len(v), lo, hi, lambda i, j: hexbits(v[i:j]))
    if k == "str":
        al = alpha(cons, NUMERIC if b.sk == "NumericString" else IA5)
        w, direct = char_table(al)
        pos = {c: (ord(c) if direct else i) for i, c in enumerate(al)}
        lo, hi = bounds(spec, cons, True)
        return sized(len(v), lo, hi, lambda i, j: "".join(nb(pos[c], w) for c in v[i:j]))
    if k in ("oid", "roid"):
        o = arcs((v[0] * 40 + v[1],) + tuple(v[2:]) if k == "oid" else v)
        return frag(len(o), lambda i, j: hexbits(o[i:j]))
    if k == "seq":
        comps = [c for c in b.comps if not c.acnonly]
        out = "".join("1" if c.name in v else "0" for c in comps if c.opt is not None)
        return out + "".join(uper(spec, c.t, v[c.name]) for c in comps if c.name in v)
    if k == "choice":
        order = sorted(b.comps, key=lambda c: c.tag) if all(c.tag is not None for c in b.comps) else b.comps
        i = [c.name for c in order].index(v[0])
        return nb(i, width(len(order) - 1)) + uper(spec, order[i].t, v[1])
    if k == "seqof":
        lo, hi = bounds(spec, cons, True)
        return sized(len(v), lo, hi, lambda i, j: "".join(uper(spec, b.elem, x) for x in v[i:j]))
    raise ValueError(k)


def lensz(lo, hi):
    """largest number of length bits for sizes lo..hi, without contents"""
    lo = lo or 0
    if hi < 65536: return 0 if lo == hi else width(hi - lo)
    n, bits = hi, 0
    while n >= 16384:
        m = min(4, n // 16384)
        n -= m * 16384
        bits += 8
    # the tail: the longest one over all admissible sizes with at most these fragments
    tail = 16 if n >= 128 else 8
    return bits + tail


def uper_max(spec, t):
    """bits of the longest encoding of a valid value; None when the bound is a matter of interpretation"""
    b, cons = resolve(spec, t)
    k = b.k
    if k == "int":
        lo, hi = bounds(spec, cons)
        if lo is not None and hi is not None: return width(hi - lo)
        tlo, thi = int_type(spec, t)
        lo2, hi2 = (tlo if lo is None else lo), (thi if hi is None else hi)
        return 8 + 8 * (len(octets(hi2 - lo, False)) if lo is not None else max(len(octets(lo2, True)), len(octets(hi2, True))))
    if k == "bool": return 1
    if k == "null": return 0
    if k == "real": return 8 * (1 + 1 + 2 + 7)
    if k == "enum": return width(len(b.items) - 1)
    if k in ("bits", "octs", "str"):
        lo, hi = bounds(spec, cons, True)
        w = {"bits": 1, "octs": 8}.get(k) or (char_table(alpha(cons, NUMERIC if b.sk == "NumericString" else IA5))[0] if k == "str" else 0)
        return lensz(lo, hi) + hi * w
    if k in ("oid", "roid"): return None
    if k == "seq":
        s = 0
        for c in b.comps:
            m = uper_max(spec, c.t)
            if m is None: return None
            s += m + (1 if c.opt is not None else 0)
        return s
    if k == "choice":
        m = [uper_max(spec, c.t) for c in b.comps]
        return None if None in m else width(len(b.comps) - 1) + max(m)
    if k == "seqof":
        lo, hi = bounds(spec, cons, True)
        m = uper_max(spec, b.elem)
        return None if m is None else lensz(lo, hi) + hi * m
    raise ValueError(k)
