// P21 whole numbers and lengths, P22 REAL, P23 octet and bit strings, P24 object identifiers
#include "ref.h"
#include <cmath>
typedef __int128 i128;

template <class F> static void refuseCut(Src &r, const Bits &b, int off, const char *nm, F dec) {
  auto v = cut(r, b, off); Dec d(v, off);
  PBT_CHECK(!dec(&d.s), std::string(nm) + "/truncated-accepted", "%s accepted %zu of %zu bits", nm, v.size() * 8, b.size());
}

// ---------------------------------------------------------------- P21
static void constrained(Src &r) {
  int64_t lo, hi;
  switch (r.below(5)) {
    case 0: lo = r.range(-20, 20); hi = lo + (int64_t)r.below(40); break;
    case 1: lo = r.i64(); hi = r.i64(); break;
    case 2: lo = INT64_MIN; hi = r.i64(); break;
    case 3: lo = r.i64(); hi = INT64_MAX; break;
    default: { lo = r.i64(); uint64_t w = r.u64(); hi = (int64_t)((uint64_t)lo + w); }
  }
  if (lo > hi) std::swap(lo, hi);
  uint64_t range = (uint64_t)hi - (uint64_t)lo; int n = bitlen(range); int64_t v = r.iIn(lo, hi);
  Enc e(r, 64); e.exp.num((uint64_t)v - (uint64_t)lo, n);
  BitStream_EncodeConstraintWholeNumber(&e.s, v, lo, hi); e.check("EncodeConstraintWholeNumber");
  { Dec d(e.exp, e.off); int64_t g = 0x5a5a; PBT_CHECK(BitStream_DecodeConstraintWholeNumber(&d.s, (asn1SccSint *)&g, lo, hi) && g == v, "DecodeConstraintWholeNumber", "%lld in [%lld,%lld] decoded as %lld", (long long)v, (long long)lo, (long long)hi, (long long)g);
    PBT_CHECK(d.pos() == (long)e.exp.size(), "DecodeConstraintWholeNumber/position", "consumed %ld of %d bits", d.pos() - e.off, n); }
#define NARROW(T, FN, MIN, MAX, RT) if (lo >= (i128)MIN && hi <= (i128)MAX) { Dec d(e.exp, e.off); T g = 0x5a; PBT_CHECK(FN(&d.s, &g, (T)lo, (T)hi) && (i128)g == (i128)v && d.pos() == (long)e.exp.size(), #FN, #FN " of %lld in [%lld,%lld]: %lld", (long long)v, (long long)lo, (long long)hi, (long long)g); r.label(#T); }
  NARROW(int8_t, BitStream_DecodeConstraintWholeNumberInt8, INT8_MIN, INT8_MAX, 0)
  NARROW(int16_t, BitStream_DecodeConstraintWholeNumberInt16, INT16_MIN, INT16_MAX, 0)
  NARROW(int32_t, BitStream_DecodeConstraintWholeNumberInt32, INT32_MIN, INT32_MAX, 0)
  if (n > 0 && range != (n == 64 ? ~0ULL : (1ULL << n) - 1)) {      // an index above the range is refused
    Bits b; b.num(e.lead, e.off); b.num(r.uIn(range + 1, n == 64 ? ~0ULL : (1ULL << n) - 1), n); Dec d(b, e.off); asn1SccSint g;
    PBT_CHECK(!BitStream_DecodeConstraintWholeNumber(&d.s, &g, lo, hi), "DecodeConstraintWholeNumber/above-range", "accepted an index above the range as %lld", (long long)g);
  }
  if (n > 0) r.interesting(fmt("%lld in [%lld,%lld] at offset %d", (long long)v, (long long)lo, (long long)hi, e.off));
  if (n > 0) { asn1SccSint g; refuseCut(r, e.exp, e.off, "DecodeConstraintWholeNumber", [&](BitStream *s) { return BitStream_DecodeConstraintWholeNumber(s, &g, lo, hi); }); }
}
static void constrainedPos(Src &r) {
  uint64_t lo = r.coin() ? r.below(20) : r.u64(), hi = r.coin() ? lo + r.below(40) : r.u64(); if (lo > hi) std::swap(lo, hi);
  int n = bitlen(hi - lo); uint64_t v = r.uIn(lo, hi);
  Enc e(r, 64); e.exp.num(v - lo, n);
  BitStream_EncodeConstraintPosWholeNumber(&e.s, v, lo, hi); e.check("EncodeConstraintPosWholeNumber");
  { Dec d(e.exp, e.off); asn1SccUint g = 0; PBT_CHECK(BitStream_DecodeConstraintPosWholeNumber(&d.s, &g, lo, hi) && g == v, "DecodeConstraintPosWholeNumber", "%llu in [%llu,%llu] decoded as %llu", (unsigned long long)v, (unsigned long long)lo, (unsigned long long)hi, (unsigned long long)g);
    PBT_CHECK(d.pos() == (long)e.exp.size(), "DecodeConstraintPosWholeNumber/position", "position"); }
  NARROW(uint8_t, BitStream_DecodeConstraintPosWholeNumberUInt8, 0, UINT8_MAX, 0)
  NARROW(uint16_t, BitStream_DecodeConstraintPosWholeNumberUInt16, 0, UINT16_MAX, 0)
  NARROW(uint32_t, BitStream_DecodeConstraintPosWholeNumberUInt32, 0, UINT32_MAX, 0)
  uint64_t range = hi - lo;
  if (n > 0 && range != (n == 64 ? ~0ULL : (1ULL << n) - 1)) {
    Bits b; b.num(e.lead, e.off); b.num(r.uIn(range + 1, n == 64 ? ~0ULL : (1ULL << n) - 1), n); Dec d(b, e.off); asn1SccUint g;
    PBT_CHECK(!BitStream_DecodeConstraintPosWholeNumber(&d.s, &g, lo, hi), "DecodeConstraintPosWholeNumber/above-range", "accepted an index above the range");
  }
  if (n > 0) r.interesting(fmt("%llu in [%llu,%llu]", (unsigned long long)v, (unsigned long long)lo, (unsigned long long)hi));
  if (n > 0) { asn1SccUint g; refuseCut(r, e.exp, e.off, "DecodeConstraintPosWholeNumber", [&](BitStream *s) { return BitStream_DecodeConstraintPosWholeNumber(s, &g, lo, hi); }); }
}
static void semi(Src &r) {
  int64_t lo = r.coin() ? r.range(-300, 300) : r.i64(); int64_t v = r.iIn(lo, INT64_MAX);
  uint64_t o = (uint64_t)v - (uint64_t)lo; int L = ulen(o);
  Enc e(r, 80); e.exp.num(L, 8); e.exp.num(o, 8 * L);
  BitStream_EncodeSemiConstraintWholeNumber(&e.s, v, lo); e.check("EncodeSemiConstraintWholeNumber");
  Dec d(e.exp, e.off); asn1SccSint g = 0; PBT_CHECK(BitStream_DecodeSemiConstraintWholeNumber(&d.s, &g, lo) && g == v && d.pos() == (long)e.exp.size(), "DecodeSemiConstraintWholeNumber", "%lld >= %lld decoded as %lld", (long long)v, (long long)lo, (long long)g);
  r.interesting(fmt("%lld from %lld", (long long)v, (long long)lo));
  refuseCut(r, e.exp, e.off, "DecodeSemiConstraintWholeNumber", [&](BitStream *s) { return BitStream_DecodeSemiConstraintWholeNumber(s, &g, lo); });
}
static void semiPos(Src &r) {
  uint64_t lo = r.coin() ? r.below(300) : r.u64(), v = r.uIn(lo, ~0ULL), o = v - lo; int L = ulen(o);
  Enc e(r, 80); e.exp.num(L, 8); e.exp.num(o, 8 * L);
  BitStream_EncodeSemiConstraintPosWholeNumber(&e.s, v, lo); e.check("EncodeSemiConstraintPosWholeNumber");
  Dec d(e.exp, e.off); asn1SccUint g = 0; PBT_CHECK(BitStream_DecodeSemiConstraintPosWholeNumber(&d.s, &g, lo) && g == v && d.pos() == (long)e.exp.size(), "DecodeSemiConstraintPosWholeNumber", "%llu decoded as %llu", (unsigned long long)v, (unsigned long long)g);
  r.interesting(fmt("%llu from %llu", (unsigned long long)v, (unsigned long long)lo));
  refuseCut(r, e.exp, e.off, "DecodeSemiConstraintPosWholeNumber", [&](BitStream *s) { return BitStream_DecodeSemiConstraintPosWholeNumber(s, &g, lo); });
}
static void unconstrained(Src &r) {
  int64_t v = r.coin() ? r.i64() : -r.i64(); int L = slen(v);
  Enc e(r, 80); e.exp.num(L, 8); e.exp.snum(v, 8 * L);
  PBT_CHECK(GetLengthInBytesOfSInt(v) == L, "GetLengthInBytesOfSInt", "%lld: %d", (long long)v, GetLengthInBytesOfSInt(v));
  PBT_CHECK(GetLengthInBytesOfUInt((uint64_t)v) == ulen((uint64_t)v), "GetLengthInBytesOfUInt", "%llu", (unsigned long long)v);
  PBT_CHECK(GetNumberOfBitsForNonNegativeInteger((uint64_t)v) == bitlen((uint64_t)v), "GetNumberOfBits", "%llu", (unsigned long long)v);
  BitStream_EncodeUnConstraintWholeNumber(&e.s, v); e.check("EncodeUnConstraintWholeNumber");
  Dec d(e.exp, e.off); asn1SccSint g = 0; PBT_CHECK(BitStream_DecodeUnConstraintWholeNumber(&d.s, &g) && g == v && d.pos() == (long)e.exp.size(), "DecodeUnConstraintWholeNumber", "%lld decoded as %lld", (long long)v, (long long)g);
  r.interesting(fmt("%lld at offset %d", (long long)v, e.off)); r.label(v < 0 ? "negative" : "non-negative");
  refuseCut(r, e.exp, e.off, "DecodeUnConstraintWholeNumber", [&](BitStream *s) { return BitStream_DecodeUnConstraintWholeNumber(s, &g); });
}
static void rawNonNeg(Src &r) {
  uint64_t v = r.u64(); int n = bitlen(v); flag neg = r.coin();
  Enc e(r, 80); e.exp.num(neg ? ~v : v, n);
  if (neg) BitStream_EncodeNonNegativeIntegerNeg(&e.s, v, 1); else if (r.coin()) BitStream_EncodeNonNegativeInteger(&e.s, v); else BitStream_EncodeNonNegativeIntegerNeg(&e.s, v, 0);
  e.check(neg ? "EncodeNonNegativeIntegerNeg" : "EncodeNonNegativeInteger");
  int w = n + (int)r.below(65 - n); Bits b; b.num(e.lead, e.off); b.num(v, w); Dec d(b, e.off); asn1SccUint g = 0;
  PBT_CHECK(BitStream_DecodeNonNegativeInteger(&d.s, &g, w) && g == v && d.pos() == (long)b.size(), "DecodeNonNegativeInteger", "%llu in %d bits decoded as %llu", (unsigned long long)v, w, (unsigned long long)g);
  if (n > 8) r.interesting(fmt("%llx %s", (unsigned long long)v, neg ? "complemented" : ""));
}

// ---------------------------------------------------------------- P22
static double genDouble(Src &r) {
  uint64_t b; double d;
  switch (r.below(8)) {
    case 0: d = (double)r.range(-300, 300); break;
    case 1: d = std::ldexp(1.0 + (double)r.below(4) / 4, (int)r.range(-1074, 1023)); break;
    case 2: b = r.raw(0, pbt::splitmix(r.rng)) & 0x800FFFFFFFFFFFFFULL; memcpy(&d, &b, 8); break;   // denormals
    case 3: b = r.below(4) | (r.below(2) << 63); memcpy(&d, &b, 8); break;
    case 4: b = 0x7FEFFFFFFFFFFFFFULL - r.below(3); memcpy(&d, &b, 8); if (r.coin()) d = -d; break;
    case 5: d = r.coin() ? INFINITY : -INFINITY; break;
    case 6: d = (double)r.i64() * (r.coin() ? 1.0 : 0.001); break;
    default: b = r.raw(0, pbt::splitmix(r.rng)); memcpy(&d, &b, 8);
  }
  if (std::isnan(d)) d = 1.5;
  return d;
}
static uint64_t dbits(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
// exact value of m * 2^e as a double when it is one
static bool toDouble(uint64_t m, long e, double &d) {
  if (m == 0) { d = 0; return true; }
  while (!(m & 1)) { m >>= 1; e++; }
  if (bitlen(m) > 53 || e + bitlen(m) > 1024 || e < -1074) return false;
  d = std::ldexp((double)m, (int)e); return true;
}
static void realEnc(Src &r) {
  double v = genDouble(r); bool special = v == 0 || std::isinf(v); Bits canon; const char *deferred = nullptr;
  Buf buf(20); BitStream s; BitStream_Init(&s, buf.p, 20); int off = (int)r.below(8); for (int i = 0; i < off; i++) BitStream_AppendBit(&s, 1);
  BitStream_EncodeReal(&s, v); long bits = s.currentByte * 8 + s.currentBit - off;
  PBT_CHECK(bits % 8 == 0 && bits >= 8, "EncodeReal/size", "%ld bits", bits);
  Bits got; got.bitsOf(buf.p, off + bits); std::vector<uint8_t> c; for (long i = 0; i < bits / 8; i++) { uint8_t x = 0; for (int j = 0; j < 8; j++) x = x * 2 + got.b[off + i * 8 + j]; c.push_back(x); }
  for (int i = 0; i < off; i++) PBT_CHECK(got.b[i], "EncodeReal/neighbour", "bit %d before the item changed", i);
  PBT_CHECK(c[0] == c.size() - 1, "EncodeReal/length", "length octet %d, %zu contents octets", c[0], c.size() - 1);
  if (special) {
    std::vector<uint8_t> e; if (v == 0 && !std::signbit(v)) e = {0}; else e = {1, (uint8_t)(v == 0 ? 0x43 : v > 0 ? 0x40 : 0x41)};
    PBT_CHECK(c == e, "EncodeReal/special", "%g encoded as %s", v, pbt::hex(c.data(), c.size()).c_str());
  } else {
    PBT_CHECK(c.size() > 3 && (c[1] & 0x80), "EncodeReal/form", "not binary: %s", pbt::hex(c.data(), c.size()).c_str());
    PBT_CHECK((c[1] & 0x3C) == 0, "EncodeReal/base-factor", "header %02x", c[1]);
    PBT_CHECK(((c[1] & 0x40) != 0) == std::signbit(v), "EncodeReal/sign", "header %02x", c[1]);
    int el = (c[1] & 3) + 1; PBT_CHECK(el < 4 && (int)c.size() > 2 + el, "EncodeReal/exponent-length", "header %02x", c[1]);
    int64_t ex = (int8_t)c[2]; for (int i = 1; i < el; i++) ex = ex * 256 + c[2 + i];
    PBT_CHECK(slen(ex) == el, "EncodeReal/exponent-minimal", "exponent %lld in %d octets", (long long)ex, el);
    uint64_t m = 0; for (size_t i = 2 + el; i < c.size(); i++) m = m * 256 + c[i];
    PBT_CHECK(c[2 + el] != 0 && c.size() - 2 - el <= 8, "EncodeReal/mantissa-minimal", "%s", pbt::hex(c.data(), c.size()).c_str());
    double back; PBT_CHECK(toDouble(m, ex, back) && back == std::fabs(v), "EncodeReal/value", "%a encoded as %s", v, pbt::hex(c.data(), c.size()).c_str());
    if (!(m & 1)) deferred = "EncodeReal/mantissa-not-odd";
    r.label(std::fabs(v) < 2.3e-308 ? "denormal" : "normal");
  }
  Dec d(got, off); double g = 7; PBT_CHECK(BitStream_DecodeReal(&d.s, &g), "DecodeReal/refused", "own encoding of %a refused", v);
  PBT_CHECK(dbits(g) == dbits(v), "DecodeReal/value", "%a decoded as %a from %s", v, g, pbt::hex(c.data(), c.size()).c_str());
  PBT_CHECK(d.pos() == off + bits, "DecodeReal/position", "consumed %ld of %ld bits", d.pos() - off, bits);
  { Dec d2(got, off); float f = 7; PBT_CHECK(BitStream_DecodeReal_fp32(&d2.s, &f), "DecodeReal_fp32/refused", "refused"); float w = (float)v; PBT_CHECK(memcmp(&f, &w, 4) == 0, "DecodeReal_fp32/value", "%a decoded as %a", v, f); }
  if (!special) r.interesting(fmt("%a -> %s", v, pbt::hex(c.data(), c.size()).c_str()));
  if (r.coin()) refuseCut(r, got, off, "DecodeReal", [&](BitStream *x) { return BitStream_DecodeReal(x, &g); });
  if (deferred) PBT_FAIL(deferred, "%a: the mantissa %s ends in zero bits, DER/PER ask for an odd one", v, pbt::hex(c.data(), c.size()).c_str());
}
// every well-formed binary encoding whose value is a double
static void realDec(Src &r) {
  uint64_t m = r.coin() ? r.u64() : r.below(1ULL << 53); int base = (int)r.below(3), F = (int)r.below(4); bool neg = r.coin(); int k = base == 0 ? 1 : base == 1 ? 3 : 4;
  int64_t e; switch (r.below(4)) { case 0: e = r.range(-10, 10); break; case 1: e = r.range(-1140, 1023) / k; break; case 2: e = r.range(-130, 130); break; default: e = r.range(-1074, 971) / k; }
  if (m == 0) m = 1;
  double v; if (!toDouble(m, e * k + F, v)) throw pbt::Discard(); if (neg) v = -v;
  int el = slen(e) + (int)(r.coin(1, 4) ? r.below(2) : 0); if (el > 3) el = 3; bool longForm = r.coin(1, 6);
  std::vector<uint8_t> c; c.push_back((uint8_t)(0x80 | (neg ? 0x40 : 0) | (base << 4) | (F << 2) | (longForm ? 3 : el - 1))); if (longForm) { el = slen(e); c.push_back((uint8_t)el); }
  for (int i = el - 1; i >= 0; i--) c.push_back((uint8_t)(e >> (8 * i)));
  int ml = ulen(m); for (int i = ml - 1; i >= 0; i--) c.push_back((uint8_t)(m >> (8 * i)));
  Bits b; int off = (int)r.below(8); b.rep(1, off); b.num(c.size(), 8); b.bytes(c.data(), c.size());
  Dec d(b, off); double g = 7; std::string kind = std::string(base == 0 ? "base2" : base == 1 ? "base8" : "base16") + (longForm ? "/long-exponent" : "");
  PBT_CHECK(BitStream_DecodeReal(&d.s, &g), "realDec/refused/" + kind, "%s = %a refused", pbt::hex(c.data(), c.size()).c_str(), v);
  PBT_CHECK(dbits(g) == dbits(v), "realDec/value/" + kind, "%s is %a, decoded as %a", pbt::hex(c.data(), c.size()).c_str(), v, g);
  PBT_CHECK(d.pos() == (long)b.size(), "realDec/position", "consumed %ld of %zu", d.pos() - off, b.size() - off);
  r.label(kind); r.interesting(fmt("%s = %a", pbt::hex(c.data(), c.size()).c_str(), v));
}

// ---------------------------------------------------------------- P23
static void genSizes(Src &r, int &lo, int &hi, int &n) {
  switch (r.below(6)) {
    case 0: lo = hi = (int)r.below(20); break;
    case 1: lo = (int)r.below(10); hi = lo + (int)r.below(300); break;
    case 2: lo = 0; hi = 65535; break;
    case 3: lo = 0; hi = 65536 + (int)r.below(3); break;
    case 4: lo = (int)r.below(3); hi = 70000 + (int)r.below(200000); break;
    default: lo = (int)r.below(300); hi = lo + (int)r.below(70000); }
  switch (r.below(5)) {
    case 0: n = lo + (int)r.below(3); break; case 1: n = hi - (int)r.below(3); break;
    case 2: n = (int)r.pick({127, 128, 255, 256, 16383, 16384, 16385, 32768, 49152, 65535, 65536, 81920, 131072, 16384 + 127, 16384 + 128}) + (int)r.range(-1, 1); break;
    default: n = lo + (int)r.below(hi - lo + 1 < 400 ? hi - lo + 1 : 400); }
  if (n < lo) n = lo; if (n > hi) n = hi;
}
static void lengthDet(Bits &e, int n, int lo, int hi, const uint8_t *p, bool bitsNotBytes) {
  auto items = [&](int from, int cnt) { if (bitsNotBytes) for (int i = from; i < from + cnt; i++) e.bit((p[i / 8] >> (7 - i % 8)) & 1); else e.bytes(p + from, cnt); };
  if (hi < 65536) { e.num((uint64_t)(n - lo), bitlen((uint64_t)(hi - lo))); items(0, n); return; }
  int at = 0;
  while (n - at >= 16384) { int k = (n - at) / 16384; if (k > 4) k = 4; e.num(0xC0 | k, 8); items(at, k * 16384); at += k * 16384; }
  int rest = n - at; if (rest < 128) e.num(rest, 8); else e.num(0x8000 | rest, 16); items(at, rest);
}
static void octets(Src &r) {
  int lo, hi, n; genSizes(r, lo, hi, n); auto data = r.bytes(n); Buf in(data);
  Enc e(r, (size_t)n * 8 + 200); lengthDet(e.exp, n, lo, hi, data.data(), false); bool frag = hi >= 65536;
  PBT_CHECK(BitStream_EncodeOctetString(&e.s, in.p, n, lo, hi), "EncodeOctetString/refused", "size %d in (%d..%d) refused", n, lo, hi); e.check(frag ? "EncodeOctetString(frag)" : "EncodeOctetString");
  Dec d(e.exp, e.off); Buf out(hi); int cnt = -1;
  PBT_CHECK(BitStream_DecodeOctetString(&d.s, out.p, &cnt, lo, hi), frag ? n == 0 ? "DecodeOctetString(frag)/refused-empty" : "DecodeOctetString(frag)/refused" : "DecodeOctetString/refused", "size %d in (%d..%d) refused", n, lo, hi);
  PBT_CHECK(cnt == n && memcmp(out.p, data.data(), n) == 0, "DecodeOctetString/value", "size %d read as %d or contents differ", n, cnt);
  PBT_CHECK(d.pos() == (long)e.exp.size(), "DecodeOctetString/position", "consumed %ld of %zu", d.pos() - e.off, e.exp.size() - e.off);
  r.label(frag ? (n >= 16384 ? "fragmented" : "general length") : "constrained length"); if (n > 1) r.interesting(fmt("%d octets in (%d..%d) at offset %d", n, lo, hi, e.off));
  if (n < hi || n > lo) {   // a smaller upper bound or a larger lower bound refuses the same message
    int hi2 = n > lo && frag ? 65536 > n - 1 ? -1 : n - 1 : -1;
    if (hi2 >= 65536) { Dec d2(e.exp, e.off); Buf o2(hi2); PBT_CHECK(!BitStream_DecodeOctetString(&d2.s, o2.p, &cnt, lo, hi2), "DecodeOctetString/over-size-accepted", "%d octets accepted with maximum %d", n, hi2); }
    int lo2 = n + 1; if (frag && lo2 <= hi) { Dec d2(e.exp, e.off); Buf o2(hi); PBT_CHECK(!BitStream_DecodeOctetString(&d2.s, o2.p, &cnt, lo2, hi), "DecodeOctetString/under-size-accepted", "%d octets accepted with minimum %d", n, lo2); }
  }
  if (!frag) { int w = bitlen((uint64_t)(hi - lo)); uint64_t top = (1ULL << w) - 1; if (w && top > (uint64_t)(hi - lo)) { Bits b; b.num(e.lead, e.off); b.num(r.uIn(hi - lo + 1, top), w); b.rep(0, 8 * (lo + (int)top)); Dec d2(b, e.off); Buf o2(hi); PBT_CHECK(!BitStream_DecodeOctetString(&d2.s, o2.p, &cnt, lo, hi), "DecodeOctetString/over-size-accepted", "length above the range accepted"); } }
  PBT_CHECK(n == lo || !BitStream_EncodeOctetString(&e.s, in.p, lo - 1, lo, hi), "EncodeOctetString/size-unchecked", "size below %d accepted", lo);
  Buf o3(hi); refuseCut(r, e.exp, e.off, frag ? "DecodeOctetString(frag)" : "DecodeOctetString", [&](BitStream *s) { int c; return BitStream_DecodeOctetString(s, o3.p, &c, lo, hi); });
}
static void bitstr(Src &r) {
  int lo, hi, n; genSizes(r, lo, hi, n); auto data = r.bytes((n + 7) / 8); Buf in(data);
  Enc e(r, (size_t)n + 300); lengthDet(e.exp, n, lo, hi, data.data(), true); bool frag = hi >= 65536;
  PBT_CHECK(BitStream_EncodeBitString(&e.s, in.p, n, lo, hi), "EncodeBitString/refused", "size %d in (%d..%d) refused", n, lo, hi); e.check(frag ? "EncodeBitString(frag)" : "EncodeBitString");
  Dec d(e.exp, e.off); Buf out((hi + 7) / 8); int cnt = -1;
  PBT_CHECK(BitStream_DecodeBitString(&d.s, out.p, &cnt, lo, hi), frag ? n == 0 ? "DecodeBitString(frag)/refused-empty" : "DecodeBitString(frag)/refused" : "DecodeBitString/refused", "size %d in (%d..%d) refused", n, lo, hi);
  PBT_CHECK(cnt == n && BitString_equal(cnt, n, out.p, data.data()), "DecodeBitString/value", "size %d read as %d or contents differ", n, cnt);
  for (int i = 0; i < n; i++) PBT_CHECK(((out.p[i / 8] ^ data[i / 8]) >> (7 - i % 8) & 1) == 0, "DecodeBitString/bits", "bit %d of %d differs", i, n);
  PBT_CHECK(d.pos() == (long)e.exp.size(), "DecodeBitString/position", "consumed %ld of %zu", d.pos() - e.off, e.exp.size() - e.off);
  r.label(frag ? (n >= 16384 ? "fragmented" : "general length") : "constrained length"); if (n > 8) r.interesting(fmt("%d bits in (%d..%d) at offset %d", n, lo, hi, e.off));
  if (frag && n > 65536) { int hi2 = 65536 + (int)r.below(n - 65536); Dec d2(e.exp, e.off); Buf o2((hi2 + 7) / 8); PBT_CHECK(!BitStream_DecodeBitString(&d2.s, o2.p, &cnt, lo, hi2), "DecodeBitString/over-size-accepted", "%d bits accepted with maximum %d", n, hi2); }
  if (frag && n + 1 <= hi) { Dec d2(e.exp, e.off); Buf o2((hi + 7) / 8); PBT_CHECK(!BitStream_DecodeBitString(&d2.s, o2.p, &cnt, n + 1, hi), "DecodeBitString/under-size-accepted", "%d bits accepted with minimum %d", n, n + 1); }
  Buf o3((hi + 7) / 8); refuseCut(r, e.exp, e.off, frag ? "DecodeBitString(frag)" : "DecodeBitString", [&](BitStream *s) { int c; return BitStream_DecodeBitString(s, o3.p, &c, lo, hi); });
}
static void strEqual(Src &r) {   // equality helpers
  int n = (int)r.below(40); auto a = r.bytes(8), b = a; int flip = (int)r.below(64); bool inside = flip < n; b[flip / 8] ^= 0x80 >> (flip % 8); bool doFlip = r.coin(); const auto &c = doFlip ? b : a;
  PBT_CHECK(BitString_equal(n, n, a.data(), c.data()) == !(doFlip && inside), "BitString_equal", "%d bits, bit %d %s", n, flip, doFlip ? "flipped" : "same");
  PBT_CHECK(!BitString_equal(n, n + 1, a.data(), a.data()), "BitString_equal/length", "lengths %d and %d equal", n, n + 1);
  int m = n / 8; PBT_CHECK(OctetString_equal(m, m, a.data(), c.data()) == !(doFlip && flip < m * 8), "OctetString_equal", "%d octets", m);
  PBT_CHECK(!OctetString_equal(m, m + 1, a.data(), a.data()), "OctetString_equal/length", "lengths");
  if (doFlip && inside) r.interesting(fmt("%d bits with bit %d flipped", n, flip));
}

// ---------------------------------------------------------------- P24
static void subid(std::vector<uint8_t> &c, uint64_t v) { uint8_t t[10]; int n = 0; do { t[n++] = v & 0x7F; v >>= 7; } while (v); while (n--) c.push_back(t[n] | (n ? 0x80 : 0)); }
static void oidLen(Bits &e, size_t n) { if (n < 128) e.num(n, 8); else e.num(0x8000 | n, 16); }
static void oid(Src &r) {
  bool rel = r.coin(1, 3); Asn1ObjectIdentifier v; memset(&v, 0xA5, sizeof v); ObjectIdentifier_Init(&v); std::vector<uint8_t> c; int n = rel ? 1 + (int)r.below(20) : 2 + (int)r.below(19);
  v.nCount = n; for (int i = 0; i < n; i++) v.values[i] = r.coin() ? r.below(300) : r.u64();
  if (!rel) { v.values[0] = r.below(3); if (v.values[0] < 2) v.values[1] = r.below(40); else if (v.values[1] > ~0ULL - 80) v.values[1] = ~0ULL - 80; }
  for (int i = rel ? 0 : 1; i < n; i++) subid(c, (!rel && i == 1 ? v.values[0] * 40 : 0) + v.values[i]);
  PBT_CHECK(rel ? RelativeOID_isValid(&v) : ObjectIdentifier_isValid(&v), "isValid/refused", "valid %s refused (first arcs %llu.%llu)", rel ? "relative OID" : "OID", (unsigned long long)v.values[0], (unsigned long long)v.values[1]);
  Enc e(r, c.size() * 8 + 16); oidLen(e.exp, c.size()); e.exp.bytes(c.data(), c.size());
  if (rel) RelativeOID_uper_encode(&e.s, &v); else ObjectIdentifier_uper_encode(&e.s, &v); e.check(rel ? "RelativeOID_encode" : "ObjectIdentifier_encode");
  Dec d(e.exp, e.off); Heap<Asn1ObjectIdentifier> g;
  PBT_CHECK(rel ? RelativeOID_uper_decode(&d.s, g.p) : ObjectIdentifier_uper_decode(&d.s, g.p), "oid/refused", "own encoding refused");
  PBT_CHECK(ObjectIdentifier_equal(g.p, &v) && g->nCount == n, "oid/value", "%d arcs decoded as %d arcs, first %llu.%llu instead of %llu.%llu", n, g->nCount, (unsigned long long)g->values[0], (unsigned long long)g->values[1], (unsigned long long)v.values[0], (unsigned long long)v.values[1]);
  for (int i = 0; i < n; i++) PBT_CHECK(g->values[i] == v.values[i], "oid/arc", "arc %d", i);
  PBT_CHECK(d.pos() == (long)e.exp.size(), "oid/position", "consumed %ld of %zu", d.pos(), e.exp.size());
  { auto w = v; int i = (int)r.below(n); w.values[i] ^= 1; PBT_CHECK(!ObjectIdentifier_equal(&v, &w), "oid/equal", "different arcs equal"); w = v; w.nCount--; PBT_CHECK(!ObjectIdentifier_equal(&v, &w), "oid/equal", "different lengths equal"); }
  r.label(rel ? "relative" : "absolute"); if (n > 2) r.interesting(fmt("%d arcs, %zu octets", n, c.size()));
  refuseCut(r, e.exp, e.off, "oid", [&](BitStream *s) { return rel ? RelativeOID_uper_decode(s, g.p) : ObjectIdentifier_uper_decode(s, g.p); });
}
// arbitrary contents octets: accepted iff they are a sequence of complete, minimal subidentifiers that fit the type
static void oidDec(Src &r) {
  bool rel = r.coin(1, 3); std::vector<uint8_t> c; int n = (int)r.below(24);
  for (int i = 0; i < n; i++) subid(c, r.coin() ? r.below(200) : r.u64());
  switch (r.below(6)) {
    case 0: if (!c.empty()) c.back() |= 0x80; break;                               // unfinished
    case 1: c.insert(c.begin() + r.below(c.size() + 1), 0x80); break;              // padding octet somewhere
    case 2: { int k = (int)r.below(c.size() + 1); for (int i = 0; i < 10; i++) c.insert(c.begin() + k, 0xFF); break; }   // too large an arc
    case 3: c = r.bytes(r.below(30)); break;
    default: break; }
  bool ok = !c.empty(); std::vector<uint64_t> arcs; unsigned __int128 cur = 0; bool start = true, over = false;
  for (uint8_t x : c) { if (start && x == 0x80) ok = false; cur = cur << 7 | (x & 0x7F); if (cur >> 64) over = true; start = !(x & 0x80); if (start) { arcs.push_back((uint64_t)cur); cur = 0; } }
  if (!start) ok = false; if (over) ok = false;
  if (ok && !rel) { uint64_t s = arcs[0]; arcs[0] = s < 40 ? 0 : s < 80 ? 1 : 2; arcs.insert(arcs.begin() + 1, s - 40 * arcs[0]); }
  if (arcs.size() > OBJECT_IDENTIFIER_MAX_LENGTH) ok = false;
  Bits b; int off = (int)r.below(8); b.rep(0, off); oidLen(b, c.size()); b.bytes(c.data(), c.size()); Dec d(b, off); Heap<Asn1ObjectIdentifier> g;
  flag got = rel ? RelativeOID_uper_decode(&d.s, g.p) : ObjectIdentifier_uper_decode(&d.s, g.p);
  PBT_CHECK(got == ok, ok ? "oidDec/refused" : c.empty() ? "oidDec/accepted-empty" : !start ? "oidDec/accepted-unfinished" : over ? "oidDec/accepted-overflow" : "oidDec/accepted", "%s: decoder says %d, expected %d", pbt::hex(c.data(), c.size()).c_str(), got, ok);
  if (ok) { PBT_CHECK(g->nCount == (int)arcs.size(), "oidDec/count", "%d arcs, expected %zu", g->nCount, arcs.size()); for (size_t i = 0; i < arcs.size(); i++) PBT_CHECK(g->values[i] == arcs[i], "oidDec/arc", "arc %zu", i);
    PBT_CHECK(rel ? RelativeOID_isValid(g.p) : ObjectIdentifier_isValid(g.p), "oidDec/decoded-invalid", "decoded OID fails its validity check"); }
  r.label(ok ? "valid" : "invalid"); if (c.size() > 1) r.interesting(fmt("%s %s", pbt::hex(c.data(), c.size(), 12).c_str(), ok ? "valid" : "invalid"));
}
static void oidValid(Src &r) {
  Asn1ObjectIdentifier v; ObjectIdentifier_Init(&v); v.nCount = (int)r.range(0, 22); for (int i = 0; i < 20; i++) v.values[i] = r.u64(); v.values[0] = r.below(5); if (r.coin()) v.values[1] = r.below(60);
  bool ok = v.nCount >= 2 && v.nCount <= 20 && v.values[0] <= 2 && (v.values[0] == 2 || v.values[1] < 40);
  if (v.values[0] == 2 && v.values[1] > ~0ULL - 80) throw pbt::Discard();
  PBT_CHECK(ObjectIdentifier_isValid(&v) == ok, "isValid/absolute", "%d arcs %llu.%llu: says %d", v.nCount, (unsigned long long)v.values[0], (unsigned long long)v.values[1], !ok);
  bool okr = v.nCount >= 1 && v.nCount <= 20; PBT_CHECK(RelativeOID_isValid(&v) == okr, "isValid/relative", "%d arcs: says %d", v.nCount, !okr);
  if (v.nCount >= 2) r.interesting(fmt("%d arcs %llu.%llu", v.nCount, (unsigned long long)v.values[0], (unsigned long long)v.values[1]));
}

int main(int c, char **v) {
  pbt::Engine e;
  e.checks = {{"P21.constrained", constrained, 300000, 5000000}, {"P21.constrainedPos", constrainedPos, 300000, 5000000}, {"P21.semi", semi, 200000, 3000000}, {"P21.semiPos", semiPos, 200000, 3000000},
              {"P21.unconstrained", unconstrained, 300000, 5000000}, {"P21.raw", rawNonNeg, 200000, 3000000},
              {"P22.encode", realEnc, 400000, 6000000}, {"P22.decode", realDec, 400000, 6000000},
              {"P23.octets", octets, 8000, 150000}, {"P23.bits", bitstr, 8000, 150000}, {"P23.equal", strEqual, 100000, 1000000},
              {"P24.roundtrip", oid, 200000, 3000000}, {"P24.decode", oidDec, 200000, 3000000}, {"P24.valid", oidValid, 100000, 1000000}};
  return e.main(c, v);
}
