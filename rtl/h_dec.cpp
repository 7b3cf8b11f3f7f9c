// P28: every decoding primitive on arbitrary bytes, positions and parameters.
// Oracles: memory (sanitizers, exact-size buffers and targets), position inside the stream, and the metamorphic relation
// that the outcome depends on the consumed bits only: with other bits before and after them, with the stream cut right after
// them, it is the same; with the stream cut before their end, the item is refused.
#include "acnint.h"
extern "C" {
#include "asn1crt_encoding_ber.h"
#include "asn1crt_encoding_xer.h"
}
typedef std::string Str;
template <class T> static Str raw(const T &v) { return Str((const char *)&v, sizeof(T)); }
struct P { int n, m, k; asn1SccSint a, b; asn1SccUint ua, ub; Vec term, set; int pre; };
struct Dcd { const char *name; std::function<void(Src &, P &)> par; std::function<bool(BitStream *, const P &, Str &)> dec; };   // Str: the decoded value when accepted
static void pnone(Src &, P &) {}
static void pn8(Src &r, P &p) { p.n = (int)r.below(9); }
static void pbits(Src &r, P &p) { p.n = 1 + (int)r.below(64); }
static void pcount(Src &r, P &p) { p.n = r.coin(1, 8) ? (int)r.below(3000) : (int)r.below(40); }
static void prange(Src &r, P &p) { p.a = r.i64(); p.b = r.i64(); if (p.a > p.b) std::swap(p.a, p.b); if (r.coin()) { p.a = r.iIn(-300, 300); p.b = p.a + (asn1SccSint)r.below(400); } p.ua = r.u64(); p.ub = r.u64(); if (p.ua > p.ub) std::swap(p.ua, p.ub); if (r.coin()) { p.ua = r.below(300); p.ub = p.ua + r.below(400); } }
static void psize(Src &r, P &p) { p.n = (int)r.below(20); p.m = p.n + (int)(r.coin() ? r.below(30) : r.coin() ? 0 : r.below(3000)); if (r.coin(1, 6)) { p.n = 0; p.m = (int)r.pick({65535, 65536, 70000, 16384, 40000}); } }
static void pterm(Src &r, P &p) { p.term.resize(1 + r.below(10)); for (auto &x : p.term) x = (uint8_t)r.pick({0, 0, 13, 10, 255, 65}); p.n = (int)r.below(30); }
static void pset(Src &r, P &p) { p.set.resize(1 + r.below(100)); for (size_t i = 0; i < p.set.size(); i++) p.set[i] = (uint8_t)(i + 20); p.n = (int)r.below(12); p.m = p.n + (int)r.below(20); p.a = (asn1SccSint)r.pick({0, 1, 2, 3, 5, 9, 20, 30, 31, 40, 1000}); }
struct Mem { uint8_t *p; size_t n; explicit Mem(size_t n_, int f) : p((uint8_t *)malloc(n_ ? n_ : 1)), n(n_) { memset(p, f, n_); } ~Mem() { free(p); } Str s(size_t k) const { return Str((char *)p, std::min(k, n)); } };
#define D_ [](BitStream * s, const P &p, Str &o) -> bool
#define NUM(T, CALL) D_ { (void)p; Mem t(sizeof(T), p.pre); T *v = (T *)t.p; bool ok = CALL; o = raw(*v); return ok; }
#define STRING(SIZE, CALL) D_ { Mem t((size_t)(SIZE) + 1, p.pre); char *v = (char *)t.p; bool ok = CALL; if (ok) { PBT_CHECK(memchr(v, 0, t.n), "unterminated", "no terminator in the target"); o = Str(v); } return ok; }
static const std::vector<Dcd> &table() {
  static std::vector<Dcd> t;
  if (!t.empty()) return t;
  t = {
    {"ReadBit", pnone, NUM(flag, BitStream_ReadBit(s, v))},
    {"ReadByte", pnone, NUM(byte, BitStream_ReadByte(s, v))},
    {"ReadPartialByte", [](Src &r, P &p) { p.n = 1 + (int)r.below(7); }, NUM(byte, BitStream_ReadPartialByte(s, v, (byte)p.n))},
    {"ReadBits", pcount, D_ { Mem t((p.n + 7) / 8, p.pre); bool ok = BitStream_ReadBits(s, t.p, p.n); if (p.n % 8) t.p[p.n / 8] &= (uint8_t)(0xFF00 >> (p.n % 8)); o = t.s(t.n); return ok; }},
    {"ReadByteArray", pcount, D_ { Mem t(p.n, p.pre); bool ok = BitStream_ReadByteArray(s, t.p, p.n); o = t.s(t.n); return ok; }},
    {"DecodeOctetString_no_length", pcount, D_ { Mem t(p.n, p.pre); bool ok = BitStream_DecodeOctetString_no_length(s, t.p, p.n); o = t.s(t.n); return ok; }},
    {"DecodeNonNegativeInteger", pbits, NUM(asn1SccUint, BitStream_DecodeNonNegativeInteger(s, v, p.n))},
    {"DecodeUnConstraintWholeNumber", pnone, NUM(asn1SccSint, BitStream_DecodeUnConstraintWholeNumber(s, v))},
    {"DecodeSemiConstraintWholeNumber", prange, NUM(asn1SccSint, BitStream_DecodeSemiConstraintWholeNumber(s, v, p.a))},
    {"DecodeSemiConstraintPosWholeNumber", prange, NUM(asn1SccUint, BitStream_DecodeSemiConstraintPosWholeNumber(s, v, p.ua))},
    {"DecodeConstraintWholeNumber", prange, NUM(asn1SccSint, BitStream_DecodeConstraintWholeNumber(s, v, p.a, p.b))},
    {"DecodeConstraintPosWholeNumber", prange, NUM(asn1SccUint, BitStream_DecodeConstraintPosWholeNumber(s, v, p.ua, p.ub))},
    {"DecodeConstraintWholeNumberInt8", [](Src &r, P &p) { p.a = (int8_t)r.below(256); p.b = (int8_t)r.below(256); if (p.a > p.b) std::swap(p.a, p.b); }, NUM(int8_t, BitStream_DecodeConstraintWholeNumberInt8(s, v, (int8_t)p.a, (int8_t)p.b))},
    {"DecodeConstraintWholeNumberInt16", [](Src &r, P &p) { p.a = (int16_t)r.below(65536); p.b = (int16_t)r.below(65536); if (p.a > p.b) std::swap(p.a, p.b); }, NUM(int16_t, BitStream_DecodeConstraintWholeNumberInt16(s, v, (int16_t)p.a, (int16_t)p.b))},
    {"DecodeConstraintWholeNumberInt32", [](Src &r, P &p) { p.a = (int32_t)r.u64(); p.b = (int32_t)r.u64(); if (p.a > p.b) std::swap(p.a, p.b); }, NUM(int32_t, BitStream_DecodeConstraintWholeNumberInt32(s, v, (int32_t)p.a, (int32_t)p.b))},
    {"DecodeConstraintPosWholeNumberUInt8", [](Src &r, P &p) { p.ua = (uint8_t)r.below(256); p.ub = (uint8_t)r.below(256); if (p.ua > p.ub) std::swap(p.ua, p.ub); }, NUM(uint8_t, BitStream_DecodeConstraintPosWholeNumberUInt8(s, v, (uint8_t)p.ua, (uint8_t)p.ub))},
    {"DecodeConstraintPosWholeNumberUInt16", [](Src &r, P &p) { p.ua = (uint16_t)r.below(65536); p.ub = (uint16_t)r.below(65536); if (p.ua > p.ub) std::swap(p.ua, p.ub); }, NUM(uint16_t, BitStream_DecodeConstraintPosWholeNumberUInt16(s, v, (uint16_t)p.ua, (uint16_t)p.ub))},
    {"DecodeConstraintPosWholeNumberUInt32", [](Src &r, P &p) { p.ua = (uint32_t)r.u64(); p.ub = (uint32_t)r.u64(); if (p.ua > p.ub) std::swap(p.ua, p.ub); }, NUM(uint32_t, BitStream_DecodeConstraintPosWholeNumberUInt32(s, v, (uint32_t)p.ua, (uint32_t)p.ub))},
    {"DecodeReal", pnone, NUM(asn1Real, BitStream_DecodeReal(s, v))},
    {"DecodeReal_fp32", pnone, NUM(float, BitStream_DecodeReal_fp32(s, v))},
    {"DecodeOctetString", psize, D_ { Mem t(p.m, p.pre); int n = -7; bool ok = BitStream_DecodeOctetString(s, t.p, &n, p.n, p.m); if (ok) { PBT_CHECK(n >= p.n && n <= p.m, "size", "%d octets accepted for %d..%d", n, p.n, p.m); o = raw(n) + t.s(n); } return ok; }},
    {"DecodeOctetString_fragmentation", psize, D_ { Mem t(p.m, p.pre); int n = 0; bool ok = BitStream_DecodeOctetString_fragmentation(s, t.p, &n, p.m); if (ok) { PBT_CHECK(n >= 0 && n <= p.m, "size", "%d octets accepted for %d", n, p.m); o = raw(n) + t.s(n); } return ok; }},
    {"DecodeBitString", psize, D_ { Mem t((p.m + 7) / 8, p.pre); int n = -7; bool ok = BitStream_DecodeBitString(s, t.p, &n, p.n, p.m); if (ok) { PBT_CHECK(n >= p.n && n <= p.m, "size", "%d bits accepted for %d..%d", n, p.n, p.m); if (n % 8) t.p[n / 8] &= (uint8_t)(0xFF00 >> (n % 8)); o = raw(n) + t.s((n + 7) / 8); } return ok; }},
    {"ReadBits_nullterminated", [](Src &r, P &p) { pterm(r, p); p.m = 1 + (int)r.below(8 * p.term.size()); p.n = (int)r.below(100); }, D_ { Mem t((p.n + 7) / 8, p.pre); int n = 0; bool ok = BitStream_ReadBits_nullterminated(s, p.term.data(), (size_t)p.m, t.p, p.n, &n); if (ok) { PBT_CHECK(n >= 0 && n <= p.n, "size", "%d bits accepted for %d", n, p.n); if (n % 8) t.p[n / 8] &= (uint8_t)(0xFF00 >> (n % 8)); o = raw(n) + t.s((n + 7) / 8); } return ok; }},
    {"ObjectIdentifier", pnone, D_ { Mem t(sizeof(Asn1ObjectIdentifier), p.pre); auto *v = (Asn1ObjectIdentifier *)t.p; bool ok = ObjectIdentifier_uper_decode(s, v); if (ok) { PBT_CHECK(v->nCount > 0 && v->nCount <= OBJECT_IDENTIFIER_MAX_LENGTH, "count", "%d arcs", v->nCount); o = raw(v->nCount) + Str((char *)v->values, v->nCount * sizeof(v->values[0])); } return ok; }},
    {"RelativeOID", pnone, D_ { Mem t(sizeof(Asn1ObjectIdentifier), p.pre); auto *v = (Asn1ObjectIdentifier *)t.p; bool ok = RelativeOID_uper_decode(s, v); if (ok) { PBT_CHECK(v->nCount >= 0 && v->nCount <= OBJECT_IDENTIFIER_MAX_LENGTH, "count", "%d arcs", v->nCount); o = raw(v->nCount) + Str((char *)v->values, v->nCount * sizeof(v->values[0])); } return ok; }},
    {"Real_32_big", pnone, NUM(asn1Real, Acn_Dec_Real_IEEE754_32_big_endian(s, v))},
    {"Real_64_big", pnone, NUM(asn1Real, Acn_Dec_Real_IEEE754_64_big_endian(s, v))},
    {"Real_32_little", pnone, NUM(asn1Real, Acn_Dec_Real_IEEE754_32_little_endian(s, v))},
    {"Real_64_little", pnone, NUM(asn1Real, Acn_Dec_Real_IEEE754_64_little_endian(s, v))},
    {"Real_32_big_fp32", pnone, NUM(float, Acn_Dec_Real_IEEE754_32_big_endian_fp32(s, v))},
    {"Real_32_little_fp32", pnone, NUM(float, Acn_Dec_Real_IEEE754_32_little_endian_fp32(s, v))},
    {"Length", pbits, NUM(asn1SccUint, Acn_Dec_Length(s, v, p.n))},
    {"Ascii_FixSize", pset, STRING(p.n, Acn_Dec_String_Ascii_FixSize(s, p.n, v))},
    {"Ascii_Null_Terminated", pterm, STRING(p.n, Acn_Dec_String_Ascii_Null_Terminated(s, p.n, (char)p.term[0], v))},
    {"Ascii_Null_Terminated_mult", pterm, STRING(p.n, Acn_Dec_String_Ascii_Null_Terminated_mult(s, p.n, p.term.data(), p.term.size(), v))},
    {"Ascii_External", pset, STRING(p.m, Acn_Dec_String_Ascii_External_Field_Determinant(s, p.m, p.a, v))},
    {"Ascii_Internal", pset, STRING(p.m, Acn_Dec_String_Ascii_Internal_Field_Determinant(s, p.m, p.n, v))},
    {"CharIndex_FixSize", pset, STRING(p.n, Acn_Dec_String_CharIndex_FixSize(s, p.n, (byte *)p.set.data(), (int)p.set.size(), v))},
    {"CharIndex_External", pset, STRING(p.m, Acn_Dec_String_CharIndex_External_Field_Determinant(s, p.m, (byte *)p.set.data(), (int)p.set.size(), p.a, v))},
    {"CharIndex_Internal", pset, STRING(p.m, Acn_Dec_String_CharIndex_Internal_Field_Determinant(s, p.m, (byte *)p.set.data(), (int)p.set.size(), p.n, v))},
    {"IA5_External", pset, STRING(p.m, Acn_Dec_IA5String_CharIndex_External_Field_Determinant(s, p.m, p.a, v))},
    {"IA5_Internal", pset, STRING(p.m, Acn_Dec_IA5String_CharIndex_Internal_Field_Determinant(s, p.m, p.n, v))},
  };
  static std::vector<std::string> names; names.reserve(400);
  for (auto &e : encs) for (auto &v : e.dec) {
    names.push_back(v.name); auto f = v.dec; int pk = e.pk; Str en = e.name;
    t.push_back({names.back().c_str(),
      [pk, en](Src &r, P &p) { p.n = pk == 1 ? 1 + (int)r.below(64) : pk == 2 ? 1 + (int)r.below(19) : pk == 3 ? (en[0] == 'S' ? 2 : 1) + (int)r.below(19) : 0; p.term.resize(1 + r.below(10)); for (auto &x : p.term) x = (uint8_t)r.pick({0, 0, 13, 255, 65}); },
      [f](BitStream *s, const P &p, Str &o) -> bool { uint64_t v = 0; Param q{p.n, p.term}; bool ok = f(s, v, q); o = raw(v); return ok; }});
  }
  return t;
}
static Vec genBytes(Src &r, int n, int kind) {
  Vec b(n);
  for (auto &x : b) switch (kind) {
    case 0: x = (uint8_t)r.below(256); break;
    case 1: x = (uint8_t)r.pick({0, 0, 0, 1, 255, 128}); break;
    case 2: x = (uint8_t)r.pick<int>({'0', '1', '2', '9', '5', '+', '-', 0, 13, 10, 65, 255}); break;
    case 3: x = (uint8_t)(r.below(4) ? r.below(10) : 0xC1 + r.below(5)); break;
    case 4: x = (uint8_t)r.pick({0x12, 0x34, 0x99, 0x5F, 0xF0, 0x00, 0x90}); break;
    default: x = (uint8_t)r.pick({0x80, 0x81, 0x7F, 0x40, 0x41, 0x43, 3, 8, 9, 0x01, 0xFF}); }
  return b;
}
static bool bitAt(const Vec &b, long i) { return (b[i / 8] >> (7 - i % 8)) & 1; }
static void put(Vec &b, long i, bool v) { b[i / 8] = (uint8_t)((b[i / 8] & ~(0x80 >> (i % 8))) | (v ? 0x80 >> (i % 8) : 0)); }
struct Res { bool ok; Str v; long end; };
static Res go(const Dcd &d, P p, const Vec &in, long start, int pre) {
  p.pre = pre; Buf b(in); BitStream s; BitStream_AttachBuffer(&s, b.p, (long)b.n); s.currentByte = start / 8; s.currentBit = (int)(start % 8);
  Res x; try { x.ok = d.dec(&s, p, x.v); } catch (pbt::Fail &f) { f.tag = Str(d.name) + "/" + f.tag; throw; }
  x.end = s.currentByte * 8 + s.currentBit;
  PBT_CHECK(s.currentBit >= 0 && s.currentBit < 8 && (s.currentByte < (long)in.size() || (s.currentByte == (long)in.size() && s.currentBit == 0) || !x.ok), Str(d.name) + "/position", "position %ld:%d in %zu octets", s.currentByte, s.currentBit, in.size());
  PBT_CHECK(!memcmp(b.p, in.data(), in.size()), Str(d.name) + "/wrote-input", "the stream was changed");
  return x;
}
static void total(Src &r) {
  auto &t = table(); const Dcd &d = t[r.below(t.size())]; P p{}; d.par(r, p);
  int n = (int)r.below(r.coin(1, 16) ? 3000 : 48), kind = (int)r.below(6); Vec in = genBytes(r, n, kind);
  long start = n ? (long)r.below(std::min(8L * n, 64L) + 1) : 0; if (r.coin(1, 8)) start = 8L * n - (long)r.below(std::min(8L * n, 16L) + 1);
  if (r.coin(1, 3) && start + 16 <= 8L * n) { int v = r.coin() ? (int)r.below(24) : (int)(r.pick({0xC1, 0xC4, 0x80, 0x83, 0x14, 0x8014})); int w = v > 255 ? 16 : 8; for (int i = 0; i < w; i++) put(in, start + i, (v >> (w - 1 - i)) & 1); }
  Res x = go(d, p, in, start, 0xA5); const Str nm = d.name;
  if (x.ok) {
    PBT_CHECK(x.end >= start, nm + "/position", "moved backwards from %ld to %ld", start, x.end);
    // other bits before and after, another target filling, stream cut right behind the item
    Vec q(in.begin(), in.begin() + (x.end + 7) / 8); for (long i = 0; i < start; i++) put(q, i, !bitAt(q, i)); for (long i = x.end; i < 8L * (long)q.size(); i++) put(q, i, !bitAt(q, i));
    Res y = go(d, p, q, start, 0x5A);
    PBT_CHECK(y.ok && y.end == x.end && y.v == x.v, nm + "/depends-on-surroundings", "%s at %ld..%ld: with other bits around (%s): accepted %d, end %ld, value %s vs %s", pbt::hex(in.data(), in.size()).c_str(), start, x.end, pbt::hex(q.data(), q.size()).c_str(), y.ok, y.end, pbt::hex((uint8_t *)x.v.data(), x.v.size()).c_str(), pbt::hex((uint8_t *)y.v.data(), y.v.size()).c_str());
    if (x.end > start) {
      long lo = (start + 7) / 8, hi = (x.end + 7) / 8; long k = hi - 1 - (r.coin() ? 0 : (long)r.below(std::max(1L, hi - lo)));
      if (k >= lo) { Vec c(in.begin(), in.begin() + k); Res z = go(d, p, c, start, 0x5A); PBT_CHECK(!z.ok, nm + "/truncated-accepted", "%s at %ld..%ld is accepted when cut to %ld octets (value %s)", pbt::hex(in.data(), in.size()).c_str(), start, x.end, k, pbt::hex((uint8_t *)z.v.data(), z.v.size()).c_str()); }
    }
    r.interesting(fmt("%s at bit %ld of %s -> %ld bits", d.name, start, pbt::hex(in.data(), std::min<size_t>(in.size(), 24)).c_str(), x.end - start)); r.label("accepted");
  } else {
    // refusals depend on nothing outside the stream either: the same stream refuses again with another target filling
    Res y = go(d, p, in, start, 0x5A); PBT_CHECK(!y.ok, nm + "/unstable", "refused, then accepted");
    Vec q(in); for (long i = 0; i < start; i++) put(q, i, !bitAt(q, i)); y = go(d, p, q, start, 0x5A); PBT_CHECK(!y.ok, nm + "/depends-on-surroundings", "%s at %ld: refused, accepted with other bits before", pbt::hex(in.data(), in.size()).c_str(), start);
    if (n) r.interesting(fmt("%s at bit %ld of %s refused", d.name, start, pbt::hex(in.data(), std::min<size_t>(in.size(), 24)).c_str())); r.label("refused");
  }
}
// ---------------------------------------------------------------- byte streams: BER and XER
struct BDcd { const char *name; bool xer; std::function<bool(ByteStream *, const P &, int *, Str &)> dec; };
#define B_ [](ByteStream * s, const P &p, int *e, Str &o) -> bool
#define BNUM(T, CALL) B_ { Mem t(sizeof(T), p.pre); T *v = (T *)t.p; bool ok = CALL; if (ok) o = raw(*v); return ok; }
static const std::vector<BDcd> bt = {
  {"BerDecodeTag", false, B_ { (void)o; return BerDecodeTag(s, p.ua, e); }},
  {"BerDecodeLength", false, BNUM(int, BerDecodeLength(s, v, e))},
  {"BerDecodeTwoZeroes", false, B_ { (void)o; (void)p; return BerDecodeTwoZeroes(s, e); }},
  {"BerDecodeInteger", false, BNUM(asn1SccSint, BerDecodeInteger(s, p.ua, v, e))},
  {"BerDecodeBoolean", false, BNUM(flag, BerDecodeBoolean(s, p.ua, v, e))},
  {"BerDecodeReal", false, BNUM(asn1Real, BerDecodeReal(s, p.ua, v, e))},
  {"BerDecodeNull", false, B_ { (void)o; return BerDecodeNull(s, p.ua, e); }},
  {"BerDecodeIA5String", false, B_ { Mem t(p.n + 1, 0); bool ok = BerDecodeIA5String(s, p.ua, (char *)t.p, p.n, e); if (ok) o = t.s(p.n); return ok; }},
  {"BerDecodeBitString", false, B_ { Mem t((p.n + 7) / 8, p.pre); int n = -7; bool ok = BerDecodeBitString(s, p.ua, t.p, &n, p.n, e); if (ok) { PBT_CHECK(n >= 0 && n <= p.n, "size", "%d bits for %d", n, p.n); o = raw(n) + t.s(n / 8); } return ok; }},
  {"BerDecodeOctetString", false, B_ { Mem t(p.n, p.pre); int n = -7; bool ok = BerDecodeOctetString(s, p.ua, t.p, &n, p.n, e); if (ok) { PBT_CHECK(n >= 0 && n <= p.n, "size", "%d octets for %d", n, p.n); o = raw(n) + t.s(n); } return ok; }},
  {"Xer_DecodeInteger", true, BNUM(asn1SccSint, Xer_DecodeInteger(s, "a", v, e))},
  {"Xer_DecodePosInteger", true, BNUM(asn1SccUint, Xer_DecodePosInteger(s, "a", v, e))},
  {"Xer_DecodeBoolean", true, BNUM(flag, Xer_DecodeBoolean(s, "a", v, e))},
  {"Xer_DecodeReal", true, BNUM(asn1Real, Xer_DecodeReal(s, "a", v, e))},
  {"Xer_DecodeNull", true, B_ { (void)o; Mem t(sizeof(NullType), p.pre); return Xer_DecodeNull(s, "a", (NullType *)t.p, e); }},
  {"Xer_DecodeEnumerated", true, B_ { Mem t(1024, p.pre); bool ok = Xer_DecodeEnumerated(s, "a", (char *)t.p, e); if (ok) { PBT_CHECK(memchr(t.p, 0, 1024), "unterminated", "no terminator"); o = Str((char *)t.p); } return ok; }},
  {"Xer_DecodeString", true, B_ { Mem t(p.n + 1, p.pre); bool ok = Xer_DecodeString(s, "a", (char *)t.p, (size_t)p.n + 1, e); if (ok) { PBT_CHECK(memchr(t.p, 0, t.n), "unterminated", "no terminator"); o = Str((char *)t.p); } return ok; }},
  {"Xer_DecodeOctetString", true, B_ { Mem t(p.n, p.pre); int n = -7; bool ok = Xer_DecodeOctetString(s, "a", t.p, p.n, &n, e); if (ok) { PBT_CHECK(n >= 0 && n <= p.n, "size", "%d octets for %d", n, p.n); o = raw(n) + t.s(n); } return ok; }},
  {"Xer_DecodeBitString", true, B_ { Mem t((p.n + 7) / 8, p.pre); int n = -7; bool ok = Xer_DecodeBitString(s, "a", t.p, (p.n + 7) / 8, &n, e); if (ok) { PBT_CHECK(n >= 0 && (n + 7) / 8 <= (p.n + 7) / 8, "size", "%d bits for %d", n, p.n); o = raw(n) + t.s(n / 8); } return ok; }},
  {"Xer_DecodeComplexElementStart", true, B_ { (void)p; Mem t(sizeof(XmlAttributeArray), 0); auto *a = (XmlAttributeArray *)t.p; bool ok = Xer_DecodeComplexElementStart(s, "a", a, e); if (ok) { PBT_CHECK(a->nCount >= 0 && a->nCount <= 20, "attributes", "%d attributes", a->nCount); for (int i = 0; i < a->nCount; i++) o += Str(a->attrs[i].Name, strnlen(a->attrs[i].Name, 50)) + "=" + Str(a->attrs[i].Value, strnlen(a->attrs[i].Value, 100)) + ";"; } return ok; }},
  {"Xer_DecodeComplexElementEnd", true, B_ { (void)p; (void)o; return Xer_DecodeComplexElementEnd(s, "a", e); }},
};
static Vec genXml(Src &r) {
  static const char *frag[] = {"<a>", "</a>", "<a/>", "<a ", "x=\"1\"", "y='q'", ">", "/>", "<", "</", "a", "<true/>", "<false/>", "<b/>", "12", "-5", "+", "0", "1", "01", "1.5", "1E400", "-INF", "NaN", "AB", "0F", "0101", " ", "\n", "<!--", "-->", "<!-- c -->", "<?xml version=\"1.0\"?>", "<?", "?>", "&amp;", "&", "lt;", "&lt;", "\"", "'", "=", "abcdefghijklmnopqrstuvwxyz", "<PLUS-INFINITY/>", "<NOT-A-NUMBER/>", "<MINUS-INFINITY/>", "9223372036854775808", "18446744073709551616", "-9223372036854775808"};
  Vec o; int k = (int)r.below(12); if (r.coin(2, 3)) { o = {'<', 'a', '>'}; }
  for (int i = 0; i < k; i++) { if (r.coin(1, 12)) { o.push_back((uint8_t)r.below(256)); continue; } if (r.coin(1, 30)) { o.insert(o.end(), r.below(1500), (uint8_t)r.pick<int>({'a', '0', '1', ' ', '<', 'F'})); continue; } const char *f = frag[r.below(sizeof frag / sizeof *frag)]; o.insert(o.end(), f, f + strlen(f)); }
  if (r.coin(2, 3)) { o.push_back('<'); o.push_back('/'); o.push_back('a'); o.push_back('>'); }
  return o;
}
static Vec genBer(Src &r, P &p) {
  p.ua = r.pick<uint64_t>({0x02, 0x30, 0xA1, 0x9F21, 0xBF8101}); Vec o; for (int i = ulen(p.ua) - 1; i >= 0; i--) o.push_back((uint8_t)(p.ua >> (8 * i)));
  int n = (int)r.below(20); if (r.coin(1, 8)) n = (int)r.below(300);
  switch (r.below(5)) { case 0: o.push_back((uint8_t)r.below(256)); break; case 1: { int m = (int)r.below(9); o.push_back((uint8_t)(0x80 + m)); for (int i = 0; i < m; i++) o.push_back((uint8_t)(i < m - 1 ? r.pick({0, 0, 0, 255, 127}) : n)); break; } default: if (n < 128) o.push_back((uint8_t)n); else { o.push_back(0x81); o.push_back((uint8_t)n); } }
  Vec c = genBytes(r, n + (r.coin() ? 0 : (int)r.below(4)), (int)r.below(6)); o.insert(o.end(), c.begin(), c.end()); if (r.coin(1, 4) && o.size()) o.resize(r.below(o.size())); return o;
}
static void bytes(Src &r) {
  const BDcd &d = bt[r.below(bt.size())]; P p{}; p.n = r.coin(1, 8) ? (int)r.below(700) : (int)r.below(24); Vec in = d.xer ? genXml(r) : genBer(r, p); Str nm = d.name;
  auto go = [&](const Vec &v, int pre, int &err, Str &o, long &end) -> bool { p.pre = pre; Buf b(v); ByteStream s; ByteStream_AttachBuffer(&s, b.p, (long)b.n); s.EncodeWhiteSpace = FALSE; err = 0; bool ok; try { ok = d.dec(&s, p, &err, o); } catch (pbt::Fail &f) { f.tag = nm + "/" + f.tag; throw; } end = s.currentByte; PBT_CHECK(end >= 0 && (!ok || end <= (long)v.size()), nm + "/position", "position %ld in %zu octets", end, v.size()); return ok; };
  int err, err2; Str o, o2; long end, end2; bool ok = go(in, 0xA5, err, o, end);
  PBT_CHECK(ok || err, nm + "/no-error-code", "refused without an error code");
  if (ok) {
    Vec q(in.begin(), in.begin() + end); bool k = go(q, 0x5A, err2, o2, end2); PBT_CHECK(k && o2 == o && end2 == end, nm + "/depends-on-surroundings", "%s: end %ld; cut there: %d, end %ld", d.xer ? Str(in.begin(), in.end()).c_str() : pbt::hex(in.data(), in.size()).c_str(), end, k, end2);
    if (end > 0) { Vec c(in.begin(), in.begin() + (long)r.below(end)); Str o3; k = go(c, 0x5A, err2, o3, end2); PBT_CHECK(!k, nm + "/truncated-accepted", "%s ends at %ld, accepted when cut to %zu", d.xer ? Str(in.begin(), in.end()).c_str() : pbt::hex(in.data(), in.size()).c_str(), end, c.size()); }
    r.label("accepted");
  } else { bool k = go(in, 0x5A, err2, o2, end2); PBT_CHECK(!k, nm + "/unstable", "refused, then accepted"); r.label("refused"); }
  if (in.size() > 1) r.interesting(nm + ": " + (d.xer ? Str(in.begin(), in.begin() + std::min<size_t>(60, in.size())) : pbt::hex(in.data(), std::min<size_t>(24, in.size()))));
}
int main(int c, char **v) {
  pbt::Engine e;
  e.checks = {{"P28.bits", total, 900000, 20000000}, {"P28.bytes", bytes, 400000, 8000000}};
  return e.main(c, v);
}
