// P30 (and the BER part of P28): BER primitives against an independent X.690 writer and parser
#include "ref.h"
extern "C" {
#include "asn1crt_encoding_ber.h"
}
#include <cmath>
typedef std::vector<uint8_t> Vec;
static void app(Vec &a, const Vec &b) { a.insert(a.end(), b.begin(), b.end()); }
static Vec be(uint64_t v, int n) { Vec r; for (int i = n - 1; i >= 0; i--) r.push_back((uint8_t)(v >> (8 * i))); return r; }
static Vec tagBytes(uint64_t t) { return be(t, ulen(t)); }
static Vec lenBytes(uint64_t n) { if (n < 128) return {(uint8_t)n}; Vec r = {(uint8_t)(0x80 | ulen(n))}; app(r, be(n, ulen(n))); return r; }
static std::string hx(const Vec &v) { return pbt::hex(v.data(), v.size()); }
// identifier octets as the runtime takes them: the number made of the octets; low tags in one octet, high tags in several
static uint64_t genTag(Src &r) {
  uint64_t cls = r.below(4) << 6, con = r.coin(1, 3) ? 0x20 : 0; 
  if (r.coin(2, 3)) { uint64_t t = cls | con | r.below(31); return t; }
  int n = 1 + (int)r.below(5); uint64_t t = cls | con | 31;
  for (int i = 0; i < n; i++) t = t << 8 | (i == 0 ? 1 + r.below(127) : r.below(128)) | (i + 1 < n ? 0x80 : 0);
  return t;
}
struct BS { Buf b; ByteStream s; explicit BS(size_t n, int f = 0xA5) : b(n, f) { s.buf = b.p; s.count = (long)n; s.currentByte = 0; s.EncodeWhiteSpace = 0; } explicit BS(const Vec &v) : b(v) { ByteStream_AttachBuffer(&s, b.p, (long)v.size()); } };
static double genD(Src &r) {
  uint64_t b; double d;
  switch (r.below(6)) { case 0: d = (double)r.range(-300, 300); break; case 1: d = std::ldexp(1.0 + (double)r.below(4) / 4, (int)r.range(-1074, 1023)); break;
    case 2: b = r.raw(0, pbt::splitmix(r.rng)) & 0x800FFFFFFFFFFFFFULL; memcpy(&d, &b, 8); break; case 3: d = r.coin() ? INFINITY : -INFINITY; break; case 4: d = r.coin() ? 0.0 : -0.0; break;
    default: b = r.raw(0, pbt::splitmix(r.rng)); memcpy(&d, &b, 8); }
  return std::isnan(d) ? 1.5 : d;
}
static bool parseReal(const Vec &c, double &v) {
  if (c.empty()) { v = 0; return true; }
  if (c[0] == 0x40 || c[0] == 0x41 || c[0] == 0x43) { v = c[0] == 0x40 ? INFINITY : c[0] == 0x41 ? -INFINITY : -0.0; return c.size() == 1; }
  if ((c[0] & 0xBC) != 0x80) return false;   // binary, base 2, no scale factor
  size_t el = (c[0] & 3) + 1; if (el > 3 || c.size() < 1 + el + 1) return false;
  int64_t e = (int8_t)c[1]; for (size_t i = 1; i < el; i++) e = e * 256 + c[1 + i];
  uint64_t m = 0; for (size_t i = 1 + el; i < c.size(); i++) { if (m >> 56) return false; m = m << 8 | c[i]; }
  if (bitlen(m) > 53) return false;
  v = std::ldexp((double)m, (int)e); if (c[0] & 0x40) v = -v; return true;
}
enum K { INT, BOOL, REAL, IA5, NUL, BITS, OCTS, NK };
static const char *kn[] = {"Integer", "Boolean", "Real", "IA5String", "Null", "BitString", "OctetString"};
struct Item { K k; uint64_t tag; int64_t i = 0; double d = 0; Vec v; int n = 0; };
static flag enc(ByteStream *s, const Item &x, int *err) {
  switch (x.k) { case INT: return BerEncodeInteger(s, x.tag, x.i, err); case BOOL: return BerEncodeBoolean(s, x.tag, (flag)x.i, err); case REAL: return BerEncodeReal(s, x.tag, x.d, err);
    case IA5: return BerEncodeIA5String(s, x.tag, (const char *)x.v.data(), x.n, err); case NUL: return BerEncodeNull(s, x.tag, err); case BITS: return BerEncodeBitString(s, x.tag, x.v.data(), x.n, err);
    default: return BerEncodeOctetString(s, x.tag, x.v.data(), x.n, err); }
}
// decode into exact-size targets; cap: capacity in characters, bits or octets
static flag dec(ByteStream *s, K k, uint64_t tag, int cap, Item &o, int *err) {
  flag ok; o.k = k; o.tag = tag;
  switch (k) {
    case INT: { Heap<asn1SccSint> h; ok = BerDecodeInteger(s, tag, h.p, err); o.i = ok ? *h.p : 0; break; }
    case BOOL: { Heap<flag> h(0); ok = BerDecodeBoolean(s, tag, h.p, err); o.i = ok ? *(uint8_t *)h.p : 0; break; }
    case REAL: { Heap<asn1Real> h; ok = BerDecodeReal(s, tag, h.p, err); o.d = ok ? *h.p : 0; break; }
    case IA5: { Buf b(cap, 0xA5); ok = BerDecodeIA5String(s, tag, (char *)b.p, cap, err); if (ok) o.v.assign(b.p, b.p + cap); break; }
    case NUL: ok = BerDecodeNull(s, tag, err); break;
    case BITS: { Buf b((cap + 7) / 8, 0xA5); o.n = -7; ok = BerDecodeBitString(s, tag, b.p, &o.n, cap, err); if (ok) o.v.assign(b.p, b.p + b.n); break; }
    default: { Buf b(cap, 0xA5); o.n = -7; ok = BerDecodeOctetString(s, tag, b.p, &o.n, cap, err); if (ok) o.v.assign(b.p, b.p + cap); break; }
  }
  return ok;
}
static bool bitEq(const Vec &a, const Vec &b, int n) { for (int i = 0; i < n; i++) if (((a[i / 8] ^ b[i / 8]) >> (7 - i % 8)) & 1) return false; return true; }
static bool same(const Item &x, const Item &o) {
  switch (x.k) { case INT: return x.i == o.i; case BOOL: return (x.i != 0) == (o.i != 0); case REAL: return memcmp(&x.d, &o.d, 8) == 0; case NUL: return true;
    case IA5: { for (size_t i = 0; i < o.v.size(); i++) if (o.v[i] != (i < x.v.size() ? x.v[i] : 0)) return false; return o.v.size() >= x.v.size(); }
    case BITS: return o.n == x.n && bitEq(x.v, o.v, x.n); default: return o.n == x.n && std::equal(x.v.begin(), x.v.end(), o.v.begin()); }
}
static int genLen(Src &r) { static const std::vector<int> l = {0, 1, 2, 126, 127, 128, 129, 255, 256, 257, 300}; return r.coin(1, 3) ? r.pickv(l) : r.coin(1, 60) ? (int)r.range(65530, 65540) : (int)r.below(40); }
static Item genItem(Src &r) {
  Item x; x.k = (K)r.below(NK); x.tag = genTag(r);
  switch (x.k) { case INT: x.i = r.i64(); break; case BOOL: x.i = (int64_t)r.below(2); break; case REAL: x.d = genD(r); break; case NUL: break;
    case BITS: { x.n = genLen(r); x.v.resize((x.n + 7) / 8); } break; default: x.n = genLen(r); x.v.resize(x.n); }
  uint64_t st = r.raw(0, pbt::splitmix(r.rng));
  for (auto &c : x.v) { c = (uint8_t)pbt::splitmix(st); if (x.k == IA5) c = (uint8_t)(1 + c % 127); }
  return x;
}
static void encode(Src &r) {
  Item x = genItem(r); std::string nm = std::string("BerEncode") + kn[x.k], dn = std::string("BerDecode") + kn[x.k]; Vec e = tagBytes(x.tag), c;
  switch (x.k) { case INT: c = be((uint64_t)x.i, slen(x.i)); break; case BOOL: c = {(uint8_t)(x.i ? 0xFF : 0)}; break; case NUL: break; case REAL: break;
    case BITS: c = {(uint8_t)(x.n % 8 ? 8 - x.n % 8 : 0)}; app(c, x.v); break; default: c = x.v; }
  int err = 0, lead = (int)r.below(5);
  if (x.k == REAL) {   // the contents are judged by value
    BS b(64, 0); b.s.currentByte = lead; PBT_CHECK(enc(&b.s, x, &err), nm + "/refused", "%g", x.d);
    Vec w(b.b.p + lead, b.b.p + b.s.currentByte); double v = 0;
    PBT_CHECK(w.size() > e.size() && std::equal(e.begin(), e.end(), w.begin()) && w[e.size()] == w.size() - e.size() - 1, nm + "/framing", "%g is written as %s", x.d, hx(w).c_str());
    c.assign(w.begin() + e.size() + 1, w.end()); PBT_CHECK(parseReal(c, v) && memcmp(&v, &x.d, 8) == 0, nm + "/value", "%.17g is written as %s", x.d, hx(w).c_str());
  }
  app(e, lenBytes(c.size())); app(e, c);
  { BS b(lead + e.size(), 0); b.s.currentByte = lead; PBT_CHECK(enc(&b.s, x, &err), nm + "/refused", "refused with room for its %zu octets, error %d", e.size(), err);
    Vec w(b.b.p + lead, b.b.p + b.s.currentByte); PBT_CHECK(w == e, nm + "/octets", "written as %s, expected %s", hx(w).c_str(), hx(e).c_str()); }
  { size_t room = r.below(e.size()); BS b(room); err = 0; PBT_CHECK(!enc(&b.s, x, &err), nm + "/over-end-accepted", "%zu octets accepted in a buffer of %zu", e.size(), room); PBT_CHECK(err != 0, nm + "/no-error-code", "refused without error code"); }
  int cap = x.n + (r.coin() ? 0 : (int)r.below(20));
  { Vec in(lead, 0x55); app(in, e); if (r.coin()) app(in, Vec(1 + r.below(5), (uint8_t)r.below(256))); BS b(in); b.s.currentByte = lead; Item o; err = 0;
    PBT_CHECK(NextTagMatches(&b.s, x.tag) && b.s.currentByte == lead, "NextTagMatches", "%s", hx(e).c_str());
    PBT_CHECK(dec(&b.s, x.k, x.tag, cap, o, &err), dn + "/refused", "%s refused with error %d", hx(e).c_str(), err); PBT_CHECK(same(x, o), dn + "/value", "%s decoded to another value (%lld, %d)", hx(e).c_str(), (long long)o.i, o.n);
    PBT_CHECK(b.s.currentByte == (long)(lead + e.size()), dn + "/position", "consumed %ld of %zu octets", b.s.currentByte - lead, e.size()); }
  { Vec in(e.begin(), e.begin() + r.below(e.size())); BS b(in); Item o; err = 0; PBT_CHECK(!dec(&b.s, x.k, x.tag, cap, o, &err), dn + "/truncated-accepted", "%zu of %zu octets accepted", in.size(), e.size()); PBT_CHECK(err != 0, dn + "/no-error-code", "refused without error code"); }
  { uint64_t t2 = genTag(r); if (ulen(t2) == ulen(x.tag)) { uint64_t pb = 0x20ULL << (8 * (ulen(t2) - 1)); BS b(e); Item o; err = 0; flag want = (t2 | pb) == (x.tag | pb); flag g = NextTagMatches(&b.s, t2); PBT_CHECK(g == want, "NextTagMatches", "tag %llx against %s", (unsigned long long)t2, hx(e).c_str());
      g = dec(&b.s, x.k, t2, cap, o, &err); PBT_CHECK(g == want, dn + "/wrong-tag", "tag %llx, %s: decoder says %d", (unsigned long long)t2, hx(e).c_str(), g); } }
  if (x.k >= IA5 && x.k != NUL && x.n > 0) { int small = (int)r.below(x.n); BS b(e); Item o; err = 0; PBT_CHECK(!dec(&b.s, x.k, x.tag, small, o, &err), dn + "/over-long-accepted", "%d items accepted for a target of %d", x.n, small); PBT_CHECK(err != 0, dn + "/no-error-code", "refused without error code"); }
  r.label(kn[x.k]); if (c.size() > 1) r.interesting(fmt("%s tag %llx: %s", kn[x.k], (unsigned long long)x.tag, hx(e).c_str()));
}
// a length determinant in any form: returns whether it is well-formed, definite and fits an int
static bool genLength(Src &r, uint64_t n, Vec &o, bool &def) {
  def = true;
  switch (r.below(8)) {
    case 0: case 1: case 2: app(o, lenBytes(n)); return true;
    case 3: { int k = ulen(n) + (int)r.below(4); o.push_back((uint8_t)(0x80 | k)); app(o, be(n, k)); return true; }      // leading zeros are allowed by X.690 8.1.3.5
    case 4: o.push_back(0x80); def = false; return false;
    case 5: { int k = 4 + (int)r.below(124); o.push_back((uint8_t)(0x80 | k)); Vec v; for (int i = 0; i < k; i++) v.push_back((uint8_t)(i < k - 4 ? (r.coin(1, 8) ? 1 + r.below(255) : 0) : r.below(256))); app(o, v); return false; }
    case 6: { o.push_back(0x84); app(o, be(r.uIn(0x7fffff00u, 0xffffffffu), 4)); return false; }
    default: app(o, lenBytes(n + 1 + r.below(300))); return false; }
}
static void decode(Src &r) {
  K k = (K)r.below(NK); uint64_t tag = genTag(r); int n = r.coin(1, 8) ? genLen(r) : (int)r.below(12), cap = r.coin() ? (int)r.below(80) : (int)r.below(8); Vec c(n); for (auto &x : c) x = (uint8_t)(r.coin(1, 4) ? r.pick({0, 255, 128, 127, 64, 65, 67}) : (int)r.below(256));
  if (k == BITS && n && r.coin()) c[0] = (uint8_t)r.below(9);
  Vec in = tagBytes(tag); bool def; bool wf = genLength(r, n, in, def); app(in, c); if (r.coin(1, 4)) { if (!in.empty()) in.resize(r.below(in.size())); wf = false; } else if (!r.coin(2, 3)) in.push_back((uint8_t)r.below(256));
  std::string dn = std::string("BerDecode") + kn[k]; BS b(in); Item o; int err = 0; flag ok = dec(&b.s, k, tag, cap, o, &err);
  PBT_CHECK(b.s.currentByte >= 0 && b.s.currentByte <= (long)in.size(), dn + "/position", "position %ld in %zu octets", b.s.currentByte, in.size());
  PBT_CHECK(ok || err != 0, dn + "/no-error-code", "refused without error code");
  // independent reading
  size_t p = ulen(tag); bool good = in.size() > p; Item w; w.k = k; uint64_t L = 0;
  if (good) { uint8_t f = in[p++]; if (f < 128) L = f; else { int m = f & 127; good = m > 0 && p + m <= in.size(); for (int i = 0; good && i < m; i++) { L = L << 8 | in[p++]; if (L > 0x7fffffff) good = false; } } }
  if (good && in.size() - p < L) good = false;
  bool either = false;
  if (good) { Vec x(in.begin() + p, in.begin() + p + L);
    switch (k) {
      case INT: good = L >= 1 && L <= 8; if (good) { w.i = (int8_t)x[0]; for (size_t i = 1; i < L; i++) w.i = (int64_t)((uint64_t)w.i << 8 | x[i]); if (L > 1 && ((x[0] == 0 && !(x[1] & 128)) || (x[0] == 255 && (x[1] & 128)))) either = true; } break;
      case BOOL: good = L == 1; if (good) w.i = x[0]; break;
      case NUL: good = L == 0; break;
      case REAL: { double v; bool std_ = parseReal(x, v); either = true; w.d = v; good = true; if (!std_) { good = false; either = true; } } break;
      case BITS: good = L >= 1 && x[0] <= 7 && !(L == 1 && x[0]) && (int64_t)(8 * (L - 1)) - x[0] <= cap; if (good) { w.n = (int)(8 * (L - 1)) - x[0]; w.v.assign(x.begin() + 1, x.end()); } break;
      default: good = (int64_t)L <= cap; if (good) { w.n = (int)L; w.v = x; } } }
  if (k == REAL) { if (ok && good && L < 128 && in[ulen(tag)] < 128) PBT_CHECK(memcmp(&o.d, &w.d, 8) == 0, dn + "/value", "%s decoded as %.17g, is %.17g", hx(in).c_str(), o.d, w.d); if (!(in.size() > (size_t)ulen(tag))) PBT_CHECK(!ok, dn + "/accepted", "no contents accepted"); r.label(ok ? "accepted" : "refused"); if (n > 1) r.interesting(fmt("%s: %s", kn[k], hx(in).c_str())); return; }
  if (!either) PBT_CHECK(ok == (flag)good, dn + (good ? "/refused" : "/accepted"), "%s for a target of %d: decoder says %d, error %d", hx(in).c_str(), cap, ok, err);
  if (ok && good) { PBT_CHECK(same(w, o), dn + "/value", "%s is decoded to %lld, %d items; expected %lld, %d items", hx(in).c_str(), (long long)o.i, o.n, (long long)w.i, w.n); PBT_CHECK(b.s.currentByte == (long)(p + L), dn + "/position", "%s: consumed %ld of %zu", hx(in).c_str(), b.s.currentByte, (size_t)(p + L)); }
  (void)wf; r.label(std::string(kn[k]) + (ok ? " accepted" : " refused")); if (n > 1) r.interesting(fmt("%s for %d: %s", kn[k], cap, hx(in).c_str()));
}
static void framing(Src &r) {   // constructed encodings of indefinite length, length determinants alone
  Vec in; uint64_t n = r.coin() ? r.below(300) : r.u64() & 0x7fffffff; bool def; bool wf = genLength(r, n, in, def); if (r.coin(1, 4) && in.size()) { in.resize(r.below(in.size())); wf = false; }
  BS b(in); int v = -77, err = 0; flag ok = BerDecodeLength(&b.s, &v, &err); size_t p = 0; bool good = !in.empty(); int64_t L = 0;
  if (good) { uint8_t f = in[p++]; if (f < 128) L = f; else if (f == 128) L = -1; else { int m = f & 127; good = p + m <= in.size(); for (int i = 0; good && i < m; i++) { L = L << 8 | in[p++]; if (L > 0x7fffffff) good = false; } } }
  PBT_CHECK(ok == (flag)good, good ? "BerDecodeLength/refused" : "BerDecodeLength/accepted", "%s: %d, value %d", hx(in).c_str(), ok, v); PBT_CHECK(ok || err, "BerDecodeLength/no-error-code", "no error code");
  if (good) PBT_CHECK(v == L && b.s.currentByte == (long)p, "BerDecodeLength/value", "%s read as %d, expected %lld", hx(in).c_str(), v, (long long)L);
  { int room = (int)r.below(4), used = 0; BS e(room); int er = 0; flag a = BerEncodeLengthStart(&e.s, &er), z = a && BerEncodeLengthEnd(&e.s, &er); PBT_CHECK(z == (room >= 3) && a == (room >= 1), "BerEncodeLength/over-end", "room %d: %d %d", room, a, z); if (z) PBT_CHECK(e.b.p[0] == 0x80 && e.b.p[1] == 0 && e.b.p[2] == 0, "BerEncodeLength/octets", "octets"); (void)used; }
  { Vec q; int m = (int)r.below(4); for (int i = 0; i < m; i++) q.push_back(r.coin(3, 4) ? 0 : 1); BS t(q); int er = 0; bool z = m >= 2 && q[0] == 0 && q[1] == 0; PBT_CHECK(LA_Next_Two_Bytes_00(&t.s) == (flag)z && t.s.currentByte == 0, "LA_Next_Two_Bytes_00", "%s", hx(q).c_str()); PBT_CHECK(BerDecodeTwoZeroes(&t.s, &er) == (flag)z, "BerDecodeTwoZeroes", "%s", hx(q).c_str()); if (z) PBT_CHECK(t.s.currentByte == 2, "BerDecodeTwoZeroes", "position"); }
  (void)wf; if (in.size() > 1) r.interesting(hx(in));
}
int main(int c, char **v) {
  pbt::Engine e;
  e.checks = {{"P30.encode", encode, 300000, 4000000}, {"P30.decode", decode, 500000, 8000000}, {"P30.framing", framing, 150000, 2000000}};
  return e.main(c, v);
}
