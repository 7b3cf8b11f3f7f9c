// P33: the primitives of the Ada runtime against those of the C runtime, inside the preconditions the Ada runtime states
#include "acnint.h"
#include "ops.h"
#include <cmath>
using pbt::fmt;
struct AArgs {
  int64_t v, min, max; uint64_t uv, umin, umax; double d, d2; uint64_t arcs[20], arcs2[20];
  int32_t op, width, n, m, len, slen, termLen, setLen, arcCount, arcCount2, size, pos, ok, err;
  uint8_t data[512], data2[512], term[16], set[128]; char exc[200]; uint8_t buf[4096];
};
extern "C" void ada_run(AArgs *); extern "C" void adainit(void);
typedef std::string Str;
static int adaOp(const Str &n) { static std::map<Str, int> m; if (m.empty()) for (size_t i = 0; i < sizeof adaNames / sizeof *adaNames; i++) m[adaNames[i]] = (int)i; auto it = m.find(n); return it == m.end() ? -1 : it->second; }
static AArgs *fresh(int size, int pos) { static AArgs *a = nullptr; if (!a) { a = new AArgs; adainit(); } memset(a, 0, sizeof *a); a->size = size; a->pos = pos; return a; }
static Str tg(Str s) { for (auto &c : s) if (c == ' ') c = '-'; return s; }
static void call(AArgs *a, int op, const Str &what) { a->op = op; ada_run(a); PBT_CHECK(a->ok != 2, "exception/" + tg(what), "%s raised %s (value %lld/%llu/%.17g, bounds %lld..%lld, %d)", adaNames[op], a->exc, (long long)a->v, (unsigned long long)a->uv, a->d, (long long)a->min, (long long)a->max, a->n); }
struct CS { Vec mem; BitStream s; CS(int size, int pos) : mem(size) { at(pos); } CS(const uint8_t *p, int size, int pos) : mem(p, p + size) { at(pos); } void at(int pos) { BitStream_AttachBuffer(&s, mem.data(), (long)mem.size()); s.currentByte = pos / 8; s.currentBit = pos % 8; } int pos() { return (int)s.currentByte * 8 + s.currentBit; } };
static Str hx(const uint8_t *p, size_t n) { return pbt::hex(p, n); }
static void same(const Str &what, AArgs *a, CS &c, const Str &val) {
  int n = std::min(a->size, std::max(a->pos, c.pos()) / 8 + 2);
  PBT_CHECK(a->pos == c.pos() && !memcmp(a->buf, c.mem.data(), a->size), "encode/" + tg(what), "%s: the Ada runtime writes %s up to bit %d, the C runtime %s up to bit %d", val.c_str(), hx(a->buf, n).c_str(), a->pos, hx(c.mem.data(), n).c_str(), c.pos());
}
static void outcome(const Str &what, AArgs *a, bool cok, bool vsame, int cpos, const Str &info) {
  PBT_CHECK((bool)a->ok == cok, "accept/" + tg(what), "the Ada runtime says %d (error %d), the C runtime %d: %s", a->ok, a->err, cok, info.c_str());
  if (cok) PBT_CHECK(vsame && a->pos == cpos, "decode/" + tg(what), "the Ada runtime reads %lld/%llu/%.17g (%d) up to bit %d, the C runtime ends at bit %d: %s", (long long)a->v, (unsigned long long)a->uv, a->d, a->len, a->pos, cpos, info.c_str());
}
static Vec bytesOf(Src &r, int n) { Vec v(n); int k = (int)r.below(3); for (auto &x : v) x = k == 0 ? (uint8_t)r.below(256) : k == 1 ? (uint8_t)(r.coin() ? 0 : 255) : (uint8_t)r.pick<int>({0, 1, 0x7F, 0x80, 0xFF, '0', '9', '+', '-', 0x40}); return v; }
static int rbits(uint64_t range) { return bitlen(range); }
// ------------------------------------------------------------------ whole numbers of uPER
static void ints(Src &r) {
  int k = (int)r.below(6); int pos = (int)r.below(20), size = 40; static const char *nm[] = {"unconstrained", "semi-constrained", "semi-constrained positive", "constrained", "constrained positive", "unconstrained with maximum"}; Str w = nm[k];
  int64_t v = r.i64(), lo = r.i64(), hi = r.i64(); uint64_t uv = r.u64(), ulo = r.u64(), uhi = r.u64();
  int width = 64; if (k == 3 || k == 4) width = (int)r.pick<int>({64, 64, 8, 16, 32, 33}); if (k == 4 && width == 33) width = 32; int wb = width == 33 ? 32 : width;
  if (wb < 64) { v = (int64_t)((uint64_t)v << (64 - wb)) >> (64 - wb); lo = (int64_t)((uint64_t)lo << (64 - wb)) >> (64 - wb); hi = (int64_t)((uint64_t)hi << (64 - wb)) >> (64 - wb); uv >>= 64 - wb; ulo >>= 64 - wb; uhi >>= 64 - wb; }
  int64_t s[3] = {v, lo, hi}; std::sort(s, s + 3); lo = s[0]; v = s[1]; hi = s[2]; uint64_t u[3] = {uv, ulo, uhi}; std::sort(u, u + 3); ulo = u[0]; uv = u[1]; uhi = u[2];
  if (r.coin(1, 4)) { hi = lo + (int64_t)std::min<uint64_t>(r.below(300), (uint64_t)hi - (uint64_t)lo); v = lo + (int64_t)r.below((uint64_t)hi - (uint64_t)lo + 1); uhi = ulo + std::min<uint64_t>(r.below(300), uhi - ulo); uv = ulo + r.below(uhi - ulo + 1); }
  int n = k == 3 ? rbits((uint64_t)hi - (uint64_t)lo) : rbits(uhi - ulo);
  auto set = [&](AArgs *a) { a->v = v; a->min = lo; a->max = hi; a->uv = uv; a->umin = ulo; a->umax = uhi; a->n = n; a->width = width; return a; };
  static const int enc[] = {A_UNC_ENC, A_SEMI_ENC, A_SEMIPOS_ENC, A_CON_ENC, A_CONPOS_ENC, A_UNC_ENC}, dec[] = {A_UNC_DEC, A_SEMI_DEC, A_SEMIPOS_DEC, A_CON_DEC, A_CONPOS_DEC, A_UNCMAX_DEC};
  AArgs *a = set(fresh(size, pos)); CS c(size, pos);
  switch (k) { case 0: case 5: BitStream_EncodeUnConstraintWholeNumber(&c.s, v); break; case 1: BitStream_EncodeSemiConstraintWholeNumber(&c.s, v, lo); break; case 2: BitStream_EncodeSemiConstraintPosWholeNumber(&c.s, uv, ulo); break; case 3: BitStream_EncodeConstraintWholeNumber(&c.s, v, lo, hi); break; default: BitStream_EncodeConstraintPosWholeNumber(&c.s, uv, ulo, uhi); }
  Str val = fmt("%lld in %lld..%lld / %llu in %llu..%llu", (long long)v, (long long)lo, (long long)hi, (unsigned long long)uv, (unsigned long long)ulo, (unsigned long long)uhi);
  call(a, enc[k], w); same(w, a, c, val);
  Vec in = c.mem; bool arb = r.coin(); if (arb) { Vec x = bytesOf(r, size); in = x; if (k != 3 && k != 4) { int b = pos / 8; (void)b; CS t(in.data(), size, pos); BitStream_EncodeConstraintWholeNumber(&t.s, 1 + (asn1SccSint)r.below(r.coin() ? 10 : 255), 0, 255); in = t.mem; } }
  a = set(fresh(size, pos)); memcpy(a->buf, in.data(), size); a->v = 77; a->uv = 77; call(a, dec[k], w);
  CS d(in.data(), size, pos); bool ok; asn1SccSint gv = 0; asn1SccUint gu = 0;
  switch (k) { case 0: case 5: ok = BitStream_DecodeUnConstraintWholeNumber(&d.s, &gv); if (k == 5) ok = ok && gv <= hi; break; case 1: ok = BitStream_DecodeSemiConstraintWholeNumber(&d.s, &gv, lo); break; case 2: ok = BitStream_DecodeSemiConstraintPosWholeNumber(&d.s, &gu, ulo); break; case 3: ok = BitStream_DecodeConstraintWholeNumber(&d.s, &gv, lo, hi); break; default: ok = BitStream_DecodeConstraintPosWholeNumber(&d.s, &gu, ulo, uhi); }
  bool un = k == 2 || k == 4; outcome(w, a, ok, un ? a->uv == gu : a->v == gv, d.pos(), fmt("%s at bit %d, C value %lld/%llu, %s", hx(in.data(), 14).c_str(), pos, (long long)gv, (unsigned long long)gu, val.c_str()));
  r.label(w); r.interesting(w + " " + val + (arb ? " arbitrary" : ""));
}
// ------------------------------------------------------------------ ACN integers
static void acnInts(Src &r) {
  const IntEnc &e = encs[r.below(encs.size())]; int en = adaOp("ENC_" + e.name), dn = adaOp("DEC_" + e.name); if (en < 0) throw pbt::Discard();
  int pos = (int)r.below(20), size = 60; uint64_t v = r.u64(); if (!e.uns && r.coin()) v = ~v; Param p; p.n = 0;
  switch (e.pk) { case 1: p.n = e.uns ? (int)r.below(64) : 2 + (int)r.below(62); if (e.uns && p.n == 0) p.n = 1; break; case 2: p.n = 1 + (int)r.below(19); break; case 3: p.n = e.uns ? 2 + (int)r.below(18) : 2 + (int)r.below(19); break;
    case 4: { p.term.resize(1 + (e.uns ? r.below(10) : r.below(9))); for (auto &x : p.term) { x = (uint8_t)r.below(256); if ((x >= '0' && x <= '9') || x == '+' || x == '-') x = 0; } break; } }
  bool asciiInt = e.name.find("ASCII") != Str::npos, bcd = e.name.find("BCD") == 0, emb = e.name.find("ASCII_VarSize_L") != Str::npos; const uint64_t T19 = 10000000000000000000ULL, T18 = T19 / 10;
  if (bcd || (asciiInt && e.uns)) v %= T19; if (emb && !e.uns) v = (uint64_t)((int64_t)v % (int64_t)T18);
  for (int i = 0; i < 70 && !e.fits(v, p); i++) v = e.uns ? v >> 1 : (uint64_t)((int64_t)v >> 1);
  if (!e.fits(v, p)) v = 0;
  AArgs *a = fresh(size, pos); auto put = [&](AArgs *x) { x->n = p.n; x->termLen = (int)p.term.size(); memcpy(x->term, p.term.data(), p.term.size()); };
  put(a); a->v = (int64_t)v; a->uv = v; CS c(size, pos); e.enc(&c.s, v, p); Str val = fmt("%lld (%llu), parameter %d %s", (long long)v, (unsigned long long)v, p.n, hx(p.term.data(), p.term.size()).c_str()); call(a, en, e.name); same(e.name + (v == 0 ? "/zero" : ""), a, c, val);
  r.label(e.name); r.interesting(e.name + " " + val);
  if (dn < 0) return;
  Vec in = c.mem; int mode = (int)r.below(3); int end = c.pos();
  if (mode == 1) { in = bytesOf(r, size); if (e.name.find("VarSize") != Str::npos && !asciiInt && !bcd) { CS t(in.data(), size, pos); BitStream_AppendByte0(&t.s, (byte)(1 + r.below(r.coin() ? 10 : 255))); in = t.mem; } if (bcd && r.coin()) for (auto &x : in) x = (uint8_t)(r.below(10) << 4 | r.below(10)); if (asciiInt && r.coin()) { CS t(in.data(), size, pos); int m = (int)r.below(22); if (!e.uns) BitStream_AppendByte0(&t.s, r.coin() ? '-' : '+'); for (int i = 0; i < m; i++) BitStream_AppendByte0(&t.s, (byte)('0' + r.below(10))); if (e.pk == 4) for (auto x : p.term) BitStream_AppendByte0(&t.s, x); in = t.mem; } }
  else if (mode == 2 && end > pos) { int b = pos + (int)r.below(end - pos); in[b / 8] ^= 0x80 >> (b % 8); }
  { CS t(in.data(), size, pos); byte b0 = 1; if (asciiInt && e.pk == 4) { if (!e.uns) BitStream_ReadByte(&t.s, &b0); BitStream_ReadByte(&t.s, &b0); if (b0 < '0' || b0 > '9') throw pbt::Discard(); int k = 0; while (b0 >= '0' && b0 <= '9' && BitStream_ReadByte(&t.s, &b0)) k++; if (k > 20) throw pbt::Discard(); } else if (bcd && e.pk != 2) { int k = 0; for (; k < 30; k++) { BitStream_ReadPartialByte(&t.s, &b0, 4); if (b0 > 9) break; } if (k > 19) throw pbt::Discard(); } else if (e.name.find("VarSize") != Str::npos && !bcd) { BitStream_ReadByte(&t.s, &b0); if (b0 == 0) throw pbt::Discard(); } } // integers without any octet or digit, or padded with zeros beyond 19 or 20 digits, which no encoder writes: left open
  size_t di = r.below(e.dec.size()); int width = e.dec[di].width; bool var = e.name.find("VarSize") != Str::npos && !asciiInt && !bcd; if (var) { width = 64; di = 0; }
  int64_t lo = -1, hi = 1; uint64_t ulo = 0, uhi = ~0ULL; bool bounds = !(asciiInt && e.pk == 4) && !(var && !e.uns);
  if (e.uns) { uint64_t lim = width == 64 ? ~0ULL : (1ULL << width) - 1; uint64_t p10 = 1; for (int i = 0; i < std::min(19, p.n); i++) p10 *= 10; if (bcd) lim = std::min(lim, (e.pk == 2 ? p10 : T19) - 1); if (asciiInt) lim = std::min(lim, T19 - 1); ulo = r.coin() ? 0 : r.u64() % (lim / 2 + 1); uhi = r.coin() ? lim : lim - r.u64() % (lim / 2 + 1); if (ulo > uhi) std::swap(ulo, uhi); if (r.coin(1, 3) && v <= lim) { ulo = std::min(ulo, v); uhi = std::max(uhi, v); if (r.coin()) ulo = v; if (r.coin()) uhi = v; } }
  else { hi = width == 64 ? INT64_MAX : (1LL << (width - 1)) - 1; lo = -hi - 1; if (r.coin()) { int64_t x = r.i64(), y = r.i64(); if (width < 64) { x = (int64_t)((uint64_t)x << (64 - width)) >> (64 - width); y = (int64_t)((uint64_t)y << (64 - width)) >> (64 - width); } lo = std::min(x, y); hi = std::max(x, y); } }
  CS d(in.data(), size, pos); uint64_t g = 0; bool ok = e.dec[di].dec(&d.s, g, p); bool cok = ok;
  if (bounds) { if (e.uns) { if (g < ulo || (g > uhi && !var)) ok = false; } else if ((int64_t)g < lo || (int64_t)g > hi) ok = false; }
  a = fresh(size, pos); put(a); memcpy(a->buf, in.data(), size); a->width = width; a->min = lo; a->max = hi; a->umin = ulo; a->umax = uhi; a->v = 55; a->uv = 55; call(a, dn, e.name);
  outcome(e.name, a, ok, e.uns ? a->uv == g : a->v == (int64_t)g, d.pos(), fmt("width %d, %s at bit %d, C reads %lld (%d), bounds %lld..%lld %llu..%llu, %s", width, hx(in.data(), 30).c_str(), pos, (long long)g, cok, (long long)lo, (long long)hi, (unsigned long long)ulo, (unsigned long long)uhi, val.c_str()));
}
// ------------------------------------------------------------------ reals
static double genD(Src &r) { uint64_t q = r.u64(); double d; memcpy(&d, &q, 8); switch (r.below(5)) { case 0: d = (double)r.iIn(-100000, 100000) / 64; break; case 1: d = r.pick({0.0, -0.0, (double)INFINITY, -(double)INFINITY, 1.0, 0.1, 1e300, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308}); break; case 2: d = std::ldexp((double)r.u64(), (int)r.iIn(-1140, 960)); break; default: break; } return d; }
static bool eqd(double x, double y) { return memcmp(&x, &y, 8) == 0 || (x != x && y != y); }
static void reals(Src &r) {
  double v = genD(r); if (v != v) v = r.coin() ? v : 2.5; int pos = (int)r.below(20), size = 60; AArgs *a = fresh(size, pos); CS c(size, pos); int k = (int)r.below(5); static const char *nm[] = {"uPER REAL", "IEEE 32 big", "IEEE 64 big", "IEEE 32 little", "IEEE 64 little"}; Str w = nm[k];
  if (v != v) { uint64_t q = 0x7FF8000000000000ULL; memcpy(&v, &q, 8); }
  if ((k == 1 || k == 3)) v = (double)(float)v;
  a->d = v; switch (k) { case 0: BitStream_EncodeReal(&c.s, v); break; case 1: Acn_Enc_Real_IEEE754_32_big_endian(&c.s, v); break; case 2: Acn_Enc_Real_IEEE754_64_big_endian(&c.s, v); break; case 3: Acn_Enc_Real_IEEE754_32_little_endian(&c.s, v); break; default: Acn_Enc_Real_IEEE754_64_little_endian(&c.s, v); }
  static const int en[] = {A_REAL_ENC, A_IEEE_32_big_ENC, A_IEEE_64_big_ENC, A_IEEE_32_little_ENC, A_IEEE_64_little_ENC}; Str cls = std::isnan(v) ? " NaN" : std::isinf(v) ? " infinity" : v == 0 ? " zero" : std::fpclassify(v) == FP_SUBNORMAL || ((k == 1 || k == 3) && std::fabs(v) < 1.1754943508222875e-38) ? " subnormal" : "";
  call(a, en[k], w + cls); same(w + cls, a, c, fmt("%.17g", v));
  Vec in = c.mem; int width = (k == 1 || k == 3) && r.coin() ? 32 : 64; bool arb = k == 0 && r.coin(); if (k == 0 && !arb && r.coin(1, 3) && (v != v || v == (double)(float)v)) width = 32;
  if (arb) { in = bytesOf(r, size); CS t(in.data(), size, pos); int l = (int)r.below(r.coin() ? 12 : 14); BitStream_AppendByte0(&t.s, (byte)(r.coin(1, 10) ? r.below(256) : l)); if (l) { int ex = (int)r.below(4); byte h = (byte)(0x80 | r.below(2) << 6 | r.below(4) << 4 | r.below(4) << 2 | ex); if (r.coin(1, 10)) h = (byte)r.below(256); BitStream_AppendByte0(&t.s, h); if (ex < 3) for (int i = ex; i >= 0; i--) BitStream_AppendByte0(&t.s, (byte)(i && r.coin() ? 0 : i && r.coin() ? 255 : r.below(256))); } in = t.mem; }
  CS d(in.data(), size, pos); asn1Real g = 0; bool ok; switch (k) { case 0: ok = BitStream_DecodeReal(&d.s, &g); break; case 1: ok = Acn_Dec_Real_IEEE754_32_big_endian(&d.s, &g); break; case 2: ok = Acn_Dec_Real_IEEE754_64_big_endian(&d.s, &g); break; case 3: ok = Acn_Dec_Real_IEEE754_32_little_endian(&d.s, &g); break; default: ok = Acn_Dec_Real_IEEE754_64_little_endian(&d.s, &g); }
  a = fresh(size, pos); memcpy(a->buf, in.data(), size); a->width = width; a->d = 9; call(a, en[k] + 1, w + cls); Str in2 = fmt("%s at bit %d, C reads %.17g", hx(in.data(), 16).c_str(), pos, g);
  bool vs = eqd(a->d, g); if (arb && ok && !a->ok) { CS t(in.data(), size, pos); byte l = 0, h = 0; BitStream_ReadByte(&t.s, &l); BitStream_ReadByte(&t.s, &h); int ml = l - 2 - (h & 3); if (ml > 8 || ml < 1 || (h & 3) == 3) throw pbt::Discard(); } // exponents with a length octet, empty mantissas and padded ones above 8 octets: left open if (!ok && a->ok) vs = true;
  outcome(arb ? w + " arbitrary" : w + cls + (width == 32 ? "/fp32" : ""), a, ok, vs, d.pos(), in2); r.label(w); r.interesting(w + " " + in2);
}
// ------------------------------------------------------------------ octets and bits
static void strings(Src &r) {
  int k = (int)r.below(6), pos = (int)r.below(20), size = 480; static const char *nm[] = {"octet string", "octets", "bit string", "bits", "bit array", "terminated bits"}; Str w = nm[k];
  int max = 1 + (int)r.below(r.coin() ? 20 : 150), min = r.coin(1, 3) ? max : (int)r.below(max + 1), len = min + (int)r.below(max - min + 1); if (k == 2 && r.coin()) max *= 2, len = min + (int)r.below(max - min + 1);
  int n = bitlen((uint64_t)(max - min)); Vec data = bytesOf(r, 256); if (k >= 1 && k != 2 && k != 5) { if (len == 0) len = 1; }
  AArgs *a = fresh(size, pos); auto put = [&](AArgs *x) { x->min = min; x->max = max; x->n = n; x->len = len; }; put(a); memcpy(a->data, data.data(), 256); CS c(size, pos);
  if (k == 5) {
    int tb = 1 + (int)r.below(20); Vec term = bytesOf(r, 4); memcpy(a->term, term.data(), 4); Vec in = bytesOf(r, size); if (r.coin()) { CS t(in.data(), size, pos + (int)r.below(max + 3)); BitStream_AppendBits(&t.s, term.data(), tb); in = t.mem; }
    memcpy(a->buf, in.data(), size); a->m = tb; CS d(in.data(), size, pos); Vec o(300); int got = 0; bool ok = BitStream_ReadBits_nullterminated(&d.s, term.data(), tb, o.data(), max, &got); call(a, A_BITNULL_DEC, w);
    bool eq = a->len == got; for (int i = 0; eq && i < got; i++) if (((a->data[i / 8] ^ o[i / 8]) >> (7 - i % 8)) & 1) eq = false;
    outcome(w, a, ok, eq, d.pos(), fmt("at most %d bits then %d of %s in %s at bit %d: C reads %d", max, tb, hx(term.data(), 3).c_str(), hx(in.data(), 30).c_str(), pos, got)); r.label(ok ? w : w + " refused"); r.interesting(fmt("%s %d %d", w.c_str(), max, tb)); return; }
  switch (k) { case 0: BitStream_EncodeOctetString(&c.s, data.data(), len, min, max); break; case 1: BitStream_EncodeOctetString_no_length(&c.s, data.data(), len); break; case 2: BitStream_EncodeBitString(&c.s, data.data(), len, min, max); break; default: BitStream_AppendBits(&c.s, data.data(), len); }
  static const int en[] = {A_OCT_ENC, A_OCTN_ENC, A_BIT_ENC, A_BITS_ENC, A_BITA_ENC}; Str val = fmt("%d of (%d..%d) %s", len, min, max, hx(data.data(), 20).c_str()); call(a, en[k], w); same(w, a, c, val);
  Vec in = c.mem; if (r.coin(1, 3)) { Vec x = bytesOf(r, size); in = x; }
  a = fresh(size, pos); put(a); memcpy(a->buf, in.data(), size); CS d(in.data(), size, pos); Vec o(300); int got = len; bool ok;
  switch (k) { case 0: ok = BitStream_DecodeOctetString(&d.s, o.data(), &got, min, max); break; case 1: ok = BitStream_DecodeOctetString_no_length(&d.s, o.data(), len); break; case 2: ok = BitStream_DecodeBitString(&d.s, o.data(), &got, min, max); break; default: ok = BitStream_ReadBits(&d.s, o.data(), len); }
  call(a, en[k] + 1, w); int nb = k < 2 ? got * 8 : got; bool eq = k == 0 || k == 2 ? a->len == got : true; for (int i = 0; eq && i < nb; i++) if (((a->data[i / 8] ^ o[i / 8]) >> (7 - i % 8)) & 1) eq = false;
  outcome(w, a, ok, eq, d.pos(), fmt("%s at bit %d: C reads %d %s, Ada %d %s", hx(in.data(), 30).c_str(), pos, got, hx(o.data(), 24).c_str(), a->len, hx(a->data, 24).c_str())); r.label(w); r.interesting(w + " " + val);
}
static void bytes(Src &r) {
  int k = (int)r.below(5), pos = (int)r.below(20), size = 12; uint8_t b = (uint8_t)r.below(256); AArgs *a = fresh(size, pos); a->uv = b; a->n = (int)r.below(2); CS c(size, pos); Str w;
  if (k == 0) { w = "byte"; if (a->n) BitStream_AppendByte(&c.s, b, TRUE); else BitStream_AppendByte0(&c.s, b); call(a, A_BYTE_ENC, w); same(w, a, c, fmt("%02x", b)); a = fresh(size, pos); memcpy(a->buf, c.mem.data(), size); c.at(pos); byte g; bool ok = BitStream_ReadByte(&c.s, &g); call(a, A_BYTE_DEC, w); outcome(w, a, ok, a->uv == g, c.pos(), fmt("%02x", g)); }
  else if (k == 1) { w = "partial byte"; int n = 1 + (int)r.below(7); bool neg = r.coin(); b &= (1 << n) - 1; a->uv = b; a->n = n; a->m = neg; BitStream_AppendPartialByte(&c.s, b, (byte)n, neg); call(a, A_PART_ENC, w); same(w, a, c, fmt("%02x in %d bits %d", b, n, neg)); a = fresh(size, pos); a->n = n; memcpy(a->buf, c.mem.data(), size); c.at(pos); byte g; bool ok = BitStream_ReadPartialByte(&c.s, &g, (byte)n); call(a, A_PART_DEC, w); outcome(w, a, ok, a->uv == g, c.pos(), fmt("%02x in %d bits", g, n)); }
  else if (k == 2) { w = "peek"; Vec in = bytesOf(r, size); int off = (int)r.below(20), n = 1 + (int)r.below(7); memcpy(a->buf, in.data(), size); a->m = off; a->n = n; CS d(in.data(), size, pos + off); byte g; BitStream_ReadPartialByte(&d.s, &g, (byte)n); call(a, A_PEEKPART, w); PBT_CHECK(a->uv == g && a->pos == pos, "decode/peek-partial-byte", "%llx instead of %x", (unsigned long long)a->uv, g); a = fresh(size, pos); memcpy(a->buf, in.data(), size); a->m = off; CS e(in.data(), size, pos + off); BitStream_ReadByte(&e.s, &g); call(a, A_PEEKBYTE, w); PBT_CHECK(a->uv == g && a->pos == pos, "decode/peek-byte", "%llx instead of %x", (unsigned long long)a->uv, g); }
  else if (k == 3) { w = "nibble"; Vec in = bytesOf(r, size); memcpy(a->buf, in.data(), size); CS d(in.data(), size, pos); byte g; bool ok = BitStream_ReadPartialByte(&d.s, &g, 4); call(a, A_NIB_DEC, w); outcome(w, a, ok, a->uv == g, d.pos(), ""); }
  else { w = "boolean"; BitStream_AppendBit(&c.s, (flag)a->n); call(a, A_BOOL_ENC, w); same(w, a, c, ""); a = fresh(size, pos); Vec in = bytesOf(r, size); memcpy(a->buf, in.data(), size); CS d(in.data(), size, pos); flag g; bool ok = BitStream_ReadBit(&d.s, &g); call(a, A_BOOL_DEC, w); outcome(w, a, ok, (bool)a->uv == (bool)g, d.pos(), ""); }
  r.label(w); r.interesting(fmt("%s %02x at bit %d", w.c_str(), b, pos));
}
// ------------------------------------------------------------------ object identifiers
static void oid(Src &r) {
  bool rel = r.coin(); Str w = rel ? "relative OID" : "object identifier"; int pos = (int)r.below(20), size = 400; Asn1ObjectIdentifier x; memset(&x, 0, sizeof x); x.nCount = (rel ? 1 : 2) + (int)r.below(r.coin() ? 4 : 19 - !rel); for (int i = 0; i < x.nCount; i++) x.values[i] = r.u64(); if (!rel) { x.values[0] = r.below(3); x.values[1] = r.below(x.values[0] == 2 && false ? 1000 : 40); }
  AArgs *a = fresh(size, pos); auto put = [&](AArgs *q, const Asn1ObjectIdentifier &o) { q->arcCount = o.nCount; for (int i = 0; i < o.nCount; i++) q->arcs[i] = o.values[i]; }; put(a, x); CS c(size, pos); if (rel) RelativeOID_uper_encode(&c.s, &x); else ObjectIdentifier_uper_encode(&c.s, &x);
  Str val; for (int i = 0; i < x.nCount; i++) val += fmt("%llu.", (unsigned long long)x.values[i]); call(a, rel ? A_ROID_ENC : A_OID_ENC, w); same(w, a, c, val);
  Vec in = c.mem; if (r.coin()) { int e = c.pos(); for (int i = 0; i < 3; i++) { int b = pos + (int)r.below(e - pos); if (b >= pos + 8 || r.coin(1, 6)) in[b / 8] ^= 0x80 >> (b % 8); } }
  CS d(in.data(), size, pos); Asn1ObjectIdentifier g; memset(&g, 0, sizeof g); bool ok = rel ? RelativeOID_uper_decode(&d.s, &g) : ObjectIdentifier_uper_decode(&d.s, &g); a = fresh(size, pos); memcpy(a->buf, in.data(), size); call(a, rel ? A_ROID_DEC : A_OID_DEC, w);
  bool eq = a->arcCount == g.nCount; Str av; for (int i = 0; i < a->arcCount; i++) { av += fmt("%llu.", (unsigned long long)a->arcs[i]); if (eq && a->arcs[i] != g.values[i]) eq = false; }
  outcome(w, a, ok, eq, d.pos(), fmt("%s at bit %d (Ada %s)", hx(in.data(), 40).c_str(), pos, av.c_str()));
  // predicates
  Asn1ObjectIdentifier y = x; if (r.coin()) y.values[r.below(20)] ^= 1; if (r.coin(1, 3)) y.nCount = (int)r.below(20); if (r.coin(1, 3)) { y.values[0] = r.below(4); y.values[1] = r.below(60); } a = fresh(16, 0); put(a, y); call(a, rel ? A_ROID_VALID : A_OID_VALID, w); PBT_CHECK((bool)a->ok == (bool)(rel ? RelativeOID_isValid(&y) : ObjectIdentifier_isValid(&y)), "valid/" + tg(w), "%d arcs %llu %llu: Ada says %d", y.nCount, (unsigned long long)y.values[0], (unsigned long long)y.values[1], a->ok);
  a = fresh(16, 0); put(a, x); a->arcCount2 = y.nCount; for (int i = 0; i < 20; i++) a->arcs2[i] = y.values[i]; call(a, A_OID_EQ, w); PBT_CHECK((bool)a->ok == (bool)ObjectIdentifier_equal(&x, &y), "equal/" + tg(w), "Ada says %d", a->ok);
  r.label(w); r.interesting(w + " " + val);
}
// ------------------------------------------------------------------ patterns
static void patterns(Src &r) {
  int pos = (int)r.below(20), size = 40, n = 1 + (int)r.below(40), k = (int)r.below(4); Vec p = bytesOf(r, 8), q = p; static const char *nm[] = {"true pattern", "false pattern", "true and false pattern", "null pattern"}; Str w = nm[k]; bool v = r.coin(); for (auto &x : q) x = ~x; if (k == 2 && r.coin()) { q = p; int b = (int)r.below(n); q[b / 8] ^= 0x80 >> (b % 8); }
  auto put = [&](AArgs *a) { memcpy(a->data, p.data(), 8); memcpy(a->data2, q.data(), 8); a->len = n; a->n = v; }; AArgs *a = fresh(size, pos); put(a); CS c(size, pos); static const int en[] = {A_TRUE_ENC, A_FALSE_ENC, A_TF_ENC, A_NULL_ENC};
  bool first = k == 3 || (k == 0 ? v : k == 1 ? !v : v); BitStream_AppendBits(&c.s, (first ? p : q).data(), n); Str val = fmt("%d bits of %s, %d", n, hx(p.data(), 6).c_str(), v); call(a, en[k], w); same(w, a, c, val);
  Vec in = bytesOf(r, size); { CS t(in.data(), size, pos); BitStream_AppendBits(&t.s, (r.coin() ? p : q).data(), n); in = t.mem; if (r.coin(1, 3)) { int b = pos + (int)r.below(n); in[b / 8] ^= 0x80 >> (b % 8); } }
  CS d(in.data(), size, pos); flag g = 0; bool ok, val2 = false; if (k == 2) { ok = BitStream_DecodeTrueFalseBoolean(&d.s, p.data(), q.data(), n, &g); val2 = g; } else { ok = BitStream_ReadBitPattern(&d.s, p.data(), n, &g); val2 = k == 1 ? !g : g; if (k == 3) { ok = ok && g; val2 = true; } }
  a = fresh(size, pos); put(a); memcpy(a->buf, in.data(), size); int dop = en[k] + 1; if (k == 3 && r.coin()) dop = A_NULLV_DEC; call(a, dop, w); outcome(w, a, ok, k == 3 || (bool)a->uv == val2, pos + n, fmt("%s at bit %d: %s", hx(in.data(), 12).c_str(), pos, val.c_str())); r.label(w); r.interesting(w + " " + val);
}
// ------------------------------------------------------------------ ACN strings
static void text(Src &r) {
  int k = (int)r.below(6), pos = (int)r.below(20), size = 200; static const char *nm[] = {"ASCII fixed", "ASCII terminated", "ASCII external", "ASCII internal", "index external", "index internal"}; Str w = nm[k];
  int max = 1 + (int)r.below(r.coin() ? 10 : 60), min = (int)r.below(max + 1), len = k == 0 ? max : min + (int)r.below(max - min + 1); Vec set; bool ci = k >= 4; if (ci) { int n = 2 + (int)r.below(r.coin() ? 10 : 100), c = 1 + (int)r.below(127 - n); for (int i = 0; i < n && c < 128; i++) { set.push_back((uint8_t)c); c += 1 + (int)r.coin(1, 4); } if (set.size() < 2) throw pbt::Discard(); }
  Vec term; if (k == 1) { term.resize(1 + r.below(10)); for (auto &x : term) x = r.coin() ? 0 : (uint8_t)r.below(256); } Str t; for (int i = 0; i < len; i++) t += (char)(ci ? r.pickv(set) : 1 + r.below(127)); int lw = bitlen((uint64_t)(max - min)), cw = bitlen(set.empty() ? 0 : set.size() - 1); if (lw == 0) lw = 0;
  if (k == 1) { if (std::search(t.begin(), t.end(), term.begin(), term.end(), [](char x, uint8_t y) { return (uint8_t)x == y; }) != t.end()) throw pbt::Discard(); for (char c : t) if ((uint8_t)c == term[0]) throw pbt::Discard(); }
  auto put = [&](AArgs *a) { a->slen = max + 1; a->termLen = (int)term.size(); memcpy(a->term, term.data(), term.size()); a->setLen = (int)set.size(); memcpy(a->set, set.data(), set.size()); a->min = min; a->max = max; a->n = lw; a->m = cw; a->v = len; };
  AArgs *a = fresh(size, pos); put(a); memcpy(a->data, t.data(), t.size()); CS c(size, pos); const char *sv = t.c_str(); int sn = (int)set.size();
  switch (k) { case 0: Acn_Enc_String_Ascii_FixSize(&c.s, max, sv); break; case 1: Acn_Enc_String_Ascii_Null_Terminated_mult(&c.s, max, term.data(), term.size(), sv); break; case 2: Acn_Enc_String_Ascii_External_Field_Determinant(&c.s, max, sv); break; case 3: Acn_Enc_String_Ascii_Internal_Field_Determinant(&c.s, max, min, sv); break; case 4: Acn_Enc_String_CharIndex_External_Field_Determinant(&c.s, max, set.data(), sn, sv); break; default: Acn_Enc_String_CharIndex_Internal_Field_Determinant(&c.s, max, set.data(), sn, min, sv); }
  static const int en[] = {A_S0_ENC, A_S1_ENC, A_S2_ENC, A_S3_ENC, A_S4_ENC, A_S5_ENC}; Str val = fmt("%d of (%d..%d) %s", len, min, max, hx((const uint8_t *)t.data(), t.size()).c_str()); call(a, en[k], w); same(w, a, c, val);
  Vec in = c.mem; int64_t det = len; int e = c.pos(); int mode = (int)r.below(3); if (mode == 1 && e > pos) { int b = pos + (int)r.below(e - pos); in[b / 8] ^= 0x80 >> (b % 8); } if (mode == 2 && (k == 2 || k == 4)) det = (int64_t)r.below(2 * max + 2);
  CS d(in.data(), size, pos); Vec o(max + 1); char *ov = (char *)o.data(); bool ok;
  switch (k) { case 0: ok = Acn_Dec_String_Ascii_FixSize(&d.s, max, ov); break; case 1: ok = Acn_Dec_String_Ascii_Null_Terminated_mult(&d.s, max, term.data(), term.size(), ov); break; case 2: ok = Acn_Dec_String_Ascii_External_Field_Determinant(&d.s, max, det, ov); break; case 3: ok = Acn_Dec_String_Ascii_Internal_Field_Determinant(&d.s, max, min, ov); break; case 4: ok = Acn_Dec_String_CharIndex_External_Field_Determinant(&d.s, max, set.data(), sn, det, ov); break; default: ok = Acn_Dec_String_CharIndex_Internal_Field_Determinant(&d.s, max, set.data(), sn, min, ov); }
  a = fresh(size, pos); put(a); a->v = det; memcpy(a->buf, in.data(), size); call(a, en[k] + 1, w); size_t on = strnlen(ov, max + 1), an = strnlen((char *)a->data, max + 1);
  outcome(w, a, ok, on == an && !memcmp(ov, a->data, on), d.pos(), fmt("%s at bit %d, determinant %lld of (%d..%d), terminator %s: C %s, Ada %s", hx(in.data(), 20).c_str(), pos, (long long)det, min, max, hx(term.data(), term.size()).c_str(), hx(o.data(), on).c_str(), hx(a->data, an).c_str())); r.label(ok ? w : w + " refused"); if (len > 1) r.interesting(w + " " + val);
  // lengths and equality of texts
  Str u = t; if (r.coin() && len) u[r.below(len)] ^= 1; if (r.coin(1, 3)) u = u.substr(0, r.below(len + 1)); a = fresh(16, 0); a->slen = max + 1; memcpy(a->data, t.data(), t.size()); call(a, A_STR_LEN, "text length"); PBT_CHECK(a->v == (int64_t)strlen(t.c_str()), "length/text", "%lld", (long long)a->v); a = fresh(16, 0); a->slen = max + 1; memcpy(a->data, t.data(), t.size()); memcpy(a->data2, u.data(), u.size()); call(a, A_STR_EQ, "text equality"); PBT_CHECK((bool)a->ok == (strcmp(t.c_str(), u.c_str()) == 0), "equal/text", "%s %s: %d", t.c_str(), u.c_str(), a->ok);
}
static void equal(Src &r) {
  Vec x = bytesOf(r, 40), y = x; int n = 1 + (int)r.below(40), m = r.coin() ? n : 1 + (int)r.below(40); if (r.coin()) y[r.below(40)] ^= (uint8_t)(1 << r.below(8)); auto put = [&](AArgs *a) { memcpy(a->data, x.data(), 40); memcpy(a->data2, y.data(), 40); a->len = n; a->m = m; };
  AArgs *a = fresh(16, 0); put(a); call(a, A_OCT_EQ, "octet string equality"); PBT_CHECK((bool)a->ok == (n == m && !memcmp(x.data(), y.data(), n)), "equal/octet-string", "%d/%d bytes: %d", n, m, a->ok);
  int nb = n * 8 - (int)r.below(8), mb = n == m ? nb : m * 8; if (r.coin(1, 4)) mb = std::max(1, nb - 1); a = fresh(16, 0); put(a); a->len = nb; a->m = mb; call(a, A_BIT_EQ, "bit string equality"); bool eq = nb == mb; for (int i = 0; eq && i < nb; i++) if (((x[i / 8] ^ y[i / 8]) >> (7 - i % 8)) & 1) eq = false; PBT_CHECK((bool)a->ok == eq, "equal/bit-string", "%d/%d bits: %d", nb, mb, a->ok);
  double d = genD(r), e = r.coin() ? d * (1 + (double)r.iIn(-30, 30) * 1e-6) : genD(r); if (d != d) d = 1; if (e != e) e = 1; if (std::isinf(d) || std::isinf(e)) { d = 3; e = 4; } double ratio = d == e ? 1 : d == 0 || e == 0 || (d > 0) != (e > 0) ? 0 : std::min(std::fabs(d / e), std::fabs(e / d)); if (std::fabs(ratio - 0.99999) > 1e-7) { a = fresh(16, 0); a->d = d; a->d2 = e; call(a, A_REAL_EQ, "REAL equality"); PBT_CHECK((bool)a->ok == (ratio > 0.99999), "equal/REAL", "%.17g %.17g: %d", d, e, a->ok); }
  r.interesting(fmt("%d %d %s", n, m, hx(x.data(), 8).c_str()));
}
// ------------------------------------------------------------------ determinants written later
static void dets(Src &r) {
  static const struct { const char *n; int bits; bool sgn; } D[] = {{"U8", 8, 0}, {"U16_BE", 16, 0}, {"U32_BE", 32, 0}, {"U64_BE", 64, 0}, {"U16_LE", 16, 0}, {"U32_LE", 32, 0}, {"U64_LE", 64, 0}, {"I8", 8, 1}, {"I16_BE", 16, 1}, {"I32_BE", 32, 1}, {"I64_BE", 64, 1}, {"BOOL1", 1, 0}, {"ConstSize", 0, 0}, {"TwosComplement_ConstSize", 0, 1}};
  int k = (int)r.below(14); int bits = D[k].bits ? D[k].bits : (D[k].sgn ? 2 : 1) + (int)r.below(D[k].sgn ? 61 : 62); uint64_t v = r.u64(), v2; auto fit = [&](uint64_t x) { return D[k].sgn ? (uint64_t)((int64_t)(x << (64 - bits)) >> (64 - bits)) : bits == 64 ? x : x & ((1ULL << bits) - 1); }; v = fit(v); v2 = r.coin() ? v : fit(r.u64());
  int pos = (int)r.below(20), gap = (int)r.below(40), size = 40; Str w = Str("determinant ") + D[k].n; Vec pre = bytesOf(r, size);
  AArgs *a = fresh(size, pos); memcpy(a->buf, pre.data(), size); CS c(pre.data(), size, pos); AcnInsertedFieldRef det; memset(&det, 0, sizeof det); int err = 0; flag o1, o2; auto adv = [&] { int p = c.pos() + gap; c.s.currentByte = p / 8; c.s.currentBit = p % 8; };
#define DD(i, N) case i: Acn_InitDet_##N(&c.s, &det); adv(); o1 = Acn_PatchDet_##N(v, &c.s, &det, &err); o2 = Acn_PatchDet_##N(v2, &c.s, &det, &err); break;
#define DN(i, N) case i: Acn_InitDet_##N(&c.s, bits, &det); adv(); o1 = Acn_PatchDet_##N(v, &c.s, bits, &det, &err); o2 = Acn_PatchDet_##N(v2, &c.s, bits, &det, &err); break;
  switch (k) { DD(0, U8) DD(1, U16_BE) DD(2, U32_BE) DD(3, U64_BE) DD(4, U16_LE) DD(5, U32_LE) DD(6, U64_LE) DD(7, I8) DD(8, I16_BE) DD(9, I32_BE) DD(10, I64_BE) DD(11, BOOL1) DN(12, ConstSize) DN(13, TwosComplement_ConstSize) default: throw pbt::Discard(); }
  a->uv = v; a->umin = v2; a->n = bits; a->m = gap; call(a, adaOp(Str("DET_") + D[k].n), w); Str val = fmt("%lld then %lld at bit %d, %d bits later", (long long)v, (long long)v2, pos, gap);
  PBT_CHECK((bool)a->err == (bool)o1 && (bool)a->ok == (bool)o2, "accept/" + tg(w), "%s: Ada %d %d, C %d %d", val.c_str(), a->err, a->ok, o1, o2); same(w, a, c, val); r.label(w); r.interesting(w + " " + val);
}
static void detStr(Src &r) {
  int n = 1 + (int)r.below(20), pos = (int)r.below(20), gap = (int)r.below(40), size = 80; Str t, u; int m = n; for (int i = 0; i < m; i++) t += (char)(1 + r.below(127)); u = t; if (m && r.coin()) u[r.below(m)] ^= 1; if (u.find('\0') != Str::npos) throw pbt::Discard(); Str w = "determinant string";
  Vec pre(size); AArgs *a = fresh(size, pos); CS c(pre.data(), size, pos); AcnInsertedFieldRef det; memset(&det, 0, sizeof det); int err = 0; Acn_InitDet_IA5String_FixSize(&c.s, n, &det); int p = c.pos() + gap; c.s.currentByte = p / 8; c.s.currentBit = p % 8; Vec tt(n + 1), uu(n + 1); memcpy(tt.data(), t.data(), t.size()); memcpy(uu.data(), u.data(), u.size()); flag o1 = Acn_PatchDet_IA5String_FixSize((char *)tt.data(), &c.s, n, &det, &err), o2 = Acn_PatchDet_IA5String_FixSize((char *)uu.data(), &c.s, n, &det, &err);
  a->slen = n + 1; memcpy(a->data, t.data(), t.size()); memcpy(a->data2, u.data(), u.size()); a->n = n; a->m = gap; call(a, A_DET_STR, w); Str val = fmt("'%s' then '%s' of %d", hx((uint8_t *)t.data(), t.size()).c_str(), hx((uint8_t *)u.data(), u.size()).c_str(), n); PBT_CHECK((bool)a->err == (bool)o1 && (bool)a->ok == (bool)o2, "accept/" + tg(w), "%s: Ada %d %d, C %d %d", val.c_str(), a->err, a->ok, o1, o2); same(w, a, c, val); r.interesting(val);
}
int main(int c, char **v) {
  pbt::Engine e;
  e.checks = {{"P33.ints", ints, 60000, 2000000}, {"P33.acn", acnInts, 120000, 4000000}, {"P33.reals", reals, 60000, 2000000}, {"P33.strings", strings, 50000, 1500000}, {"P33.bytes", bytes, 40000, 400000}, {"P33.oid", oid, 30000, 800000}, {"P33.patterns", patterns, 40000, 800000}, {"P33.text", text, 60000, 2000000}, {"P33.equal", equal, 30000, 400000}, {"P33.dets", dets, 50000, 800000}, {"P33.detStr", detStr, 15000, 200000}};
  return e.main(c, v);
}
