// P25: ACN integer encodings; P26: ACN reals, booleans, patterns, strings
#include "acnint.h"
#include <cmath>

static Vec genTerm(Src &r, bool digitsAllowed) {   // terminators that cannot be mistaken for digits
  int n = r.coin() ? 1 : 1 + (int)r.below(10); Vec t(n); for (auto &x : t) { x = (uint8_t)r.below(256); if (!digitsAllowed && x >= '0' && x <= '9') x = 0; } return t;
}
static Param genParam(Src &r, const IntEnc &e, uint64_t v) {
  Param p; p.n = 0;
  switch (e.pk) {
    case 1: p.n = 1 + (int)(r.coin() ? r.below(64) : (uint64_t)std::min(63, e.uns ? bitlen(v) : bitlen((int64_t)v < 0 ? ~v : v) + 1)); if (p.n > 64) p.n = 64; break;
    case 2: p.n = 1 + (int)r.below(r.coin() ? 20 : 30); break;
    case 3: p.n = 1 + (int)r.below(r.coin() ? 21 : 30); break;
    case 4: p.term = genTerm(r, false); break; }
  return p;
}
static void intEnc(Src &r) {
  const IntEnc &e = encs[r.below(encs.size())]; uint64_t v = r.u64(); if (!e.uns && r.coin()) v = ~v; Param p = genParam(r, e, v);
  if (!e.fits(v, p)) {   // bring it into the domain
    if (e.pk == 1 || e.pk == 0) { int w = e.pk == 1 ? p.n : e.name.find("16") != std::string::npos ? 16 : e.name.find("32") != std::string::npos ? 32 : 8; v <<= 64 - w; v = e.uns ? v >> (64 - w) : (uint64_t)((int64_t)v >> (64 - w)); }
    else { uint64_t m = 1; for (int i = 0; i < (e.uns ? p.n : p.n - 1) && i < 19; i++) m *= 10; v = e.uns ? v % m : (uint64_t)((int64_t)v % (int64_t)m); }
    if (!e.fits(v, p)) throw pbt::Discard(); }
  Enc en(r, 400); e.ref(en.exp, v, p); int off = en.off;
  e.enc(&en.s, v, p); en.check(e.name.c_str());
  for (auto &d : e.dec) {
    Dec x(en.exp, off); uint64_t g = 0; bool fits = e.uns ? ufit(v, d.width) : ifit(v, d.width); flag ok = d.dec(&x.s, g, p);
    PBT_CHECK(ok == fits, d.name + (fits ? "/refused" : "/accepted"), "%lld (%llu): decoder says %d from %s", (long long)v, (unsigned long long)v, ok, en.exp.str().c_str());
    if (fits) { PBT_CHECK(g == v, d.name + "/value", "%lld (%llu) decoded as %lld from %s", (long long)v, (unsigned long long)v, (long long)g, en.exp.str().c_str());
      PBT_CHECK(x.pos() == (long)en.exp.size(), d.name + "/position", "consumed %ld of %zu bits", x.pos() - off, en.exp.size() - off); } }
  if (r.coin()) { auto c = cut(r, en.exp, off); const Var &d = e.dec[r.below(e.dec.size())]; Dec x(c, off); uint64_t g = 0; PBT_CHECK(!d.dec(&x.s, g, p), d.name + "/truncated-accepted", "%zu of %zu bytes accepted", c.size(), (en.exp.size() + 7) / 8); }
  r.label(e.name); r.interesting(fmt("%s %lld: %s", e.name.c_str(), (long long)v, en.exp.str().c_str()));
}
// damaged decimal forms: a symbol that is not a digit, a missing sign, more digits than the type holds
static void intBad(Src &r) {
  static std::vector<int> dec; if (dec.empty()) for (size_t i = 0; i < encs.size(); i++) if (encs[i].name.find("BCD") == 0 || encs[i].name.find("ASCII") != std::string::npos) dec.push_back((int)i);
  const IntEnc &e = encs[dec[r.below(dec.size())]]; bool isBcd = e.name.find("BCD") == 0, sgn = !e.uns, len = e.name.find("Embedded") != std::string::npos, term = e.name.find("Null") != std::string::npos;
  int n = 1 + (int)r.below(40); std::string t; for (int i = 0; i < n; i++) t += (char)('0' + r.below(10)); if (r.coin()) for (int i = 0; i < n - 20; i++) t[i] = '0';
  bool neg = sgn && r.coin(); int bad = -1; uint8_t badv = 0; bool badSign = false;
  if (r.coin()) { if (sgn && r.coin(1, 4)) badSign = true; else { bad = (int)r.below(n); badv = isBcd ? (uint8_t)(10 + r.below(6)) : (uint8_t)r.below(256); if (!isBcd && badv >= '0' && badv <= '9') badv = ':'; if (isBcd && term) bad = -1; } }
  Param p; if (e.pk == 4) { p.term = {0}; if (badv == 0) badv = '/'; } p.n = n + (sgn ? 1 : 0);
  Bits b; int off = (int)r.below(8); b.rep(0, off); if (len) b.num(n + (sgn ? 1 : 0), 8);
  if (sgn) b.num(badSign ? ' ' : neg ? '-' : '+', 8);
  for (int i = 0; i < n; i++) { uint8_t c = i == bad ? badv : isBcd ? t[i] - '0' : t[i]; b.num(c, isBcd ? 4 : 8); }
  if (term) { if (isBcd) b.num(15, 4); else b.num(0, 8); }
  unsigned __int128 val = 0; bool ok = bad < 0 && !badSign; for (char c : t) { if (val >> 100) ok = false; else val = val * 10 + (c - '0'); }
  unsigned __int128 lim = e.uns ? ~0ULL : neg ? 1ULL << 63 : (1ULL << 63) - 1; if (val > lim) ok = false;
  for (auto &d : e.dec) {
    Dec x(b, off); uint64_t g = 0; flag got = d.dec(&x.s, g, p); uint64_t w = neg ? 0 - (uint64_t)val : (uint64_t)val; bool fits = ok && (e.uns ? ufit(w, d.width) : ifit(w, d.width));
    PBT_CHECK(got == fits, d.name + (fits ? "/refused" : bad >= 0 ? "/non-digit-accepted" : badSign ? "/bad-sign-accepted" : "/overflow-accepted"), "digits %s%s: decoder says %d (value %lld)", t.c_str(), bad >= 0 ? " with a wrong symbol" : "", got, (long long)g);
    if (fits) PBT_CHECK(g == w && x.pos() == (long)b.size(), d.name + "/value", "%s decoded as %lld", t.c_str(), (long long)g); }
  r.label(ok ? "fits" : "refused"); r.interesting(fmt("%s %s %s", e.name.c_str(), t.c_str(), ok ? "" : "to be refused"));
}
static void intVarBad(Src &r) {   // embedded lengths larger than the integer type
  int n = 9 + (int)r.below(247); Bits b; b.num(n, 8); b.rep(r.below(2), n * 8); uint64_t g; Param p; p.n = 0; const IntEnc &e = encs[r.coin() ? 8 : 17];
  for (auto &d : e.dec) { Dec x(b, 0); PBT_CHECK(!d.dec(&x.s, g, p), d.name + "/length-accepted", "length %d accepted", n); }
  r.interesting(fmt("%s length %d", e.name.c_str(), n));
}
static void milbus(Src &r) { int64_t v = r.range(1, 32); PBT_CHECK(milbus_encode(v) == v % 32 && milbus_decode(milbus_encode(v)) == v, "milbus", "%lld", (long long)v); r.interesting(fmt("%lld", (long long)v)); }

// ---------------------------------------------------------------- reals
static double genReal(Src &r) { double d; uint64_t b; switch (r.below(4)) { case 0: b = r.u64(); memcpy(&d, &b, 8); break; case 1: d = std::ldexp((double)r.i64(), (int)r.range(-1100, 960)); break; case 2: { uint32_t w = (uint32_t)r.u64(); float f; memcpy(&f, &w, 4); d = f; break; } default: d = r.pick({0.0, -0.0, 1.0, -1.5, (double)INFINITY, -(double)INFINITY, 3.4028234663852886e38, 1e-45, 5e-324}); } if (std::isnan(d)) d = 2.5; return d; }
static void real(Src &r) {
  double v = genReal(r); int k = (int)r.below(4); bool big = k < 2, dbl = k & 1; float f = (float)v; uint64_t bits = 0; if (dbl) memcpy(&bits, &v, 8); else { uint32_t w; memcpy(&w, &f, 4); bits = w; } int n = dbl ? 8 : 4;
  Enc e(r, 64); if (big) e.exp.num(bits, n * 8); else le(e.exp, bits, n); int off = e.off;
  static const char *nm[] = {"Real_32_big", "Real_64_big", "Real_32_little", "Real_64_little"};
  switch (k) { case 0: Acn_Enc_Real_IEEE754_32_big_endian(&e.s, v); break; case 1: Acn_Enc_Real_IEEE754_64_big_endian(&e.s, v); break; case 2: Acn_Enc_Real_IEEE754_32_little_endian(&e.s, v); break; default: Acn_Enc_Real_IEEE754_64_little_endian(&e.s, v); }
  e.check(nm[k]);
  auto dec = [&](BitStream *s, double &g) { Heap<double> h; flag ok; switch (k) { case 0: ok = Acn_Dec_Real_IEEE754_32_big_endian(s, h.p); break; case 1: ok = Acn_Dec_Real_IEEE754_64_big_endian(s, h.p); break; case 2: ok = Acn_Dec_Real_IEEE754_32_little_endian(s, h.p); break; default: ok = Acn_Dec_Real_IEEE754_64_little_endian(s, h.p); } g = *h; return ok; };
  Dec d(e.exp, off); double g; PBT_CHECK(dec(&d.s, g), std::string(nm[k]) + "/refused", "%a", v); double w = dbl ? v : (double)f; PBT_CHECK(memcmp(&g, &w, 8) == 0 && d.pos() == (long)e.exp.size(), std::string(nm[k]) + "/value", "%a decoded as %a", w, g);
  if (!dbl) { Dec d2(e.exp, off); Heap<float> h; flag ok = big ? Acn_Dec_Real_IEEE754_32_big_endian_fp32(&d2.s, h.p) : Acn_Dec_Real_IEEE754_32_little_endian_fp32(&d2.s, h.p); PBT_CHECK(ok && memcmp(h.p, &f, 4) == 0 && d2.pos() == (long)e.exp.size(), std::string(nm[k]) + "_fp32/value", "%a decoded as %a", f, *h); }
  if (r.coin()) { auto c = cut(r, e.exp, off); Dec d3(c, off); PBT_CHECK(!dec(&d3.s, g), std::string(nm[k]) + "/truncated-accepted", "%zu bytes", c.size()); }
  r.label(nm[k]); r.interesting(fmt("%s %a", nm[k], v));
}
// ---------------------------------------------------------------- patterns
static Vec pat(Src &r, int n) { Vec p((n + 7) / 8); r.fill(p.data(), p.size()); if (n % 8) p.back() &= 0xFF << (8 - n % 8); return p; }
static void flipBit(Vec &p, int i) { p[i / 8] ^= 0x80 >> (i % 8); }
static void pattern(Src &r) {
  int n = 1 + (int)r.below(40); Vec t = pat(r, n), f = t, w = t; for (auto &x : f) x = ~x; if (n % 8) f.back() &= 0xFF << (8 - n % 8); if (r.coin()) { f = t; flipBit(f, (int)r.below(n)); }
  int kind = (int)r.below(3); if (kind == 1) w = f; if (kind == 2) { flipBit(w, (int)r.below(n)); if (w == f) kind = 1; }
  Bits b; int off = (int)r.below(8); b.rep(r.below(2), off); b.bitsOf(w.data(), n);
  { Dec d(b, off); flag v = 7; PBT_CHECK(BitStream_ReadBitPattern(&d.s, t.data(), n, &v), "ReadBitPattern/refused", "%d bits", n); PBT_CHECK((bool)v == (kind == 0), "ReadBitPattern/value", "%d bits %s against %s: %d", n, pbt::hex(w.data(), w.size()).c_str(), pbt::hex(t.data(), t.size()).c_str(), v); PBT_CHECK(d.pos() == off + n, "ReadBitPattern/position", "%ld", d.pos()); }
  { Dec d(b, off); flag v = 7; flag ok = BitStream_DecodeTrueFalseBoolean(&d.s, t.data(), f.data(), n, &v); PBT_CHECK((bool)ok == (kind != 2), "DecodeTrueFalseBoolean/accepts", "%d bits %s true %s false %s: %d", n, pbt::hex(w.data(), w.size()).c_str(), pbt::hex(t.data(), t.size()).c_str(), pbt::hex(f.data(), f.size()).c_str(), ok); if (ok) { PBT_CHECK((bool)v == (kind == 0), "DecodeTrueFalseBoolean/value", "%d", v); PBT_CHECK(d.pos() == off + n, "DecodeTrueFalseBoolean/position", "%ld", d.pos()); } }
  { Dec d(b, off); PBT_CHECK(BitStream_ReadBitPattern_ignore_value(&d.s, n) && d.pos() == off + n, "ReadBitPattern_ignore_value", "%ld", d.pos()); }
  auto c = cut(r, b, off); flag v; { Dec d(c, off); PBT_CHECK(!BitStream_ReadBitPattern(&d.s, t.data(), n, &v), "ReadBitPattern/truncated-accepted", "%zu bytes", c.size()); } { Dec d(c, off); PBT_CHECK(!BitStream_DecodeTrueFalseBoolean(&d.s, t.data(), f.data(), n, &v), "DecodeTrueFalseBoolean/truncated-accepted", "%zu", c.size()); } { Dec d(c, off); PBT_CHECK(!BitStream_ReadBitPattern_ignore_value(&d.s, n), "ReadBitPattern_ignore_value/truncated-accepted", "%zu", c.size()); }
  r.label(kind == 0 ? "true" : kind == 1 ? "false" : "neither"); r.interesting(fmt("%d bits %s", n, kind == 0 ? "true" : kind == 1 ? "false" : "neither"));
}
static void length(Src &r) {
  int n = 1 + (int)r.below(64); uint64_t v = r.u64() & (n == 64 ? ~0ULL : (1ULL << n) - 1); Enc e(r, 64); e.exp.num(v, n); Acn_Enc_Length(&e.s, v, n); e.check("Acn_Enc_Length");
  Dec d(e.exp, e.off); asn1SccUint g = 1; PBT_CHECK(Acn_Dec_Length(&d.s, &g, n) && g == v && d.pos() == (long)e.exp.size(), "Acn_Dec_Length", "%llu in %d bits read as %llu", (unsigned long long)v, n, (unsigned long long)g); r.interesting(fmt("%llu in %d bits", (unsigned long long)v, n));
}
// ---------------------------------------------------------------- strings
struct StrParam { int min, max; Vec term, set; };
static void str(Src &r) {
  int k = (int)r.below(10); StrParam p; p.max = (int)r.below(r.coin() ? 12 : 40); p.min = (int)r.below(p.max + 1);
  static const char *nm[] = {"Ascii_FixSize", "Ascii_Null_Terminated", "Ascii_Null_Terminated_mult", "Ascii_External", "Ascii_Internal", "CharIndex_FixSize", "CharIndex_External", "CharIndex_Internal", "IA5_CharIndex_External", "IA5_CharIndex_Internal"};
  bool ci = k >= 5, fix = k == 0 || k == 5, intr = k == 4 || k == 7 || k == 9, ext = k == 3 || k == 6 || k == 8, term = k == 1 || k == 2;
  if (k >= 8) for (int i = 0; i < 128; i++) p.set.push_back((uint8_t)i);
  else if (ci) { int n = 1 + (int)r.below(r.coin() ? 10 : 127); int c = 1 + (int)r.below(128 - n); for (int i = 0; i < n; i++) { p.set.push_back((uint8_t)c); if (c + 1 + (n - 1 - i) <= 127 && r.coin(1, 3)) c++; c++; if (c > 127) break; } }
  if (term) p.term = k == 1 ? Vec{(uint8_t)r.below(256)} : genTerm(r, true);
  int len = fix ? p.max : p.min + (int)r.below(p.max - p.min + 1); std::string t;
  for (int i = 0; i < len; i++) { char c; if (ci) c = (char)r.pickv(p.set); else if (term && r.coin(1, 4)) c = (char)p.term[r.below(p.term.size())]; else c = (char)(1 + r.below(127)); if (c == 0) c = ci ? (char)p.set[p.set.size() > 1] : 'x'; if (c == 0) throw pbt::Discard(); t += c; }
  Buf in(p.max + 1); memcpy(in.p, t.data(), t.size()); const char *sv = (const char *)in.p; int cw = bitlen(ci ? p.set.size() - 1 : 0), lw = bitlen((uint64_t)(p.max - p.min));
  Enc e(r, (size_t)(p.max + 12) * 8 + 70); int off = e.off;
  if (intr) e.exp.num((uint64_t)(len - p.min), lw);
  for (char c : t) { if (ci) e.exp.num((uint64_t)(std::find(p.set.begin(), p.set.end(), (uint8_t)c) - p.set.begin()), cw); else e.exp.num((uint8_t)c, 8); }
  size_t body = e.exp.size(); e.exp.bytes(p.term.data(), p.term.size());
  Buf st(p.set), tm(p.term); byte *set = st.p; int sn = (int)p.set.size();
  switch (k) {
    case 0: Acn_Enc_String_Ascii_FixSize(&e.s, p.max, sv); break; case 1: Acn_Enc_String_Ascii_Null_Terminated(&e.s, p.max, (char)p.term[0], sv); break;
    case 2: Acn_Enc_String_Ascii_Null_Terminated_mult(&e.s, p.max, tm.p, tm.n, sv); break; case 3: Acn_Enc_String_Ascii_External_Field_Determinant(&e.s, p.max, sv); break;
    case 4: Acn_Enc_String_Ascii_Internal_Field_Determinant(&e.s, p.max, p.min, sv); break; case 5: Acn_Enc_String_CharIndex_FixSize(&e.s, p.max, set, sn, sv); break;
    case 6: Acn_Enc_String_CharIndex_External_Field_Determinant(&e.s, p.max, set, sn, sv); break; case 7: Acn_Enc_String_CharIndex_Internal_Field_Determinant(&e.s, p.max, set, sn, p.min, sv); break;
    case 8: Acn_Enc_IA5String_CharIndex_External_Field_Determinant(&e.s, p.max, sv); break; default: Acn_Enc_IA5String_CharIndex_Internal_Field_Determinant(&e.s, p.max, p.min, sv); }
  e.check(nm[k]);
  auto dec = [&](BitStream *s, Buf &o, int64_t n) -> flag { char *c = (char *)o.p; switch (k) {
    case 0: return Acn_Dec_String_Ascii_FixSize(s, p.max, c); case 1: return Acn_Dec_String_Ascii_Null_Terminated(s, p.max, (char)p.term[0], c); case 2: return Acn_Dec_String_Ascii_Null_Terminated_mult(s, p.max, tm.p, tm.n, c);
    case 3: return Acn_Dec_String_Ascii_External_Field_Determinant(s, p.max, n, c); case 4: return Acn_Dec_String_Ascii_Internal_Field_Determinant(s, p.max, p.min, c); case 5: return Acn_Dec_String_CharIndex_FixSize(s, p.max, set, sn, c);
    case 6: return Acn_Dec_String_CharIndex_External_Field_Determinant(s, p.max, set, sn, n, c); case 7: return Acn_Dec_String_CharIndex_Internal_Field_Determinant(s, p.max, set, sn, p.min, c);
    case 8: return Acn_Dec_IA5String_CharIndex_External_Field_Determinant(s, p.max, n, c); default: return Acn_Dec_IA5String_CharIndex_Internal_Field_Determinant(s, p.max, p.min, c); } };
  std::string w = nm[k]; std::string want = t; long end = (long)e.exp.size();
  if (term) {   // the text ends at the first occurrence of the terminator
    Vec all(t.begin(), t.end()); all.insert(all.end(), p.term.begin(), p.term.end()); auto it = std::search(all.begin(), all.end(), p.term.begin(), p.term.end()); size_t at = it - all.begin(); want = t.substr(0, std::min(at, t.size())); end = off + (long)(at + p.term.size()) * 8; (void)body; if (at > t.size()) PBT_FAIL("oracle", "no terminator"); }
  { Dec d(e.exp, off); Buf o(p.max + 1, 0x5A); flag ok = dec(&d.s, o, len); PBT_CHECK(ok, w + "/refused", "%d of (%d..%d) refused", len, p.min, p.max);
    PBT_CHECK(strnlen((char *)o.p, o.n) < o.n && want == (char *)o.p, w + "/value", "%s decoded as %s", pbt::hex((uint8_t *)want.data(), want.size()).c_str(), pbt::hex(o.p, o.n).c_str());
    PBT_CHECK(d.pos() == end, w + "/position", "consumed %ld of %ld", d.pos() - off, end - off); }
  if (ext) { int64_t n = r.coin() ? p.max + 1 + (int64_t)r.below(1000) : -1 - (int64_t)r.below(1000); Bits big = e.exp; big.rep(0, 8 * 1100); Dec d(big, off); Buf o(p.max + 1); PBT_CHECK(!dec(&d.s, o, n), w + "/wrong-determinant-accepted", "determinant %lld for maximum %d accepted", (long long)n, p.max); }
  if (intr) { uint64_t top = lw ? (1ULL << lw) - 1 : 0; if (top > (uint64_t)(p.max - p.min)) { Bits b; b.num(e.lead, off); b.num(r.uIn(p.max - p.min + 1, top), lw); b.rep(0, 8 * 64); Dec d(b, off); Buf o(p.max + 1); PBT_CHECK(!dec(&d.s, o, 0), w + "/wrong-determinant-accepted", "length above %d accepted", p.max); } }
  if (ci && len > 0) { uint64_t top = (1ULL << cw) - 1; if (top >= (uint64_t)sn) { Bits b; b.num(e.lead, off); if (intr) b.num(len - p.min, lw); int at = (int)r.below(len); for (int i = 0; i < len; i++) b.num(i == at ? r.uIn(sn, top) : 0, cw); Dec d(b, off); Buf o(p.max + 1); PBT_CHECK(!dec(&d.s, o, len), w + "/wrong-character-accepted", "character index outside the alphabet accepted"); } }
  if (term) {   // no terminator within reach
    int n = p.max + 1 + (int)r.below(30); Bits b; b.num(e.lead, off); Vec x(n + p.term.size()); for (auto &c : x) { c = (uint8_t)r.below(256); if (c == p.term[0]) c ^= 1; } b.bytes(x.data(), x.size()); Dec d(b, off); Buf o(p.max + 1); PBT_CHECK(!dec(&d.s, o, 0), w + "/missing-terminator-accepted", "%d characters without terminator accepted for maximum %d", n, p.max); }
  if (!(term && end < (long)e.exp.size()) && e.exp.size() > (size_t)off) { auto c = cut(r, e.exp, off); Dec d(c, off); Buf o(p.max + 1); PBT_CHECK(!dec(&d.s, o, len), w + "/truncated-accepted", "%zu of %zu bytes accepted", c.size(), (e.exp.size() + 7) / 8); }
  r.label(w); if (len > 1) r.interesting(fmt("%s %s in (%d..%d)", nm[k], t.c_str(), p.min, p.max));
}
// bit string with a termination pattern
static void bitsNull(Src &r) {
  int n = (int)r.below(60), pn = 1 + (int)r.below(24), max = n + (int)r.below(10); Vec data = pat(r, n), pt = pat(r, pn);
  if (r.coin()) for (int i = 0; i + pn <= n && i < 30; i += pn + 1 + (int)r.below(5)) for (int j = 0; j < pn - 1; j++) { int x = i + j; bool b = (pt[j / 8] >> (7 - j % 8)) & 1; if (((data[x / 8] >> (7 - x % 8)) & 1) != b) flipBit(data, x); }
  Bits b; int off = (int)r.below(8); b.rep(0, off); b.bitsOf(data.data(), n); b.bitsOf(pt.data(), pn); bool tail = r.coin(); if (tail) b.rep(r.below(2), 1 + (int)r.below(9));
  int at = -1; for (int i = 0; i + pn <= n + pn && at < 0; i++) { bool m = true; for (int j = 0; j < pn && m; j++) m = b.b[off + i + j] == (bool)((pt[j / 8] >> (7 - j % 8)) & 1); if (m) at = i; }
  Dec d(b, off); Buf o((max + 7) / 8); int got = -1; flag ok = BitStream_ReadBits_nullterminated(&d.s, pt.data(), pn, o.p, max, &got);
  PBT_CHECK(ok, "ReadBits_nullterminated/refused", "%d bits, terminator of %d bits, maximum %d", n, pn, max); PBT_CHECK(got == at, "ReadBits_nullterminated/length", "%d bits read, %d before the terminator", got, at);
  for (int i = 0; i < at; i++) PBT_CHECK(((o.p[i / 8] >> (7 - i % 8)) & 1) == b.b[off + i], "ReadBits_nullterminated/value", "bit %d", i);
  PBT_CHECK(d.pos() == off + at + pn, "ReadBits_nullterminated/position", "%ld", d.pos());
  if (at > 0) { int m2 = (int)r.below(at); Dec d2(b, off); Buf o2((m2 + 7) / 8); PBT_CHECK(!BitStream_ReadBits_nullterminated(&d2.s, pt.data(), pn, o2.p, m2, &got), "ReadBits_nullterminated/missing-terminator-accepted", "no terminator within %d bits", m2); r.interesting(fmt("%d bits, terminator of %d bits", at, pn)); }
}

int main(int c, char **v) {
  pbt::Engine e;
  e.checks = {{"P25.integers", intEnc, 900000, 12000000}, {"P25.malformed", intBad, 250000, 4000000}, {"P25.lengths", intVarBad, 3000, 30000}, {"P25.milbus", milbus, 200, 200},
              {"P26.reals", real, 300000, 4000000}, {"P26.patterns", pattern, 200000, 3000000}, {"P26.length", length, 60000, 600000}, {"P26.strings", str, 400000, 6000000}, {"P26.bitsNull", bitsNull, 80000, 1000000}};
  return e.main(c, v);
}
