// P20: bit stream primitives; P27: alignment and deferred patching
#include "ref.h"

struct Op { int k; uint64_t v; int n; std::vector<uint8_t> d; };
static Op genOp(Src &r) {
  Op o; o.k = (int)r.below(13); o.v = 0; o.n = 0;
  switch (o.k) {
    case 0: o.v = r.below(2); break;
    case 1: case 2: break;
    case 3: case 4: o.n = (int)(r.coin() ? r.below(70) : r.below(12)); break;
    case 5: case 12: o.n = 1 + (int)r.below(7); o.v = r.below(1u << o.n); break;
    case 6: case 7: case 8: o.v = r.below(256); break;
    case 9: case 10: o.n = (int)r.below(r.coin() ? 40 : 5); o.d = r.bytes(o.n); break;
    case 11: o.n = (int)r.below(r.coin() ? 300 : 20); o.d = r.bytes((o.n + 7) / 8); break;
  }
  return o;
}
static const char *opn[] = {"AppendBit", "AppendBitOne", "AppendBitZero", "AppendNBitZero", "AppendNBitOne", "AppendPartialByte", "AppendByte", "AppendByte(neg)", "AppendByte0", "AppendByteArray", "EncodeOctetString_no_length", "AppendBits", "AppendPartialByte(neg)"};
static void expect(Bits &e, const Op &o) {
  switch (o.k) {
    case 0: e.bit(o.v); break; case 1: e.bit(1); break; case 2: e.bit(0); break;
    case 3: e.rep(0, o.n); break; case 4: e.rep(1, o.n); break;
    case 5: e.num(o.v, o.n); break; case 12: e.num(~o.v, o.n); break;
    case 6: case 8: e.num(o.v, 8); break; case 7: e.num(~o.v & 0xFF, 8); break;
    case 9: case 10: e.bytes(o.d.data(), o.d.size()); break;
    case 11: e.bitsOf(o.d.data(), o.n); break;
  }
}
static void apply(BitStream *s, const Op &o) {
  switch (o.k) {
    case 0: BitStream_AppendBit(s, o.v); break; case 1: BitStream_AppendBitOne(s); break; case 2: BitStream_AppendBitZero(s); break;
    case 3: BitStream_AppendNBitZero(s, o.n); break; case 4: BitStream_AppendNBitOne(s, o.n); break;
    case 5: BitStream_AppendPartialByte(s, (byte)o.v, (byte)o.n, 0); break; case 12: BitStream_AppendPartialByte(s, (byte)o.v, (byte)o.n, 1); break;
    case 6: BitStream_AppendByte(s, (byte)o.v, 0); break; case 7: BitStream_AppendByte(s, (byte)o.v, 1); break;
    case 8: PBT_CHECK(BitStream_AppendByte0(s, (byte)o.v), "AppendByte0/refused", "AppendByte0 refused within capacity"); break;
    case 9: PBT_CHECK(BitStream_AppendByteArray(s, o.d.data(), o.n), "AppendByteArray/refused", "AppendByteArray of %d refused within capacity", o.n); break;
    case 10: PBT_CHECK(BitStream_EncodeOctetString_no_length(s, o.d.data(), o.n), "EncodeOctetString_no_length/refused", "refused within capacity"); break;
    case 11: BitStream_AppendBits(s, o.d.data(), o.n); break;
  }
}
static void readOp(BitStream *s, const Bits &all, const Op &o, Src &r) {
  long p = s->currentByte * 8 + s->currentBit; flag v = 2; int n; std::string nm;
  Bits e; expect(e, o); n = (int)e.size();
  auto eq = [&](const uint8_t *g, int nb) { for (int i = 0; i < nb; i++) if (((g[i / 8] >> (7 - i % 8)) & 1) != e.b[i]) return false; return true; };
  switch (o.k) {
    case 0: case 1: case 2:
      PBT_CHECK(BitStream_PeekBit(s) == e.b[0], "PeekBit/value", "peek at %ld", p);
      PBT_CHECK(s->currentByte * 8 + s->currentBit == p, "PeekBit/moves", "peek moved the position");
      PBT_CHECK(BitStream_ReadBit(s, &v), "ReadBit/refused", "bit at %ld of %zu refused", p, all.size());
      PBT_CHECK((v ? 1 : 0) == e.b[0], "ReadBit/value", "bit at %ld", p); break;
    case 5: case 12: { byte g = 0xEE; PBT_CHECK(BitStream_ReadPartialByte(s, &g, (byte)o.n), "ReadPartialByte/refused", "%d bits at %ld of %zu refused", o.n, p, all.size());
      uint64_t w = 0; for (bool x : e.b) w = w * 2 + x; PBT_CHECK(g == w, "ReadPartialByte/value", "%d bits at %ld: %02x expected %02x", o.n, p, g, (int)w); break; }
    case 6: case 7: case 8: { byte g = 0xEE; PBT_CHECK(BitStream_ReadByte(s, &g), "ReadByte/refused", "byte at %ld of %zu refused", p, all.size());
      PBT_CHECK(eq(&g, 8), "ReadByte/value", "byte at %ld: %02x", p, g); break; }
    case 9: { Buf t(o.n); PBT_CHECK(BitStream_ReadByteArray(s, t.p, o.n), "ReadByteArray/refused", "%d bytes at %ld refused", o.n, p); PBT_CHECK(eq(t.p, n), "ReadByteArray/value", "%d bytes at %ld: %s", o.n, p, pbt::hex(t.p, t.n).c_str()); break; }
    case 10: { Buf t(o.n); PBT_CHECK(BitStream_DecodeOctetString_no_length(s, t.p, o.n), "DecodeOctetString_no_length/refused", "%d bytes at %ld refused", o.n, p); PBT_CHECK(eq(t.p, n), "DecodeOctetString_no_length/value", "%d bytes at %ld: %s", o.n, p, pbt::hex(t.p, t.n).c_str()); break; }
    default: { Buf t((n + 7) / 8); PBT_CHECK(BitStream_ReadBits(s, t.p, n), "ReadBits/refused", "%d bits at %ld refused", n, p); PBT_CHECK(eq(t.p, n), "ReadBits/value", "%d bits at %ld: %s", n, p, pbt::hex(t.p, t.n).c_str());
      for (int i = n; i < (int)t.n * 8; i++) PBT_CHECK(!((t.p[i / 8] >> (7 - i % 8)) & 1), "ReadBits/padding", "unused bit %d of the target set", i); break; }
  }
  long q = s->currentByte * 8 + s->currentBit;
  PBT_CHECK(q == p + n, std::string(opn[o.k]) + "/read-position", "reading %d bits moved the position by %ld", n, q - p);
}
static std::string show(const std::vector<Op> &ops) { std::string s; for (auto &o : ops) { s += opn[o.k]; if (o.n) s += fmt("[%d]", o.n); s += " "; if (s.size() > 300) break; } return s; }

static void ops(Src &r) {
  std::vector<Op> v; size_t cnt = 1 + r.below(12); Bits e;
  for (size_t i = 0; i < cnt; i++) { v.push_back(genOp(r)); expect(e, v.back()); }
  size_t need = (e.size() + 7) / 8, extra = r.below(3);
  Buf b(need + extra, 0xCC); BitStream s; BitStream_Init(&s, b.p, (long)b.n);
  Bits cur; bool unal = false;
  for (auto &o : v) {
    if (cur.size() % 8) unal = true;
    apply(&s, o); expect(cur, o);
    PBT_CHECK(s.currentByte * 8 + s.currentBit == (long)cur.size() && s.currentBit >= 0 && s.currentBit < 8, std::string(opn[o.k]) + "/position", "after %s[%d] the position is %ld.%d, expected bit %zu", opn[o.k], o.n, s.currentByte, s.currentBit, cur.size());
    PBT_CHECK(BitStream_GetLength(&s) == (asn1SccSint)((cur.size() + 7) / 8), "GetLength", "length %lld after %zu bits", (long long)BitStream_GetLength(&s), cur.size());
    auto p = cur.pack(); p.resize(b.n);
    PBT_CHECK(memcmp(p.data(), b.p, b.n) == 0, std::string(opn[o.k]) + "/bits", "after %s[%d] at bit %zu: %s expected %s", opn[o.k], o.n, cur.size(), pbt::hex(b.p, b.n).c_str(), pbt::hex(p.data(), p.size()).c_str());
  }
  Dec d(e, 0);
  for (auto &o : v) readOp(&d.s, e, o, r);
  if (unal && cnt >= 3) r.interesting(show(v));
  r.label(unal ? "unaligned" : "aligned");
}
// reading more than is left is refused, at every position
static void pastEnd(Src &r) {
  size_t nb = r.below(6); auto data = r.bytes(nb);
  long pos = (long)r.below(nb * 8 + 1), left = (long)nb * 8 - pos;
  Dec d(data, (int)pos); int k = (int)r.below(6); bool ok = true; int want = 0; const char *nm = "";
  Buf t(16); flag f; byte g;
  switch (k) {
    case 0: if (left >= 1) throw pbt::Discard(); nm = "ReadBit"; want = 1; ok = BitStream_ReadBit(&d.s, &f); break;
    case 1: if (left >= 8) throw pbt::Discard(); nm = "ReadByte"; want = 8; ok = BitStream_ReadByte(&d.s, &g); break;
    case 2: want = (int)(left + 1 + r.below(7)); if (want > 7) throw pbt::Discard(); nm = "ReadPartialByte"; ok = BitStream_ReadPartialByte(&d.s, &g, (byte)want); break;
    case 3: { int n = (int)(left / 8 + 1 + r.below(4)); want = n * 8; nm = "ReadByteArray"; ok = BitStream_ReadByteArray(&d.s, t.p, n); break; }
    case 4: { int n = (int)(left / 8 + 1 + r.below(4)); want = n * 8; nm = "DecodeOctetString_no_length"; ok = BitStream_DecodeOctetString_no_length(&d.s, t.p, n); break; }
    case 5: want = (int)(left + 1 + r.below(20)); nm = "ReadBits"; ok = BitStream_ReadBits(&d.s, t.p, want); break;
  }
  PBT_CHECK(!ok, std::string(nm) + "/past-end-accepted", "%s of %d bits accepted with %ld left", nm, want, left);
  r.label(nm); if (left > 0) r.interesting(fmt("%s of %d bits with %ld left of %zu bytes", nm, want, left, nb));
}
// pattern search
static void patternSearch(Src &r) {
  int pb = 1 + (int)r.below(r.coin() ? 8 : 24); Bits pat; { auto d = r.bytes(4); pat.bitsOf(d.data(), pb); }
  auto pp = pat.pack(); int n = (int)r.below(60); Bits data; { auto d = r.bytes(8); data.bitsOf(d.data(), n); }
  int off = (int)r.below(8); Bits all; all.num(r.below(1u << off), off); all.cat(data); bool term = r.coin(3, 4); if (term) all.cat(pat);
  if (all.size() == 0) throw pbt::Discard();
  int max = (int)r.below(70); Bits stream = all; { auto k = all.pack(); stream.b.resize(k.size() * 8); }  // zero padding up to the byte
  // oracle: the first position at which the pattern occurs, reading at most max bits before it
  int found = -1; for (int i = 0; i <= max; i++) { if ((size_t)(off + i + pb) > stream.size()) break; bool m = true; for (int j = 0; j < pb; j++) if (stream.b[off + i + j] != pat.b[j]) { m = false; break; } if (m) { found = i; break; } }
  Dec d(stream, off); Buf out((max + 7) / 8); int got = -1;
  flag ok = BitStream_ReadBits_nullterminated(&d.s, pp.data(), pb, out.p, max, &got);
  PBT_CHECK(ok == (found >= 0), "nullterminated/result", "result %d, pattern of %d bits %s at %d (max %d)", ok, pb, found >= 0 ? "is" : "is not", found, max);
  if (ok) {
    PBT_CHECK(got == found, "nullterminated/count", "read %d bits, terminator at %d", got, found);
    for (int i = 0; i < got; i++) PBT_CHECK(((out.p[i / 8] >> (7 - i % 8)) & 1) == stream.b[off + i], "nullterminated/bits", "bit %d differs", i);
    PBT_CHECK(d.pos() == off + found + pb, "nullterminated/position", "position %ld", d.pos());
    if (found > 0) r.interesting(fmt("%d bit terminator after %d bits at offset %d", pb, found, off));
  }
  r.label(ok ? "found" : "not found");
}

// ---- P27
static void align(Src &r) {
  int steps = 1 + (int)r.below(5); Bits e; struct St { int n; uint64_t v; int a; }; std::vector<St> st;
  for (int i = 0; i < steps; i++) { St s; s.n = (int)r.below(40); s.v = r.below(1ULL << s.n); s.a = (int)r.below(3); st.push_back(s); }
  Buf b(200); BitStream s; BitStream_Init(&s, b.p, 200);
  auto al = [](int a) { return a == 0 ? 8 : a == 1 ? 16 : 32; }; int ins = 0;
  auto doAl = [](BitStream *x, int a, flag enc) { if (a == 0) Acn_AlignToNextByte(x, enc); else if (a == 1) Acn_AlignToNextWord(x, enc); else Acn_AlignToNextDWord(x, enc); };
  std::vector<long> marks;
  for (auto &x : st) {
    for (int i = x.n - 1; i >= 0; i--) BitStream_AppendBit(&s, (x.v >> i) & 1); e.num(x.v, x.n);
    int m = al(x.a), pad = (m - (int)(e.size() % m)) % m; e.rep(0, pad); ins += pad;
    doAl(&s, x.a, TRUE);
    PBT_CHECK(s.currentByte * 8 + s.currentBit == (long)e.size(), fmt("align%d/encode-position", m), "aligned to bit %ld, expected %zu", s.currentByte * 8 + s.currentBit, e.size());
  }
  e.num(0xA5, 8); BitStream_AppendByte(&s, 0xA5, 0);
  auto p = e.pack(); PBT_CHECK(memcmp(p.data(), b.p, p.size()) == 0, "align/bits", "%s expected %s", pbt::hex(b.p, p.size()).c_str(), pbt::hex(p.data(), p.size()).c_str());
  Dec d(e, 0); long q = 0;
  for (auto &x : st) {
    for (int i = x.n - 1; i >= 0; i--) { flag f; PBT_CHECK(BitStream_ReadBit(&d.s, &f) && (f ? 1u : 0u) == ((x.v >> i) & 1), "align/readback", "bit differs"); }
    q += x.n; int m = al(x.a); q = (q + m - 1) / m * m; doAl(&d.s, x.a, FALSE);
    PBT_CHECK(d.pos() == q, fmt("align%d/decode-position", m), "decoder aligned to %ld, expected %ld", d.pos(), q);
  }
  byte g; PBT_CHECK(BitStream_ReadByte(&d.s, &g) && g == 0xA5, "align/marker", "marker not found");
  if (ins > 0) r.interesting(fmt("%d alignments, %d padding bits", steps, ins));
}
// alignment whose padding is not in the input: the decoder must not get past the end, and whatever follows must be refused
static void alignTrunc(Src &r) {
  size_t nb = 1 + r.below(9); auto data = r.bytes(nb); int a = (int)r.below(3), m = a == 0 ? 8 : a == 1 ? 16 : 32;
  long pos = (long)r.below(nb * 8 + 1); long q = (pos + m - 1) / m * m;
  if (q <= (long)nb * 8) throw pbt::Discard();
  Dec d(data, (int)pos);
  if (a == 0) Acn_AlignToNextByte(&d.s, FALSE); else if (a == 1) Acn_AlignToNextWord(&d.s, FALSE); else Acn_AlignToNextDWord(&d.s, FALSE);
  byte g; flag f; Buf t(4);
  switch (r.below(5)) {
    case 0: PBT_CHECK(!BitStream_ReadByte(&d.s, &g), "alignTrunc/accepted", "byte read after the end"); break;
    case 1: PBT_CHECK(!BitStream_ReadBit(&d.s, &f), "alignTrunc/accepted", "bit read after the end"); break;
    case 2: PBT_CHECK(!BitStream_ReadPartialByte(&d.s, &g, 3), "alignTrunc/accepted", "3 bits read after the end"); break;
    case 3: PBT_CHECK(!BitStream_ReadBits(&d.s, t.p, 17), "alignTrunc/accepted", "17 bits read after the end"); break;
    case 4: PBT_CHECK(!BitStream_DecodeOctetString_no_length(&d.s, t.p, 2), "alignTrunc/accepted", "2 bytes read after the end"); break;
  }
  r.interesting(fmt("align %d at bit %ld of %zu bytes", m, pos, nb));
}

#define DETS(X) X(U8, 8, 0) X(U16_BE, 16, 0) X(U32_BE, 32, 0) X(U64_BE, 64, 0) X(U16_LE, 16, 1) X(U32_LE, 32, 1) X(U64_LE, 64, 1) X(I8, 8, 2) X(I16_BE, 16, 2) X(I32_BE, 32, 2) X(I64_BE, 64, 2) X(BOOL1, 1, 3)
static void patch(Src &r) {
  struct D { int cls, n; AcnInsertedFieldRef ref; size_t at; uint64_t v; std::string str; };
  Bits e; Buf b(600); BitStream s; BitStream_Init(&s, b.p, 600);
  auto junk = [&]() { int n = (int)r.below(23); uint64_t v = r.below(1ULL << n); for (int i = n - 1; i >= 0; i--) BitStream_AppendBit(&s, (v >> i) & 1); e.num(v, n); };
  int nd = 1 + (int)r.below(4); std::vector<D> ds;
  for (int i = 0; i < nd; i++) {
    junk(); D d; d.cls = (int)r.below(15); d.at = e.size(); d.n = 0; memset(&d.ref, 0x5A, sizeof d.ref);
    int k = 0, w = 0;
#define X(nm, bits, kind) if (d.cls == k++) { Acn_InitDet_##nm(&s, &d.ref); w = bits; }
    DETS(X)
#undef X
    if (d.cls == 12) { d.n = 1 + (int)r.below(64); Acn_InitDet_ConstSize(&s, d.n, &d.ref); w = d.n; }
    if (d.cls == 13) { d.n = 1 + (int)r.below(64); Acn_InitDet_TwosComplement_ConstSize(&s, d.n, &d.ref); w = d.n; }
    if (d.cls == 14) { d.n = 1 + (int)r.below(12); Acn_InitDet_IA5String_FixSize(&s, d.n, &d.ref); w = 7 * d.n; }
    e.rep(0, w); ds.push_back(d);
    PBT_CHECK(s.currentByte * 8 + s.currentBit == (long)e.size(), "patch/reserve-size", "class %d reserved %ld bits, expected %d", d.cls, s.currentByte * 8 + s.currentBit - (long)d.at, w);
  }
  junk();
  { auto p = e.pack(); PBT_CHECK(memcmp(p.data(), b.p, p.size()) == 0, "patch/reserve-bits", "reserved %s expected %s", pbt::hex(b.p, p.size()).c_str(), pbt::hex(p.data(), p.size()).c_str()); }
  std::vector<int> order; for (int i = 0; i < nd; i++) order.insert(order.begin() + r.below(i + 1), i);
  for (int i : order) {
    D &d = ds[i]; int err = 0; flag ok = FALSE; int w = 0, kind = -1, k = 0; long p0 = s.currentByte * 8 + s.currentBit;
    auto call = [&](uint64_t v, int *er) -> flag {
      flag res = FALSE; int k = 0;
#define X(nm, bits, knd) if (d.cls == k++) res = Acn_PatchDet_##nm(v, &s, &d.ref, er);
      DETS(X)
#undef X
      if (d.cls == 12) res = Acn_PatchDet_ConstSize(v, &s, d.n, &d.ref, er);
      if (d.cls == 13) res = Acn_PatchDet_TwosComplement_ConstSize(v, &s, d.n, &d.ref, er);
      return res; };
#define X(nm, bits, knd) if (d.cls == k++) { w = bits; kind = knd; }
    DETS(X)
#undef X
    if (d.cls == 12) { w = d.n; kind = 0; } if (d.cls == 13) { w = d.n; kind = 2; }
    if (d.cls == 14) {
      int l = (int)r.below(d.n + 1); for (int c = 0; c < l; c++) d.str += (char)(1 + r.below(127));
      ok = Acn_PatchDet_IA5String_FixSize(d.str.c_str(), &s, d.n, &d.ref, &err);
      for (int c = 0; c < d.n; c++) { int ch = c < l ? d.str[c] : 0x20; for (int j = 0; j < 7; j++) e.b[d.at + c * 7 + j] = (ch >> (6 - j)) & 1; }
      w = 7 * d.n;
    } else {
      uint64_t m = w == 64 ? ~0ULL : (1ULL << w) - 1; d.v = r.uIn(0, m); uint64_t arg = d.v;
      if (kind == 2 && w < 64 && (d.v >> (w - 1))) arg = d.v | ~m;   // signed determinants get sign-extended values
      ok = call(arg, &err);
      for (int j = 0; j < w; j++) { int bitno = w - 1 - j; if (kind == 1) bitno = (j / 8) * 8 + 7 - j % 8; e.b[d.at + j] = (d.v >> bitno) & 1; }
      if (ok && r.coin()) {  // a second reference to the same determinant
        PBT_CHECK(call(arg, &err), "patch/same-refused", "patching the same number again refused");
        uint64_t other = arg ^ 1; int e2 = 0;
        PBT_CHECK(!call(other, &e2) && e2 != 0, "patch/conflict-accepted", "a conflicting number was accepted");
      }
    }
    PBT_CHECK(ok, "patch/refused", "class %d refused", d.cls);
    PBT_CHECK(s.currentByte * 8 + s.currentBit == p0, "patch/position", "patching moved the end position");
    auto p = e.pack(); p.resize(600);
    PBT_CHECK(memcmp(p.data(), b.p, 600) == 0, "patch/bits", "class %d width %d at bit %zu: %s expected %s", d.cls, w, d.at, pbt::hex(b.p, 60).c_str(), pbt::hex(p.data(), 60).c_str());
  }
  AcnBitStreamPos z; z.currentByte = (long)ds[0].at / 8; z.currentBit = (int)(ds[0].at % 8); AcnBitStreamPos en = Acn_BitStream_GetPos(&s); size_t bits = e.size() - ds[0].at;
  PBT_CHECK(Acn_BitStream_DistanceInBits(z, en) == bits && Acn_BitStream_DistanceInBytes(z, en) == (bits + 7) / 8, "patch/distance", "distance differs from %zu bits", bits);
  bool un = false; for (auto &d : ds) un |= d.at % 8 != 0; if (un) r.interesting(fmt("%d determinants, first class %d at bit %zu", nd, ds[0].cls, ds[0].at));
}

int main(int c, char **v) {
  pbt::Engine e;
  e.checks = {{"P20.ops", ops, 400000, 6000000}, {"P20.pastEnd", pastEnd, 150000, 1500000}, {"P20.pattern", patternSearch, 150000, 2000000},
              {"P27.align", align, 150000, 2000000}, {"P27.alignTrunc", alignTrunc, 60000, 400000}, {"P27.patch", patch, 200000, 3000000}};
  return e.main(c, v);
}
