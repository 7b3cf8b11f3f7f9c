// P29: streaming mode (-DASN1SCC_STREAMING): a cyclic buffer of any size transports what one large buffer holds.
#include "acnint.h"
typedef std::string Str;
struct Sink { Vec out; Vec in; size_t at = 0; long pushes = 0; };
extern "C" void pushData(BitStream *s, void *p) { Sink *k = (Sink *)p; k->out.insert(k->out.end(), s->buf, s->buf + s->count); k->pushes++; }
extern "C" void fetchData(BitStream *s, void *p) { Sink *k = (Sink *)p; for (long i = 0; i < s->count; i++) s->buf[i] = k->at < k->in.size() ? k->in[k->at++] : 0xEE; k->pushes++; }
template <class T> static Str raw(const T &v) { return Str((const char *)&v, sizeof(T)); }
struct Item { Str name; std::function<bool(BitStream *)> enc; std::function<bool(BitStream *, Str &)> dec; size_t maxBits; };
static Vec bytesOf(Src &r, int n) { Vec v(n); for (auto &x : v) x = (uint8_t)(r.coin(1, 3) ? r.pick({0, 255}) : (int)r.below(256)); return v; }
#define V_(T, CALL) [=](BitStream *s, Str &o) -> bool { T v = 0; bool k = CALL; if (k) o = raw(v); return k; }
#define E_(CALL) [=](BitStream *s) -> bool { CALL; return true; }
enum { ALIGN = 1, TERM = 2, FRAG = 4 };
static Item gen(Src &r, int allow) {
  switch (r.below(26)) {
    case 0: { flag b = r.coin(); return {"AppendBit", E_(BitStream_AppendBit(s, b)), [=](BitStream *s, Str &o) { flag v = 0; bool k = BitStream_ReadBit(s, &v); o = v ? "1" : "0"; return k; }, 1}; }
    case 1: { flag b = r.coin(); return {"AppendBitOneZero", [=](BitStream *s) { if (b) BitStream_AppendBitOne(s); else BitStream_AppendBitZero(s); return true; }, [=](BitStream *s, Str &o) { flag v = 0; bool k = BitStream_ReadBit(s, &v); o = v ? "1" : "0"; return k; }, 1}; }
    case 2: { int n = 1 + (int)r.below(7); byte v0 = (byte)r.below(1u << n); return {"PartialByte", E_(BitStream_AppendPartialByte(s, v0, (byte)n, FALSE)), V_(byte, BitStream_ReadPartialByte(s, &v, (byte)n)), (size_t)n}; }
    case 3: case 4: { byte v0 = (byte)r.below(256); return {"Byte", E_(BitStream_AppendByte(s, v0, FALSE)), V_(byte, BitStream_ReadByte(s, &v)), 8}; }
    case 5: { byte v0 = (byte)r.below(256); return {"Byte0", [=](BitStream *s) -> bool { return BitStream_AppendByte0(s, v0); }, V_(byte, BitStream_ReadByte(s, &v)), 8}; }
    case 6: { int n = (int)r.below(80); bool one = r.coin(); return {one ? "NBitOne" : "NBitZero", [=](BitStream *s) { if (one) BitStream_AppendNBitOne(s, n); else BitStream_AppendNBitZero(s, n); return true; }, [=](BitStream *s, Str &o) { Vec t((n + 7) / 8 + 1); bool k = BitStream_ReadBits(s, t.data(), n); o = Str((char *)t.data(), t.size()); return k; }, (size_t)n}; }
    case 7: { Vec d = bytesOf(r, (int)r.below(12)); int n = (int)r.below(8 * d.size() + 1); return {"Bits", E_(BitStream_AppendBits(s, d.data(), n)), [=](BitStream *s, Str &o) { Vec t(d.size() + 1); bool k = BitStream_ReadBits(s, t.data(), n); o = Str((char *)t.data(), t.size()); return k; }, (size_t)n}; }
    case 8: { Vec d = bytesOf(r, (int)r.below(20)); return {"ByteArray", [=](BitStream *s) -> bool { return BitStream_AppendByteArray(s, d.data(), (int)d.size()); }, [=](BitStream *s, Str &o) -> bool { Vec t(d.size() + 1); bool k = BitStream_ReadByteArray(s, t.data(), (int)d.size()); o = Str((char *)t.data(), t.size()); return k; }, 8 * d.size()}; }
    case 9: { Vec d = bytesOf(r, (int)r.below(r.coin(1, 8) ? 200 : 20)); return {"OctetString_no_length", [=](BitStream *s) -> bool { return BitStream_EncodeOctetString_no_length(s, d.data(), (int)d.size()); }, [=](BitStream *s, Str &o) -> bool { Vec t(d.size() + 1); bool k = BitStream_DecodeOctetString_no_length(s, t.data(), (int)d.size()); o = Str((char *)t.data(), t.size()); return k; }, 8 * d.size()}; }
    case 10: { int n = (int)r.below(20), mx = r.coin() ? n : n + (int)r.below(300), mn = (int)r.below(n + 1); if (r.coin()) mn = mx == n ? n : 0; if ((allow & FRAG) && r.coin(1, 20)) { n = (int)r.pick({16383, 16384, 20000, 70000}); mn = 0; mx = 80000; } Vec d = bytesOf(r, 1); uint8_t k0 = d[0]; d.resize(n); for (int i = 0; i < n; i++) d[i] = (uint8_t)(k0 + i * 7); return {"OctetString", [=](BitStream *s) -> bool { return BitStream_EncodeOctetString(s, d.data(), n, mn, mx); }, [=](BitStream *s, Str &o) -> bool { Vec t(mx + 1); int c = 0; bool k = BitStream_DecodeOctetString(s, t.data(), &c, mn, mx); o = raw(c) + Str((char *)t.data(), t.size()); return k; }, 8u * (n + 16)}; }
    case 11: { int n = (int)r.below(90), mx = r.coin() ? n : n + (int)r.below(300), mn = r.coin() ? (mx == n ? n : 0) : (int)r.below(n + 1); if ((allow & FRAG) && r.coin(1, 20)) { n = (int)r.pick({16383, 16384, 20000, 66001}); mn = 0; mx = 80000; } Vec d = bytesOf(r, 1); uint8_t k0 = d[0]; d.resize((n + 7) / 8 + 1); for (size_t i = 0; i < d.size(); i++) d[i] = (uint8_t)(k0 + i * 7); return {"BitString", [=](BitStream *s) -> bool { return BitStream_EncodeBitString(s, d.data(), n, mn, mx); }, [=](BitStream *s, Str &o) -> bool { Vec t((mx + 7) / 8 + 1); int c = 0; bool k = BitStream_DecodeBitString(s, t.data(), &c, mn, mx); o = raw(c) + Str((char *)t.data(), t.size()); return k; }, 8u * (n / 8 + 16)}; }
    case 12: { asn1SccSint x = r.i64(); return {"UnConstraintWholeNumber", E_(BitStream_EncodeUnConstraintWholeNumber(s, x)), V_(asn1SccSint, BitStream_DecodeUnConstraintWholeNumber(s, &v)), 72}; }
    case 13: { asn1SccSint x = r.i64(), m = x - (asn1SccSint)r.below(1000); if (m > x) m = x; return {"SemiConstraintWholeNumber", E_(BitStream_EncodeSemiConstraintWholeNumber(s, x, m)), V_(asn1SccSint, BitStream_DecodeSemiConstraintWholeNumber(s, &v, m)), 72}; }
    case 14: { asn1SccUint x = r.u64(), m = r.coin() ? 0 : x; return {"SemiConstraintPosWholeNumber", E_(BitStream_EncodeSemiConstraintPosWholeNumber(s, x, m)), V_(asn1SccUint, BitStream_DecodeSemiConstraintPosWholeNumber(s, &v, m)), 72}; }
    case 15: { asn1SccSint a = r.i64(), b = r.i64(); if (r.coin()) { a = r.iIn(-300, 300); b = r.iIn(-300, 300); } if (a > b) std::swap(a, b); asn1SccSint x = r.iIn(a, b); return {"ConstraintWholeNumber", E_(BitStream_EncodeConstraintWholeNumber(s, x, a, b)), V_(asn1SccSint, BitStream_DecodeConstraintWholeNumber(s, &v, a, b)), 64}; }
    case 16: { asn1SccUint a = r.u64(), b = r.u64(); if (r.coin()) { a = r.below(300); b = r.below(3000); } if (a > b) std::swap(a, b); asn1SccUint x = r.uIn(a, b); return {"ConstraintPosWholeNumber", E_(BitStream_EncodeConstraintPosWholeNumber(s, x, a, b)), V_(asn1SccUint, BitStream_DecodeConstraintPosWholeNumber(s, &v, a, b)), 64}; }
    case 17: { uint64_t q = r.u64(); double d; memcpy(&d, &q, 8); if (!(d == d) || r.coin(1, 4)) d = (double)r.iIn(-1000, 1000) / 8; return {"Real", E_(BitStream_EncodeReal(s, d)), V_(asn1Real, BitStream_DecodeReal(s, &v)), 128}; }
    case 18: { Asn1ObjectIdentifier x; memset(&x, 0, sizeof x); x.nCount = 2 + (int)r.below(6); for (int i = 0; i < x.nCount; i++) x.values[i] = i == 0 ? r.below(3) : i == 1 ? r.below(40) : r.u64() >> r.below(64); return {"ObjectIdentifier", E_(ObjectIdentifier_uper_encode(s, &x)), [=](BitStream *s, Str &o) -> bool { Asn1ObjectIdentifier v; bool k = ObjectIdentifier_uper_decode(s, &v); if (k) o = Str((char *)v.values, v.nCount * sizeof(v.values[0])); return k; }, 800}; }
    case 19: { uint64_t q = r.u64(); double d; memcpy(&d, &q, 8); bool le = r.coin(); if (!(d == d)) d = 1.5; return {le ? "Real64le" : "Real64be", [=](BitStream *s) { if (le) Acn_Enc_Real_IEEE754_64_little_endian(s, d); else Acn_Enc_Real_IEEE754_64_big_endian(s, d); return true; }, [=](BitStream *s, Str &o) -> bool { asn1Real v = 0; bool k = le ? Acn_Dec_Real_IEEE754_64_little_endian(s, &v) : Acn_Dec_Real_IEEE754_64_big_endian(s, &v); o = raw(v); return k; }, 64}; }
    case 20: { int n = (int)r.below(20); Vec d = bytesOf(r, n); Str t; for (auto x : d) t += (char)(x % 127 + 1); t.resize(n); int mx = n + (int)r.below(10); return {"AsciiInternal", E_(Acn_Enc_String_Ascii_Internal_Field_Determinant(s, mx, 0, t.c_str())), [=](BitStream *s, Str &o) -> bool { Vec v(mx + 1); bool k = Acn_Dec_String_Ascii_Internal_Field_Determinant(s, mx, 0, (char *)v.data()); o = Str((char *)v.data()); return k; }, 8u * (n + 4)}; }
    case 21: if (allow & TERM) { int n = (int)r.below(20); Vec d = bytesOf(r, n); Str t; for (auto x : d) t += (char)(x % 100 + 20); t.resize(n); Vec tm(1 + r.below(4)); for (auto &x : tm) x = (uint8_t)r.below(13); int mx = n + (int)r.below(10); return {"AsciiTerm", E_(Acn_Enc_String_Ascii_Null_Terminated_mult(s, mx, tm.data(), tm.size(), t.c_str())), [=](BitStream *s, Str &o) -> bool { Vec v(mx + 1); bool k = Acn_Dec_String_Ascii_Null_Terminated_mult(s, mx, tm.data(), tm.size(), (char *)v.data()); o = Str((char *)v.data()); return k; }, 8u * (n + 6)}; } [[fallthrough]];
    case 22: if (allow & ALIGN) { int w = (int)r.below(3); return {"Align", [=](BitStream *s) { if (w == 0) Acn_AlignToNextByte(s, TRUE); else if (w == 1) Acn_AlignToNextWord(s, TRUE); else Acn_AlignToNextDWord(s, TRUE); return true; }, [=](BitStream *s, Str &) { if (w == 0) Acn_AlignToNextByte(s, FALSE); else if (w == 1) Acn_AlignToNextWord(s, FALSE); else Acn_AlignToNextDWord(s, FALSE); return true; }, 32}; } [[fallthrough]];
    default: {
      const IntEnc &e = encs[r.below(encs.size())]; uint64_t v0 = r.u64(); Param p; p.n = e.pk == 1 ? 1 + (int)r.below(64) : e.pk == 2 ? 1 + (int)r.below(19) : 2 + (int)r.below(18); p.term = {0};
      for (int i = 0; i < 70 && !e.fits(v0, p); i++) v0 = e.uns ? v0 >> 1 : (uint64_t)((int64_t)v0 >> 1); if (!e.fits(v0, p)) v0 = 0;
      if (!e.uns && v0 == 1ULL << 63) v0++;
      auto f = e.enc; auto g = e.dec[0].dec; return {e.name, [=](BitStream *s) { f(s, v0, p); return true; }, [=](BitStream *s, Str &o) { uint64_t v = 0; bool k = g(s, v, p); o = raw(v); return k; }, 256}; }
  }
}
static void run(Src &r, int allow, int size) {
  int n = 1 + (int)r.below(10); std::vector<Item> it; size_t mx = 64; for (int i = 0; i < n; i++) { it.push_back(gen(r, allow)); mx += it.back().maxBits + 16; }
  Buf big(mx / 8 + 1); BitStream a; BitStream_Init(&a, big.p, (long)big.n); std::vector<bool> ok; Str seq;
  for (auto &x : it) { bool k = x.enc(&a); if (!k) throw pbt::Discard(); seq += x.name + " "; }
  Vec want(big.p, big.p + BitStream_GetLength(&a));
  Sink k; Buf small(size); BitStream s; BitStream_Init2(&s, small.p, size, &k, &k);
  std::vector<long> ends;
  for (auto &x : it) { bool q = x.enc(&s); PBT_CHECK(q, "encode-refused/" + x.name, "%s refused with a buffer of %d octets after %zu pushed octets (%s)", x.name.c_str(), size, k.out.size(), seq.c_str()); PBT_CHECK(s.currentByte >= 0 && s.currentByte <= size, "encode-position/" + x.name, "position %ld with a buffer of %d", s.currentByte, size); ends.push_back((long)k.out.size() * 8 + s.currentByte * 8 + s.currentBit); }
  Vec got(k.out); got.insert(got.end(), small.p, small.p + BitStream_GetLength(&s));
  if (got != want) { size_t d = 0; while (d < got.size() && d < want.size() && got[d] == want[d]) d++; Str nm = "end"; for (size_t i = 0; i < it.size(); i++) if (ends[i] > (long)d * 8) { nm = it[i].name; break; } PBT_CHECK(false, "encode/" + nm, "buffer of %d octets: delivered %s, expected %s (first difference at octet %zu; %s)", size, pbt::hex(got.data(), std::min<size_t>(got.size(), 200)).c_str(), pbt::hex(want.data(), std::min<size_t>(want.size(), 200)).c_str(), d, seq.c_str()); }
  // decoding
  BitStream b; Buf whole(want); BitStream_AttachBuffer(&b, whole.p, (long)whole.n); Sink f; f.in = want; Buf sm(size); BitStream d; BitStream_AttachBuffer2(&d, sm.p, size, &f, &f); fetchData(&d, &f);
  for (auto &x : it) {
    Str o1, o2; bool k1 = x.dec(&b, o1), k2 = x.dec(&d, o2);
    if (!k1) throw pbt::Discard();
    PBT_CHECK(k2, "decode-refused/" + x.name, "%s refused with a buffer of %d octets (%s; %s)", x.name.c_str(), size, pbt::hex(want.data(), std::min<size_t>(want.size(), 200)).c_str(), seq.c_str());
    PBT_CHECK(o1 == o2, "decode/" + x.name, "%s read as %s with a buffer of %d octets, expected %s (%s)", x.name.c_str(), pbt::hex((uint8_t *)o2.data(), std::min<size_t>(o2.size(), 64)).c_str(), size, pbt::hex((uint8_t *)o1.data(), std::min<size_t>(o1.size(), 64)).c_str(), seq.c_str());
  }
  if (k.pushes) r.interesting(fmt("buffer %d, %ld pushes: %s", size, k.pushes, seq.substr(0, 100).c_str()));
  r.label(k.pushes > 3 ? "many pushes" : k.pushes ? "pushes" : "no push");
}
static int genSize(Src &r) { return r.coin(3, 4) ? 1 + (int)r.below(16) : 1 + (int)r.below(300); }
static void items(Src &r) { run(r, 0, genSize(r)); }
static void align(Src &r) { run(r, ALIGN, 4 * (1 + (int)r.below(10))); }
static void term(Src &r) { run(r, TERM, genSize(r)); }
static void frag(Src &r) { run(r, FRAG, r.coin() ? genSize(r) : 1 + (int)r.below(20000)); }
// recorded findings: alignment to words counts from the start of the buffer, and a pattern that straddles its end is not found
static void retag(Src &r, int allow, int size, const char *tag) { try { run(r, allow, size); } catch (pbt::Fail &f) { f.tag = tag; throw; } }
static void oddalign(Src &r) { int n = 4 * (int)r.below(10) + 1; retag(r, ALIGN, n, "buffer-not-of-whole-words"); }
static void pattern(Src &r) {
  int n = (int)r.below(12), size = genSize(r), off = (int)r.below(8), pb = 1 + (int)r.below(32); Vec pat(4); for (auto &x : pat) x = (uint8_t)r.below(256); Vec d(n); for (auto &x : d) x = (uint8_t)r.below(256);
  Bits w; w.num(r.below(1u << off), off); w.bytes(d.data(), d.size()); w.bitsOf(pat.data(), pb);
  auto read = [&](BitStream *s, Str &o) -> bool { Vec t(1); if (!BitStream_ReadBits(s, t.data(), off)) return false; for (;;) { int k = BitStream_checkBitPatternPresent(s, pat.data(), pb); if (k == 2) return true; if (k == 0) return false; byte b; if (o.size() > d.size() + 8 || !BitStream_ReadByte(s, &b)) return false; o += (char)b; } };
  Vec want = w.pack(); Buf whole(want); BitStream b; BitStream_AttachBuffer(&b, whole.p, (long)whole.n); Sink f; f.in = want; Buf sm(size); BitStream q; BitStream_AttachBuffer2(&q, sm.p, size, &f, &f); fetchData(&q, &f);
  Str o1, o2; bool k1 = read(&b, o1); if (!k1) throw pbt::Discard(); bool k2 = read(&q, o2);
  PBT_CHECK(k2 && o1 == o2, "straddles-buffer-end", "pattern of %d bits after %zu octets at bit %d, buffer of %d octets: found %d", pb, o1.size(), off, size, k2);
  if (n) r.interesting(fmt("%d octets, pattern of %d bits, buffer %d", n, pb, size));
}
int main(int c, char **v) {
  pbt::Engine e;
  e.checks = {{"P29.items", items, 250000, 5000000}, {"P29.align", align, 60000, 1000000}, {"P29.terminator", term, 60000, 1000000}, {"P29.fragments", frag, 20000, 300000}, {"P29.oddalign", oddalign, 30000, 300000}, {"P29.pattern", pattern, 60000, 1000000}};
  return e.main(c, v);
}
