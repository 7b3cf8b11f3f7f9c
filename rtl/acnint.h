// the ACN integer encodings: encoder, reference writer, range, decoders for every width of the target
#pragma once
#include "ref.h"
// ---------------------------------------------------------------- integer encodings
typedef std::vector<uint8_t> Vec;
struct Param { int n; Vec term; };
struct Var { std::string name; int width; bool uns; std::function<flag(BitStream *, uint64_t &, const Param &)> dec; };   // result sign- or zero-extended
struct IntEnc {
  std::string name; bool uns; int pk;      // pk: 0 none, 1 size in bits, 2 nibbles, 3 bytes, 4 terminator
  std::function<void(BitStream *, uint64_t, const Param &)> enc;
  std::function<void(Bits &, uint64_t, const Param &)> ref;
  std::function<bool(uint64_t, const Param &)> fits;
  std::vector<Var> dec;
};
#define U_(T, CALL) [](BitStream *s, uint64_t &o, const Param &p) { Heap<T> h; flag r = CALL; o = (uint64_t)*h.p; return r; }
#define I_(T, CALL) [](BitStream *s, uint64_t &o, const Param &p) { Heap<T> h; flag r = CALL; o = (uint64_t)(int64_t)*h.p; return r; }
#define UD(F, A) {#F, 64, true, U_(asn1SccUint, F A)}
#define U8D(F, A) {#F "UInt8", 8, true, U_(uint8_t, F##UInt8 A)}
#define U16D(F, A) {#F "UInt16", 16, true, U_(uint16_t, F##UInt16 A)}
#define U32D(F, A) {#F "UInt32", 32, true, U_(uint32_t, F##UInt32 A)}
#define ID(F, A) {#F, 64, false, I_(asn1SccSint, F A)}
#define I8D(F, A) {#F "Int8", 8, false, I_(int8_t, F##Int8 A)}
#define I16D(F, A) {#F "Int16", 16, false, I_(int16_t, F##Int16 A)}
#define I32D(F, A) {#F "Int32", 32, false, I_(int32_t, F##Int32 A)}
#define UALL(F, A) UD(F, A), U8D(F, A), U16D(F, A), U32D(F, A)
#define IALL(F, A) ID(F, A), I8D(F, A), I16D(F, A), I32D(F, A)
#define ENC(F, T, ...) [](BitStream *s, uint64_t v, const Param &p) { (void)p; F(s, (T)v, ##__VA_ARGS__); }
static std::string dec10(uint64_t v) { return std::to_string((unsigned long long)v); }
static int digits(uint64_t v) { return v ? (int)dec10(v).size() : 0; }
static uint64_t mag(uint64_t v) { return (int64_t)v < 0 ? 0 - v : v; }
static void ascii(Bits &b, const std::string &s) { b.bytes((const uint8_t *)s.data(), s.size()); }
static void le(Bits &b, uint64_t v, int n) { for (int i = 0; i < n; i++) b.num((v >> (8 * i)) & 0xFF, 8); }
static void bcd(Bits &b, uint64_t v, int n) { std::string t = v ? dec10(v) : ""; for (int i = 0; i < n - (int)t.size(); i++) b.num(0, 4); for (char c : t) b.num((uint64_t)(c - '0'), 4); }
static std::string pad(uint64_t v, int n) { std::string t = v ? dec10(v) : ""; while ((int)t.size() < n) t = "0" + t; return t; }
static bool ufit(uint64_t v, int bits) { return bits >= 64 || v >> bits == 0; }
static bool ifit(uint64_t v, int bits) { int64_t x = (int64_t)v; return bits >= 64 || (x >= -(1LL << (bits - 1)) && x < (1LL << (bits - 1))); }
#define ANY [](uint64_t, const Param &) { return true; }
static const std::vector<IntEnc> encs = {
  {"PositiveInteger_ConstSize", true, 1, ENC(Acn_Enc_Int_PositiveInteger_ConstSize, asn1SccUint, p.n), [](Bits &b, uint64_t v, const Param &p) { b.num(v, p.n); }, [](uint64_t v, const Param &p) { return ufit(v, p.n); }, {UALL(Acn_Dec_Int_PositiveInteger_ConstSize, (s, h.p, p.n))}},
  {"PositiveInteger_ConstSize_8", true, 0, ENC(Acn_Enc_Int_PositiveInteger_ConstSize_8, asn1SccUint), [](Bits &b, uint64_t v, const Param &) { b.num(v, 8); }, [](uint64_t v, const Param &) { return ufit(v, 8); }, {UD(Acn_Dec_Int_PositiveInteger_ConstSize_8, (s, h.p)), U8D(Acn_Dec_Int_PositiveInteger_ConstSize_8, (s, h.p))}},
  {"PositiveInteger_big_endian_16", true, 0, ENC(Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_16, asn1SccUint), [](Bits &b, uint64_t v, const Param &) { b.num(v, 16); }, [](uint64_t v, const Param &) { return ufit(v, 16); }, {UD(Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16, (s, h.p)), U8D(Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16, (s, h.p)), U16D(Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16, (s, h.p))}},
  {"PositiveInteger_big_endian_32", true, 0, ENC(Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_32, asn1SccUint), [](Bits &b, uint64_t v, const Param &) { b.num(v, 32); }, [](uint64_t v, const Param &) { return ufit(v, 32); }, {UALL(Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32, (s, h.p))}},
  {"PositiveInteger_big_endian_64", true, 0, ENC(Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_64, asn1SccUint), [](Bits &b, uint64_t v, const Param &) { b.num(v, 64); }, ANY, {UALL(Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64, (s, h.p))}},
  {"PositiveInteger_little_endian_16", true, 0, ENC(Acn_Enc_Int_PositiveInteger_ConstSize_little_endian_16, asn1SccUint), [](Bits &b, uint64_t v, const Param &) { le(b, v, 2); }, [](uint64_t v, const Param &) { return ufit(v, 16); }, {UD(Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_16, (s, h.p)), U8D(Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_16, (s, h.p)), U16D(Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_16, (s, h.p))}},
  {"PositiveInteger_little_endian_32", true, 0, ENC(Acn_Enc_Int_PositiveInteger_ConstSize_little_endian_32, asn1SccUint), [](Bits &b, uint64_t v, const Param &) { le(b, v, 4); }, [](uint64_t v, const Param &) { return ufit(v, 32); }, {UALL(Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32, (s, h.p))}},
  {"PositiveInteger_little_endian_64", true, 0, ENC(Acn_Enc_Int_PositiveInteger_ConstSize_little_endian_64, asn1SccUint), [](Bits &b, uint64_t v, const Param &) { le(b, v, 8); }, ANY, {UALL(Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64, (s, h.p))}},
  {"PositiveInteger_VarSize", true, 0, ENC(Acn_Enc_Int_PositiveInteger_VarSize_LengthEmbedded, asn1SccUint), [](Bits &b, uint64_t v, const Param &) { b.num(ulen(v), 8); b.num(v, 8 * ulen(v)); }, ANY, {UALL(Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbedded, (s, h.p))}},
  {"TwosComplement_ConstSize", false, 1, ENC(Acn_Enc_Int_TwosComplement_ConstSize, asn1SccSint, p.n), [](Bits &b, uint64_t v, const Param &p) { b.snum((int64_t)v, p.n); }, [](uint64_t v, const Param &p) { return ifit(v, p.n); }, {IALL(Acn_Dec_Int_TwosComplement_ConstSize, (s, h.p, p.n))}},
  {"TwosComplement_ConstSize_8", false, 0, ENC(Acn_Enc_Int_TwosComplement_ConstSize_8, asn1SccSint), [](Bits &b, uint64_t v, const Param &) { b.num(v, 8); }, [](uint64_t v, const Param &) { return ifit(v, 8); }, {ID(Acn_Dec_Int_TwosComplement_ConstSize_8, (s, h.p)), I8D(Acn_Dec_Int_TwosComplement_ConstSize_8, (s, h.p))}},
  {"TwosComplement_big_endian_16", false, 0, ENC(Acn_Enc_Int_TwosComplement_ConstSize_big_endian_16, asn1SccSint), [](Bits &b, uint64_t v, const Param &) { b.num(v, 16); }, [](uint64_t v, const Param &) { return ifit(v, 16); }, {ID(Acn_Dec_Int_TwosComplement_ConstSize_big_endian_16, (s, h.p)), I8D(Acn_Dec_Int_TwosComplement_ConstSize_big_endian_16, (s, h.p)), I16D(Acn_Dec_Int_TwosComplement_ConstSize_big_endian_16, (s, h.p))}},
  {"TwosComplement_big_endian_32", false, 0, ENC(Acn_Enc_Int_TwosComplement_ConstSize_big_endian_32, asn1SccSint), [](Bits &b, uint64_t v, const Param &) { b.num(v, 32); }, [](uint64_t v, const Param &) { return ifit(v, 32); }, {IALL(Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32, (s, h.p))}},
  {"TwosComplement_big_endian_64", false, 0, ENC(Acn_Enc_Int_TwosComplement_ConstSize_big_endian_64, asn1SccSint), [](Bits &b, uint64_t v, const Param &) { b.num(v, 64); }, ANY, {IALL(Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64, (s, h.p))}},
  {"TwosComplement_little_endian_16", false, 0, ENC(Acn_Enc_Int_TwosComplement_ConstSize_little_endian_16, asn1SccSint), [](Bits &b, uint64_t v, const Param &) { le(b, v, 2); }, [](uint64_t v, const Param &) { return ifit(v, 16); }, {ID(Acn_Dec_Int_TwosComplement_ConstSize_little_endian_16, (s, h.p)), I8D(Acn_Dec_Int_TwosComplement_ConstSize_little_endian_16, (s, h.p)), I16D(Acn_Dec_Int_TwosComplement_ConstSize_little_endian_16, (s, h.p))}},
  {"TwosComplement_little_endian_32", false, 0, ENC(Acn_Enc_Int_TwosComplement_ConstSize_little_endian_32, asn1SccSint), [](Bits &b, uint64_t v, const Param &) { le(b, v, 4); }, [](uint64_t v, const Param &) { return ifit(v, 32); }, {IALL(Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32, (s, h.p))}},
  {"TwosComplement_little_endian_64", false, 0, ENC(Acn_Enc_Int_TwosComplement_ConstSize_little_endian_64, asn1SccSint), [](Bits &b, uint64_t v, const Param &) { le(b, v, 8); }, ANY, {IALL(Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64, (s, h.p))}},
  {"TwosComplement_VarSize", false, 0, ENC(Acn_Enc_Int_TwosComplement_VarSize_LengthEmbedded, asn1SccSint), [](Bits &b, uint64_t v, const Param &) { int n = slen((int64_t)v); b.num(n, 8); b.snum((int64_t)v, 8 * n); }, ANY, {IALL(Acn_Dec_Int_TwosComplement_VarSize_LengthEmbedded, (s, h.p))}},
  {"BCD_ConstSize", true, 2, ENC(Acn_Enc_Int_BCD_ConstSize, asn1SccUint, p.n), [](Bits &b, uint64_t v, const Param &p) { bcd(b, v, p.n); }, [](uint64_t v, const Param &p) { return digits(v) <= p.n; }, {UALL(Acn_Dec_Int_BCD_ConstSize, (s, h.p, p.n))}},
  {"BCD_VarSize_LengthEmbedded", true, 0, ENC(Acn_Enc_Int_BCD_VarSize_LengthEmbedded, asn1SccUint), [](Bits &b, uint64_t v, const Param &) { b.num(digits(v), 8); bcd(b, v, digits(v)); }, ANY, {UALL(Acn_Dec_Int_BCD_VarSize_LengthEmbedded, (s, h.p))}},
  {"BCD_VarSize_NullTerminated", true, 0, ENC(Acn_Enc_Int_BCD_VarSize_NullTerminated, asn1SccUint), [](Bits &b, uint64_t v, const Param &) { bcd(b, v, digits(v)); b.num(15, 4); }, ANY, {UALL(Acn_Dec_Int_BCD_VarSize_NullTerminated, (s, h.p))}},
  {"UInt_ASCII_ConstSize", true, 3, ENC(Acn_Enc_UInt_ASCII_ConstSize, asn1SccUint, p.n), [](Bits &b, uint64_t v, const Param &p) { ascii(b, pad(v, p.n)); }, [](uint64_t v, const Param &p) { return digits(v) <= p.n; }, {UALL(Acn_Dec_UInt_ASCII_ConstSize, (s, h.p, p.n))}},
  {"UInt_ASCII_VarSize_LengthEmbedded", true, 0, ENC(Acn_Enc_UInt_ASCII_VarSize_LengthEmbedded, asn1SccUint), [](Bits &b, uint64_t v, const Param &) { b.num(dec10(v).size(), 8); ascii(b, dec10(v)); }, ANY, {UALL(Acn_Dec_UInt_ASCII_VarSize_LengthEmbedded, (s, h.p))}},
  {"UInt_ASCII_VarSize_NullTerminated", true, 4, ENC(Acn_Enc_UInt_ASCII_VarSize_NullTerminated, asn1SccUint, p.term.data(), p.term.size()), [](Bits &b, uint64_t v, const Param &p) { ascii(b, dec10(v)); b.bytes(p.term.data(), p.term.size()); }, ANY, {UALL(Acn_Dec_UInt_ASCII_VarSize_NullTerminated, (s, h.p, p.term.data(), p.term.size()))}},
  {"SInt_ASCII_ConstSize", false, 3, ENC(Acn_Enc_SInt_ASCII_ConstSize, asn1SccSint, p.n), [](Bits &b, uint64_t v, const Param &p) { ascii(b, (int64_t)v < 0 ? "-" : "+"); ascii(b, pad(mag(v), p.n - 1)); }, [](uint64_t v, const Param &p) { return digits(mag(v)) <= p.n - 1; }, {IALL(Acn_Dec_SInt_ASCII_ConstSize, (s, h.p, p.n))}},
  {"SInt_ASCII_VarSize_LengthEmbedded", false, 0, ENC(Acn_Enc_SInt_ASCII_VarSize_LengthEmbedded, asn1SccSint), [](Bits &b, uint64_t v, const Param &) { std::string t = ((int64_t)v < 0 ? "-" : "+") + dec10(mag(v)); b.num(t.size(), 8); ascii(b, t); }, ANY, {IALL(Acn_Dec_SInt_ASCII_VarSize_LengthEmbedded, (s, h.p))}},
  {"SInt_ASCII_VarSize_NullTerminated", false, 4, ENC(Acn_Enc_SInt_ASCII_VarSize_NullTerminated, asn1SccSint, p.term.data(), p.term.size()), [](Bits &b, uint64_t v, const Param &p) { ascii(b, ((int64_t)v < 0 ? "-" : "+") + dec10(mag(v))); b.bytes(p.term.data(), p.term.size()); }, ANY, {IALL(Acn_Dec_SInt_ASCII_VarSize_NullTerminated, (s, h.p, p.term.data(), p.term.size()))}},
};
