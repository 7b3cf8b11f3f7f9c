// Reference bit-level writer/reader used as oracle, and exact-size buffers whose edges AddressSanitizer guards.
#pragma once
#include "pbt.h"
extern "C" {
#include "asn1crt_encoding.h"
#include "asn1crt_encoding_uper.h"
#include "asn1crt_encoding_acn.h"
}
using pbt::Src; using pbt::fmt;

struct Bits {                       // the oracle's bit string
  std::vector<bool> b;
  void bit(bool x) { b.push_back(x); }
  void num(uint64_t v, int n) { for (int i = n - 1; i >= 0; i--) b.push_back(i < 64 ? (v >> i) & 1 : 0); }
  void snum(int64_t v, int n) { for (int i = n - 1; i >= 0; i--) b.push_back(((i < 64 ? v >> i : v >> 63)) & 1); }
  void rep(bool x, int n) { for (int i = 0; i < n; i++) b.push_back(x); }
  void bytes(const uint8_t *p, size_t n) { for (size_t i = 0; i < n; i++) num(p[i], 8); }
  void bitsOf(const uint8_t *p, size_t n) { for (size_t i = 0; i < n; i++) b.push_back((p[i / 8] >> (7 - i % 8)) & 1); }
  void cat(const Bits &o) { b.insert(b.end(), o.b.begin(), o.b.end()); }
  size_t size() const { return b.size(); }
  std::vector<uint8_t> pack() const { std::vector<uint8_t> r((b.size() + 7) / 8); for (size_t i = 0; i < b.size(); i++) if (b[i]) r[i / 8] |= 0x80 >> (i % 8); return r; }
  std::string str() const { auto p = pack(); return fmt("%zu bits ", b.size()) + pbt::hex(p.data(), p.size()); }
};

struct Buf {                        // malloc'ed with its exact size, so that any access outside is detected
  uint8_t *p; size_t n;
  explicit Buf(size_t n_, int fillv = 0) : n(n_) { p = (uint8_t *)malloc(n ? n : 1); if (n) memset(p, fillv, n); }
  explicit Buf(const std::vector<uint8_t> &v) : Buf(v.size()) { if (n) memcpy(p, v.data(), n); }
  ~Buf() { free(p); }
  Buf(const Buf &) = delete;
};
template <class T> struct Heap {     // a variable of type T alone on the heap
  T *p; Heap(int f = 0xA5) { p = (T *)malloc(sizeof(T)); memset((void *)p, f, sizeof(T)); } ~Heap() { free(p); }
  T &operator*() { return *p; } T *operator->() { return p; }
};

struct Enc {                        // encoder on a fresh buffer with `off` leading random bits already in place
  Bits exp; Buf buf; BitStream s; int off; uint64_t lead;
  Enc(Src &r, size_t maxBits) : buf((maxBits + 7 + 8) / 8 + 1) {
    BitStream_Init(&s, buf.p, (long)buf.n);
    off = (int)r.below(8); lead = r.below(1ULL << off);
    for (int i = off - 1; i >= 0; i--) BitStream_AppendBit(&s, (lead >> i) & 1);
    exp.num(lead, off);
  }
  long pos() const { return s.currentByte * 8 + s.currentBit; }
  void check(const char *what) {
    PBT_CHECK(pos() == (long)exp.size(), std::string(what) + "/length", "%s wrote %ld bits, expected %zu; got %s expected %s", what, pos() - off, exp.size() - off, pbt::hex(buf.p, (pos() + 7) / 8).c_str(), exp.str().c_str());
    auto e = exp.pack(); e.resize(buf.n);
    PBT_CHECK(memcmp(e.data(), buf.p, buf.n) == 0, std::string(what) + "/bits", "%s wrote %s expected %s (offset %d)", what, pbt::hex(buf.p, buf.n).c_str(), exp.str().c_str(), off);
  }
};
struct Dec {                        // decoder on an exact-size copy, positioned after the `off` leading bits
  Buf buf; BitStream s;
  Dec(const Bits &b, int off) : buf(b.pack()) { BitStream_AttachBuffer(&s, buf.p, (long)buf.n); s.currentByte = off / 8; s.currentBit = off % 8; }
  Dec(const std::vector<uint8_t> &v, int off) : buf(v) { BitStream_AttachBuffer(&s, buf.p, (long)buf.n); s.currentByte = off / 8; s.currentBit = off % 8; }
  long pos() const { return s.currentByte * 8 + s.currentBit; }
};
// the same bits cut short by at least one whole byte of data: every item in them must be refused
inline std::vector<uint8_t> cut(Src &r, const Bits &b, int off) {
  // keep fewer bytes than needed to hold all bits
  size_t need = (b.size() + 7) / 8, lo = (size_t)(off + 7) / 8;
  if (need <= lo) throw pbt::Discard();
  auto v = b.pack(); v.resize(lo + r.below(need - lo)); return v;
}
inline int bitlen(uint64_t v) { return v ? 64 - __builtin_clzll(v) : 0; }
inline int ulen(uint64_t v) { int n = (bitlen(v) + 7) / 8; return n ? n : 1; }
inline int slen(int64_t v) { uint64_t u = v < 0 ? ~(uint64_t)v : (uint64_t)v; return bitlen(u) / 8 + 1; }
