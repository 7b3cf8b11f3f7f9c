// P32: runtimes built for 4-byte words (and single-precision reals) against the runtime built for 8-byte words.
#include "pbt.h"
#include "w32_api.h"
#include <dlfcn.h>
#include <unistd.h>
#include <cmath>
using pbt::Src; using pbt::fmt;
typedef std::string Str; typedef std::vector<uint8_t> Vec;
static const WApi *load(const char *n) {
  static std::map<Str, const WApi *> m; if (m.count(n)) return m[n];
  char b[4096]; ssize_t k = readlink("/proc/self/exe", b, sizeof b - 1); b[k] = 0; Str p(b); p = p.substr(0, p.rfind('/')) + "/" + n + ".so";
  void *h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); abort(); }
  auto f = (const WApi *(*)())dlsym(h, "w32_api"); return m[n] = f();
}
struct Mem { uint8_t *p; explicit Mem(size_t n) : p((uint8_t *)calloc(n ? n : 1, 1)) {} ~Mem() { free(p); } };
static void args(Src &r, const WApi *w, int op, WArgs &a, Vec &store, bool narrow) {
  int k = w->kind(op); memset(&a, 0, sizeof a); a.term = (const uint8_t *)"\0\r"; a.termLen = 1 + (int)r.coin();
  auto si = [&] { return narrow ? r.iIn(INT32_MIN, INT32_MAX) : r.i64(); }; auto ui = [&] { return narrow ? r.uIn(0, UINT32_MAX) : r.u64(); };
  a.v = si(); a.min = si(); a.max = si(); a.uv = ui(); a.umin = ui(); a.umax = ui();
  if (r.coin(1, 3)) { a.min = r.iIn(-200, 200); a.max = a.min + (int64_t)r.below(300); a.v = r.iIn(a.min, a.max); a.umin = r.below(100); a.umax = a.umin + r.below(300); a.uv = r.uIn(a.umin, a.umax); }
  int64_t s[3] = {a.v, a.min, a.max}; std::sort(s, s + 3); a.min = s[0]; a.v = s[1]; a.max = s[2]; uint64_t u[3] = {a.uv, a.umin, a.umax}; std::sort(u, u + 3); a.umin = u[0]; a.uv = u[1]; a.umax = u[2];
  if (k == K_SINT && narrow && a.min < 0 && a.v - a.min > INT32_MAX) a.min = a.v - (int64_t)r.below(INT32_MAX);
  switch (k) {
    case K_REAL: case K_REAL32: { uint64_t q = r.u64(); memcpy(&a.d, &q, 8); if (r.coin()) a.d = (double)r.iIn(-100000, 100000) / 64; if (r.coin(1, 4)) a.d = r.pick({0.0, -0.0, (double)INFINITY, -(double)INFINITY, 1.0, 0.1, 300.0, 1e300, 5e-324}); if (a.d != a.d) a.d = 2.5; break; }
    case K_OCT: case K_BITS: { int n = (int)r.below(200); store.resize(256); for (auto &x : store) x = (uint8_t)r.below(256); a.bytes = store.data(); a.len = n; a.min = r.coin() ? 0 : n; a.max = r.coin() ? n : n + (int)r.below(100); if (a.max < a.len) a.max = a.len; if (r.coin(1, 4)) { a.min = 0; a.max = k == K_OCT ? 70000 : 70000; } break; }
    case K_OID: case K_ROID: { a.arcs = (k == K_OID ? 2 : 1) + (int)r.below(10); for (int i = 0; i < a.arcs; i++) a.arc[i] = narrow ? r.uIn(0, UINT32_MAX) : r.u64(); if (k == K_OID) { a.arc[0] = r.below(3); a.arc[1] = r.below(a.arc[0] == 2 ? 1000 : 40); } break; }
    case K_ACN: { int pk = w->pk(op); a.n = pk == 1 ? 1 + (int)r.below(64) : pk == 2 ? 1 + (int)r.below(19) : pk == 3 ? 2 + (int)r.below(18) : 0; if (w->uns(op)) a.v = (int64_t)a.uv; for (int i = 0; i < 70 && !w->fits(op, (uint64_t)a.v, a.n); i++) a.v = w->uns(op) ? (int64_t)((uint64_t)a.v >> 1) : a.v >> 1; if (!w->fits(op, (uint64_t)a.v, a.n)) a.v = 0; break; }
    default: break; }
}
static bool same(int k, const WOut &x, const WOut &y, bool f32) {
  switch (k) {
    case K_REAL: case K_REAL32: { double a = x.d, b = f32 ? (double)(float)y.d : y.d; if (f32) a = (double)(float)a; return memcmp(&a, &b, 8) == 0 || (f32 && a == b); }
    case K_OCT: return x.n == y.n && !memcmp(x.bytes, y.bytes, x.n);
    case K_BITS: return x.n == y.n && !memcmp(x.bytes, y.bytes, x.n / 8);
    case K_OID: case K_ROID: return x.n == y.n && !memcmp(x.arc, y.arc, x.n * 8);
    default: return x.v == y.v; }
}
static Str hx(const uint8_t *p, size_t n) { return pbt::hex(p, n); }
static void go(Src &r, const char *cfg, bool f32) {
  const WApi *w8 = load("w8"), *w4 = load(cfg); int op = (int)r.below(w8->nops), k = w8->kind(op); Str nm = w8->name(op); WArgs a; Vec st; args(r, w8, op, a, st, true);
  bool real = k == K_REAL || k == K_REAL32;
  if (f32 && real) { a.d = (double)(float)a.d; }
  const long N = 400; int off = (int)r.below(8); Mem b8(N), b4(N); WPos p8{b8.p, N, 0, off}, p4{b4.p, N, 0, off};
  w8->enc(op, &p8, &a); w4->enc(op, &p4, &a); long e8 = p8.byte * 8 + p8.bit, e4 = p4.byte * 8 + p4.bit;
  bool subn = false, skipBits = false; if (f32 && real && k == K_REAL) skipBits = true;   // the 24-bit mantissa is written in fewer octets: the value counts
  (void)subn;
  if (!skipBits) PBT_CHECK(e8 == e4 && !memcmp(b8.p, b4.p, N), "encode/" + nm, "%s writes %s (%ld bits), the 8-byte build %s (%ld bits); value %lld/%llu/%.17g, %d", cfg, hx(b4.p, (e4 + 7) / 8).c_str(), e4, hx(b8.p, (e8 + 7) / 8).c_str(), e8, (long long)a.v, (unsigned long long)a.uv, a.d, a.n);
  int d = (int)r.below(w8->ndec(op)); if (d >= w4->ndec(op)) d = 0;
  auto exact = [&](uint8_t *src, long e) { return Vec(src, src + (e + 7) / 8); };
  for (int dir = 0; dir < 2; dir++) {
    Vec v = exact(dir ? b4.p : b8.p, dir ? e4 : e8); Mem x8(v.size()), x4(v.size()); memcpy(x8.p, v.data(), v.size()); memcpy(x4.p, v.data(), v.size());
    WPos q8{x8.p, (long)v.size(), 0, off}, q4{x4.p, (long)v.size(), 0, off}; WOut o8, o4; memset(&o8, 0, sizeof o8); memset(&o4, 0, sizeof o4);
    bool k8 = w8->dec(op, d, &q8, &a, &o8), k4 = w4->dec(op, d, &q4, &a, &o4);
    PBT_CHECK(k8 == k4, "decode-accept/" + nm, "%s says %d, the 8-byte build %d for %s at bit %d (width %d)", cfg, k4, k8, hx(v.data(), v.size()).c_str(), off, w8->width(op, d));
    if (k8) PBT_CHECK(same(k, o4, o8, f32) && q8.byte == q4.byte && q8.bit == q4.bit, "decode/" + nm, "%s reads %lld/%.17g up to bit %ld, the 8-byte build %lld/%.17g up to %ld, from %s at bit %d", cfg, (long long)o4.v, o4.d, q4.byte * 8 + q4.bit, (long long)o8.v, o8.d, q8.byte * 8 + q8.bit, hx(v.data(), v.size()).c_str(), off);
    if (!skipBits) break;
  }
  if (e8 - off > 8) r.interesting(fmt("%s %lld/%llu/%.6g: %s", nm.c_str(), (long long)a.v, (unsigned long long)a.uv, a.d, hx(b8.p, (e8 + 7) / 8).c_str()));
  r.label(k == K_ACN ? "ACN integer" : nm);
}
static void words(Src &r) { go(r, "w4", false); }
static void floats(Src &r) { go(r, "w8f4", true); }
static void both(Src &r) { go(r, "w4f4", true); }
// what an 8-byte build writes for any value is decoded to that value or refused, and a cut message is refused
static void wide(Src &r) {
  const WApi *w8 = load("w8"), *w4 = load("w4"); int op = (int)r.below(w8->nops), k = w8->kind(op); Str nm = w8->name(op); WArgs a; Vec st; args(r, w8, op, a, st, r.coin(1, 4));
  if (k == K_CINT || k == K_CUINT || k == K_SINT || k == K_SUINT) { if (a.min < INT32_MIN || a.max > INT32_MAX || a.umax > UINT32_MAX) throw pbt::Discard(); }
  const long N = 400; int off = (int)r.below(8); Mem b8(N); WPos p8{b8.p, N, 0, off}; w8->enc(op, &p8, &a); long e8 = p8.byte * 8 + p8.bit;
  if (r.coin(1, 8)) for (int i = 0; i < 4; i++) b8.p[r.below((e8 + 7) / 8)] ^= (uint8_t)(1 << r.below(8));
  long len = (e8 + 7) / 8; if (r.coin(1, 6)) len = (long)r.below(len + 1); if (off && len == 0) len = 1; int d = 0;
  Mem x8(len), x4(len); memcpy(x8.p, b8.p, len); memcpy(x4.p, b8.p, len); WPos q8{x8.p, len, 0, off}, q4{x4.p, len, 0, off}; WOut o8, o4; memset(&o8, 0, sizeof o8); memset(&o4, 0, sizeof o4);
  bool k8 = w8->dec(op, d, &q8, &a, &o8), k4 = w4->dec(op, d, &q4, &a, &o4); Str in = hx(b8.p, len);
  bool fits = true; if (k8) switch (k) { case K_INT: case K_SINT: fits = (int64_t)o8.v >= INT32_MIN && (int64_t)o8.v <= INT32_MAX; break; case K_SUINT: fits = o8.v <= UINT32_MAX; break; case K_ACN: fits = w8->uns(op) ? o8.v <= UINT32_MAX : (int64_t)o8.v >= INT32_MIN && (int64_t)o8.v <= INT32_MAX; break; case K_OID: case K_ROID: for (int i = 0; i < o8.n; i++) if (o8.arc[i] > UINT32_MAX) fits = false; break; default: break; }
  if (!k8) PBT_CHECK(!k4, "wide-accept/" + nm, "accepted although the 8-byte build refuses: %s at bit %d", in.c_str(), off);
  else if (k4) PBT_CHECK(fits && same(k, o4, o8, false) && q8.byte == q4.byte && q8.bit == q4.bit, "wide-value/" + nm, "read as %lld/%.17g, is %lld/%.17g: %s at bit %d", (long long)o4.v, o4.d, (long long)o8.v, o8.d, in.c_str(), off);
  else PBT_CHECK(!fits || len * 8 < e8 || nm.find("VarSize") != Str::npos || nm.find("ConstraintWhole") != Str::npos || nm.find("ConstraintPos") != Str::npos || k == K_OID || k == K_ROID, "wide-refused/" + nm, "refused although the value fits: %s at bit %d", in.c_str(), off);
  if (e8 - off > 16) r.interesting(fmt("%s: %s", nm.c_str(), in.c_str())); r.label(k4 ? "accepted" : "refused");
}
int main(int c, char **v) {
  pbt::Engine e;
  e.checks = {{"P32.words", words, 300000, 6000000}, {"P32.wide", wide, 300000, 6000000}, {"P32.floats", floats, 120000, 2000000}, {"P32.both", both, 120000, 2000000}};
  return e.main(c, v);
}
