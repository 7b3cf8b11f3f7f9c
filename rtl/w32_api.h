// one runtime build behind a word-size independent interface; w32_api.cpp is compiled once per configuration into its own shared object
#pragma once
#include <cstdint>
#include <cstddef>
struct WArgs { int64_t v, min, max; uint64_t uv, umin, umax; int n; double d; const uint8_t *bytes; int len; int arcs; uint64_t arc[20]; const uint8_t *term; int termLen; };
struct WOut { uint64_t v; double d; int n; uint8_t bytes[512]; uint64_t arc[20]; };
struct WOp { const char *name; int kind; };           // kinds below
enum { K_INT, K_UINT, K_CINT, K_CUINT, K_SINT, K_SUINT, K_REAL, K_REAL32, K_OCT, K_BITS, K_OID, K_ROID, K_ACN };
struct WPos { uint8_t *buf; long count, byte; int bit; };
struct WApi {
  int nops; const char *(*name)(int); int (*kind)(int); int (*pk)(int); bool (*uns)(int); int (*ndec)(int); int (*width)(int, int); bool (*fits)(int, uint64_t, int);
  void (*enc)(int, WPos *, const WArgs *); bool (*dec)(int, int, WPos *, const WArgs *, WOut *);
};
