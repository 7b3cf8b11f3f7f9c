#include "acnint.h"
#include "w32_api.h"
static BitStream st(WPos *p) { BitStream s; BitStream_AttachBuffer(&s, p->buf, p->count); s.currentByte = p->byte; s.currentBit = p->bit; return s; }
static void back(WPos *p, const BitStream &s) { p->byte = s.currentByte; p->bit = s.currentBit; }
struct Op { const char *name; int kind; void (*enc)(BitStream *, const WArgs *); bool (*dec)(BitStream *, const WArgs *, WOut *); };
typedef asn1SccSint SI; typedef asn1SccUint UI;
#define DI(T, CALL) [](BitStream *s, const WArgs *a, WOut *o) -> bool { (void)a; T v = 0; bool k = CALL; o->v = (uint64_t)(int64_t)v; return k; }
#define DU(T, CALL) [](BitStream *s, const WArgs *a, WOut *o) -> bool { (void)a; T v = 0; bool k = CALL; o->v = (uint64_t)v; return k; }
#define DR(CALL) [](BitStream *s, const WArgs *a, WOut *o) -> bool { (void)a; asn1Real v = 0; bool k = CALL; o->d = (double)v; return k; }
static const Op ops[] = {
  {"UnConstraintWholeNumber", K_INT, [](BitStream *s, const WArgs *a) { BitStream_EncodeUnConstraintWholeNumber(s, (SI)a->v); }, DI(SI, BitStream_DecodeUnConstraintWholeNumber(s, &v))},
  {"SemiConstraintWholeNumber", K_SINT, [](BitStream *s, const WArgs *a) { BitStream_EncodeSemiConstraintWholeNumber(s, (SI)a->v, (SI)a->min); }, DI(SI, BitStream_DecodeSemiConstraintWholeNumber(s, &v, (SI)a->min))},
  {"SemiConstraintPosWholeNumber", K_SUINT, [](BitStream *s, const WArgs *a) { BitStream_EncodeSemiConstraintPosWholeNumber(s, (UI)a->uv, (UI)a->umin); }, DU(UI, BitStream_DecodeSemiConstraintPosWholeNumber(s, &v, (UI)a->umin))},
  {"ConstraintWholeNumber", K_CINT, [](BitStream *s, const WArgs *a) { BitStream_EncodeConstraintWholeNumber(s, (SI)a->v, (SI)a->min, (SI)a->max); }, DI(SI, BitStream_DecodeConstraintWholeNumber(s, &v, (SI)a->min, (SI)a->max))},
  {"ConstraintPosWholeNumber", K_CUINT, [](BitStream *s, const WArgs *a) { BitStream_EncodeConstraintPosWholeNumber(s, (UI)a->uv, (UI)a->umin, (UI)a->umax); }, DU(UI, BitStream_DecodeConstraintPosWholeNumber(s, &v, (UI)a->umin, (UI)a->umax))},
  {"Real", K_REAL, [](BitStream *s, const WArgs *a) { BitStream_EncodeReal(s, (asn1Real)a->d); }, DR(BitStream_DecodeReal(s, &v))},
  {"Real64be", K_REAL, [](BitStream *s, const WArgs *a) { Acn_Enc_Real_IEEE754_64_big_endian(s, (asn1Real)a->d); }, DR(Acn_Dec_Real_IEEE754_64_big_endian(s, &v))},
  {"Real64le", K_REAL, [](BitStream *s, const WArgs *a) { Acn_Enc_Real_IEEE754_64_little_endian(s, (asn1Real)a->d); }, DR(Acn_Dec_Real_IEEE754_64_little_endian(s, &v))},
  {"Real32be", K_REAL32, [](BitStream *s, const WArgs *a) { Acn_Enc_Real_IEEE754_32_big_endian(s, (asn1Real)a->d); }, DR(Acn_Dec_Real_IEEE754_32_big_endian(s, &v))},
  {"Real32le", K_REAL32, [](BitStream *s, const WArgs *a) { Acn_Enc_Real_IEEE754_32_little_endian(s, (asn1Real)a->d); }, DR(Acn_Dec_Real_IEEE754_32_little_endian(s, &v))},
  {"OctetString", K_OCT, [](BitStream *s, const WArgs *a) { BitStream_EncodeOctetString(s, a->bytes, a->len, a->min, a->max); }, [](BitStream *s, const WArgs *a, WOut *o) -> bool { return BitStream_DecodeOctetString(s, o->bytes, &o->n, (SI)a->min, (SI)a->max); }},
  {"BitString", K_BITS, [](BitStream *s, const WArgs *a) { BitStream_EncodeBitString(s, a->bytes, a->len, a->min, a->max); }, [](BitStream *s, const WArgs *a, WOut *o) -> bool { return BitStream_DecodeBitString(s, o->bytes, &o->n, (SI)a->min, (SI)a->max); }},
  {"ObjectIdentifier", K_OID, [](BitStream *s, const WArgs *a) { Asn1ObjectIdentifier x; memset(&x, 0, sizeof x); x.nCount = a->arcs; for (int i = 0; i < a->arcs; i++) x.values[i] = (UI)a->arc[i]; ObjectIdentifier_uper_encode(s, &x); }, [](BitStream *s, const WArgs *, WOut *o) -> bool { Asn1ObjectIdentifier x; bool k = ObjectIdentifier_uper_decode(s, &x); if (k) { o->n = x.nCount; for (int i = 0; i < x.nCount; i++) o->arc[i] = x.values[i]; } return k; }},
  {"RelativeOID", K_ROID, [](BitStream *s, const WArgs *a) { Asn1ObjectIdentifier x; memset(&x, 0, sizeof x); x.nCount = a->arcs; for (int i = 0; i < a->arcs; i++) x.values[i] = (UI)a->arc[i]; RelativeOID_uper_encode(s, &x); }, [](BitStream *s, const WArgs *, WOut *o) -> bool { Asn1ObjectIdentifier x; bool k = RelativeOID_uper_decode(s, &x); if (k) { o->n = x.nCount; for (int i = 0; i < x.nCount; i++) o->arc[i] = x.values[i]; } return k; }},
};
static const int N = sizeof ops / sizeof *ops;
static Param par(const WArgs *a) { Param p; p.n = a->n; p.term.assign(a->term, a->term + a->termLen); return p; }
static const WApi api = {
  N + (int)encs.size(), [](int i) { return i < N ? ops[i].name : encs[i - N].name.c_str(); }, [](int i) { return i < N ? ops[i].kind : (int)K_ACN; }, [](int i) { return i < N ? 0 : encs[i - N].pk; }, [](int i) { return i < N ? false : encs[i - N].uns; },
  [](int i) { return i < N ? 1 : (int)encs[i - N].dec.size(); }, [](int i, int d) { return i < N ? 64 : encs[i - N].dec[d].width; }, [](int i, uint64_t v, int n) { Param p; p.n = n; return i < N || encs[i - N].fits(v, p); },
  [](int i, WPos *p, const WArgs *a) { BitStream s = st(p); if (i < N) ops[i].enc(&s, a); else encs[i - N].enc(&s, a->v, par(a)); back(p, s); },
  [](int i, int d, WPos *p, const WArgs *a, WOut *o) { BitStream s = st(p); bool k; if (i < N) k = ops[i].dec(&s, a, o); else k = encs[i - N].dec[d].dec(&s, o->v, par(a)); back(p, s); return k; },
};
extern "C" __attribute__((visibility("default"))) const WApi *w32_api() { return &api; }
