// P31: XER primitives: well-formed elements, round trips, structure, arbitrary text
#include "ref.h"
extern "C" {
#include "asn1crt_encoding_xer.h"
}
#include <cmath>
#include <cerrno>
typedef std::vector<uint8_t> Vec; typedef std::string S;
static S show(const S &t) { S o; for (unsigned char c : t.substr(0, 200)) { if (c >= 32 && c < 127) o += (char)c; else o += fmt("\\x%02x", c); } return o; }
static uint8_t bigBuf[400000];     // kept zeroed between uses
struct Big { ByteStream s; Big() { s.buf = bigBuf; s.count = sizeof bigBuf; s.currentByte = 0; s.EncodeWhiteSpace = 0; } ~Big() { memset(bigBuf, 0, std::min(sizeof bigBuf, (size_t)s.currentByte + 1000)); } S text() { return S((char *)bigBuf, (char *)bigBuf + s.currentByte); } };
struct BS { Buf b; ByteStream s; explicit BS(size_t n) : b(n) { ByteStream_Init(&s, b.p, (long)n); } explicit BS(const S &v) : b(Vec(v.begin(), v.end())) { s.EncodeWhiteSpace = 0; ByteStream_AttachBuffer(&s, b.p, (long)v.size()); } S text() { return S((char *)b.p, (char *)b.p + s.currentByte); } };
static S genName(Src &r) { static const char f[] = "abcXYZ_", g[] = "abcXYZ0189-_."; int n = r.coin(1, 12) ? 40 + (int)r.below(60) : 1 + (int)r.below(8); S t(1, f[r.below(7)]); while ((int)t.size() < n) t += g[r.below(13)]; if (t.size() > 99) t.resize(99); return t; }
enum K { NUL, INT, UINT, BOOL, ENUM, REAL, STR, OCT, BIT, OID, NK };
static const char *kn[] = {"Null", "Integer", "PosInteger", "Boolean", "Enumerated", "Real", "String", "OctetString", "BitString", "ObjectIdentifier"};
struct Item { K k; int64_t i = 0; uint64_t u = 0; double d = 0; S t; Vec v; int n = 0; Asn1ObjectIdentifier o; };
static flag enc(ByteStream *s, const char *tag, const Item &x, int *e, int lv) {
  switch (x.k) { case NUL: return Xer_EncodeNull(s, tag, 0, e, lv); case INT: return Xer_EncodeInteger(s, tag, x.i, e, lv); case UINT: return Xer_EncodePosInteger(s, tag, x.u, e, lv); case BOOL: return Xer_EncodeBoolean(s, tag, (flag)x.i, e, lv);
    case ENUM: return Xer_EncodeEnumerated(s, tag, x.t.c_str(), e, lv); case REAL: return Xer_EncodeReal(s, tag, x.d, e, lv); case STR: return Xer_EncodeString(s, tag, x.t.c_str(), e, lv);
    case OCT: return Xer_EncodeOctetString(s, tag, x.v.data(), x.n, e, lv); case BIT: return Xer_EncodeBitString(s, tag, x.v.data(), x.n, e, lv); default: return Xer_EncodeObjectIdentifier(s, tag, &x.o, e, lv); }
}
static flag dec(ByteStream *s, const char *tag, K k, int cap, Item &o, int *e) {   // targets of exactly the announced size
  o.k = k; flag ok;
  switch (k) {
    case NUL: { Heap<NullType> h; ok = Xer_DecodeNull(s, tag, h.p, e); break; }
    case INT: { Heap<asn1SccSint> h; ok = Xer_DecodeInteger(s, tag, h.p, e); o.i = *h; break; }
    case UINT: { Heap<asn1SccUint> h; ok = Xer_DecodePosInteger(s, tag, h.p, e); o.u = *h; break; }
    case BOOL: { Heap<flag> h(0); ok = Xer_DecodeBoolean(s, tag, h.p, e); o.i = *h; break; }
    case ENUM: { Buf b(100, 0xA5); ok = Xer_DecodeEnumerated(s, tag, (char *)b.p, e); if (ok) o.t = S((char *)b.p, strnlen((char *)b.p, 100)); break; }
    case REAL: { Heap<asn1Real> h; ok = Xer_DecodeReal(s, tag, h.p, e); o.d = *h; break; }
    case STR: { Buf b(cap + 1, 0xA5); ok = Xer_DecodeString(s, tag, (char *)b.p, cap + 1, e); if (ok) { size_t n = strnlen((char *)b.p, cap + 1); PBT_CHECK((int)n <= cap, "DecodeString/unterminated", "no terminator"); o.t = S((char *)b.p, n); } break; }
    case OCT: { Buf b(cap, 0xA5); o.n = -1; ok = Xer_DecodeOctetString(s, tag, b.p, cap, &o.n, e); if (ok) { PBT_CHECK(o.n >= 0 && o.n <= cap, "DecodeOctetString/count", "%d octets for a target of %d", o.n, cap); o.v.assign(b.p, b.p + o.n); } break; }
    case BIT: { Buf b((cap + 7) / 8, 0xA5); o.n = -1; ok = Xer_DecodeBitString(s, tag, b.p, cap, &o.n, e); if (ok) { PBT_CHECK(o.n >= 0 && o.n <= cap, "DecodeBitString/count", "%d bits for a target of %d", o.n, cap); o.v.assign(b.p, b.p + (o.n + 7) / 8); } break; }
    default: { Heap<Asn1ObjectIdentifier> h; ok = Xer_DecodeObjectIdentifier(s, tag, h.p, e); if (ok) PBT_CHECK(h->nCount >= 0 && h->nCount <= OBJECT_IDENTIFIER_MAX_LENGTH, "DecodeObjectIdentifier/count", "%d arcs", h->nCount); o.o = *h; }
  }
  return ok;
}
static bool same(const Item &a, const Item &b) {
  switch (a.k) { case NUL: return true; case INT: return a.i == b.i; case UINT: return a.u == b.u; case BOOL: return (a.i != 0) == (b.i != 0); case ENUM: case STR: return a.t == b.t; case REAL: return memcmp(&a.d, &b.d, 8) == 0 || (std::isnan(a.d) && std::isnan(b.d));
    case OCT: return a.n == b.n && a.v == b.v; case BIT: { if (a.n != b.n) return false; for (int i = 0; i < a.n; i++) if (((a.v[i / 8] ^ b.v[i / 8]) >> (7 - i % 8)) & 1) return false; return true; }
    default: return a.o.nCount == b.o.nCount && std::equal(a.o.values, a.o.values + a.o.nCount, b.o.values); }
}
static double genD(Src &r) { uint64_t b; double d; switch (r.below(6)) { case 0: return (double)r.range(-300, 300); case 1: return std::ldexp(1.0 + (double)r.below(4) / 4, (int)r.range(-1074, 1023)); case 2: return (double)r.i64() * 0.001; case 3: return r.coin() ? INFINITY : -INFINITY; case 4: return r.coin() ? 0.0 : -0.0;
    default: b = r.raw(0, pbt::splitmix(r.rng)); memcpy(&d, &b, 8); return d; } }
static int genLen(Src &r) { static const std::vector<int> l = {0, 1, 2, 127, 128, 255, 511, 512, 513, 1023, 1024, 2047, 2048, 2049}; return r.coin(1, 8) ? r.pickv(l) : (int)r.below(40); }
static Item genItem(Src &r, K k) {
  Item x; x.k = k; uint64_t st;
  switch (k) { case INT: x.i = r.coin() ? r.i64() : -r.i64(); break; case UINT: x.u = r.u64(); break; case BOOL: x.i = (int64_t)r.below(2); break; case ENUM: x.t = genName(r); break; case REAL: x.d = genD(r); break;
    case STR: { x.n = genLen(r); st = r.raw(0, pbt::splitmix(r.rng)); static const char sp[] = "<>&\"'/= \n\t;a?!-&<&lt;]"; bool hard = r.coin(); for (int i = 0; i < x.n; i++) { uint64_t q = pbt::splitmix(st); x.t += hard ? sp[q % (sizeof sp - 1)] : (char)(1 + q % 127); } break; }
    case OCT: x.n = genLen(r); x.v.resize(x.n); break; case BIT: x.n = genLen(r); x.v.resize((x.n + 7) / 8); break;
    case OID: { memset(&x.o, 0, sizeof x.o); x.o.nCount = 1 + (int)r.below(20); for (int i = 0; i < x.o.nCount; i++) x.o.values[i] = r.u64(); break; } default: break; }
  st = r.raw(0, pbt::splitmix(r.rng)); for (auto &c : x.v) c = (uint8_t)pbt::splitmix(st);
  return x;
}
static S unesc(const S &c) { static const char *n[] = {"&lt;", "&gt;", "&amp;", "&quot;", "&apos;"}; S o; for (size_t i = 0; i < c.size();) { bool h = false; if (c[i] == '&') for (int k = 0; k < 5; k++) if (c.compare(i, strlen(n[k]), n[k]) == 0) { o += "<>&\"'"[k]; i += strlen(n[k]); h = true; break; } if (!h) o += c[i++]; } return o; }
// one element, nothing else: <tag>contents</tag> or <tag/>
static bool element(const S &t, const S &tag, S &c) {
  if (t == "<" + tag + "/>") { c = ""; return true; }
  S a = "<" + tag + ">", z = "</" + tag + ">"; if (t.size() < a.size() + z.size() || t.compare(0, a.size(), a) || t.compare(t.size() - z.size(), z.size(), z)) return false;
  c = t.substr(a.size(), t.size() - a.size() - z.size()); return true;
}
static bool contents(const S &c, const Item &x) {
  if (x.k != BOOL && x.k != ENUM && c.find('<') != S::npos) return false;
  for (size_t i = 0; i < c.size(); i++) if (c[i] == '&' && c.compare(i, 4, "&lt;") && c.compare(i, 4, "&gt;") && c.compare(i, 5, "&amp;") && c.compare(i, 6, "&quot;") && c.compare(i, 6, "&apos;")) return false;
  S h;
  switch (x.k) { case NUL: return c.empty(); case INT: return c == std::to_string((long long)x.i); case UINT: return c == std::to_string((unsigned long long)x.u); case BOOL: return c == (x.i ? "<true/>" : "<false/>"); case ENUM: return c == "<" + x.t + "/>";
    case REAL: { if (std::isnan(x.d)) return !c.empty(); char *e; double d = strtod(c.c_str(), &e); return !c.empty() && *e == 0 && memcmp(&d, &x.d, 8) == 0; }
    case STR: return unesc(c) == x.t; case OCT: for (int i = 0; i < x.n; i++) h += fmt("%02X", x.v[i]); { S u; for (char q : c) u += (char)toupper(q); return u == h; } case BIT: for (int i = 0; i < x.n; i++) h += (x.v[i / 8] >> (7 - i % 8)) & 1 ? '1' : '0'; return c == h;
    default: for (int i = 0; i < x.o.nCount; i++) h += (i ? "." : "") + std::to_string((unsigned long long)x.o.values[i]); return c == h; }
}
static S space(Src &r) { S t; int n = (int)r.below(4); while (n--) t += " \n\t\r"[r.below(4)]; return t; }
static S junk(Src &r) { S t = space(r); if (r.coin(1, 6)) t += "<!-- " + S(r.below(20), '-' == 0 ? 'x' : 'y') + " <a> -->"; else return t; return t + space(r); }
static void values(Src &r) {
  K k = (K)r.below(NK); Item x = genItem(r, k); S tag = genName(r), nm = S("Encode") + kn[k], dn = S("Decode") + kn[k]; bool bare = (k == BOOL || k == ENUM) && r.coin(1, 4); bool ws = r.coin(); int lv = (int)r.range(-1, 3), e = 0; S t, c;
  const char *tg = bare ? (r.coin() ? "" : nullptr) : tag.c_str();
  { Big b; b.s.EncodeWhiteSpace = ws; PBT_CHECK(enc(&b.s, tg, x, &e, lv), nm + "/refused", "refused with a large buffer, error %d", e); t = b.text(); }
  size_t a = 0, z = t.size(); if (ws) { while (a < z && t[a] == ' ') a++; if (z > a && t[z - 1] == '\n') z--; } S el = t.substr(a, z - a);
  if (bare) { S want = k == BOOL ? (x.i ? "true" : "false") : x.t; PBT_CHECK(el == "<" + want + "/>", nm + "/text", "written as %s", show(t).c_str()); }
  else { PBT_CHECK(element(el, tag, c), nm + "/element", "not one element %s: %s", tag.c_str(), show(t).c_str()); PBT_CHECK(contents(c, x), nm + "/contents", "%lld %s is written as %s", (long long)x.i, show(x.t).c_str(), show(t).c_str()); }
  { BS b(t.size() + 1); b.s.EncodeWhiteSpace = ws; PBT_CHECK(enc(&b.s, tg, x, &e, lv) && b.text() == t, nm + "/exact-size-refused", "%zu characters in a buffer of %zu", t.size(), t.size() + 1); }
  { size_t room = r.coin() ? t.size() - 1 : r.below(t.size()); if (t.size() - room <= 1 && ws) room = room ? room - 1 : 0; BS b(room); b.s.EncodeWhiteSpace = ws; e = 0; flag ok = enc(&b.s, tg, x, &e, lv); PBT_CHECK(!ok, nm + "/over-end-accepted", "%zu characters accepted in a buffer of %zu", t.size(), room); PBT_CHECK(b.s.currentByte <= (long)room, nm + "/position", "position %ld in %zu", b.s.currentByte, room); }
  int cap = (k == STR || k == OCT || k == BIT ? x.n : 0) + (r.coin() ? 0 : (int)r.below(20)); S lead = junk(r), tail = r.coin() ? "<x>" : r.coin() ? " " : "";
  { BS b(lead + t + tail); Item o; flag ok = dec(&b.s, tg, k, cap, o, &e); PBT_CHECK(ok, dn + "/refused", "%s refused, error %d", show(lead + t + tail).c_str(), e); PBT_CHECK(same(x, o), dn + "/value", "%s decoded as %lld %g %s, %d items", show(t).c_str(), (long long)o.i, o.d, show(o.t).c_str(), o.n);
    PBT_CHECK(b.s.currentByte == (long)(lead.size() + z) || (b.s.currentByte > (long)(lead.size() + z) && b.s.currentByte <= (long)(lead + t).size()), dn + "/position", "%ld of %zu", b.s.currentByte, (lead + t).size()); }
  { BS b(t.substr(0, r.below(z))); Item o; PBT_CHECK(!dec(&b.s, tg, k, cap, o, &e), dn + "/truncated-accepted", "%ld of %zu characters accepted", b.s.count, t.size()); }
  if ((k == STR || k == OCT || k == BIT) && x.n > 0) { int small = (int)r.below(x.n); BS b(t); Item o; PBT_CHECK(!dec(&b.s, tg, k, small, o, &e), dn + "/over-long-accepted", "%d items accepted for a target of %d", x.n, small); }
  if (!bare) { S other = genName(r); if (other != tag) { BS b(t); Item o; PBT_CHECK(!dec(&b.s, other.c_str(), k, cap, o, &e), dn + "/wrong-tag-accepted", "%s accepted as %s", show(t).c_str(), other.c_str()); } }
  r.label(kn[k]); if (el.size() > 5) r.interesting(show(el));
}
struct Node { S tag; bool leaf = false; Item x; std::vector<Node> ch; std::vector<std::pair<S, S>> at; };
static Node genTree(Src &r, int d) { Node n; n.tag = genName(r).substr(0, 30); if (d == 0 || r.coin(1, 3)) { n.leaf = true; n.x = genItem(r, (K)r.below(NK)); return n; } int k = (int)r.below(4); while (k--) n.ch.push_back(genTree(r, d - 1)); if (r.coin(1, 4)) { k = 1 + (int)r.below(3); while (k--) n.at.push_back({genName(r).substr(0, 49), genName(r)}); } return n; }
static bool encT(ByteStream *s, const Node &n, int *e, int lv) {
  if (n.leaf) return enc(s, n.tag.c_str(), n.x, e, lv);
  XmlAttributeArray a; memset(&a, 0, sizeof a); for (auto &p : n.at) { strcpy(a.attrs[a.nCount].Name, p.first.c_str()); strcpy(a.attrs[a.nCount].Value, p.second.c_str()); a.nCount++; }
  if (!Xer_EncodeComplexElementStart(s, n.tag.c_str(), n.at.empty() ? nullptr : &a, e, lv)) return false;
  for (auto &c : n.ch) if (!encT(s, c, e, lv + 1)) return false;
  return Xer_EncodeComplexElementEnd(s, n.tag.c_str(), e, lv);
}
static bool decT(ByteStream *s, const Node &n) {
  int e = 0; long p = s->currentByte; Buf name(100, 0xA5);
  if (n.at.empty()) { if (!Xer_NextStartElementIs(s, n.tag.c_str()) || !Xer_LA_NextElementTag(s, (char *)name.p) || n.tag != (char *)name.p) return false; }
  if (Xer_NextEndElementIs(s, n.tag.c_str()) || Xer_NextStartElementIs(s, (n.tag + "q").c_str()) || s->currentByte != p) return false;
  if (n.leaf) { Item o; int cap = n.x.n; return dec(s, n.tag.c_str(), n.x.k, cap, o, &e) && same(n.x, o); }
  Heap<XmlAttributeArray> a; a->nCount = 0;
  if (!Xer_DecodeComplexElementStart(s, n.tag.c_str(), n.at.empty() ? nullptr : a.p, &e)) return false;
  if (!n.at.empty()) { if (a->nCount != (int)n.at.size()) return false; for (int i = 0; i < a->nCount; i++) if (n.at[i].first != a->attrs[i].Name || n.at[i].second != a->attrs[i].Value) return false; }
  for (auto &c : n.ch) if (!decT(s, c)) return false;
  p = s->currentByte; if (!Xer_NextEndElementIs(s, n.tag.c_str()) || Xer_NextEndElementIs(s, (n.tag + "q").c_str()) || s->currentByte != p) return false;
  return Xer_DecodeComplexElementEnd(s, n.tag.c_str(), &e);
}
static int count(const Node &n) { int c = 1; for (auto &x : n.ch) c += count(x); return c; }
static const char *TMPD = "/tmp";
static void structure(Src &r) {
  Node n = genTree(r, 1 + (int)r.below(3)); bool ws = r.coin(); int e = 0; S t, hdr; Big b; b.s.EncodeWhiteSpace = ws;
  if (r.coin(1, 3)) { Xer_EncodeXmlHeader(&b.s, r.coin() ? nullptr : "<?xml version=\"1.0\"?>"); r.label("header"); }
  if (r.coin(1, 4)) { PBT_CHECK(Xer_EncodeComment(&b.s, " a <b> - c ", &e), "EncodeComment/refused", "refused"); r.label("comment"); }
  PBT_CHECK(encT(&b.s, n, &e, 0), "document/refused", "refused"); t = b.text();
  { BS d(t); PBT_CHECK(decT(&d.s, n), "document/round-trip", "%s at %ld", show(t).c_str(), d.s.currentByte); }
  // white space and comments between the markup of complex elements
  bool str = false; std::function<void(const Node &)> hasStr = [&](const Node &q) { if (q.leaf && q.x.k == STR) str = true; for (auto &c : q.ch) hasStr(c); }; hasStr(n); size_t full = t.size(); S orig = t;
  if (!str && r.coin()) { S u; for (size_t i = 0; i < t.size(); i++) { if (t[i] == '<' && i > 0 && t[i - 1] == '>' && r.coin(1, 4)) u += space(r); u += t[i]; } t = u; BS d(t); PBT_CHECK(decT(&d.s, n), "document/white-space", "%s at %ld", show(t).c_str(), d.s.currentByte); }
  if (r.coin(1, 3)) {   // the file reader drops white space outside the values
    S fn = S(TMPD) + "/xer" + std::to_string(getpid()) + ".xml"; FILE *f = fopen(fn.c_str(), "w"); if (f) { fwrite(t.data(), 1, t.size(), f); fclose(f); BS d(t.size() + 1); int got = -1; flag ok = LoadXmlFile(fn.c_str(), &d.s, &got); unlink(fn.c_str());
      bool small = true; std::function<void(const Node &)> mx = [&](const Node &q) { if (q.leaf && (q.x.n > 600 || q.x.k == STR)) small = false; for (auto &c : q.ch) mx(c); }; mx(n);
      if (small) { PBT_CHECK(ok, "LoadXmlFile/refused", "%s", show(t).c_str()); d.s.count = got; PBT_CHECK(decT(&d.s, n), "LoadXmlFile/round-trip", "%s read as %s", show(t).c_str(), show(S((char *)d.b.p, got)).c_str()); r.label("file"); } } }
  { size_t room = r.below(full); BS x(room); x.s.EncodeWhiteSpace = ws; t = orig; if (full - room > (ws ? 2 : 1) && t.compare(0, 2, "<?") && t.compare(0, 2, "<!")) PBT_CHECK(!encT(&x.s, n, &e, 0), "document/over-end-accepted", "%zu characters accepted in %zu", t.size(), room); }
  if (count(n) > 1) r.interesting(show(t));
}
// text that was damaged, or drawn from a token soup
static void text(Src &r) {
  K k = (K)r.below(NK); S tag = r.coin() ? "a" : genName(r), t; int cap = r.coin() ? (int)r.below(12) : (int)r.below(100), e = 0;
  if (r.coin(2, 3)) { Item x = genItem(r, k); Big b; if (!enc(&b.s, tag.c_str(), x, &e, -1)) throw pbt::Discard(); t = b.text();
    if (r.coin(1, 3) && k != STR) { size_t a = t.find('>'), z = t.rfind('<'); static const std::vector<S> alt = {"", " ", "-", "+", "1x", "x", "0x10", "99999999999999999999", "-1", "+5", " 7 ", "1 2", "1e400", "--1", "1.2.3", "1..2", ".1", "1.", "GG", "abc", "0 1", "012", "&lt;", "&", "&#65;", "-9223372036854775808", "-9223372036854775809", "18446744073709551616", "18446744073709551615", "inf", "nan", "1.5"}; if (a != S::npos && z > a) t = t.substr(0, a + 1) + r.pickv(alt) + t.substr(z); }
    int m = (int)r.below(4); while (m-- && t.size()) { size_t i = r.below(t.size()); switch (r.below(4)) { case 0: t.erase(i, 1 + r.below(4)); break; case 1: t.insert(i, 1, "<>/\" =-?!&;a0"[r.below(13)]); break; case 2: t[i] = (char)r.below(256); break; default: t.resize(i); } } }
  else { static const std::vector<S> tok = {"<", ">", "/", "=", "\"", "a", "</", "/>", "<a>", "</a>", "<a/>", "<!--", "-->", "<?", "?>", " ", "\n", "0", "1", "ff", "&lt;", "&", "true", "<true/>", "<false/>", "<true>", "\x80", "", "'", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"}; int m = (int)r.below(12); while (m--) t += r.pickv(tok); tag = "a"; }
  BS b(t); Item o; o.i = 0; flag ok = dec(&b.s, tag.c_str(), k, cap, o, &e); PBT_CHECK(b.s.currentByte >= 0 && b.s.currentByte <= (long)t.size() + 2, S("Decode") + kn[k] + "/position", "position %ld in %zu", b.s.currentByte, t.size());
  if (ok && (k == INT || k == UINT || k == REAL || k == OCT || k == BIT || k == OID)) {   // what was accepted must be what the text says
    PBT_CHECK((size_t)b.s.currentByte <= t.size(), S("Decode") + kn[k] + "/position", "accepted but the position is %ld of %zu", b.s.currentByte, t.size()); S in = t.substr(0, b.s.currentByte), c; size_t z = in.rfind("<"), a = z == S::npos || z == 0 ? S::npos : in.rfind(">", z - 1);
    bool self = in.find('/') != S::npos && in.find('/') + 1 < in.size() && a == S::npos; if (a != S::npos) c = unesc(in.substr(a + 1, z - a - 1)); S d; for (char q : c) if (!isspace((unsigned char)q)) d += q; (void)self;
    S nm = S("Decode") + kn[k] + "/accepted"; bool good = true; errno = 0;
    if (k == INT || k == UINT) { size_t i = 0; while (i < c.size() && isspace((unsigned char)c[i])) i++; size_t j = c.size(); while (j > i && isspace((unsigned char)c[j - 1])) j--; S q = c.substr(i, j - i); good = q.size() && (isdigit((unsigned char)q.back())) && q.find_first_not_of("0123456789", q[0] == '-' || q[0] == '+' ? 1 : 0) == S::npos;
      if (good && k == INT) { long long v = strtoll(q.c_str(), nullptr, 10); good = !errno && v == o.i; } if (good && k == UINT) { unsigned long long v = strtoull(q.c_str(), nullptr, 10); good = !errno && q[0] != '-' && v == o.u; } }
    else if (k == REAL) { good = d.size() > 0; if (good) { char *z2; double v = strtod(c.c_str(), &z2); while (isspace((unsigned char)*z2)) z2++; good = !*z2 && (memcmp(&v, &o.d, 8) == 0 || std::isnan(v)); } }
    else if (k == OCT) { good = (int)(d.size() + 1) / 2 == o.n; for (size_t i = 0; good && i < d.size(); i++) good = isxdigit((unsigned char)d[i]) && strtol(S(1, d[i]).c_str(), nullptr, 16) == ((o.v[i / 2] >> (i % 2 ? 0 : 4)) & 15); }
    else if (k == BIT) { good = (int)d.size() == o.n; for (size_t i = 0; good && i < d.size(); i++) good = (d[i] == '0' || d[i] == '1') && d[i] - '0' == ((o.v[i / 8] >> (7 - i % 8)) & 1); }
    else good = d.find_first_not_of("0123456789.+") == S::npos;
    PBT_CHECK(good, nm, "%s is decoded as %lld %llu %g, %d items", show(t).c_str(), (long long)o.i, (unsigned long long)o.u, o.d, o.n); }
  r.label(S(kn[k]) + (ok ? " accepted" : " refused")); if (t.size() > 4) r.interesting(show(t));
}
static void textTree(Src &r) {   // structure decoders over damaged documents: no access outside, no wrong position
  Node n = genTree(r, 2); Big b; int e = 0; if (!encT(&b.s, n, &e, 0)) throw pbt::Discard(); S t = b.text(); int m = 1 + (int)r.below(4);
  while (m-- && t.size()) { size_t i = r.below(t.size()); switch (r.below(5)) { case 0: t.erase(i, 1 + r.below(8)); break; case 1: t.insert(i, 1, "<>/\" =-?!&;a0"[r.below(13)]); break; case 2: t[i] = (char)r.below(256); break; case 3: t.insert(i, r.pick<const char *>({"<!--", "<?", "-->", " x=\"1\" ", " x=\"\"", " y = \"a\""})); break; default: t.resize(i); } }
  BS d(t); try { decT(&d.s, n); } catch (pbt::Fail &) { throw; } PBT_CHECK(d.s.currentByte >= 0 && d.s.currentByte <= (long)t.size() + 2, "damaged/position", "position %ld in %zu", d.s.currentByte, t.size()); r.interesting(show(t));
}
int main(int c, char **v) {
  for (int i = 1; i + 1 < c; i++) if (!strcmp(v[i], "--tmp")) TMPD = v[i + 1];
  pbt::Engine e;
  e.checks = {{"P31.values", values, 200000, 3000000}, {"P31.structure", structure, 60000, 800000}, {"P31.text", text, 300000, 5000000}, {"P31.damaged", textTree, 60000, 800000}};
  return e.main(c, v);
}
