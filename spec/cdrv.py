"""C++20 driver for the C code generated from a specification: reads one request per line, answers one line.

Values travel as whitespace separated tokens (ser/parse below). Field access is written by path, so it follows the abstract
specification and not the generated type names."""
import re, struct
from .model import *

PRE = r'''
#include <unistd.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <type_traits>
%(inc)s
#ifdef ASN1SCC_STREAMING
extern "C" { void fetchData(BitStream*, void*) { fprintf(stderr, "ERROR fetchData called\n"); abort(); } void pushData(BitStream*, void*) { fprintf(stderr, "ERROR pushData called\n"); abort(); } }
#endif
static char *g_p; static int g_fill; static int g_oob; static int g_def;
static char *tok(){ while(*g_p==' ')g_p++; char*s=g_p; while(*g_p&&*g_p!=' ')g_p++; if(*g_p)*g_p++=0; return s; }
template<class A> void setn(A&a,long n){ if constexpr(requires{a.nCount;}) a.nCount=(int)n; }
template<class A> long getn(const A&a,long f){ if constexpr(requires{a.nCount;}) return a.nCount; else return f; }
template<class A> void rdint(A&a){ char*s=tok(); if constexpr(std::is_unsigned_v<A>) a=(A)strtoull(s,0,10); else a=(A)strtoll(s,0,10); }
template<class A> void wrint(const A&a){ if constexpr(std::is_unsigned_v<A>) printf(" %%llu",(unsigned long long)a); else printf(" %%lld",(long long)a); }
template<class A> void rdenum(A&a){ a=static_cast<A>(strtoll(tok(),0,10)); }
template<class A> void wrenum(const A&a){ printf(" %%lld",(long long)a); }
template<class A> void rdreal(A&a){ unsigned long long u=strtoull(tok(),0,16); double d; memcpy(&d,&u,8); a=(A)d; }
template<class A> void wrreal(const A&a){ double d=a; unsigned long long u; memcpy(&u,&d,8); printf(" %%016llx",u); }
static int hx(char c){ return c<='9'?c-'0':(c|32)-'a'+10; }
template<class A> void rdocts(A&a){ char*s=tok(); if(*s=='!'){setn(a,atol(s+1));return;} if(*s=='-')s++; long n=strlen(s)/2; if(n>(long)sizeof(a.arr)){g_oob=1;return;} setn(a,n); for(long i=0;i<n;i++)a.arr[i]=(unsigned char)(hx(s[2*i])<<4|hx(s[2*i+1])); }
template<class A> void wrocts(const A&a,long f){ long n=getn(a,f); if(n<0||n>(long)sizeof(a.arr)){printf(" !%%ld",n);return;} putchar(' '); putchar('-'); for(long i=0;i<n;i++)printf("%%02x",a.arr[i]); }
template<class A> void rdbits(A&a){ char*s=tok(); if(*s=='!'){setn(a,atol(s+1));return;} if(*s=='-')s++; long n=strlen(s); if((n+7)/8>(long)sizeof(a.arr)){g_oob=1;return;} setn(a,n); for(long i=0;i<n;i++){unsigned char m=(unsigned char)(128>>(i&7)); if(s[i]=='1')a.arr[i/8]|=m; else a.arr[i/8]&=(unsigned char)~m;} }
template<class A> void wrbits(const A&a,long f){ long n=getn(a,f); if(n<0||(n+7)/8>(long)sizeof(a.arr)){printf(" !%%ld",n);return;} putchar(' '); putchar('-'); for(long i=0;i<n;i++)putchar(a.arr[i/8]>>(7-(i&7))&1?'1':'0'); }
template<class A> void rdstr(A&a){ char*s=tok(); if(*s=='-')s++; size_t n=strlen(s)/2; if(n>=sizeof(a)){g_oob=1;return;} for(size_t i=0;i<n;i++)a[i]=(char)(hx(s[2*i])<<4|hx(s[2*i+1])); a[n]=0; }
template<class A> void wrstr(const A&a){ size_t n=strnlen(a,sizeof(a)); if(n>=sizeof(a)){printf(" !");return;} putchar(' '); putchar('-'); for(size_t i=0;i<n;i++)printf("%%02x",(unsigned char)a[i]); }
template<class A> void rdoid(A&a){ long n=atol(tok()); a.nCount=(int)n; for(long i=0;i<n&&i<20;i++)a.values[i]=strtoull(tok(),0,10); }
template<class A> void wroid(const A&a){ printf(" %%d",(int)a.nCount); for(long i=0;i<a.nCount&&i<20;i++)printf(" %%llu",(unsigned long long)a.values[i]); }
template<class A> constexpr long cap(const A&a){ return (long)(sizeof(a.arr)/sizeof(a.arr[0])); }
'''

MAINF = r'''
template<class T> static T*mk(){ void*p=malloc(sizeof(T)); memset(p,g_fill,sizeof(T)); return (T*)p; }
struct Buf{ unsigned char*p; long n; explicit Buf(long k):p((unsigned char*)malloc(k?k:1)),n(k){} ~Buf(){free(p);} };
static void phex(const unsigned char*p,long n){ putchar(' '); putchar('-'); for(long i=0;i<n;i++)printf("%02x",p[i]); }
static long unhex(const char*s,unsigned char*o){ if(*s=='-')s++; long n=strlen(s)/2; for(long i=0;i<n;i++)o[i]=(unsigned char)(hx(s[2*i])<<4|hx(s[2*i+1])); return n; }
int main(){
  static char*line; static size_t cap; ssize_t k;
  setvbuf(stdout,0,_IOFBF,1<<16);
  while((k=getline(&line,&cap,stdin))>0){
    if(line[k-1]=='\n')line[--k]=0;
    alarm(20); g_p=line; g_oob=0; int ti=atoi(tok()); char op=*tok();
    run(ti,op);
    putchar('\n'); fflush(stdout);
  }
  return 0;
}
'''


def cn(n): return n.replace("-", "_")


class Emit:
    def __init__(self, spec):
        self.s, self.n = spec, 0

    def v(self):
        self.n += 1
        return "i%d" % self.n

    def rd(self, t, e):
        k = t.k
        if k == "ref": return "rd_%s(%s);" % (cn(t.ref), e)
        if k == "int": return "rdint(%s);" % e
        if k == "bool": return "%s=*tok()=='1';" % e
        if k == "null": return "%s=0;" % e
        if k == "real": return "rdreal(%s);" % e
        if k == "enum": return "rdenum(%s);" % e
        if k in ("octs", "bits", "str"): return "rd%s(%s);" % (k, e)
        if k in ("oid", "roid"): return "rdoid(%s);" % e
        if k == "seq":
            o = []
            for c in t.comps:
                if c.acnonly: continue
                f = "%s.%s" % (e, cn(c.name))
                if c.opt is not None: o.append("if(*tok()=='1'){%s.exist.%s=1;%s}else %s.exist.%s=0;" % (e, cn(c.name), self.rd(c.t, f), e, cn(c.name)))
                else: o.append(self.rd(c.t, f))
            return "\n".join(o)
        if k == "choice":
            i = self.v()
            o = ["int %s=atoi(tok()); %s.kind=static_cast<std::remove_reference_t<decltype(%s.kind)>>(%s); switch(%s){" % (i, e, e, i, i)]
            for j, c in enumerate(t.comps): o.append("case %d: {%s} break;" % (j + 1, self.rd(c.t, "%s.u.%s" % (e, cn(c.name)))))
            return "{" + "\n".join(o) + "}}"
        if k == "seqof":
            i = self.v()
            return "{char*s%s=tok(); if(*s%s=='!')setn(%s,atol(s%s+1)); else {long n%s=atol(s%s); setn(%s,n%s); if(n%s>cap(%s)){g_oob=1;return;} for(long %s=0;%s<n%s;%s++){%s}}}" % (
                i, i, e, i, i, i, e, i, i, e, i, i, i, i, self.rd(t.elem, "%s.arr[%s]" % (e, i)))
        raise ValueError(k)

    def fixed(self, t):
        lo, hi = bounds(self.s, t.cons, True)
        return hi if hi is not None else 0

    def wr(self, t, e):
        k = t.k
        if k == "ref": return "wr_%s(%s);" % (cn(t.ref), e)
        if k == "int": return "wrint(%s);" % e
        if k == "bool": return 'printf(" %%d",(int)(%s?1:0));' % e
        if k == "null": return ""
        if k == "real": return "wrreal(%s);" % e
        if k == "enum": return "wrenum(%s);" % e
        if k in ("octs", "bits"): return "wr%s(%s,%d);" % (k, e, self.fixed(t))
        if k == "str": return "wrstr(%s);" % e
        if k in ("oid", "roid"): return "wroid(%s);" % e
        if k == "seq":
            o = []
            for c in t.comps:
                if c.acnonly: continue
                f = "%s.%s" % (e, cn(c.name))
                if c.opt not in (None, "OPT"):
                    w = self.wr(c.t, f)
                    o.append('if(%s.exist.%s){printf(" 1");%s}else if(g_def){printf(" 2");%s}else printf(" 0");' % (e, cn(c.name), w, w))
                elif c.opt is not None: o.append('if(%s.exist.%s){printf(" 1");%s}else printf(" 0");' % (e, cn(c.name), self.wr(c.t, f)))
                else: o.append(self.wr(c.t, f))
            return "\n".join(o)
        if k == "choice":
            o = ['printf(" %%d",(int)%s.kind); switch((int)%s.kind){' % (e, e)]
            for j, c in enumerate(t.comps): o.append("case %d: {%s} break;" % (j + 1, self.wr(c.t, "%s.u.%s" % (e, cn(c.name)))))
            return "\n".join(o) + "}"
        if k == "seqof":
            i = self.v()
            return '{long n%s=getn(%s,%d); printf(" %%ld",n%s); if(n%s<0||n%s>cap(%s)){printf(" !");return;} for(long %s=0;%s<n%s;%s++){%s}}' % (
                i, e, self.fixed(t), i, i, i, e, i, i, i, i, self.wr(t.elem, "%s.arr[%s]" % (e, i)))
        raise ValueError(k)


def order(spec):
    out, seen = [], set()
    def go(n):
        if n in seen: return
        seen.add(n)
        for x in walk(spec.types[n]):
            if x.k == "ref": go(x.ref)
        out.append(n)
    for n in spec.types: go(n)
    return out


def driver(spec, headers, header_text, tn=lambda n: cn(n)):
    """C++ source. tn maps an assignment name to the C type name (type prefixes)."""
    em = Emit(spec)
    o = [PRE % {"inc": "\n".join('#include "%s"' % h for h in headers)}]
    for n in order(spec):
        t = spec.types[n]
        o.append("template<class A> void rd_%s(A&x){%s}" % (cn(n), em.rd(t, "x")))
        o.append("template<class A> void wr_%s(const A&x){%s}" % (cn(n), em.wr(t, "x")))
    have = set(re.findall(r"^flag\s+(\w+)\s*\(", header_text, re.M)) | set(re.findall(r"^void\s+(\w+)\s*\(", header_text, re.M))
    macros = set(re.findall(r"^#define\s+(\w+_REQUIRED_\w+)", header_text, re.M))
    globs = set(re.findall(r"^extern const \w+ (\w+);", header_text, re.M))
    o.append("static void run(int ti,char op);")
    m = MAINF.split("int main(){")
    o.append(m[0])
    CO = (("U", "", ""), ("A", "ACN_", "ACN_"), ("X", "XER_", "XER_"))
    for n in spec.types:
        c = tn(n)
        ptr = "(*v)"
        b, _ = resolve(spec, T("ref", ref=n))
        arg = lambda e: ("*%s" % e) if b.k == "str" else e
        w = []
        w.append("static void op_%s(char op){ typedef %s TY;" % (cn(n), c))
        w.append(" if(op=='S'){")
        for l, p, q in CO:
            for u in ("BITS", "BYTES"):
                name = "%s_REQUIRED_%s_FOR_%sENCODING" % (c, u, q)
                w.append('  printf(" %%lld",(long long)%s);' % (name if name in macros else "-1"))
        w.append("  return; }")
        w.append(" if(op=='E'){ char co=*tok(); int chk=atoi(tok()); g_fill=atoi(tok()); long extra=atol(tok()); TY*v=mk<TY>(); rd_%s(*v); if(g_oob){printf(\"oob\");free(v);return;} int err=-77; bool ret=false; long bits=0;" % cn(n))
        for l, p, q in CO:
            f = "%s_%sEncode" % (c, p)
            if f not in have or l == "A" and spec.params.get(n): continue
            w.append("  if(co=='%s'){ Buf b(%s_REQUIRED_BYTES_FOR_%sENCODING+extra); if(b.n)memset(b.p,g_fill,b.n);" % (l, c, q))
            if l == "X": w.append("   ByteStream s; ByteStream_Init(&s,b.p,b.n); ret=%s(%s,&s,&err,chk); bits=8*(long)s.currentByte; printf(\"%%d %%d %%ld\",(int)ret,err,bits); if(bits/8<=b.n) phex(b.p,bits/8); }" % (f, arg("v")))
            else: w.append("   BitStream s; BitStream_Init(&s,b.p,b.n); ret=%s(%s,&s,&err,chk); bits=8*(long)s.currentByte+s.currentBit; printf(\"%%d %%d %%ld\",(int)ret,err,bits); if(bits<=8*b.n) phex(b.p,(bits+7)/8); }" % (f, arg("v")))
        w.append("  free(v); return; }")
        w.append(" if(op=='D'){ char co=*tok(); g_fill=atoi(tok()); char*h=tok(); Buf b((long)strlen(h)/2); unhex(h,b.p); TY*v=mk<TY>(); int err=-77; bool ret=false; long bits=0;")
        for l, p, q in CO:
            f = "%s_%sDecode" % (c, p)
            if f not in have or l == "A" and spec.params.get(n): continue
            if l == "X": w.append("  if(co=='%s'){ ByteStream s; ByteStream_AttachBuffer(&s,b.p,b.n); ret=%s(%s,&s,&err); bits=8*(long)s.currentByte; }" % (l, f, arg("v")))
            else: w.append("  if(co=='%s'){ BitStream s; BitStream_AttachBuffer(&s,b.p,b.n); ret=%s(%s,&s,&err); bits=8*(long)s.currentByte+s.currentBit; }" % (l, f, arg("v")))
        w.append('  printf("%%d %%d %%ld",(int)ret,err,bits); if(ret){ int e2=0; printf(" %%d",%s); printf(" |"); g_def=1; wr_%s(*v); g_def=0; printf(" |");' % (
            ("(int)%s_IsConstraintValid(%s,&e2)" % (c, arg("v"))) if c + "_IsConstraintValid" in have else "1", cn(n)))
        for l, p, q in CO[:2]:
            f = "%s_%sEncode" % (c, p)
            if f not in have or l == "A" and spec.params.get(n): continue
            w.append("  if(co=='%s'){ Buf o(%s_REQUIRED_BYTES_FOR_%sENCODING); BitStream s; BitStream_Init(&s,o.p,o.n); int e3=-77; int r=%s(%s,&s,&e3,1); long nb=8*(long)s.currentByte+s.currentBit; printf(\" %%d %%d %%ld\",r,e3,nb); if(nb<=8*o.n)phex(o.p,(nb+7)/8); }" % (l, c, q, f, arg("v")))
        w.append("  } free(v); return; }")
        if c + "_IsConstraintValid" in have:
            w.append(" if(op=='V'){ g_fill=atoi(tok()); TY*v=mk<TY>(); rd_%s(*v); if(g_oob){printf(\"oob\");free(v);return;} int err=-77; bool r=%s_IsConstraintValid(%s,&err); printf(\"%%d %%d\",(int)r,err); free(v); return; }" % (cn(n), c, arg("v")))
        if c + "_Equal" in have:
            w.append(" if(op=='Q'){ g_fill=atoi(tok()); TY*v=mk<TY>(); rd_%s(*v); g_fill=atoi(tok()); TY*w=mk<TY>(); rd_%s(*w); if(g_oob){printf(\"oob\");}else printf(\"%%d %%d %%d\",(int)%s_Equal(%s,%s),(int)%s_Equal(%s,%s),(int)%s_Equal(%s,%s)); free(v); free(w); return; }" % (
                cn(n), cn(n), c, arg("v"), arg("w"), c, arg("w"), arg("v"), c, arg("v"), arg("v")))
        if c + "_Initialize" in have:
            w.append(" if(op=='I'){ g_fill=atoi(tok()); TY*v=mk<TY>(); %s_Initialize(%s); int err=-77; printf(\"%%d |\",%s); wr_%s(*v); free(v); return; }" % (
                c, arg("v"), ("(int)%s_IsConstraintValid(%s,&err)" % (c, arg("v"))) if c + "_IsConstraintValid" in have else "1", cn(n)))
        w.append(' printf("noop"); }')
        o.append("\n".join(w))
    o.append("static void run(int ti,char op){ switch(ti){")
    for i, n in enumerate(spec.types): o.append(" case %d: op_%s(op); break;" % (i, cn(n)))
    o.append("} }")
    o.append("int main(){" + m[1])
    return "\n".join(o)


# ---------------------------------------------------------------- values on the wire
def ser(spec, t, v, enums=None):
    b, _ = resolve(spec, t)
    k = b.k
    if k == "int": return str(v)
    if k == "bool": return "1" if v else "0"
    if k == "null": return ""
    if k == "real": return "%016x" % struct.unpack(">Q", struct.pack(">d", v))[0]
    if k == "enum": return str(v) if isinstance(v, int) else str(dict(enum_values(b))[v])
    if isinstance(v, str) and v.startswith("!"): return v if k != "str" else "-" + v.encode("latin1").hex()
    if k == "bits": return "-" + v
    if k == "octs": return "-" + v.hex()
    if k == "str": return "-" + v.encode("latin1").hex()
    if k in ("oid", "roid"): return " ".join(map(str, (len(v),) + tuple(v)))
    if k == "seq":
        o = []
        for c in b.comps:
            if c.acnonly: continue
            if c.name in v: o.append(("1 " if c.opt is not None else "") + ser(spec, c.t, v[c.name]))
            else: o.append("0")
        return " ".join(x for x in o if x)
    if k == "choice":
        i = [c.name for c in b.comps].index(v[0])
        return "%d %s" % (i + 1, ser(spec, b.comps[i].t, v[1]))
    if k == "seqof": return " ".join([str(len(v))] + [ser(spec, b.elem, x) for x in v])
    raise ValueError(k)


class Garbled(Exception):
    pass


def parse(spec, t, it):
    """inverse of ser over an iterator of tokens; raises Garbled for values outside the type's representation"""
    b, _ = resolve(spec, t)
    k = b.k
    if k == "int": return int(next(it))
    if k == "bool": return next(it) == "1"
    if k == "null": return None
    if k == "real": return struct.unpack(">d", bytes.fromhex(next(it)))[0]
    if k == "enum":
        x = int(next(it))
        for n, y in enum_values(b):
            if y == x: return n
        raise Garbled("enumerated value %d" % x)
    if k in ("bits", "octs", "str"):
        x = next(it)
        if x.startswith("!"): raise Garbled("%s with %s elements" % (k, x[1:]))
        return x[1:] if k == "bits" else bytes.fromhex(x[1:]) if k == "octs" else bytes.fromhex(x[1:]).decode("latin1")
    if k in ("oid", "roid"):
        n = int(next(it))
        return tuple(int(next(it)) for _ in range(n))
    if k == "seq":
        v = {}
        for c in b.comps:
            if c.acnonly: continue
            f = next(it) if c.opt is not None else "1"
            if f == "0": continue
            x = parse(spec, c.t, it)
            if f == "1": v[c.name] = x
            elif not eq(spec, c.t, x, c.opt[1]): raise Garbled("%s absent, but the default value is not set: %s" % (c.name, str(x)[:60]))
        return v
    if k == "choice":
        i = int(next(it))
        if not 1 <= i <= len(b.comps): raise Garbled("choice index %d" % i)
        c = b.comps[i - 1]
        return (c.name, parse(spec, c.t, it))
    if k == "seqof":
        n = int(next(it))
        return [parse(spec, b.elem, it) for _ in range(n)]
    raise ValueError(k)


def parse_all(spec, t, toks):
    it = iter(toks)
    v = parse(spec, t, it)
    rest = list(it)
    if rest: raise Garbled("trailing tokens %s" % rest[:5])
    return v
