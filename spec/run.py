"""Compile a specification with the compiler under test, build the driver, execute requests."""
import glob, os, subprocess, sys, tempfile, shutil, time, hashlib, pickle, base64
from . import model, cdrv
from .model import T

ASN1SCC = None  # directory of the compiler build, set by checks


class CompileError(Exception):
    def __init__(self, rc, out):
        super().__init__("exit %d\n%s" % (rc, out))
        self.rc, self.out = rc, out


class CodeError(Exception):
    """the generated code does not compile"""


ENV = dict(os.environ, DOTNET_CLI_TELEMETRY_OPTOUT="1", DOTNET_gcServer="0", DOTNET_gcConcurrent="0", DOTNET_TieredPGO="0")


def asn1scc(args, cwd, timeout=240):
    p = subprocess.run(["dotnet", os.path.join(ASN1SCC, "asn1scc.dll")] + args, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, env=ENV)
    return p.returncode, p.stdout


class Built:
    """generated C code of one specification with a driver"""
    def __init__(self, spec, d, opts=("-uPER",), files=None, cflags=(), tn=lambda n: cdrv.cn(n), drv=True, sanitize="address", cc="clang", defines=()):
        self.spec, self.dir, self.opts = spec, d, list(opts)
        os.makedirs(d, exist_ok=True)
        names = []
        for fn, text in (files or default_files(spec, opts)):
            with open(os.path.join(d, fn), "w") as f: f.write(text)
            names.append(fn)
        out = os.path.join(d, "out")
        rc, txt = asn1scc(["-c"] + self.opts + ["-o", "out"] + names, d)
        if rc != 0: raise CompileError(rc, txt)
        self.log = txt
        if not drv: return
        self.out = out
        hs = sorted(os.path.basename(h) for h in glob.glob(out + "/*.h") if not os.path.basename(h).startswith("asn1crt"))
        text = "".join(open(os.path.join(out, h)).read() for h in hs)
        inc = hs + [os.path.basename(h) for h in sorted(glob.glob(out + "/asn1crt*.h"))]
        with open(d + "/drv.cpp", "w") as f: f.write(cdrv.driver(spec, inc, text, tn))
        san = ["-fsanitize=" + sanitize] if sanitize else []
        base = ["-w", "-g1"] + (["-fbracket-depth=8192"] if cc.startswith("clang") else []) + [ "-O0", "-fno-omit-frame-pointer", "-I" + out] + san + list(cflags)
        objs = []
        procs = []
        for c in sorted(glob.glob(out + "/*.c")):
            if os.path.basename(c) in ("testsuite.c", "mainprogram.c"): continue
            o = c[:-2] + ".o"
            objs.append(o)
            procs.append((c, subprocess.Popen([cc, "-fwrapv", "-c", c, "-o", o] + base, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        base = [x for x in base if "bracket" not in x] + ["-fbracket-depth=8192"]
        procs.append(("drv.cpp", subprocess.Popen(["clang++", "-std=c++20", "-c", d + "/drv.cpp", "-o", d + "/drv.o"] + base, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for c, p in procs:
            o, _ = p.communicate()
            if p.returncode: raise CodeError("%s: %s" % (os.path.basename(c), o[:3000]))
        p = subprocess.run(["clang++"] + san + ["-o", d + "/drv"] + objs + [d + "/drv.o", "-lm"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode: raise CodeError("link: " + p.stdout[:3000])
        self.exe = d + "/drv"
        self.idx = {n: i for i, n in enumerate(spec.types)}

    def run(self, lines, timeout=240, fail_limit=20):
        """answers, one per line; a dict {'crash': text} for a request that did not answer"""
        res, i, fails = [], 0, 0
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:exitcode=99")
        while i < len(lines):
            p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env)
            to = False
            try:
                o, e = p.communicate("\n".join(lines[i:]) + "\n", timeout=timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                o, e = p.communicate()
                to = True
            got = o.split("\n")
            tail = got.pop()
            got = got[:len(lines) - i]
            res += got
            i += len(got)
            if i < len(lines):
                res.append({"crash": "does not terminate within 20 s" if to or p.returncode == -14 else first_error(e, p.returncode)})
                i += 1
                fails += 1 if not (to or p.returncode == -14) else 8
                if fails >= fail_limit:
                    res += [{"crash": "not run"}] * (len(lines) - i)
                    break
        return res


def first_error(e, rc):
    ls = [l for l in e.split("\n") if "ERROR" in l or "runtime error" in l or l.strip().startswith("#")]
    return ("exit %s " % rc) + " ".join(l.strip() for l in ls[:6])[:700]


def default_files(spec, opts=()):
    f = [("a.asn1", model.asn1(spec))]
    if spec.use_acn: f.append(("a.acn", model.acn(spec)))
    return f


def line_enc(b, n, v, co="U", chk=1, fill=0, extra=0):
    return "%d E %s %d %d %d %s" % (b.idx[n], co, chk, fill, extra, cdrv.ser(b.spec, T("ref", ref=n), v))


def line_dec(b, n, hexs, co="U", fill=165): return "%d D %s %d -%s" % (b.idx[n], co, fill, hexs)


class Enc:
    def __init__(self, ans):
        self.crash = ans.get("crash") if isinstance(ans, dict) else None
        self.raw = ans
        self.ok = self.err = self.bits = self.hex = None
        self.oob = ans == "oob"
        if self.crash is None and not self.oob:
            f = ans.split()
            self.ok, self.err, self.bits = f[0] == "1", int(f[1]), int(f[2])
            self.hex = f[3][1:] if len(f) > 3 else None

    def bitstr(self):
        if self.hex is None: return None
        return "".join(format(x, "08b") for x in bytes.fromhex(self.hex))[:self.bits]


class Dec:
    def __init__(self, ans, spec, t):
        self.crash = ans.get("crash") if isinstance(ans, dict) else None
        self.raw = ans
        self.garbled = None
        self.value = None
        self.re = None
        if self.crash is None:
            parts = ans.split("|")
            f = parts[0].split()
            self.ok, self.err, self.bits = f[0] == "1", int(f[1]), int(f[2])
            if self.ok:
                self.valid = f[3] == "1"
                try:
                    self.value = cdrv.parse_all(spec, t, parts[1].split())
                except (cdrv.Garbled, StopIteration, ValueError) as e:
                    self.garbled = "%s: %s" % (type(e).__name__, e)
                r = parts[2].split()
                if r: self.re = (r[0] == "1", int(r[1]), int(r[2]), r[3][1:] if len(r) > 3 else None)


def pack(obj): return base64.b64encode(pickle.dumps(obj)).decode()


def unpack(s): return pickle.loads(base64.b64decode(s))
