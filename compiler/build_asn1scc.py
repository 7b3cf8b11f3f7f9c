#!/usr/bin/env python3
"""Build the asn1scc compiler from a repository working tree, offline.

The upstream projects need two NuGet packages (Argu, FsToolkit.ErrorHandling); shims/ supplies stand-ins
for the small part of their API that is used.  Everything else is compiled from the working tree, with the
SDK's own csc/fsc, in the order and with the file lists given by the repository's project files.

usage: build_asn1scc.py [REPO] -> prints the directory holding asn1scc.dll
The result is cached by content hash under $VERIF_CACHE (default /verif/.cache).
"""
import hashlib, os, re, shutil, subprocess, sys, time, glob, tempfile, fcntl
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
CACHE = os.environ.get("VERIF_CACHE", os.path.join(os.path.dirname(HERE), ".cache"))
DIRS = ["Antlr", "ST", "parseStg2", "CommonTypes", "FrontEndAst", "BackendAst", "StgC", "StgAda", "StgScala",
        "StgVarious", "asn1scc", "asn1crt", "ADA_RTL2", "asn1scala/src", "asn1scala/build.sbt", "asn1scala/lib"]
ENV = dict(os.environ, DOTNET_CLI_TELEMETRY_OPTOUT="1", DOTNET_NOLOGO="1", DOTNET_TieredPGO="0",
           DOTNET_SKIP_FIRST_TIME_EXPERIENCE="1", LANG="C.UTF-8", HOME=os.environ.get("HOME", "/root"))


def tracked(repo):
    """tracked files, plus untracked-but-not-ignored ones, as they are in the working tree"""
    out = subprocess.run(["git", "-C", repo, "ls-files", "-z", "-co", "--exclude-standard", "--"] + DIRS,
                         check=True, stdout=subprocess.PIPE).stdout
    return sorted({f for f in out.decode().split("\0") if f and os.path.isfile(os.path.join(repo, f))})


def digest(repo, files):
    h = hashlib.sha256()
    for base, fs in ((repo, files), (HERE, ["build_asn1scc.py", "shims/Argu/Argu.fs", "shims/FsToolkit/FsToolkit.fs"])):
        for f in fs:
            h.update(f.encode() + b"\0")
            with open(os.path.join(base, f), "rb") as fd:
                h.update(hashlib.sha256(fd.read()).digest())
    return h.hexdigest()[:24]


def first(pattern):
    r = sorted(glob.glob(pattern))
    if not r:
        raise SystemExit("toolchain piece not found: " + pattern)
    return r[-1]


def run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError("build step failed: %s\n%s" % (" ".join(cmd)[:300], p.stdout.decode("utf8", "replace")[-6000:]))
    return p.stdout


class BuildError(Exception):
    pass


def includes(proj, tag="Compile"):
    txt = open(proj, encoding="utf-8-sig").read()
    return [m.replace("\\", "/") for m in re.findall(r'<%s\s+Include="([^"]+)"' % tag, txt)]


def build(repo, src, out):
    sdk = first("/usr/lib/dotnet/sdk/*/FSharp/fsc.dll")
    fsc, fsdir = sdk, os.path.dirname(sdk)
    csc = first("/usr/lib/dotnet/sdk/*/Roslyn/bincore/csc.dll")
    refs = sorted(glob.glob(first("/usr/lib/dotnet/packs/Microsoft.NETCore.App.Ref/*/ref/net*") + "/*.dll"))
    antlr = sorted(glob.glob(src + "/Antlr/antlr313/*.dll"))
    fscore = first(os.path.expanduser("~/.nuget/packages/fsharp.core/*/lib/netstandard2.1/FSharp.Core.dll")) \
        if glob.glob(os.path.expanduser("~/.nuget/packages/fsharp.core/*/lib/netstandard2.1/FSharp.Core.dll")) \
        else os.path.join(fsdir, "FSharp.Core.dll")
    os.makedirs(out, exist_ok=True)
    rt = '{"runtimeOptions":{"tfm":"net10.0","framework":{"name":"Microsoft.NETCore.App","version":"10.0.0"},' \
         '"configProperties":{"System.Reflection.Metadata.MetadataUpdater.IsSupported":false}}}'

    def csharp(name, srcs, exe):
        o = "%s/%s.dll" % (out, name)
        run(["dotnet", csc, "-nologo", "-noconfig", "-nostdlib+", "-optimize+", "-debug-", "-deterministic+", "-warn:0", "-langversion:latest",
             "-target:" + ("exe" if exe else "library"), "-out:" + o] + ["-r:" + r for r in refs + antlr] + srcs)
        if exe:
            open("%s/%s.runtimeconfig.json" % (out, name), "w").write(rt)
        return o

    opt = os.environ.get("VERIF_FSC_OPT", "").split()

    def fsharp(name, srcs, deps, exe=False, resources=()):
        o = "%s/%s.dll" % (out, name)
        run(["dotnet", fsc, "--nologo", "--noframework", "--simpleresolution", "--targetprofile:netcore", "--fullpaths",
             "--optimize-", "--debug-", "--crossoptimize-", "--warn:0", "--flaterrors", "--parallelcompilation+",
             "--target:" + ("exe" if exe else "library"), "-o:" + o] + opt
            + ["-r:" + r for r in refs + antlr + [fscore] + deps]
            + ["--resource:%s,%s" % (f, n) for f, n in resources] + srcs)
        if exe:
            open("%s/%s.runtimeconfig.json" % (out, name), "w").write(rt)
        return o

    def proj(name):
        return ["%s/%s/%s" % (src, name, f) for f in includes("%s/%s/%s.fsproj" % (src, name, name))]

    pool = ThreadPoolExecutor(8)
    T0 = time.time()

    def log(s):
        if os.environ.get("VERIF_VERBOSE"):
            sys.stderr.write("%6.1f %s\n" % (time.time() - T0, s))

    # parseStg2 -> generated .stg.fs files, and the antlr grammars, in parallel
    f_fst = pool.submit(fsharp, "FsToolkit.ErrorHandling", [HERE + "/shims/FsToolkit/FsToolkit.fs"], [])

    def do_antlr():
        d = src + "/Antlr"
        jar = "antlr313/antlr-3.2.jar"
        a = pool.submit(run, ["java", "-jar", jar, "-o", ".", "asn1.g"], d)
        run(["java", "-jar", jar, "-o", ".", "acn.g"], d)
        a.result()
        r = csharp("Antlr", sorted(glob.glob(d + "/*.cs") + glob.glob(d + "/Properties/*.cs")), False)
        log("antlr")
        return r
    f_antlr = pool.submit(do_antlr)
    pst = csharp("parseStg2", sorted(glob.glob(src + "/parseStg2/*.cs")), True)
    log("parseStg2")
    gens = [("CommonTypes", ["../StgScala/backends.xml", "4", "AbstractMacros.fs"]), ("StgVarious", ["backends.xml"]),
            ("StgC", ["backends.xml", "3"]), ("StgAda", ["backends.xml", "3"]), ("StgScala", ["backends.xml", "3"])]
    futs = [pool.submit(run, ["dotnet", pst] + a, "%s/%s" % (src, d)) for d, a in gens]
    [f.result() for f in futs]
    log("stg generated")
    for f in antlr + [fscore]:
        shutil.copy(f, out)
    dAntlr, dFst = f_antlr.result(), f_fst.result()
    res = [(os.path.normpath(src + "/asn1scc/" + r), "asn1scc." + os.path.basename(r))
           for r in includes(src + "/asn1scc/asn1scc.fsproj", "EmbeddedResource")]
    schema = (src + "/FrontEndAst/Asn1Schema.xsd", "FrontEndAst.Asn1Schema.xsd")
    argu = HERE + "/shims/Argu/Argu.fs"
    order = ["CommonTypes", "ST", "StgVarious", "FrontEndAst", "StgC", "StgAda", "StgScala", "BackendAst"]
    try:
        # all F# projects as one assembly: half the time of nine separate ones
        fsharp("asn1scc", sum((proj(p) for p in order), []) + [argu] + proj("asn1scc"), [dAntlr, dFst], True, res + [schema])
        log("asn1scc (merged)")
    except BuildError as e:
        log("merged build failed, building project by project: " + str(e)[-300:])
        f_argu = pool.submit(fsharp, "Argu", [argu], [])
        dCT = fsharp("CommonTypes", proj("CommonTypes"), [])
        f_st = pool.submit(fsharp, "ST", proj("ST"), [dCT])
        f_fe = pool.submit(fsharp, "FrontEndAst", proj("FrontEndAst"), [dCT, dAntlr, dFst], False, [schema])
        dST = f_st.result()
        dSV = fsharp("StgVarious", proj("StgVarious"), [dCT, dST])
        dFE = f_fe.result()
        stg = [pool.submit(fsharp, n, proj(n), [dCT, dST, dSV, dFE]) for n in ("StgC", "StgAda", "StgScala")]
        dStg = [f.result() for f in stg]
        dBE = fsharp("BackendAst", proj("BackendAst"), [dCT, dST, dSV, dFE, dAntlr] + dStg)
        fsharp("asn1scc", proj("asn1scc"), [dCT, dST, dSV, dFE, dAntlr, dBE, f_argu.result()] + dStg, True, res)
        log("asn1scc")
    for d in ("StgC", "StgAda", "StgScala", "StgVarious"):
        for f in glob.glob("%s/%s/*.stg" % (src, d)):
            shutil.copy(f, out)


def ensure(repo="/repo"):
    """-> directory with asn1scc.dll built from repo's working tree"""
    files = tracked(repo)
    key = digest(repo, files)
    os.makedirs(CACHE, exist_ok=True)
    dest = os.path.join(CACHE, "asn1scc-" + key)
    lock = open(os.path.join(CACHE, "build.lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.isfile(dest + "/asn1scc.dll"):
            return dest
        tmp = tempfile.mkdtemp(prefix="b-", dir=CACHE)
        try:
            src = tmp + "/src"
            for f in files:
                t = os.path.join(src, f)
                os.makedirs(os.path.dirname(t), exist_ok=True)
                shutil.copyfile(os.path.join(repo, f), t)
            build(repo, src, tmp + "/out")
            # keep only the most recent few builds
            old = sorted(glob.glob(CACHE + "/asn1scc-*"), key=os.path.getmtime)
            for o in old[:-5]:
                shutil.rmtree(o, ignore_errors=True)
            os.rename(tmp + "/out", dest)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        return dest
    finally:
        lock.close()


if __name__ == "__main__":
    try:
        print(ensure(sys.argv[1] if len(sys.argv) > 1 else "/repo"))
    except BuildError as e:
        sys.stderr.write(str(e) + "\n")
        sys.exit(2)
