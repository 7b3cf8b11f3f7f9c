"""C runtime properties: build the runtime from the current tree together with the C++ harness and run it."""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from . import common

SRC = ["asn1crt", "asn1crt_encoding", "asn1crt_encoding_acn", "asn1crt_encoding_uper", "asn1crt_encoding_ber", "asn1crt_encoding_xer"]
FLAGS = ["-O1", "-g", "-fwrapv", "-fsanitize=address,bounds,null", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-w"]
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1")

# property -> parts (harness, defines for the runtime and the harness)
PARTS = {
    "P20": [("h_bits", [])], "P27": [("h_bits", [])],
    "P21": [("h_per", [])], "P22": [("h_per", [])], "P23": [("h_per", [])], "P24": [("h_per", [])],
    "P30": [("h_ber", [])], "P31": [("h_xer", [])], "P28": [("h_dec", [])], "P32": [("h_w32", [])], "P33": [("h_ada", [])], "P29": [("h_stream", ["-DASN1SCC_STREAMING"])],
    "P25": [("h_acn", [])], "P26": [("h_acn", [])],
}
RULE = "each case is drawn from a pseudo-random choice sequence; it is non-trivial when the harness marks it so (the item exercised more than its empty or default form) and distinct by the hash of its choices"


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def compile_all(jobs):
    with ThreadPoolExecutor(8) as ex:
        for c, r in zip(jobs, ex.map(sh, jobs)):
            if r.returncode != 0:
                raise common.BrokenTree("%s\n%s" % (" ".join(c), r.stdout))


W32 = {"w8": [], "w4": ["-DWORD_SIZE=4"], "w8f4": ["-DFP_WORD_SIZE=4"], "w4f4": ["-DWORD_SIZE=4", "-DFP_WORD_SIZE=4"]}


def build_w32(tmp):
    """one shared object per word-size configuration, and the harness that loads them"""
    rt, d, me = os.path.join(common.REPO, "asn1crt"), os.path.join(tmp, "h_w32"), os.path.join(common.ROOT, "rtl")
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, "h_w32")
    if os.path.exists(exe):
        return exe
    inc, jobs = ["-I" + rt, "-I" + me], []
    for n, defs in W32.items():
        jobs += [["clang"] + FLAGS + defs + inc + ["-fPIC", "-c", os.path.join(rt, s + ".c"), "-o", os.path.join(d, n + "-" + s + ".o")] for s in SRC]
        jobs.append(["clang++", "-std=c++17"] + FLAGS + defs + inc + ["-fPIC", "-fvisibility=hidden", "-c", os.path.join(me, "w32_api.cpp"), "-o", os.path.join(d, n + "-api.o")])
    jobs.append(["clang++", "-std=c++17"] + FLAGS + inc + ["-c", os.path.join(me, "h_w32.cpp"), "-o", os.path.join(d, "h.o")])
    compile_all(jobs)
    link = [["clang++"] + FLAGS + ["-shared", "-Wl,-Bsymbolic"] + [os.path.join(d, n + "-" + s + ".o") for s in SRC + ["api"]] + ["-o", os.path.join(d, n + ".so")] for n in W32]
    compile_all(link + [["clang++"] + FLAGS + [os.path.join(d, "h.o"), "-ldl", "-o", exe]])
    return exe


def build_ada(tmp):
    """the Ada runtime with a generated C-callable layer, the C runtime, and the harness comparing them"""
    rt, d, me = os.path.join(common.REPO, "asn1crt"), os.path.join(tmp, "h_ada"), os.path.join(common.ROOT, "rtl")
    ada = os.path.join(common.REPO, "ADA_RTL2")
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, "h_ada")
    if os.path.exists(exe):
        return exe
    for f in os.listdir(os.path.join(ada, "src")):
        if f.endswith((".ads", ".adb")):
            shutil.copy(os.path.join(ada, "src", f), d)
    shutil.copy(os.path.join(ada, "boards", "x86_board_config.ads"), os.path.join(d, "board_config.ads"))
    compile_all([["python3", os.path.join(me, "ada", "mkglue.py"), d]])
    for c in (["gnatmake", "-q", "-j8", "-c", "-gnat2012", "-gnata", "-O1", "-gnatws", "glue.adb"], ["gnatbind", "-n", "glue.ali"], ["gcc", "-c", "-gnatws", "b~glue.adb"]):
        r = sh(c, cwd=d)
        if r.returncode != 0:
            raise common.BrokenTree("%s\n%s" % (" ".join(c), r.stdout))
    objs = [os.path.join(d, f) for f in os.listdir(d) if f.endswith(".o")]
    jobs = [["clang"] + FLAGS + ["-I" + rt, "-c", os.path.join(rt, s + ".c"), "-o", os.path.join(d, "c-" + s + ".o")] for s in SRC]
    jobs.append(["clang++", "-std=c++17"] + FLAGS + ["-I" + rt, "-I" + me, "-I" + d, "-c", os.path.join(me, "h_ada.cpp"), "-o", os.path.join(d, "c-h.o")])
    compile_all(jobs)
    lib = subprocess.run(["gcc", "-print-file-name=adalib"], stdout=subprocess.PIPE, text=True).stdout.strip()
    compile_all([["clang++"] + FLAGS + [os.path.join(d, "c-" + s + ".o") for s in SRC + ["h"]] + objs + [os.path.join(lib, "libgnat.a"), "-lm", "-ldl", "-lpthread", "-o", exe]])
    return exe


def build(harness, defs, tmp):
    if harness == "h_w32":
        return build_w32(tmp)
    if harness == "h_ada":
        return build_ada(tmp)
    rt = os.path.join(common.REPO, "asn1crt")
    d = os.path.join(tmp, harness + "".join(x.replace("-D", "_").replace("=", "") for x in defs))
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, harness)
    if os.path.exists(exe):
        return exe
    jobs = [["clang"] + FLAGS + defs + ["-I" + rt, "-c", os.path.join(rt, s + ".c"), "-o", os.path.join(d, s + ".o")] for s in SRC]
    jobs.append(["clang++", "-std=c++17"] + FLAGS + defs + ["-I" + rt, "-I" + os.path.join(common.ROOT, "rtl"), "-c", os.path.join(common.ROOT, "rtl", harness + ".cpp"), "-o", os.path.join(d, "h.o")])
    compile_all(jobs)
    compile_all([["clang++"] + FLAGS + [os.path.join(d, s + ".o") for s in SRC + ["h"]] + ["-lm", "-ldl", "-o", exe]])
    return exe


def one(exe, sub, choices, tmp):
    p = os.path.join(tmp, "replay.in")
    with open(p, "w") as f:
        f.write(sub + "\n" + " ".join(choices) + "\n")
    r = subprocess.run([exe, "--replay", p, "--tmp", tmp], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=ENV, errors="replace")
    l = r.stdout.split("\n", 2)
    if r.returncode != 0 or len(l) < 3:
        return None
    return (int(l[0]), l[1], l[2])


def run(pid, tier, seed, ctx):
    fails, ev, dn, samples, detail, disc = [], 0, 0, [], {}, 0
    known = common.known_for(pid)
    for harness, defs in PARTS[pid]:
        exe = build(harness, defs, ctx.tmp)
        out = os.path.join(ctx.tmp, "out.json")
        cmd = [exe, "--seed", str(seed), "--only", pid + ".", "--out", out, "--tmp", ctx.tmp, "--workers", "8"] + (["--thorough"] if tier == "thorough" else [])
        suffix = "".join("+" + x.replace("-D", "") for x in defs)
        for k in known:
            cmd += ["--known", k.replace(suffix + "/", "/", 1) if suffix else k]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, errors="replace")
        if r.returncode != 0:
            raise RuntimeError("harness %s failed: %d %s" % (harness, r.returncode, r.stdout[-2000:]))
        d = json.loads(open(out, errors="replace").read(), strict=False)
        for k, v in d["stats"].items():
            ev += v["evaluations"]; dn += v["distinct_nontrivial"]; disc += v["discards"]
            samples += ["%s%s: %s" % (k, suffix, s) for s in v["samples"][:2]]
            detail[k + suffix] = {x: v[x] for x in ("evaluations", "discards", "excluded_known", "distinct_nontrivial", "labels")}
        for f in d["failures"]:
            key = "%s%s/%s" % (f["sub"], suffix, f["tag"])
            if f["tag"] == "unreproduced":
                print("note: a failure of %s was not reproducible and is not reported: %s" % (key, f["msg"][:300]))
                continue
            if key not in known:
                ok = [one(exe, f["sub"], f["choices"], ctx.tmp) for _ in range(3)]
                if any(x is None or x[0] <= 0 or x[1] != f["tag"] for x in ok):
                    print("note: %s did not reproduce three times: %s" % (key, ok))
                    continue
            fails.append({"key": key, "msg": f["msg"], "replay": {"property": pid, "harness": harness, "defines": defs, "sub": f["sub"], "tag": f["tag"], "choices": f["choices"], "message": f["msg"]}})
    cov = {"evaluations": ev, "distinct_nontrivial": dn, "rule": RULE, "samples": samples[:12], "discarded": disc, "by_sub_property": detail}
    return {"failures": fails, "coverage": cov, "assumptions": ["64-bit little-endian Linux target, clang 18 -O1 with address and bounds sanitizers"]}


def replay(pid, path, ctx):
    o = json.load(open(path))
    if o.get("kind") == "build":
        try:
            for h, defs in PARTS[pid]:
                build(h, defs, ctx.tmp)
        except common.BrokenTree as e:
            return str(e)[-2000:]
        return None
    exe = build(o["harness"], o["defines"], ctx.tmp)
    r = one(exe, o["sub"], o["choices"], ctx.tmp)
    return "%s/%s: %s" % (o["sub"], r[1], r[2]) if r and r[0] > 0 else None
