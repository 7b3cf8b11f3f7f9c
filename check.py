#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE]

Runs the generated-input search that decides one property against the current tree of the repository
(REPO, default /repo). Exit 0: held on everything explored. Exit 1: a VIOLATION line was printed."""
import argparse, json, os, shutil, sys, tempfile, time, traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from lib import common, rtl  # noqa: E402

RTL = rtl.PARTS


def run(pid, tier, seed, ctx):
    if pid in RTL:
        return rtl.run(pid, tier, seed, ctx)
    import spec.checks as sc
    return sc.run(pid, tier, seed, ctx)


def replay(pid, path, ctx):
    if pid in RTL:
        return rtl.replay(pid, path, ctx)
    import spec.checks as sc
    return sc.replay(pid, path, ctx)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    pid, t0 = a.property, time.time()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    os.chmod(tmp, 0o755)
    ctx = common.Ctx(pid, tmp, a.tier, a.seed)
    try:
        if a.replay:
            bad = replay(pid, a.replay, ctx)
            print("replay: " + (bad if bad else "the property holds on this case"))
            if bad:
                print("VIOLATION property=%s replay=%s" % (pid, a.replay))
            return 1 if bad else 0
        try:
            res = run(pid, a.tier, a.seed, ctx)
        except common.BrokenTree as e:
            # the tree cannot even be built: nothing about the property was established
            path = common.save_replay(pid, {"kind": "build", "message": str(e)[-4000:]})
            print(str(e)[-4000:])
            print("VIOLATION property=%s replay=%s" % (pid, path))
            common.write_evidence(pid, a.tier, a.seed, {"evaluations": 0, "distinct_nontrivial": 0, "rule": "the tree did not build", "samples": ["build failure"]}, t0, 1, [])
            return 1
        known = common.known_for(pid)
        new = []
        for f in res["failures"]:
            if f["key"] not in known:
                new.append(f)
        hit = {f["key"] for f in res["failures"]}
        for k, what in known.items():
            print("KNOWN-FINDING: property=%s %s%s" % (pid, what, "" if k in hit else " (not met on this run)"))
        paths = []
        for f in new[:20]:
            paths.append(common.save_replay(pid, f["replay"]))
            print("  %s: %s" % (f["key"], f["msg"][:1500]))
        cov = res["coverage"]
        common.write_evidence(pid, a.tier, a.seed, cov, t0, len(new), res.get("assumptions", []))
        print("%s %s: %d cases, %d distinct non-trivial, %d failures (%d known), %.1f s" % (
            pid, a.tier, cov["evaluations"], cov["distinct_nontrivial"], len(res["failures"]), len(res["failures"]) - len(new), time.time() - t0))
        for p in paths:
            print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1 if new else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
