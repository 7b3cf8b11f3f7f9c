#!/usr/bin/env python3
"""Development helper: turn an edit into a planted change and confirm it (not used by any check).
usage: plant.py ID PROPERTY FILE  <<< "OLD\n===>\nNEW"   (several edits: separate by a line '@@@@ FILE')
Works in the scratch copy /tmp/plant (created from /repo with cp -a), writes seeded/ID/patch.diff, then
builds, runs the stable tests, and runs seeded/ID/demo.sh in both trees."""
import os, subprocess, sys, json
S = "/tmp/plant"
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def confirm(d):
    """stable tests with the patch: needs /repo itself, because the build scripts name it"""
    r = sh("git -C /repo apply %s/patch.diff" % d)
    assert r.returncode == 0, r.stdout
    try:
        b = sh("bash /opt/vp/build.sh")
        t = sh("bash /opt/vp/test.sh /tmp/plant_t.json")
        d1 = sh("bash %s/demo.sh" % d, cwd="/repo", timeout=300)
    finally:
        sh("git -C /repo checkout -- .")
    sh("bash /opt/vp/build.sh")
    d0 = sh("bash %s/demo.sh" % d, cwd="/repo", timeout=300)
    res = json.load(open("/tmp/plant_t.json"))
    ok = b.returncode == 0 and len(res["failed"]) == 0 and len(res["passed"]) == 160 and d1.returncode != 0 and d0.returncode == 0
    print("%s build=%d passed=%d failed=%s demo clean=%d patched=%d -> %s" % (d, b.returncode, len(res["passed"]), res["failed"][:5], d0.returncode, d1.returncode, "OK" if ok else "BAD"))
    if not ok: print(b.stdout[-1500:], "---clean", d0.stdout[-1500:], "---patched", d1.stdout[-1500:])
    return ok
def main():
    if sys.argv[1] == "--confirm":
        sys.exit(not all([confirm("/verif/seeded/" + x) for x in sys.argv[2:]]))
    id, prop, f = sys.argv[1:4]
    sh("git -C /repo worktree prune")
    edits = []
    for part in ("@@@@ %s\n" % f + sys.stdin.read()).split("@@@@ ")[1:]:
        name, body = part.split("\n", 1)
        old, new = body.split("\n===>\n")
        edits.append((name.strip(), old, new.rstrip("\n")))
    for name, old, new in edits:
        p = "/repo/" + name
        s = open(p, newline="").read()
        if "\r\n" in s: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        assert s.count(old) == 1, (name, s.count(old))
        open(p, "w", newline="").write(s.replace(old, new))
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "wb").write(subprocess.check_output(["git", "-C", "/repo", "diff"]))
    sh("git -C /repo checkout -- .")
if __name__ == "__main__": main()
