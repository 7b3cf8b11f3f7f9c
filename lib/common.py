import hashlib, json, os, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO", "/repo")
CACHE = os.path.join(ROOT, ".cache")


class BrokenTree(Exception):
    """The sources under test do not compile."""


class Ctx:
    def __init__(self, pid, tmp, tier, seed):
        self.pid, self.tmp, self.tier, self.seed = pid, tmp, tier, seed
        self.thorough = tier == "thorough"


def known_for(pid):
    """known_findings.txt: 'known: property=<id> key=<key> <what fails>' suppresses exactly that key."""
    r = {}
    try:
        for l in open(os.path.join(ROOT, "known_findings.txt")):
            l = l.strip()
            if l.startswith("known: property=%s key=" % pid):
                key, what = l.split(" key=", 1)[1].split(" ", 1)
                r[key] = what
    except FileNotFoundError:
        pass
    return r


def save_replay(pid, obj):
    d = os.path.join(CACHE, "replay")
    os.makedirs(d, exist_ok=True)
    s = json.dumps(obj, indent=1, sort_keys=True)
    p = os.path.join(d, "%s-%s.json" % (pid, hashlib.sha1(s.encode()).hexdigest()[:10]))
    with open(p, "w") as f:
        f.write(s)
    return p


def write_evidence(pid, tier, seed, cov, t0, violations, assumptions):
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    o = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": assumptions,
         "wall_s": round(time.time() - t0, 2), "violations": violations}
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(o, f, indent=1)
