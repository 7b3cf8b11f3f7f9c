#!/usr/bin/env python3
"""Regenerates MANIFEST.json: claimed properties, their commands and technique, and the ones not claimed with the reason."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PBT = "property-based testing: seeded generation from a shrinking choice sequence against an independent reference model (C++ engine, AddressSanitizer-guarded exact-size buffers)"
SPEC = "property-based testing at compiler level: random ASN.1/ACN specifications and values, generated code compiled and driven, judged by an independent reference encoder and validator; failures shrunk to a minimal specification and value"
CLAIMS = json.load(open(os.path.join(R, "tools", "claims.json")))
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    c = CLAIMS["checks"].get(i)
    if c:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": {"pbt": PBT, "spec": SPEC}.get(c["technique"], c["technique"]), "level": "exploration", "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": CLAIMS["not_applicable"].get(i, "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "hooks": CLAIMS["hooks"], "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
