#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registry below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRACE = "TLA+ specification (spec/Packets.tla); recorded dumps of the real code validated by TLC (spec/DumpTrace.tla)"
TRACE_NOTE = ("TLC evaluates the specification on every recorded dump and rejects any behaviour it does not allow, projected "
              "onto this property; inputs are systematic sweeps plus seeded random streams, so the assurance is bounded "
              "by the inputs recorded. Trusted: TLC, the Go standard library decompressors used as oracle, the harness projection.")
CHECKS = {}
for p in "C02 C03 C04 C05 C06 C07 C08 C11 C12 C16 C22 C23".split():
    CHECKS[p] = (TRACE, TRACE_NOTE)
exec(open(os.path.join(V, "tools", "manifest_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "manifest_more.py")) else None
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         checks=[dict(property=p, quick_cmd="python3 check.py %s quick" % p, thorough_cmd="python3 check.py %s thorough" % p,
                      evidence_file="evidence/%s.json" % p, technique=CHECKS[p][0], level="model_checking",
                      level_note=CHECKS[p][1]) for p in props if p in CHECKS],
         not_applicable=[dict(property=p, reason="check not built yet") for p in props if p not in CHECKS],
         notes="No hooks: the checks use only the public API of /repo and its command line. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), len(m["not_applicable"]))
