"""Regenerates MANIFEST.json from the registry and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
import registry
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for p in props:
    if p in registry.CHECKS:
        c = registry.CHECKS[p]
        checks.append(dict(property=p, quick_cmd="./check %s --tier quick" % p, thorough_cmd="./check %s --tier thorough" % p,
                           technique=c["technique"], level=c["level"], level_note=c.get("note") or registry.NOTES[c["level"]]))
na = [dict(property=p, reason=registry.NOT_APPLICABLE.get(p, "check not built yet")) for p in props if p not in registry.CHECKS]
m = dict(version=1, setup_cmd="./check --setup", hooks=dict(guard="SMALL_GICP_VERIF", enable="no hooks are needed: the harnesses compile /repo's sources unmodified", source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
