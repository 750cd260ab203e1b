import json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + "/vlib")
import spec
m = dict(version=1, setup_cmd="python3 run.py --setup", checks=[], not_applicable=[])
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
for i in ids:
    if i in spec.PROPS:
        p = spec.PROPS[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 run.py %s quick" % i, thorough_cmd="python3 run.py %s thorough" % i, technique=p["technique"], level=p["level"], level_note=p["note"]))
    else:
        m["not_applicable"].append(dict(property=i, reason="check under construction"))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
