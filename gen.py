import json, spec
from props import PROPS
claimed, na = [], []
with open("/verif/properties.jsonl", "w") as f:
    for p, c in spec.PROPERTIES:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
        assert p["id"] in PROPS
        claimed.append(dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"], thorough_cmd="python3 check.py %s thorough" % p["id"],
                            technique=c["technique"], level=c["level"], level_note=c["note"]))
    for p, reason in spec.NOT_APPLICABLE:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
        na.append(dict(property=p["id"], reason=reason))
json.dump(dict(version=1, setup_cmd="make -s -j4 -C tool", checks=claimed, not_applicable=na,
               notes="All checks analyse LLVM IR compiled from /repo's current sources; nothing of RayforceDB/rayforce is executed. Shared driver: check.py; analyser: tool/; recorded defects: known-findings.txt."),
          open("/verif/MANIFEST.json", "w"), indent=1)
