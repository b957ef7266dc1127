"""gen.py : write properties.jsonl and MANIFEST.json from props.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE, NA_PROPS
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for pid, p in sorted({**PROPS, **NA_PROPS}.items()):
        d = {"id": pid, "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
        assert len(p["title"]) <= 80, pid
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": pid, "quick_cmd": "bash run.sh %s quick" % pid, "thorough_cmd": "bash run.sh %s thorough" % pid,
                 "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for pid, p in sorted(PROPS.items())],
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NOT_APPLICABLE.items())]}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
