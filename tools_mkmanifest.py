"""regenerates MANIFEST.json from properties.jsonl and checks/"""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
NOTES = json.load(open(os.path.join(here, "level_notes.json")))
NA = NOTES.get("not_applicable", {})
checks, na = [], []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists(os.path.join(here, "checks", i.lower() + ".py")) and i not in NA:
        checks.append(dict(
            property=i,
            quick_cmd=f"python3-vt check.py {i} --tier quick",
            thorough_cmd=f"python3-vt check.py {i} --tier thorough",
            evidence_file=f"evidence/{i}.json",
            technique=NOTES["technique"],
            level="model_checking",
            level_note=NOTES["level_note"].get(i, NOTES["level_note"]["default"]),
        ))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="python3-vt selftest.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the checks import daisy from /repo's working tree and execute it symbolically.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
