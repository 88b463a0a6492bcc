"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props  # noqa: E402


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in props.PROPS:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["forall"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p["files"],
                    "mechanism": [{"name": n, "where": w}
                                  for n, w in p["mechanism"]]},
            }) + "\n")
    man = {"version": 1, "setup_cmd": "./setup.sh", "checks": [],
           "not_applicable": [], "notes": props.NOTES}
    for p in props.PROPS:
        if "na" in p:
            man["not_applicable"].append({"property": p["id"],
                                          "reason": p["na"]})
        else:
            man["checks"].append({
                "property": p["id"],
                "quick_cmd": "./check.sh %s quick" % p["id"],
                "thorough_cmd": "./check.sh %s thorough" % p["id"],
                "technique": p["technique"], "level": "other",
                "level_note": p["note"]})
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
