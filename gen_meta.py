#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py (committed outputs)."""
import json
import props
with open("properties.jsonl", "w") as f:
    for p in props.PROPS:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
man = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": "python3 check.py %s quick" % p["id"],
            "thorough_cmd": "python3 check.py %s thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["_technique"],
            "level": "exploration",
            "level_note": p["_note"],
        }
        for p in props.PROPS if "_technique" in p
    ],
    "not_applicable": props.NOT_APPLICABLE,
    "notes": props.NOTES,
}
json.dump(man, open("MANIFEST.json", "w"), indent=1)
