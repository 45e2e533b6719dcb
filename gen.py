#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
sys.dont_write_bytecode = True
from props import PROPS
try:
    from props import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = {}
here = os.path.dirname(os.path.abspath(__file__))
with open(here + "/properties.jsonl", "w") as f:
    for k, p in sorted({**PROPS, **NOT_APPLICABLE}.items()):
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": k, "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": p["mechanism"], "hook_needed": None},
        }) + "\n")
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [{
        "property": k,
        "quick_cmd": "./check.py %s quick" % k,
        "thorough_cmd": "./check.py %s thorough" % k,
        "technique": "symbolic execution of the crate's LLVM IR, branches and assertions decided by Z3",
        "level": "model_checking",
        "level_note": "Holds for all values within the bounds: " + p["bounds"] + " Outside: " + p["outside"] + ". Trusts the symbolic executor "
        "(validated on every run by native replay of path witnesses), Z3, the translation to LLVM IR, and idealised SHA-256 and AES on symbolic data.",
    } for k, p in sorted(PROPS.items())],
    "not_applicable": [{"property": k, "reason": p["reason"]} for k, p in sorted(NOT_APPLICABLE.items())],
}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
