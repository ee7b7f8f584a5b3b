#!/usr/bin/env python3
"""Regenerates MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H); sys.dont_write_bytecode = True
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 check.py --build",
    checks=[dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="python3 check.py %s --tier thorough" % i,
        evidence_file="evidence/%s.json" % i, technique=props.PROPS[i]["technique"], level=props.PROPS[i]["level"],
        level_note=props.PROPS[i]["note"]) for i in ids if i in props.PROPS],
    not_applicable=[dict(property=i, reason="monitor not built yet") for i in ids if i not in props.PROPS],
    notes="No hooks in /repo: all observation goes through the public interface, linker interposition and sanitizer builds. See DESIGN.md and known_findings.txt.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1); open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
