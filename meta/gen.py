#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables in meta/props.py
(run by hand after editing the table; both outputs are committed)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props

root = os.path.dirname(HERE)
checks, na = [], []
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        assert len(p["title"]) <= 80, p["id"]
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["quant"]),
                 why_tests_cant=p["why"],
                 anchors=dict(files=p["files"],
                              mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                              observe_at=p["observe"]))
        f.write(json.dumps(d) + "\n")
        if p.get("na"):
            na.append(dict(property=p["id"], reason=p["na"]))
        else:
            checks.append(dict(property=p["id"], quick_cmd="python3 check.py " + p["id"],
                               thorough_cmd="python3 check.py %s --thorough" % p["id"],
                               technique=p["technique"], level=p.get("level", "other"),
                               level_note=p["note"]))
m = dict(version=1, setup_cmd="python3 check.py --setup",
         checks=checks, not_applicable=na,
         notes="Static analysis only. One C++ fact extractor (clang LibTooling) is built by setup_cmd; "
               "every check re-extracts the facts it needs from /repo's working tree and decides on them. "
               "No hooks in /repo.")
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed", len(na), "not applicable")
