#!/usr/bin/env python3
"""Regenerates properties.jsonl, MANIFEST.json and DESIGN.md from tools/props.py (one source for all three)."""
import json, os, sys, glob
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props

PY = "/opt/venv/bin/python"


def main():
    have = {p["id"] for p in props.PROPS if os.path.exists(os.path.join(ROOT, "checks", p["id"].lower() + ".py"))}
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in props.PROPS:
            if p["id"] not in have and not p.get("not_applicable"):
                continue
            assert len(p["title"]) <= 80, p["id"]
            o = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                             "observe_at": p["observe"], "hook_needed": None}}
            f.write(json.dumps(o) + "\n")
    m = {"version": 1, "setup_cmd": "%s -m compileall -q vlib checks run_check.py" % PY, "checks": [],
         "not_applicable": [{"property": p["id"], "reason": p["not_applicable"]} for p in props.PROPS if p.get("not_applicable")],
         "notes": "No hooks in /repo are needed: every monitor observes the public API and the files it writes."}
    for p in props.PROPS:
        if p["id"] not in have:
            continue
        m["checks"].append({"property": p["id"],
                            "quick_cmd": "%s run_check.py %s --tier quick" % (PY, p["id"]),
                            "thorough_cmd": "%s run_check.py %s --tier thorough" % (PY, p["id"]),
                            "evidence_file": "evidence/%s.json" % p["id"],
                            "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    out = [open(os.path.join(HERE, "design_head.md")).read().rstrip(), "", "## Properties and how each is decided", ""]
    for p in props.PROPS:
        if p["id"] not in have and not p.get("not_applicable"):
            continue
        out += ["### %s %s" % (p["id"], p["title"]), "", p["statement"], ""]
        if p.get("not_applicable"):
            out += ["Not applicable: " + p["not_applicable"], ""]
        else:
            out += ["*Decided by* (%s): %s" % (p["technique"], p["design"]), "",
                    "*Bounds and trust*: " + p["note"], ""]
    out += [open(os.path.join(HERE, "design_tail.md")).read().rstrip(), ""]
    rows = []
    for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
        mm = json.load(open(d))
        rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), mm["property"], mm["needs"].replace("|", "/"),
                                               mm.get("caught_by", "?")))
    out += ["## Planted bugs", "", "Each is in `seeded/<id>/`; the last column lists the checks seen to exit 1 with it applied "
            "(quick tier, seed 1).", "", "| bug | property | needs | caught by |", "|---|---|---|---|"] + rows + [""]
    with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
        f.write("\n".join(out))


main()
