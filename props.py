#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below."""

import json
import sys
from pathlib import Path

HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
TECH = "bounded symbolic execution of the real Python code with z3 (all paths, all values within bounds)"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), note="", na=None, observe=()):
    files = [("quantify_scheduler/" + f) if not f.startswith("/") else f[1:] for f in files]
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        a["observe_at"] = list(observe)
    a["hook_needed"] = None
    P.append(
        (
            dict(
                id=id,
                title=title,
                statement=statement,
                quantifier={"over": over, "text": text},
                why_tests_cant=why,
                anchors=a,
            ),
            note,
            na,
        )
    )


exec((HERE / "props_list.py").read_text())


def main():
    from harness.index import MODULES

    with open(HERE / "properties.jsonl", "w") as f:
        for p, _, _ in P:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p, note, reason in P:
        i = p["id"]
        assert len(p["title"]) <= 80, i
        if reason:
            na.append({"property": i, "reason": reason})
            assert i not in MODULES
            continue
        assert i in MODULES, i
        checks.append(
            {
                "property": i,
                "quick_cmd": f"./check.py {i} --tier quick",
                "thorough_cmd": f"./check.py {i} --tier thorough",
                "evidence_file": f"evidence/{i}.json",
                "technique": TECH,
                "level": "other",
                "level_note": note,
            }
        )
    assert {c["property"] for c in checks} == set(MODULES)
    m = {
        "version": 1,
        "setup_cmd": "./check.py --selftest",
        "checks": checks,
        "not_applicable": na,
    }
    (HERE / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")


main()
