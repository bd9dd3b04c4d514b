#!/usr/bin/env python3
"""Single source of truth for properties.jsonl and MANIFEST.json.  Run: python3 tools/props.py"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), technique=None, level=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, state=state, observe=observe, technique=technique, level=level, note=note, na=na))

ENUM = "bounded-exhaustive enumeration of the real code against a reference model"
SCHED = "stateless model checking: every schedule up to a preemption bound on the real code, race detector on every schedule"
SEQ = "explicit-state search over operation sequences of the real code against a reference model"

exec(open(os.path.join(ROOT, "tools", "props_data.py")).read())

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                     quantifier=dict(over=p["over"], text=p["text"]),
                     why_tests_cant=p["why"],
                     anchors=dict(files=p["files"],
                                  mechanism=[dict(name=n, where=w) for n, w in p["mechanism"]]))
            if p["state"]:
                d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
            if p["observe"]:
                d["anchors"]["observe_at"] = list(p["observe"])
            d["anchors"]["hook_needed"] = None
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in P:
        have = os.path.isdir(os.path.join(ROOT, "checks", p["id"].lower()))
        if p["na"] or not have:
            na.append(dict(property=p["id"], reason=p["na"] or "planned; check under construction"))
            continue
        checks.append(dict(property=p["id"],
                           quick_cmd="./run.sh " + p["id"],
                           thorough_cmd="./run.sh " + p["id"] + " thorough",
                           evidence_file="evidence/%s.json" % p["id"],
                           technique=p["technique"], level=p["level"], level_note=p["note"]))
    m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
             notes="Checks build from /repo's working tree into a scratch directory; no hooks are committed to /repo "
                   "(instrumentation is generated into a build overlay at check time). Known findings: known-findings.json.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
main()
