"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py writes both."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
P = "blueprint/src/python/"

PROPS = []


def prop(id, title, statement, over, text, why, files, mech, note, state=None, observe=None):
    a = {"files": [P + f for f in files], "mechanism": [{"name": n, "where": P + w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "where": P + w} for n, w in state]
    if observe:
        a["observe_at"] = observe
    PROPS.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
                   "why_tests_cant": why, "anchors": a}, note))


NA = []


def na(pid, reason):
    NA.append({"property": pid, "reason": reason})


exec(open(os.path.join(HERE, "props_data.py")).read())


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p, _ in PROPS:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    ids_na = {x["property"] for x in NA}
    py = "/opt/venv/bin/python -B sim/run.py check "
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B sim/run.py setup",
         "checks": [{"property": p["id"], "quick_cmd": py + p["id"] + " --tier quick",
                     "thorough_cmd": py + p["id"] + " --tier thorough",
                     "technique": "deterministic simulation with fault injection", "level": "exploration",
                     "level_note": note} for p, note in PROPS if p["id"] not in ids_na],
         "not_applicable": NA,
         "notes": "No hooks in /repo: every seam is installed from /verif/sim/env.py at import time, so there is no guard "
                  "variable. Commits in /repo are fix: commits only; see known_findings.jsonl and DESIGN.md."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
