#!/usr/bin/env python3
"""One table for the listed properties: writes properties.jsonl and MANIFEST.json."""
import json, os, subprocess
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
DST = "deterministic simulation with fault injection (seeded schedules, crash points and disk faults over the real engine, judged by an executable reference model)"
def prop(id, title, statement, over, text, tests, files, mech, observe=None, state=None, technique=DST, note="", hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=tests,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **({"state": state} if state else {}), **({"observe_at": observe} if observe else {}), hook_needed=hook),
                  _technique=technique, _note=note))
exec(open(os.path.join(R, "tools", "table.py")).read())
LEDGER_NOTE = ("Exploration: seeded simulated histories of a small cluster of real engines (propose, validate, replay, commit, restart) over an in-memory, fault-injecting store. "
               "Trusts the reference model, the storage stand-in and the fixtures' message shapes; says nothing about histories not reached.")
with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
man = dict(version=1, setup_cmd="bash setup.sh",
    hooks=dict(guard="cfg(snapsim)", enable="RUSTFLAGS='--cfg snapsim' (set by env.sh for every build of the harness)", source_commits=HOOK_COMMITS),
    checks=[dict(property=p["id"], quick_cmd=f"bash check.sh {p['id']}", thorough_cmd=f"bash check.sh {p['id']} --thorough", technique=p["_technique"], level="exploration", level_note=p["_note"] or LEDGER_NOTE)
            for p in P if p["id"] not in {n["property"] for n in NA}],
    not_applicable=NA)
with open(os.path.join(R, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(man["checks"]), "checks")
