#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing)."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, note=None, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=None),
        _note=note))
S, I, H, C, F, CP, PR = "schedules", "inputs", "histories", "configurations", "fault_sequences", "crash_points", "programs"
exec(open(os.path.join(here, "tools", "props_table.py")).read())
done = set(open(os.path.join(here, "tools", "claimed.txt")).read().split())
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
checks, na = [], []
for p in P:
    if p["id"] in NA:
        na.append(dict(property=p["id"], reason=NA[p["id"]]))
    elif p["id"] in done:
        checks.append(dict(property=p["id"], quick_cmd=f"./check {p['id']} quick", thorough_cmd=f"./check {p['id']} thorough",
            technique="deterministic simulation with fault injection: seeded search over schedules and faults of the real code",
            level="exploration", level_note=p["_note"] or "Seeded sample of schedules, programs and faults of the translated real code; absence of violations is evidence, not proof. Trusts the source translation (sequentially consistent memory, one scheduling point per shared access) and the stubs listed in the evidence."))
    else:
        na.append(dict(property=p["id"], reason="check under construction in this session; not claimed yet"))
man = dict(version=1, setup_cmd="./check build", checks=checks, not_applicable=na,
    notes="No hooks in /repo: every check translates /repo's working tree into a simulated copy at build time (tools/simgen) and runs that. See DESIGN.md.")
json.dump(man, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "claimed")
