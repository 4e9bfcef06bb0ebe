#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from the tables below (run by hand; both outputs are committed).
import json, os
here = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, quant, why, files, mech, state=None, observe=None, tech=None, note=None, claimed=True, reason=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": quant}, why_tests_cant=why,
                  anchors=a, _tech=tech, _note=note, _claimed=claimed, _reason=reason))

exec(open(os.path.join(here, "properties_table.py")).read())

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")
TECH = "explicit-state model checking of the real application (exhaustive BFS over message/block sequences, lock-step reference model)"
man = {
 "version": 1,
 "setup_cmd": "bash setup.sh",
 "hooks": {"guard": "none", "enable": "no hooks in /repo are needed: the harness is laid over /repo as an extra package (go build -overlay)", "source_commits": []},
 "checks": [], "not_applicable": [],
}
for p in P:
    if p["_claimed"]:
        man["checks"].append({
            "property": p["id"], "quick_cmd": "bash run.sh %s" % p["id"],
            "thorough_cmd": "VERIF_TIER=thorough bash run.sh %s" % p["id"],
            "technique": p["_tech"] or TECH, "level": "model_checking",
            "level_note": p["_note"] or "bounded: every sequence of the listed operations up to the stated depth from the listed initial states, on the real code"})
    else:
        man["not_applicable"].append({"property": p["id"], "reason": p["_reason"] or "check not built yet"})
json.dump(man, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
