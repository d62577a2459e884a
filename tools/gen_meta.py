#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "trunk/src/"
PR = []


def prop(pid, title, statement, over, qtext, why, files, mech, observe, level_note, technique, claimed=True, reason="", hook=False, state=None):
    PR.append(dict(id=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=[S + f for f in files],
                   mech=[{"name": n, "where": S + w} for n, w in mech], observe=observe, level_note=level_note,
                   technique=technique, claimed=claimed, reason=reason, hook=hook, state=state))


exec(open(os.path.join(V, "tools", "prop_defs.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PR:
        a = {"files": p["files"], "mechanism": p["mech"], "observe_at": p["observe"], "hook_needed": p["hook"]}
        if p["state"]:
            a["state"] = p["state"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["qtext"]},
                            "why_tests_cant": p["why"], "anchors": a}) + "\n")
man = {
    "version": 1,
    "setup_cmd": "python3 tools/setup_check.py",
    "checks": [dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"], thorough_cmd="python3 check.py %s thorough" % p["id"],
                    evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level="exploration", level_note=p["level_note"])
               for p in PR if p["claimed"]],
    "not_applicable": [dict(property=p["id"], reason=p["reason"] or "no check built yet") for p in PR if not p["claimed"]],
    "notes": "Every check compiles its harness from /repo/trunk/src as it stands (ASan+UBSan, libstdc++ assertions, pattern-filled stack and heap), "
             "runs seeded workloads (VERIF_SEED) in 8 worker processes and judges what was observed with reference-model and conservation monitors. "
             "No hooks in /repo are needed: the library is header-only and its state is observable through its public interface.",
}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(PR), "properties,", len(man["checks"]), "claimed")
