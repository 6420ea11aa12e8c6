#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a check for every property that has a rule module."""
import ast, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C31": "Durability across power loss depends on what the kernel and disk do with un-synced data; no fsync discipline exists in the code to check, and nothing static about this source can bound it.",
    "C32": "Termination and memory use quantify over loop counts and allocation sizes driven by the client's stream; no sound static bound is in reach for the copying and argument-collecting loops.",
    "C33": "Agreement with git quantifies over another program's behaviour (git's revision parsing and reference semantics, reached through libgit2), which is not in this source.",
}
NOTE = ("Every path of the analysed entry point is covered, loops by joining states to a fixpoint, for every input, error and state of the file system; "
        "a violation is a reachable event that the rule's facts don't justify. Trusted: the engine, its models of std and third-party crates, and the MIR builder.")
checks, na = [], []
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)["id"]
    f = os.path.join(HERE, "rules", p.lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": p, "reason": NA.get(p, "No check has been built for it yet.")})
        continue
    g = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and n.targets[0].id in ("TECHNIQUE", "LEVEL_NOTE"):
            g[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append({"property": p, "quick_cmd": "./check " + p, "thorough_cmd": "./check %s thorough" % p,
                   "technique": g.get("TECHNIQUE", "interprocedural abstract interpretation of the MIR (dataflow with typestate rules)"),
                   "level": "other", "level_note": g.get("LEVEL_NOTE", NOTE)})
json.dump({"version": 1, "setup_cmd": "tools/setup.sh", "checks": checks, "not_applicable": na,
           "notes": "See DESIGN.md. /repo carries no hooks; the fix: commits are listed in known-findings.txt."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
