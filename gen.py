#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py"""
import json, os
from props import P, NOT_APPLICABLE

V = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P + [x for x in NOT_APPLICABLE]:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p["observe"] or ["contract entry points: execute/query responses, messages, events"], "hook_needed": None},
        }) + "\n")
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"python3 check.py {p['id']} quick",
        "thorough_cmd": f"python3 check.py {p['id']} thorough",
        "technique": "symbolic execution of the contracts' LLVM bitcode with an SMT solver (rsym + Z3)",
        "level": "model_checking",
        "level_note": "Bounded: within the stated bounds the solver decides the assertion for every value; nothing is claimed outside. Bounds: " + p["bounds"] + ". Outside: " + p["outside"]
                      + ". Trusts the rsym engine, Z3, rustc's bitcode, the chain model in harness/src/lib.rs and keccak-256 as a collision-free function; every violation is replayed natively before it is reported.",
    } for p in P],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOT_APPLICABLE],
    "notes": "No hooks in /repo: contracts are driven through their public entry points. See DESIGN.md.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
d = ""
for p in P:
    d += f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n"
    d += f"*Decided by* `h_{p['prefix']}_*` (thorough: also `h_{p['prefix']}d_*`) in `harness/src/bin/{p['bin']}.rs`. *Anchored in* " + ", ".join(f"`{b}` ({a})" for a, b in p["mech"]) + ".\n\n"
    d += f"*Quantified over* {p['quant']}. *Bounds*: {p['bounds']}. *Outside*: {p['outside']}." + (" *Assumes*: " + "; ".join(p["assumptions"]) + "." if p["assumptions"] else "") + f" *Why tests cannot settle it*: {p['why']}\n\n"
p = os.path.join(V, "DESIGN.md")
t = open(p).read()
a, b = "<!-- properties -->\n", "<!-- end of properties -->\n"
open(p, "w").write(t[: t.index(a) + len(a)] + "\n" + d + t[t.index(b):])
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
