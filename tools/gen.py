"""sa/props.py -> properties.jsonl and MANIFEST.json"""
import json
import os
import sys

sys.setrecursionlimit(100000)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa import props  # noqa: E402
from sa.ir import Program  # noqa: E402

ref = Program(os.path.join(HERE, "contract"))


def where(q):
    if q.endswith(".<module>"):
        return props.FILES[q[: -len(".<module>")]] + " (module level)"
    f = ref.funcs.get(q)
    return f"{f.mod.path}:{q.split('.')[-1]}" if f else q


SLOT = {"ret": "value returned", "raise": "exceptions", "attr": "state set", "out": "arguments modified", "effect": "effects",
        "default": "defaults", "catch": "handlers"}
with open(os.path.join(HERE, "properties.jsonl"), "w") as fo:
    for P in props.PROPS:
        obs = props.obligations(P, ref)
        if any(o == "*" or (isinstance(o, tuple) and o[0] == "*") for o in P["obl"]):
            obs = [o for o in obs if o[1] is None or len(o[1]) > 1]
        seen, mech, files = set(), [], []
        for q, s in obs:
            if q in seen:
                continue
            seen.add(q)
            w = where(q)
            mech.append({"name": q, "where": w})
            f = w.split(":")[0].split(" ")[0]
            if f not in files:
                files.append(f)
        fo.write(json.dumps({
            "id": P["id"], "title": P["title"], "statement": P["statement"],
            "quantifier": {"over": P["over"], "text": P["qtext"]}, "why_tests_cant": P["why"],
            "anchors": {"files": files, "mechanism": mech, "state": P["state"] or [], "observe_at": P["observe"], "hook_needed": None},
        }) + "\n")
LEVEL = ("Static decision over every path of the named functions (value-flow graph of the current source, loops and branches included), "
         "so it does not depend on inputs, schedules or fault points. Each obligation is compared with a contract read and confirmed for this property "
         "and kept in /verif/contract; differences that change a constrained output are violations, rewrites the normal form proves "
         "equal hold, rewrites it cannot relate are counted as unknown and stay quiet. External library calls are uninterpreted. "
         "It decides the structural part (which value flows where, under which condition), not numerical accuracy.")
checks = []
for P in props.CLAIMED:
    checks.append({"property": P["id"], "quick_cmd": f"python3 -m sa.check {P['id']}",
                   "thorough_cmd": f"python3 -m sa.check {P['id']} --tier thorough",
                   "technique": "static value-flow analysis against a confirmed contract" + (" + rules " + ", ".join(P["rules"]) if P["rules"] else ""),
                   "level": "other", "level_note": LEVEL})
man = {"version": 1, "setup_cmd": "python3 -m compileall -q sa", "checks": checks,
       "not_applicable": [{"property": P["id"], "reason": P["na"]} for P in props.PROPS if P["na"]],
       "notes": "Nothing of marEx is imported or executed by any check; see DESIGN.md. known_findings.json lists the known finding and the repaired defects."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
