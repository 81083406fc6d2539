"""python3 -m sa.check <property id> [--tier quick|thorough] [--root /repo]

Decides one property from the source text of /repo/marEx alone (nothing of marEx is imported or run).

1. every function of the repository is turned into a value graph (sa.ir);
2. each obligation of the property (a function and the outputs of it the property constrains) is compared
   with the confirmed contract in /verif/contract (sa.diff): HOLDS, VIOLATED or UNKNOWN;
3. the property's own rules (sa.rules), which do not look at the contract, are evaluated on the same graphs.
UNKNOWN (a rewrite the analysis cannot relate to the contract) is counted and never reported as a violation.
"""
import argparse
import ast
import json
import os
import sys
import time

sys.setrecursionlimit(100000)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

from . import edit, props, rules  # noqa: E402
from .diff import Diff, compare, verdict  # noqa: E402
from .ir import Program  # noqa: E402
from .term import T, show, walk  # noqa: E402


# kinds of difference that a misaligned comparison can produce
WEAK = {"depends on other inputs", "fixed value instead of an input", "input instead of a fixed value", "value wrapped", "wrapper dropped",
        "other value used", "filter dropped", "filter added", "missing operand", "extra operand", "missing entry", "extra entry",
        "step dropped or inserted", "term of a sum", "other function of the same value", "missing effect", "extra effect", "branch added",
        "branch dropped", "argument no longer updated", "argument newly mutated", "other loop variable", "value", "missing loop exit", "extra loop exit",
        "missing condition", "extra condition"}
WEAK_LIMIT, STRONG_LIMIT = 8, 16


class Analysis:
    def __init__(self, root, contract):
        r0 = Program(contract)
        c0 = Program(root, known=set(r0.known))
        self.gone = sorted(q for q in r0.funcs if c0.get(q) is None)
        if self.gone:
            # functions that were renamed, merged or inlined away are looked through on both sides
            keep = set(r0.known) - set(self.gone)
            self.callers = {}
            for q in r0.funcs:
                s = r0.summary(q)
                for t in s.terms():
                    if t.op in ("kcall", "fref") and t.a[0] in self.gone:
                        self.callers.setdefault(t.a[0], set()).add(q)
            r0 = Program(contract, known=keep)
            c0 = Program(root, known=keep)
        self.ref, self.cur = r0, c0
        self.root = root
        self._cmp = {}
        self.nodes = 0

    def expand(self, qual, seen=()):
        """the functions in which the meaning of `qual` is visible in the current tree"""
        if qual not in self.gone:
            return [qual]
        out = []
        for c in sorted(self.callers.get(qual, ())):
            if c not in seen:
                out += self.expand(c, seen + (qual,))
        return out

    def compare(self, qual):
        if qual not in self._cmp:
            a = self.ref.summary(qual)
            try:
                b = self.cur.summary(qual)
            except (SyntaxError, MemoryError):
                raise
            except Exception as e:  # a construct the engine does not know: undecided, never a verdict
                self._cmp[qual] = ("UNKNOWN", [Undecided(qual, f"not analysed: {type(e).__name__}: {e}")])
                return self._cmp[qual]
            if a is None or b is None:
                self._cmp[qual] = None
            else:
                if qual.endswith(".<module>"):
                    a, b = module_common(self, a, b)
                try:
                    d = compare(a, b, qual)
                except (SyntaxError, MemoryError):
                    raise
                except Exception as e:
                    self._cmp[qual] = ("UNKNOWN", [Undecided(qual, f"not compared: {type(e).__name__}: {e}")])
                    return self._cmp[qual]
                self.nodes += sum(1 for _ in b.terms())
                v = verdict(d)
                if v == "VIOLATED" and not qual.endswith(".<module>"):
                    d, v = self.cautious(qual, d)
                if v == "UNKNOWN" and not qual.endswith(".<module>"):
                    d, v = self.structural(qual, d)
                self._cmp[qual] = (v, d)
        return self._cmp[qual]

    def cautious(self, qual, d):
        """a function that was largely rewritten: parts that do not line up are no evidence of a change, so only few and
        unambiguous differences are"""
        fr, fc = self.ref.get(qual), self.cur.get(qual)
        if fr is None or fc is None:
            return d, "VIOLATED"
        n = edit.size(fr.node, fc.node, self.new_helpers(fc))
        if n > WEAK_LIMIT and any(x.kind.split(" raise")[0] in WEAK for x in d) or n > STRONG_LIMIT and len(d) > 2:
            return [Undecided(qual, f"rewritten ({n} statements differ): {x.text()[:200]}") for x in d], "UNKNOWN"
        return d, "VIOLATED"

    def new_helpers(self, f):
        """functions of the same module that the contract does not have and f's calls lead to"""
        out, todo = {}, [f.node]
        named = {}
        for q, g in self.cur.funcs.items():
            if q not in self.ref.funcs and g.mod is f.mod:
                named.setdefault(g.name, []).append(g)
        while todo:
            for x in ast.walk(todo.pop()):
                nm = x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else None
                for g in named.get(nm, ()):
                    if g.qual not in out:
                        out[g.qual] = g.node
                        todo.append(g.node)
        return list(out.values())

    def structural(self, qual, d):
        """an undecided function whose edit is a plain removal of statements, or that no longer reads one of its inputs"""
        fr, fc = self.ref.get(qual), self.cur.get(qual)
        out = []
        if fr is not None and fc is not None:
            gone = edit.deleted(fr.node, fc.node)
            if gone and any(x.slots or isinstance(x, Diff) for x in d):
                out.append(("statement removed", " ; ".join(" ".join(ast.unparse(g).split())[:120] for g in gone)))
            for x in edit.dropped(self.ref, self.cur, qual):
                out.append(("input no longer used", x))
        if not out:
            return d, "UNKNOWN"
        slots = tuple(sorted({k for x in d for k in x.slots}))
        res = []
        for kind, what in out:
            e = Diff(True, kind, what, None, qual)
            e.slots, e.top = slots, slots[0] if slots else "ret"
            e.line = (fc.mod.path, fc.node.lineno)
            res.append(e)
        return res, "VIOLATED"


class Undecided:
    hard, kind, loc, slots = False, "undecided", None, ()

    def __init__(self, qual, why):
        self.qual, self.why = qual, why

    def text(self):
        return self.why


class Mirror:
    """the contract seen as the current tree: used to show that a rule finds its instances (is not vacuous)"""

    def __init__(self, an):
        self.ref = self.cur = an.ref
        self.gone = an.gone


def evaluate(rn, an):
    try:
        out = getattr(rules, rn)(an)
    except (SyntaxError, MemoryError):
        raise
    except Exception as e:
        out = [rules.inst("marEx", "rule not evaluated", "UNKNOWN", f"{type(e).__name__}: {e}")]
    for i in out:
        i["rule"] = rn
    return out


def module_common(an, a, b):
    """module level: names that exist on both sides; a class constant or decorator that vanished counts as a change"""
    import copy

    a2, b2 = copy.copy(a), copy.copy(b)
    classes = {k.split(".")[0] for k in b.attrs if "." in k}
    keep = {}
    for k, v in a.attrs.items():
        if k in b.attrs:
            keep[k] = v
        elif k.endswith("<decorators>"):
            q = k[: -len(".<decorators>")]
            if any(f.endswith("." + q) and f not in an.gone for f in an.ref.funcs):
                keep[k] = v
        elif "." in k and k.split(".")[0] in classes:
            keep[k] = v
    a2.attrs = keep
    b2.attrs = {k: v for k, v in b.attrs.items() if k in keep or k.endswith("<decorators>")}
    return a2, b2


def hits(d, slots):
    if slots is None:
        return True
    return any(s == x or s.startswith(x + ":") or (x.endswith("*") and s.startswith(x[:-1])) for s in d.slots for x in slots)


def run(pid, an, tier):
    P = props.BY_ID[pid]
    res = {"holds": [], "violated": [], "unknown": [], "vanished": []}
    viol = []
    seen = set()
    obs = []
    for q, slots in props.obligations(P, an.ref):
        for x in an.expand(q):
            obs.append((x, slots if x == q else None))
    todo = {}
    for q, slots in obs:
        if q in todo and (todo[q] is None or slots is None):
            todo[q] = None
        elif q in todo:
            todo[q] = tuple(sorted(set(todo[q]) | set(slots)))
        else:
            todo[q] = slots
    for q, slots in todo.items():
        r = an.compare(q)
        if r is None:
            res["vanished"].append(q)
            continue
        v, ds = r
        if v == "HOLDS":
            res["holds"].append(q)
        elif v == "UNKNOWN":
            res["unknown"].append({"function": q, "why": [d.text() for d in ds if not d.hard][:3]})
        else:
            ds = [d for d in ds if hits(d, slots)]
            if not ds:
                res["holds"].append(q)
                continue
            res["violated"].append(q)
            for d in ds:
                k = ("contract", q, d.kind, d.text())
                if k not in seen:
                    seen.add(k)
                    viol.append({"rule": "contract", "function": q, "kind": d.kind, "loc": d.loc, "slots": list(d.slots),
                                 "text": d.text()})
    inst = []
    for rn in P.get("rules", ()):
        for i in evaluate(rn, an):
            inst.append(i)
            if i["verdict"] == "VIOLATED":
                viol.append({"rule": rn, "function": i["function"], "kind": i["what"], "loc": i.get("loc"), "text": i["text"]})
    return todo, res, inst, viol


def known_entries():
    p = os.path.join(HERE, "known_findings.json")
    with open(p) as f:
        return json.load(f)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--root", default=os.environ.get("MAREX_ROOT", "/repo"))
    a = ap.parse_args()
    t0 = time.time()
    pid = a.property
    an = Analysis(a.root, os.path.join(HERE, "contract"))
    todo, res, inst, viol = run(pid, an, a.tier)
    extra = {}
    if a.tier == "thorough":
        extra = thorough(pid, an)
    known = [k for k in known_entries() if k["property"] == pid and k["status"] == "known"]
    new = []
    for v in viol:
        m = next((k for k in known if k["rule"] == v["rule"] and k["function"] == v["function"] and k["kind"] == v["kind"]), None)
        if m:
            if not m.get("_printed"):
                print(f"KNOWN-FINDING: property={pid} {m['what']}")
                m["_printed"] = True
        else:
            new.append(v)
    if not todo and not inst:
        print("analysis broken: no obligation and no rule instance", file=sys.stderr)
        return 2
    P = props.BY_ID[pid]
    need = P.get("min_instances", 0)
    if need and not an.gone:
        m = sum(1 for rn in P["rules"] for i in evaluate(rn, Mirror(an)) if i["verdict"] == "HOLDS")
        if m < need:
            print(f"analysis broken: the rules decide {m} instances of the contract, at least {need} confirmed by hand", file=sys.stderr)
            return 2
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {
        "property": pid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": "static analysis of /repo/marEx's current source: value graph of every function listed under "
                           "`functions`, compared with the confirmed contract, plus the named rules; nothing is executed",
            "files_parsed": len(an.cur.files), "functions_in_repository": len(an.cur.funcs),
            "functions": {q: ("all outputs" if s is None else list(s)) for q, s in todo.items()},
            "value_nodes_compared": an.nodes,
            "obligations_hold": len(res["holds"]), "obligations_violated": res["violated"],
            "obligations_unknown": res["unknown"], "functions_vanished": res["vanished"],
            "functions_looked_through": an.gone,
            "rule_instances": [{k: v for k, v in i.items()} for i in inst],
            **extra,
        },
        "assumptions": props.ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{pid}: {len(todo)} functions ({len(res['holds'])} hold, {len(res['violated'])} violated, {len(res['unknown'])} unknown, "
          f"{len(res['vanished'])} vanished), {len(inst)} rule instances, {an.nodes} value nodes, {ev['wall_s']} s")
    if new:
        rp = os.path.join(HERE, "evidence", pid + ".violation.json")
        with open(rp, "w") as f:
            json.dump(new, f, indent=1, default=str)
        for v in new[:8]:
            print(f"  {v['loc']}: {v['function']}: [{v['rule']}] {v['text']}"[:700])
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    rp = os.path.join(HERE, "evidence", pid + ".violation.json")
    if os.path.exists(rp):
        os.remove(rp)
    return 0


def thorough(pid, an):
    """the whole call-graph closure of the property's functions instead of the functions themselves"""
    P = props.BY_ID[pid]
    todo = [q for q, _ in props.obligations(P, an.ref)]
    seen = set()
    while todo:
        q = todo.pop()
        if q in seen or an.ref.summary(q) is None:
            continue
        seen.add(q)
        for t in an.ref.summary(q).terms():
            if t.op in ("kcall", "fref") and t.a[0] in an.ref.funcs:
                todo.append(t.a[0])
    st = {}
    for q in sorted(seen):
        r = an.compare(q)
        st[q] = r[0] if r else "vanished"
    return {"callee_closure": st}


if __name__ == "__main__":
    try:
        rc = main()
    except SyntaxError as e:
        print(f"analysis broken: {e}", file=sys.stderr)
        rc = 2
    sys.exit(rc)
