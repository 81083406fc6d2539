"""Structural edits of a function that the value graphs leave undecided.

deleted(ref, cur): the statements that were removed when the current body is the contract's body with statements removed and
nothing else changed (None otherwise).  dropped(...): inputs the contract's function reads that nothing reads any more.
"""
import ast

DATA = {"cell_area", "mean_cell_area", "mask", "overlap_threshold", "R_fill", "T_fill", "area_filter_quartile", "area_filter_absolute",
        "regional_mode", "neighbours_int", "dilate_sparse", "lat", "lon", "lat_init", "lon_init", "max_iteration", "nn_partitioning",
        "allow_merging", "data_attrs", "_use_absolute_filtering", "coordinate_units"}
QUIET = ("logger.", "log.", "logging.", "print(", "gc.collect", "warnings.", "time.sleep", "wait(", "self.logger.", "plt.close")


def idle(s):
    if isinstance(s, (ast.Pass, ast.Delete, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal)):
        return True
    if isinstance(s, ast.AnnAssign) and s.value is None:
        return True
    if isinstance(s, ast.Expr):
        if isinstance(s.value, ast.Constant):
            return True
        if isinstance(s.value, ast.Call):
            return ast.unparse(s.value).startswith(QUIET)
    if isinstance(s, ast.If):
        return all(idle(x) for x in s.body + s.orelse)
    return False


def parts(s):
    """(header, blocks)"""
    if isinstance(s, ast.If):
        return ("if", ast.unparse(s.test)), [s.body, s.orelse]
    if isinstance(s, (ast.For, ast.AsyncFor)):
        return ("for", ast.unparse(s.target), ast.unparse(s.iter)), [s.body, s.orelse]
    if isinstance(s, ast.While):
        return ("while", ast.unparse(s.test)), [s.body, s.orelse]
    if isinstance(s, ast.With):
        return ("with", tuple(ast.unparse(i) for i in s.items)), [s.body]
    if isinstance(s, ast.Try):
        return ("try", tuple(ast.unparse(h.type) if h.type else "" for h in s.handlers)), [s.body] + [h.body for h in s.handlers] + [s.orelse, s.finalbody]
    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
        return ("def", s.name, ast.unparse(s.args)), [s.body]
    if isinstance(s, ast.AnnAssign) and s.value is not None:
        return ("stmt", f"{ast.unparse(s.target)} = {ast.unparse(s.value)}"), []
    return ("stmt", ast.unparse(s)), []


def sub(ref, cur, out):
    ref, cur = [s for s in ref if not idle(s)], [s for s in cur if not idle(s)]
    if len(cur) > len(ref):
        return False
    i = 0
    for c in cur:
        hc, bc = parts(c)
        while i < len(ref):
            hr, br = parts(ref[i])
            if hr == hc and len(br) == len(bc):
                trial = []
                if all(sub(x, y, trial) for x, y in zip(br, bc)):
                    out += trial
                    break
            out.append(ref[i])
            i += 1
        else:
            return False
        i += 1
    out += ref[i:]
    return True


def deleted(ref, cur):
    out = []
    if ast.unparse(ref.args) != ast.unparse(cur.args) or not sub(ref.body, cur.body, out) or not out:
        return None
    # removing a repeated store, a redundant conversion of a name to itself or a plain early exit may be harmless
    real = [s for s in out if not harmless(s)]
    return real or None


def harmless(s):
    if isinstance(s, ast.Assert):
        return True
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Call) \
            and isinstance(s.value.func, ast.Attribute) and s.value.func.attr in ("persist", "astype", "copy", "chunk", "compute", "load", "unify_chunks") \
            and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == s.targets[0].id:
        return True
    if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], (ast.Return, ast.Continue)):
        return True
    return False


def reads(node):
    at, nm = set(), set()
    for n in ast.walk(node):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == "self":
            at.add(n.attr)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            nm.add(n.id)
    return at, nm


def count(prog, q, attr):
    """reads of self.attr outside function q"""
    k = 0
    for p, f in prog.funcs.items():
        if p == q:
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Load):
                k += 1
    return k


def dropped(ref, cur, qual):
    fr, fc = ref.get(qual), cur.get(qual)
    if fr is None or fc is None:
        return []
    (ra, rn), (ca, cn) = reads(fr.node), reads(fc.node)
    out = []
    # only what the contract's result is computed from (not what is merely logged)
    used, par = set(), set()
    for t in ref.summary(qual).terms():
        if t.op == "attr" and t.a[0].op == "param" and t.a[0].a[0] == "self":
            used.add(t.a[1])
        elif t.op == "param":
            par.add(t.a[0])
    for x in sorted((ra - ca) & DATA & used):
        if count(cur, fc.qual, x) <= count(ref, fr.qual, x) and not any(
                isinstance(n, ast.Constant) and n.value == x for n in ast.walk(fc.node)):
            out.append("self." + x)
    ps = (set(fr.params) | set(fr.kwonly)) & (set(fc.params) | set(fc.kwonly)) - {"self", "cls"}
    vs = {n.id for n in ast.walk(fc.node) if isinstance(n, ast.Name) and n.id in ("locals", "vars")}
    if not vs:
        out += [x for x in sorted(ps) if x in rn and x in par and x not in cn]
    return out


def heads(body, out):
    for s in body:
        if idle(s):
            continue
        h, bs = parts(s)
        if h[0] != "def":
            out.append(h)
        for b in bs:
            heads(b, out)
    return out


def size(ref, cur, helpers=()):
    """how many statements were added or removed between the two versions of a function; statements moved into a helper that
    did not exist before count as unchanged"""
    from collections import Counter
    a, b = Counter(heads(ref.body, [])), Counter(heads(cur.body, []))
    extra = Counter()
    for h in helpers:
        extra += Counter(heads(h.body, []))
    lost, new = a - b, b - a
    moved = lost & extra
    return sum((lost - moved).values()) + sum(new.values()) + (len(list(helpers)) if helpers else 0)
