"""Development aid (not a check): plants many small syntactic faults in a copy of each function's AST
(in memory) and tabulates what the comparison says.  usage: mutate.py [N] [seed] [func-prefix]"""
import ast, copy, random, sys, collections
sys.path.insert(0, __file__.rsplit("/tools", 1)[0])
sys.setrecursionlimit(50000)
from sa.ir import Program
from sa.diff import compare, verdict

ROOT = "/repo"
ref = Program(ROOT)
N = int(sys.argv[1]) if len(sys.argv) > 1 else 300
rnd = random.Random(int(sys.argv[2]) if len(sys.argv) > 2 else 1)
pre = next((a for a in sys.argv[3:] if not a.startswith("-")), "")
show = "-v" in sys.argv

def is_log(n):
    return isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and isinstance(n.value.func.value, ast.Name) and "log" in n.value.func.value.id

def skip_ids(fn):
    """nodes inside messages / logging / docstrings"""
    out = set()
    for n in ast.walk(fn):
        if is_log(n) or isinstance(n, ast.JoinedStr) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            for k in ast.walk(n): out.add(id(k))
        if isinstance(n, ast.Raise):
            for k in ast.walk(n): out.add(id(k))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("print", "log_memory_usage", "log_dask_info", "log_timing","len"):
            for k in ast.walk(n): out.add(id(k))
        if isinstance(n, (ast.arg,)):
            for k in ast.walk(n): out.add(id(k))
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list + ([n.returns] if n.returns else []):
                for k in ast.walk(d): out.add(id(k))
    return out

def sites(fn):
    sk = skip_ids(fn)
    out = []
    for n in ast.walk(fn):
        if id(n) in sk: continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            m = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
            if type(n.ops[0]) in m: out.append(("cmp", n))
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool): out.append(("num", n))
        if isinstance(n, ast.Constant) and isinstance(n.value, bool): out.append(("bool", n))
        if isinstance(n, ast.BinOp) and type(n.op) in (ast.Add, ast.Sub, ast.Mult, ast.Div, ast.BitAnd, ast.BitOr): out.append(("bin", n))
        if isinstance(n, ast.If): out += [("neg", n)]
        if isinstance(n, ast.If) and len(n.body) == 1 and isinstance(n.body[0], ast.Raise) and not n.orelse: out.append(("delraise", n))
        if isinstance(n, ast.Call) and n.keywords and any(k.arg for k in n.keywords): out.append(("dropkw", n))
        if isinstance(n, ast.Call) and len(n.args) >= 2: out.append(("swap", n))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("where", "astype", "copy", "isel", "fillna", "dropna", "mean"): out.append(("unwrap", n))
        if isinstance(n, (ast.Assign, ast.AugAssign)): out.append(("delassign", n))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.Invert)): out.append(("unnot", n))
        if isinstance(n, ast.BoolOp): out.append(("boolop", n))
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load): out.append(("var", n))
        if isinstance(n, ast.Expr) and not is_log(n) and isinstance(n.value, ast.Call): out.append(("delcall", n))
        if isinstance(n, ast.Continue): out.append(("delcont", n))
    return out

class Rep(ast.NodeTransformer):
    def __init__(self, t, new): self.t, self.new = t, new
    def visit(self, n):
        if n is self.t: return self.new
        return super().visit(n)

def mutate(mod, qual):
    tree = copy.deepcopy(mod.tree)
    parts = qual.split(".")
    fn = None
    for n in ast.walk(tree):
        if isinstance(n, ast.ClassDef) and parts[0] == n.name and len(parts) == 2:
            for c in n.body:
                if isinstance(c, ast.FunctionDef) and c.name == parts[1]: fn = c
        if isinstance(n, ast.FunctionDef) and len(parts) == 1 and n.name == parts[0] and n in tree.body: fn = n
    if fn is None: return None
    ss = sites(fn)
    if not ss: return None
    kinds = sorted({k for k, _ in ss})
    k = rnd.choice(kinds)
    n = rnd.choice([x for kk, x in ss if kk == k])
    before = ast.unparse(n)
    line = getattr(n, "lineno", 0)
    if k == "cmp":
        m = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
        n.ops = [m[type(n.ops[0])]()]
    elif k == "num": n.value = n.value + rnd.choice([1, -1])
    elif k == "bool": n.value = not n.value
    elif k == "bin":
        m = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}
        n.op = m[type(n.op)]()
    elif k == "neg": n.test = ast.UnaryOp(ast.Not(), n.test)
    elif k == "delraise": Rep(n, ast.Pass()).visit(tree)
    elif k == "dropkw":
        ks = [x for x in n.keywords if x.arg]
        n.keywords.remove(rnd.choice(ks))
    elif k == "swap": n.args[0], n.args[1] = n.args[1], n.args[0]
    elif k == "unwrap": Rep(n, n.func.value).visit(tree)
    elif k in ("delassign", "delcall", "delcont"): Rep(n, ast.Pass()).visit(tree)
    elif k == "unnot": Rep(n, n.operand).visit(tree)
    elif k == "boolop": n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif k == "var":
        names = sorted({x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {a.arg for a in fn.args.args})
        names = [x for x in names if x != n.id]
        if not names: return None
        n.id = rnd.choice(names)
    ast.fix_missing_locations(tree)
    return k, line, before, ast.unparse(tree)

tab = collections.Counter()
quals = [q for q in ref.funcs if q.startswith(pre)]
w = [max(1, ref.funcs[q].node.end_lineno - ref.funcs[q].node.lineno) for q in quals]
ex = []
for i in range(N):
    q = rnd.choices(quals, w)[0]
    f = ref.funcs[q]
    r = mutate(f.mod, f.short)
    if not r: continue
    k, line, before, src = r
    cur = Program(ROOT, known=set(ref.known), override={f.mod.path: src}, base=ref)
    a, b = ref.summary(q), cur.summary(q)
    v = "GONE" if b is None else verdict(d := compare(a, b, q))
    tab[(k, v)] += 1
    if v != "VIOLATED": ex.append((v, k, q, line, before[:100], d))
ks = sorted({k for k, _ in tab})
tot = collections.Counter()
for k in ks:
    c = {v: tab[(k, v)] for v in ("VIOLATED", "UNKNOWN", "HOLDS")}
    tot.update(c)
    print(f"{k:10s}", c)
print("TOTAL", dict(tot))
if show:
    for e in ex[:60]:
        print(*e[:5])
        if e[0] == "UNKNOWN":
            for x in [y for y in e[5] if not y.hard][:2]: print("      ", str(x)[:260])
