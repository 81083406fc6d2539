"""Development aid (not a check): applies behaviour-preserving rewrites to random functions (in memory)
and reports every VIOLATED verdict, i.e. every false alarm.  usage: refactor.py [N] [seed] [func-prefix] [-k=kind]"""
import ast, copy, random, sys, collections, symtable, builtins
sys.path.insert(0, __file__.rsplit("/tools", 1)[0])
sys.setrecursionlimit(50000)
from sa.ir import Program
from sa.diff import compare, verdict
ROOT = "/repo"
ref = Program(ROOT)
N = int(sys.argv[1]) if len(sys.argv) > 1 else 300
rnd = random.Random(int(sys.argv[2]) if len(sys.argv) > 2 else 1)
pre = next((a for a in sys.argv[3:] if not a.startswith("-")), "")
only = next((a[3:] for a in sys.argv if a.startswith("-k=")), None)

class NoCtx(Exception): pass

def loads(n): return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
def stores(n):
    out = set()
    for x in ast.walk(n):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)): out.add(x.id)
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)): out.add(x.name)
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            for a in x.names: out.add((a.asname or a.name).split(".")[0])
        if isinstance(x, ast.ExceptHandler) and x.name: out.add(x.name)
    return out
MUT = {"append","extend","insert","add","update","remove","sort","pop","clear","fill","discard","setdefault"}
def muts(n):
    """roots of objects possibly mutated"""
    out = set()
    def root(e):
        while isinstance(e, (ast.Attribute, ast.Subscript)): e = e.value
        return e.id if isinstance(e, ast.Name) else None
    for x in ast.walk(n):
        if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add(root(x))
        if isinstance(x, ast.Call):
            if isinstance(x.func, ast.Attribute) and x.func.attr in MUT: out.add(root(x.func.value))
    return out - {None}
def has_flow(n): return any(isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global, ast.Raise, ast.Delete)) for x in ast.walk(n))
def has_call(n): return any(isinstance(x, (ast.Call, ast.Yield)) for x in ast.walk(n))
def own_nodes(fn):
    """nodes of fn not inside nested functions/lambdas/comprehensions"""
    out = []
    def w(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.JoinedStr)): continue
            out.append(c); w(c)
    w(fn); return out
def blocks(fn):
    out = []
    def w(n):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                out.append(b)
                for s in b:
                    if not isinstance(s, (ast.FunctionDef, ast.ClassDef)): w(s)
        for h in getattr(n, "handlers", []): w(h)
    w(fn); return out
class Rep(ast.NodeTransformer):
    def __init__(self, t, new): self.t, self.new = t, new
    def visit(self, n):
        if n is self.t: return self.new
        return super().visit(n)
def localvars(fn):
    s = stores(ast.Module(body=fn.body, type_ignores=[])) | {a.arg for a in fn.args.args + fn.args.kwonlyargs}
    if fn.args.vararg: s.add(fn.args.vararg.arg)
    if fn.args.kwarg: s.add(fn.args.kwarg.arg)
    return s
ctr = [0]
def fresh(p="tmp"): ctr[0] += 1; return f"_{p}_{ctr[0]}"

def r_extract_expr(tree, fn, cls):
    loc = localvars(fn)
    nested = any(isinstance(n, (ast.FunctionDef, ast.Lambda)) for b in fn.body for n in ast.walk(b))
    c = [n for n in own_nodes(fn) if isinstance(n, (ast.BinOp, ast.Compare, ast.Call, ast.BoolOp, ast.IfExp)) and not any(isinstance(x, (ast.NamedExpr, ast.Starred, ast.Yield, ast.Lambda)) for x in ast.walk(n)) and 2 < len(list(ast.walk(n))) < 60]
    c = [n for n in c if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and (n.func.attr in MUT or (isinstance(n.func.value, ast.Name) and n.func.value.id == "logger")))]
    c = [n for n in c if not any(isinstance(x, ast.Name) and x.id in ("super",) for x in ast.walk(n))]
    if not c: raise NoCtx
    n = rnd.choice(c)
    comp = set()
    for x in ast.walk(n):
        if isinstance(x, ast.comprehension): comp |= {y.id for y in ast.walk(x.target) if isinstance(y, ast.Name)}
    free = sorted((loads(n) & loc) - comp)
    nm = fresh("helper")
    h = ast.FunctionDef(name=nm, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=v) for v in free], kwonlyargs=[], kw_defaults=[], defaults=[]), body=[ast.Return(value=copy.deepcopy(n))], decorator_list=[], type_params=[])
    Rep(n, ast.Call(func=ast.Name(id=nm, ctx=ast.Load()), args=[ast.Name(id=v, ctx=ast.Load()) for v in free], keywords=[])).visit(tree)
    tree.body.append(h)
def r_extract_stmts(tree, fn, cls):
    bs = [b for b in blocks(fn) if len(b) >= 1]
    b = rnd.choice(bs)
    i = rnd.randrange(len(b)); j = min(len(b), i + rnd.randint(1, 4))
    seg = b[i:j]
    if b is fn.body and i == 0: raise NoCtx
    m = ast.Module(body=seg, type_ignores=[])
    if any(isinstance(x, (ast.Return, ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global, ast.Delete, ast.FunctionDef, ast.Import, ast.ImportFrom, ast.Break, ast.Continue, ast.Lambda)) for x in ast.walk(m)): raise NoCtx
    if any(isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(m)): raise NoCtx
    loc = localvars(fn)
    st = stores(m)
    comp = set()
    for x in ast.walk(m):
        if isinstance(x, ast.comprehension): comp |= {y.id for y in ast.walk(x.target) if isinstance(y, ast.Name)}
    st -= comp
    # definitely assigned? only accept if every stored name is stored at top level of the segment
    top = set()
    for s in seg:
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)): top |= stores(s)
    aug = {x.target.id for x in ast.walk(m) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
    ins = sorted(((loads(m) | aug) & loc) - comp)
    # inputs: names loaded that are local (may be assigned inside first; pass only if defined before)
    before = set(a.arg for a in fn.args.args + fn.args.kwonlyargs + [x for x in (fn.args.vararg, fn.args.kwarg) if x])
    def pre_names(block_list):
        for s in block_list: before.update(stores(s))
    # conservative: names stored anywhere before the segment's first line
    line = seg[0].lineno
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.lineno < line: before.add(x.id)
        if isinstance(x, ast.FunctionDef) and x is not fn and x.lineno < line: before.add(x.name)
        if isinstance(x, (ast.Import, ast.ImportFrom)) and x.lineno < line:
            for a in x.names: before.add((a.asname or a.name).split(".")[0])
    maybe = st - top
    if not maybe <= before: raise NoCtx
    ins = sorted(set(ins) & before | maybe)
    outs = sorted(st)
    nm = fresh("step")
    body = copy.deepcopy(seg)
    if outs: body.append(ast.Return(value=ast.Tuple(elts=[ast.Name(id=v, ctx=ast.Load()) for v in outs], ctx=ast.Load()) if len(outs) > 1 else ast.Name(id=outs[0], ctx=ast.Load())))
    h = ast.FunctionDef(name=nm, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=v) for v in ins], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body, decorator_list=[], type_params=[])
    call = ast.Call(func=ast.Name(id=nm, ctx=ast.Load()), args=[ast.Name(id=v, ctx=ast.Load()) for v in ins], keywords=[])
    if "self" in ins and cls is not None:
        # make it a method
        h.args.args = [ast.arg(arg="self")] + [a for a in h.args.args if a.arg != "self"]
        call = ast.Call(func=ast.Attribute(value=ast.Name(id="self", ctx=ast.Load()), attr=nm, ctx=ast.Load()), args=[ast.Name(id=v, ctx=ast.Load()) for v in ins if v != "self"], keywords=[])
        cls.body.append(h)
    else:
        tree.body.append(h)
    if outs:
        t = ast.Tuple(elts=[ast.Name(id=v, ctx=ast.Store()) for v in outs], ctx=ast.Store()) if len(outs) > 1 else ast.Name(id=outs[0], ctx=ast.Store())
        b[i:j] = [ast.Assign(targets=[t], value=call)]
    else:
        b[i:j] = [ast.Expr(value=call)]
def r_tempvar(tree, fn, cls):
    # name a sub-expression of a simple statement
    c = []
    for b in blocks(fn):
        for s in b:
            if isinstance(s, (ast.Assign, ast.Return, ast.Expr, ast.If, ast.AugAssign)):
                root = s.test if isinstance(s, ast.If) else s.value
                if root is None: continue
                if isinstance(root, (ast.BoolOp, ast.IfExp, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Lambda)) : continue
                for n in ast.walk(root):
                    if isinstance(n, (ast.BinOp, ast.Call, ast.Compare, ast.Attribute, ast.Subscript)) and n is not root: c.append((b, s, root, n))
    ok = []
    for b, s, root, n in c:
        bad = False
        # not inside lambda/comprehension/boolop/ifexp
        def inside(p):
            for ch in ast.iter_child_nodes(p):
                if ch is n: return True
                if isinstance(ch, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.BoolOp, ast.IfExp)): continue
                if inside(ch): return True
            return False
        if inside(root) and isinstance(getattr(n, "ctx", ast.Load()), ast.Load): ok.append((b, s, n))
    if not ok: raise NoCtx
    b, s, n = rnd.choice(ok)
    if isinstance(s, ast.Expr) and (isinstance(s.value, ast.Call) and (n is s.value.func or (isinstance(s.value.func, ast.Attribute) and any(x is n for x in ast.walk(s.value.func))))): raise NoCtx
    # callee of a call must not be renamed (method value)
    for x in ast.walk(s):
        if isinstance(x, ast.Call) and x.func is n: raise NoCtx
        if isinstance(x, ast.Starred) and x.value is n: raise NoCtx
    v = fresh("v")
    Rep(n, ast.Name(id=v, ctx=ast.Load())).visit(s)
    b.insert(b.index(s), ast.Assign(targets=[ast.Name(id=v, ctx=ast.Store())], value=n))
def r_inline_temp(tree, fn, cls):
    c = []
    for b in blocks(fn):
        for i, s in enumerate(b[:-1]):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                v = s.targets[0].id
                nx = b[i + 1]
                uses = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == v]
                if len(uses) == 2 and isinstance(nx, (ast.Assign, ast.Return)) and any(u in list(ast.walk(nx)) for u in uses if isinstance(u.ctx, ast.Load)):
                    c.append((b, i, v, s, nx))
    if not c: raise NoCtx
    b, i, v, s, nx = rnd.choice(c)
    for x in ast.walk(nx):
        if isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Load):
            for y in ast.walk(nx):
                if isinstance(y, ast.Subscript) and y.value is x and isinstance(y.ctx, ast.Store): raise NoCtx
                if isinstance(y, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp)) and x in list(ast.walk(y)): raise NoCtx
            Rep(x, s.value).visit(nx)
    del b[i]
def r_invert_if(tree, fn, cls):
    c = [n for n in own_nodes(fn) if isinstance(n, ast.If) and n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If))]
    if not c: raise NoCtx
    n = rnd.choice(c)
    inv = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
    if isinstance(n.test, ast.Compare) and len(n.test.ops) == 1 and type(n.test.ops[0]) in inv:
        n.test.ops = [inv[type(n.test.ops[0])]()]
    elif isinstance(n.test, ast.UnaryOp) and isinstance(n.test.op, ast.Not): n.test = n.test.operand
    else: n.test = ast.UnaryOp(op=ast.Not(), operand=n.test)
    n.body, n.orelse = n.orelse, n.body
def r_rename(tree, fn, cls):
    args = {a.arg for a in fn.args.args + fn.args.kwonlyargs}
    nest = set()
    for x in ast.walk(fn):
        if isinstance(x, ast.FunctionDef) and x is not fn: nest |= {a.arg for a in x.args.args} | {x.name}
    vs = sorted({x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - args - nest - {"_"} - {g for x in ast.walk(fn) if isinstance(x, (ast.Global, ast.Nonlocal)) for g in x.names})
    if not vs: raise NoCtx
    for v in rnd.sample(vs, min(len(vs), 6)):
        w = v + "_val"
        for x in ast.walk(fn):
            if isinstance(x, ast.Name) and x.id == v: x.id = w
            if isinstance(x, ast.ExceptHandler) and x.name == v: x.name = w
def r_reorder(tree, fn, cls):
    c = []
    for b in blocks(fn):
        for i in range(len(b) - 1):
            s, t = b[i], b[i + 1]
            if isinstance(s, (ast.Assign,)) and isinstance(t, (ast.Assign,)):
                if (stores(s) | muts(s)) & (loads(t) | stores(t) | muts(t)) or (stores(t) | muts(t)) & (loads(s) | stores(s)): continue
                if "self" in loads(s) | loads(t) and (has_call(s) and has_call(t)): continue
                if any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) for q in (s, t) for x in ast.walk(q)) and (has_call(s) or has_call(t)): continue
                c.append((b, i))
    if not c: raise NoCtx
    for b, i in rnd.sample(c, min(3, len(c))):
        pass
    b, i = rnd.choice(c)
    b[i], b[i + 1] = b[i + 1], b[i]
def r_ternary(tree, fn, cls):
    c = []
    for b in blocks(fn):
        for s in b:
            if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and isinstance(s.body[0], ast.Assign) and isinstance(s.orelse[0], ast.Assign) and ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0]): c.append(("to", b, s))
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp): c.append(("from", b, s))
            if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp): c.append(("fromr", b, s))
    if not c: raise NoCtx
    k, b, s = rnd.choice(c)
    i = b.index(s)
    if k == "to": b[i] = ast.Assign(targets=s.body[0].targets, value=ast.IfExp(test=s.test, body=s.body[0].value, orelse=s.orelse[0].value))
    elif k == "from": b[i] = ast.If(test=s.value.test, body=[ast.Assign(targets=s.targets, value=s.value.body)], orelse=[ast.Assign(targets=copy.deepcopy(s.targets), value=s.value.orelse)])
    else: b[i] = ast.If(test=s.value.test, body=[ast.Return(value=s.value.body)], orelse=[ast.Return(value=s.value.orelse)])
def r_comp(tree, fn, cls):
    c = []
    for b in blocks(fn):
        for s in b:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1 and isinstance(s.targets[0], ast.Name): c.append((b, s))
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.DictComp) and len(s.value.generators) == 1 and isinstance(s.targets[0], ast.Name): c.append((b, s))
    if not c: raise NoCtx
    b, s = rnd.choice(c)
    g = s.value.generators[0]; v = s.targets[0].id
    if v in loads(s.value): raise NoCtx
    if isinstance(s.value, ast.ListComp):
        body = [ast.Expr(ast.Call(func=ast.Attribute(ast.Name(v, ast.Load()), "append", ast.Load()), args=[s.value.elt], keywords=[]))]; init = ast.List([], ast.Load())
    else:
        body = [ast.Assign(targets=[ast.Subscript(ast.Name(v, ast.Load()), s.value.key, ast.Store())], value=s.value.value)]; init = ast.Dict([], [])
    for t in g.ifs: body = [ast.If(test=t, body=body, orelse=[])]
    i = b.index(s)
    b[i:i + 1] = [ast.Assign(targets=s.targets, value=init), ast.For(target=g.target, iter=g.iter, body=body, orelse=[])]
def r_flip(tree, fn, cls):
    c = [n for n in own_nodes(fn) if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq)]
    if not c: raise NoCtx
    n = rnd.choice(c)
    m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    n.left, n.comparators, n.ops = n.comparators[0], [n.left], [m[type(n.ops[0])]()]
def r_kwpos(tree, fn, cls):
    c = []
    for n in ast.walk(fn):
        if isinstance(n, ast.Call):
            f = None
            if isinstance(n.func, ast.Name): f = next((x for x in ref.funcs.values() if x.name == n.func.id and not x.cls), None)
            elif isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self": f = next((x for x in ref.funcs.values() if x.name == n.func.attr and x.cls), None)
            if f and n.args and not any(isinstance(a, ast.Starred) for a in n.args): c.append((n, f))
    if not c: raise NoCtx
    n, f = rnd.choice(c)
    ps = f.params[1:] if f.cls and not f.static else f.params
    if len(n.args) > len(ps): raise NoCtx
    n.keywords = [ast.keyword(arg=p, value=a) for p, a in zip(ps, n.args)] + n.keywords
    n.args = []
def r_early(tree, fn, cls):
    # if c: A(return) ; rest   ->  if c: A else: rest
    c = []
    for b in blocks(fn):
        for i, s in enumerate(b[:-1]):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)): c.append((b, i))
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)): c.append((b, -i - 1))
    if not c: raise NoCtx
    b, i = rnd.choice(c)
    if i >= 0:
        b[i].orelse = b[i + 1:]; del b[i + 1:]
    else:
        i = -i - 1
        s = b[i]; o = s.orelse; s.orelse = []
        b[i + 1:i + 1] = o
def r_aug(tree, fn, cls):
    c = [n for n in own_nodes(fn) if isinstance(n, ast.AugAssign)]
    if not c: raise NoCtx
    n = rnd.choice(c)
    l = copy.deepcopy(n.target); l.ctx = ast.Load()
    Rep(n, ast.Assign(targets=[n.target], value=ast.BinOp(left=l, op=n.op, right=n.value))).visit(fn)
def r_enum(tree, fn, cls):
    c = [n for n in own_nodes(fn) if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "enumerate" and len(n.iter.args) == 1 and isinstance(n.target, ast.Tuple) and isinstance(n.target.elts[0], ast.Name)]
    if not c: raise NoCtx
    n = rnd.choice(c)
    i, x = n.target.elts; xs = n.iter.args[0]
    v = fresh("seq")
    for b in blocks(fn):
        if n in b: b.insert(b.index(n), ast.Assign(targets=[ast.Name(v, ast.Store())], value=xs))
    n.iter = ast.Call(func=ast.Name("range", ast.Load()), args=[ast.Call(func=ast.Name("len", ast.Load()), args=[ast.Name(v, ast.Load())], keywords=[])], keywords=[])
    n.target = i
    n.body.insert(0, ast.Assign(targets=[x], value=ast.Subscript(ast.Name(v, ast.Load()), ast.Name(i.id, ast.Load()), ast.Load())))
def r_while(tree, fn, cls):
    c = []
    for b in blocks(fn):
        for s in b:
            if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range" and len(s.iter.args) == 1 and isinstance(s.target, ast.Name) and not s.orelse and not any(isinstance(x, ast.Continue) for x in ast.walk(s)): c.append((b, s))
    if not c: raise NoCtx
    b, s = rnd.choice(c)
    i = s.target.id; k = fresh("n")
    w = ast.While(test=ast.Compare(left=ast.Name(i, ast.Load()), ops=[ast.Lt()], comparators=[ast.Name(k, ast.Load())]), body=s.body + [ast.AugAssign(target=ast.Name(i, ast.Store()), op=ast.Add(), value=ast.Constant(1))], orelse=[])
    j = b.index(s)
    b[j:j + 1] = [ast.Assign(targets=[ast.Name(k, ast.Store())], value=s.iter.args[0]), ast.Assign(targets=[ast.Name(i, ast.Store())], value=ast.Constant(0)), w]
def r_split_and(tree, fn, cls):
    c = [n for n in own_nodes(fn) if isinstance(n, ast.If) and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse]
    if not c: raise NoCtx
    n = rnd.choice(c)
    a, rest = n.test.values[0], n.test.values[1:]
    n.test = a
    n.body = [ast.If(test=rest[0] if len(rest) == 1 else ast.BoolOp(op=ast.And(), values=rest), body=n.body, orelse=[])]
def r_demorgan(tree, fn, cls):
    c = [n for n in own_nodes(fn) if isinstance(n, ast.BoolOp) and all(isinstance(v, (ast.Compare, ast.UnaryOp, ast.BoolOp)) for v in n.values)]
    if not c: raise NoCtx
    n = rnd.choice(c)
    Rep(n, ast.UnaryOp(op=ast.Not(), operand=ast.BoolOp(op=ast.Or() if isinstance(n.op, ast.And) else ast.And(), values=[ast.UnaryOp(op=ast.Not(), operand=v) for v in n.values]))).visit(fn)
def r_noop(tree, fn, cls):
    b = rnd.choice(blocks(fn)); i = rnd.randrange(len(b) + 1)
    if i < len(b) and isinstance(b[i], ast.Expr) and isinstance(b[i].value, ast.Constant): i += 1
    if i > 0 and isinstance(b[i-1], (ast.Return, ast.Raise, ast.Break, ast.Continue)): i -= 1
    b.insert(i, rnd.choice([ast.Pass(), ast.Assign(targets=[ast.Name("_unused", ast.Store())], value=ast.Constant(0)), ast.If(test=ast.Constant(False), body=[ast.Pass()], orelse=[])]))

RS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("r_")}
tab = collections.Counter(); bad = []
quals = [q for q in ref.funcs if q.startswith(pre)]
w = [max(1, ref.funcs[q].node.end_lineno - ref.funcs[q].node.lineno) for q in quals]
i = 0
while i < N:
    q = rnd.choices(quals, w)[0]
    f = ref.funcs[q]
    k = only or rnd.choice(sorted(RS))
    tree = copy.deepcopy(f.mod.tree)
    fn = cl = None
    for n in tree.body:
        if isinstance(n, ast.ClassDef) and f.cls == n.name:
            cl = n
            for c in n.body:
                if isinstance(c, ast.FunctionDef) and c.name == f.name: fn = c
        if f.cls is None and isinstance(n, ast.FunctionDef) and n.name == f.name: fn = n
    if fn is None: continue
    # sometimes work inside a nested function
    target = fn
    inner = [x for x in ast.walk(fn) if isinstance(x, ast.FunctionDef) and x is not fn]
    if inner and rnd.random() < 0.5 and k not in ("extract_expr", "extract_stmts"): target = rnd.choice(inner)
    i += 1
    try: RS[k](tree, target, cl)
    except NoCtx: tab[(k, "n/a")] += 1; continue
    ast.fix_missing_locations(tree)
    try: src = ast.unparse(tree); compile(src, "x", "exec")
    except Exception as e: tab[(k, "broken")] += 1; continue
    cur = Program(ROOT, known=set(ref.known), override={f.mod.path: src}, base=ref)
    a, b = ref.summary(q), cur.summary(q)
    d = compare(a, b, q) if b else []
    v = verdict(d) if b else "GONE"
    tab[(k, v)] += 1
    if v == "VIOLATED":
        bad.append((k, q, d, src))
    elif v == "UNKNOWN" and "-u" in sys.argv: bad.append((k, q, [x for x in d if not x.hard] + d, src))
for k in sorted(RS): print(f"{k:14s}", {v: tab[(k, v)] for v in ("HOLDS", "UNKNOWN", "VIOLATED", "n/a", "broken") if tab[(k, v)]})
import difflib
for k, q, d, src in bad[:25]:
    print("FALSE ALARM", k, q)
    for x in d[:3]: print("     ", str(x)[:400])
    o = ast.unparse(ref.funcs[q].mod.tree).splitlines()
    df = [l for l in difflib.unified_diff(o, src.splitlines(), lineterm="", n=0) if not l.startswith(("---", "+++"))]
    print("        " + "\n        ".join(x[:200] for x in df[:14]))
