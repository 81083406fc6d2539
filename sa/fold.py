"""Constant folding of scalar expressions under assumed values of their inputs.

Two expressions over the same inputs are told apart when constant propagation gives them different constants for the same
values of the inputs.  Only arithmetic, comparisons, boolean connectives, conditional values, conversions and element-wise
functions are folded; everything else is an input.  No code of the analysed program is run.
"""
import itertools
import math

from .term import T, is_const, walk


class Unfoldable(Exception):
    pass


class Arr:
    """a small constant array under constant stores"""

    def __init__(self, shape, flat):
        self.shape, self.flat = shape, flat

    def store(self, idx, v):
        idx = idx if isinstance(idx, tuple) else (idx,)
        if len(idx) > len(self.shape):
            raise Unfoldable
        sel = []
        for k, n in enumerate(self.shape):
            i = idx[k] if k < len(idx) else slice(None)
            if isinstance(i, slice):
                sel.append(set(range(n)[i]))
            elif isinstance(i, int) and not isinstance(i, bool):
                sel.append({range(n)[i]})
            else:
                raise Unfoldable
        out = [v if all(p in s for p, s in zip(pos, sel)) else old
               for pos, old in zip(itertools.product(*[range(n) for n in self.shape]), self.flat)]
        return Arr(self.shape, out)

    def __eq__(self, o):
        return isinstance(o, Arr) and self.shape == o.shape and self.flat == o.flat

    def __hash__(self):
        return hash(self.shape)


def _round(x, n=None):
    return float(round(x, n)) if n else float(round(x))


FN = {"builtins.int": lambda x: int(x), "builtins.float": float, "builtins.bool": bool, "builtins.abs": abs, "numpy.abs": abs,
      "numpy.absolute": abs, "builtins.min": min, "builtins.max": max, "numpy.minimum": min, "numpy.maximum": max,
      "builtins.round": _round, "numpy.round": _round, "numpy.rint": _round, "numpy.floor": math.floor, "numpy.ceil": math.ceil,
      "math.floor": math.floor, "math.ceil": math.ceil, "numpy.trunc": math.trunc, "math.trunc": math.trunc, "numpy.sqrt": math.sqrt,
      "math.sqrt": math.sqrt, "numpy.sin": math.sin, "numpy.cos": math.cos, "numpy.tan": math.tan, "numpy.arctan": math.atan,
      "numpy.arctan2": math.atan2, "numpy.radians": math.radians, "numpy.deg2rad": math.radians, "numpy.degrees": math.degrees,
      "numpy.rad2deg": math.degrees, "numpy.square": lambda x: x * x, "numpy.sign": lambda x: (x > 0) - (x < 0),
      "numpy.logical_and": lambda x, y: bool(x and y), "numpy.logical_or": lambda x, y: bool(x or y),
      "numpy.logical_not": lambda x: not x, "numpy.mod": lambda x, y: x % y, "numpy.power": lambda x, y: x ** y,
      "numpy.hypot": math.hypot, "math.hypot": math.hypot, "numpy.clip": lambda x, lo, hi: min(max(x, lo), hi), "builtins.len": len,
      "builtins.set": frozenset, "builtins.frozenset": frozenset, "builtins.tuple": tuple, "builtins.list": tuple,
      "builtins.sorted": lambda x: tuple(sorted(x)), "numpy.int32": int, "numpy.int64": int, "numpy.float32": float, "numpy.float64": float,
      "numpy.multiply": lambda x, y: x * y, "numpy.add": lambda x, y: x + y, "numpy.subtract": lambda x, y: x - y,
      "numpy.divide": lambda x, y: x / y, "numpy.floor_divide": lambda x, y: x // y}
FLOATFN = {"percentile", "nanpercentile", "quantile", "nanquantile", "mean", "nanmean", "std", "median", "sqrt", "sin", "cos", "radians", "degrees"}
TRIG = {"numpy.sin", "numpy.cos", "numpy.tan", "numpy.arctan", "numpy.arctan2", "math.atan2", "math.atan", "math.sin", "math.cos"}
OPS = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y, "/": lambda x, y: x / y, "//": lambda x, y: x // y,
       "%": lambda x, y: x % y, "**": lambda x, y: x ** y, "&": lambda x, y: x & y, "|": lambda x, y: x | y, "^": lambda x, y: x ^ y}
CMPS = {"==": lambda x, y: x == y, "!=": lambda x, y: x != y, "<": lambda x, y: x < y, "<=": lambda x, y: x <= y, ">": lambda x, y: x > y,
        ">=": lambda x, y: x >= y, "is": lambda x, y: x is y or (x == y and type(x) is type(y)), "in": lambda x, y: x in y}


def num(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def kind(t):
    """how a node is folded, or None when it is an input"""
    o, a = t.op, t.a
    if o == "const":
        return "const"
    if o in ("tuple", "list", "set", "and", "or", "not", "inv", "neg", "if", "where", "orv"):
        return o
    if o == "bin":
        return "bin" if a[0] in OPS else None
    if o == "cmp":
        return "cmp" if a[0] in CMPS else None
    if o == "global":
        return "const" if a[0] in ("numpy.pi", "math.pi") else None
    if o == "call" and a[0].op == "global":
        if a[0].a[0] in FN and all(isinstance(x, T) and x.op not in ("kw", "dkw", "dstar", "star") for x in a[1:]):
            return "fn"
        if a[0].a[0] in ("numpy.zeros", "numpy.ones") and len(a) > 1 and a[1].op in ("tuple", "const"):
            return "new"
    if o == "store":
        return "store"
    if o == "slice":
        return "slice"
    if o == "mcall" and a[0] in ("astype", "clip", "round", "item", "copy", "compute", "persist"):
        return "m"
    return None


def array_of(t):
    """the array constructor at the root of a chain of stores"""
    while t.op == "store":
        t = t.a[0]
    return kind(t) == "new"


def inputs(t, out, seen=None):
    seen = set() if seen is None else seen
    if t.h in seen:
        return out
    seen.add(t.h)
    k = kind(t)
    if k == "store" and not array_of(t):
        k = None
    if k is None:
        out[t.h] = t
    elif k == "m":
        inputs(t.a[1], out, seen)
    elif k == "new":
        pass
    else:
        for x in t.kids if k != "fn" else t.a[1:]:
            inputs(x, out, seen)
    return out


def fold(t, env):
    if t.h in env:
        return env[t.h]
    r = env[t.h] = _fold(t, env)
    return r


def _fold(t, env):
    k, a = kind(t), t.a
    if k is None:
        raise Unfoldable
    if k == "const":
        return math.pi if t.op == "global" else a[0]
    if k in ("tuple", "list"):
        return tuple(fold(x, env) for x in a)
    if k == "set":
        return frozenset(fold(x, env) for x in a)
    if k == "and":
        r = True
        for x in a:
            r = fold(x, env) and r
        return bool(r)
    if k == "or":
        r = False
        for x in a:
            r = fold(x, env) or r
        return bool(r)
    if k == "not":
        return not fold(a[0], env)
    if k == "inv":
        v = fold(a[0], env)
        return (not v) if isinstance(v, bool) else ~v
    if k == "neg":
        return -fold(a[0], env)
    if k == "orv":
        for x in a:
            r = fold(x, env)
            if r:
                break
        return r
    if k in ("if", "where"):
        return fold(a[1], env) if fold(a[0], env) else fold(a[2], env)
    if k == "bin":
        r = fold(a[1], env)
        for x in a[2:]:
            y = fold(x, env)
            if not (isinstance(r, (int, float)) and isinstance(y, (int, float))):
                raise Unfoldable
            r = OPS[a[0]](r, y)
        return r
    if k == "cmp":
        x, y = fold(a[1], env), fold(a[2], env)
        if a[0] in ("<", "<=", ">", ">=") and not (num(x) and num(y)):
            raise Unfoldable
        return CMPS[a[0]](x, y)
    if k == "fn":
        v = [fold(x, env) for x in a[1:]]
        f = a[0].a[0].rsplit(".", 1)[1]
        if f in ("len", "set", "frozenset", "tuple", "list", "sorted"):
            if not all(isinstance(x, (tuple, frozenset)) for x in v):
                raise Unfoldable
        elif f not in ("bool", "logical_not", "logical_and", "logical_or") and not all(isinstance(x, (int, float)) for x in v):
            raise Unfoldable
        return FN[a[0].a[0]](*v)
    if k == "m":
        v = fold(a[1], env)
        if a[0] == "astype" and len(a) > 2 and a[2].op == "const" and isinstance(a[2].a[0], str):
            d = a[2].a[0]
            if not isinstance(v, (int, float)):
                raise Unfoldable
            return int(v) if d.startswith(("int", "uint")) else bool(v) if d == "bool" else float(v)
        if a[0] in ("item", "copy", "compute", "persist") and len(a) == 2:
            return v
        if a[0] == "round" and num(v) and len(a) == 2:
            return _round(v)
        if a[0] == "clip" and num(v) and len(a) == 4 and all(x.op != "kw" for x in a[2:]):
            return min(max(v, fold(a[2], env)), fold(a[3], env))
        raise Unfoldable
    if k == "new":
        s = fold(a[1], env)
        s = s if isinstance(s, tuple) else (s,)
        if not all(isinstance(x, int) for x in s):
            raise Unfoldable
        n = 1
        for x in s:
            n *= x
        if n > 512:
            raise Unfoldable
        return Arr(s, [1 if a[0].a[0].endswith("ones") else 0] * n)
    if k == "slice":
        return slice(*[fold(x, env) for x in a])
    if k == "store":
        b = fold(a[0], env)
        if not isinstance(b, Arr):
            raise Unfoldable
        v = fold(a[2], env)
        if isinstance(v, (Arr, tuple)):
            raise Unfoldable
        return b.store(fold(a[1], env), v)
    raise Unfoldable


def same(x, y):
    if num(x) and num(y):
        if math.isnan(x) or math.isnan(y):
            return math.isnan(x) == math.isnan(y)
        return abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y))
    if isinstance(x, (bool, int, float)) and isinstance(y, (bool, int, float)):
        return bool(x == y)
    return type(x) is type(y) and x == y


def roles(ts):
    """digest -> set of the ways an input is used"""
    out = {}
    for t in ts:
        for x in walk(t):
            k = kind(x)
            if k == "cmp":
                for u, v in ((x.a[1], x.a[2]), (x.a[2], x.a[1])):
                    r = out.setdefault(u.h, set())
                    if is_const(v, None):
                        r.add("none")
                    elif v.op == "const" and isinstance(v.a[0], str):
                        r.add(("str", v.a[0]))
                    elif v.op in ("tuple", "list", "set") and x.a[0] == "in" and u is x.a[1]:
                        for e in v.a:
                            if e.op == "const" and isinstance(e.a[0], str):
                                r.add(("str", e.a[0]))
            elif k in ("and", "or", "not"):
                for u in x.a:
                    out.setdefault(u.h, set()).add("bool")
            elif k in ("if", "where"):
                out.setdefault(x.a[0].h, set()).add("bool")
            elif k == "inv":
                out.setdefault(x.a[0].h, set()).add("bool")
            elif k == "fn" and x.a[0].a[0] == "builtins.bool":
                out.setdefault(x.a[1].h, set()).add("truth")
            elif k in ("bin", "neg") or (k == "fn" and x.a[0].a[0] not in ("builtins.len", "builtins.set", "builtins.tuple", "builtins.sorted")):
                for u in (x.a[1:] if k != "neg" else x.a):
                    if isinstance(u, T):
                        out.setdefault(u.h, set()).add("num")
    return out


def floaty(t):
    s = t.a[0] if t.op == "mcall" else t.a[0].a[0].rsplit(".", 1)[1] if t.op == "call" and t.a[0].op == "global" else ""
    if t.op == "if":
        return floaty(t.a[1]) or floaty(t.a[2])
    return s in FLOATFN


ODD, EVEN = (3, 5, 9, 7, 11, 13, 17), (2, 4, 8, 6, 10, 12, 16)


def differ(a, b):
    """an assignment of the common inputs under which the two expressions fold to different constants, or None"""
    if kind(a) is None and kind(b) is None:
        return None
    ia, ib = inputs(a, {}), inputs(b, {})
    if set(ia) != set(ib) and not (set(ia) <= set(ib) or set(ib) <= set(ia)):
        # different elements of one value
        rest = [t for h, t in {**ia, **ib}.items() if h not in ia or h not in ib]
        if not all(t.op == "sub" and t.a[1].op == "const" for t in rest) or len({t.a[0].h for t in rest}) != 1:
            return None
    if len(ia) != len(ib) and not (ia and ib):
        return None
    ins = {**ia, **ib}
    if len(ins) > 8 or any(x.op in ("undef",) for x in ins.values()):
        return None
    names = sorted(ins)
    rs = roles([a, b])
    consts = set()
    for t in (a, b):
        for x in walk(t):
            if x.op == "const" and num(x.a[0]) and abs(x.a[0]) < 1e6:
                consts.add(x.a[0])
    try:
        # a value: must differ for odd as well as for even inputs (inputs are often restricted to one of them)
        wit = []
        pred = None
        trig = any(x.op == "call" and x.a[0].op == "global" and x.a[0].a[0] in TRIG for t in (a, b) for x in walk(t))
        for shift in range(5 if trig else 3):
            for pool in (ODD, EVEN):
                env, ok = {}, True
                for i, n in enumerate(names):
                    r = rs.get(n, set())
                    if "none" in r or any(isinstance(q, tuple) for q in r):
                        ok = False
                        break
                    if "bool" in r and "num" not in r:
                        env[n] = bool((i + shift) % 2)
                    else:
                        env[n] = (pool[(i + shift) % 7] + (0.5 if floaty(ins[n]) else 0)) * (-1 if shift > 2 and (i + shift) % 2 else 1)
                if not ok:
                    continue
                full = dict(env)
                try:
                    x, y = fold(a, full), fold(b, full)
                except (ValueError, ZeroDivisionError, OverflowError):
                    continue
                pred = isinstance(x, bool) and isinstance(y, bool)
                if not pred:
                    wit.append((pool is ODD, same(x, y), env, x, y))
        if pred is False and wit:
            odd = [w for w in wit if w[0] and not w[1]]
            even = [w for w in wit if not w[0] and not w[1]]
            if odd and even:
                w = odd[0]
                return {ins[n]: w[2][n] for n in names}, w[3], w[4]
            return None
        if len(names) > 3:
            return None
        doms = []
        for n in names:
            r = rs.get(n, set())
            strs = sorted(q[1] for q in r if isinstance(q, tuple))
            if strs:
                d = strs + ["another value"]
            elif "bool" in r and "num" not in r and not any(kind(t) == "cmp" for t in (a, b)):
                d = [False, True]
            else:
                d = sorted({c for c in consts} | {c + 1 for c in consts if isinstance(c, int)} | {1, 2})
                if "truth" in r or "none" in r:
                    d = sorted(set(d) | {0})
            if "none" in r:
                d = d + [None]
            doms.append(d)
        cnt = 1
        for d in doms:
            cnt *= len(d)
        if cnt > 4000:
            return None
        for vs in itertools.product(*doms):
            env = dict(zip(names, vs))
            try:
                full = dict(env)
                x, y = fold(a, full), fold(b, full)
            except (Unfoldable, TypeError):
                continue
            if not isinstance(x, bool) or not isinstance(y, bool):
                return None
            if x != y:
                return {ins[n]: env[n] for n in names}, x, y
    except (Unfoldable, TypeError, ValueError, ZeroDivisionError, OverflowError, IndexError):
        return None
    return None
