"""Gated-SSA value graphs of the Python functions of a source tree.

No code of the tree is imported or run: everything below works on `ast`.
For each function it builds a Summary: the value returned (joins become `if`
gates, loops become `mu` recurrences), the guarded raises, the guarded calls made
for effect, the attributes written on self and the arguments mutated.
Functions that are not in the `known` set (helpers introduced by a later edit) and
nested functions called directly are inlined, so that the graph does not depend on
how the code is cut into helpers.
"""
import ast
import os

from .term import CUR_LOC, FALSE, NONE, T, TRUE, UNDEF, const, is_const, mk, subst, walk

MUTATORS = {"append", "extend", "insert", "add", "update", "remove", "sort", "reverse", "clear",
            "fill", "discard", "popleft", "appendleft", "setdefault", "pop", "popitem", "resize"}
LOGGERISH = {"debug", "info", "warning", "error", "critical", "exception", "log"}
TRANSPARENT_M = {"compute", "persist", "load"}
NP_METH = {"sum", "mean", "max", "min", "any", "all", "cumsum", "argmax", "argmin", "nonzero",
           "ravel", "round", "clip", "argsort", "std", "prod", "reshape", "transpose", "squeeze"}
DTYPES = {"float32", "float64", "int32", "int64", "uint8", "int8", "uint16", "int16", "uint32", "uint64", "bool"}
DICT_POS = {"isel", "sel", "chunk", "pad", "rolling", "rename", "assign_coords", "assign", "drop_vars",
            "expand_dims", "swap_dims", "update", "assign_attrs", "construct", "map_overlap", "set_index"}


# ------------------------------------------------------------------ smart constructors
# repository functions whose delayed call writes a file: evaluating it is an effect even when the result is unused
EFFECTFUL_TASKS = {"plotX.base.make_frame"}


def lnot(t):
    if t.op == "const":
        return const(not t.a[0])
    if t.op == "not":
        return t.a[0]
    if t.op == "cmp":
        o, a, b = t.a
        if o == "<":
            return count_cmp("<=", b, a) or mk("cmp", "<=", b, a, loc=t.loc)
        if o == "<=":
            return count_cmp("<", b, a) or mk("cmp", "<", b, a, loc=t.loc)
        if o == "==":
            return mk("not", t, loc=t.loc)
    if t.op == "and":
        return lor([lnot(x) for x in t.a])
    if t.op == "or":
        return land([lnot(x) for x in t.a])
    return mk("not", t, loc=t.loc)


def _nary(op, unit, zero, xs):
    out = {}
    for x in xs:
        for y in (x.a if x.op == op else (x,)):
            if is_const(y) and y.a[0] is unit:
                continue
            if is_const(y) and y.a[0] is zero:
                return const(zero)
            out[y.h] = y
    for y in out.values():
        if lnot(y).h in out:
            return const(zero)
    if op == "and":
        # a name among the dimensions is not None
        there = {y.a[1].h for y in out.values() if y.op == "cmp" and y.a[0] == "in" and y.a[2].op == "attr" and y.a[2].a[1] in ("dims", "coords", "data_vars")}
        for h in [h for h, y in out.items() if y.op == "not" and y.a[0].op == "cmp" and y.a[0].a[0] == "is" and is_const(y.a[0].a[2], None) and y.a[0].a[1].h in there]:
            del out[h]
    if len(out) > 1:
        # a or (not a and b)  ->  a or b;  a and (not a or b)  ->  a and b
        dual = "and" if op == "or" else "or"
        ch = {}
        for y in out.values():
            if y.op == dual:
                ks = [k for k in y.a if lnot(k).h not in out]
                if len(ks) < len(y.a):
                    y = _nary(dual, zero, unit, ks)
            ch[y.h] = y
        if set(ch) != set(out):
            return _nary(op, unit, zero, list(ch.values()))
    if not out:
        return const(unit)
    v = sorted(out.values(), key=lambda t: t.h)
    return v[0] if len(v) == 1 else mk(op, *v)


def land(xs):
    xs = list(xs)
    for i, x in enumerate(xs):
        if x.op == "cmp" and any(k.op == "if" for k in x.a[1:]):
            t = {y.h for j, y in enumerate(xs) if j != i}
            f = {lnot(y).h for j, y in enumerate(xs) if j != i}
            k = [y.a[1] if y.op == "if" and y.a[0].h in t else y.a[2] if y.op == "if" and y.a[0].h in f else y for y in x.a[1:]]
            if k[0] is not x.a[1] or k[1] is not x.a[2]:
                xs[i] = cmp(x.a[0], *k)
    return _nary("and", True, False, xs)


def lor(xs):
    return _nary("or", False, True, xs)


def literal_leaves(t):
    """a choice between written-out collections only"""
    st, n = [t], 0
    while st:
        x = st.pop()
        n += 1
        if n > 200:
            return False
        if x.op == "if":
            st += [x.a[1], x.a[2]]
        elif not (x.op in ("list", "tuple", "set") and all(is_const(y) for y in x.a)):
            return False
    return True


def cmp(op, a, b):
    if op == ">":
        return cmp("<", b, a)
    if op == ">=":
        return cmp("<=", b, a)
    if op == "!=":
        return lnot(cmp("==", a, b))
    if op == "is not":
        return lnot(cmp("is", a, b))
    if op == "not in":
        return lnot(cmp("in", a, b))
    if op == "is" and is_const(b) and isinstance(b.a[0], bool) is False and b.a[0] is not None:
        op = "=="
    if op == "==":
        if a.op == "const" and b.op == "const" and isinstance(a.a[0], str) and isinstance(b.a[0], str):
            return const(a.a[0] == b.a[0])
        if b.h < a.h:
            a, b = b, a
    if op == "is" and a.op == "const" and b.op == "const":
        return const(a.a[0] is b.a[0])
    if op == "in":
        if b.op in ("tuple", "list", "set") and all(is_const(x) for x in b.a) and b.a:
            return lor([cmp("==", a, x) for x in b.a])
        while b.op == "call" and len(b.a) == 2 and b.a[0].op == "global" and b.a[0].a[0] in CONTAINER:
            b = b.a[1]
        if b.op == "mcall" and b.a[0] == "keys" and len(b.a) == 2:
            b = b.a[1]
        if b.op == "attr" and b.a[1] == "sizes":
            b = mk("attr", b.a[0], "dims", loc=b.loc)
        if b.op == "dict" and is_const(a) and all(p.op == "pair" and is_const(p.a[0]) for p in b.a):
            return const(any(p.a[0].h == a.h for p in b.a))
        if b.op == "dict" and is_const(a) and all(p.op == "dstar" or p.op == "pair" and is_const(p.a[0]) for p in b.a):
            return lor([const(True) if p.op == "pair" else cmp("in", a, p.a[0]) for p in b.a if p.op == "dstar" or p.a[0].h == a.h])
    if op == "in" and b.op in ("list", "tuple", "set") and not b.a:
        return const(False)
    if op == "in" and b.op == "if" and is_const(a) and literal_leaves(b):
        return lor([land([b.a[0], cmp(op, a, b.a[1])]), land([lnot(b.a[0]), cmp(op, a, b.a[2])])])
    if op in ("in", "is"):
        x = b if op == "in" else a
        if x.op == "if" and any(y.op in ("dict", "list", "tuple", "set") or op == "is" and is_const(b, None) and (
                y.op in NOTNONE) for y in x.a[1:]):
            f = (lambda t: cmp(op, a, t)) if op == "in" else (lambda t: cmp(op, t, b))
            return lor([land([x.a[0], f(x.a[1])]), land([lnot(x.a[0]), f(x.a[2])])])
        if op == "is" and is_const(b, None) and a.op in NOTNONE:
            return const(is_const(a, None))
        if op == "is" and is_const(b, None) and a.op == "sub" and a.a[0].op == "comp" and a.a[0].a[0] == "dict" and a.a[0].a[1].op == "pair" and (
                a.a[0].a[1].a[1].op in NOTNONE | {"idx"} and not is_const(a.a[0].a[1].a[1], None)):
            return const(False)
    if op == "==" and is_const(b if is_const(b) else a, 0):
        # no element passes the filter  ==  not any
        x = a if is_const(b) else b
        if counts(x):
            y = x.a[1] if x.op == "call" else x.a[0]
            if y.op == "sub" and y.a[1].op == "cmp":
                return mk("not", mk("mcall", "any", y.a[1]))
            if y.op == "sub" and is_const(y.a[1], 0) and y.a[0].op == "call" and len(y.a[0].a) == 2 and y.a[0].a[0].op == "global" and y.a[0].a[0].a[0] in (
                    "numpy.where", "numpy.nonzero", "numpy.flatnonzero"):
                return mk("not", mk("mcall", "any", y.a[0].a[1]))
        if x.op == "call" and counts(x) and len(x.a) == 2 and x.a[1].op == "comp" and x.a[1].a[0] == "list" and len(x.a[1].a) == 3 and len(x.a[1].a[2].a) == 2:
            g = x.a[1].a[2]
            return mk("not", mk("call", glob("builtins.any"), mk("comp", "gen", g.a[1], mk("gen", g.a[0]))))
    if op in ("==", "<", "<="):
        if num(a) and num(b):
            return const({"==": a.a[0] == b.a[0], "<": a.a[0] < b.a[0], "<=": a.a[0] <= b.a[0]}[op])
        for x, y in ((a, b), (b, a)):
            if num(y) and x.op == "if" and (num(x.a[1]) or num(x.a[2])):
                f = (lambda t: cmp(op, t, y)) if x is a else (lambda t: cmp(op, y, t))
                return lor([land([x.a[0], f(x.a[1])]), land([lnot(x.a[0]), f(x.a[2])])])
            if num(y) and x.op == "call" and counts(x) and len(x.a) == 2 and x.a[1].op == "if":
                i = x.a[1]
                l, r = (const(len(k.a)) if sized(k) else mk("call", x.a[0], k) for k in i.a[1:])
                if all_sized(i) or any(k.h in (cmp("==", l, const(0)).h, cmp("==", r, const(0)).h) for k in (i.a[0], lnot(i.a[0]))):
                    f = (lambda t: cmp(op, t, y)) if x is a else (lambda t: cmp(op, y, t))
                    return lor([land([i.a[0], f(l)]), land([lnot(i.a[0]), f(r)])])
    return count_cmp(op, a, b) or mk("cmp", op, a, b)


NOTNONE = {"const", "dict", "list", "tuple", "set", "comp", "bin", "cmp", "fstr", "not", "and", "or"}
CONTAINER = {"builtins.set", "builtins.list", "builtins.tuple", "builtins.frozenset"}


def sized(t):
    """a list written out element by element"""
    return t.op in ("list", "tuple") and not any(k.op == "star" for k in t.a)


def all_sized(t, d=7):
    return sized(t) or d > 0 and t.op == "if" and all_sized(t.a[1], d - 1) and all_sized(t.a[2], d - 1)


def fixed(t, d=4):
    """a number known in advance, or a choice between such numbers"""
    if is_const(t):
        return isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool)
    if t.op == "global":
        return t.a[0] in ("pi", "inf", "numpy.pi", "numpy.inf")
    return d > 0 and (t.op == "if" and fixed(t.a[1], d - 1) and fixed(t.a[2], d - 1)
                      or t.op == "bin" and t.a[0] in ("+", "-", "*", "/") and all(fixed(k, d - 1) for k in t.a[1:]))


def counts(t):
    """a length: a non-negative integer"""
    return (t.op == "call" and t.a[0].op == "global" and t.a[0].a[0] == "builtins.len") or (
        t.op == "attr" and t.a[1] == "size")


def num(t):
    return is_const(t) and isinstance(t.a[0], int) and not isinstance(t.a[0], bool)


def count_cmp(op, a, b):
    """comparisons of a length with 0 or 1, and of a number of true conditions with a constant"""
    if op == "<" and is_const(a, 0) and counts(b) or op == "<=" and is_const(a, 1) and counts(b):
        return lnot(cmp("==", b, const(0)))
    if op == "<" and is_const(a, 0) and b.op == "bin" and b.a[0] == "%":
        return lnot(cmp("==", b, const(0)))
    if op == "<=" and is_const(b, 0) and a.op == "bin" and a.a[0] == "%":
        return cmp("==", a, const(0))
    if op == "<=" and is_const(b, 0) and counts(a) or op == "<" and is_const(b, 1) and counts(a):
        return cmp("==", a, const(0))
    x, k = (a, b) if num(b) else (b, a)
    if op in ("==", "<", "<=") and num(k) and x.op == "bin" and x.a[0] == "+" and len(x.a) <= 5 and all(
            y.op in BOOLISH for y in x.a[1:]):
        ys = x.a[1:]
        out = []
        for m in range(1 << len(ys)):
            n = bin(m).count("1")
            l, r = (n, k.a[0]) if x is a else (k.a[0], n)
            if {"==": l == r, "<": l < r, "<=": l <= r}[op]:
                out.append(land([y if m >> i & 1 else lnot(y) for i, y in enumerate(ys)]))
        return lor(out)
    return None


BOOLISH = {"cmp", "not", "and", "or"}


def cond(t):
    """t read as a truth value."""
    if t.op == "call" and t.a[0].op == "global" and t.a[0].a[0] == "builtins.bool" and len(t.a) == 2:
        return cond(t.a[1])
    if t.op == "orv":
        return lor([cond(x) for x in t.a])
    if t.op == "andv":
        return land([cond(x) for x in t.a])
    if t.op == "not":
        return lnot(cond(t.a[0]))
    if t.op in ("and", "or") and any(k.op == "cmp" and any(y.op == "if" for y in k.a[1:]) for k in t.a):
        return (land if t.op == "and" else lor)([cond(k) for k in t.a])
    if t.op == "cmp" and t.a[0] in ("<", "<=", "=="):
        for i in (1, 2):
            x = t.a[i]
            if x.op == "if" and fixed(x):
                l, r = (cmp(t.a[0], *((k, t.a[2]) if i == 1 else (t.a[1], k))) for k in x.a[1:])
                return lor([land([x.a[0], cond(l)]), land([lnot(x.a[0]), cond(r)])])
    if listish(t):
        return lnot(cmp("==", mk("call", glob("builtins.len"), t), const(0)))
    if t.op == "bin" and t.a[0] in ("%", "//", "-", "*", "+") or counts(t):
        return lnot(cmp("==", t, const(0)))
    if t.op == "if" and (t.a[1].op in BOOLISH | {"const"} and t.a[2].op in BOOLISH | {"const"} or any(
            is_const(x, True) or is_const(x, False) for x in t.a[1:])):
        c, a, b = t.a
        return lor([land([c, cond(a)]), land([lnot(c), cond(b)])])
    return t


def boolean(t):
    return t.op in BOOLISH or t.op == "mcall" and t.a[0] in ("any", "all") and len(t.a) == 2 or t.op == "call" and len(t.a) == 2 and t.a[
        0].op == "global" and t.a[0].a[0] in ("builtins.any", "builtins.all", "numpy.any", "numpy.all")


def running(t, d=6):
    """a value carried round a loop"""
    return t.op in ("carry", "carrytmp") or d > 0 and t.op == "if" and (running(t.a[1], d - 1) or running(t.a[2], d - 1))


def listish(t, d=4):
    """certainly a list, dict or set"""
    if t.op in ("comp", "list", "dict", "set") or t.op == "mut" and t.a[0] == "extend":
        return t.op != "comp" or t.a[0] != "gen"
    if d and t.op == "if":
        return all(listish(x, d - 1) for x in t.a[1:])
    if d and t.op == "mu":
        return listish(t.a[1].a[1], d - 1)
    return t.op == "call" and t.a[0].op == "global" and t.a[0].a[0] in ("builtins.list", "builtins.set", "builtins.dict", "builtins.sorted")


HOIST_NO = {"const", "param", "global", "modvar", "func", "mu", "bp", "carry", "carrytmp", "undef", "fstr",
            "closure", "comp", "last", "at"}


def _assume(t, c, truth):
    """simplify t knowing that c has that truth value (top-level gates only)"""
    for _ in range(8):
        if t.op != "if":
            return t
        d = t.a[0]
        if d.h == c.h:
            t = t.a[1] if truth else t.a[2]
            continue
        ks = d.a if d.op == "and" else (d,)
        nc = lnot(c).h
        bad = c.h if not truth else nc
        good = c.h if truth else nc
        if any(k.h == bad for k in ks):
            t = t.a[2]
            continue
        if d.op == "and" and any(k.h == good for k in ks):
            t = ite(land([k for k in ks if k.h != good]), t.a[1], t.a[2])
            continue
        if d.op == "or":
            if any(k.h == good for k in d.a):
                t = t.a[1]
                continue
            if any(k.h == bad for k in d.a):
                t = ite(lor([k for k in d.a if k.h != bad]), t.a[1], t.a[2])
                continue
        return t
    return t


def ite(c, a, b):
    c = cond(c)
    if c.op == "const":
        return a if c.a[0] else b
    if a.h == b.h:
        return a
    if c.op == "not":
        return ite(c.a[0], b, a)
    if c.op == "cmp" and c.a[0] == "<=":
        return ite(mk("cmp", "<", c.a[2], c.a[1], loc=c.loc), b, a)
    a, b = _assume(a, c, True), _assume(b, c, False)
    if a.op == "store" and any(k.op == "if" for k in a.a[1:]):
        a = store(a.a[0], _assume(a.a[1], c, True), _assume(a.a[2], c, True))
    if b.op == "store" and any(k.op == "if" for k in b.a[1:]):
        b = store(b.a[0], _assume(b.a[1], c, False), _assume(b.a[2], c, False))
    if a.h == b.h:
        return a
    if c.op == "or" and a.op != "if":
        n = lnot(c)
        if n.op == "and" and all(k.op != "not" for k in n.a):
            return mk("if", n, b, a)
    if is_const(a, True) and is_const(b, False) and c.op in BOOLISH:
        return c
    if is_const(a, False) and is_const(b, True) and c.op in BOOLISH:
        return lnot(c)
    if c.op in BOOLISH:
        if is_const(a) and isinstance(a.a[0], bool) and b.op in BOOLISH:
            return lor([c, b]) if a.a[0] else land([lnot(c), b])
        if is_const(b) and isinstance(b.a[0], bool) and a.op in BOOLISH:
            return lor([lnot(c), a]) if b.a[0] else land([c, a])
    # nested:  if c: (if d: x else y) else y   ->  if c and d: x else y
    if a.op == "if" and a.a[2].h == b.h:
        return ite(land([c, a.a[0]]), a.a[1], b)
    if a.op == "if" and a.a[1].h == b.h:
        return ite(land([c, lnot(a.a[0])]), a.a[2], b)
    if b.op == "if" and b.a[1].h == a.h:
        return ite(lor([c, b.a[0]]), a, b.a[2])
    if b.op == "if" and b.a[2].h == a.h:
        return ite(land([lnot(c), b.a[0]]), b.a[1], a)
    if a.op == b.op and a.op not in HOIST_NO and len(a.a) == len(b.a):
        d = [i for i, (x, y) in enumerate(zip(a.a, b.a))
             if not (x.h == y.h if isinstance(x, T) and isinstance(y, T) else x == y and type(x) is type(y))]
        if len(d) == 1 and isinstance(a.a[d[0]], T) and isinstance(b.a[d[0]], T):
            i = d[0]
            if not (a.op == "if" and i == 0):
                new = list(a.a)
                new[i] = ite(c, a.a[i], b.a[i])
                return mk(a.op, *new, loc=a.loc)
    if c.op == "cmp" and c.a[0] == "<" and {c.a[1].h, c.a[2].h} == {a.h, b.h}:
        return mk("call", glob("builtins.min" if c.a[1].h == a.h else "builtins.max"), a, b)
    return mk("if", c, a, b)


def seqlike(t):
    return t.op in ("tuple", "list", "fstr") or (t.op == "const" and isinstance(t.a[0], (str, tuple)))


def binop(op, a, b):
    if a.op == "const" and b.op == "const" and all(
            isinstance(x.a[0], (int, float)) and not isinstance(x.a[0], bool) for x in (a, b)):
        try:
            v = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y,
                 "/": lambda x, y: x / y, "//": lambda x, y: x // y, "%": lambda x, y: x % y,
                 "**": lambda x, y: x ** y}[op](a.a[0], b.a[0])
            if isinstance(v, (int, float)):
                return const(v)
        except Exception:
            pass
    if op == "-" and is_const(b) and isinstance(b.a[0], (int, float)) and not isinstance(b.a[0], bool) and b.a[0] < 0:
        return binop("+", a, const(-b.a[0]))
    if op == "+" and b.op == "neg":
        return binop("-", a, b.a[0])
    if op == "-" and b.op == "neg":
        return binop("+", a, b.a[0])
    if op in ("+", "-") and is_const(b, 0):
        return a
    if op in ("*", "&", "|", "^") or (op == "+" and not (seqlike(a) or seqlike(b))):
        ks = []
        for x in (a, b):
            ks.extend(x.a[1:] if x.op == "bin" and x.a[0] == op else [x])
        if op == "+":
            num = [k for k in ks if is_const(k) and isinstance(k.a[0], (int, float)) and not isinstance(k.a[0], bool)]
            if len(num) > 1:
                s = sum(k.a[0] for k in num)
                ks = [k for k in ks if k not in num] + ([const(s)] if s else [])
            neg = [k for k in ks if is_const(k) and isinstance(k.a[0], (int, float)) and k.a[0] < 0]
            if len(ks) == 2 and len(neg) == 1:
                o = [k for k in ks if k is not neg[0]][0]
                return mk("bin", "-", o, const(-neg[0].a[0]))
        if op in ("&", "|"):
            ks = list({k.h: k for k in ks}.values())
        if op == "*":
            ks = [k for k in ks if not is_const(k, 1)] or [const(1)]
            half = [k for k in ks if k.op == "const" and k.a[0] in (0.5, 0.25, 0.125) and isinstance(k.a[0], float)]
            if len(half) == 1 and len(ks) > 1:  # exact
                rest = [k for k in ks if k is not half[0]]
                r = rest[0]
                for k in rest[1:]:
                    r = binop("*", r, k)
                return binop("/", r, const(int(1 / half[0].a[0])))
        if op == "*" and len(ks) == 2:
            for x, y in (ks, ks[::-1]):
                if x.op == "bin" and x.a[0] == "//" and x.a[2].h == y.h:
                    return binop("-", x.a[1], binop("%", x.a[1], y))
        if len(ks) == 1:
            return ks[0]
        ks.sort(key=lambda t: t.h)
        return mk("bin", op, *ks)
    if op == "+" and a.op == "list" and b.op == "list":
        return mk("list", *a.a, *b.a)
    if op == "+":
        return mk("bin", "++", a, b)  # concatenation: order matters
    if op == "/" and b.op == "const" and isinstance(b.a[0], float) and b.a[0] == int(b.a[0] if abs(b.a[0]) < 1e9 else 0):
        b = const(int(b.a[0]))
    if op == "-" and a.op == "bin" and a.a[0] == "-" and is_const(a.a[2]) and is_const(b):
        return binop("-", a.a[1], const(a.a[2].a[0] + b.a[0]))
    return mk("bin", op, a, b)


def inv(t):
    if t.op == "inv":
        return t.a[0]
    if t.op == "const" and isinstance(t.a[0], bool):
        return const(not t.a[0])
    return mk("inv", t)


def neg(t):
    if t.op == "const" and isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool):
        return const(-t.a[0])
    if t.op == "neg":
        return t.a[0]
    if t.op == "bin" and t.a[0] == "-":
        return binop("-", t.a[2], t.a[1])
    if t.op == "bin" and t.a[0] == "//" and t.a[1].op == "neg":
        # -(-a // b) is a / b rounded up
        return mk("call", glob("builtins.int"), mk("call", glob("numpy.ceil"), binop("/", t.a[1].a[0], t.a[2])))
    return mk("neg", t)


def maskish(t, d=4):
    """certainly a boolean array"""
    if t.op in ("cmp", "inv", "not") or t.op == "bin" and t.a[0] in ("&", "|", "^"):
        return True
    if t.op == "param":
        return "mask" in str(t.a[0])
    if d and t.op == "call" and len(t.a) == 2 and t.a[0].op == "global" and t.a[0].a[0] in ("numpy.ascontiguousarray", "numpy.asarray"):
        return maskish(t.a[1], d - 1)
    return bool(d) and t.op == "mcall" and t.a[0] == "copy" and len(t.a) == 2 and maskish(t.a[1], d - 1)


def positions(i):
    """x[where(m)[0]] selects the same elements as x[m]"""
    x = i
    if x.op == "mcall" and x.a[0] == "astype" and len(x.a) == 3 and is_const(x.a[2], "int32", "int64"):
        x = x.a[1]
    if x.op == "sub" and is_const(x.a[1], 0) and x.a[0].op == "call" and len(x.a[0].a) == 2 and x.a[0].a[0].op == "global" and x.a[0].a[0].a[0] in (
            "numpy.where", "numpy.nonzero") and maskish(x.a[0].a[1]):
        return x.a[0].a[1]
    return i


def wrapped(t):
    """(x, p) when t lists the last p rows of x, x and the first p rows"""
    if t.op != "list" or len(t.a) != 3:
        return None
    l, x, r = t.a
    if not (l.op == r.op == "sub" and l.a[0].h == r.a[0].h == x.h and l.a[1].op == r.a[1].op == "slice"):
        return None
    lo, p = l.a[1].a[0], r.a[1].a[1]
    if all(is_const(k, None) for k in (l.a[1].a[1], l.a[1].a[2], r.a[1].a[0], r.a[1].a[2])) and lo.op == "bin" and lo.a[0] == "-" \
            and lo.a[1].h == mk("sub", mk("attr", x, "shape"), const(0)).h and lo.a[2].h == p.h:
        return x, p
    return None


def sub(b, i):
    i = positions(i)
    if b.op in ("tuple", "list") and is_const(i) and isinstance(i.a[0], int) and not isinstance(i.a[0], bool):
        if not any(x.op == "star" for x in b.a) and -len(b.a) <= i.a[0] < len(b.a):
            return b.a[i.a[0]]
    if b.op == "store":
        if b.a[1].h == i.h:
            return b.a[2]
        if is_const(i) and is_const(b.a[1]) and isinstance(i.a[0], str) and isinstance(b.a[1].a[0], str):
            return sub(b.a[0], i)
    if b.op == "dict" and is_const(i):
        for p in b.a:
            if p.op == "pair" and p.a[0].h == i.h:
                return p.a[1]
    if b.op == "if" and all(x.op in ("tuple", "list", "if", "dict", "store") for x in b.a[1:]):
        return ite(b.a[0], sub(b.a[1], i), sub(b.a[2], i))
    if i.op == "idx" and i.a[0].h == b.h:
        return mk("elem", b, i.a[1])
    if b.op == "sub" and newaxes(i) and newaxes(b.a[1]):
        # axes added in two steps
        l, out = list(b.a[1].a), []
        for k in i.a:
            if k.op == "slice" and l:
                out.append(l.pop(0))
            else:
                out.append(k)
        return sub(b.a[0], mk("tuple", *(out + l)))
    return mk("sub", b, i)


def newaxes(t):
    """an index that only adds axes"""
    return t.op == "tuple" and all(is_const(k, None) or k.op == "global" and k.a[0] == "numpy.newaxis" or k.op == "slice" and all(
        is_const(x, None) for x in k.a) for k in t.a)


# variables of the datasets used here: ds.name and ds["name"] are the same
DATAVARS = {"dat_anomaly", "dat_stn", "extreme_events", "extreme_events_stn", "thresholds", "thresholds_stn", "neighbours", "cell_areas",
            "ID_field", "global_ID", "ID", "area", "centroid", "merge_ledger", "presence", "time_start", "time_end", "dayofyear", "decimal_year",
            "nv", "overlap_obj"}
SELF = mk("param", "self")


def attr(b, n):
    if b.op == "setattr":
        return b.a[2] if b.a[1] == n else attr(b.a[0], n)
    if b.op in ("global", "modvar"):
        return glob(f"{b.a[0]}.{n}") if b.op == "global" else mk("attr", b, n)
    if n in DATAVARS and b.h != SELF.h:
        return sub(b, const(n))
    return mk("attr", b, n)


GLOB_ALIAS = {"numpy.bool_": "builtins.bool", "numpy.absolute": "numpy.abs", "builtins.abs": "numpy.abs",
              "numba.prange": "builtins.range", "numpy.asarray": "numpy.asarray", "numpy.NaN": "numpy.nan"}


def glob(name):
    name = GLOB_ALIAS.get(name, name)
    if name == "numpy.pi" or name == "math.pi":
        return mk("global", "pi")
    if name in ("numpy.inf", "math.inf"):
        return mk("global", "inf")
    if name.startswith("numpy.") and name[6:] in DTYPES:
        return const(name[6:])
    if name == "builtins.bool_":
        return const("bool")
    return mk("global", name)


def store(b, i, v):
    """b with b[i] := v.  Stores under distinct constant string keys commute."""
    i = positions(i)
    if b.op == "if" and literal_dict(b):
        return grow(b, lambda d: store(d, i, v))
    if is_const(i):
        chain, x = [], b
        while x.op == "store" and is_const(x.a[1]) and isinstance(x.a[1].a[0], str) and isinstance(i.a[0], str):
            chain.append((x.a[1], x.a[2], x.loc))
            x = x.a[0]
        chain = [c for c in chain if c[0].h != i.h] + [(i, v, None)]
        if x.op == "dict" and all(p.op == "pair" and is_const(p.a[0]) for p in x.a):
            d = {p.a[0].h: p for p in x.a}
            for k, w, l in chain[::-1] if False else chain:
                d[k.h] = mk("pair", k, w, loc=l)
            return mk("dict", *sorted(d.values(), key=lambda p: p.a[0].h))
        for k, w, l in sorted(chain, key=lambda c: c[0].h):
            x = mk("store", x, k, w, loc=l)
        return x
    if b.op == "dict" and all(p.op == "pair" for p in b.a):
        d = {p.a[0].h: p for p in b.a}
        d[i.h] = mk("pair", i, v)
        return mk("dict", *sorted(d.values(), key=lambda p: p.a[0].h))
    return mk("store", b, i, v)


def setattr_(b, n, v):
    """b with b.n := v; an assignment to the same attribute replaces the earlier one, to different ones commute"""
    ch, x = [], b
    while x.op == "setattr":
        ch.append(x)
        x = x.a[0]
    ch = [(c.a[1], c.a[2], c.loc) for c in ch if c.a[1] != n] + [(n, v, None)]
    for k, w, l in sorted(ch, key=lambda c: c[0]):
        x = mk("setattr", x, k, w, loc=l)
    return x


def lineage(t):
    """t and the objects it is an in-place changed version of"""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.h in seen:
            continue
        seen.add(x.h)
        if x.op in ("store", "setattr"):
            todo.append(x.a[0])
        elif x.op == "mut":
            todo.append(x.a[1])
        elif x.op == "if":
            todo.extend(x.a[1:])
        elif x.op == "mu":
            todo.append(x.a[1].a[1])
            todo.append(x.a[1].a[2])
        elif x.op == "bin":
            todo.extend(x.a[1:])
    return seen


def reaches(t, base):
    """t is the object `base`, possibly changed in place"""
    l = lineage(t)
    return base.h in l or base.op in ("store", "setattr", "mut") and bool(l & {
        h for h in lineage(base)})


def literal_list(t, d=3):
    return t.op == "list" and not any(x.op == "star" for x in t.a) or d > 0 and t.op == "if" and all(literal_list(x, d - 1) for x in t.a[1:])


def literal_dict(t, d=3):
    return t.op == "dict" or d > 0 and t.op == "if" and all(literal_dict(x, d - 1) for x in t.a[1:])


def grow(t, f):
    """f applied to each of the literals t may be"""
    return ite(t.a[0], grow(t.a[1], f), grow(t.a[2], f)) if t.op == "if" else f(t)


def append(t, x):
    return grow(t, lambda l: mk("list", *l.a, x)) if literal_list(t) else extend(t, mk("list", x))


def extend(t, x):
    if x.op == "list" and t.op == "mut" and t.a[0] == "extend" and len(t.a) == 3 and t.a[2].op == "list":
        return mk("mut", "extend", t.a[1], mk("list", *t.a[2].a, *x.a))
    return mk("mut", "extend", t, x)


def iswhere(t):
    return t.op == "where"


# ------------------------------------------------------------------ program
class Func:
    def __init__(self, mod, cls, node):
        self.mod, self.cls, self.node, self.name = mod, cls, node, node.name
        self.short = (cls + "." if cls else "") + node.name
        self.qual = mod.short + "." + self.short
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.defaults = {}
        pos = a.posonlyargs + a.args
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            self.defaults[p.arg] = d
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                self.defaults[p.arg] = d
        self.static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in node.decorator_list)


class Module:
    def __init__(self, name, path, src):
        self.name, self.path, self.src = name, path, src
        parts = name.split(".")
        self.short = ".".join(parts[1:]) or parts[0]
        self.tree = ast.parse(src, path)
        for n in ast.walk(self.tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                plain_loops(n)
        self.imports, self.funcs, self.classes, self.consts, self.multi = {}, {}, {}, {}, set()
        self.bases = {}
        self.classnodes = {}
        pkg = name if path.endswith("__init__.py") else name.rsplit(".", 1)[0]
        self.pkg = pkg
        for n in ast.walk(self.tree):
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                self._imp(n, self.imports, top=True)
        self._collect(self.tree.body)
        # rebound by a function: not a constant
        self.multi |= {x for n in ast.walk(self.tree) if isinstance(n, ast.Global) for x in n.names}

    def _imp(self, n, d, top=False):
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.asname:
                    d[a.asname] = a.name
                else:
                    d[a.name.split(".")[0]] = a.name.split(".")[0]
        else:
            base = n.module or ""
            if n.level:
                p = self.pkg.split(".")
                p = p[: len(p) - (n.level - 1)]
                base = ".".join(p + ([n.module] if n.module else []))
            for a in n.names:
                d[a.asname or a.name] = f"{base}.{a.name}"

    def _collect(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[n.name] = Func(self, None, n)
            elif isinstance(n, ast.ClassDef):
                m = {}
                for c in n.body:
                    if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        m[c.name] = Func(self, n.name, c)
                self.classes[n.name] = m
                self.classnodes[n.name] = n
                self.bases[n.name] = [b for b in n.bases]
            elif isinstance(n, (ast.If, ast.Try)):
                self._collect(n.body)
                for h in getattr(n, "handlers", []):
                    self._collect(h.body)
                self._collect(n.orelse)
                self._collect(getattr(n, "finalbody", []))
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        if t.id in self.consts:
                            self.multi.add(t.id)
                        self.consts[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                self.consts[n.target.id] = n.value


class Program:
    def __init__(self, root, package="marEx", known=None, override=None, base=None):
        """override: {relative path: source text} analysed instead of the file;
        base: a Program whose parsed modules are reused for all other files"""
        override = override or {}
        self.root = root
        self.modules = {}
        self.files = []
        top = os.path.join(root, package)
        for d, ds, fs in sorted(os.walk(top)):
            ds.sort()
            for f in sorted(fs):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, root)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[: -len(".__init__")]
                if base is not None and rel not in override and name in base.modules:
                    self.modules[name] = base.modules[name]
                elif rel in override:
                    self.modules[name] = Module(name, rel, override[rel])
                else:
                    with open(p, encoding="utf-8") as fh:
                        self.modules[name] = Module(name, rel, fh.read())
                self.files.append(rel)
        self.funcs = {}
        for m in self.modules.values():
            for f in m.funcs.values():
                self.funcs[f.qual] = f
            for c in m.classes.values():
                for f in c.values():
                    self.funcs[f.qual] = f
        if known is None:
            self.known = {q: q for q in self.funcs}
        else:
            # qualified names that exist in the reference keep their identity; a function that
            # moved to another module (same bare name, unique) keeps the reference's name
            self.known = {q: q for q in self.funcs if q in known}
            gone = [q for q in known if q not in self.funcs]
            for q in gone:
                b = q.split(".")[-1]
                c = [x for x in self.funcs if x not in known and x.split(".")[-1] == b]
                if len(c) == 1:
                    self.known[c[0]] = q
        self.inv_known = {v: k for k, v in self.known.items()}
        self._sum = {}
        self.nfun = 0

    def get(self, qual):
        q = self.inv_known.get(qual)
        return self.funcs.get(q) if q else None

    def method(self, mod, cls, name, seen=()):
        if (mod.name, cls) in seen:
            return None
        m = mod.classes.get(cls)
        if m is None:
            return None
        if name in m:
            return m[name]
        for b in mod.bases.get(cls, []):
            r = self.resolve_class(mod, b)
            if r:
                f = self.method(r[0], r[1], name, seen + ((mod.name, cls),))
                if f:
                    return f
        return None

    def resolve_class(self, mod, node):
        if isinstance(node, ast.Name):
            if node.id in mod.classes:
                return mod, node.id
            d = mod.imports.get(node.id)
            if d:
                return self.find_class(d)
        return None

    def find_class(self, dotted, depth=0):
        if depth > 5:
            return None
        m, _, n = dotted.rpartition(".")
        if m in self.modules:
            if n in self.modules[m].classes:
                return self.modules[m], n
            if n in self.modules[m].imports:
                return self.find_class(self.modules[m].imports[n], depth + 1)
        return None

    def find_func(self, dotted, depth=0):
        if depth > 5:
            return None
        m, _, n = dotted.rpartition(".")
        if m in self.modules:
            if n in self.modules[m].funcs:
                return self.modules[m].funcs[n]
            if n in self.modules[m].imports:
                return self.find_func(self.modules[m].imports[n], depth + 1)
        return None

    def summary(self, qual):
        if qual in self._sum:
            return self._sum[qual]
        if qual.endswith(".<module>"):
            self._sum[qual] = module_summary(self, qual[: -len(".<module>")])
            return self._sum[qual]
        f = self.get(qual)
        if f is None:
            self._sum[qual] = None
            return None
        old = CUR_LOC[0]
        e = Ev(self, f.mod, f.cls, f)
        env = {}
        ps = f.params + f.kwonly + ([f.vararg] if f.vararg else []) + ([f.kwarg] if f.kwarg else [])
        for p in ps:
            env[p] = mk("param", p)
        e.localparams = tuple(ps)
        s = e.run(f.node, env, {})
        s.params = ps
        s.defaults = {p: e.default(f, p) for p in f.defaults}
        CUR_LOC[0] = old
        self._sum[qual] = s
        self.nfun += 1
        return s


def module_summary(prog, short):
    """module level as a pseudo function: constants, class attributes, bases, decorators, import-time effects"""
    m = next((x for x in prog.modules.values() if x.short == short), None)
    if m is None:
        return None
    e = Ev(prog, m, None, None)
    body = [n for n in m.tree.body if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom))]
    node = ast.parse("def module(): pass").body[0]
    node.body = body or [ast.Pass()]
    s = e.run(node, {}, {})
    s.params, s.defaults = [], {}
    s.ret = NONE
    for k, v in s.envf.items():
        if not k.startswith("self.") and k not in ("__all__", "logger"):
            s.attrs[k] = v
    for cn, c in m.classnodes.items():
        e = Ev(prog, m, None, None)
        e.st = St({}, ())
        for i, b in enumerate(c.bases):
            s.attrs[f"{cn}.<base {i}>"] = e.e(b)
        for d in c.decorator_list:
            s.attrs[f"{cn}.<decorator {ast.unparse(d).split('(')[0]}>"] = e.e(d)
        for x in c.body:
            if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and x.value is not None:
                s.attrs[f"{cn}.{x.target.id}"] = e.e(x.value)
            elif isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Name):
                        s.attrs[f"{cn}.{t.id}"] = e.e(x.value)
    for f in list(m.funcs.values()) + [f for c in m.classes.values() for f in c.values()]:
        if f.qual not in prog.known:
            continue
        e = Ev(prog, m, None, None)
        e.st = St({}, ())
        ds = [e.e(d) for d in f.node.decorator_list]
        if ds:
            s.attrs[f"{f.short}.<decorators>"] = mk("list", *ds)
    return s


class Event:
    __slots__ = ("kind", "guard", "term", "loc", "label")

    def __init__(self, kind, guard, term, loc, label=None):
        self.kind, self.guard, self.term, self.loc, self.label = kind, tuple(guard), term, loc, label

    def __repr__(self):
        return f"<{self.kind} {self.label or ''} {self.term} if {list(self.guard)} @{self.loc}>"


class Summary:
    def __init__(self):
        self.ret = NONE
        self.events = []
        self.attrs = {}
        self.outs = {}
        self.params = []
        self.defaults = {}
        self.returns = []
        self.part = set()
        self.fn = None

    def of(self, *kinds):
        return [e for e in self.events if e.kind in kinds]

    def roots(self):
        out = [self.ret] + list(self.attrs.values()) + list(self.outs.values())
        for e in self.events:
            out.extend(e.guard)
            if e.term is not None:
                out.append(e.term)
        return out

    def terms(self):
        seen = set()
        for r in self.roots():
            yield from walk(r, seen)


class St:
    __slots__ = ("env", "path", "term")

    def __init__(self, env, path):
        self.env, self.path, self.term = env, tuple(path), None

    def copy(self, *g):
        return St(dict(self.env), self.path + tuple(g))


class Loop:
    def __init__(self, base):
        self.base, self.conts, self.brks = base, [], []


_uid = [0]


def uid():
    _uid[0] += 1
    return _uid[0]


CLOSURES = {}


QUIET = ("gc.collect", "builtins.print", "warnings.filterwarnings", "warnings.simplefilter")


COMP_DEPTH = {}  # loop depth at which a comprehension was written


class TermNode(ast.expr):
    """an expression already evaluated"""

    def __init__(self, term, like):
        super().__init__()
        self.term = term
        ast.copy_location(self, like)


class Ev:
    def __init__(self, prog, mod, cls, func, stack=(), depth=0, level=0, selfname=None):
        self.p, self.mod, self.cls, self.func = prog, mod, cls, func
        self.stack = stack
        self.depth = depth  # loop depth
        self.level = level  # function-value nesting level
        self.events, self.returns, self.loops = [], [], []
        self.captured = {}
        self.st = None
        self.selfname = selfname
        self.localnames = set()
        self.frozen = {}
        self.rebound = set()
        self.alias = {}
        self.part = {}

    # -------------------------------------------------------------- driver
    def run(self, node, env, captured, path=()):
        self.captured = captured
        self.fnode = node
        self.st = st = St(dict(env), ())
        if self.cls and not (self.func and self.func.static):
            a = node.args
            pos = a.posonlyargs + a.args
            if pos and self.selfname is None:
                self.selfname = pos[0].arg
        params0 = {k: v for k, v in env.items() if not k.startswith("self.")}
        gl = [] if isinstance(node, ast.Lambda) else sorted({x for n in node.body for g in ast.walk(n) if isinstance(g, ast.Global) for x in g.names})
        for k in gl:
            st.env[k] = self.module_name(k)
        g0 = {k: st.env[k] for k in gl}
        body = node.body if not isinstance(node, ast.Lambda) else [ast.Return(value=node.body, lineno=node.lineno, col_offset=0)]
        self.block(body, st)
        if st.term is None:
            self.returns.append((st.path, NONE))
        s = Summary()
        s.fn = node
        s.events = self.events
        s.returns = self.returns
        s.ret = self.fold_returns(self.returns)
        # final environment on normal exit: exits recorded with env
        envf = self.final_env(st)
        for k, v in envf.items():
            if k.startswith("self."):
                if v.h != self.attr_default(k).h:
                    s.attrs[k[5:]] = v
            elif k in params0 and k in self.mutparams:
                if k in self.rebound and not reaches(v, params0[k]):
                    v = self.frozen.get(k, params0[k])
                if v.h != params0[k].h:
                    s.outs[k] = v
        # module-level objects changed in place
        s.modmut = {}
        if not isinstance(node, ast.Lambda) and self.mod is not None:
            for k, v in envf.items():
                if k in gl or k in env or k in captured or k.startswith("self.") or k not in self.mod.consts or k in self.bound_names(node):
                    continue
                s.modmut[k] = v
                g0[k] = self.module_name(k)
        for k in gl + sorted(s.modmut):
            v = envf.get(k)
            if v is not None and v.h != g0[k].h:
                s.attrs["global " + k] = v
        s.envf = envf
        s.part = self.parts(node)
        return s

    def parts(self, node):
        """module-level objects and attributes of self reachable through local names that are changed in place"""
        if isinstance(node, ast.Lambda):
            return set()
        out, held, changed = set(), {}, set()
        for n in ast.walk(node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        held.setdefault(t.id, []).append(n.value)
                    elif isinstance(t, ast.Subscript) and self.lv_root(t) is not None:
                        changed.add(self.lv_root(t).id)
            elif isinstance(n, (ast.For, ast.comprehension)):
                for t in ast.walk(n.target):
                    if isinstance(t, ast.Name):
                        held.setdefault(t.id, []).append(n.iter)
            elif isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and self.lv_root(n.func.value) is not None:
                    changed.add(self.lv_root(n.func.value).id)
                for a in n.args:
                    if isinstance(a, ast.Name):
                        changed.add(a.id)
        for k in changed:
            for v in held.get(k, ()):
                for x in ast.walk(v):
                    if isinstance(x, ast.Name) and x.id in self.mod.consts:
                        out.add("global " + x.id)
                    elif isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == self.selfname:
                        out.add(x.attr)
        return out

    mutparams = ()
    fnode = None

    def bound_names(self, node):
        out = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                out |= {(a.asname or a.name).split(".")[0] for a in n.names}
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
        return out

    def attr_default(self, k):
        return mk("attr", mk("param", "self"), k[5:])

    def final_env(self, st):
        envs = [(p, e) for p, e in getattr(self, "exit_envs", [])]
        if st.term is None:
            envs.append((st.path, st.env))
        if not envs:
            return {}
        out = dict(envs[-1][1])
        for p, e in reversed(envs[:-1]):
            c = land(list(p))
            for k in set(out) | set(e):
                a, b = e.get(k), out.get(k)
                if a is None and k.startswith("self."):
                    a = self.attr_default(k)
                if b is None and k.startswith("self."):
                    b = self.attr_default(k)
                if a is None or b is None:
                    out[k] = a or b
                elif a.h != b.h:
                    out[k] = ite(c, a, b)
        return out

    def fold_returns(self, rets):
        if not rets:
            return mk("bottom")
        # what a handler returns replaces what the guarded statements would have returned
        rets = sorted(rets, key=lambda r: -sum(1 for g in r[0] if g.op == "exc"))
        out = rets[-1][1]
        for p, t in reversed(rets[:-1]):
            out = ite(land([g for g in p]), t, out)
        return out

    def ev(self, kind, term, node, label=None, guard=None):
        g = self.st.path if guard is None else guard
        self.events.append(Event(kind, g, term, self.loc(node), label))

    def loc(self, node):
        return (self.mod.path, getattr(node, "lineno", 0))

    # -------------------------------------------------------------- statements
    def block(self, stmts, st):
        saved = self.st
        self.st = st
        for s in stmts:
            if st.term is not None:
                break
            CUR_LOC[0] = self.loc(s)
            self.stmt(s, st)
            self.st = st
        self.st = saved

    def stmt(self, s, st):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m:
            m(s, st)
        else:
            self.ev("opaque", mk("stmt", type(s).__name__), s)

    def s_Pass(self, s, st):
        pass

    s_Global = s_Nonlocal = s_Pass

    def s_Import(self, s, st):
        d = {}
        self.mod._imp(s, d)
        for k, v in d.items():
            st.env[k] = self.global_term(v)

    s_ImportFrom = s_Import

    def s_FunctionDef(self, s, st):
        u = uid()
        CLOSURES[u] = (self, s)
        st.env[s.name] = mk("closure", u)

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, st):
        st.env[s.name] = mk("localclass", s.name)

    def s_Return(self, s, st):
        v = self.e(s.value) if s.value is not None else NONE
        self.returns.append((st.path, v))
        if not hasattr(self, "exit_envs"):
            self.exit_envs = []
        self.exit_envs.append((st.path, dict(st.env)))
        st.term = "return"

    def s_Raise(self, s, st):
        if s.exc is None:
            self.ev("raise", mk("reraise"), s, "reraise")
        else:
            t = self.e(s.exc)
            lab = self.exc_label(t)
            if s.cause is not None:
                self.ev("cause", self.e(s.cause), s, lab)
            self.ev("raise", t, s, lab)
        st.term = "raise"

    def exc_label(self, t):
        if t.op == "kcall":
            return t.a[0].split(".")[-1]
        if t.op == "call" and t.a[0].op in ("global", "modvar"):
            return t.a[0].a[0].split(".")[-1]
        if t.op == "global":
            return t.a[0].split(".")[-1]
        if t.op == "mcall" and t.a[0] in ("with_traceback",):
            return self.exc_label(t.a[1])
        return "expr"

    def s_Assert(self, s, st):
        c = cond(self.e(s.test))
        self.ev("raise", mk("assert"), s, "AssertionError", guard=st.path + self.split(lnot(c)))

    def split(self, c):
        return c.a if c.op == "and" else (() if is_const(c, True) else (c,))

    def s_Expr(self, s, st):
        v = s.value
        if isinstance(v, ast.Constant):
            return
        if isinstance(v, (ast.Yield, ast.YieldFrom)):
            self.ev("yield", self.e(v.value) if v.value is not None else NONE, s)
            return
        if isinstance(v, ast.Call) and self.is_logging(v):
            return
        n0 = len(self.events)
        t = self.e(v)
        if self.mod.short == "logging_config" and t.op == "mcall" and t.a[0] in LOGGERISH:
            # the message text is not part of the behaviour; level and guard are
            self.ev("effect", mk("mcall", t.a[0], t.a[1], *(t.a[2:3] if t.a[0] == "log" else ())), s)
            return
        if isinstance(v, ast.Call) and self._inlined is v:
            # the helper's last expression is evaluated for its effect
            for g, x in self.leaves(t):
                if x.op in ("kcall", "mcall", "rcall", "call") and not (x.op == "call" and x.a[0].op == "global" and x.a[0].a[0] in QUIET):
                    self.ev("effect", x, s, guard=tuple(self.st.path) + g)
            return
        if isinstance(v, ast.Call) and t.op in ("kcall", "call", "mcall", "tuple", "rcall", "apply") and self._mutated is not v:
            nm = t.a[0].a[0] if t.op == "call" and t.a[0].op == "global" else ""
            if nm not in QUIET:
                if nm == "warnings.warn":
                    t = mk("call", t.a[0])
                self.ev("effect", t, s)

    def leaves(self, t, g=()):
        if t.op == "if":
            yield from self.leaves(t.a[1], g + tuple(self.split(t.a[0])))
            yield from self.leaves(t.a[2], g + tuple(self.split(lnot(t.a[0]))))
        else:
            yield g, t

    def is_logging(self, call):
        f = call.func
        if self.mod.short == "logging_config":
            return False
        if isinstance(f, ast.Attribute) and f.attr in LOGGERISH and isinstance(f.value, (ast.Name, ast.Attribute)):
            n = f.value.id if isinstance(f.value, ast.Name) else f.value.attr
            return "log" in n.lower()
        if isinstance(f, ast.Name) and f.id in ("print",):
            return True
        if isinstance(f, ast.Name) and f.id in ("log_memory_usage", "log_dask_info", "log_progress"):
            return True
        return False

    def s_Assign(self, s, st):
        v = self.e(s.value)
        for t in s.targets:
            self.assign(t, v, st)
            self.pair_alias(t, s.value)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.e(s.value), st)

    def s_AugAssign(self, s, st):
        op = BINOPS.get(type(s.op), "?")
        cur = self.e(self.as_load(s.target))
        r = self.e(s.value)
        if op == "+" and r.op in ("list", "comp") and (r.op == "list" or r.a[0] == "list"):
            v = grow(cur, lambda l: mk("list", *l.a, *r.a)) if literal_list(cur) and r.op == "list" else extend(cur, r)
        else:
            v = binop(op, cur, r)
        self.assign(s.target, v, st)

    def as_load(self, t):
        t = ast.copy_location(type(t)(**{f: getattr(t, f) for f in t._fields}), t)
        t.ctx = ast.Load()
        return t

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            if t.id in self.localparams and not reaches(v, st.env.get(t.id, v)):
                self.rebound.add(t.id)
                if t.id in self.mutparams:
                    self.frozen.setdefault(t.id, st.env.get(t.id, v))
            st.env[t.id] = v
            self.note_param(t.id, rebind=True)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                for i, x in enumerate(t.elts):
                    self.assign(x.value if isinstance(x, ast.Starred) else x, mk("unpack", v, i, len(t.elts)), st)
            else:
                for i, x in enumerate(t.elts):
                    self.assign(x, sub(v, const(i)), st)
        elif isinstance(t, ast.Subscript):
            base = self.e(self.as_load(t.value))
            nb = store(base, self.idx(t.slice), v)
            self.put(t.value, nb, st, s=t)
        elif isinstance(t, ast.Attribute):
            if isinstance(t.value, ast.Name) and t.value.id == self.selfname:
                st.env["self." + t.attr] = v
            else:
                base = self.e(self.as_load(t.value))
                self.put(t.value, setattr_(base, t.attr, v), st, s=t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)

    def put(self, lv, newv, st, s=None):
        """write back a mutated object to the place it was read from"""
        if isinstance(lv, ast.Name):
            if lv.id in st.env or lv.id not in self.captured:
                old = st.env.get(lv.id)
                for k in [lv.id] + sorted(self.alias.get(lv.id, ())):
                    if k != lv.id and (old is None or k not in st.env or st.env[k].h != old.h):
                        continue
                    p = self.part.get(k)
                    if p is not None and st.env.get(k) is not None and self.e(p).h == st.env[k].h:
                        st.env[k] = newv
                        self.put(p, newv, st, s)
                    st.env[k] = newv
                    if k in self.localparams:
                        self.mutparams = tuple(self.mutparams) + (k,)
            else:
                self.ev("mutcapture", newv, s or lv)
        elif isinstance(lv, ast.Attribute) and isinstance(lv.value, ast.Name) and lv.value.id == self.selfname:
            st.env["self." + lv.attr] = newv
        elif isinstance(lv, ast.Attribute):
            base = self.e(self.as_load(lv.value))
            self.put(lv.value, setattr_(base, lv.attr, newv), st, s)
        elif isinstance(lv, ast.Subscript):
            base = self.e(self.as_load(lv.value))
            self.put(lv.value, store(base, self.idx(lv.slice), newv), st, s)
        else:
            self.ev("effect", newv, s or lv)

    localparams = ()
    _mutated = None
    _inlined = None

    def note_param(self, n, rebind):
        pass

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == self.selfname:
                st.env["self." + t.attr] = mk("deleted")
            elif isinstance(t, ast.Subscript):
                base = self.e(self.as_load(t.value))
                self.put(t.value, mk("mut", "del", base, self.idx(t.slice)), st, s=t)

    def s_If(self, s, st):
        c = cond(self.e(s.test))
        if c.op == "const":
            self.inline_block(s.body if c.a[0] else s.orelse, st)
            return
        nc = lnot(c)
        sa, sb = st.copy(*self.split(c)), st.copy(*self.split(nc))
        la, lb = len(sa.path), len(sb.path)
        n0 = self.marks()
        self.block(s.body, sa)
        n1 = self.marks()
        self.block(s.orelse, sb)
        self.st = st
        # code that only runs because the other branch did not raise: like the statements after the `if`,
        # it carries no condition of its own (the raise event does)
        if sa.term == "raise" and (sb.term != "raise" or self.continues(s.orelse)):
            lb = self.strip(sb, len(st.path), lb, n1, self.marks())
        elif sb.term == "raise" and sa.term != "raise":
            la = self.strip(sa, len(st.path), la, n0, n1)
        self.merge(st, c, nc, sa, la, sb, lb)

    def continues(self, body):
        """an else-branch that goes on with further tests (elif chain)"""
        return len(body) >= 1 and isinstance(body[-1], ast.If)

    def strip(self, st, n, l, e0, e1):
        pre = tuple(st.path[:l])

        def cut(g):
            g = tuple(g)
            return g[:n] + g[l:] if len(g) >= l and all(p.h == q.h for p, q in zip(g[:l], pre)) else g
        for lst, a, b in zip(self.mark_lists(), e0, e1):
            for i in range(a, b):
                x = lst[i]
                if isinstance(x, Event):
                    lst[i] = Event(x.kind, cut(x.guard), x.term, x.loc, x.label)
                else:
                    lst[i] = (cut(x[0]), x[1])
        st.path = cut(st.path)
        return n

    def mark_lists(self):
        if not hasattr(self, "exit_envs"):
            self.exit_envs = []
        return [self.events, self.returns, self.exit_envs] + ([self.loops[-1].brks, self.loops[-1].conts] if self.loops else [])

    def marks(self):
        return [len(x) for x in self.mark_lists()]

    def inline_block(self, body, st):
        self.block(body, st)

    def merge(self, st, c, nc, sa, la, sb, lb):
        n = len(st.path)
        if sa.term and sb.term:
            st.term = "raise" if sa.term == sb.term == "raise" else (sa.term if sa.term == sb.term else "mixed")
            return
        if sa.term or sb.term:
            dead, live, ll = (sa, sb, lb) if sa.term else (sb, sa, la)
            st.env = live.env
            if dead.term == "raise":
                st.path = st.path + live.path[ll:]
            else:
                st.path = live.path
            return
        ea, eb = sa.path[n:], sb.path[n:]
        if len(sa.path) == la and len(sb.path) == lb:
            pass
        else:
            g = lor([land(list(ea)), land(list(eb))])
            st.path = st.path + self.split(g)
        st.env = self.merge_env(c, sa.env, sb.env)

    def merge_env(self, c, a, b):
        if a is b:
            return a
        out = {}
        for k in list(a) + [k for k in b if k not in a]:
            x, y = a.get(k), b.get(k)
            if x is None:
                x = self.default_of(k)
            if y is None:
                y = self.default_of(k)
            out[k] = x if x.h == y.h else ite(c, x, y)
        return out

    def default_of(self, k):
        if k.startswith("self."):
            return self.attr_default(k)
        if k in self.captured:
            return self.captured[k]
        if self.fnode is not None and k in self.mod.consts and k not in self.bound_names(self.fnode):
            return self.module_name(k)
        return UNDEF

    # ---- loops
    def s_For(self, s, st):
        it = self.e(s.iter)
        xs = self.literal_items(it)
        if xs is not None and len(xs) <= 6 and not self.jumps(s.body):
            elts = s.iter.elts if isinstance(s.iter, (ast.Tuple, ast.List)) and len(s.iter.elts) == len(xs) else [None] * len(xs)
            for x, el in zip(xs, elts):
                if st.term is None:
                    self.assign(s.target, x, st)
                    self.pair_alias(s.target, el)
                    self.once(s.body, st)
            if st.term is None:
                self.block(s.orelse, st)
                self.st = st
            return
        d = self.depth
        skip = None
        if it.op == "comp" and it.a[0] in ("list", "gen") and len(it.a) == 3 and len(it.a[2].a) == 2 and COMP_DEPTH.get(it.h) == d:
            it2, bind, skip = it.a[2].a[0], it.a[1], it.a[2].a[1]
        else:
            it2, bind = self.iteration(it, d)
        self.loop(s, st, "for", it2, lambda env_st: self.assign(s.target, bind, env_st), s.body, s.orelse, only=skip)

    s_AsyncFor = s_For

    def once(self, body, st):
        """one iteration written out"""
        lp = Loop(st)
        nb = len(st.path)
        path0 = st.path
        self.loops.append(lp)
        self.block(body, st)
        self.loops.pop()
        self.st = st
        if not lp.conts:
            return
        env = dict(st.env) if st.term is None else None
        for pth, e in reversed(lp.conts):
            if env is None:
                env = dict(e)
                continue
            c = land(list(pth[nb:]))
            m = {}
            for k in set(env) | set(e):
                x, y = e.get(k), env.get(k)
                x = self.default_of(k) if x is None else x
                y = self.default_of(k) if y is None else y
                m[k] = x if x.h == y.h else ite(c, x, y)
            env = m
        st.env = env
        if st.term in (None, "continue"):
            st.term = None
            st.path = path0

    def pair_alias(self, t, v):
        """the name t denotes the same object as the name v until one of them is bound again"""
        if isinstance(t, ast.Name):
            self.alias = {k: {x for x in w if x != t.id} for k, w in self.alias.items() if k != t.id}
            self.part.pop(t.id, None)
            if self.shared_part(v):
                self.part[t.id] = v
            if isinstance(v, ast.Name) and v.id != t.id:
                g = {v.id} | self.alias.get(v.id, set())
                for k in g:
                    self.alias.setdefault(k, set()).add(t.id)
                self.alias[t.id] = set(g)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = v.elts if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) else [None] * len(t.elts)
            for a, b in zip(t.elts, vs):
                self.pair_alias(a, b)

    def shared_part(self, v):
        """an attribute of self, or an entry of a module-level object"""
        if not isinstance(v, (ast.Subscript, ast.Attribute)):
            return False
        while isinstance(v, ast.Subscript):
            if not isinstance(v.slice, ast.Constant):
                return False
            v = v.value
        if isinstance(v, ast.Attribute):
            return isinstance(v.value, ast.Name) and v.value.id == self.selfname
        return isinstance(v, ast.Name) and v.id in self.mod.consts and v.id not in self.captured and v.id not in self.bound_names(self.fnode)

    def jumps(self, body):
        """a break of this loop"""
        for x in body:
            if isinstance(x, ast.Break):
                return True
            if isinstance(x, (ast.For, ast.While, ast.AsyncFor)):
                if self.jumps(x.orelse):
                    return True
            elif isinstance(x, (ast.If, ast.With, ast.Try)):
                bs = [x.body, getattr(x, "orelse", [])] + [h.body for h in getattr(x, "handlers", [])] + [getattr(x, "finalbody", [])]
                if any(self.jumps(b) for b in bs):
                    return True
        return False

    def iteration(self, it, d):
        """(canonical iterable, value bound to the target)"""
        if it.op == "call" and it.a[0].op == "global":
            n, args = it.a[0].a[0], it.a[1:]
            if n == "builtins.enumerate" and args:
                i2, b2 = self.iteration(args[0], d)
                ix = mk("idx", i2, d)
                if len(args) > 1:
                    ix = binop("+", ix, args[1].a[1] if args[1].op == "kw" else args[1])
                return i2, mk("tuple", ix, b2)
            if n == "builtins.zip" and args and not any(x.op in ("kw", "star") for x in args):
                bs = [self.iteration(x, d) for x in args]
                return mk("zip", *[b[0] for b in bs]), mk("tuple", *[b[1] for b in bs])
            if n == "builtins.range" and len(args) == 1 and args[0].op == "call" and args[0].a[0] == glob("builtins.len"):
                return args[0].a[1], mk("idx", args[0].a[1], d)
            if n in ("builtins.list", "builtins.tuple", "builtins.iter") and len(args) == 1:
                return self.iteration(args[0], d)
        if it.op == "mcall" and len(it.a) == 2:
            if it.a[0] == "items":
                k = mk("elem", it.a[1], d)
                return it.a[1], mk("tuple", k, sub(it.a[1], k))
            if it.a[0] == "keys":
                return it.a[1], mk("elem", it.a[1], d)
            if it.a[0] == "values":
                return it.a[1], sub(it.a[1], mk("elem", it.a[1], d))
        if it.op == "list":
            it = mk("tuple", *it.a, loc=it.loc)
        if it.op == "comp" and it.a[0] in ("list", "gen") and len(it.a) == 3 and len(it.a[2].a) == 1 and COMP_DEPTH.get(it.h) == d:
            return it.a[2].a[0], it.a[1]
        return it, mk("elem", it, d)

    def s_While(self, s, st):
        self.loop(s, st, "while", None, lambda env_st: None, s.body, s.orelse, test=s.test)

    def loop(self, s, st, kind, it, bind, body, orelse, test=None, only=None):
        namelist = (assigned([ast.Expr(s.target)]) if kind == "for" else []) + assigned(body)
        namelist = [n for n in namelist if n in st.env or n not in self.mod.imports]
        names = set(namelist)
        # names that stay identical after one round are dropped below; names mutated through
        # inlined helpers are discovered by comparing environments
        ne, nr, nx = len(self.events), len(self.returns), len(getattr(self, "exit_envs", []))
        env0 = dict(st.env)
        path0 = st.path
        for _round in range(4):
            del self.events[ne:]
            del self.returns[nr:]
            if hasattr(self, "exit_envs"):
                del self.exit_envs[nx:]
            tmp = {}
            b = St(dict(env0), path0)
            for n in names:
                if n in env0 or n.startswith("self."):
                    t = mk("carrytmp", uid(), 0)
                    tmp[n] = t
                    b.env[n] = t
                elif n in self.captured:
                    pass
                else:
                    t = mk("carrytmp", uid(), 1)
                    tmp[n] = t
                    b.env[n] = t
            self.depth += 1
            lp = Loop(b)
            self.loops.append(lp)
            self.st = b
            tc = None
            if kind == "for":
                b.path = path0 + (mk("inloop", it),)
                bind(b)
            else:
                tc = cond(self.e(test))
                b.path = path0 + (mk("inwhile", tc),)
            nb = len(b.path)
            if only is not None:
                lp.conts.append((b.path + tuple(self.split(lnot(only))), dict(b.env)))
                b.path = b.path + tuple(self.split(only))
            self.block(body, b)
            self.loops.pop()
            self.depth -= 1
            self.st = st
            # continues / breaks join the end of the body
            nxt = dict(b.env) if b.term in (None,) else None
            for pth, env in reversed(lp.conts + [(p, e) for p, e in lp.brks]):
                c = land(list(pth[nb:]))
                if nxt is None:
                    nxt = dict(env)
                else:
                    m = {}
                    for k in set(nxt) | set(env):
                        x, y = env.get(k), nxt.get(k)
                        x = self.default_of(k) if x is None else x
                        y = self.default_of(k) if y is None else y
                        m[k] = x if x.h == y.h else ite(c, x, y)
                    nxt = m
            if nxt is None:
                nxt = dict(b.env)
            changed = {k for k, v in nxt.items()
                       if k not in names and (k not in env0 or env0[k].h != v.h) and v.op != "closure"}
            # local names introduced by the body but not syntactically visible cannot carry
            changed = {k for k in changed if k in env0 or k.startswith("self.")}
            if not changed:
                break
            names |= changed
        brk = [land(list(p[nb:])) for p, _ in lp.brks]
        init = {n: env0.get(n, self.default_of(n)) for n in tmp}
        live = {}
        for n in tmp:
            v = nxt.get(n, tmp[n])
            if v.h == tmp[n].h or v.op == "deleted":
                continue
            if v.op == "closure":
                continue
            live[n] = v
        # colours
        deps = {n: self._tmps(live[n]) for n in live}
        t2n = {tmp[n].h: n for n in tmp}
        dead_map = {tmp[n].h: init[n] for n in tmp if n not in live}
        if dead_map:
            live = {n: subst(v, dead_map) for n, v in live.items()}
            tc = subst(tc, dead_map) if tc is not None else None
            brk = [subst(x, dead_map) for x in brk]
            deps = {n: self._tmps(live[n]) for n in live}
        # a colour is a name-independent label of a carried variable: its initial and next values,
        # with the variables of enclosing loops anonymised (they are not known yet)
        star = {}
        for n in live:
            for x in walk(live[n]):
                if x.op == "carrytmp" and x.h not in t2n:
                    star[x.h] = mk("carry", "*")
            for x in walk(init[n]):
                if x.op == "carrytmp":
                    star[x.h] = mk("carry", "*")
        col = {n: subst(init[n], star).h.hex()[:8] for n in live}
        for _ in range(3):
            mp = dict(star)
            mp.update({tmp[n].h: mk("carry", col[n]) for n in live})
            memo = {}
            col = {n: mk("c", col[n], subst(live[n], mp, memo)).h.hex()[:8] for n in live}
        order = {n: i for i, n in reversed(list(enumerate(namelist)))}
        byc = {}
        for n in live:
            byc.setdefault(col[n], []).append(n)
        if any(len(ns) > 1 for ns in byc.values()):
            # variables that start equal and are updated alike at every step stay equal
            cls = dict(col)
            for _ in range(len(live) + 1):
                mp = {tmp[n].h: mk("carry", cls[n]) for n in live}
                memo = {}
                new = {n: mk("c", cls[n], init[n], subst(live[n], mp, memo)).h.hex() for n in live}
                stable = len(set(new.values())) == len(set(cls.values()))
                cls = new
                if stable:
                    break
            for c, ns in byc.items():
                got = {}
                for n in sorted(ns, key=lambda q: (order.get(q, 10**6), q)):
                    i = got.setdefault(cls[n], len(got))
                    if i:
                        col[n] = f"{c}.{i}"
        mp = {tmp[n].h: mk("carry", col[n]) for n in live}
        memo = {}
        nx2 = {n: subst(live[n], mp, memo) for n in live}
        tc2 = subst(tc, mp, memo) if tc is not None else None
        brk2 = [subst(x, mp, memo) for x in brk]
        extra = set()
        for x in brk + ([tc] if tc is not None else []):
            extra |= {t2n[h] for h in self._tmps(x) if h in t2n}
        comps = list(it.a) if it is not None and it.op == "zip" else []

        def lead(p):
            """parallel sequences walked together: the position in one of them"""
            ix = mk("idx", p, self.depth)
            return {mk("idx", it, self.depth).h: ix, **{mk("elem", x, self.depth).h: sub(x, ix) for x in comps if x.h != p.h}}

        mus = {}
        for n in live:
            reach, todo = [], [n] + sorted(extra, key=lambda q: col.get(q, ""))
            while todo:
                x = todo.pop(0)
                if x in reach or x not in live:
                    continue
                if not any(col[y] == col[x] for y in reach):
                    reach.append(x)
                else:
                    continue
                todo.extend(sorted((t2n[h] for h in deps[x] if h in t2n), key=lambda q: col.get(q, "")))
            cvs = []
            for x in reach:
                cv = mk("cv", col[x], init[x], nx2[x])
                cv.hint = (x, getattr(s, "lineno", 0))
                cvs.append(cv)
            others = sorted(cvs[1:], key=lambda t: t.h)
            head = mk("while", tc2) if kind == "while" else mk("over", it)
            if comps:
                seen = {y.h for x in cvs for y in walk(x.a[2])}
                p = [x for x in comps if mk("elem", x, self.depth).h in seen] or comps
                mp1, memo1 = lead(p[0]), {}
                head = mk("over", p[0])
                hints = {x.a[0]: x.hint for x in cvs}
                cvs = [mk("cv", x.a[0], x.a[1], subst(x.a[2], mp1, memo1)) for x in cvs]
                for x in cvs:
                    x.hint = hints[x.a[0]]
                others = sorted(cvs[1:], key=lambda t: t.h)
            mus[n] = self.canon_mu(mk("mu", head, cvs[0], *others, *[mk("brk", x) for x in sorted(brk2, key=lambda t: t.h)]), d=self.depth)
        at = {tmp[n].h: mk("at", mus[n]) for n in live}
        at.update(dead_map)
        if comps:
            at.update(lead(comps[0]))
            at[it.h] = comps[0]
        memo = {}
        for e in self.events[ne:]:
            e.guard = tuple(subst(g, at, memo) for g in e.guard)
            if e.term is not None:
                e.term = subst(e.term, at, memo)
        for i in range(nr, len(self.returns)):
            p, t = self.returns[i]
            self.returns[i] = (tuple(subst(g, at, memo) for g in p), subst(t, at, memo))
        for i in range(nx, len(getattr(self, "exit_envs", []))):
            p, en = self.exit_envs[i]
            self.exit_envs[i] = (tuple(subst(g, at, memo) for g in p), {k: subst(v, at, memo) for k, v in en.items()})
        env = dict(env0)
        for k, v in nxt.items():
            if k in live:
                if not deps[k] and env0.get(k) is None and not k.startswith("self."):
                    env[k] = mk("last", it if it is not None else mk("while", tc2), nx2[k])
                else:
                    env[k] = mus[k]
            elif k in tmp:
                if k in env0:
                    env[k] = env0[k]
            elif k not in env0:
                env[k] = subst(v, at, memo)
        st.env = env
        returned = len(self.returns) > nr
        st.path = path0
        if returned:
            g = [land(list(p[len(path0):])) for p, _ in self.returns[nr:]]
            st.path = path0 + (lnot(mk("someiter", lor(g))),)
        if orelse:
            if lp.brks:
                c = mk("nobreak", *[x for x in brk2])
                sa, sb = st.copy(c), st.copy(lnot(c))
                la, lb = len(sa.path), len(sb.path)
                self.block(orelse, sa)
                self.st = st
                self.merge(st, c, lnot(c), sa, la, sb, lb)
            else:
                self.block(orelse, st)

    def _tmps(self, t):
        return {x.h for x in walk(t) if x.op == "carrytmp"}

    def canon_mu(self, m, d):
        """for x in it: L.append(f(x))   ==   [f(x) for x in it]"""
        head, cv = m.a[0], m.a[1]
        if head.op != "over" or len(m.a) != 2:
            return m
        c, init, nx = cv.a
        me = mk("carry", c)
        conds = []
        body = nx
        if body.op == "if" and body.a[2].h == me.h:
            conds, body = [body.a[0]], body.a[1]
        elif body.op == "if" and body.a[1].h == me.h:
            conds, body = [lnot(body.a[0])], body.a[2]
        if body.op == "mut" and body.a[0] == "extend" and body.a[1].h == me.h and len(body.a) == 3 and body.a[2].op == "list" and len(
                body.a[2].a) == 1 and body.a[2].a[0].op != "star":
            body = mk("mut", "append", body.a[1], body.a[2].a[0])
            if any(x.h == me.h for x in walk(body.a[2])) or any(x.h == me.h for y in conds for x in walk(y)):
                return m
            comp = mk("comp", "list", body.a[2], mk("gen", head.a[0], *conds))
            COMP_DEPTH[comp.h] = d
            if init.op == "list" and not init.a:
                return comp
            return mk("mut", "extend", init, comp)
        if body.op == "mut" and body.a[0] == "add" and body.a[1].h == me.h and len(body.a) == 3 and init.h == mk("call", glob("builtins.set")).h:
            return mk("comp", "set", body.a[2], mk("gen", head.a[0], *conds))
        if body.op == "store" and body.a[0].h == me.h and init.op == "dict" and not init.a:
            if not any(x.h == me.h for x in walk(body.a[2])):
                return mk("comp", "dict", mk("pair", body.a[1], body.a[2]), mk("gen", head.a[0], *conds))
        return m

    def s_Break(self, s, st):
        if self.loops:
            self.loops[-1].brks.append((st.path, dict(st.env)))
        st.term = "break"

    def s_Continue(self, s, st):
        if self.loops:
            self.loops[-1].conts.append((st.path, dict(st.env)))
        st.term = "continue"

    # ---- try / with
    def s_Try(self, s, st):
        before = dict(st.env)
        p0 = st.path
        b = St(dict(st.env), st.path)
        self.block(s.body, b)
        if b.term is None:
            self.block(s.orelse, b)
        self.st = st
        outs = []
        for h in s.handlers:
            ty = self.exc_types(h.type)
            g = mk("exc", *ty, mk("tryof", *([sum(1 for x in p0 if x.op == "exc")] if any(x.op == "exc" for x in p0) else [])))
            henv = dict(before)
            for k, v in b.env.items():
                o = before.get(k)
                if o is None:
                    henv[k] = mk("tryval", self.default_of(k), v)
                elif o.h != v.h:
                    henv[k] = mk("tryval", o, v)
            hs = St(henv, p0 + (g,))
            if h.name:
                hs.env[h.name] = mk("excval", *ty)
            n0 = len(self.events)
            self.block(h.body, hs)
            self.st = st
            self.events.append(Event("catch", p0, mk("catch", *ty), self.loc(h), hs.term or "fallthrough"))
            outs.append((g, hs))
        live = [(g, hs) for g, hs in outs if hs.term is None]
        if b.term is None:
            env, path = b.env, b.path
        elif live:
            env, path = None, None
        else:
            st.term = b.term if all(hs.term == b.term for _, hs in outs) else "mixed"
            if s.finalbody:
                fs = St(b.env, p0)
                self.block(s.finalbody, fs)
                self.st = st
            return
        for g, hs in live:
            if env is None:
                env, path = hs.env, hs.path
                continue
            m = {}
            for k in list(env) + [k for k in hs.env if k not in env]:
                x, y = hs.env.get(k), env.get(k)
                x = self.default_of(k) if x is None else x
                y = self.default_of(k) if y is None else y
                m[k] = x if x.h == y.h else mk("if", g, x, y)
            env = m
        st.env = env
        if b.term is None:
            st.path = b.path if not any(hs.term not in (None, "raise") for _, hs in outs) else b.path + tuple(
                mk("not", g) for g, hs in outs if hs.term not in (None, "raise"))
        else:
            st.path = p0 + tuple(path[len(p0):])
        if s.finalbody:
            self.block(s.finalbody, st)

    s_TryStar = s_Try

    def exc_types(self, t):
        if t is None:
            return ("BaseException",)
        if isinstance(t, ast.Tuple):
            return tuple(sorted(x for e in t.elts for x in self.exc_types(e)))
        v = self.e(t)
        if v.op == "global":
            return (v.a[0].split(".")[-1],)
        return ("?",)

    def s_With(self, s, st):
        for i in s.items:
            c = self.e(i.context_expr)
            nm = c.a[0].a[0].split(".")[-1] if c.op == "call" and c.a[0].op == "global" else (
                c.a[0].split(".")[-1] if c.op == "kcall" else "")
            if nm not in ("log_timing", "progress_bar", "catch_warnings"):
                self.ev("with", c, s)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, mk("enter", c), st)
        self.block(s.body, st)

    s_AsyncWith = s_With

    def s_Match(self, s, st):
        subj = self.e(s.subject)
        node = None
        # translate simple literal matches to an if chain
        def build(cases):
            if not cases:
                return []
            c = cases[0]
            if isinstance(c.pattern, ast.MatchValue):
                t = ast.Compare(left=s.subject, ops=[ast.Eq()], comparators=[c.pattern.value])
            elif isinstance(c.pattern, ast.MatchOr) and all(isinstance(p, ast.MatchValue) for p in c.pattern.patterns):
                t = ast.Compare(left=s.subject, ops=[ast.In()], comparators=[ast.Tuple(elts=[p.value for p in c.pattern.patterns], ctx=ast.Load())])
            elif isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None:
                return c.body if c.guard is None else [ast.If(test=c.guard, body=c.body, orelse=build(cases[1:]))]
            else:
                return None
            if c.guard is not None:
                t = ast.BoolOp(op=ast.And(), values=[t, c.guard])
            r = build(cases[1:])
            if r is None:
                return None
            return [ast.If(test=t, body=c.body, orelse=r)]
        r = build(s.cases)
        if r is None:
            self.ev("opaque", mk("stmt", "match", subj), s)
        else:
            for x in r:
                ast.copy_location(x, s)
                ast.fix_missing_locations(x)
            self.block(r, st)

    # -------------------------------------------------------------- expressions
    def e(self, n):
        old = CUR_LOC[0]
        if hasattr(n, "lineno"):
            CUR_LOC[0] = self.loc(n)
        try:
            m = getattr(self, "e_" + type(n).__name__, None)
            if m is None:
                return mk("expr", type(n).__name__, ast.dump(n))
            return m(n)
        finally:
            CUR_LOC[0] = old

    def idx(self, n):
        return self.e(n)

    def e_Constant(self, n):
        v = n.value
        if isinstance(v, (bytes, complex)) or v is Ellipsis:
            return mk("const", repr(v))
        return const(v)

    def lookup(self, name):
        st = self.st
        if name in st.env:
            return st.env[name]
        if name in self.captured:
            return self.captured[name]
        return None

    def e_Name(self, n):
        t = self.lookup(n.id)
        if t is not None:
            if t.op == "closure":
                return self.func_value(t)
            return t
        return self.module_name(n.id)

    def module_name(self, name):
        m = self.mod
        if name in m.funcs:
            return self.func_ref(m.funcs[name])
        if name in m.classes:
            return mk("global", m.name + "." + name)
        if name in m.consts:
            v = m.consts[name]
            if name not in m.multi:
                lit = self.literal(v)
                if lit is not None:
                    return lit
            return mk("modvar", m.short + "." + name)
        if name in m.imports:
            return self.global_term(m.imports[name])
        return glob("builtins." + name)

    def literal(self, v):
        if isinstance(v, ast.Constant) and not isinstance(v.value, (bytes, complex)) and v.value is not None:
            return const(v.value)
        if isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.USub):
            x = self.literal(v.operand)
            return neg(x) if x is not None else None
        if isinstance(v, ast.Tuple):
            xs = [self.literal(x) for x in v.elts]
            return mk("tuple", *xs) if all(x is not None for x in xs) else None
        if isinstance(v, ast.BinOp) and type(v.op) in BINOPS:
            a, b = self.literal(v.left), self.literal(v.right)
            if a is not None and b is not None:
                return binop(BINOPS[type(v.op)], a, b)
        return None

    def global_term(self, dotted):
        f = self.p.find_func(dotted)
        if f is not None:
            return self.func_ref(f)
        c = self.p.find_class(dotted)
        if c:
            return mk("global", c[0].name + "." + c[1])
        m, _, n = dotted.rpartition(".")
        if m in self.p.modules and n in self.p.modules[m].consts:
            mod = self.p.modules[m]
            lit = self.literal(mod.consts[n]) if n not in mod.multi else None
            return lit if lit is not None else mk("modvar", mod.short + "." + n)
        return glob(dotted)

    def func_ref(self, f):
        if f.qual in self.p.known:
            return mk("fref", self.p.known[f.qual])
        return self.func_term(f.node, f.mod, f.cls, f, {})

    def func_value(self, t):
        own, node = CLOSURES[t.a[0]]
        cap = dict(own.captured)
        cap.update(own.st.env if own.st else {})
        cap.pop(node.name, None)
        return self.func_term(node, own.mod, own.cls, None, cap, own)

    def func_term(self, node, mod, cls, func, captured, own=None):
        key = id(node)
        if key in self.stack or len(self.stack) > 12:
            return mk("recfunc", node.name if hasattr(node, "name") else "lambda")
        e = Ev(self.p, mod, cls, func, self.stack + (key,), self.depth, self.level + 1,
               selfname=(own.selfname if own else None))
        env = {}
        a = node.args
        ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])
        for i, p in enumerate(ps):
            env[p] = mk("bp", self.level, i)
        e.localparams = tuple(ps)
        if func is not None and cls and not func.static:
            e.selfname = ps[0] if ps else None
        if own is not None and own.selfname:
            cap = dict(captured)
            for k, v in list(captured.items()):
                if k.startswith("self."):
                    env[k] = v
            captured = cap
        s = e.run(node, env, captured)
        args = [s.ret]
        for k in sorted(s.outs):
            args.append(mk("out", ps.index(k), s.outs[k]))
        evs = []
        for x in s.events:
            if x.kind == "raise":
                evs.append(mk("raise", x.label, land(list(x.guard))))
            elif x.kind in ("effect", "mutcapture", "yield"):
                evs.append(mk("effect", land(list(x.guard)), x.term))
        args.extend(sorted({x.h: x for x in evs}.values(), key=lambda t: t.h))
        if not isinstance(node, ast.Lambda) and len(args) == 1 and s.ret.op == "call" and False:
            pass
        return mk("func", len(ps), *args)

    def e_Lambda(self, n):
        cap = dict(self.captured)
        cap.update(self.st.env)
        return self.func_term(n, self.mod, self.cls, None, cap, self)

    def e_Attribute(self, n):
        if isinstance(n.value, ast.Name) and n.value.id == self.selfname and self.selfname is not None:
            k = "self." + n.attr
            if k in self.st.env:
                return self.st.env[k]
            if k in self.captured:
                return self.captured[k]
            f = self.p.method(self.mod, self.cls, n.attr) if self.cls else None
            if f is not None:
                return mk("fref", self.p.known[f.qual]) if f.qual in self.p.known else self.func_ref(f)
            return mk("attr", mk("param", "self"), n.attr)
        b = self.e(n.value)
        if b.op == "global":
            full = f"{b.a[0]}.{n.attr}"
            if b.a[0] in self.p.modules:
                return self.global_term(full)
            return glob(full)
        return attr(b, n.attr)

    def e_Subscript(self, n):
        return sub(self.e(n.value), self.idx(n.slice))

    def e_Slice(self, n):
        f = lambda x: self.e(x) if x is not None else NONE
        lo, hi, stp = f(n.lower), f(n.upper), f(n.step)
        if is_const(lo, 0) and not isinstance(lo.a[0], bool):
            lo = NONE
        if is_const(stp, 1):
            stp = NONE
        return mk("slice", lo, hi, stp)

    def e_Tuple(self, n):
        return mk("tuple", *[self.e(x) for x in n.elts])

    def e_List(self, n):
        return mk("list", *[self.e(x) for x in n.elts])

    def e_Set(self, n):
        return mk("set", *sorted((self.e(x) for x in n.elts), key=lambda t: t.h))

    def e_Dict(self, n):
        ps = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                ps.append(mk("dstar", self.e(v)))
            else:
                ps.append(mk("pair", self.e(k), self.e(v)))
        return self.mkdict(ps)

    def mkdict(self, ps):
        if len(ps) == 1 and ps[0].op == "dstar":
            return ps[0].a[0]
        flat = []
        for p in ps:
            if p.op == "dstar" and p.a[0].op == "dict":
                flat.extend(p.a[0].a)
            else:
                flat.append(p)
        if all(p.op == "pair" for p in flat):
            d = {}
            for p in flat:
                d[p.a[0].h] = p
            flat = sorted(d.values(), key=lambda p: p.a[0].h)
        return mk("dict", *flat)

    def e_Starred(self, n):
        return mk("star", self.e(n.value))

    def e_NamedExpr(self, n):
        v = self.e(n.value)
        self.assign(n.target, v, self.st)
        return v

    def e_JoinedStr(self, n):
        ps = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                ps.append(const(v.value))
            else:
                x = self.e(v.value)
                if v.format_spec is not None:
                    x = mk("fmt", x, self.e(v.format_spec))
                ps.append(x)
        return self.mkfstr(ps)

    def mkfstr(self, ps):
        out = []
        for p in ps:
            for q in (p.a if p.op == "fstr" else (p,)):
                if q.op == "call" and q.a[0].op == "global" and q.a[0].a[0] == "builtins.str" and len(q.a) == 2:
                    q = q.a[1]
                if out and is_const(out[-1]) and isinstance(out[-1].a[0], str) and is_const(q) and isinstance(q.a[0], str):
                    out[-1] = const(out[-1].a[0] + q.a[0])
                else:
                    out.append(q)
        if len(out) == 1 and is_const(out[0]) and isinstance(out[0].a[0], str):
            return out[0]
        return mk("fstr", *out)

    def e_FormattedValue(self, n):
        return self.e(n.value)

    def e_BinOp(self, n):
        a, b = self.e(n.left), self.e(n.right)
        op = BINOPS.get(type(n.op), "?")
        if op == "+" and any(x.op == "fstr" or (is_const(x) and isinstance(x.a[0], str)) for x in (a, b)):
            return self.mkfstr([a, b])
        return binop(op, a, b)

    def e_UnaryOp(self, n):
        v = self.e(n.operand)
        if isinstance(n.op, ast.Not):
            return lnot(cond(v))
        if isinstance(n.op, ast.USub):
            return neg(v)
        if isinstance(n.op, ast.Invert):
            return inv(v)
        return v

    def e_BoolOp(self, n):
        st = self.st
        vs = []
        saved_path = st.path
        for x in n.values:
            vs.append(self.e(x))
        isand = isinstance(n.op, ast.And)
        if all(v.op in BOOLISH or is_const(v, True, False) for v in vs):
            return land(vs) if isand else lor(vs)
        if all(v.op in BOOLISH for v in vs[:-1]) and isand:
            return mk("andv", *vs)
        if len(vs) == 2 and boolean(vs[1]) and running(vs[0]):
            # flag = flag or test  ==  if test: flag = True
            return ite(vs[1], vs[0], const(False)) if isand else ite(vs[1], const(True), vs[0])
        if len(vs) == 2 and not isand and vs[0].op in ("param", "attr", "phi"):
            return ite(cond(vs[0]), vs[0], vs[1])
        return mk("andv" if isand else "orv", *vs)

    def e_Compare(self, n):
        xs = [self.e(n.left)] + [self.e(c) for c in n.comparators]
        out = [cmp(CMPOPS[type(o)], xs[i], xs[i + 1]) for i, o in enumerate(n.ops)]
        return out[0] if len(out) == 1 else land(out)

    def e_IfExp(self, n):
        c = cond(self.e(n.test))
        if c.op == "const":
            return self.e(n.body if c.a[0] else n.orelse)
        return ite(c, self.e(n.body), self.e(n.orelse))

    def literal_items(self, it):
        """the elements of an iterable written out in the source (a short tuple, list, constant range, zip, enumerate or
        dict of them), or None"""
        def lit(t):
            if t.op in ("tuple", "list"):
                return None if any(x.op == "star" for x in t.a) else list(t.a)
            if t.op == "const" and isinstance(t.a[0], tuple):
                return [const(x) for x in t.a[0]]
            if t.op == "dict":
                return [p.a[0] for p in t.a] if t.a and all(p.op == "pair" and is_const(p.a[0]) for p in t.a) else None
            if t.op == "mcall" and len(t.a) == 2 and t.a[0] in ("items", "keys", "values") and t.a[1].op == "dict":
                ks = lit(t.a[1])
                if ks is None:
                    return None
                return [{"items": mk("tuple", *p.a), "keys": p.a[0], "values": p.a[1]}[t.a[0]] for p in t.a[1].a]
            if t.op == "call" and t.a[0].op == "global":
                f, a = t.a[0].a[0], t.a[1:]
                if f == "builtins.range" and 1 <= len(a) <= 3 and all(num(x) for x in a):
                    try:
                        r = range(*[x.a[0] for x in a])
                    except ValueError:
                        return None
                    return [const(i) for i in r] if len(r) <= 8 else None
                if f in ("builtins.list", "builtins.tuple", "builtins.iter") and len(a) == 1:
                    return lit(a[0])
                if f == "builtins.reversed" and len(a) == 1:
                    x = lit(a[0])
                    return x[::-1] if x is not None else None
                if f == "builtins.enumerate" and 1 <= len(a) <= 2 and (len(a) == 1 or num(a[1])):
                    x = lit(a[0])
                    s0 = a[1].a[0] if len(a) == 2 else 0
                    return [mk("tuple", const(i + s0), y) for i, y in enumerate(x)] if x is not None else None
                if f == "builtins.zip" and a and not any(x.op in ("kw", "star") for x in a):
                    xs = [lit(x) for x in a]
                    return [mk("tuple", *r) for r in zip(*xs)] if all(x is not None for x in xs) else None
            return None
        x = lit(it)
        return x if x is not None and len(x) <= 12 else None

    def unrolled(self, gens, i, mkelt):
        """the (condition, element) pairs of a comprehension over written-out iterables, or None"""
        if i == len(gens):
            return [(TRUE, mkelt())]
        g = gens[i]
        xs = self.literal_items(self.e(g.iter))
        if xs is None:
            return None
        out = []
        for x in xs:
            self.assign(g.target, x, self.st)
            c = land([cond(self.e(k)) for k in g.ifs])
            if is_const(c, False):
                continue
            r = self.unrolled(gens, i + 1, mkelt)
            if r is None:
                return None
            out += [(land([c, k]), e) for k, e in r]
        return out if len(out) <= 24 and sum(c.op != "const" for c, _ in out) <= 3 else None

    def comp(self, n, kind, mkelt):
        saved = self.st
        self.st = saved.copy()
        ne = len(self.events)
        r = self.unrolled(n.generators, 0, mkelt)
        self.st = saved
        if r is not None:
            if kind == "dict":
                t = mk("dict")
                for c, p in r:
                    t = ite(c, grow(t, lambda d: store(d, *p.a)), t)
                return t
            if kind != "set":
                t = mk("list")
                for c, x in r:
                    t = ite(c, append(t, x), t)
                return t
            if all(c.op == "const" for c, _ in r):
                return mk("set", *sorted({x.h: x for _, x in r}.values(), key=lambda t: t.h))
        del self.events[ne:]
        self.st = saved.copy()
        d0 = self.depth
        gens = []
        for g in n.generators:
            it = self.e(g.iter)
            inner = []
            if it.op == "comp" and it.a[0] in ("list", "gen") and len(it.a) == 3 and COMP_DEPTH.get(it.h) == self.depth:
                it2, b, inner = it.a[2].a[0], it.a[1], list(it.a[2].a[1:])
            else:
                it2, b = self.iteration(it, self.depth)
            self.depth += 1
            self.assign(g.target, b, self.st)
            conds = inner + [cond(self.e(c)) for c in g.ifs]
            c = land(conds) if conds else None
            gens.append(mk("gen", it2, *([c] if c is not None else [])))
        elt = mkelt()
        self.depth = d0
        self.st = saved
        if len(gens) == 1 and len(gens[0].a) == 1:
            it2 = gens[0].a[0]
            if kind == "dict" and it2.op == "zip" and len(it2.a) == 2 and elt.a[0].h == mk("elem", it2.a[0], d0).h and elt.a[1].h == mk("elem", it2.a[1], d0).h:
                return mk("call", glob("builtins.dict"), mk("call", glob("builtins.zip"), *it2.a))
            if kind in ("list", "set") and elt.h == mk("elem", it2, d0).h:
                return mk("call", glob("builtins." + kind), it2)
        t = mk("comp", kind, elt, *gens)
        COMP_DEPTH[t.h] = d0
        return t

    def e_ListComp(self, n):
        return self.comp(n, "list", lambda: self.e(n.elt))

    def e_GeneratorExp(self, n):
        return self.comp(n, "gen", lambda: self.e(n.elt))

    def e_SetComp(self, n):
        return self.comp(n, "set", lambda: self.e(n.elt))

    def e_DictComp(self, n):
        return self.comp(n, "dict", lambda: mk("pair", self.e(n.key), self.e(n.value)))

    def e_Yield(self, n):
        self.ev("yield", self.e(n.value) if n.value is not None else NONE, n)
        return mk("yielded")

    def e_Await(self, n):
        return self.e(n.value)

    # ---- calls
    def args(self, n):
        pos, kw = [], []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.e(a.value)
                if v.op in ("tuple", "list") and not any(x.op == "star" for x in v.a):
                    pos.extend(v.a)
                else:
                    pos.append(mk("star", v))
            else:
                pos.append(self.e(a))
        for k in n.keywords:
            v = self.e(k.value)
            if k.arg is None:
                kw.extend(self.spread(v))
            else:
                kw.append(mk("kw", k.arg, v))
        return pos, kw

    def spread(self, v):
        if v.op == "dict" and all(p.op == "pair" for p in v.a):
            out = []
            for p in v.a:
                if is_const(p.a[0]) and isinstance(p.a[0].a[0], str):
                    out.append(mk("kw", p.a[0].a[0], p.a[1], loc=p.loc))
                else:
                    out.append(mk("dkw", p.a[0], p.a[1], loc=p.loc))
            return out
        return [mk("dstar", v)]

    def e_TermNode(self, n):
        return n.term

    def e_Call(self, n):
        if self.is_logging(n):
            return NONE
        for i, k in enumerate(n.keywords):
            if k.arg is None and not isinstance(k.value, TermNode):
                v = self.e(k.value)
                if v.op == "if" and all(x.op == "dict" for x in v.a[1:]):
                    alts = []
                    for x in v.a[1:]:
                        kw = list(n.keywords)
                        kw[i] = ast.keyword(arg=None, value=TermNode(x, k.value))
                        alts.append(self.e_Call(ast.copy_location(ast.Call(func=n.func, args=n.args, keywords=kw), n)))
                    return ite(v.a[0], *alts)
        f = n.func
        # --- closures called directly
        if isinstance(f, ast.Name):
            t = self.lookup(f.id)
            if t is not None and t.op == "closure":
                own, node = CLOSURES[t.a[0]]
                if not node.decorator_list:
                    cap = dict(own.captured)
                    if own.st:
                        cap.update(own.st.env)
                    return self.inline(n, node, own.mod, own.cls, None, cap, own)
        # --- resolved repo function
        fn, recv = self.resolve(f)
        if fn is not None:
            return self.repo_call(n, fn, recv)
        # --- class constructor
        cls = self.resolve_class_expr(f)
        if cls is not None:
            return self.ctor(n, cls)
        pos, kw = self.args(n)
        if isinstance(f, ast.Attribute):
            b = self.e(f.value)
            if b.op == "global":
                return self.ext_call(n, glob(f"{b.a[0]}.{f.attr}"), pos, kw)
            return self.mcall(n, b, f.attr, pos, kw)
        if isinstance(f, ast.IfExp):
            c = cond(self.e(f.test))
            alts = [self.e_Call(ast.copy_location(ast.Call(func=x, args=n.args, keywords=n.keywords), n)) for x in (f.body, f.orelse)]
            return ite(c, *alts)
        c = self.e(f)
        if c.op == "if":
            alts = self.class_choice(n, c)
            if alts is not None:
                return alts
        if c.op == "func" and not kw:
            return mk("apply", c, *pos)
        return self.ext_call(n, c, pos, kw)

    def resolve(self, f):
        if isinstance(f, ast.Name):
            t = self.lookup(f.id)
            if t is not None:
                if t.op == "fref":
                    q = self.p.inv_known.get(t.a[0])
                    return self.p.funcs.get(q), None
                return None, None
            m = self.mod
            if f.id in m.funcs:
                return m.funcs[f.id], None
            if f.id in m.classes or f.id in m.consts:
                return None, None
            if f.id in m.imports:
                return self.p.find_func(m.imports[f.id]), None
            return None, None
        if isinstance(f, ast.Attribute):
            v = f.value
            if isinstance(v, ast.Name) and v.id == self.selfname and self.selfname is not None and self.cls:
                fn = self.p.method(self.mod, self.cls, f.attr)
                return (fn, v) if fn else (None, None)
            if isinstance(v, ast.Name) and self.lookup(v.id) is None:
                d = self.mod.imports.get(v.id)
                if d in self.p.modules:
                    return self.p.find_func(d + "." + f.attr), None
                c = self.p.resolve_class(self.mod, v)
                if c:
                    fn = self.p.method(c[0], c[1], f.attr)
                    return (fn, None) if fn else (None, None)
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super" and self.cls:
                for b in self.mod.bases.get(self.cls, []):
                    r = self.p.resolve_class(self.mod, b)
                    if r:
                        fn = self.p.method(r[0], r[1], f.attr)
                        if fn:
                            return fn, ast.Name(id=self.selfname, ctx=ast.Load(), lineno=v.lineno, col_offset=0)
        return None, None

    def class_choice(self, n, c):
        """a call of one of several classes"""
        if c.op == "if":
            a, b = self.class_choice(n, c.a[1]), self.class_choice(n, c.a[2])
            return ite(c.a[0], a, b) if a is not None and b is not None else None
        cls = self.p.find_class(c.a[0]) if c.op == "global" else None
        return self.ctor(n, cls) if cls is not None else None

    def resolve_class_expr(self, f):
        if isinstance(f, ast.Name) and self.lookup(f.id) is None:
            return self.p.resolve_class(self.mod, f)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
            d = self.mod.imports.get(f.value.id)
            if d in self.p.modules:
                return self.p.find_class(d + "." + f.attr)
        return None

    def ctor(self, n, cls):
        mod, name = cls
        init = self.p.method(mod, name, "__init__")
        pos, kw = self.args(n)
        q = f"{mod.short}.{name}"
        if self.is_exc(mod, name) and self.mod.short != "exceptions":
            keep = [k for k in kw if k.op == "kw" and k.a[0] == "error_code"]
            return mk("kcall", q, *keep)
        if init is None:
            return mk("kcall", q, *pos, *sorted(kw, key=lambda t: t.h))
        return mk("kcall", q, *self.bind(init, pos, kw, skip_self=True))

    def is_exc(self, mod, name, d=0):
        if d > 6:
            return False
        for b in mod.bases.get(name, []):
            if isinstance(b, ast.Name):
                if b.id.endswith(("Error", "Exception", "Warning")) and b.id not in mod.classes and b.id not in mod.imports:
                    return True
                r = self.p.resolve_class(mod, b)
                if r and self.is_exc(r[0], r[1], d + 1):
                    return True
        return name == "MarExError"

    def bind(self, fn, pos, kw, skip_self):
        ps = list(fn.params)
        if skip_self and ps and not fn.static:
            ps = ps[1:]
        out, used = [], set()
        i = 0
        rest = []
        for a in pos:
            if a.op == "star":
                rest.append(a)
                i = len(ps)
                continue
            if i < len(ps):
                out.append(mk("kw", ps[i], a, loc=a.loc))
                used.add(ps[i])
                i += 1
            else:
                rest.append(a)
        ds = False
        for k in kw:
            if k.op == "kw":
                out.append(k)
                used.add(k.a[0])
            else:
                rest.append(k)
                ds = ds or k.op == "dstar"
        if not any(r.op == "star" for r in rest) and not ds:
            for p in ps + fn.kwonly:
                if p not in used and p in fn.defaults:
                    out.append(mk("kw", p, self.default(fn, p)))
        return sorted(out, key=lambda t: t.a[0]) + rest

    def default(self, fn, p):
        e = Ev(self.p, fn.mod, None, None)
        e.st = St({}, ())
        return e.e(fn.defaults[p])

    MSG_FUNCS = {"create_data_validation_error", "create_coordinate_error", "create_processing_error"}

    # one-line questions: read through, so that asking them in other words is the same
    OPEN = {"_dependencies.DependencyTracker.has_dependency", "logging_config.is_verbose_mode", "logging_config.is_quiet_mode",
            "logging_config.get_verbosity_level"}

    def repo_call(self, n, fn, recv):
        if fn.qual in self.p.known and self.p.known[fn.qual] not in self.OPEN:
            q = self.p.known[fn.qual]
            pos, kw = self.args(n)
            if fn.name in self.MSG_FUNCS:
                return mk("kcall", q)
            isself = fn.cls is not None and not fn.static and recv is not None
            return mk("kcall", q, *self.bind(fn, pos, kw, skip_self=isself))
        return self.inline(n, fn.node, fn.mod, fn.cls, fn, {}, None, recv)

    def inline(self, n, node, mod, cls, fn, captured, own, recv=None):
        key = id(node)
        pos, kw = self.args(n)
        if key in self.stack or len(self.stack) > 12 or any(x.op == "star" for x in pos) or any(
                x.op == "dstar" for x in kw) and not node.args.kwarg:
            return mk("rcall", node.name, *pos, *sorted(kw, key=lambda t: t.h))
        e = Ev(self.p, mod, cls, fn, self.stack + (key,), self.depth, self.level,
               selfname=(own.selfname if own else None))
        a = node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        argn = {}
        names = list(ps)
        if fn is not None and cls and not fn.static:
            e.selfname = ps[0]
            env[ps[0]] = mk("param", "self")
            names = names[1:]
            if recv is not None:
                for k, v in list(self.st.env.items()):
                    if k.startswith("self."):
                        env[k] = v
                for k, v in self.captured.items():
                    if k.startswith("self.") and k not in env:
                        env[k] = v
        elif own is not None and own.selfname:
            for k, v in captured.items():
                if k.startswith("self."):
                    env[k] = v
        extra = []
        for i, v in enumerate(pos):
            if i < len(names):
                x = n.args[i] if i < len(n.args) else None
                c = self.lookup(x.id) if isinstance(x, ast.Name) else None
                env[names[i]] = c if c is not None and c.op == "closure" else v
                argn[names[i]] = n.args[i] if i < len(n.args) else None
            else:
                extra.append(v)
        kwn = {k.arg: k.value for k in n.keywords if k.arg}
        xkw = []
        allp = names + [x.arg for x in a.kwonlyargs]
        for k in kw:
            if k.op == "kw" and k.a[0] in allp:
                x = kwn.get(k.a[0])
                c = self.lookup(x.id) if isinstance(x, ast.Name) else None
                env[k.a[0]] = c if c is not None and c.op == "closure" else k.a[1]
                argn[k.a[0]] = x
            else:
                xkw.append(k)
        if a.vararg:
            env[a.vararg.arg] = mk("tuple", *extra)
        if a.kwarg:
            prs = []
            for k in xkw:
                if k.op == "kw":
                    prs.append(mk("pair", const(k.a[0]), k.a[1]))
                elif k.op == "dkw":
                    prs.append(mk("pair", k.a[0], k.a[1]))
                else:
                    prs.append(k)
            env[a.kwarg.arg] = self.mkdict(prs)
        dn = dict(zip([x.arg for x in (a.posonlyargs + a.args)][len(a.posonlyargs + a.args) - len(a.defaults):], a.defaults))
        dn.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for p in allp:
            if p not in env:
                if p in dn:
                    t = Ev(self.p, mod, None, None)
                    t.st = St(dict(captured), ())
                    env[p] = t.e(dn[p])
                else:
                    env[p] = UNDEF
        e.localparams = tuple(allp)
        passed_self = False
        if self.selfname and e.selfname is None:
            me = mk("param", "self")
            for p in allp:
                if env[p].h == me.h:
                    e.selfname, passed_self = p, True
                    if mod is self.mod and e.cls is None:
                        e.cls = self.cls
                    for k, v in self.captured.items():
                        if k.startswith("self."):
                            env[k] = v
                    for k, v in self.st.env.items():
                        if k.startswith("self."):
                            env[k] = v
                    break
        s = e.run(node, env, captured)
        for x in s.events:
            self.events.append(Event(x.kind, self.st.path + tuple(x.guard), x.term, x.loc, x.label))
        for k, v in s.outs.items():
            if argn.get(k) is not None:
                self.put(argn[k], v, self.st, s=n)
                self._wrote = True
        for k, v in s.envf.items():
            if k.startswith("self.") and (own is not None or recv is not None or passed_self):
                self.st.env[k] = v
        if mod is self.mod:
            for k, v in s.modmut.items():
                if k not in self.captured:
                    self.st.env[k] = v
        if not s.returns and s.ret.op == "bottom":
            self.st.term = "raise"
        self._mutated = n
        if any(isinstance(x, ast.Return) and isinstance(x.value, ast.Call) for x in ast.walk(node)):
            self._inlined = n
        return s.ret

    def ext_call(self, n, c, pos, kw):
        nm = c.a[0] if c.op == "global" else ""
        if nm == "math.ceil" and len(pos) == 1 and not kw:
            return mk("call", glob("builtins.int"), mk("call", glob("numpy.ceil"), pos[0]))
        if nm == "builtins.divmod" and len(pos) == 2 and not kw:
            return mk("tuple", binop("//", *pos), binop("%", *pos))
        if nm == "builtins.dict" and len(pos) == 1 and pos[0].op == "dict":
            return self.mkdict(list(pos[0].a) + [mk("pair", const(k.a[0]), k.a[1]) if k.op == "kw" else k for k in kw])
        if nm == "builtins.dict" and not pos:
            return self.mkdict([mk("pair", const(k.a[0]), k.a[1]) if k.op == "kw" else
                                (mk("pair", k.a[0], k.a[1]) if k.op == "dkw" else k) for k in kw])
        if nm == "builtins.list" and not pos and not kw:
            return mk("list")
        if nm in ("builtins.list", "builtins.tuple", "builtins.set") and len(pos) == 1 and pos[0].op == "comp" and pos[0].a[0] == "gen":
            return mk("comp", nm.split(".")[1], *pos[0].a[1:])
        if nm in ("builtins.any", "builtins.all", "builtins.sum", "builtins.max", "builtins.min", "builtins.sorted") and len(
                pos) == 1 and pos[0].op == "comp" and pos[0].a[0] == "list":
            pos = [mk("comp", "gen", *pos[0].a[1:])]
        if nm in ("builtins.any", "builtins.all", "builtins.sum", "builtins.len", "builtins.tuple", "builtins.list") and len(pos) == 1 \
                and not kw and pos[0].op in ("list", "tuple") and not any(x.op == "star" for x in pos[0].a):
            xs = pos[0].a
            if nm == "builtins.any":
                return lor([cond(x) for x in xs])
            if nm == "builtins.all":
                return land([cond(x) for x in xs])
            if nm == "builtins.len":
                return const(len(xs))
            if nm == "builtins.sum":
                if xs and len(xs) <= 8:
                    t = xs[0]
                    for x in xs[1:]:
                        t = binop("+", t, x)
                    return t
            else:
                return mk(nm.split(".")[1], *xs)
        if nm == "builtins.range":
            if len(pos) == 3 and is_const(pos[2], 1):
                pos = pos[:2]
            if len(pos) == 2 and is_const(pos[0], 0):
                pos = pos[1:]
        if nm in ("numpy.concatenate", "numpy.stack", "numpy.vstack", "numpy.hstack", "numpy.column_stack", "dask.array.concatenate", "numpy.array", "numpy.asarray") and pos:
            if pos[0].op == "tuple":
                pos = [mk("list", *pos[0].a)] + pos[1:]
            if nm in ("numpy.concatenate", "numpy.stack", "dask.array.concatenate"):
                kw = [k for k in kw if not (k.op == "kw" and k.a[0] == "axis" and is_const(k.a[1], 0))]
        if nm == "builtins.str" and len(pos) == 1 and is_const(pos[0]) and isinstance(pos[0].a[0], str):
            return pos[0]
        if nm in ("numpy.logical_and", "numpy.bitwise_and") and len(pos) == 2 and not kw:
            return binop("&", *pos)
        if nm in ("numpy.logical_or", "numpy.bitwise_or") and len(pos) == 2 and not kw:
            return binop("|", *pos)
        if nm in ("numpy.logical_not", "numpy.invert") and len(pos) == 1 and not kw:
            return inv(pos[0])
        if nm in ("numpy.greater_equal", "numpy.greater", "numpy.less", "numpy.less_equal", "numpy.equal") and len(pos) == 2 and not kw:
            return cmp({"greater_equal": ">=", "greater": ">", "less": "<", "less_equal": "<=", "equal": "=="}[nm[6:]], *pos)
        if nm in ("numpy.add", "numpy.subtract", "numpy.multiply", "numpy.divide", "numpy.power", "numpy.floor_divide", "numpy.mod") and len(pos) == 2 and not kw:
            return binop({"add": "+", "subtract": "-", "multiply": "*", "divide": "/", "power": "**", "floor_divide": "//", "mod": "%"}[nm[6:]], *pos)
        if nm == "numpy.flatnonzero" and len(pos) == 1 and not kw:
            return sub(mk("call", glob("numpy.where"), pos[0]), const(0))
        if nm == "numpy.pad" and len(pos) == 2 and len(kw) == 1 and kw[0].op == "kw" and kw[0].a[0] == "mode" and is_const(kw[0].a[1], "wrap") and pos[
                1].op == "tuple" and len(pos[1].a) == 2 and all(k.op == "tuple" and len(k.a) == 2 for k in pos[1].a) and all(is_const(k, 0) for k in pos[1].a[1].a):
            x, (p, q) = pos[0], pos[1].a[0].a
            n = mk("sub", mk("attr", x, "shape"), const(0))
            return mk("call", glob("numpy.concatenate"), mk("list", mk("sub", x, mk("slice", binop("-", n, p), NONE, NONE)), x,
                                                            mk("sub", x, mk("slice", NONE, q, NONE))))
        if nm == "numpy.square" and len(pos) == 1:
            return binop("**", pos[0], const(2))
        if nm in ("xarray.where", "numpy.where", "dask.array.where") and len(pos) == 3:
            return mk("where", *pos)
        if nm.startswith("numpy.") and nm[6:] in NP_METH and pos and pos[0].op not in ("tuple", "list", "star"):
            return self.mcall(n, pos[0], nm[6:], pos[1:], kw, src=n.args[0])
        if nm in ("dask.compute", "dask.persist", "dask.base.compute", "dask.base.persist"):
            if any(x.op in ("kcall", "fref") and x.a[0] in EFFECTFUL_TASKS for q in pos for x in walk(q)):
                self.ev("effect", mk("call", glob("dask.compute"), *pos), n)
            return mk("tuple", *pos)
        if nm in ("numpy.add.at", "numpy.maximum.at", "numpy.minimum.at", "numpy.copyto", "numpy.put", "numpy.random.shuffle"):
            nb = mk("mut", nm, *pos)
            if n.args:
                self.put(n.args[0], nb, self.st, s=n)
                self._mutated = n
            return nb
        if nm == "builtins.slice" and 1 <= len(pos) <= 3 and not kw and all(x.op != "star" for x in pos):
            pos = [NONE, pos[0], NONE] if len(pos) == 1 else pos + [NONE] * (3 - len(pos))
        if nm == "builtins.setattr" and len(pos) == 3 and is_const(pos[1]):
            self.put(n.args[0], setattr_(pos[0], pos[1].a[0], pos[2]), self.st, s=n)
            self._mutated = n
            return NONE
        if nm == "builtins.getattr" and len(pos) == 2 and is_const(pos[1]):
            return attr(pos[0], pos[1].a[0])
        if nm == "warnings.warn":
            pos, kw = [], []
        if nm in ("numpy.zeros", "numpy.ones", "numpy.empty") and len(pos) == 2 and not kw:
            pos, kw = pos[:1], [mk("kw", "dtype", self.dt(pos[1:])[0])]
        if nm in ("numpy.full", "numpy.full_like") and len(pos) == 3 and not kw:
            pos, kw = pos[:2], [mk("kw", "dtype", self.dt(pos[2:])[0])]
        if nm in ("numpy.full", "numpy.full_like") and len(pos) == 2 and pos[1].op == "const" and not isinstance(pos[1].a[0], str) and pos[1].a[0] in (0, 1) \
                and all(k.op == "kw" for k in kw) and not (nm == "numpy.full" and type(pos[1].a[0]) is int and not kw):
            v = pos[1].a[0]
            if nm == "numpy.full" and isinstance(v, bool) and not kw:
                kw = [mk("kw", "dtype", const("bool"))]
            nm = nm.replace("full", "ones" if v else "zeros")
            c, pos = glob(nm), pos[:1]
        if nm in ("numpy.zeros", "numpy.ones", "numpy.empty") and len(pos) == 1:
            kw = [k for k in kw if not (k.op == "kw" and k.a[0] == "dtype" and (is_const(k.a[1], "float64") or k.a[1].op == "global" and k.a[1].a[0] in ("numpy.float64", "builtins.float")))]
        return mk("call", c, *self.dt(pos), *sorted(self.dtk(kw), key=lambda t: t.h))

    def dt(self, pos):
        return [const("bool") if p.op == "global" and p.a[0] == "builtins.bool" else p for p in pos]

    def dtk(self, kw):
        return [mk("kw", k.a[0], const("bool"), loc=k.loc) if k.op == "kw" and k.a[1].op == "global" and k.a[1].a[0] == "builtins.bool" else k for k in kw]

    def mcall(self, n, b, name, pos, kw, src=None):
        f = n.func
        recv_expr = src if src is not None else (f.value if isinstance(f, ast.Attribute) else None)
        if name == "where":
            kw = [k for k in kw if not (k.op == "kw" and k.a[0] == "drop" and is_const(k.a[1], False))]
        if name == "where" and 1 <= len(pos) + len(kw) <= 2 and pos:
            other = pos[1] if len(pos) > 1 else next((k.a[1] for k in kw if k.op == "kw" and k.a[0] == "other"), None)
            if other is not None:
                return mk("where", pos[0], b, other)
            if not kw:
                return mk("where", pos[0], b, mk("global", "numpy.nan"))
        if name == "format" and is_const(b) and isinstance(b.a[0], str) and not kw and b.a[0].count("{}") == len(pos):
            parts = b.a[0].split("{}")
            ps = []
            for i, p in enumerate(parts):
                if p:
                    ps.append(const(p))
                if i < len(pos):
                    ps.append(pos[i])
            return self.mkfstr(ps)
        if name in TRANSPARENT_M and not pos and (not kw or name != "load"):
            return b
        if name == "get" and len(pos) == 1 and not kw:
            pos = [pos[0], NONE]
        if name == "get" and len(pos) == 2 and not kw and b.op == "dict" and not is_const(pos[0]) and pos[0].op != "star" and len(b.a) <= 8 and all(
                p.op == "pair" and is_const(p.a[0]) for p in b.a):
            t = pos[1]
            for p in sorted(b.a, key=lambda p: p.a[0].h, reverse=True):
                t = ite(cmp("==", pos[0], p.a[0]), p.a[1], t)
            return t
        if name == "get" and len(pos) == 2 and not kw and pos[0].op != "star":
            return ite(cmp("in", pos[0], b), sub(b, pos[0]), pos[1])
        if name in DICT_POS and len(pos) == 1 and pos[0].op == "dict":
            kw = kw + self.spread(pos[0])
            pos = []
        if name == "astype" and pos:
            pos = self.dt(pos)
        if name == "copy" and not pos and not kw and b.op in ("dict", "list"):
            return b
        if name == "reshape" and len(pos) == 1 and pos[0].op == "tuple":
            pos = list(pos[0].a)
        if name == "join" and len(pos) == 1 and pos[0].op == "comp" and pos[0].a[0] == "list":
            d0 = COMP_DEPTH.get(pos[0].h)
            pos = [mk("comp", "gen", *pos[0].a[1:])]
            if d0 is not None:
                COMP_DEPTH[pos[0].h] = d0
        if name == "copy" and not pos:
            kw = [k for k in kw if not (k.op == "kw" and k.a[0] == "deep" and is_const(k.a[1], True))]
        mut = name in MUTATORS and recv_expr is not None and b.op not in ("global",)
        if mut and name == "update" and b.op == "dict" or mut and name == "update" and self.is_attrs(recv_expr):
            t = b
            ok = True
            items = kw if not pos else (self.spread(pos[0]) + kw if len(pos) == 1 else None)
            if items is not None and all(k.op in ("kw", "dkw") for k in items):
                for k in items:
                    t = store(t, const(k.a[0]) if k.op == "kw" else k.a[0], k.a[1])
                self.put(recv_expr, t, self.st, s=n)
                self._mutated = n
                return NONE
            if len(pos) == 1 and not kw and b.op == "dict" and isinstance(recv_expr, ast.Name) and pos[0].op not in ("star", "comp", "call"):
                self.put(recv_expr, self.mkdict(list(b.a) + [mk("dstar", pos[0])]), self.st, s=n)
                self._mutated = n
                return NONE
        if mut and name in ("append", "extend") and len(pos) == 1 and not kw and isinstance(recv_expr, ast.Name) and literal_list(b) and (
                name == "append" or literal_list(pos[0]) or pos[0].op == "tuple"):
            self.put(recv_expr, append(b, pos[0]) if name == "append" else grow(b, lambda l: grow(
                pos[0], lambda m: mk("list", *l.a, *m.a))), self.st, s=n)
            self._mutated = n
            return NONE
        t = mk("mcall", name, b, *pos, *sorted(self.dtk(kw), key=lambda t: t.h))
        if mut and name in ("append", "extend") and len(pos) == 1 and not kw and self.lv_root(recv_expr) is not None:
            x = pos[0]
            if name == "extend" and x.op == "tuple":
                x = mk("list", *x.a)
            self.put(recv_expr, append(b, x) if name == "append" else extend(b, x), self.st, s=n)
            self._mutated = n
            return t
        if mut and (pos or kw or name in ("sort", "reverse", "clear", "pop", "popitem")) and not (
                name in ("add", "update", "fill", "clip") and self.arrayish(b)):
            base = self.lv_root(recv_expr)
            if base is not None:
                nb = mk("mut", name, b, *pos, *sorted(kw, key=lambda t: t.h))
                self.put(recv_expr, nb, self.st, s=n)
                self._mutated = n
        return t

    def is_attrs(self, e):
        return isinstance(e, ast.Attribute) and e.attr == "attrs"

    def arrayish(self, b):
        return False

    def lv_root(self, e):
        while isinstance(e, (ast.Attribute, ast.Subscript)):
            e = e.value
        return e if isinstance(e, ast.Name) else None


BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
          ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@"}
CMPOPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is",
          ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}


def plain_loops(fn):
    """while not done and c: ... done = True; continue ...   ==   while c: ... break ...   (when done is only tested there);
    while c: if x: break; rest   ==   while c and not x: rest"""
    loops = [n for n in ast.walk(fn) if isinstance(n, ast.While)]
    for w in loops:
        while w.body and isinstance(w.body[0], ast.If) and not w.body[0].orelse and not w.orelse and len(w.body) > 1 and len(w.body[0].body) == 1 and isinstance(
                w.body[0].body[0], ast.Break) and not any(isinstance(x, (ast.Call, ast.NamedExpr)) and not pure_call(x) for x in ast.walk(w.body[0].test)):
            t = ast.copy_location(ast.UnaryOp(ast.Not(), w.body[0].test), w.body[0])
            if isinstance(w.test, ast.Constant) and w.test.value in (True, 1):
                w.test = t
            else:
                w.test = ast.copy_location(ast.BoolOp(ast.And(), [w.test, t]), w.test)
            w.body = w.body[1:]
        tests = w.test.values if isinstance(w.test, ast.BoolOp) and isinstance(w.test.op, ast.And) else [w.test]
        flags = [t.operand.id for t in tests if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) and isinstance(t.operand, ast.Name)]
        for f in flags:
            uses = [n for n in ast.walk(fn) if isinstance(n, ast.Name) and n.id == f]
            if sum(isinstance(n.ctx, ast.Load) for n in uses) != 1 or w.orelse or any(
                    isinstance(n, (ast.Global, ast.Nonlocal)) and f in n.names for n in ast.walk(fn)):
                continue
            inside = {id(n) for b in w.body for n in ast.walk(b)}
            sets = [n for n in ast.walk(fn) if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id == f]
            if len(sets) != len(uses) - 1 or not all(isinstance(n.value, ast.Constant) and n.value.value is (id(n) in inside) for n in sets):
                continue
            done = []

            def sweep(body, tail):
                for i, x in enumerate(body):
                    last = i == len(body) - 1
                    if x in sets and id(x) in inside:
                        if not last and isinstance(body[i + 1], ast.Continue) and i + 2 == len(body) or last and tail:
                            done.append((body, i))
                    elif isinstance(x, ast.If):
                        sweep(x.body, tail and last)
                        sweep(x.orelse, tail and last)
            sweep(w.body, True)
            if len(done) != sum(id(n) in inside for n in sets) or not done:
                continue
            for body, i in done:
                b = ast.copy_location(ast.Break(), body[i])
                body[i:] = [b]
            keep = [t for t in tests if not (isinstance(t, ast.UnaryOp) and isinstance(t.operand, ast.Name) and t.operand.id == f)]
            tests = keep
            w.test = keep[0] if len(keep) == 1 else ast.copy_location(ast.BoolOp(ast.And(), keep), w.test) if keep else ast.copy_location(ast.Constant(True), w.test)


def pure_call(x):
    return isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("len", "any", "all", "min", "max", "sum", "bool", "int") or isinstance(
        x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("any", "all", "sum", "max", "min")


def assigned(body):
    """names (and self.x keys) that a block may rebind or mutate, syntactically"""
    out = []

    def root(t):
        path = []
        while isinstance(t, (ast.Subscript, ast.Attribute)):
            if isinstance(t, ast.Attribute):
                path.append(t.attr)
            else:
                path.append(None)
            t = t.value
        if isinstance(t, ast.Name):
            if t.id == "self" and path and path[-1]:
                return "self." + path[-1]
            return t.id
        return None

    def tgt(t):
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                tgt(x)
        elif isinstance(t, ast.Starred):
            tgt(t.value)
        else:
            r = root(t)
            if r:
                out.append(r)

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            pass

        visit_AsyncFunctionDef = visit_Lambda = visit_ClassDef = visit_FunctionDef

        def visit_ListComp(self, n):
            pass

        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_Assign(self, n):
            for t in n.targets:
                tgt(t)
            self.generic_visit(n)

        def visit_AugAssign(self, n):
            tgt(n.target)
            self.generic_visit(n)

        def visit_AnnAssign(self, n):
            if n.value is not None:
                tgt(n.target)
            self.generic_visit(n)

        def visit_For(self, n):
            tgt(n.target)
            self.generic_visit(n)

        def visit_With(self, n):
            for i in n.items:
                if i.optional_vars is not None:
                    tgt(i.optional_vars)
            self.generic_visit(n)

        def visit_NamedExpr(self, n):
            tgt(n.target)
            self.generic_visit(n)

        def visit_Call(self, n):
            if isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                r = root(n.func.value)
                if r:
                    out.append(r)
            self.generic_visit(n)

    v = V()
    for s in body:
        if isinstance(s, ast.Expr) and isinstance(s.value, (ast.Tuple, ast.List, ast.Name)) :
            tgt(s.value)
        else:
            v.visit(s)
    return out
