"""Hash-consed value-graph terms.

A term is (op, args); args are terms or plain Python scalars.  Equality is by a
structural digest, so terms of two different source trees can be compared.
`loc` (file, line) is carried for reports and is not part of the identity.
"""
import hashlib


class T:
    __slots__ = ("op", "a", "h", "loc", "size", "hint")

    def __init__(self, op, a, h, loc):
        self.op, self.a, self.h, self.loc = op, a, h, loc
        self.hint = None
        s = 1
        for x in a:
            if isinstance(x, T):
                s += x.size
        self.size = min(s, 10**9)

    def __repr__(self):
        return show(self)

    def __eq__(self, o):
        return isinstance(o, T) and o.h == self.h

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.h)

    @property
    def kids(self):
        return [x for x in self.a if isinstance(x, T)]


_TAB = {}
CUR_LOC = [None]


_COMM = ("+", "*", "&", "|", "^")


def _kwkey(t):
    return (0, "", b"") if t.op not in ("kw", "dkw", "dstar") else ((1, t.a[0], t.h) if t.op == "kw" else (2, "", t.h))


def _order(op, a):
    """canonical order of operands whose order does not matter"""
    if op in ("and", "or", "set"):
        return tuple(sorted(a, key=lambda t: t.h))
    if op == "bin" and a[0] in _COMM:
        return (a[0],) + tuple(sorted(a[1:], key=lambda t: t.h))
    if op == "cmp" and a[0] == "==" and a[2].h < a[1].h:
        return (a[0], a[2], a[1])
    if op == "dict" and all(p.op == "pair" for p in a):
        return tuple(sorted(a, key=lambda p: p.a[0].h))
    if op in ("call", "mcall", "kcall") and len(a) > 2:
        k = 1 if op != "mcall" else 2
        if op == "call" and a[0].op == "global" and a[0].a[0] in ("builtins.min", "builtins.max", "numpy.minimum", "numpy.maximum") and not any(
                x.op in ("kw", "dkw", "dstar", "star") for x in a[1:]):
            return a[:1] + tuple(sorted(a[1:], key=lambda t: t.h))
        return a[:k] + tuple(sorted(a[k:], key=_kwkey))
    if op == "mu" and len(a) > 2:
        return a[:2] + tuple(sorted(a[2:], key=lambda t: (t.op, t.h)))
    if op == "func" and len(a) > 2:
        return a[:2] + tuple(sorted(a[2:], key=lambda t: (t.op, t.h)))
    return a


def mk(op, *a, loc=None):
    a = _order(op, a)
    m = hashlib.blake2b(digest_size=12)
    m.update(op.encode())
    for x in a:
        if isinstance(x, T):
            m.update(b"T")
            m.update(x.h)
        else:
            if isinstance(x, bool):
                s = "b%r" % x
            elif isinstance(x, (int, float)) and not isinstance(x, bool):
                s = "n%r" % (float(x) if abs(x) < 2**53 else x,)
            else:
                s = type(x).__name__ + repr(x)
            m.update(b"S" + str(len(s)).encode() + b":" + s.encode())
    h = m.digest()
    loc = loc or CUR_LOC[0]
    # one object per (digest, location): locations differ between trees
    key = (h, loc) if op != "const" else (h, loc, type(a[0]))
    t = _TAB.get(key)
    if t is None:
        t = T(op, a, h, loc)
        _TAB[key] = t
    return t


def const(v):
    return mk("const", v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
UNDEF = mk("undef")


def is_const(t, *v):
    return isinstance(t, T) and t.op == "const" and (not v or t.a[0] in v)


def subst(t, mp, memo=None):
    """mp: digest -> replacement term.  Rebuilds via mk (no re-canonicalisation)."""
    if memo is None:
        memo = {}
    stack = [t]
    while stack:
        x = stack[-1]
        if (x.h, x.loc) in memo:
            stack.pop()
            continue
        r = mp.get(x.h)
        if r is not None:
            memo[(x.h, x.loc)] = r
            stack.pop()
            continue
        pend = [k for k in x.a if isinstance(k, T) and (k.h, k.loc) not in memo]
        if pend:
            stack.extend(pend)
            continue
        new = tuple(memo[(k.h, k.loc)] if isinstance(k, T) else k for k in x.a)
        if all(n is o for n, o in zip(new, x.a)):
            memo[(x.h, x.loc)] = x
        else:
            r = mk(x.op, *new, loc=x.loc)
            if x.hint is not None:
                r.hint = x.hint
            memo[(x.h, x.loc)] = r
        stack.pop()
    return memo[(t.h, t.loc)]


def walk(t, seen=None):
    """All distinct sub-terms (pre-order)."""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.h in seen:
            continue
        seen.add(x.h)
        yield x
        for k in reversed(x.a):
            if isinstance(k, T):
                stack.append(k)


def contains(t, h):
    return any(x.h == h for x in walk(t))


def show(t, depth=6):
    if not isinstance(t, T):
        return repr(t)
    if depth <= 0:
        return "…"
    o, a = t.op, t.a
    s = lambda x: show(x, depth - 1)
    if o == "const":
        return repr(a[0])
    if o in ("param", "global", "modvar", "fref", "bp"):
        return str(a[0]).split(".", 1)[-1] if o == "global" and str(a[0]).startswith("builtins.") else str(a[0])
    if o == "attr":
        return f"{s(a[0])}.{a[1]}"
    if o == "sub":
        return f"{s(a[0])}[{s(a[1])}]"
    if o == "cmp":
        return f"({s(a[1])} {a[0]} {s(a[2])})"
    if o == "bin":
        return "(" + f" {a[0]} ".join(s(x) for x in a[1:]) + ")"
    if o in ("and", "or"):
        return "(" + f" {o} ".join(s(x) for x in a) + ")"
    if o == "not":
        return f"not {s(a[0])}"
    if o == "inv":
        return f"~{s(a[0])}"
    if o == "neg":
        return f"-{s(a[0])}"
    if o == "if":
        return f"({s(a[1])} if {s(a[0])} else {s(a[2])})"
    if o == "call":
        return f"{s(a[0])}({', '.join(s(x) for x in a[1:])})"
    if o == "kcall":
        return f"{a[0]}({', '.join(s(x) for x in a[1:])})"
    if o == "mcall":
        return f"{s(a[1])}.{a[0]}({', '.join(s(x) for x in a[2:])})"
    if o == "kw":
        return f"{a[0]}={s(a[1])}"
    if o == "dkw":
        return f"**{{{s(a[0])}: {s(a[1])}}}"
    if o == "slice":
        return ":".join("" if is_const(x, None) else s(x) for x in a)
    if o in ("tuple", "list", "set"):
        b = {"tuple": "()", "list": "[]", "set": "{}"}[o]
        return b[0] + ", ".join(s(x) for x in a) + b[1]
    if o == "store":
        return f"{s(a[0])}{{[{s(a[1])}]:={s(a[2])}}}"
    if o == "elem":
        return f"each({s(a[0])})"
    if o == "carry":
        return f"prev#{str(a[0])[:4]}"
    return f"{o}({', '.join(s(x) for x in a)})"
