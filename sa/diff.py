"""Three-valued comparison of two value graphs.

compare(ref, cur) returns a list of Diff.  A Diff is
  hard  - a recognised change of meaning: an operator, constant, operand, argument, guard,
          wrapper or whole guarded effect differs while everything around it is the same value;
  soft  - the two graphs have different shapes here and the analysis cannot tell whether the
          values agree.
A function whose comparison contains a soft difference is UNKNOWN and never raises an alarm.
"""
import time
from . import fold
from .ir import Event, Summary, attr, binop, ite, land, lnot, lor, neg, sub, wrapped
from .term import T, const, contains, is_const, mk, show, subst, walk

COMM = {"+", "*", "&", "|", "^"}
BENIGN_CALL = {"numpy.asarray", "numpy.array", "builtins.list", "builtins.tuple", "builtins.float", "builtins.int",
               "builtins.bool", "builtins.str", "numpy.ascontiguousarray", "builtins.sorted", "builtins.iter",
               "dask.delayed", "dask.array.asarray", "xarray.DataArray", "builtins.set", "builtins.frozenset"}
BENIGN_METH = {"copy", "astype", "chunk", "unify_chunks", "tolist", "item", "rename", "squeeze", "transpose", "view", "ravel",
               "strip", "keys", "drop_vars", "reset_coords", "rechunk", "to_numpy"}
BENIGN_ATTR = {"values", "data", "T"}
LEAF = {"const", "param", "global", "modvar", "fref", "bp", "undef"}


class Diff:
    def __init__(self, hard, kind, old, new, where):
        self.hard, self.kind, self.old, self.new, self.where = hard, kind, old, new, where
        self.slots = ()

    @property
    def loc(self):
        for t in (self.new, self.old):
            if isinstance(t, T) and t.loc:
                return t.loc
        return getattr(self, "line", None)

    def key(self):
        h = lambda t: t.h.hex()[:8] if isinstance(t, T) else str(t)
        return (self.kind, h(self.old), h(self.new))

    def text(self):
        s = lambda t: "nothing" if t is None else (show(t, 4) if isinstance(t, T) else str(t))
        return f"[{self.kind}] in {self.where}: expected {s(self.old)[:300]}, found {s(self.new)[:300]}"

    def __repr__(self):
        return ("HARD " if self.hard else "soft ") + self.text()


def leaf(t):
    return t.op in LEAF or (t.op == "attr" and t.a[0].op in ("param", "modvar", "global")) or t.op in ("elem", "idx", "carry") or (
        t.op == "sub" and leaf(t.a[0]) and leaf(t.a[1]) and t.a[1].op == "const")


def within(small, big, depth):
    """small occurs in big at most `depth` levels down (proper)"""
    if depth == 0:
        return False
    for k in big.a:
        if isinstance(k, T):
            if k.h == small.h or within(small, k, depth - 1):
                return True
    return False


# settings and quantities that are fractional numbers (annotated float in the source)
FRACTIONAL = {"area_filter_quartile", "grid_resolution", "half_nx", "max_anomaly", "overlap_threshold", "precision", "q", "res",
              "threshold_percentile", "cell_area", "cell_areas"}
FLOATING = {"percentile", "quantile", "mean", "std", "median", "nanmean", "nanstd", "nanpercentile", "nanquantile", "var", "sqrt", "arctan2", "degrees", "radians"}
FLOAT_RESULT = {("track.tracker.filter_small_objects", 1)}


def fractional(t):
    """a number that need not be whole"""
    if t.op == "param":
        return t.a[0] in FRACTIONAL
    if t.op == "attr":
        return t.a[1] in FRACTIONAL
    if t.op == "sub" and t.a[0].op == "kcall" and t.a[1].op == "const":
        return (t.a[0].a[0], t.a[1].a[0]) in FLOAT_RESULT
    if t.op == "if":
        return fractional(t.a[1]) or fractional(t.a[2])
    s = step(t)
    return bool(s) and s[0] in FLOATING


def narrows(small, big):
    """big is small converted to a type that cannot hold every value"""
    if fractional(small) and any(
            x.op == "call" and x.a[0].op == "global" and x.a[0].a[0] == "builtins.int" and len(x.a) == 2 and x.a[1].h == small.h
            or x.op == "mcall" and x.a[0] == "astype" and len(x.a) > 2 and x.a[1].h == small.h and x.a[2].op == "const" and str(x.a[2].a[0]).split(".")[-1].startswith(("int", "uint", "bool"))
            for x in walk(big)):
        return True
    while big.h != small.h:
        if big.op == "mcall" and big.a[0] == "astype" and len(big.a) > 2:
            d = big.a[2]
            d = str(d.a[0]).split(".")[-1] if d.op in ("const", "global") else ""
            if d in ("float16", "float32", "int8", "int16", "uint8", "uint16", "single", "half") and deps(small) and not any(
                    x.op == "mcall" and x.a[0] == "astype" for x in walk(small)) and small.op not in ("cmp", "elem", "carry", "mu", "and", "or", "not", "inv") and "float32" not in show(small, 6):
                return True
        if not big.kids or big.op not in ("mcall", "attr", "call"):
            return False
        big = big.a[1] if big.op == "mcall" else big.a[0] if big.op == "attr" else (big.a[1] if len(big.a) > 1 else big.a[0])
        if not isinstance(big, T):
            return False
    return False


BUILDS = {"comp", "gen", "pair", "mu", "cv", "over", "each", "elem"}


def through_container(small, big, depth):
    """small is reached only by looking inside a collection that big builds element by element"""
    if depth == 0 or big.op in BUILDS:
        return True
    return not any(k.h == small.h or within(small, k, depth - 1) and not through_container(small, k, depth - 1) for k in big.a if isinstance(k, T))


def is_zero(t):
    return t.op == "const" and (t.a[0] is None or t.a[0] is False or t.a[0] == 0) or t.op == "global" and t.a[0] == "numpy.nan"


def wrapper_benign(small, big):
    """the nodes between big and small are value-preserving or unknown-effect conversions only"""
    t = big
    if t.op == "store" and small.op == "carry" and t.a[0].h == small.h and (is_zero(t.a[2]) or t.a[2].op == "if" and any(is_zero(x) for x in t.a[2].a[1:])):
        return True  # writes the value the array may have been created with
    for _ in range(4):
        if t.h == small.h:
            return True
        if t.op == "call" and t.a[0].op == "global" and t.a[0].a[0] in BENIGN_CALL and len(t.a) >= 2:
            t = t.a[1]
        elif t.op == "mcall" and t.a[0] in BENIGN_METH:
            t = t.a[1]
        elif t.op == "attr" and t.a[1] in BENIGN_ATTR:
            t = t.a[0]
        else:
            return False
    return t.h == small.h


def stores_zero(big, small):
    """the condition only keeps a zero from being stored (which may be there already)"""
    c = big.a[0]
    return small.op == "store" and c.op == "cmp" and c.a[0] in ("<", "==") and {c.a[1].h, c.a[2].h} == {small.a[2].h, const(0).h}


def atom(t):
    """(atom digest, polarity)"""
    if t.op == "not":
        h, p = atom(t.a[0])
        return h, not p
    if t.op == "cmp" and t.a[0] == "<=":
        return mk("cmp", "<", t.a[2], t.a[1]).h, False
    return t.h, True


def atoms(t, out):
    if t.op in ("and", "or"):
        for k in t.a:
            atoms(k, out)
    elif t.op == "not" and t.a[0].op in ("and", "or"):
        atoms(t.a[0], out)
    else:
        out.add(atom(t)[0])
    return out


def evalb(t, v):
    if t.op == "and":
        return all(evalb(k, v) for k in t.a)
    if t.op == "or":
        return any(evalb(k, v) for k in t.a)
    if t.op == "not" and t.a[0].op in ("and", "or"):
        return not evalb(t.a[0], v)
    h, p = atom(t)
    return v[h] == p


def bool_equiv(a, b, names, pre=()):
    names = sorted(names)
    if len(names) > 12:
        return None
    at = {}
    leaf_atoms(a, at)
    leaf_atoms(b, at)
    nums = numeric(at)
    for m in range(1 << len(names)):
        v = {n: bool(m >> i & 1) for i, n in enumerate(names)}
        if any(decide(p, v) for p in pre):
            continue
        if not possible(v, nums):
            continue
        if evalb(a, v) != evalb(b, v):
            return False
    return True


def leaf_atoms(t, out):
    if t.op in ("and", "or"):
        for k in t.a:
            leaf_atoms(k, out)
    elif t.op == "not":
        leaf_atoms(t.a[0], out)
    else:
        out[atom(t)[0]] = t


def quantity(t):
    """(what a test looks at, whether it is a length, test of a value) for tests of one number against a constant"""
    def key(x):
        if x.op == "call" and x.a[0].op == "global" and x.a[0].a[0] == "builtins.len" and len(x.a) == 2:
            y = x.a[1]
            if y.op == "comp" and y.a[0] == "list" and len(y.a) == 3 and len(y.a[2].a) == 2:
                return (y.a[2].a[0].h, y.a[2].a[1].h), True
            return x.h, True
        return x.h, x.op == "attr" and x.a[1] in ("size", "ndim")
    if t.op == "call" and t.a[0].op == "global" and t.a[0].a[0] == "builtins.any" and len(t.a) == 2:
        y = t.a[1]
        if y.op == "comp" and y.a[0] == "gen" and len(y.a) == 3 and len(y.a[2].a) == 1:
            return (y.a[2].a[0].h, y.a[1].h), True, (0,), lambda n: n > 0
    if t.op == "cmp" and t.a[0] in ("==", "<", "<="):
        o, x, y = t.a
        f = {"==": lambda l, r: l == r, "<": lambda l, r: l < r, "<=": lambda l, r: l <= r}[o]
        if number(y) and not number(x):
            k, n = key(x)
            return k, n, (y.a[0],), lambda v, c=y.a[0]: f(v, c)
        if number(x) and not number(y):
            k, n = key(y)
            return k, n, (x.a[0],), lambda v, c=x.a[0]: f(c, v)
    return None


def number(t):
    return t.op == "const" and isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool)


def numeric(at, plain=False):
    """the groups of tests that look at one number: [(candidate values, [(digest, polarity, test)])]"""
    g = {}
    for h, t in at.items():
        q = quantity(t)
        if q is None:
            continue
        k, n, cs, f = q
        e = g.setdefault(k, [False, set(), []])
        e[0] |= n
        e[1].update(cs)
        e[2].append((h, plain or atom(t)[1], f))
    out = []
    for n, cs, fs in g.values():
        if len(fs) < 2:
            continue
        vals = {c + d for c in cs for d in ((-1, 0, 1) if n else (-0.5, 0, 0.5))} | {min(cs) - 9, max(cs) + 9}
        # a value that compares false to everything (nan) is possible unless it is a length
        out.append(([v for v in vals if v >= 0] if n else sorted(vals) + [float("nan")], fs))
    return out


def possible(v, nums):
    return all(any(all((f(x) == p) == v[h] for h, p, f in fs if h in v) for x in vals) for vals, fs in nums)


def mask_atoms(t, out):
    """elementary masks of an elementwise condition"""
    if t.op == "bin" and t.a[0] in ("&", "|", "^"):
        for k in t.a[1:]:
            mask_atoms(k, out)
    elif t.op == "inv":
        mask_atoms(t.a[0], out)
    else:
        out[t.h] = t
    return out


def mask_value(t, v):
    if t.h in v:
        return v[t.h]
    if t.op == "inv":
        return not mask_value(t.a[0], v)
    r = [mask_value(k, v) for k in t.a[1:]]
    return all(r) if t.a[0] == "&" else (any(r) if t.a[0] == "|" else sum(r) % 2 == 1)


def is_mask(t):
    return t.op == "inv" or t.op == "bin" and t.a[0] in ("&", "|", "^")


def where_atoms(t, out):
    while t.op == "where":
        mask_atoms(t.a[0], out)
        where_atoms(t.a[1], out)
        t = t.a[2]
    return out


def where_leaf(t, v):
    while t.op == "where":
        t = t.a[1] if mask_value(t.a[0], v) else t.a[2]
    return t


def valuations(names):
    names = sorted(names)
    for m in range(1 << len(names)):
        yield {x: bool(m >> i & 1) for i, x in enumerate(names)}


def gate_atoms(t, out, limit=7):
    """atoms of the conditions that choose between the values t can take"""
    st = [t]
    while st:
        x = st.pop()
        if x.op == "if":
            for h, c in atom_terms(x.a[0], {}).items():
                out[h] = c
            if len(out) > limit:
                return None
            st += [x.a[1], x.a[2]]
    return out


def atom_terms(t, out):
    if t.op in ("and", "or"):
        for k in t.a:
            atom_terms(k, out)
    elif t.op == "not":
        atom_terms(t.a[0], out)
    else:
        out[atom(t)[0]] = t
    return out


def decide(t, v):
    """three-valued truth of t under the atom valuation v"""
    if t.op == "const":
        return bool(t.a[0])
    if t.op == "and":
        r = [decide(k, v) for k in t.a]
        return False if False in r else (None if None in r else True)
    if t.op == "or":
        r = [decide(k, v) for k in t.a]
        return True if True in r else (None if None in r else False)
    if t.op == "not":
        r = decide(t.a[0], v)
        return None if r is None else not r
    h, p = atom(t)
    if h in v:
        return v[h] == p
    return None


def specialise(t, v, memo):
    """t under the valuation, at every depth"""
    st = [t]
    while st:
        x = st[-1]
        if x.h in memo:
            st.pop()
            continue
        if x.op == "if":
            r = decide(x.a[0], v)
            if r is not None:
                y = x.a[1] if r else x.a[2]
                if y.h in memo:
                    memo[x.h] = memo[y.h]
                    st.pop()
                else:
                    st.append(y)
                continue
        elif x.op in ("and", "or", "not") or x.h in v:
            r = decide(x, v)
            if r is not None:
                memo[x.h] = const(r)
                st.pop()
                continue
        pend = [k for k in x.a if isinstance(k, T) and k.h not in memo]
        if pend:
            st.extend(pend)
            continue
        new = [memo[k.h] if isinstance(k, T) else k for k in x.a]
        if all(n is o or (isinstance(n, T) and n.h == o.h) for n, o in zip(new, x.a)):
            memo[x.h] = x
        elif x.op == "if":
            memo[x.h] = ite(*new)
        elif x.op == "and":
            memo[x.h] = land(new)
        elif x.op == "or":
            memo[x.h] = lor(new)
        elif x.op == "not":
            memo[x.h] = lnot(new[0])
        elif x.op == "sub":
            memo[x.h] = sub(*new)
        elif x.op == "attr":
            memo[x.h] = attr(*new)
        else:
            memo[x.h] = mk(x.op, *new, loc=x.loc)
        st.pop()
    return memo[t.h]


def facts(v, at):
    """values that are known because an equality test holds"""
    out = {}
    for h, b in v.items():
        t = at[h]
        if b and t.op == "cmp" and t.a[0] in ("==", "is"):
            for x, c in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if c.op == "const" and x.op in ("param", "attr") and (c.a[0] is None or isinstance(c.a[0], str)):
                    out[x.h] = c
    return out


_ce = {}


class Stop(Exception):
    """a difference was found"""


class Late(Exception):
    """the comparison takes too long"""


LIMIT = 120  # seconds per function


def case_equal(a, b, pre=()):
    k = (a.h, b.h, tuple(p.h for p in pre))
    r = _ce.get(k)
    if r is None:
        r = _ce[k] = case_equal_(a, b, pre)
    return r


def case_equal_(a, b, pre=()):
    """equal for every truth assignment of the conditions that gate either value"""
    n = gate_atoms(a, {})
    if n is None:
        return False
    n = gate_atoms(b, dict(n))
    if not n:
        return False
    if a.size > 200000 or b.size > 200000:
        ca = sum(1 for _ in walk(a))
        if ca > 4000:
            return False
    names = sorted(n)
    for m in range(1 << len(names)):
        v = {x: bool(m >> i & 1) for i, x in enumerate(names)}
        if exclusive(v, n) and not any(decide(p, v) for p in pre) and specialise(a, v, facts(v, n)).h != specialise(b, v, facts(v, n)).h:
            return False
    return True


_tok = {}


def tokens(t, n=120):
    """leaves near the top of a term, breadth first: what it is about, whatever happened deep inside"""
    r = _tok.get(t.h)
    if r is None:
        r, level, k = set(), [(t, 0)], 0
        while level and k < n:
            nxt = []
            for x, d in level:
                k += 1
                if x.op in ("const", "carry", "param", "global", "modvar"):
                    r.add((x.op, repr(x.a)))
                    continue
                if x.op in ("attr", "mcall", "kcall", "kw", "cv"):
                    r.add((x.op, next((y for y in x.a if isinstance(y, str)), "")))
                nxt += [(y, d + 1) for y in x.a if isinstance(y, T)]
            level = nxt
        r = _tok[t.h] = frozenset(r)
    return r


_skel = {}


def skel(t, d):
    k = (t.h, d)
    r = _skel.get(k)
    if r is None:
        if t.op == "carry":
            r = "carry"
        elif d == 0:
            r = t.op
        else:
            ks = [skel(x, d - 1) for x in t.a if isinstance(x, T)]
            if t.op in ("and", "or", "set", "dict", "mu") or (t.op == "bin" and t.a[0] in COMM):
                ks = sorted(ks, key=repr)
            nm = tuple(x for x in t.a if isinstance(x, str)) if t.op not in ("cv", "const", "carry") else ()
            r = hash((t.op, nm, tuple(ks)))
        _skel[k] = r
    return r


OUTSIDE = {"os.path.exists", "os.path.isfile", "os.path.isdir", "os.listdir", "os.getenv", "os.environ.get", "time.time", "datetime.datetime.now", "glob.glob"}


OWN = {"time", "lat", "lon", "dims", "coords", "data", "values", "shape", "size", "sizes", "name", "dt", "dtype", "ndim", "T", "chunks"}


def deps(t):
    """the inputs a value is computed from: parameters, attributes of self, module state, repo calls"""
    out = set()
    for x in walk(t):
        if x.op in ("param", "modvar", "fref", "bp"):
            out.add((x.op, x.a))
        elif x.op == "attr" and x.a[0].op == "param":
            if x.a[0].a[0] == "self" or x.a[1] not in OWN:
                out.add(("attr", x.a[0].a[0], x.a[1]))
        elif x.op == "kcall":
            out.add(("kcall", x.a[0]))
        elif x.op == "call" and x.a[0].op == "global" and x.a[0].a[0] in OUTSIDE or x.op == "mcall" and x.a[0] in ("exists", "is_dir", "is_file") and len(x.a) == 2:
            out.add(("outside", ""))
    if any(d[0] == "attr" and d[1] == "self" for d in out):
        out.discard(("param", ("self",)))
    return out


SIZES = {"shape", "sizes", "size", "ndim"}
CONTENT = {"ptp", "max", "min", "sum", "mean", "std", "nonzero", "unique", "median", "any", "all", "count", "argmax", "argmin"}


def only_sizes(t):
    """a number made from the extents of inputs, and nothing else of them"""
    if t.op == "const":
        return True
    if t.op == "attr":
        return t.a[1] in SIZES and t.a[0].op in ("param", "attr", "bp", "elem")
    if t.op == "sub":
        return t.a[0].op == "attr" and only_sizes(t.a[0])
    if t.op in ("bin", "neg"):
        return all(only_sizes(k) for k in t.a if isinstance(k, T))
    if t.op == "call" and t.a[0].op == "global" and t.a[0].a[0] == "builtins.len":
        return t.a[1].op in ("param", "attr", "bp", "elem")
    return False


def from_content(t):
    """a reduction of the values of an input"""
    if any(x.op == "attr" and x.a[1] in SIZES | {"coords", "dims", "dtype", "time", "lat", "lon"} for x in walk(t)):
        return False
    s = step(t)
    return bool(s) and s[0] in CONTENT and bool(deps(t)) and not any(x.op in BUILDS - {"elem", "pair"} for x in walk(t))


# steps that change values (used to call a dropped or inserted step of a chain a change of meaning)
STEP = {"pad", "rolling", "fillna", "clip", "abs", "sqrt", "round", "mean", "sum", "std", "var", "median", "max", "min", "cumsum", "cumprod",
        "diff", "shift", "roll", "interp", "ffill", "bfill", "rank", "floor", "ceil", "rint", "trunc", "log", "exp", "log10", "expm1", "log1p",
        "sin", "cos", "tan", "arcsin", "arccos", "arctan", "radians", "degrees", "nan_to_num", "argmax", "argmin", "argsort", "any", "all",
        "**", "neg", "inv", "where", "coarsen", "groupby", "quantile", "dropna", "isnull", "notnull", "isnan", "isfinite", "flip", "upper",
        "lower", "title", "prod", "count", "unique", "binary_closing", "binary_opening", "binary_dilation", "binary_erosion", "binary_fill_holes"}
# functions of one value that differ from each other on some input of the domain used here
REDUCE = {"mean", "sum", "std", "var", "median", "prod", "count", "any", "all", "argmax", "argmin", "cumsum", "diff", "nanmean", "nansum",
          "nanstd", "nanmedian", "floor", "ceil", "round", "rint", "sqrt", "exp", "log", "sin", "cos", "tan", "degrees", "radians", "sign",
          "isnan", "isfinite", "isinf", "shift", "roll", "ffill", "bfill", "size", "cumprod", "ptp", "max", "min", "nanmax", "nanmin", "quantile", "percentile"}
ALIKE = {frozenset(x) for x in (("any", "sum"), ("any", "max"), ("all", "min"), ("all", "prod"), ("round", "rint"), ("mean", "nanmean"),
                                ("sum", "nansum"), ("std", "nanstd"), ("median", "nanmedian"), ("max", "nanmax"), ("min", "nanmin"),
                                ("quantile", "percentile"), ("any", "count"), ("sum", "count"), ("size", "count"), ("quantile", "median"),
                                ("percentile", "median"), ("any", "argmax"), ("std", "var"))}
NULLITY = {("isnull", False): "null", ("isnan", False): "null", ("isna", False): "null", ("notnull", True): "null", ("notna", True): "null",
           ("isnull", True): "valid", ("isnan", True): "valid", ("isna", True): "valid", ("notnull", False): "valid", ("notna", False): "valid",
           ("isfinite", False): "finite", ("isfinite", True): "notfinite", ("isinf", False): "inf", ("isinf", True): "notinf"}


def step(t):
    """(name, digests of the other arguments, the value the step is applied to) or None"""
    if t.op == "mcall":
        return t.a[0], tuple(x.h for x in t.a[2:]), t.a[1]
    if t.op == "call" and t.a[0].op == "global" and t.a[0].a[0].split(".")[0] in ("numpy", "xarray", "dask", "dask_image", "skimage", "scipy", "math", "builtins") and len(t.a) > 1 \
            and t.a[1].op not in ("kw", "dkw", "dstar", "star"):
        return t.a[0].a[0].rsplit(".", 1)[1], tuple(x.h for x in t.a[2:]), t.a[1]
    if t.op in ("inv", "neg", "not"):
        return ("inv" if t.op == "not" else t.op), (), t.a[0]
    if t.op == "bin" and t.a[0] == "**" and is_const(t.a[2]):
        return "**", (t.a[2].h,), t.a[1]
    if t.op == "attr":
        return "." + t.a[1], (), t.a[0]
    if t.op == "sub":
        return "[]", (t.a[1].h,), t.a[0]
    if t.op == "where" and (leaf(t.a[2]) or t.a[2].op == "const"):
        return "where", (t.a[0].h, t.a[2].h), t.a[1]
    return None


UNIQUE = ("uuid.", "tempfile.mk", "tempfile.Temporary", "tempfile.NamedTemporary", "secrets.", "os.urandom", "time.time_ns", "numpy.random.default_rng")


def unique(t):
    """contains a name or number that no other call can get"""
    return t.size < 400 and any(x.op == "global" and str(x.a[0]).startswith(UNIQUE) for x in walk(t))


def unseeded(t):
    return t.size < 400 and any(x.op == "global" and str(x.a[0]).startswith(("numpy.random.", "random.")) and str(x.a[0]).split(".")[-1] not in (
        "RandomState", "default_rng", "Generator", "seed", "SeedSequence", "Random", "PCG64") for x in walk(t))


def path_of(t):
    """the value a path expression is made from"""
    for _ in range(5):
        s = step(t)
        if t.op == "call" and t.a[0].op == "global" and t.a[0].a[0] in ("pathlib.Path", "pathlib.PurePath", "builtins.str", "os.fspath") and len(t.a) == 2:
            t = t.a[1]
        elif t.op == "attr" and t.a[1] in ("name", "stem", "suffix", "parent"):
            t = t.a[0]
        elif t.op == "mcall" and t.a[0] in ("resolve", "absolute", "expanduser"):
            t = t.a[1]
        else:
            return t
    return t


SUMMARY = {"max", "min", "mean", "sum", "size", "argmax", "argmin", "median", "std", "prod"}


def summary_of(t):
    """(name, value) when t is one number that summarises a value, through conversions"""
    for _ in range(6):
        s = step(t)
        if s is None:
            return None
        n = s[0].lstrip(".")
        if n in SUMMARY and not s[1]:
            v = s[2]
            while step(v) and not step(v)[1] and step(v)[0].lstrip(".") in ("unique", "values", "data", "ravel", "flatten", "compute"):
                if step(v)[0] == "unique" and n not in ("size", "max", "min"):
                    break
                v = step(v)[2]
            return n, v
        if n in ("item", "compute", "values", "data", "int", "float", "persist", "load") and not s[1]:
            t = s[2]
        else:
            return None
    return None


def fresh(t):
    """the value every element of a newly created array has"""
    if t.op == "call" and t.a[0].op == "global":
        n = t.a[0].a[0]
        if n in ("numpy.zeros", "numpy.zeros_like"):
            return "0"
        if n in ("numpy.ones", "numpy.ones_like"):
            return "1"
        if n in ("numpy.full", "numpy.full_like") and len(t.a) > 2 and t.a[2].op in ("const", "global"):
            v = t.a[2].a[0]
            return str(int(v) if isinstance(v, bool) or isinstance(v, float) and v == v and abs(v) < 1e9 and v == int(v) else v)
    return None


def chain(t):
    out = []
    while True:
        s = step(t)
        if s is None or len(out) > 24:
            return out, t
        out.append((s[0], s[1], t))
        t = s[2]


def predicate(t):
    """(null class, value) of an elementwise missing-value test"""
    n = False
    while t.op in ("inv", "not"):
        n, t = not n, t.a[0]
    if t.op == "cmp" and t.a[0] == "==" and (is_const(t.a[1], 0) or is_const(t.a[2], 0)):
        return "nonzero" if n else "zero", t.a[2] if is_const(t.a[1], 0) else t.a[1]
    s = step(t)
    if s and (s[0], n) in NULLITY and not s[1]:
        return NULLITY[(s[0], n)], s[2]
    return None


def chain_diff(a, b):
    """the steps of a or b that are left when one chain over the same value is contained in the other"""
    ca, xa = chain(a)
    cb, xb = chain(b)
    if xa.h != xb.h:
        # a common prefix value may lie inside one of the chains
        ha = {t.h: i for i, (_, _, t) in enumerate(ca)}
        for j, (_, _, t) in enumerate(cb):
            if t.h in ha:
                ca, cb = ca[:ha[t.h]], cb[:j]
                break
        else:
            return None
    ka, kb = [x[:2] for x in ca], [x[:2] for x in cb]
    while ka and kb and ka[-1] == kb[-1]:
        ka.pop()
        kb.pop()
    small, big = (ka, kb) if len(ka) <= len(kb) else (kb, ka)
    left, i = [], 0
    for k in big:
        if i < len(small) and small[i] == k:
            i += 1
        else:
            left.append(k)
    if i < len(small) or not left:
        return None
    return left


def selected_or_reduced(a, b):
    """one value takes an element where the other summarises all of them, everything else being the same"""
    ca, xa = chain(a)
    cb, xb = chain(b)
    if xa.h != xb.h:
        return None
    ka, kb = ([k[:2] for k in c if k[0] in STEP or k[0] in REDUCE or k[0] in ("isel", "[]", "sel")] for c in (ca, cb))
    for k in list(ka):
        if k in kb:
            ka.remove(k)
            kb.remove(k)
    if len(ka) == len(kb) == 1:
        for x, y in ((ka[0][0], kb[0][0]), (kb[0][0], ka[0][0])):
            if x in ("isel", "[]", "sel") and (y in OVERALL or y in ("max", "min") and any(k[0] == "abs" for k in ca) and any(k[0] == "abs" for k in cb)):
                return "one element instead of all" if y == ka[0][0] else "all elements instead of one"
    return None


OVERALL = {"any", "all", "mean", "sum", "std", "var", "median", "nanmean", "nansum", "nanstd", "nanmedian", "count", "prod"}


def lin(t, sign, out):
    """t as a sum of signed terms"""
    if t.op == "bin" and t.a[0] == "+":
        for k in t.a[1:]:
            lin(k, sign, out)
    elif t.op == "bin" and t.a[0] == "-":
        lin(t.a[1], sign, out)
        lin(t.a[2], -sign, out)
    elif t.op == "neg":
        lin(t.a[0], -sign, out)
    elif is_const(t) and isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool):
        out.append((const(abs(t.a[0])), sign if t.a[0] >= 0 else -sign))
    else:
        out.append((t, sign))
    return out


def residual(a, b):
    """(a', b') with the common terms of two sums removed, or None"""
    la, lb = lin(a, 1, []), lin(b, 1, [])
    if len(la) < 2 and len(lb) < 2:
        return None
    n = len(la) + len(lb)
    for x in list(la):
        y = next((y for y in lb if y[0].h == x[0].h and y[1] == x[1]), None)
        if y:
            la.remove(x)
            lb.remove(y)
    if len(la) + len(lb) == n:
        return None

    def back(l):
        r = None
        for t, g in sorted(l, key=lambda x: -x[1]):
            r = (t if g > 0 else neg(t)) if r is None else binop("+" if g > 0 else "-", r, t)
        return r if r is not None else const(0)

    return back(la), back(lb)


def groups(at):
    """gate atoms grouped by the inputs they look at"""
    out = []
    for h, t in at.items():
        d = deps(t) or {("none", h)}
        hit = [g for g in out if g[0] & d]
        g = (set(d), [h])
        for x in hit:
            g[0].update(x[0])
            g[1].extend(x[1])
            out.remove(x)
        out.append(g)
    return [g[1] for g in out]


def plausible(v, gs):
    """a valuation that some run has for sure: tests of different inputs are independent, of tests of the same input at most one is true"""
    return all(sum(v[h] for h in g) <= 1 for g in gs)


def exclusive(v, at):
    """two different constants cannot both equal the same value"""
    eq = {}
    for h, b in v.items():
        t = at[h]
        if b and t.op == "cmp" and t.a[0] in ("==", "is"):
            for x, c in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if c.op == "const":
                    if eq.setdefault(x.h, c.h) != c.h:
                        return False
    return True


def constlike(t):
    return t.op == "const" or t.op == "global" and t.a[0].startswith("logging.") and t.a[0][8:].isupper() or t.op == "global" and t.a[0] in ("inf", "nan", "numpy.inf", "numpy.nan", "math.inf", "math.nan", "numpy.pi", "math.pi") or (t.op in ("tuple", "list", "set") and all(constlike(x) for x in t.a)) or \
        (t.op == "call" and t.a[0].op == "global" and t.a[0].a[0] in ("numpy.arange", "builtins.range", "numpy.linspace") and all(
            constlike(x) or x.op == "kw" for x in t.a[1:]))


def eta(t):
    """(x[0], x[1], ...) of one unpacked x is x"""
    if t.op in ("tuple", "list") and len(t.a) >= 2:
        x = t.a[0].a[0] if t.a[0].op == "sub" else None
        if x is not None and all(k.op == "sub" and k.a[0].h == x.h and is_const(k.a[1], i) for i, k in enumerate(t.a)):
            return x
    return t


def wide(t):
    """the value is held in a 64-bit type"""
    if t.op == "mcall" and t.a[0] == "astype" and len(t.a) > 2:
        return is_const(t.a[2], "int64", "uint64", "float64", "float", "int") or not t.a[2].op == "const"
    if t.op == "call" and t.a[0].op in ("global", "const"):
        return str(t.a[0].a[0]).rsplit(".", 1)[-1] in ("int64", "uint64", "float64", "float")
    if t.op == "bin":
        return any(wide(x) for x in t.a[1:])
    if t.op in ("sub", "neg"):
        return wide(t.a[0])
    return False


ORDERED = {"binary_closing", "binary_opening", "binary_dilation", "binary_erosion", "cumsum", "shift", "diff", "argsort", "fillna", "where",
           "rolling", "mean", "abs", "sqrt", "clip"}


def unwrap_set(t):
    if t.op == "call" and t.a[0].op == "global" and t.a[0].a[0] in ("builtins.set", "builtins.frozenset", "builtins.sorted", "builtins.len") and len(t.a) == 2:
        return t.a[1]
    return None


def is_copy(t):
    return t.op == "mcall" and t.a[0] == "copy" and len(t.a) == 2


class Cmp:
    def __init__(self, where, reft, curt):
        self.where = where
        self.diffs = {}
        self.seen = set()
        self.carry = {}
        self.depths = {}
        self.reft = reft  # digests of the reference function's graph
        self.curt = curt
        self.subs = {}
        self.top = None  # slot being compared
        self.trial = 0
        self.pre = ()  # conditions under which the function raises: what it returns then is moot
        self.first = False  # one difference is enough
        self.proved = {}
        self.until = None
        self.outside = True  # the reference itself looks at files, the clock or the environment

    def add(self, hard, kind, old, new):
        d = Diff(hard, kind, old, new, self.where)
        d.top = self.top
        self.diffs.setdefault(d.key(), d)
        if self.first and hard is not None:
            raise Stop

    def hs(self, t):
        s = self.subs.get(t.h)
        if s is None:
            s = set()
            for x in walk(t):
                s.add(x.h)
                if len(s) > 400:
                    break
            self.subs[t.h] = s
        return s

    def sim(self, a, b):
        if a.h == b.h:
            return 2.0
        x, y = self.hs(a), self.hs(b)
        base = len(x & y) / max(1, len(x | y))
        p, q = tokens(a), tokens(b)
        base += 0.5 * len(p & q) / max(1, len(p | q))
        if a.op == b.op:
            base += 0.3
            if a.a and b.a and not isinstance(a.a[0], T) and a.a[0] == b.a[0]:
                base += 0.3
            if a.a and b.a and isinstance(a.a[0], T) and isinstance(b.a[0], T) and a.a[0].h == b.a[0].h:
                base += 0.3
            for d, w in ((5, 1.0), (3, 0.7), (2, 0.5), (1, 0.3)):
                if skel(a, d) == skel(b, d):
                    base += w
                    break
        return base

    def proves(self, a, b):
        t = Cmp(self.where, self.reft, self.curt)
        t.subs, t.carry, t.trial, t.pre = self.subs, dict(self.carry), self.trial + 1, self.pre
        t.depths = {k: set(v) for k, v in self.depths.items()}
        t.first, t.proved, t.until = True, self.proved, self.until
        k = (a.h, b.h, tuple(sorted(self.carry.items())))
        r = self.proved.get(k)
        if r is None:
            try:
                t.go(a, b)
                r = not t.diffs
            except Stop:
                r = False
            self.proved[k] = r
        return r

    def sub_trial(self, a, b):
        t = Cmp(self.where, self.reft, self.curt)
        t.subs, t.carry, t.trial, t.pre = self.subs, dict(self.carry), self.trial + 1, self.pre
        t.depths = {k: set(v) for k, v in self.depths.items()}
        t.proved, t.until = self.proved, self.until
        t.go(a, b)
        return t.finish()

    def split(self, a, b):
        """compare case by case of the conditions that choose the value; a difference is reported when some case that
        certainly occurs differs in a recognised way and no case is undecided"""
        n = gate_atoms(a, {}, 6)
        n = gate_atoms(b, dict(n), 6) if n is not None else None
        if not n or self.trial >= 2 or a.size > 20000 or b.size > 20000:
            return False
        gs = groups(n)
        names = sorted(n)
        bad, some, same = [], False, False
        for m in range(1 << len(names)):
            v = {x: bool(m >> i & 1) for i, x in enumerate(names)}
            if not exclusive(v, n) or any(decide(p, v) for p in self.pre):
                continue
            x, y = specialise(a, v, facts(v, n)), specialise(b, v, facts(v, n))
            if x.h == y.h:
                same = True
                continue
            if x.op == "if" or y.op == "if":
                return False
            ds = self.sub_trial(x, y)
            if any(not d.hard for d in ds):
                return False
            if ds:
                some = True
            if ds and plausible(v, gs):
                bad.append(ds)
        if not some:
            return True
        if not bad or not same and not (a.op == b.op == "if"):
            return False
        for d in min(bad, key=len):
            self.add(True, d.kind, d.old, d.new)
        return True

    def multiset(self, xs, ys, what, node_old, node_new, need=0.25):
        ys = list(ys)
        left = []
        for x in xs:
            for i, y in enumerate(ys):
                if x.h == y.h:
                    ys.pop(i)
                    break
            else:
                left.append(x)
        pairs = []
        cand = sorted(((self.sim(x, y), i, j) for i, x in enumerate(left) for j, y in enumerate(ys)), key=lambda c: -c[0])
        ui, uj = set(), set()
        if len(left) > 1 and len(ys) > 1 and len(left) * len(ys) <= 36 and self.trial < 2:
            # operands that are proved equal belong together, whatever they look like
            for s, i, j in cand:
                if i not in ui and j not in uj and left[i].op == ys[j].op and self.proves(left[i], ys[j]):
                    ui.add(i)
                    uj.add(j)
                    pairs.append((left[i], ys[j]))
        for s, i, j in cand:
            if i in ui or j in uj:
                continue
            if s < need and not (len(left) == len(ys)):
                continue
            ui.add(i)
            uj.add(j)
            pairs.append((left[i], ys[j]))
        for x, y in pairs:
            self.go(x, y)
        for i, x in enumerate(left):
            if i not in ui:
                self.add(True, "missing " + what, x, None)
        for j, y in enumerate(ys):
            if j not in uj:
                self.add(True, "extra " + what, None, y)

    def go(self, a, b):
        if a.h == b.h:
            return
        a, b = eta(a), eta(b)
        if a.h == b.h:
            return
        if (a.h, b.h) in self.seen:
            return
        self.seen.add((a.h, b.h))
        if self.until is not None and time.monotonic() > self.until:
            raise Late(f"more than {LIMIT} s")
        if is_copy(a) != is_copy(b) and (a.a[1].h != b.h if is_copy(a) else b.a[1].h != a.h):
            return self.go(a.a[1] if is_copy(a) else a, b.a[1] if is_copy(b) else b)
        if a.op in ("and", "or", "not") or b.op in ("and", "or", "not"):
            A, B = atoms(a, set()), atoms(b, set())
            if A <= B or B <= A:
                eq = bool_equiv(a, b, A | B, self.pre)
                if eq:
                    return
                if eq is False:
                    return self.add(True, "condition" if A == B else ("condition added" if A < B else "condition dropped"), a, b)
        if is_mask(a) or is_mask(b):
            A, B = mask_atoms(a, {}), mask_atoms(b, {})
            if (A.keys() <= B.keys() or B.keys() <= A.keys()) and len(A | B) <= 10:
                nums = numeric(A | B, True)
                if all(mask_value(a, v) == mask_value(b, v) for v in valuations(A | B) if possible(v, nums)):
                    return
                if not (a.op == b.op == "inv"):
                    return self.add(True, "condition" if len(A) == len(B) else ("condition added" if len(A) < len(B) else "condition dropped"), a, b)
        if (a.op == "if" or b.op == "if") and case_equal(a, b, self.pre):
            return
        if a.op == "where" and b.op == "where" and (a.a[1].op == "where" or a.a[2].op == "where" or b.a[1].op == "where" or b.a[2].op == "where"):
            A, B = where_atoms(a, {}), where_atoms(b, {})
            if (A.keys() <= B.keys() or B.keys() <= A.keys()) and len(A | B) <= 8:
                pairs = {}
                nums = numeric(A | B, True)
                for v in valuations(A | B):
                    if not possible(v, nums):
                        continue
                    x, y = where_leaf(a, v), where_leaf(b, v)
                    pairs[x.h, y.h] = x, y
                for x, y in pairs.values():
                    self.go(x, y)
                return
        if a.op == "carry" and b.op == "carry":
            m = self.carry.get(a.a[0])
            if m is None:
                self.carry[a.a[0]] = b.a[0]
            elif m != b.a[0]:
                self.add(True, "other loop variable", a, b)
            return
        if a.op == b.op == "sub" and (a.a[0].h == b.h or b.a[0].h == a.h) and not (b.a[1] if b.a[0].h == a.h else a.a[1]).op in ("param", "carry"):
            return self.add(True, "value wrapped" if b.a[0].h == a.h else "wrapper dropped", a, b)
        if a.op == b.op:
            m = getattr(self, "n_" + a.op, None)
            if m:
                return m(a, b)
            if len(a.a) == len(b.a):
                sc = [(x, y) for x, y in zip(a.a, b.a) if not isinstance(x, T) or not isinstance(y, T)]
                if all(type(x) is type(y) and x == y for x, y in sc):
                    for x, y in zip(a.a, b.a):
                        if isinstance(x, T):
                            self.go(x, y)
                    return
        self.mismatch(a, b)

    # ---- node kinds with structure
    def n_elem(self, a, b):
        if a.a[1] != b.a[1]:
            self.depths.setdefault(a.a[1], set()).add(b.a[1])
            if a.a[0].h == b.a[0].h:
                self.add(None, "other loop index", a, b)
        else:
            self.depths.setdefault(a.a[1], set()).add(b.a[1])
        self.go(a.a[0], b.a[0])

    n_idx = n_elem

    def n_bin(self, a, b):
        if a.a[0] != b.a[0]:
            return self.mismatch(a, b)
        if a.a[0] == "*" and any(wide(x) for x in a.a[1:]) and not any(wide(y) for y in b.a[1:]) and deps(a) == deps(b) and all(
                y.op not in ("const", "kcall", "mu", "carry", "elem", "if") for y in b.a[1:]):
            return self.add(True, "product in a narrower integer type", a, b)
        if a.a[0] in COMM:
            xs, ys = list(a.a[1:]), list(b.a[1:])
            if len(xs) == len(ys):
                return self.multiset(xs, ys, "operand", a, b)
            return self.mismatch(a, b)
        self.go(a.a[1], b.a[1])
        self.go(a.a[2], b.a[2])

    def n_cmp(self, a, b):
        o1, x1, y1 = a.a
        o2, x2, y2 = b.a
        if o1 == o2:
            if self.special(a, b):
                return
            if o1 == "==":
                return self.multiset([x1, y1], [x2, y2], "operand", a, b)
            if x1.h == y2.h and y1.h == x2.h:
                return self.add(True, "comparison reversed", a, b)
            if x1.op == "const" != x2.op and y2.op == "const" != y1.op or x2.op == "const" != x1.op and y1.op == "const" != y2.op:
                return self.add(False, "shape", a, b)
            self.go(x1, x2)
            self.go(y1, y2)
            return
        if {x1.h, y1.h} == {x2.h, y2.h}:
            return self.add(True, "comparison operator", a, b)
        self.mismatch(a, b)

    def n_and(self, a, b):
        self.multiset(list(a.a), list(b.a), "condition", a, b, need=0.5)

    n_or = n_and
    n_set = n_and

    def n_dict(self, a, b):
        if any(p.op == "dstar" for p in a.a) and len(a.a) == len(b.a) and [p.h for p in a.a] != [p.h for p in b.a] and sorted(p.h for p in a.a) == sorted(p.h for p in b.a):
            return self.add(True, "later entries win over other ones", a, b)
        ka = {p.a[0].h: p for p in a.a if p.op == "pair"}
        kb = {p.a[0].h: p for p in b.a if p.op == "pair"}
        for k in ka:
            if k in kb:
                self.go(ka[k].a[1], kb[k].a[1])
        xs = [p for h, p in ka.items() if h not in kb] + [p for p in a.a if p.op != "pair"]
        ys = [p for h, p in kb.items() if h not in ka] + [p for p in b.a if p.op != "pair"]
        if xs or ys:
            self.multiset(xs, ys, "entry", a, b, need=0.5)

    def _args(self, xs, ys, a, b):
        px, py = [x for x in xs if x.op not in ("kw", "dkw", "dstar")], [y for y in ys if y.op not in ("kw", "dkw", "dstar")]
        kx = {x.a[0]: x for x in xs if x.op == "kw"}
        ky = {y.a[0]: y for y in ys if y.op == "kw"}
        if len(px) == len(py):
            if len(px) > 1 and px != py and sorted(p.h for p in px) == sorted(p.h for p in py):
                self.add(True, "arguments permuted", a, b)
            else:
                for x, y in zip(px, py):
                    self.go(x, y)
        elif a.op == "kcall":
            self.mismatch(a, b, args=True)
            return
        else:
            # positional/keyword spelling of an external call: cannot align
            f = a.a[0] if a.op == "call" else None
            if isinstance(f, T) and f.op == "global" and f.a[0].startswith("numpy.random.") and px and not ys:
                self.add(True, "seed dropped", a, b)
                return
            if a.op == b.op == "mcall" and a.a[0] == b.a[0] == "scale" and set(ky) - set(kx) == {"jobs"}:
                self.add(True, "whole jobs counted instead of workers", a, b)
                return
            self.add(None if set(kx) == set(ky) else False, "argument count", a, b)
            return
        for k in kx:
            if k in ky:
                self.go(kx[k].a[1], ky[k].a[1])
        mx, my = [k for k in kx if k not in ky], [k for k in ky if k not in kx]
        gone = [x for x in xs if x.op == "dstar"]
        if gone and my and not mx and not any(y.op == "dstar" for y in ys) and all(
                constlike(ky[k].a[1]) or any(contains(g, ky[k].a[1].h) for g in gone) for k in my) and any(constlike(ky[k].a[1]) for k in my):
            for x in gone:
                self.add(True, "arguments no longer passed on", x, None)
            return
        if mx or my:
            if a.op == "kcall" and mx and my:
                self.add(False, "parameters renamed", a, b)
            elif mx and not my:
                for k in mx:
                    self.add(True, "argument dropped", kx[k], None)
            elif my and not mx:
                for k in my:
                    self.add(a.op != "kcall", "argument added", None, ky[k])
            else:
                self.add(False, "keywords", a, b)
        dx, dy = [x for x in xs if x.op in ("dkw", "dstar")], [y for y in ys if y.op in ("dkw", "dstar")]
        if dx or dy:
            self.multiset(dx, dy, "argument", a, b)

    def n_call(self, a, b):
        if a.a[0].h != b.a[0].h:
            if leaf(a.a[0]) and leaf(b.a[0]) and [x.h for x in a.a[1:]] == [x.h for x in b.a[1:]]:
                return self.add(True, "other function called", a, b)
            if a.a[0].op == b.a[0].op == "if" and [x.h for x in a.a[1:]] == [x.h for x in b.a[1:]]:
                return self.go(a.a[0], b.a[0])
            return self.mismatch(a, b)
        if a.a[0].op == "global" and a.a[0].a[0] in ("builtins.min", "builtins.max", "numpy.minimum", "numpy.maximum") and len(a.a) == len(b.a) and len(a.a) > 2:
            return self.multiset(list(a.a[1:]), list(b.a[1:]), "operand", a, b)
        self._args(a.a[1:], b.a[1:], a, b)

    def n_kcall(self, a, b):
        if a.a[0] != b.a[0]:
            return self.mismatch(a, b)
        self._args(a.a[1:], b.a[1:], a, b)

    def n_mcall(self, a, b):
        if a.a[0] != b.a[0]:
            if a.a[1].h == b.a[1].h and [x.h for x in a.a[2:]] == [x.h for x in b.a[2:]]:
                return self.add(True, "other method called", a, b)
            return self.mismatch(a, b)
        # wrapper at the receiver: x.f().g() vs x.g()
        self.go(a.a[1], b.a[1])
        self._args(a.a[2:], b.a[2:], a, b)

    def n_setattr(self, a, b):
        if a.a[1] != b.a[1] and a.a[0].h == b.a[0].h and len(a.a) == len(b.a) == 3 and a.a[2].h == b.a[2].h:
            return self.add(True, "other attribute set", a, b)
        if len(a.a) == len(b.a) and all(isinstance(x, T) or x == y for x, y in zip(a.a, b.a)):
            for x, y in zip(a.a, b.a):
                if isinstance(x, T):
                    self.go(x, y)
            return
        self.mismatch(a, b)

    def n_attr(self, a, b):
        if a.a[1] != b.a[1]:
            if a.a[0].h == b.a[0].h:
                return self.add(True, "other attribute", a, b)
            return self.mismatch(a, b)
        self.go(a.a[0], b.a[0])

    def n_kw(self, a, b):
        if a.a[0] != b.a[0]:
            return self.mismatch(a, b)
        self.go(a.a[1], b.a[1])

    def n_tuple(self, a, b):
        if len(a.a) != len(b.a):
            return self.mismatch(a, b)
        if len(a.a) > 1 and sorted(x.h for x in a.a) == sorted(x.h for x in b.a):
            return self.add(True, "elements permuted", a, b)
        for x, y in zip(a.a, b.a):
            self.go(x, y)

    n_list = n_tuple

    def n_if(self, a, b):
        c1, x1, y1 = a.a
        c2, x2, y2 = b.a
        if c1.h == c2.h:
            self.go(x1, x2)
            self.go(y1, y2)
            return
        same = (x1.h == x2.h) + (y1.h == y2.h)
        if same < 2 and not (x1.h == y2.h and y1.h == x2.h) and self.split(a, b):
            return
        if same >= 1:
            self.go(c1, c2)
            self.go(x1, x2)
            self.go(y1, y2)
            return
        if x1.h == y2.h and y1.h == x2.h:
            return self.cond_pair(lnot(c1), c2, a, b)
        # one side has an extra gate
        if within(a, b, 3) or within(b, a, 3):
            return self.mismatch(a, b)
        if self.sim(c1, c2) >= 0.3:
            self.go(c1, c2)
            self.go(x1, x2)
            self.go(y1, y2)
            return
        self.mismatch(a, b)

    def cond_pair(self, c1, c2, a, b):
        self.go(c1, c2)

    def n_mu(self, a, b):
        self.go(a.a[0], b.a[0])
        ca, cb = a.a[1], b.a[1]
        oa = [x for x in a.a[2:] if x.op == "cv"]
        ob = [x for x in b.a[2:] if x.op == "cv"]
        ba = [x for x in a.a[2:] if x.op == "brk"]
        bb = [x for x in b.a[2:] if x.op == "brk"]
        pairs = [(ca, cb)]
        rest = list(ob)
        miss = []
        for x in oa:
            j = next((i for i, y in enumerate(rest) if y.a[0] == x.a[0]), None)
            if j is None:
                miss.append(x)
            else:
                pairs.append((x, rest.pop(j)))
        def called(x):
            return getattr(x, "hint", ("",))[0]

        cand = sorted(((self.sim(x.a[2], y.a[2]) + (1 if x.a[1].h == y.a[1].h else 0) + (2 if called(x) == called(y) != "" else 0), i, j)
                       for i, x in enumerate(miss) for j, y in enumerate(rest)), key=lambda c: -c[0])
        ui, uj = set(), set()
        for s, i, j in cand:
            if i not in ui and j not in uj:
                ui.add(i)
                uj.add(j)
                pairs.append((miss[i], rest[j]))
        for x, y in pairs:
            self.carry.setdefault(x.a[0], y.a[0])
        for x, y in pairs:
            self.go(x.a[1], y.a[1])
            self.go(x.a[2], y.a[2])
        # a carried value that is no longer (or newly) involved shows up where it is used
        if not self.diffs and (len(ui) < len(miss) or len(uj) < len(rest)):
            self.add(False, "loop state", a, b)
        if ba or bb:
            if len(ba) == len(bb):
                self.multiset(ba, bb, "loop exit", a, b)
            elif len(ba) > len(bb):
                self.multiset(ba, bb, "loop exit", a, b)
            else:
                self.multiset(ba, bb, "loop exit", a, b)

    def n_func(self, a, b):
        if a.a[0] != b.a[0]:
            self.add(False, "function arity", a, b)
            return
        self.go(a.a[1], b.a[1])
        oa = {x.a[0]: x for x in a.a[2:] if x.op == "out"}
        ob = {x.a[0]: x for x in b.a[2:] if x.op == "out"}
        for k in oa:
            if k in ob:
                self.go(oa[k].a[1], ob[k].a[1])
            else:
                self.add(True, "argument no longer updated", oa[k], None)
        for k in ob:
            if k not in oa:
                self.add(True, "argument newly mutated", None, ob[k])
        ra, rb = [x for x in a.a[2:] if x.op == "raise"], [x for x in b.a[2:] if x.op == "raise"]
        self.multiset(ra, rb, "raise", a, b)
        ea, eb = [x for x in a.a[2:] if x.op == "effect"], [x for x in b.a[2:] if x.op == "effect"]
        self.multiset(ea, eb, "effect", a, b)

    def n_comp(self, a, b):
        if a.a[0] != b.a[0] or len(a.a) != len(b.a):
            return self.mismatch(a, b)
        for x, y in zip(a.a[1:], b.a[1:]):
            self.go(x, y)

    def iterable(self, a, b):
        """counting positions and visiting elements are two ways to write one loop"""
        r = [x.op == "call" and x.a[0].op == "global" and x.a[0].a[0] == "builtins.range" for x in (a, b)]
        if r[1] and not r[0] and len(b.a) == 2 and b.a[1].op == "bin" and len(b.a[1].a) == 3 and b.a[1].a[0] == "-" and b.a[1].a[2].op == "const" \
                and b.a[1].a[1].op == "call" and b.a[1].a[1].a[0].op == "global" and b.a[1].a[1].a[0].a[0] == "builtins.len" and b.a[1].a[1].a[1].h == a.h:
            return self.add(True, "last elements left out", a, b)
        if r[0] != r[1] and not (a if r[1] else b).op == "const":
            return self.add(False, "other way to iterate", a, b)
        self.go(a, b)

    def n_over(self, a, b):
        if len(a.a) == len(b.a) == 1:
            return self.iterable(a.a[0], b.a[0])
        if len(a.a) == len(b.a):
            for x, y in zip(a.a, b.a):
                self.go(x, y)
            return
        self.mismatch(a, b)

    def n_gen(self, a, b):
        self.iterable(a.a[0], b.a[0])
        x = a.a[1] if len(a.a) > 1 else None
        y = b.a[1] if len(b.a) > 1 else None
        if x is not None and y is not None:
            self.go(x, y)
        elif x is not None:
            self.add(True, "filter dropped", x, None)
        elif y is not None:
            self.add(True, "filter added", None, y)

    def n_where(self, a, b):
        if not any(x.h == y.h for x, y in zip(a.a, b.a)) and self.sim(a.a[0], b.a[0]) < 1.0 and self.sim(a.a[1], b.a[1]) < 1.0:
            return self.mismatch(a, b)
        for x, y in zip(a.a, b.a):
            self.go(x, y)

    def n_raise(self, a, b):
        if a.a[0] != b.a[0]:
            return self.add("reraise" in (a.a[0], b.a[0]), "exception type", a, b)
        self.go(a.a[1], b.a[1])

    # ---- minimal mismatches
    def mismatch(self, a, b, args=False):
        if args:
            return self.add(False, "arguments", a, b)
        if leaf(a) and leaf(b):
            return self.add(True, "value", a, b)
        if lnot(a).h == b.h:
            return self.add(True, "condition negated", a, b)
        if a.op == "if" and b.h in (a.a[1].h, a.a[2].h):
            return self.add(not stores_zero(a, b), "branch dropped", a, b)
        if b.op == "if" and a.h in (b.a[1].h, b.a[2].h):
            return self.add(not stores_zero(b, a), "branch added", a, b)
        if a.op == "cmp" and b.op == "cmp" and {a.a[1].h, a.a[2].h} == {b.a[1].h, b.a[2].h}:
            return self.add(True, "comparison operator", a, b)
        if {a.op, b.op} == {"and", "or"} and {x.h for x in a.a} == {x.h for x in b.a}:
            return self.add(True, "and/or", a, b)
        if a.op == b.op == "bin" and [x.h for x in a.kids] == [x.h for x in b.kids]:
            return self.add(True, "operator", a, b)
        if a.op == b.op == "bin" and sorted(x.h for x in a.kids) == sorted(x.h for x in b.kids):
            return self.add(True, "operator", a, b)
        for small, big, k in ((a, b, "value wrapped"), (b, a, "wrapper dropped")):
            if small.op in ("const", "undef"):
                continue
            if small.op == "carry":
                # the loop variable's own previous value under a renamed colour
                m = self.carry.get(small.a[0]) if small is a else next((x for x, y in self.carry.items() if y == small.a[0]), None)
                if m is not None:
                    small = mk("carry", m)
            if within(small, big, 3):
                if through_container(small, big, 3):
                    continue
                if big is b and narrows(small, big):
                    return self.add(True, "value converted to a narrower type", a, b)
                if not wrapper_benign(small, big):
                    return self.add(True, k, a, b)
                w = fold.differ(a, b)
                return self.add(bool(w), "other value for some inputs" if w else k, a, b)
        # another value that the function already computes is used instead
        if b.size >= 2 and b.h in self.reft and a.h in self.curt and not leaf(a) and a.op not in ("const",) and b.op not in ("const",):
            return self.add(True, "other value used", a, b)
        if leaf(a) and not leaf(b) and a.op != "const" and b.h in self.reft and b.size >= 2:
            return self.add(True, "other value used", a, b)
        if leaf(b) and b.op != "const" and b.h in self.reft and a.h in self.curt:
            return self.add(True, "other value used", a, b)
        # conditions: one conjunct list against a single condition
        if "and" in (a.op, b.op) or "or" in (a.op, b.op):
            op = a.op if a.op in ("and", "or") else b.op
            xs = list(a.a) if a.op == op else [a]
            ys = list(b.a) if b.op == op else [b]
            if {x.h for x in xs} & {y.h for y in ys}:
                return self.multiset(xs, ys, "condition", a, b, need=0.5)
        if a.op == b.op == "bin" and a.a[0] == b.a[0] and a.a[0] in COMM and len(a.a) != len(b.a):
            xs, ys = [x.h for x in a.a[1:]], [y.h for y in b.a[1:]]
            if set(xs) < set(ys) or set(ys) < set(xs):
                return self.add(True, "operand added or dropped", a, b)
        da, db = deps(a), deps(b)
        if da and db and (da < db or db < da or ("outside", "") in db and not self.outside):
            return self.add(True, "depends on other inputs", a, b)
        if bool(da) != bool(db) and constlike(a if not da else b):
            return self.add(True, "fixed value instead of an input" if da else "input instead of a fixed value", a, b)
        if da and db and a.op != "const" and b.op != "const" and (only_sizes(a) and from_content(b) or only_sizes(b) and from_content(a)):
            return self.add(True, "the extent of an array instead of its contents" if only_sizes(b) else "the contents of an array instead of its extent", a, b)
        pa, pb = predicate(a), predicate(b)
        if pa and pb and pa[0] != pb[0] and pa[1].h == pb[1].h and not {pa[0], pb[0]} <= {"zero", "nonzero"}:
            return self.add(True, "other test for missing values", a, b)
        sa, sb = step(a), step(b)
        if sa and sb and sa[2].h == sb[2].h and sa[0] != sb[0] and {sa[0], sb[0]} <= REDUCE | {"[]"}:
            if frozenset((sa[0], sb[0])) not in ALIKE and not ("[]" in (sa[0], sb[0]) and {sa[0], sb[0]} & {"max", "min", "nanmax", "nanmin", "size"}):
                return self.add(True, "other function of the same value", a, b)
        k = selected_or_reduced(a, b)
        if k:
            return self.add(True, k, a, b)
        ra, rb = summary_of(a), summary_of(b)
        if ra and rb and ra[1].h == rb[1].h and ra[0] != rb[0] and frozenset((ra[0], rb[0])) not in ALIKE:
            return self.add(True, "other function of the same value", a, b)
        fa, fb = fresh(a), fresh(b)
        if fa and fb and fa != fb:
            return self.add(True, "starts from another value", a, b)
        if fa and b.op in ("carry", "param") or fb and a.op in ("carry", "param"):
            return self.add(True, "shares an array instead of starting from a new one" if fa else "starts from a new array", a, b)
        for x, y in ((a, b), (b, a)):
            if x.op == "where" and x.a[2].op == "global" and x.a[2].a[0] == "numpy.nan" and y.op == "mcall" and y.a[0] == "fillna" and y.a[1].h == x.a[1].h:
                return self.add(True, "missing values filled instead of kept", a, b)
        r = residual(a, b)
        if r and self.trial < 3:
            t = self.sub_trial(*r)
            if t and all(d.hard for d in t):
                return self.add(True, "term of a sum", a, b)
        if a.op == "if" or b.op == "if":
            if self.split(a, b):
                return
        if self.special(a, b):
            return
        w = fold.differ(a, b)
        if w:
            self.wit = w
            return self.add(True, "other value for some inputs", a, b)
        left = chain_diff(a, b)
        if left and any(k[0] in STEP for k in left):
            return self.add(True, "step dropped or inserted", a, b)
        self.add(False, "shape", a, b)

    def special(self, a, b):
        for x, y in ((a, b), (b, a)):
            if all(k.op == "call" and k.a[0].op == "global" for k in (x, y)) and x.a[0].a[0] == "numpy.concatenate" and y.a[0].a[0] == "numpy.pad" and wrapped(
                    x.a[1]) and wrapped(x.a[1])[0].h == y.a[1].h and any(k.op == "kw" and k.a[0] == "mode" and k.a[1].op == "const" and k.a[1].a[0] != "wrap" for k in y.a[2:]):
                self.add(True, "edges continued in another way", a, b)
                return True
            if x.op == "store" and y.op == "mut" and y.a[0] == "setdefault" and [k.h for k in x.a[:3]] == [k.h for k in y.a[1:4]]:
                self.add(True, "assigned only when missing", a, b)
                return True
            if unseeded(y) and not unseeded(x):
                self.add(True, "unseeded random numbers" if x is a else "seeded random numbers", a, b)
                return True
            if unique(x) and not unique(y):
                self.add(True, "name shared between calls" if x is a else "name differs between calls", a, b)
                return True
            if x.op in ("attr", "mcall") and (x.a[1] if x.op == "attr" else x.a[0]) in ("name", "stem", "suffix", "parent") and step(y) and step(y)[0] in (
                    "str", "Path", "fspath", "resolve", "absolute") and path_of(x) is not None and path_of(y) is not None and path_of(x).h == path_of(y).h:
                self.add(True, "part of a path instead of the path", a, b)
                return True
            sx, sy = step(x), step(y)
            if sx and sy and sx[0] in (".T", "transpose") and sy[0] == "reshape" and x.op in ("attr", "mcall"):
                sx = step(sx[2])
                if sx and sx[0] == "reshape" and sx[2].h == sy[2].h and len(sx[1]) > 1 and sx[1] == sy[1][::-1]:
                    self.add(True, "filled in another order", a, b)
                    return True
        if a.op in ("tuple", "list", "set") and b.op in ("tuple", "list", "set") and constlike(a) and constlike(b) and sorted(
                x.h for x in a.a) != sorted(x.h for x in b.a):
            self.add(True, "value", a, b)
            return True
        # accumulation over repeated indices against an indexed assignment
        for x, y in ((a, b), (b, a)):
            if x.op == "mut" and str(x.a[0]).startswith("numpy.") and str(x.a[0]).endswith(".at") and y.op == "store" and len(x.a) > 2 \
                    and x.a[1].h == y.a[0].h and x.a[2].h == y.a[1].h:
                self.add(True, "repeated indices accumulate or not", a, b)
                return True
        # a condition replaced by an all-true or all-false array
        for x, y in ((a, b), (b, a)):
            if x.op in ("cmp", "and", "or", "not", "inv") and y.op == "call" and y.a[0].op == "global" and y.a[0].a[0] in (
                    "numpy.ones_like", "numpy.zeros_like", "numpy.ones", "numpy.zeros", "numpy.full_like", "numpy.full",
                    "xarray.ones_like", "xarray.zeros_like", "xarray.full_like"):
                self.add(True, "fixed value instead of a condition", a, b)
                return True
        # two steps applied in the other order
        sa, sb = step(a), step(b)
        if sa and sb and sa[0] != sb[0] and {sa[0], sb[0]} <= ORDERED:
            ta, tb = step(sa[2]), step(sb[2])
            if ta and tb and ta[0] == sb[0] and tb[0] == sa[0]:
                self.add(True, "steps in another order", a, b)
                return True
        # a comparison of sequences weakened to one of sets or lengths
        if a.op == b.op == "cmp" and a.a[0] == b.a[0]:
            for x, y in ((a, b), (b, a)):
                ws = [unwrap_set(k) for k in y.a[1:]]
                if all(ws) and sorted(k.h for k in x.a[1:]) == sorted(k.h for k in ws):
                    self.add(True, "order or multiplicity no longer compared", a, b)
                    return True
        return False

    def finish(self):
        bij = all(len(v) == 1 for v in self.depths.values())
        out = []
        for d in self.diffs.values():
            if d.hard is None:
                if d.kind == "other loop index":
                    if bij:
                        continue
                    d.hard = True
                else:
                    d.hard = False
            out.append(d)
        # the same place reached again, in a context that changed because of it
        certain = {(d.old.loc, d.new.loc, d.old.op, d.new.op) for d in out if d.hard and d.old is not None and d.new is not None and d.old.loc and d.new.loc}
        return [d for d in out if d.hard or d.old is None or d.new is None or (d.old.loc, d.new.loc, d.old.op, d.new.op) not in certain]


def _cvs(s):
    out = {}
    for t in s.terms():
        if t.op == "cv":
            out.setdefault(t.a[0], t)
    return out


def unify_loops(ref, cur):
    """{colour in cur: colour in ref} for loop variables whose recurrence differs between the trees:
    first by variable name and order of occurrence, then by similarity of the recurrence"""
    ra, cb = _cvs(ref), _cvs(cur)
    la = [t for c, t in ra.items() if c not in cb]
    lb = [t for c, t in cb.items() if c not in ra]
    mp = {}
    byn = {}
    for t in la:
        byn.setdefault(t.hint[0] if t.hint else None, [[], []])[0].append(t)
    for t in lb:
        byn.setdefault(t.hint[0] if t.hint else None, [[], []])[1].append(t)
    usedb = set()
    useda = set()
    for n, (xs, ys) in byn.items():
        if n is not None and len(xs) == len(ys):
            xs.sort(key=lambda t: (t.hint[1], t.size))
            ys.sort(key=lambda t: (t.hint[1], t.size))
            for x, y in zip(xs, ys):
                mp[y.a[0]] = x.a[0]
                useda.add(x.a[0])
                usedb.add(y.a[0])
    la = [t for t in la if t.a[0] not in useda]
    lb = [t for t in lb if t.a[0] not in usedb]
    if la and lb:
        star = mk("carry", "*")
        anon = lambda t: subst(t, {x.h: star for x in walk(t) if x.op == "carry"})
        A = [(t, {x.h for x in walk(anon(t))}) for t in la]
        B = [(t, {x.h for x in walk(anon(t))}) for t in lb]
        cand = sorted(((len(p & q) / max(1, len(p | q)), i, j) for i, (_, p) in enumerate(A) for j, (_, q) in enumerate(B)),
                      key=lambda c: -c[0])
        ui, uj = set(), set()
        for s, i, j in cand:
            if i in ui or j in uj or s < 0.2:
                continue
            ui.add(i)
            uj.add(j)
            mp[B[j][0].a[0]] = A[i][0].a[0]
    return mp


def recolour(cur, mp):
    if not mp:
        return cur
    tgt = {}
    memo = {}

    def rc(t):
        st = [t]
        while st:
            x = st[-1]
            k = (x.h, x.loc)
            if k in memo:
                st.pop()
                continue
            pend = [y for y in x.a if isinstance(y, T) and (y.h, y.loc) not in memo]
            if pend:
                st.extend(pend)
                continue
            new = [memo[(y.h, y.loc)] if isinstance(y, T) else y for y in x.a]
            if x.op in ("carry", "cv"):
                new[0] = mp.get(new[0], new[0])
            r = mk(x.op, *new, loc=x.loc)
            r.hint = x.hint
            memo[k] = r
            st.pop()
        return memo[(t.h, t.loc)]

    from .ir import Event, Summary
    s = Summary()
    s.ret = rc(cur.ret)
    s.attrs = {k: rc(v) for k, v in cur.attrs.items()}
    s.outs = {k: rc(v) for k, v in cur.outs.items()}
    s.part = cur.part
    s.events = [Event(e.kind, [rc(g) for g in e.guard], rc(e.term) if e.term is not None else None, e.loc, e.label) for e in cur.events]
    s.params, s.fn, s.defaults = cur.params, cur.fn, cur.defaults
    return s


def raise_table(s):
    """{exception label: [(conjunction of guards, loc)]} with disjunctions split"""
    out = {}
    for e in s.of("raise"):
        g = land(list(e.guard))
        out.setdefault(e.label, []).append((g, e.loc))
    return out


def implies(a, b):
    n = atoms(a, set()) | atoms(b, set())
    if len(n) > 10:
        return False
    n = sorted(n)
    for m in range(1 << len(n)):
        v = {x: bool(m >> i & 1) for i, x in enumerate(n)}
        if evalb(a, v) and not evalb(b, v):
            return False
    return True


def norm_guards(s):
    """an event is only reached when no earlier raise fired, so a guard conjunct that merely restates
    `no earlier raise fired` (an else after a raising branch) is dropped"""
    out = Summary()
    out.ret, out.attrs, out.outs, out.part = s.ret, s.attrs, s.outs, s.part
    out.params, out.fn, out.defaults = s.params, s.fn, s.defaults
    prev = []
    for e in s.events:
        g = e.guard
        flat = []
        for x in g:
            flat += list(x.a) if x.op == "and" else [x]
        if prev and flat:
            i = 0
            while i < len(flat):
                c = flat[i]
                ac = atoms(c, set())
                rel = [r for r, an in prev if an & ac]
                rest = flat[:i] + flat[i + 1:]
                if rel and any(implies(land([x for x in rest] + [lnot(c)]), r) for r in rel):
                    flat = rest
                else:
                    i += 1
            g = flat
        t = e.term
        if e.kind == "effect" and t is not None and t.op == "mcall" and t.a[0] == "mkdir" and any(
                k.op == "kw" and k.a[0] == "exist_ok" and k.a[1].op == "const" and k.a[1].a[0] is True for k in t.a[2:]):
            # creating a directory that exists already does nothing
            ex = {lnot(mk("mcall", m, t.a[1])).h for m in ("exists", "is_dir")}
            g = [x for x in flat if x.h not in ex]
        out.events.append(Event(e.kind, g, e.term, e.loc, e.label))
        if e.kind == "raise" and not any(x.op == "exc" for x in flat):
            r = land(list(e.guard))
            if r.op != "const":
                prev.append((r, atoms(r, set())))
    return out


def compare(ref, cur, where):
    """differences of two Summaries"""
    ref, cur = norm_guards(ref), norm_guards(cur)
    cur = recolour(cur, unify_loops(ref, cur))
    reft = {t.h for t in ref.terms()}
    curt = {t.h for t in cur.terms()}
    c = Cmp(where, reft, curt)
    c.until = time.monotonic() + LIMIT
    c.outside = any(("outside", "") in deps(r) for r in ref.roots())
    c.pre = tuple(p for p in (land(list(e.guard)) for e in ref.of("raise")) if not any(x.op in ("inloop", "inwhile", "exc", "elem") for x in walk(p)) and p.op != "const")
    for k in ref.defaults:
        c.top = "default:" + k
        if k in cur.defaults:
            if ref.defaults[k].h != cur.defaults[k].h:
                c.add(True, f"default of {k}", ref.defaults[k], cur.defaults[k])
        elif k in cur.params:
            c.add(True, f"default of {k} removed", ref.defaults[k], None)
    c.top = "ret"
    c.go(ref.ret, cur.ret)
    for k in sorted(set(ref.attrs) | set(cur.attrs)):
        c.top = "attr:" + k
        if k in ref.attrs and k in cur.attrs:
            c.go(ref.attrs[k], cur.attrs[k])
        elif k in ref.attrs:
            c.add(k not in cur.part, f"self.{k} no longer set", ref.attrs[k], None)
        else:
            c.add(False, f"self.{k} newly set", None, cur.attrs[k])
    for k in sorted(set(ref.outs) | set(cur.outs)):
        c.top = "out:" + k
        if k in ref.outs and k in cur.outs:
            c.go(ref.outs[k], cur.outs[k])
        elif k in ref.outs:
            c.add(True, f"argument {k} no longer updated", ref.outs[k], None)
        else:
            c.add(True, f"argument {k} newly mutated", None, cur.outs[k])
    pre, c.pre = c.pre, ()
    c.seen = set()
    rr, rc = raise_table(ref), raise_table(cur)
    for k in sorted(set(rr) | set(rc)):
        c.top = "raise"
        a = lor([g for g, _ in rr.get(k, [])]) if k in rr else None
        b = lor([g for g, _ in rc.get(k, [])]) if k in rc else None
        if a is not None and b is not None:
            at = atoms(a, set()) | atoms(b, set())
            if bool_equiv(a, b, at):
                continue
            xs = list(a.a) if a.op == "or" else [a]
            ys = list(b.a) if b.op == "or" else [b]
            c.multiset(xs, ys, f"raise {k} when", a, b, need=0.5)
        elif a is not None:
            c.add(True, f"missing raise {k} when", a, None)
        else:
            c.add(True, f"extra raise {k} when", None, b)
    c.pre = pre
    for kind in ("effect", "mutcapture", "yield", "with"):
        c.top = kind
        f = lambda s: [mk("effect", land(list(e.guard)), e.term, loc=e.loc) for e in s.of(kind)]
        c.multiset(f(ref), f(cur), kind, None, None, need=0.4)
    c.top = "catch"
    f = lambda s: [mk("catch", e.label, land(list(e.guard)), e.term, loc=e.loc) for e in s.of("catch")]
    c.multiset(f(ref), f(cur), "exception handler", None, None, need=0.4)
    if cur.of("opaque") and not ref.of("opaque"):
        c.top = "opaque"
        c.add(False, "opaque statement", None, cur.of("opaque")[0].term)
    out = c.finish()
    if out:
        sr, sc = slot_terms(ref), slot_terms(cur)
        for d in out:
            s = {d.top}
            for k in set(sr) | set(sc):
                o = not isinstance(d.old, T) or d.old.h in sr.get(k, ())
                n = not isinstance(d.new, T) or d.new.h in sc.get(k, ())
                if o and n and (isinstance(d.old, T) or isinstance(d.new, T)):
                    s.add(k)
            d.slots = tuple(sorted(x for x in s if x))
    return out


def slot_terms(s):
    """{slot: digests of the terms its value is built from}"""
    out = {"ret": {t.h for t in walk(s.ret)}}
    for k, v in s.attrs.items():
        out["attr:" + k] = {t.h for t in walk(v)}
    for k, v in s.outs.items():
        out["out:" + k] = {t.h for t in walk(v)}
    for e in s.events:
        o = out.setdefault(e.kind, set())
        for g in e.guard:
            o |= {t.h for t in walk(g)}
        if e.term is not None and e.kind != "raise":
            o |= {t.h for t in walk(e.term)}
    return out


CONVERSION = {"astype", "compute", "persist", "chunk", "copy", "load", "item", "unify_chunks"}


def conversion(d):
    """one side is the other, converted in a way that leaves the value as it is; it cannot undo another change"""
    if d.kind not in ("value wrapped", "wrapper dropped") or d.old is None or d.new is None:
        return False
    small, big = (d.old, d.new) if d.kind == "value wrapped" else (d.new, d.old)
    for _ in range(4):
        if big.h == small.h:
            return True
        if not (big.op == "mcall" and big.a[0] in CONVERSION):
            return False
        big = big.a[1]
    return big.h == small.h


def verdict(diffs):
    if not diffs:
        return "HOLDS"
    if any(not d.hard and not conversion(d) for d in diffs) or not any(d.hard for d in diffs):
        return "UNKNOWN"
    return "VIOLATED" if len(diffs) <= 12 else "UNKNOWN"
