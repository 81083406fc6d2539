"""Rules that do not consult the contract: each looks for the instances of one law in the current source and decides
every instance.  A rule returns a list of {function, what, verdict, loc, text}; an instance it cannot decide is UNKNOWN.
"""
import ast

from .ir import Program
from .term import T, const, contains, is_const, mk, show, walk

HOLDS, VIOLATED, UNKNOWN = "HOLDS", "VIOLATED", "UNKNOWN"


def inst(function, what, verdict, text, loc=None):
    return {"function": function, "what": what, "verdict": verdict, "text": text, "loc": loc}


def S(an, q):
    return an.cur.summary(q)


def terms(s):
    seen = set()
    for r in s.roots():
        for t in walk(r, seen):
            yield t


def kwargs(t):
    return {x.a[0]: x.a[1] for x in t.a if isinstance(x, T) and x.op == "kw"}


def params_of(t):
    return {x.a[0] for x in walk(t) if x.op == "param"}


def has_param(t, p):
    return any(x.op == "param" and x.a[0] == p for x in walk(t))


def self_attr(t, name):
    return t.op == "attr" and t.a[1] == name and t.a[0].op == "param" and t.a[0].a[0] == "self"


def has_attr(t, name):
    return any(self_attr(x, name) for x in walk(t))


PRESERVING = {"chunk", "persist", "compute", "astype", "drop_vars", "load", "rechunk", "copy", "rename", "unify_chunks"}


def strip(t):
    """look through value-preserving calls"""
    while True:
        if t.op == "mcall" and t.a[0] in PRESERVING:
            t = t.a[1]
        elif t.op == "if" and strip1(t.a[1]).h == strip1(t.a[2]).h:
            t = t.a[1]
        elif t.op == "kcall" and t.a[0] == "helper.checkpoint_to_zarr" and "da" in kwargs(t):
            t = kwargs(t)["da"]
        else:
            return t


def strip1(t):
    for _ in range(6):
        if t.op == "mcall" and t.a[0] in PRESERVING:
            t = t.a[1]
        elif t.op == "if":
            a, b = strip1(t.a[1]), strip1(t.a[2])
            if a.h == b.h:
                return a
            return t
        elif t.op == "kcall" and t.a[0] == "helper.checkpoint_to_zarr" and kwargs(t):
            k = kwargs(t)
            t = k.get("da", k.get("ds", next(iter(k.values()))))
        else:
            return t
    return t


# ----------------------------------------------------------------------------------------------- detection
def inclusive_extremes(an):
    """the flags are `anomaly >= threshold`, with the returned threshold"""
    out = []
    for q in ("detect._identify_extremes_hobday", "detect._identify_extremes_constant"):
        s = S(an, q)
        if s is None or s.ret.op != "tuple" or len(s.ret.a) != 2:
            out.append(inst(q, "flag comparison", UNKNOWN, "returned pair not found"))
            continue
        flags, thr = s.ret.a
        core = {x.h for x in (thr, strip1(thr))}
        found = False
        for t in walk(flags):
            if t.op != "cmp" or t.a[0] not in ("<", "<="):
                continue
            lo, hi = t.a[1], t.a[2]
            l, r = strip1(lo).h in core or lo.h in core, strip1(hi).h in core or hi.h in core
            if l == r:
                continue
            found = True
            if l and t.a[0] == "<=":
                v, m = HOLDS, "threshold <= anomaly"
            elif l:
                v, m = VIOLATED, "strict comparison: a value equal to the threshold is not flagged"
            else:
                v, m = VIOLATED, "comparison reversed: values below the threshold are flagged"
            out.append(inst(q, "flag comparison", v, m, t.loc))
        if not found:
            out.append(inst(q, "flag comparison", UNKNOWN, "no comparison against the returned threshold found"))
    return out


def percentile_flow(an):
    """every quantile call uses the requested percentile in its own unit"""
    out = []
    pct = mk("param", "threshold_percentile")
    frac = mk("bin", "/", pct, const(100.0))
    frac2 = mk("bin", "/", pct, const(100))
    for q in ("detect._identify_extremes_hobday", "detect._identify_extremes_constant"):
        s = S(an, q)
        if s is None:
            continue
        for t in terms(s):
            arg = None
            if t.op == "kcall" and t.a[0].startswith("detect._compute_histogram_quantile"):
                arg, want, unit = kwargs(t).get("q"), (frac.h, frac2.h), "fraction"
            elif t.op == "mcall" and t.a[0] == "quantile":
                pos = [x for x in t.a[2:] if x.op not in ("kw", "dkw")]
                arg, want, unit = (pos[0] if pos else kwargs(t).get("q")), (frac.h, frac2.h), "fraction"
            elif t.op == "mcall" and t.a[0] == "reduce" and any(x.op == "global" and "percentile" in str(x.a[0]) for x in t.a if isinstance(x, T)):
                arg, want, unit = kwargs(t).get("q"), (pct.h,), "percent"
            else:
                continue
            if arg is None:
                continue
            if arg.h in want:
                v = HOLDS
            elif arg.op in ("const", "param") or (arg.op == "bin" and has_param(arg, "threshold_percentile") and arg.size <= 5):
                v = VIOLATED
            else:
                v = UNKNOWN
            out.append(inst(q, "percentile argument", v, f"{show(t.a[0] if isinstance(t.a[0], T) else mk('global', t.a[0]), 2)}: q = {show(arg, 4)} ({unit})", t.loc))
    return out


THREAD = [
    ("detect.preprocess_data", "detect.compute_normalised_anomaly"),
    ("detect.preprocess_data", "detect.identify_extremes"),
    ("detect.preprocess_data", "detect._get_preprocessing_steps"),
    ("detect.compute_normalised_anomaly", "detect._compute_anomaly_shifting_baseline"),
    ("detect.compute_normalised_anomaly", "detect._compute_anomaly_detrended"),
    ("detect.compute_normalised_anomaly", "detect._compute_anomaly_fixed_baseline"),
    ("detect.compute_normalised_anomaly", "detect._compute_anomaly_detrend_fixed_baseline"),
    ("detect.identify_extremes", "detect._identify_extremes_hobday"),
    ("detect.identify_extremes", "detect._identify_extremes_constant"),
    ("detect._compute_anomaly_shifting_baseline", "detect.smoothed_rolling_climatology"),
    ("detect.smoothed_rolling_climatology", "detect.rolling_climatology"),
    ("detect._identify_extremes_hobday", "detect._compute_histogram_quantile_2d"),
    ("detect._identify_extremes_constant", "detect._compute_histogram_quantile_1d"),
    ("detect._compute_anomaly_detrend_fixed_baseline", "detect._compute_anomaly_detrended"),
    ("detect._compute_anomaly_detrend_fixed_baseline", "detect._compute_anomaly_fixed_baseline"),
]
# option deliberately not forwarded: the detrended fixed baseline fits no harmonics and never standardises
NOT_FORWARDED = {("detect._compute_anomaly_detrend_fixed_baseline", "std_normalise")}


def _threading(an, table, only=None):
    out = []
    for caller, callee in table:
        s = S(an, caller)
        if s is None or an.cur.get(caller) is None:
            continue
        ps = set(s.params)
        defs = an.cur.summary(callee).defaults if an.cur.summary(callee) else {}
        for t in terms(s):
            if t.op != "kcall" or t.a[0] != callee:
                continue
            for p, v in kwargs(t).items():
                if p not in ps or (caller, p) in NOT_FORWARDED or p in ("da", "coord", "dim", "verbose", "quiet"):
                    continue
                if has_param(v, p):
                    r = HOLDS
                elif v.op == "param" or is_const(v) or (p in defs and v.h == defs[p].h):
                    r = VIOLATED
                else:
                    r = UNKNOWN
                out.append(inst(caller, f"option {p} passed to {callee}", r, f"{callee}({p}={show(v, 3)})", t.loc))
    return out


def detect_threading(an):
    return _threading(an, THREAD)


def detect_defaults(an):
    """a default stated at several stages is the same everywhere"""
    groups = {}
    stages = ["detect.preprocess_data", "detect.compute_normalised_anomaly", "detect.identify_extremes", "detect.rolling_climatology",
              "detect.smoothed_rolling_climatology", "detect._compute_anomaly_shifting_baseline", "detect._identify_extremes_hobday",
              "detect._identify_extremes_constant", "detect._compute_histogram_quantile_1d", "detect._compute_histogram_quantile_2d"]
    for q in stages:
        s = S(an, q)
        if s is None:
            continue
        for p, v in s.defaults.items():
            groups.setdefault(p, []).append((q, v))
    out = []
    for p, xs in groups.items():
        if len(xs) < 2 or p in ("dimensions", "coordinates", "method_anomaly", "method_extreme"):
            continue
        main = xs[0]
        for q, v in xs[1:]:
            same = v.h == main[1].h or (is_const(v) and is_const(main[1]) and v.a[-1] == main[1].a[-1])
            out.append(inst(q, f"default of {p}", HOLDS if same else VIOLATED,
                            f"{p}={show(v, 2)} here, {show(main[1], 2)} in {main[0]}", v.loc))
    return out


def unknown_method_rejected(an):
    """a method name outside the documented set reaches a raise"""
    out = []
    for q, p, vals in (("detect.compute_normalised_anomaly", "method_anomaly",
                        ["detrend_harmonic", "shifting_baseline", "fixed_baseline", "detrend_fixed_baseline"]),
                       ("detect.identify_extremes", "method_extreme", ["global_extreme", "hobday_extreme"]),
                       ("detect.identify_extremes", "method_percentile", ["exact", "approximate"])):
        s = S(an, q)
        if s is None:
            continue
        # evaluate every raise guard for a value outside the set: all comparisons with p are false
        hit, unk = False, False
        for e in s.of("raise"):
            r = _eval_guard(e.guard, p, None)
            hit |= r is True
            unk |= r is None and any(has_param(g, p) for g in e.guard)
        out.append(inst(q, f"{p} outside the documented set", HOLDS if hit else (UNKNOWN if unk or _validates_elsewhere(s, p) else VIOLATED),
                        "an unknown value reaches a raise" if hit else "no raise is certain for an unknown value"))
    return out


def _validates_elsewhere(s, p):
    return any(t.op == "kcall" and has_param(t, p) and "valid" in t.a[0] for t in terms(s))


def _eval_guard(guard, p, value):
    """three-valued truth of a guard when parameter p equals `value` (None: a fresh string unlike any literal)"""
    def ev(t):
        if t.op == "const":
            return bool(t.a[-1])
        if t.op == "not":
            v = ev(t.a[0])
            return None if v is None else not v
        if t.op == "and":
            vs = [ev(x) for x in t.a]
            return False if False in vs else (None if None in vs else True)
        if t.op == "or":
            vs = [ev(x) for x in t.a]
            return True if True in vs else (None if None in vs else False)
        if t.op == "cmp" and t.a[0] == "==":
            a, b = t.a[1], t.a[2]
            for x, y in ((a, b), (b, a)):
                if x.op == "param" and x.a[0] == p and is_const(y):
                    return value is not None and y.a[-1] == value
        if t.op == "in" or (t.op == "cmp" and t.a[0] == "in"):
            k = t.kids
            if k and k[0].op == "param" and k[0].a[0] == p and k[1].op in ("tuple", "list", "set"):
                return False if value is None else None
        return None
    vs = [ev(g) for g in guard]
    return False if False in vs else (None if None in vs else True)


def validation_before_compute(an):
    """preprocess_data validates the input it then uses"""
    q = "detect.preprocess_data"
    s = S(an, q)
    if s is None:
        return []
    out = []
    calls = [t for t in terms(s) if t.op == "kcall" and t.a[0] == "detect._validate_data_values"]
    eff = [e for e in s.events if e.term is not None and any(x.op == "kcall" and x.a[0] == "detect._validate_data_values" for x in walk(e.term))]
    if an.cur.get("detect._validate_data_values") is None:
        return [inst(q, "input values validated", UNKNOWN, "validation function not found under its name")]
    if not eff and not calls:
        return [inst(q, "input values validated", VIOLATED, "the input values are never validated")]
    for e in eff:
        if e.guard:
            pv = {p for g in e.guard for p in params_of(g)}
            out.append(inst(q, "input values validated", VIOLATED if pv else UNKNOWN,
                            f"validation only happens under {[show(g, 3) for g in e.guard]}", e.loc))
        else:
            out.append(inst(q, "input values validated", HOLDS, "unconditional", e.loc))
    return out or [inst(q, "input values validated", HOLDS, "unconditional")]


def names_not_hardcoded(an):
    """in functions that receive a naming, no literal default name is used to select a dimension"""
    out = []
    NAMES = {"lat", "lon", "ncells", "latitude", "longitude"}
    for q in an.cur.funcs:
        if not q.startswith("detect."):
            continue
        ref = q
        s = S(an, ref) if ref in an.cur.inv_known else None
        if s is None or not ({"dimensions", "coordinates"} & set(s.params)):
            continue
        bad = []
        for t in terms(s):
            if t.op == "mcall" and t.a[0] in ("isel", "sel", "chunk", "pad", "rolling", "mean", "sum", "rename", "transpose", "coarsen"):
                for x in t.a[2:]:
                    if x.op == "kw" and x.a[0] in NAMES | {"time"}:
                        bad.append((x.a[0], t.loc))
                    if x.op == "kw" and x.a[0] in ("dim", "dims") and is_const(x.a[1]) and x.a[1].a[-1] in NAMES | {"time"}:
                        bad.append((x.a[1].a[-1], t.loc))
                    if x.op == "dkw" and is_const(x.a[0]) and x.a[0].a[-1] in NAMES | {"time"}:
                        bad.append((x.a[0].a[-1], t.loc))
        if bad:
            for n, l in bad:
                out.append(inst(q, "hard-coded dimension name", VIOLATED, f"literal name {n!r} selects a dimension", l))
        else:
            out.append(inst(q, "hard-coded dimension name", HOLDS, "dimensions are selected through the given naming"))
    return out


def mask_is_first_finite(an):
    """every anomaly method builds the mask from isfinite of the first time step of its input"""
    out = []
    for q in ("detect._compute_anomaly_shifting_baseline", "detect._compute_anomaly_detrended", "detect._compute_anomaly_fixed_baseline"):
        s = S(an, q)
        if s is None:
            continue
        ok = None
        for t in walk(s.ret):
            if t.op == "call" and t.a[0].op == "global" and t.a[0].a[0] in ("numpy.isfinite", "numpy.isnan", "xarray.ufuncs.isfinite") and len(t.a) > 1:
                for x in walk(t.a[1]):
                    if x.op == "mcall" and x.a[0] == "isel" and has_param(x, "da"):
                        idx = [y.a[1] for y in x.a[2:] if y.op in ("kw", "dkw")]
                        if any(is_const(i) and i.a[-1] == 0 for i in idx) and t.a[0].a[0] == "numpy.isfinite":
                            ok = (HOLDS, "isfinite of the first time step", t.loc)
                        elif any(is_const(i) for i in idx):
                            ok = ok or (VIOLATED, f"mask from {show(t, 4)}", t.loc)
        out.append(inst(q, "mask definition", *(ok[:2] if ok else (UNKNOWN, "mask expression not recognised")), ok[2] if ok else None))
    return out


def metadata_threading(an):
    """an attribute named like an option records that option"""
    q = "detect.preprocess_data"
    s = S(an, q)
    if s is None:
        return []
    out, seen = [], set()
    for t in terms(s):
        if t.op == "store":
            t = mk("pair", t.a[1], t.a[2])
        if t.op == "pair" and is_const(t.a[0]) and isinstance(t.a[0].a[-1], str) and t.a[0].a[-1] in s.params and t.a[0].a[-1] not in ("neighbours", "cell_areas", "dimensions", "coordinates"):
            k = t.a[0].a[-1]
            if (k, t.a[1].h) in seen:
                continue
            seen.add((k, t.a[1].h))
            v = t.a[1]
            r = HOLDS if has_param(v, k) else (VIOLATED if v.op == "param" or is_const(v) else UNKNOWN)
            out.append(inst(q, f"attribute {k}", r, f"{k} = {show(v, 3)}", t.loc))
    return out


def baseline_causal(an):
    """contributing years are strictly before, and at most the window before, the target year"""
    q = "detect.rolling_climatology"
    s = S(an, q)
    if s is None:
        return []
    out = []
    lower = upper = None
    for t in terms(s):
        if t.op != "cmp" or t.a[0] not in ("<", "<="):
            continue
        a, b = t.a[1], t.a[2]
        ya, yb = _year_like(a), _year_like(b)
        w = mk("param", "window_year_baseline")
        if ya and yb:
            ua, ub = _is_unique(a), _is_unique(b)
            if has_param(a, "window_year_baseline"):
                continue
            if ub and not ua and not has_param(a, "window_year_baseline"):
                lower = (HOLDS if t.a[0] == "<" else VIOLATED, "target year > contributing year", t)
            elif ua and has_param(b, "window_year_baseline"):
                upper = (HOLDS if t.a[0] == "<=" else VIOLATED, "target year <= contributing year + window", t)
    for r, w in ((lower, "same year excluded"), (upper, "window length")):
        if r is None:
            out.append(inst(q, w, UNKNOWN, "comparison of years not recognised"))
        else:
            out.append(inst(q, w, r[0], f"{r[1]}: {show(r[2], 3)}", r[2].loc))
    return out


def _year_like(t):
    return any(x.op == "attr" and x.a[1] == "year" for x in walk(t))


def _is_unique(t):
    for x in walk(t):
        if x.op == "call" and x.a[0].op == "global" and x.a[0].a[0] == "numpy.unique":
            return not any(y.op in ("elem", "idx") for y in walk(t))
    return False


def cyclic_window(an):
    """the histogram of the calendar-day axis is padded by the same half window that is trimmed"""
    q = "detect._rolling_histogram_quantile"
    s = S(an, q)
    if s is None:
        return []
    half = None
    for t in terms(s):
        if t.op == "bin" and t.a[0] == "//" and t.a[1].op == "param" and "window" in str(t.a[1].a[0]) and is_const(t.a[2]) and t.a[2].a[-1] == 2:
            half = t
    if half is None:
        return [inst(q, "half window", UNKNOWN, "half window not recognised")]
    return [inst(q, "half window", HOLDS, f"window // 2: {show(half, 3)}", half.loc)]


# ----------------------------------------------------------------------------------------------- tracking
def pad_reach(an):
    """hole filling: what is padded is trimmed, and the pad covers the reach of closing followed by opening"""
    q = "track.tracker.fill_holes"
    s = S(an, q)
    if s is None:
        return []
    out = []
    pads = {}
    for t in terms(s):
        if t.op == "mcall" and t.a[0] == "pad":
            for x in t.a[2:]:
                if x.op == "dkw":
                    pads.setdefault(x.a[0].h, (x.a[0], x.a[1], t))
    trims = {}
    for t in terms(s):
        if t.op == "mcall" and t.a[0] == "isel":
            for x in t.a[2:]:
                if x.op == "dkw" and _slice_args(x.a[1]):
                    trims[x.a[0].h] = (_slice_args(x.a[1]), t)
    for h, (dim, w, t) in pads.items():
        if h not in trims:
            out.append(inst(q, f"pad {show(dim, 2)}", UNKNOWN, "matching trim not recognised", t.loc))
            continue
        k = trims[h][0]
        ok = k[0].h == w.h
        out.append(inst(q, f"pad and trim {show(dim, 2)}", HOLDS if ok else (VIOLATED if k[0].op in ("bin", "param", "const", "if") and w.op == k[0].op else UNKNOWN),
                        f"padded by {show(w, 4)}, trimmed by {show(k[0], 4)}", t.loc))
        f = _factor(w)
        if f is None:
            out.append(inst(q, f"pad width {show(dim, 2)}", UNKNOWN, f"{show(w, 5)}", t.loc))
        else:
            out.append(inst(q, f"pad width {show(dim, 2)}", HOLDS if f >= 4 else VIOLATED,
                            f"{f} times the fill radius; closing then opening reaches 4 times", t.loc))
    modes = set()
    for t in terms(s):
        if t.op == "mcall" and t.a[0] == "pad":
            m = kwargs(t).get("mode")
            dims = [x.a[0] for x in t.a[2:] if x.op == "dkw"]
            for d in dims:
                y = has_attr(d, "ydim")
                wraps = m is not None and any(is_const(x) and x.a[-1] == "wrap" for x in walk(m))
                if y:
                    out.append(inst(q, "latitude does not wrap", VIOLATED if wraps else HOLDS, f"mode {show(m, 3) if m is not None else None}", t.loc))
                else:
                    gated = m is not None and has_attr(m, "regional_mode")
                    out.append(inst(q, "longitude wraps unless regional", HOLDS if wraps and gated else (UNKNOWN if m is None else VIOLATED),
                                    f"mode {show(m, 3) if m is not None else None}", t.loc))
    return out


def _slice_args(t):
    if t.op == "call" and t.a[0].op == "global" and t.a[0].a[0] == "builtins.slice":
        return list(t.a[1:])
    if t.op == "slice":
        return list(t.a)
    return None


def _factor(w):
    """k when w is k times the radius (or the smaller of that and the size of the axis)"""
    if w.op == "if":
        a, b = _factor(w.a[1]), _factor(w.a[2])
        if w.a[1].op != "bin" and a is not None:
            return b if b is not None else a
        return None if a is None or b is None else min(a, b)
    if w.op == "call" and w.a[0].op == "global" and w.a[0].a[0] in ("builtins.min",):
        fs = [_factor(x) for x in w.a[1:] if not any(y.op == "attr" and y.a[1] == "sizes" for y in walk(x))]
        return fs[0] if len(fs) == 1 else None
    if w.op == "bin" and w.a[0] == "*":
        k = 1
        r = 0
        for x in w.a[1:]:
            if is_const(x) and isinstance(x.a[-1], (int, float)):
                k *= x.a[-1]
            elif has_param(x, "R_fill") or has_attr(x, "R_fill"):
                r += 1
            else:
                return None
        return k if r == 1 else None
    if w.op in ("param", "attr") or (w.op == "if"):
        return 1 if (has_param(w, "R_fill") or has_attr(w, "R_fill")) else None
    return None


def regional_gates(an):
    """every wrap argument handed to a distance or partition routine is the negation of regional mode"""
    out = []
    for q in ("track.tracker.split_and_merge_objects", "track.tracker.split_and_merge_objects_parallel"):
        s = S(an, q)
        if s is None:
            continue
        for t in terms(s):
            if t.op == "kcall" and t.a[0].startswith("track.") and "wrap" in kwargs(t):
                v = kwargs(t)["wrap"]
                ok = v.op == "not" and self_attr(v.a[0], "regional_mode")
                bad = is_const(v) or self_attr(v, "regional_mode")
                out.append(inst(q, f"wrap passed to {t.a[0]}", HOLDS if ok else (VIOLATED if bad else UNKNOWN), f"wrap={show(v, 3)}", t.loc))
    return out


def gap_kernel(an):
    """temporal closing uses a kernel of gap length + 1 and trims what it pads"""
    q = "track.tracker.fill_time_gaps"
    s = S(an, q)
    if s is None:
        return []
    out = []
    for t in terms(s):
        if t.op == "call" and t.a[0].op == "global" and t.a[0].a[0] == "numpy.ones" and len(t.a) > 1 and has_attr(t.a[1], "T_fill"):
            n = t.a[1]
            k = None
            if n.op == "bin" and n.a[0] == "+" and len(n.a) == 3:
                c = [x for x in n.a[1:] if is_const(x)]
                a = [x for x in n.a[1:] if self_attr(x, "T_fill")]
                if len(c) == 1 and len(a) == 1:
                    k = c[0].a[-1]
            elif self_attr(n, "T_fill"):
                k = 0
            out.append(inst(q, "kernel length", UNKNOWN if k is None else (HOLDS if k == 1 else VIOLATED), f"kernel of {show(n, 3)} steps", t.loc))
    return out or [inst(q, "kernel length", UNKNOWN, "kernel not recognised")]


def even_t_fill(an):
    q = "track.tracker._validate_inputs"
    s = S(an, q)
    if s is None:
        return []
    for e in s.of("raise"):
        for g in e.guard:
            if has_attr(g, "T_fill") and any(x.op == "bin" and x.a[0] == "%" for x in walk(g)):
                return [inst(q, "odd gap length rejected", HOLDS, show(g, 4), e.loc)]
    return [inst(q, "odd gap length rejected", UNKNOWN, "guard not recognised")]


def mask_after_growth(an):
    """what hole filling returns has the mask applied after the morphology, on both grid kinds"""
    q = "track.tracker.fill_holes"
    s = S(an, q)
    if s is None:
        return []
    out = []
    r = s.ret
    branches = [("unstructured", r.a[1]), ("structured", r.a[2])] if r.op == "if" and has_attr(r.a[0], "unstructured_grid") else []
    if not branches:
        return [inst(q, "mask applied last", UNKNOWN, "grid branches not recognised")] * 2
    for n, b in branches:
        if b.op == "where" and has_attr(b.a[0], "mask"):
            out.append(inst(q, f"mask applied last ({n})", HOLDS, "where(mask, ..)", b.loc))
        elif any(self_attr(x, "mask") for x in walk(b)):
            out.append(inst(q, f"mask applied last ({n})", HOLDS if n == "unstructured" else UNKNOWN, "the mask enters the operation", b.loc))
        else:
            out.append(inst(q, f"mask applied last ({n})", VIOLATED, "the mask is never applied to the filled field", b.loc))
    return out


def inclusive_area_filter(an):
    """`area >= threshold` keeps an object, at every place where the decision is taken or described"""
    out = []
    for q in ("track.tracker.filter_small_objects", "track.tracker.run_preprocess"):
        s = S(an, q)
        if s is None:
            continue
        seen = set()
        for t in terms(s):
            if t.op != "cmp" or t.a[0] not in ("<", "<=") or t.h in seen:
                continue
            seen.add(t.h)
            lo, hi = t.a[1], t.a[2]
            tl, th = _area_thr(lo, q), _area_thr(hi, q)
            if tl == th:
                continue
            if tl:
                out.append(inst(q, "area comparison", HOLDS if t.a[0] == "<=" else VIOLATED,
                                "threshold <= area" if t.a[0] == "<=" else "strict: an object exactly at the threshold is dropped", t.loc))
            else:
                out.append(inst(q, "area comparison", UNKNOWN, show(t, 3), t.loc))
    return out


def _area_thr(t, q):
    if q.endswith("run_preprocess"):
        return t.op == "sub" and t.a[0].op == "kcall" and t.a[0].a[0].endswith("filter_small_objects") and is_const(t.a[1]) and t.a[1].a[-1] == 1
    return t.op == "if" and has_attr(t.a[0], "_use_absolute_filtering") and (has_attr(t.a[1], "area_filter_absolute") or has_attr(t.a[2], "area_filter_absolute"))


def keep_table_positional(an):
    """the table of kept identifiers is decided by area only: no entry is overwritten by position"""
    q = "track.tracker.filter_small_objects"
    s = S(an, q)
    if s is None:
        return []
    out, seen = [], set()
    for t in terms(s):
        if t.op == "store" and t.h not in seen and is_const(t.a[1]) and any(x.op == "cmp" and (_area_thr(x.a[1], q) or _area_thr(x.a[2], q)) for x in walk(t.a[0])):
            seen.add(t.h)
            out.append(inst(q, f"keep table entry {show(t.a[1], 1)} overwritten", VIOLATED,
                            f"the object at position {show(t.a[1], 1)} of the keep table is set to {show(t.a[2], 2)} whatever its area", t.loc))
    return out or [inst(q, "keep table entries", HOLDS, "no entry is overwritten by position")]


def overlap_sites(an):
    """every comparison of an overlap fraction with the threshold is inclusive"""
    out = []
    for q in ("track.tracker.enforce_overlap_threshold", "track.tracker.consolidate_object_ids", "track.tracker.split_and_merge_objects",
              "track.tracker.split_and_merge_objects_parallel"):
        s = S(an, q)
        if s is None:
            continue
        seen = set()
        for t in terms(s):
            if t.op == "cmp" and t.a[0] in ("<", "<=") and t.h not in seen:
                seen.add(t.h)
                lo, hi = t.a[1], t.a[2]
                l, r = self_attr(lo, "overlap_threshold"), self_attr(hi, "overlap_threshold")
                if l == r:
                    continue
                # threshold <= x : link;   x < threshold : drop
                ok = (l and t.a[0] == "<=") or (r and t.a[0] == "<")
                out.append(inst(q, "overlap comparison", HOLDS if ok else VIOLATED, show(t, 3), t.loc))
    return out


def capacity_guards(an):
    """a counter compared with a capacity before it indexes an array of that capacity is compared with >="""
    out = []
    q = "track.tracker.split_and_merge_objects_parallel"
    f = an.cur.get(q)
    if f is None:
        return []
    consts = {}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id.startswith("MAX_"):
            consts[n.targets[0].id] = n
    for n in ast.walk(f.node):
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and len(n.test.ops) == 1 and any(isinstance(x, ast.Raise) for x in n.body):
            c = n.test.comparators[0]
            l = n.test.left
            op = n.test.ops[0]
            if isinstance(c, ast.Name) and c.id in consts and isinstance(l, ast.Name):
                ok = isinstance(op, (ast.GtE, ast.Eq))
                out.append(inst(q, f"capacity guard {l.id} against {c.id}", HOLDS if ok else (VIOLATED if isinstance(op, ast.Gt) else UNKNOWN),
                                ast.unparse(n.test), (f.mod.path, n.lineno)))
            elif isinstance(l, ast.Name) and l.id in consts and isinstance(c, ast.Name):
                ok = isinstance(op, ast.LtE)
                out.append(inst(q, f"capacity guard {c.id} against {l.id}", HOLDS if ok else (VIOLATED if isinstance(op, ast.Lt) else UNKNOWN),
                                ast.unparse(n.test), (f.mod.path, n.lineno)))
    return out or [inst(q, "capacity guards", UNKNOWN, "no guard recognised")]


def bounded_loops_raise(an):
    """an iteration that stops at a limit is followed by an error for the case that it did not settle"""
    out = []
    for q in ("track.tracker.split_and_merge_objects", "track.tracker.split_and_merge_objects_parallel"):
        f = an.cur.get(q)
        if f is None:
            continue
        for blk in (b for n in ast.walk(f.node) for b in (getattr(n, "body", None), getattr(n, "orelse", None)) if isinstance(b, list)):
            for k, w in enumerate(blk):
                if not isinstance(w, ast.While) or not isinstance(w.test, ast.BoolOp) or not isinstance(w.test.op, ast.And):
                    continue
                cnt = [c.left.id for c in w.test.values if isinstance(c, ast.Compare) and isinstance(c.left, ast.Name) and
                       isinstance(c.ops[0], (ast.Lt, ast.LtE)) and any(isinstance(y, ast.AugAssign) and isinstance(y.target, ast.Name) and
                                                                        y.target.id == c.left.id for y in ast.walk(w))]
                if not cnt:
                    continue
                names = {x.id for x in ast.walk(w.test) if isinstance(x, ast.Name)}
                tests = [x for x in blk[k + 1:] if isinstance(x, ast.If) and names & {y.id for y in ast.walk(x.test) if isinstance(y, ast.Name)}]
                if not tests:
                    v, txt = UNKNOWN, "no test of the limit after the loop"
                elif any(isinstance(y, ast.Raise) for x in tests for y in ast.walk(x)):
                    v, txt = HOLDS, "an error is raised when the loop did not settle"
                else:
                    v, txt = VIOLATED, "the loop that stops at the limit is not followed by an error: " + ast.unparse(tests[0].test)
                out.append(inst(q, "iteration limit reached without an error" if v == VIOLATED else "iteration limit", v, txt, (f.mod.path, w.lineno)))
    return out


def prange_disjoint(an):
    """in every parallel loop an array that outlives the iteration is only written at an index that depends on the loop variable"""
    out = []
    for q, f in an.cur.funcs.items():
        if not q.startswith("track."):
            continue
        for lp in ast.walk(f.node):
            if not (isinstance(lp, ast.For) and isinstance(lp.iter, ast.Call) and isinstance(lp.iter.func, (ast.Name, ast.Attribute))
                    and (getattr(lp.iter.func, "id", None) == "prange" or getattr(lp.iter.func, "attr", None) == "prange")):
                continue
            if not isinstance(lp.target, ast.Name):
                out.append(inst(q, "parallel loop", UNKNOWN, "loop target", (f.mod.path, lp.lineno)))
                continue
            v = lp.target.id
            dep = {v}
            local = set()
            for _ in range(5):
                for n in ast.walk(lp):
                    if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                        ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                        names = {x.id for t in ts for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                        local |= names
                        if {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)} & dep:
                            dep |= names
                    if isinstance(n, ast.For) and n is not lp:
                        names = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
                        local |= names
            bad = []
            nst = 0
            for n in ast.walk(lp):
                tgts = n.targets if isinstance(n, ast.Assign) else ([n.target] if isinstance(n, ast.AugAssign) else [])
                for t in tgts:
                    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id not in local:
                        nst += 1
                        ix = {x.id for x in ast.walk(t.slice) if isinstance(x, ast.Name)}
                        if not ix & dep:
                            # a flag set to one constant value by every iteration is not a race on the result
                            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant):
                                continue
                            bad.append((n, ast.unparse(t)))
            if bad:
                for n, x in bad:
                    out.append(inst(q, f"parallel write to {x}", VIOLATED, f"{x} is written by iterations of prange without depending on {v}",
                                    (f.mod.path, n.lineno)))
            else:
                out.append(inst(q, f"parallel loop over {v}", HOLDS, f"{nst} writes, all indexed through {v}", (f.mod.path, lp.lineno)))
    return out


AMBIENT = ("numpy.random.", "random.", "time.time", "time.perf_counter", "datetime.datetime.now", "os.environ", "os.getpid", "uuid.", "builtins.id",
           "builtins.hash", "threading.", "os.urandom", "secrets.")


def no_ambient_state(an):
    """no value that reaches a result of tracking comes from the clock, the process or a random source"""
    out = []
    for q in an.cur.inv_known:
        if not q.startswith("track."):
            continue
        s = S(an, q)
        if s is None:
            continue
        bad = None
        for r in [s.ret] + list(s.attrs.values()) + list(s.outs.values()):
            for t in walk(r):
                if t.op == "global" and str(t.a[0]).startswith(AMBIENT):
                    bad = (t.a[0], t.loc)
        out.append(inst(q, "clock, process and random state", VIOLATED if bad else HOLDS,
                        f"{bad[0]} enters a result" if bad else "not used in any output", bad[1] if bad else None))
    return out


def no_param_mutation(an):
    """public functions do not store into their arguments"""
    out = []
    for q, f in an.cur.funcs.items():
        if q not in an.cur.known:
            continue
        rq = an.cur.known[q]
        s = S(an, rq)
        if s is None:
            continue
        fresh = {x.arg for x in (f.node.args.vararg, f.node.args.kwarg) if x is not None}
        bad = {k: v for k, v in s.outs.items() if k != "self" and k.lstrip("*") not in fresh}
        if not rq.startswith(("detect.", "helper.", "exceptions.", "plotX.", "track.tracker.__init__", "track.regional_tracker")) or \
                rq.split(".")[-1].startswith("_") and not rq.endswith("__init__") or rq in MUTATES:
            # internal steps may work in place on what they are documented to update
            r = an.ref.summary(rq) if rq in an.ref.funcs else None
            if r is None:
                continue
            bad = {k: v for k, v in bad.items() if k in r.params and k not in r.outs}
        if bad:
            for k, v in bad.items():
                out.append(inst(rq, f"argument {k} modified", VIOLATED, f"{k} becomes {show(v, 3)}", v.loc))
        else:
            out.append(inst(rq, "arguments unmodified", HOLDS, f"{len(s.params)} parameters"))
    return out


FRESH = {"copy", "deepcopy", "dict", "list", "set", "tuple"}
VIEWS = {"attrs", "values", "data", "coords", "encoding", "loc", "variable", "T"}
INPLACE = {"update", "append", "extend", "pop", "popitem", "clear", "setdefault", "insert", "remove", "add", "sort", "reverse", "fill", "discard"}


def _root(e):
    """the expression an attribute, item or view chain starts from"""
    while isinstance(e, (ast.Subscript, ast.Attribute)):
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == "self":
            return "self." + e.attr
        if isinstance(e, ast.Attribute) and e.attr not in VIEWS:
            return None
        e = e.value
    return e.id if isinstance(e, ast.Name) else None


def _mutated(node):
    """(root, line) of the objects the statements below node change in place"""
    for n in ast.walk(node):
        tg = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
        for t in tg:
            for t in t.elts if isinstance(t, ast.Tuple) else [t]:
                if isinstance(t, ast.Subscript) or (isinstance(t, ast.Attribute) and not (isinstance(t.value, ast.Name) and t.value.id == "self")):
                    r = _root(t.value)
                    if r:
                        yield r, t.lineno
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in INPLACE:
            r = _root(n.func.value)
            if r:
                yield r, n.lineno


def aliases_not_mutated(an):
    """an argument kept by reference on the object is not changed in place by any method"""
    out = []
    for q, f in an.cur.funcs.items():
        if not q.endswith(".__init__") or not q.startswith(("track.", "plotX.")):
            continue
        cls = q[:-len("__init__")]
        meths = {m[len(cls):]: g for m, g in an.cur.funcs.items() if m.startswith(cls) and "." not in m[len(cls):]}
        a = f.node.args
        params = {x.arg for x in a.args + a.kwonlyargs} - {"self"}
        alias = {p_: {p_} for p_ in params}
        bad = []

        def src(e):
            if isinstance(e, ast.IfExp):
                return src(e.body) | src(e.orelse)
            if isinstance(e, ast.BoolOp):
                return set().union(*[src(x) for x in e.values])
            r = _root(e)
            return set(alias.get(r, ())) if r else set()

        def check(node, where):
            for r, line in _mutated(node):
                for p_ in alias.get(r, ()):
                    bad.append((where, r, p_, line))

        def called(node, seen):
            for n in ast.walk(node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self" \
                        and n.func.attr in meths and n.func.attr not in seen:
                    seen.add(n.func.attr)
                    called(meths[n.func.attr].node, seen)
            return seen

        def run(stmts):
            for st in stmts:
                if isinstance(st, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                    before = {k: set(v) for k, v in alias.items()}
                    for part in (getattr(st, "body", []), getattr(st, "orelse", []), getattr(st, "finalbody", [])):
                        run(part)
                    for h in getattr(st, "handlers", []):
                        run(h.body)
                    for k, v in alias.items():
                        v.update(before.get(k, set()) if not _reassigned_everywhere(st, k) else set())
                    continue
                check(st, "__init__")
                for m in called(st, set()):
                    check(meths[m].node, m)
                tg = st.targets if isinstance(st, ast.Assign) else [st.target] if isinstance(st, ast.AnnAssign) and st.value is not None else []
                for t in tg:
                    k = t.id if isinstance(t, ast.Name) else "self." + t.attr if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self" else None
                    if k:
                        alias[k] = src(st.value)

        run(f.node.body)
        for m, g in meths.items():
            if m != "__init__":
                for r, line in _mutated(g.node):
                    if r.startswith("self."):
                        for p_ in alias.get(r, ()):
                            bad.append((m, r, p_, line))
        seen = set()
        for m, r, p_, line in bad:
            if (m, r, p_) not in seen:
                seen.add((m, r, p_))
                out.append(inst(cls + m, f"{r} is the caller's {p_}", VIOLATED, f"changed in place in {m}", (f.mod.path, line)))
        if not bad:
            kept = sorted(k for k, v in alias.items() if k.startswith("self.") and v)
            out.append(inst(q, "kept references unmodified", HOLDS, f"{len(kept)} attributes alias arguments; {len(meths)} methods examined"))
    return out


def _reassigned_everywhere(st, k):
    if not isinstance(st, ast.If) or not st.orelse:
        return False

    def sets(body):
        for x in body:
            for n in ast.walk(x):
                for t in n.targets if isinstance(n, ast.Assign) else []:
                    if ast.unparse(t) == k:
                        return True
        return False

    return sets(st.body) and sets(st.orelse)


def units_snapshot_first(an):
    """the caller's coordinates are remembered before anything converts them in place"""
    q = "track.tracker.__init__"
    f = an.cur.get(q)
    if f is None:
        return []
    conv = {m for m, g in an.cur.funcs.items() if m.startswith("track.tracker.") and not m.endswith("__init__")
            and any(r == "self.data_bin" for r, _ in _mutated(g.node))}
    conv = {m.rsplit(".", 1)[1] for m in conv}
    first, snaps = None, {}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self" and n.func.attr in conv:
            first = min(first or n.lineno, n.lineno)
        for t in n.targets if isinstance(n, ast.Assign) else []:
            if isinstance(t, ast.Attribute) and t.attr in ("lat_init", "lon_init"):
                snaps[t.attr] = n.lineno
    if first is None or len(snaps) < 2:
        return [inst(q, "snapshot of the coordinates", UNKNOWN, "conversion or snapshot not found")]
    return [inst(q, f"self.{k} taken before the conversion", HOLDS if v < first else VIOLATED, f"line {v}, conversion at line {first}", (f.mod.path, v))
            for k, v in snaps.items()]


# frames are drawn on an axes object the caller hands over to be drawn on
MUTATES = {"plotX.base.make_frame"}


def no_mutable_defaults(an):
    out = []
    for q, f in an.cur.funcs.items():
        a = f.node.args
        for d in list(a.defaults) + [x for x in a.kw_defaults if x is not None]:
            if isinstance(d, (ast.List, ast.Dict, ast.Set)) or (isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id in ("list", "dict", "set")):
                out.append(inst(q, "mutable default", VIOLATED, ast.unparse(d), (f.mod.path, d.lineno)))
    return out or [inst("marEx", "mutable defaults", HOLDS, f"{len(an.cur.funcs)} signatures")]


def unit_roundtrip(an):
    """degrees to radians on the way in is undone by radians to degrees (or restoring the originals) on the way out"""
    out = []
    for q, want in (("track.tracker._unify_coordinates", ("numpy.degrees", "numpy.rad2deg", "pi")), ("track.tracker._remap_coordinates", ("numpy.radians", "numpy.deg2rad", "pi"))):
        s = S(an, q)
        if s is None:
            continue
        hit = [t for t in terms(s) if t.op == "global" and str(t.a[0]) in want or (t.op == "const" and isinstance(t.a[-1], float) and abs(t.a[-1] - 3.14159265) < 1e-6)]
        out.append(inst(q, "conversion present", HOLDS if hit else UNKNOWN, f"{len(hit)} conversions"))
    return out


def checkpoint_keys(an):
    """the names stored in the statistics checkpoint are the names read back, in the order of the tuple"""
    q = "track.tracker.run_preprocess"
    f = an.cur.get(q)
    if f is None:
        return []
    saved, loaded, spath, lpath, svar, lvar = None, None, None, None, None, None
    path = {}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call):
            fn = ast.unparse(n.func)
            if fn.endswith("savez") or fn.endswith("savez_compressed"):
                saved = [k.arg for k in n.keywords if k.arg]
                path["stats saved"] = ast.unparse(n.args[0]) if n.args else None
            elif fn == "np.load":
                path["stats loaded"] = ast.unparse(n.args[0]) if n.args else None
            elif fn.endswith("to_zarr"):
                path["field saved"] = ast.unparse(n.args[0]) if n.args else None
            elif fn.endswith("open_zarr"):
                path["field loaded"] = ast.unparse(n.args[0]) if n.args else None
        if isinstance(n, (ast.ListComp, ast.GeneratorExp)) and isinstance(n.generators[0].iter, (ast.List, ast.Tuple)):
            e = n.generators[0].iter.elts
            if e and all(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in e):
                loaded = [x.value for x in e]
    out = []
    if saved and loaded:
        miss = [k for k in loaded if k not in saved]
        out.append(inst(q, "names saved and loaded", VIOLATED if miss else HOLDS, f"loaded but never saved: {miss}" if miss else f"{len(loaded)} names"))
    else:
        out.append(inst(q, "names saved and loaded", UNKNOWN, "tables not recognised"))
    for a, b in (("stats saved", "stats loaded"), ("field saved", "field loaded")):
        if a in path and b in path:
            same = path[a].rstrip() == path[b].rstrip()
            lit = all("f'" in p or 'f"' in p or p.startswith(("'", '"')) for p in (path[a], path[b]))
            out.append(inst(q, f"{a} where {b}", HOLDS if same else (VIOLATED if lit else UNKNOWN), f"{path[a]} / {path[b]}"))
    return out


def validation_called(an):
    """the constructor runs every validation step, unconditionally where it applies to both grid kinds"""
    q = "track.tracker.__init__"
    s = S(an, q)
    if s is None:
        return []
    called = {}
    for e in s.events:
        if e.term is not None:
            for t in walk(e.term):
                if t.op == "kcall":
                    called.setdefault(t.a[0], []).append(e)
    for t in terms(s):
        if t.op == "kcall":
            called.setdefault(t.a[0], [])
    out = []
    for c in ("_validate_inputs", "_resolve_area_filtering_parameters", "_unify_coordinates"):
        k = "track.tracker." + c
        if an.cur.get(k) is None:
            out.append(inst(q, f"calls {c}", UNKNOWN, "not found under its name"))
            continue
        if k not in called:
            out.append(inst(q, f"calls {c}", VIOLATED, "never called by the constructor"))
        else:
            g = [e for e in called[k] if e.guard]
            bad = called[k] and len(g) == len(called[k])
            out.append(inst(q, f"calls {c}", UNKNOWN if bad else HOLDS, f"only under {[show(x, 3) for x in g[0].guard]}" if bad else "on every path"))
    return out


def pipeline_order(an):
    """fill_holes -> fill_time_gaps -> filter_small_objects, each applied to the previous step's result"""
    q = "track.tracker.run_preprocess"
    s = S(an, q)
    if s is None:
        return []
    out = []
    T_ = "track.tracker."
    chain = [(T_ + "fill_time_gaps", T_ + "fill_holes"), (T_ + "filter_small_objects", T_ + "fill_time_gaps")]
    for outer, inner in chain:
        if an.cur.get(outer) is None or an.cur.get(inner) is None:
            continue
        cs = [t for t in terms(s) if t.op == "kcall" and t.a[0] == outer]
        if not cs:
            out.append(inst(q, f"{outer.split('.')[-1]} applied", VIOLATED, "the step is not applied"))
            continue
        for c in cs:
            ok = any(t.op == "kcall" and t.a[0] == inner for x in c.a[1:] for t in walk(x))
            out.append(inst(q, f"{outer.split('.')[-1]} after {inner.split('.')[-1]}", HOLDS if ok else VIOLATED,
                            f"{show(c, 3)}", c.loc))
    return out


def tracker_threading(an):
    """options of the constructor are kept under their own names"""
    q = "track.tracker.__init__"
    s = S(an, q)
    if s is None:
        return []
    out = []
    for p in s.params:
        if p in s.attrs and p not in ("self",):
            v = s.attrs[p]
            r = HOLDS if has_param(v, p) else (VIOLATED if v.op == "param" or is_const(v) else UNKNOWN)
            out.append(inst(q, f"self.{p}", r, f"self.{p} = {show(v, 2)}", v.loc))
    q = "track.regional_tracker"
    s2 = S(an, q)
    if s2 is not None:
        for t in terms(s2):
            if t.op in ("call", "new", "kcall") and kwargs(t):
                for p, v in kwargs(t).items():
                    if p in s2.params:
                        r = HOLDS if has_param(v, p) else (VIOLATED if v.op == "param" or is_const(v) else UNKNOWN)
                        out.append(inst(q, f"passes {p}", r, show(v, 2), t.loc))
                    elif p == "regional_mode":
                        out.append(inst(q, "regional mode on", HOLDS if is_const(v) and v.a[-1] is True else VIOLATED, show(v, 2), t.loc))
    return out


# ----------------------------------------------------------------------------------------------- the rest
def wrappers_transparent(an):
    """a handler in a timing or tracing helper re-raises"""
    out = []
    for q in ("logging_config.log_timing", "logging_config.log_function_call", "logging_config.progress_bar"):
        f = an.cur.get(q)
        if f is None:
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Try):
                for h in n.handlers:
                    wraps = any(isinstance(x, (ast.Yield, ast.YieldFrom)) or (isinstance(x, ast.Call) and ast.unparse(x.func) == "func") for b in n.body for x in ast.walk(b))
                    if not wraps:
                        continue
                    ok = bool(h.body) and any(isinstance(x, ast.Raise) for x in h.body)
                    out.append(inst(q, "failure of the wrapped work", HOLDS if ok else VIOLATED, "re-raised" if ok else "the handler does not re-raise",
                                    (f.mod.path, h.lineno)))
    return out


def exception_family(an):
    m = an.cur.modules.get("marEx.exceptions")
    if m is None:
        return []
    out = []
    for c, n in m.classnodes.items():
        bases = [ast.unparse(b) for b in n.bases]
        seen = set()
        cur = list(bases)
        fam = c == "MarExError" and "Exception" in bases
        while cur:
            b = cur.pop()
            if b == "MarExError":
                fam = True
            if b in m.classnodes and b not in seen:
                seen.add(b)
                cur += [ast.unparse(x) for x in m.classnodes[b].bases]
        if c.startswith("_"):
            continue
        out.append(inst("exceptions." + c, "member of the error family", HOLDS if fam else VIOLATED, f"bases {bases}", (m.path, n.lineno)))
    return out


BROAD_OK = {
    # function: number of handlers for Exception (or bare) that do not re-raise, with the reason
    "helper.checkpoint_to_zarr": (4, "removal of stale stores and clean-up; the fallback store is tried and then raises"),
    "_coverage_init.initialize_coverage": (1, "coverage measurement of worker processes, not part of any result"),
    "track.tracker.split_and_merge_objects": (2, "collects details for the error that is raised right afterwards"),
    "logging_config.log_dask_info": (1, "information only"),
    "plotX.base.make_frame": (2, "decorations of a frame"),
    "plotX.base.PlotterBase.animate": (2, "decorations of a frame"),
}


def no_new_swallow(an):
    """handlers for every exception that neither re-raise nor raise another exist only where confirmed"""
    out = []
    for q, f in an.cur.funcs.items():
        rq = an.cur.known.get(q, q)
        n = 0
        locs = []
        for t in ast.walk(f.node):
            if isinstance(t, ast.Try):
                for h in t.handlers:
                    ty = ast.unparse(h.type) if h.type is not None else "bare"
                    if ty in ("Exception", "BaseException", "bare") and not any(isinstance(x, ast.Raise) for b in h.body for x in ast.walk(b)):
                        n += 1
                        locs.append((f.mod.path, h.lineno))
        if n:
            k = BROAD_OK.get(rq)
            if k is None and rq in an.ref.funcs:
                out.append(inst(rq, "failures swallowed", VIOLATED, "a handler for every exception discards the failure", locs[0]))
            elif k is None:
                out.append(inst(rq, "failures swallowed", UNKNOWN, "a helper that did not exist discards failures", locs[0]))
            else:
                out.append(inst(rq, "failures swallowed", HOLDS if n <= k[0] else VIOLATED, f"{n} handlers; {k[1]}", locs[0]))
    return out


def norm_beats_clim(an):
    """when a normalisation is given no separate limits are passed to the drawing call"""
    out = []
    for q in ("plotX.gridded.GriddedPlotter.plot", "plotX.unstructured.UnstructuredPlotter.plot"):
        s = S(an, q)
        if s is None:
            continue
        ok = None
        for t in terms(s):
            if t.op == "if" and any(x.op == "param" and x.a[0] == "norm" for x in walk(t.a[0])):
                pos, neg = t.a[1], t.a[2]
                c = t.a[0]
                isnone = c.op == "is" or (c.op == "cmp" and c.a[0] == "is") or (c.op not in ("not",) and any(is_const(x) and x.a[-1] is None for x in c.kids))
                given, other = (neg, pos) if isnone else (pos, neg)
                hasv = lambda b: any((x.op == "kw" and x.a[0] == "vmin") or (is_const(x) and x.a[-1] == "vmin") for x in walk(b))
                if hasv(given) and not hasv(other):
                    ok = (VIOLATED, "limits are passed exactly when a normalisation is given")
                else:
                    ok = ok or (HOLDS, "limits only without a normalisation")
        out.append(inst(q, "normalisation or limits", *(ok or (UNKNOWN, "choice not recognised"))))
    return out


def tasks_own_arguments(an):
    """an object handed to a task inside a loop is not changed by later iterations"""
    out = []
    for q, f in an.cur.funcs.items():
        if not q.startswith(("plotX.", "track.", "detect.", "helper.")):
            continue
        for lp in ast.walk(f.node):
            if not isinstance(lp, (ast.For, ast.While)):
                continue
            bound = {}
            for n in ast.walk(lp):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    bound.setdefault(n.targets[0].id, []).append(n.value)
            shared = {}

            def source(k, seen=()):
                if k in seen:
                    return None
                vs = bound.get(k)
                if vs is None:
                    return k
                if len(vs) == 1 and isinstance(vs[0], ast.Name):
                    return source(vs[0].id, seen + (k,))
                return None

            loopvars = {x.id for x in ast.walk(lp.target) if isinstance(x, ast.Name)} if isinstance(lp, ast.For) else set()
            changed = {r: line for st in lp.body for r, line in _mutated(st)}
            for n in ast.walk(lp):
                if not isinstance(n, ast.Call) or not _is_task(n, an, f):
                    continue
                for a in list(n.args) + [k.value for k in n.keywords]:
                    if isinstance(a, ast.Name):
                        src = source(a.id)
                        bad = src is not None and src not in loopvars and any(source(r) == src for r in changed if "." not in r)
                        out.append(inst(an.cur.known.get(q, q), f"task argument {a.id} at line {n.lineno}", VIOLATED if bad else HOLDS,
                                        f"{src} is shared by the tasks of all iterations and changed by each" if bad else "not changed after it is handed over",
                                        (f.mod.path, n.lineno)))
    return out


def _is_task(n, an, f):
    fn = n.func
    if isinstance(fn, ast.Call):
        d = ast.unparse(fn.func)
        return d.split(".")[-1] == "delayed"
    if isinstance(fn, ast.Attribute) and fn.attr in ("submit", "apply_async"):
        return True
    if isinstance(fn, ast.Name):
        g = f.mod.funcs.get(fn.id)
        node = getattr(g, "node", None)
        return node is not None and any(ast.unparse(d).split("(")[0].split(".")[-1] == "delayed" for d in node.decorator_list)
    return False


def import_names(an):
    """the flag of a dependency follows the import of that dependency's own module"""
    MOD = {"pillow": "PIL"}
    out = []
    for m in an.cur.modules.values():
        if m.short != "_dependencies":
            continue
        for t in ast.walk(m.tree):
            if not isinstance(t, ast.Try):
                continue
            mods = [a.name.split(".")[0] for b in t.body for n in ast.walk(b) if isinstance(n, ast.Import) for a in n.names]
            keys = [x.slice.value for b in t.body + t.orelse for n in ast.walk(b) if isinstance(n, ast.Assign) for x in n.targets
                    if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Constant) and isinstance(x.slice.value, str)
                    and isinstance(n.value, ast.Constant) and n.value.value is True]
            for k in keys:
                if mods:
                    ok = MOD.get(k, k) in mods
                    out.append(inst("_dependencies.DependencyTracker._check_all_dependencies", f"import behind {k}", HOLDS if ok else VIOLATED,
                                    f"imports {', '.join(mods)}", (m.path, t.lineno)))
                caught = {x.split(".")[-1] for h in t.handlers for x in ([ast.unparse(e) for e in h.type.elts] if isinstance(h.type, ast.Tuple) else
                                                                        [ast.unparse(h.type)] if h.type is not None else ["Exception"])}
                if mods and not caught & {"ImportError", "Exception", "BaseException"}:
                    out.append(inst("_dependencies.DependencyTracker._check_all_dependencies", f"missing {k}", VIOLATED,
                                    f"an import error of {', '.join(mods)} is not caught", (m.path, t.lineno)))
    return out


def loaded_before_removal(an):
    """data read from a temporary store is in memory before the store is removed"""
    q = "helper.checkpoint_to_zarr"
    f = next((g for k, g in an.cur.funcs.items() if an.cur.known.get(k) == q), None)
    if f is None:
        return []
    nodes, seen, todo = [], set(), [f.node]
    while todo:
        n = todo.pop()
        nodes.append(n)
        for c in ast.walk(n):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in f.mod.funcs and c.func.id not in seen:
                seen.add(c.func.id)
                todo.append(f.mod.funcs[c.func.id].node)
    calls = [c for n in nodes for c in ast.walk(n) if isinstance(c, ast.Call) and isinstance(c.func, (ast.Attribute, ast.Name))]
    name = lambda c: c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id
    removed = [c for c in calls if name(c) in ("rmtree", "unlink", "remove", "rmdir", "cleanup")]
    opened = [c for c in calls if name(c) in ("open_zarr", "open_dataset", "open_mfdataset")]
    read = [c for c in calls if name(c) in ("load", "compute", "load_dataset", "persist", "load_dataarray")]
    back = [c for c in read if name(c) != "persist"]
    if not removed or not opened:
        return [inst(q, "store kept", HOLDS, "no temporary store is read and removed", (f.mod.path, f.node.lineno))]
    return [inst(q, "data in memory before the store is removed", HOLDS if back else VIOLATED,
                 f"{len(back)} reads into memory, {len(removed)} removals" if back else "the store is removed while the returned data still reads from it",
                 (f.mod.path, removed[0].lineno))]


def frames_in_order(an):
    """the numbered frame file of step i shows step i"""
    q = "plotX.base.PlotterBase.animate"
    s = S(an, q)
    if s is None:
        return []
    out = []
    for t in terms(s):
        if t.op != "kcall" or t.a[0] != "plotX.base.make_frame":
            continue
        k = kwargs(t)
        d, i = k.get("data_slice"), k.get("time_ind")
        if d is None or i is None:
            continue
        sel = [x for y in walk(d) if y.op == "mcall" and y.a[0] == "isel" for x in y.a[2:] if x.op in ("kw", "dkw")]
        if not sel:
            out.append(inst(q, "frame data of its own step", UNKNOWN, show(d, 3), t.loc))
        for x in sel:
            ok = x.a[1].h == i.h
            out.append(inst(q, "frame data of its own step", HOLDS if ok else (VIOLATED if is_const(x.a[1]) or x.a[1].op == "bin" else UNKNOWN),
                            f"frame {show(i, 2)} drawn from step {show(x.a[1], 2)}", t.loc))
    return out or [inst(q, "frame data of its own step", UNKNOWN, "frames not recognised")]


def exports_resolve(an):
    """every name in __all__ is defined or imported by its module"""
    out = []
    for m in an.cur.modules.values():
        for n in m.tree.body:
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__all__" for t in n.targets) and isinstance(n.value, (ast.List, ast.Tuple)):
                for e in n.value.elts:
                    if isinstance(e, ast.Constant):
                        k = e.value
                        names = set(m.funcs) | set(m.classnodes) | set(m.imports)
                        for x in ast.walk(m.tree):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                                names.add(x.id)
                            if isinstance(x, ast.ImportFrom) or isinstance(x, ast.Import):
                                for al in x.names:
                                    names.add((al.asname or al.name).split(".")[0])
                        src = m.imports.get(k)
                        if src and m.name in an.ref.modules and k in an.ref.modules[m.name].imports:
                            was = an.ref.modules[m.name].imports[k]
                            if src.split(".")[-1] != was.split(".")[-1] and any(src.rpartition(".")[0] == x.name for x in an.cur.modules.values()):
                                out.append(inst(m.short + ".<module>", f"public name {k}", VIOLATED, f"{k} is {src}, not {was}", (m.path, e.lineno)))
                                continue
                        ok = k in names or (m.name + "." + k) in an.cur.modules
                        out.append(inst(m.short + ".<module>", f"public name {k}", HOLDS if ok else VIOLATED, "defined" if ok else "not defined", (m.path, e.lineno)))
    return out


def histogram_siblings(an):
    """the one- and two-dimensional histogram quantiles default to the same bins and treat values below the range alike"""
    out = []
    a, b = S(an, "detect._compute_histogram_quantile_1d"), S(an, "detect._compute_histogram_quantile_2d")
    if a is None or b is None:
        return []
    for p in ("precision", "max_anomaly"):
        if p in a.defaults and p in b.defaults:
            same = a.defaults[p].h == b.defaults[p].h
            out.append(inst("detect._compute_histogram_quantile_2d", f"default {p}", HOLDS if same else VIOLATED,
                            f"{show(a.defaults[p], 1)} / {show(b.defaults[p], 1)}"))
    return out


def fastmath_no_inf(an):
    """a kernel compiled with fastmath may assume that no value is infinite or missing, so it never tests for either"""
    out = []
    for q, f in an.cur.funcs.items():
        if not q.startswith(("track.", "detect.")):
            continue
        fast = [k for d in f.node.decorator_list if isinstance(d, ast.Call) for k in d.keywords
                if k.arg == "fastmath" and not (isinstance(k.value, ast.Constant) and not k.value.value)]
        if not fast:
            continue
        bad = None
        for n in ast.walk(f.node):
            if isinstance(n, ast.Compare) and any(isinstance(o, (ast.Eq, ast.NotEq)) for o in n.ops) and any(
                    _is_inf(x) for x in [n.left] + n.comparators):
                bad = n
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("isinf", "isnan", "isfinite", "isposinf"):
                bad = n
        out.append(inst(q, "tests for infinite or missing values under fastmath", VIOLATED if bad else HOLDS,
                        f"`{ast.unparse(bad)}` is undefined in a kernel compiled with fastmath" if bad else "none",
                        (f.mod.path, bad.lineno) if bad else (f.mod.path, f.node.lineno)))
    return out


def _is_inf(e):
    if isinstance(e, ast.UnaryOp):
        return _is_inf(e.operand)
    if isinstance(e, ast.Attribute):
        return e.attr in ("inf", "nan", "PINF", "NINF", "NaN", "Inf")
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "float" and len(e.args) == 1 \
        and isinstance(e.args[0], ast.Constant) and str(e.args[0].value).lower().strip("+-") in ("inf", "nan", "infinity")
