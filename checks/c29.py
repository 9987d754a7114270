"""C29: inputs that do not belong together are refused.

The oracle looks at shapes only: every argument of a call has documented dimensions, some of
them shared between arguments; when no assignment of sizes fits what was passed, the call
must raise.  Then the same good call is made again and compared bit for bit with before.
"""
import importlib
import itertools
import os
import warnings

import numpy as np
import pandas as pd

from lib import gen, mon as _mon
from lib.mon import workload

_keep = dict(_mon.WORKLOADS)
from checks import c20  # noqa: E402  the snapshot of the process

_mon.WORKLOADS.clear()
_mon.WORKLOADS.update(_keep)
canon = c20.canon

RULE = """A case is one call with good inputs of random size, made once, then made with inputs of which one or
several have another shape, and with undocumented options, and made once more. Distinct by call and by the
shapes passed; non-trivial when at least one of the spoiled calls cannot fit the documented shapes."""
ASSUMPTIONS = ["python runs with its assertions on: with -O the library's own checks of shapes are compiled away",
               "only shapes and options are judged here, not the numbers inside (C06 and others do that)"]
SHARDS = 8
MIN_DISTINCT = 400
MIN_OBSERVED = {"mismatches refused": 3000, "mismatches numpy would broadcast": 300, "options refused": 60, "good calls repeated": 300}


def setup(mon):
    global A, M, S, SP, PI, MM, scores, g
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    c20.setup(mon)
    import frds.algorithms as A
    import frds.measures as M
    import frds.measures.lob_slope as S
    import frds.measures.price_impact as PI
    import frds.measures.spread as SP
    from frds.algorithms.isolation_forest import anomaly_scores as scores

    MM = {m: getattr(importlib.import_module("frds.measures.modified_merton." + m), m)
          for m in ("mod_merton_computation", "mod_single_cohort_computation", "fftsmooth")}
    g = A.GJRGARCHModel


# -- documented shapes -------------------------------------------------------------------
def fits(spec, shapes, least):
    """Is there a size for every named dimension such that all shapes are as documented?"""
    size = {}
    for dims, shape in zip(spec, shapes):
        if len(dims) != len(shape):
            return False
        for d, s in zip(dims, shape):
            if size.setdefault(d, s) != s or s < least.get(d, 0):
                return False
    return True


def wrongs(v):
    """The same numbers in other shapes: fewer, more, and with other dimensions."""
    n = len(v)
    o = {"one fewer": v[:-1], "all but the first": v[1:], "half": v[: n // 2], "only the first": v[:1], "none": v[:0],
         "one more": np.concatenate([v, v[-1:]]), "twice as many": np.concatenate([v, v]), "a column": v[..., None], "a row": v[None],
         "two rows": np.stack([v, v]), "pairs": np.stack([v, v], -1), "a scalar": v.flat[0]}
    if v.ndim == 2:
        o.update({"one column fewer": v[:, :-1], "only the first column": v[:, :1], "flat": v[:, 0].copy(), "transposed": v.T.copy(),
                  "one column more": np.concatenate([v, v[:, -1:]], 1), "only the first row": v[0].copy()})
    return o


# -- calls: name -> (function, arguments, dimensions, least sizes, spoilings not judged) -----
def trades(rng):
    n = int(rng.choice([1, 2, 3, 5, 20, 77], p=[0.05, 0.15, 0.1, 0.3, 0.2, 0.2]))
    mid = float(gen.log_uniform(rng, 1, 1000)) * np.exp(np.cumsum(rng.normal(0, 1e-3, n)))
    return n, mid, mid * (1 + rng.normal(0, 1e-3, n)), mid * (1 + rng.normal(0, 2e-3, n)), rng.integers(1, 900, n) * 1.0, rng.choice([-1.0, 1.0], n)


def k_quoted(rng):
    n, mid, p, *_ = trades(rng)
    pct = bool(rng.integers(2))
    return lambda b, a: SP.quoted_spread(b, a, pct), [mid * 0.999, mid * 1.001], "n n"


def trade_call(f, later):
    def make(rng):
        n, mid, p, l, v, d = trades(rng)
        args = [p, l, mid, v] if later else [p, mid, v]
        pct = bool(rng.integers(2))
        if rng.random() < 0.6:
            args.append(d)
            return lambda *a: f()(*a, pct_spread=pct), args, " ".join("n" * len(args))
        return lambda *a: f()(*a, pct_spread=pct), args, " ".join("n" * len(args))

    return make


def book(rng):
    n, k = int(rng.choice([1, 2, 4, 5, 20])), int(rng.choice([5, 5, 5, 6, 10]))
    mid = float(gen.log_uniform(rng, 1, 1000)) * np.ones(n)
    step = np.cumsum(rng.uniform(1e-4, 1e-3, (2, n, k)), 2)
    return n, k, mid, mid[:, None] * (1 - step[0]), mid[:, None] * (1 + step[1]), rng.uniform(1, 99, (n, k)), rng.uniform(1, 99, (n, k))


def k_ask_slope(rng):
    n, k, mid, bp, ap, bs, as_ = book(rng)
    return S.DGGW_ask_slope, [as_, ap[:, -1].copy(), mid], "nk n n", {"k": 2}


def k_bid_slope(rng):
    n, k, mid, bp, ap, bs, as_ = book(rng)
    return S.DGGW_bid_slope, [bs, bp[:, -1].copy(), mid], "nk n n", {"k": 2}


def k_side(rng):
    # more levels on one side than on the other are accepted: only the first five count
    n, k, mid, bp, ap, bs, as_ = book(rng)
    return (S.DGGW_bid_side_slope_difference, [bs, bp], "nk nj", {"k": 5, "j": 5}) if rng.random() < 0.5 else \
        (S.DGGW_ask_side_slope_difference, [as_, ap], "nk nj", {"k": 5, "j": 5})


def k_depth(rng):
    n, k, mid, bp, ap, bs, as_ = book(rng)
    return S.DGGW_scaled_depth_difference, [bs, as_], "nk nk"


def k_kyle(rng):
    n = int(rng.integers(2, 60))
    # returns of several stocks against one flow are lstsq's own business
    return lambda r, v: M.kyle_lambda(r, v), [rng.normal(0, 0.01, n), rng.normal(0, 1e6, n)], "n n", {}, {(0, "a column"), (0, "pairs")}


def k_mes(rng):
    n, q = int(rng.integers(2, 300)), float(rng.choice([0.05, 0.2, 0.5]))
    return lambda f, m: M.MarginalExpectedShortfall(f, m).estimate(q), [rng.normal(0, 0.01, n), rng.normal(0, 0.01, n)], "n n"


def k_ses(rng):
    n = int(rng.integers(4, 60))
    return lambda a, b, c: M.SystemicExpectedShortfall(a, b, c, 0.03, 12.0).estimate(), [
        rng.random(n), rng.random(n) * 10, rng.standard_normal(n)], "n n n"


def k_pin(rng):
    n = int(rng.integers(2, 40))
    p = np.array([0.3, 0.5, 20.0, 30.0, 30.0])
    f = lambda b, s: (lambda o: (o.loglikelihood_EHO2010(p), o.loglikelihood_LK2011(p)))(M.PIN(b, s))
    return f, [rng.poisson(30, n), rng.poisson(30, n)], "n n"


def k_pin_fit(rng):
    n, how = int(rng.integers(4, 8)), str(rng.choice(["EHO2010", "LK2011"]))
    return lambda b, s: M.PIN(b, s).estimate(how), [rng.poisson(9, n), rng.poisson(9, n)], "n n"


def k_dip(rng):
    k = int(rng.integers(2, 6))
    c = np.full((k, k), 0.3) + 0.7 * np.eye(k)
    # a column of probabilities is read as if it were flat
    return lambda p, r: M.DistressInsurancePremium(p, r).estimate(n_simulated_returns=300, n_simulations=20), [
        rng.uniform(0.02, 0.3, k), c], "k kk", {}, {(0, "a column")}


def k_absorption(rng):
    n, k = int(rng.integers(5, 40)), int(rng.integers(2, 7))
    return lambda r: M.AbsorptionRatio(r).estimate(0.5), [rng.standard_normal((k, n))], "kn"


def returns(rng, k, raw):
    T = int(rng.integers(150, 260))
    x, y, _, _ = gen.pair_pct(rng, T, rho=0.5, gjr=True)
    z = 0.5 * x[::-1] + 0.5 * y
    out = [x, y, z][:k]
    return [np.expm1(v / 100) for v in out] if raw else [np.ascontiguousarray(v) for v in out]


def fit(cls, *a):
    return cls(*a).fit()


def k_ccc(rng):
    return lambda a, b: fit(A.GARCHModel_CCC, a, b), returns(rng, 2, False), "n n"


def k_dcc(rng):
    cls = A.GARCHModel_DCC if rng.random() < 0.5 else A.GJRGARCHModel_DCC
    return lambda a, b: fit(cls, a, b), returns(rng, 2, False), "n n"


def k_dcc_models(rng):
    cls, one = [(A.GARCHModel_DCC, A.GARCHModel), (A.GJRGARCHModel_DCC, A.GJRGARCHModel)][int(rng.integers(2))]
    return lambda a, b: fit(cls, one(a), one(b)), returns(rng, 2, False), "n n"


def k_garch(rng):
    cls, zm = (A.GARCHModel, A.GJRGARCHModel)[int(rng.integers(2))], bool(rng.integers(2))
    return lambda a: fit(lambda r: cls(r, zero_mean=zm), a), returns(rng, 1, False), "n"


def calm(f):
    """An estimator may report that it did not converge; that is an answer."""
    def h(*a):
        try:
            return f(*a)
        except RuntimeError as e:
            if "stimation failed" not in str(e):
                raise
            return "estimation failed"

    return h


def k_lrmes(rng):
    return calm(lambda f, m: M.LongRunMarginalExpectedShortfall(f, m).estimate(h=3, S=20, C=-0.005)), returns(rng, 2, True), "n n"


def k_srisk(rng):
    return calm(lambda f, m: M.SRISK(f, m, W=10.0, D=90.0).estimate(lrmes_h=3, lrmes_S=20, lrmes_C=-0.005)), returns(rng, 2, True), "n n", {}, {
        (0, "a column"), (0, "a row")}


def k_srisk_many(rng):
    x, y, z = returns(rng, 3, True)
    agg = bool(rng.integers(2))
    return calm(lambda f, m, w, d: M.SRISK(f, m, w, d).estimate(lrmes_h=3, lrmes_S=20, lrmes_C=-0.005, aggregate_srisk=agg)), [
        np.column_stack([x, z]), y, rng.uniform(10, 99, 2), rng.uniform(99, 999, 2)], "nk n k k", {"k": 2}


def k_variance(rng):
    (x,) = returns(rng, 1, False)
    vb = g.variance_bounds(x)
    f = (lambda r, v: A.GARCHModel.compute_variance([0.1, 0.1, 0.8], r, 1.0, v)) if rng.random() < 0.5 else \
        (lambda r, v: g.compute_variance([0.1, 0.05, 0.1, 0.8], r, 1.0, v))
    # bounds of more days than there are residuals are left unused
    return f, [x, vb], "n n2", {"2": 2}, {(0, w) for w in ("one fewer", "all but the first", "half", "only the first")} | {
        (1, w) for w in ("one more", "twice as many", "one column more")}


def k_merton(rng):
    single = rng.random() < 0.5
    f = MM["mod_single_cohort_computation" if single else "mod_merton_computation"]
    n, sims = 10, int(rng.choice([50, 80]))
    par = [0.01, 10, 0.7, 5.0, 0.65, 0.5, 0.66, 0.2, 0.005, 0.002, 0.5]
    fs = np.linspace(-1, 1, 4).reshape(-1, 1)
    # shocks in more or fewer columns are cut, a flat grid is read as a column
    return lambda w: f(fs, list(par), n, sims, w), [rng.standard_normal((sims, n if single else 3 * n))], (sims, None), {}, set()


CALLS = [
    k_quoted, trade_call(lambda: SP.effective_spread, False), trade_call(lambda: SP.realized_spread, True),
    trade_call(lambda: PI.simple_price_impact, True), k_ask_slope, k_bid_slope, k_side, k_depth, k_kyle, k_mes, k_ses, k_pin, k_dip,
    k_absorption, trade_call(lambda: SP.effective_spread, False), trade_call(lambda: SP.realized_spread, True),
    trade_call(lambda: PI.simple_price_impact, True), k_ask_slope, k_bid_slope, k_side, k_garch, k_ccc, k_dcc, k_dcc_models, k_lrmes,
    k_srisk, k_srisk_many, k_pin_fit, k_merton, k_variance,
]
SLOW = {k_garch, k_ccc, k_dcc, k_dcc_models, k_lrmes, k_srisk, k_srisk_many, k_pin_fit, k_merton}


def settings(rng):
    """numpy's error handling of this case: what it happens to be must survive"""
    np.seterr(**{k: str(rng.choice(["warn", "ignore"])) for k in ("divide", "over", "under", "invalid")})


def broadcasts(args):
    try:
        np.broadcast_shapes(*(np.shape(a) for a in args))
        return True
    except ValueError:
        return False


def same(f, q, good):
    """Does the call with a column or a row give just what the series gives?"""
    try:
        return close(f(*q), good)
    except Exception:
        return False


def close(x, y):
    if isinstance(y, (tuple, list)):
        return isinstance(x, (tuple, list)) and len(x) == len(y) and all(map(close, x, y))
    try:
        return np.shape(x) == np.shape(y) and bool(np.allclose(x, y, rtol=1e-9, atol=0, equal_nan=False))
    except TypeError:
        return False


@workload(quick=720, thorough=9000)
def shapes(mon, rng, i):
    settings(rng)
    make = CALLS[i % len(CALLS)]
    got = tuple(make(rng))
    f, args, spec = got[:3]
    least, free = (got[3:] + ({}, set())[len(got) - 3 :])
    if isinstance(spec, tuple):  # literal sizes
        def ok(sh):
            return all(len(s) == len(spec) and all(d is None or d == x for d, x in zip(spec, s)) for s in sh)
    else:
        dims = [list(s) for s in spec.split()]
        def ok(sh):
            return fits(dims, sh, least)
    assert ok([a.shape for a in args])
    name = getattr(make, "__name__", "")
    mon.describe(call=i % len(CALLS), name=name, shapes=[a.shape for a in args], first=[a.ravel()[:3] for a in args])
    state = c20.world(), gen.snapshot(*args)
    good = f(*args)
    before = canon(good)
    menu = []
    for k in range(len(args)):
        menu += [((k,), w) for w in wrongs(args[k])]
    alike = [c for r in range(2, len(args)) for c in itertools.combinations(range(len(args)), r)]
    for c in alike:
        menu += [(c, w) for w in set.intersection(*(set(wrongs(args[k])) for k in c))]
    if make in SLOW or len(menu) > 40:
        keep = 10 if make in SLOW else 40
        menu = [menu[j] for j in sorted(rng.permutation(len(menu))[:keep])]
    judged = 0
    for ks, w in menu:
        q = list(args)
        for k in ks:
            q[k] = wrongs(args[k])[w]
        if ok([np.shape(a) for a in q]) or any((k, w) in free for k in ks):
            mon.count("spoilings that fit the documented shapes")
            continue
        judged += 1
        snap = gen.snapshot(*(a for a in q if isinstance(a, np.ndarray)))
        if w in ("a column", "a row") and all(args[k].ndim == 1 for k in ks) and same(f, q, good):
            mon.count("taken for the series it is")  # the only thing it can mean, and all its numbers are there
        elif mon.refused(lambda: f(*q), "accepted inputs that do not belong together", f"argument {ks} with {w}: {[np.shape(a) for a in q]}"):
            mon.count("mismatches refused")
            mon.count("mismatches refused: " + w)
        if broadcasts(q):
            mon.count("mismatches numpy would broadcast")
        mon.check(gen.snapshot(*(a for a in q if isinstance(a, np.ndarray))) == snap, "a refused call modified its inputs", argument=ks, how=w)
        mon.seen(i % len(CALLS), ks, w, len(args[0]))
    if not judged:
        mon.skip("nothing to refuse at this size")
    after = c20.world(), gen.snapshot(*args)
    for k in state[0]:
        mon.check(state[0][k] == after[0][k], f"refused calls changed the process: {k}", before=str(state[0][k])[-200:], after=str(after[0][k])[-200:])
    mon.check(state[1] == after[1], "inputs modified")
    mon.check(canon(f(*args)) == before, "a good call gives another result after refused ones")
    mon.count("good calls repeated")


# -- options ------------------------------------------------------------------------------
def o_pin(rng):
    o = M.PIN(rng.poisson(9, 6), rng.poisson(9, 6))
    return lambda *m: o.estimate(*m), "LK2011", ["", "eho2010", "EHO", "LK", "LK2012", "YZ2006", None, 2010, " EHO2010", "EHO2010 "]


def o_ses(rng):
    o = M.SystemicExpectedShortfall(rng.random(9), rng.random(9), rng.random(9), 0.1, 9.0)
    return lambda *v: o.estimate(*v), "BFLV2012", ["", "APPR2017", "bflv2012", "BFLV", None, 2012, "BFLV2012 "]


def o_mes(rng):
    n = int(rng.integers(2, 60))
    o = M.MarginalExpectedShortfall(rng.normal(size=n), rng.normal(size=n))
    return lambda *q: o.estimate(*q), float(rng.uniform(0, 1)), [-1e-9, 1 + 1e-9, -0.05, 1.05, 5, 95, -1, np.inf, -np.inf, np.nan, 1e300]


def o_absorption(rng):
    o = M.AbsorptionRatio(rng.normal(size=(int(rng.integers(1, 30)), 40)))
    return lambda *q: o.estimate(*q), float(rng.uniform(0, 1)), [-1e-6, 1 + 1e-6, -0.2, 1.2, 1.5, 2, 20, -1, -3, np.nan]


def o_smooth(rng):
    n = 2 * int(rng.integers(10, 60))
    x = rng.normal(size=n)
    return lambda a: MM["fftsmooth"](x[: a[0]], a[1]), (n, 4), [(n, 3), (n, 1), (n, 5), (n - 1, 4), (n - 1, 3), (n - 3, 2)]


def o_forest(rng):
    n = int(rng.integers(2, 60))
    df = pd.DataFrame({"a": rng.normal(size=n), "b": rng.normal(size=n), "s": ["x"] * n})
    kw = dict(forest_size=5, tree_size=8)
    bad = [dict(forest_size=0), dict(forest_size=-1), dict(tree_size=0), dict(tree_size=-8), dict(exclude_cols=["zz"]), dict(exclude_cols=["a", "zz"]),
           dict(exclude_cols=["a", "b", "s"]), dict(forest_size=2.5), dict(tree_size="8"), dict(tree_size=None)]
    return lambda c: scores(df, **{**kw, **c}), {}, bad


def o_srisk(rng):
    x, y, z = returns(rng, 3, True)
    many = np.column_stack([x, z])
    w, d = np.array([10.0, 20.0]), np.array([90.0, 200.0])
    f = calm(lambda a: M.SRISK(*a).estimate(lrmes_h=2, lrmes_S=10, lrmes_C=-0.005))
    return f, (many, y, w, d), [(many, y, 10.0, 90.0), (many, y, w, 90.0), (many, y, 10.0, d), (x, y, w, d), (many[:, :1], y, w[:1], d[:1]),
                                (x, y, w[:1], d[:1]), (many, y, w, d[:1]), (many, y, w[:1], d)]


def o_seed(rng):
    p = rng.uniform(0.05, 0.3, 3)
    o = M.DistressInsurancePremium(p, np.eye(3) * 0.5 + 0.5)
    return lambda a: o.estimate(n_simulated_returns=200, n_simulations=10, **a), {}, [dict(random_seed=-1), dict(random_seed=1.5), dict(random_seed="0")]


def o_probability(rng):
    c = np.eye(3) * 0.5 + 0.5
    return lambda p: M.DistressInsurancePremium(np.array(p), c).estimate(n_simulated_returns=200, n_simulations=10), [0.1, 0.2, 0.3], [
        [0.1, 1.2, 0.3], [-0.1, 0.2, 0.3], [0.1, 0.2, 1.0], [0.0, 0.2, 0.3], [0.1, 0.2, 5.0]]


def o_correlations(rng):
    p = np.array([0.1, 0.2, 0.3])
    return lambda c: M.DistressInsurancePremium(p, np.array(c)).estimate(n_simulated_returns=200, n_simulations=10), np.eye(3), [
        np.full((3, 3), -0.9) + 1.9 * np.eye(3), 2 - np.eye(3), -np.eye(3)]


OPTIONS = [o_pin, o_ses, o_mes, o_absorption, o_smooth, o_forest, o_srisk, o_seed, o_probability, o_correlations]


@workload(quick=60, thorough=900)
def options(mon, rng, i):
    """An option that is not among the documented ones is refused, on an object that otherwise works."""
    settings(rng)
    make = OPTIONS[i % len(OPTIONS)]
    f, good, bad = make(rng)
    mon.describe(call=make.__name__, good=str(good)[:80])
    plain = make in (o_pin, o_ses, o_mes, o_absorption)  # have a default

    def answers():
        return canon([f(good)] + ([f()] if plain else []))

    state, before = c20.world(), answers()
    for b in rng.permutation(np.array(bad + [None], dtype=object)[:-1]):
        if mon.refused(lambda: f(b), "accepted an option that does not exist", f"{make.__name__[2:]}: {b!r}"[:200]):
            mon.count("options refused")
        mon.seen(make.__name__, repr(b)[:60])
    after = c20.world()
    for k in state:
        mon.check(state[k] == after[k], f"refused options changed the process: {k}", before=str(state[k])[-200:], after=str(after[k])[-200:])
    mon.check(answers() == before, "a good call gives another result after a refused option")
    mon.count("good calls repeated")
