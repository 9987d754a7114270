"""C20: estimators are pure.

Every public estimator and function is called under a monitor that hashes its inputs
and the process-wide state (numpy's and Python's generators, floating-point error
handling, warning filters, print and pandas options, environment, working directory,
threads) before and after the call.  The same calls run in one process in order, in
another backwards with other neighbours, on fresh and re-used objects, after the
caller edited earlier results, with read-only inputs and from several threads, in
builds with and without extensions: the results must be the same bit for bit.
"""
import dataclasses
import importlib
import logging
import os
import random
import signal
import sys
import threading
import warnings

import numpy as np
import pandas as pd

from lib import gen
from lib.mon import workload

RULE = """A case is one estimator with generated arguments, called on fresh and re-used objects in several
histories, or several estimators called concurrently; distinct by estimator and content. Non-trivial when the
estimator returned a result that was compared with another call of it."""
ASSUMPTIONS = ["concurrent calls are on different objects; warnings.catch_warnings is documented as not thread-safe, "
               "so warning filters are compared around calls of a single thread only"]
MIN_DISTINCT = 80
MIN_OBSERVED = {"calls under the monitor": 300, "results compared across histories": 60, "concurrent calls": 20}
P = "frds.measures.modified_merton."


def load(variant="plain"):
    global SPECS
    import scipy.optimize, scipy.stats, scipy.special  # imports may change filters once
    import matplotlib

    global A, M, spread, impact, lob, mm
    import frds.algorithms as A
    import frds.measures as M

    spread = importlib.import_module("frds.measures.spread")
    impact = importlib.import_module("frds.measures.price_impact")
    lob = importlib.import_module("frds.measures.lob_slope")
    mm = {}
    for name in ("loan_payoff", "fftsmooth", "find_face_value_indiv", "merton_solution", "mod_merton_computation",
                 "mod_single_cohort_computation", "mod_single_cohort_solution", "mod_merton_create_lookup",
                 "mod_single_merton_create_lookup"):
        mm[name] = getattr(importlib.import_module(P + name), name)
    if variant != "none":
        global anomaly_scores
        from frds.algorithms.isolation_forest import anomaly_scores
    SPECS = {k[2:]: v for k, v in globals().items() if k.startswith("s_")}
    if variant == "none":
        SPECS.pop("forest")


def setup(mon):
    load(mon.variant)
    own = os.path.join(os.getcwd(), f"cwd{os.getpid()}")
    os.mkdir(own)
    os.chdir(own)
    warm = np.random.default_rng(0)
    for name in SPECS:  # first calls may import lazily
        if name in ("ccc", "lrmes", "srisk", "srisk_many"):
            continue
        try:
            args, build, ops = SPECS[name](warm)
            o = build(*args)
            for f in ops.values():
                f(o)
        except RuntimeError:
            pass


def canon(x):
    if dataclasses.is_dataclass(x):
        return (type(x).__name__,) + tuple(canon(v) for v in dataclasses.astuple(x))
    if isinstance(x, (pd.DataFrame, pd.Series)):
        return (list(x.index), list(getattr(x, "columns", [])), canon(x.to_numpy()))
    if isinstance(x, np.ndarray):
        return (x.shape, x.dtype.str, np.ascontiguousarray(x).tobytes())
    if isinstance(x, (tuple, list)):
        return tuple(canon(v) for v in x)
    if isinstance(x, (float, np.floating)):
        return float(x).hex()
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    return repr(x)


def spoil(x):
    """The caller edits what it was given back."""
    if isinstance(x, np.ndarray) and x.ndim and x.flags.writeable:
        try:
            x[...] = -5
        except (ValueError, TypeError):
            pass
    elif isinstance(x, pd.DataFrame):
        x.iloc[:, :] = -5.0
    elif isinstance(x, (tuple, list)):
        for v in x:
            spoil(v)


def world(filters=True):
    s = dict(
        numpy=(np.random.get_state()[1].tobytes(), np.random.get_state()[2:]),
        python=random.getstate(),
        errors=tuple(sorted(np.geterr().items())),
        errcall=repr(np.geterrcall()),
        bufsize=np.getbufsize(),
        printing=repr(np.get_printoptions()),
        pandas=repr([(k, str(pd.get_option(k))) for k in ("mode.copy_on_write", "mode.chained_assignment", "display.max_rows",
                                                          "display.precision", "compute.use_numexpr", "future.infer_string")]),
        environment=tuple(sorted(os.environ.items())),
        directory=os.getcwd(),
        files=tuple(sorted(os.listdir("."))),
        path=tuple(sys.path),
        recursion=sys.getrecursionlimit(),
        switch=sys.getswitchinterval(),
        streams=(id(sys.stdout), id(sys.stderr)),
        handlers=len(logging.getLogger().handlers),
        alarm=repr(signal.getsignal(signal.SIGINT)),
        threads=threading.active_count(),
    )
    if filters:
        s["warning filters"] = repr(warnings.filters)
    return s


# -- what is called: name -> (inputs, build(*inputs) -> object, operations on it) --------
def ret(rng, T=None, **kw):
    return gen.returns_pct(rng, T or int(rng.integers(120, 400)), **kw)[0]


def fitted(o):
    p = o.fit()
    return (p, o.estimation_success, o.resids.copy(), o.sigma2.copy())


def s_garch(rng):
    x = ret(rng)
    return [x], A.GARCHModel, {"fit": fitted, "bounds": lambda o: A.GARCHModel.variance_bounds(o.returns),
                               "backcast": lambda o: A.GARCHModel.backcast(o.returns), "again": fitted}


def s_garch_zero_mean(rng):
    return [ret(rng)], lambda x: A.GARCHModel(x, zero_mean=True), {"fit": fitted, "again": fitted}


def s_gjr(rng):
    return [ret(rng, gjr=True)], A.GJRGARCHModel, {"fit": fitted, "again": fitted}


def s_variances(rng):
    x = ret(rng)
    vb = A.GARCHModel.variance_bounds(x)
    p, q = np.array([0.1, 0.1, 0.8]), np.array([0.1, 0.05, 0.1, 0.8])
    f = np.array([0.01, 0.1, 0.05, 0.1, 0.8])
    return [x, vb, p, q], lambda *a: a, {
        "garch": lambda a: A.GARCHModel.compute_variance(a[2], a[0], 1.0, a[1]),
        "gjr": lambda a: A.GJRGARCHModel.compute_variance(a[3], a[0], 1.0, a[1]),
        "ewma": lambda a: A.GARCHModel.ewma(a[0], 1.0, 0.9),
        "bounds": lambda a: A.GARCHModel.variance_bounds(a[0]),
        "check": lambda a: A.GARCHModel.bounds_check(3.0, a[1][0]),
        "loglik": lambda a: A.GARCHModel.loglikelihood(a[0], a[1][:, 1]),
    }


def s_ccc(rng):
    x, y, _, _ = gen.pair_pct(rng, int(rng.integers(120, 250)), rho=0.4)
    return [x, y], A.GARCHModel_CCC, {"fit": lambda o: (o.fit(), o.estimation_success), "again": lambda o: (o.fit(), o.estimation_success)}


def dccfit(o):
    return (o.fit(), o.estimation_success, o.model1.sigma2.copy(), o.model2.resids.copy())


def corr(a, b):
    def f(o):
        o.fit()
        return o.conditional_correlations(a, b)

    return f


def s_dcc(rng):
    x, y, _, _ = gen.pair_pct(rng, int(rng.integers(150, 350)), rho=0.5)
    return [x, y], A.GARCHModel_DCC, {"fit": dccfit, "corr": corr(0.05, 0.9), "corr0": corr(0.0, 0.0), "again": dccfit}


def s_dcc_models(rng):
    x, y, _, _ = gen.pair_pct(rng, int(rng.integers(150, 300)), rho=0.5)
    return [x, y], lambda a, b: A.GJRGARCHModel_DCC(A.GJRGARCHModel(a), A.GJRGARCHModel(b)), {"fit": dccfit, "corr": corr(0.02, 0.95)}


def raw_pair(rng):
    x, y, _, _ = gen.pair_pct(rng, int(rng.integers(250, 400)), rho=0.5, gjr=True)
    return np.expm1(x / 100), np.expm1(y / 100)


def or_error(f):
    def g(o):
        try:
            return f(o)
        except RuntimeError as e:
            return "RuntimeError " + str(e)

    return g


def s_lrmes(rng):
    x, y = raw_pair(rng)
    return [x, y], M.LongRunMarginalExpectedShortfall, {
        "default-ish": or_error(lambda o: o.estimate(h=10, S=60, C=-0.02)),
        "other seed": or_error(lambda o: o.estimate(h=10, S=60, C=-0.02, random_seed=7)),
        "other horizon": or_error(lambda o: o.estimate(h=3, S=40, C=-0.01)),
        "none": or_error(lambda o: o.estimate(h=2, S=5, C=-0.9)),
    }


def s_srisk(rng):
    x, y = raw_pair(rng)
    return [x, y], lambda a, b: M.SRISK(a, b, W=100.0, D=800.0), {
        "one": or_error(lambda o: o.estimate(lrmes_h=5, lrmes_S=30, lrmes_C=-0.01)),
        "aggregate": or_error(lambda o: o.estimate(k=0.1, lrmes_h=5, lrmes_S=30, lrmes_C=-0.01, aggregate_srisk=True)),
    }


def s_srisk_many(rng):
    x, y = raw_pair(rng)
    z = np.column_stack([x, 0.5 * y + 0.5 * x[::-1]])
    return [z, y, np.array([100.0, 20.0]), np.array([500.0, 300.0])], M.SRISK, {
        "many": or_error(lambda o: o.estimate(lrmes_h=5, lrmes_S=30, lrmes_C=-0.01)),
    }


def s_pin(rng):
    n = int(rng.integers(20, 50))
    B, S = rng.poisson(30 + 20 * (rng.random(n) < 0.3), n), rng.poisson(30 + 20 * (rng.random(n) < 0.3), n)
    p = np.array([0.3, 0.5, 20.0, 30.0, 30.0])
    return [B, S], M.PIN, {
        "EHO": lambda o: o.loglikelihood_EHO2010(p), "LK": lambda o: o.loglikelihood_LK2011(p),
        "grid": lambda o: list(o.init_params_grid_search)[:7] if not callable(o.init_params_grid_search)
        else list(o.init_params_grid_search())[:7],
    }


def s_pin_fit(rng):
    n = int(rng.integers(10, 16))
    B, S = rng.poisson(9 + 9 * (rng.random(n) < 0.3), n), rng.poisson(9 + 9 * (rng.random(n) < 0.3), n)
    return [B, S], M.PIN, {"LK": lambda o: (o.estimate("LK2011"), o.estimation_success),
                           "EHO": lambda o: (o.estimate("EHO2010"), o.estimation_success)}


def s_mes(rng):
    n = int(rng.integers(30, 300))
    return [rng.standard_normal(n), rng.standard_normal(n)], M.MarginalExpectedShortfall, {
        "5%": lambda o: o.estimate(), "20%": lambda o: o.estimate(0.2), "50%": lambda o: o.estimate(0.5)}


def s_ses(rng):
    n = int(rng.integers(5, 60))
    return [rng.random(n), rng.random(n) * 10, rng.standard_normal(n)], lambda a, b, c: M.SystemicExpectedShortfall(a, b, c, 0.03, 12.0), {
        "a": lambda o: o.estimate(), "b": lambda o: o.estimate("BFLV2012")}


def s_absorption(rng):
    return [rng.standard_normal((int(rng.integers(3, 12)), int(rng.integers(5, 60))))], M.AbsorptionRatio, {
        f"{q}": (lambda q: lambda o: o.estimate(q))(q) for q in (0.2, 0.5, 1.0, 0.0)}


def s_cca(rng):
    e, d = float(rng.uniform(1, 10)), float(rng.uniform(1, 30))
    return [], lambda: M.ContingentClaimAnalysis(), {
        "a": or_error(lambda o: o.estimate(e, 0.4, 0.02, d, 5.0, 0.01)), "b": or_error(lambda o: o.estimate(e, 0.3, 0.05, d, 1.0, 0.0))}


def s_dip(rng):
    k = int(rng.integers(1, 6))
    p, c = rng.uniform(0.02, 0.3, k), np.full((k, k), 0.3)
    np.fill_diagonal(c, 1.0)
    return [p, c], M.DistressInsurancePremium, {
        n: (lambda kw: lambda o: o.estimate(n_simulated_returns=2000, n_simulations=200, **kw))(kw)
        for n, kw in (("a", {}), ("b", dict(random_seed=9)), ("c", dict(default_threshold=0.4)), ("d", dict(default_threshold=0.0)))}


def s_kyle_z(rng):
    n = int(rng.integers(3, 60))
    return [rng.standard_normal(n), rng.standard_normal(n) * 1e6], lambda *a: a, {
        "kyle": lambda a: M.kyle_lambda(a[0], a[1]), "z": lambda a: M.z_score(0.02, 0.1, a[0])}


def s_bls(rng):
    n = int(rng.integers(1, 20))
    return [rng.uniform(50, 150, n), rng.uniform(50, 150, n), rng.uniform(0.1, 3, n)], lambda *a: a, {
        "array": lambda a: M.blsprice(a[0], a[1], 0.02, a[2], 0.3, 0.01), "scalar": lambda a: M.blsprice(a[0][0], a[1][0], 0.02, 1.0, 0.3)}


def s_spreads(rng):
    n = int(rng.integers(2, 60))
    mid = rng.uniform(20, 21, n)
    args = [mid + rng.normal(0, 0.02, n), mid, mid + rng.normal(0, 0.05, n), rng.integers(0, 900, n).astype(float),
            rng.choice([-1.0, 1.0], n), mid - 0.02, mid + 0.03]
    return args, lambda *a: a, {
        "quoted": lambda a: spread.quoted_spread(a[5], a[6]), "quoted log": lambda a: spread.quoted_spread(a[5], a[6], False),
        "effective": lambda a: spread.effective_spread(a[0], a[1], a[3]),
        "effective d": lambda a: spread.effective_spread(a[0], a[1], a[3], a[4]),
        "realized": lambda a: spread.realized_spread(a[0], a[2], a[1], a[3], a[4]),
        "realized n": lambda a: spread.realized_spread(a[0], a[2], a[1], a[3]),
        "impact": lambda a: impact.simple_price_impact(a[0], a[2], a[1], a[3], a[4]),
        "impact n": lambda a: impact.simple_price_impact(a[0], a[2], a[1], a[3]),
        "effective 0": lambda a: spread.effective_spread(a[0], a[1], a[3] * 0),
    }


def s_book(rng):
    n = int(rng.integers(2, 40))
    bs, ks = rng.integers(1, 900, (n, 5)).astype(float), rng.integers(1, 900, (n, 5)).astype(float)
    bs[0, 2] = np.nan
    ap = 20 + np.cumsum(rng.uniform(0.01, 0.05, (n, 5)), axis=1)
    bp = 20 - np.cumsum(rng.uniform(0.01, 0.05, (n, 5)), axis=1)
    ops = {}
    args = [bs, ks, bp, ap, np.full(n, 20.0)]

    def put(name, f):
        ops[name] = f

    put("ask", lambda a: lob.DGGW_ask_slope(a[1], a[3][:, 4], a[4]))
    put("bid", lambda a: lob.DGGW_bid_slope(a[0], a[2][:, 4], a[4]))
    put("bid difference", lambda a: lob.DGGW_bid_side_slope_difference(a[0], a[2]))
    put("ask difference", lambda a: lob.DGGW_ask_side_slope_difference(a[1], a[3]))
    put("depth", lambda a: lob.DGGW_scaled_depth_difference(a[0], a[1]))
    return args, lambda *a: a, ops


def s_forest(rng):
    n = int(rng.integers(5, 100))
    df = pd.DataFrame({"a": rng.standard_normal(n), "b": rng.integers(0, 9, n), "s": rng.choice(list("abc"), n).astype(object)})
    return [df], lambda d: d, {
        "a": lambda d: anomaly_scores(d, forest_size=30, tree_size=16), "b": lambda d: anomaly_scores(d, 20, 8, ["s"], 5, "x"),
        "c": lambda d: anomaly_scores(d, forest_size=7, tree_size=256, random_seed=0)}


def s_merton_parts(rng):
    x = np.sort(rng.random(200))
    f = rng.standard_normal((4, 3))
    return [x, f], lambda *a: a, {
        "payoff": lambda a: mm["loan_payoff"](0.9, a[1], 0.1, 0.5, 0.2, 5.0), "smooth": lambda a: mm["fftsmooth"](a[0], 10),
        "face": lambda a: mm["find_face_value_indiv"](0.03, 0.9, 0.2, 0.2, 5.0, 0.01, 0.005),
        "merton": lambda a: mm["merton_solution"]((1.0, 0.2), 0.3, 0.75, 0.01, 0.005, 5.0, 0.5)}


PAR = [0.01, 10, 0.7, 5.0, 0.65, 0.5, 0.66, 0.2, 0.005, 0.002, 0.5]


def s_merton(rng):
    fs = np.linspace(-1, 1, 4).reshape(-1, 1) + rng.random() / 10
    w = rng.standard_normal((100, 30))
    par = list(PAR)
    par[7] = float(rng.uniform(0.1, 0.3))
    return [fs, w, np.array(par)], lambda *a: a, {
        "cohorts": lambda a: mm["mod_merton_computation"](a[0], list(a[2]), 10, 100, a[1]),
        "seeded": lambda a: mm["mod_merton_computation"](a[0], list(a[2]), 10, 100, random_seed=3),
        "default": lambda a: mm["mod_merton_computation"](a[0], list(a[2]), 10, 100)}


def s_merton_one(rng):
    fs = np.linspace(-1, 1, 4).reshape(-1, 1) + rng.random() / 10
    w = rng.standard_normal((100, 10))
    par = list(PAR)
    par[7] = float(rng.uniform(0.1, 0.3))
    return [fs, w, np.array(par)], lambda *a: a, {
        "one": lambda a: mm["mod_single_cohort_computation"](a[0], list(a[2]), 10, 100, a[1]),
        "seeded": lambda a: mm["mod_single_cohort_computation"](a[0], list(a[2]), 10, 100, random_seed=3),
        "objective": lambda a: mm["mod_single_cohort_solution"]((0.2, 0.7), list(a[2]), 10, 400, 0.1, 0.3)}


def s_merton_table(rng):
    g = np.meshgrid(np.linspace(-1, 1, 4), [0.15, 0.25], [0.01, 0.02], [0.7], indexing="ij")
    f = lambda which: lambda a: mm[which](0.005, 0.002, 10, 5.0, 0.65, 0.5, 0.66, a[0], a[2], a[3], a[1], 10, 100)
    return list(g), lambda *a: a, {"table": f("mod_merton_create_lookup"), "table1": f("mod_single_merton_create_lookup")}


def s_stocks(rng):
    import frds.datasets as d

    return [], lambda: d.StockReturns, {"read": lambda o: o.stocks_us, "again": lambda o: o.stocks_us.tail(9)}


# -- the monitor ------------------------------------------------------------------------
def call(mon, name, op, f, o, args, rng):
    """One call under observation."""
    np.random.seed(int(rng.integers(0, 2**31)))
    random.seed(int(rng.integers(0, 2**31)))
    # settings of the caller's own, so that setting what happens to be set already is seen
    filters = warnings.filters[:]
    warnings.filterwarnings("ignore" if rng.random() < 0.5 else "default", "marker%d" % rng.integers(1 << 30), ResourceWarning)
    with np.errstate(**{k: str(rng.choice(["warn", "ignore"])) for k in ("divide", "over", "under", "invalid")}):
        before, inputs = world(), gen.snapshot(*args)
        try:
            r = f(o)
        finally:
            after = world()
            warnings.filters[:] = filters
            warnings._filters_mutated()
    mon.count("calls under the monitor")
    for k in before:
        mon.check(before[k] == after[k], f"global state changed: {k}", estimator=name, call=op,
                  before=str(before[k])[-300:], after=str(after[k])[-300:])
    mon.check(gen.snapshot(*args) == inputs, "inputs modified", estimator=name, call=op)
    return r


def copied(args):
    return [a.copy() for a in args]


def frozen(args):
    out = []
    for a in args:
        if isinstance(a, pd.DataFrame):
            b = pd.concat([pd.Series(frozen([a[c].to_numpy()])[0], index=a.index, name=c, copy=False) for c in a], axis=1, copy=False)
        else:
            b = a.copy()
            b.flags.writeable = False
        out.append(b)
    return out


WEIGHT = {"ccc": 1, "srisk_many": 1, "srisk": 1, "lrmes": 2, "pin_fit": 1, "merton": 1, "merton_table": 1, "dcc": 2, "dcc_models": 2,
          "gjr": 2, "garch": 2, "garch_zero_mean": 2}


def schedule():
    """Names in turn, cheap ones more often."""
    out = []
    for r in range(3):
        for n in sorted(SPECS):
            if r < WEIGHT.get(n, 3):
                out.append(n)
    return out


@workload(quick=56, thorough=900)
def histories(mon, rng, i):
    order = schedule()
    name = order[i % len(order)]
    args, build, ops = SPECS[name](rng)
    mon.describe(estimator=name, inputs=args)
    base = {}
    for op, f in ops.items():  # each on its own fresh object, the inputs its own copies
        a = copied(args)
        r = call(mon, name, op, f, build(*a), a, rng)
        base[op] = canon(r)
        mon.record(f"{name} {op}", base[op])
        mon.seen(name, op, base[op])
    # one object re-used, in a random order with repetitions, results edited by the caller
    a = copied(args)
    o = build(*a)
    names = list(ops)
    seq = [names[int(k)] for k in rng.integers(0, len(names), len(names) + 2)]
    kept = []
    for k, op in enumerate(seq):
        r = call(mon, name, op, ops[op], o, a, rng)
        mon.check(canon(r) == base[op], "a re-used object gives another result", estimator=name, call=op, history=seq)
        if (i + k) % 2 or any(r is x for x in a):
            kept.append((op, r))  # a result the caller keeps as it is
        else:
            spoil(r)
    for op, r in kept:
        mon.check(canon(r) == base[op], "a later call changed an earlier result", estimator=name, call=op, history=seq)
        mon.count("results kept over later calls")
    # read-only inputs
    a = frozen(args)
    o = build(*a)
    for op in names:
        r = call(mon, name, op, ops[op], o, a, rng)
        mon.check(canon(r) == base[op], "read-only inputs give another result", estimator=name, call=op)
    # after other estimators
    for other in rng.choice([n for n in sorted(SPECS) if n not in ("ccc", "srisk_many", "srisk", "pin_fit", "merton", "merton_table", "lrmes")], 3):
        x, b, fs = SPECS[str(other)](rng)
        ob = b(*x)
        op = list(fs)[int(rng.integers(len(fs)))]
        call(mon, str(other), op, fs[op], ob, x, rng)
    a = copied(args)
    op = names[int(rng.integers(len(names)))]
    r = call(mon, name, op, ops[op], build(*a), a, rng)
    mon.check(canon(r) == base[op], "another history gives another result", estimator=name, call=op)


@workload(quick=10, thorough=160)
def concurrent(mon, rng, i):
    k = int(rng.integers(2, 6))
    cheap = [n for n in sorted(SPECS) if n not in ("srisk_many", "srisk", "ccc", "merton_table")]
    names = [str(n) for n in rng.choice(cheap, k)]
    if i % 3 == 0:
        names = [names[0]] * k  # the same estimator with other data
    jobs, alone = [], []
    for n in names:
        args, build, ops = SPECS[n](rng)
        op = list(ops)[int(rng.integers(len(ops)))]
        jobs.append((n, op, args, build, ops[op]))
        alone.append(canon(ops[op](build(*copied(args)))))
    mon.describe(estimators=[(j[0], j[1]) for j in jobs])
    got, errors = [None] * k, []
    barrier = threading.Barrier(k)

    def go(m):
        n, op, args, build, f = jobs[m]
        try:
            barrier.wait()
            got[m] = canon(f(build(*args)))
        except Exception as e:
            errors.append(f"{n} {op}: {e!r}")

    old, filters = sys.getswitchinterval(), warnings.filters[:]
    before, inputs = world(False), [gen.snapshot(*j[2]) for j in jobs]
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=go, args=(m,)) for m in range(k)]
        [t.start() for t in ts]
        [t.join() for t in ts]
    finally:
        sys.setswitchinterval(old)
        warnings.filters[:] = filters
        warnings._filters_mutated()
    after = world(False)
    for key in before:
        mon.check(before[key] == after[key], f"global state changed: {key}", estimators=names)
    mon.check(not errors, "a concurrent call failed", errors=errors)
    for m in range(k):
        mon.count("concurrent calls")
        mon.check(got[m] == alone[m] or errors, "a concurrent call gives another result", estimator=jobs[m][0], call=jobs[m][1])
        mon.check(gen.snapshot(*jobs[m][2]) == inputs[m], "inputs modified", estimator=jobs[m][0], call=jobs[m][1])
    mon.seen(names, alone)


def orchestrate(run):
    forward = [run.start("c20", shard=k, shards=5, mode="forward") for k in range(5)]
    back = [run.start("c20", shard=k, shards=3, mode="reverse", only=["histories"]) for k in range(3)]
    run.wait(forward + back)
    pure = [run.start("c20", variant="none", shard=k, shards=6, mode="forward", scale=0.5) for k in range(6)]
    run.wait(pure)
    one, two = {}, {}
    for jobs, t in ((forward, one), (back, two)):
        for w in jobs:
            t.update(w.get("result", {}).get("trace", {}))
    n = 0
    for k in sorted(set(one) & set(two)):
        n += 1
        if one[k] != two[k]:
            run.violation("the result depends on earlier calls in the process", k, workload=k.split("[")[0], where=k)
    run.counters["results compared across histories"] = n
