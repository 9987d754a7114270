"""C30: memory and work grow with the data, no faster.

Every routine is called on data of growing size, in a process whose allocator records the
peak of live bytes (native/count.c; the interpreter's own allocator is off, so Python objects,
numpy arrays and native buffers are all seen), and its CPU time is taken.  The oracle compares
the growth of both with that of the data.
"""
import ctypes
import gc
import importlib
import math
import os
import resource
import subprocess
import time
import warnings

import numpy as np
import pandas as pd

from lib import gen
from lib.mon import workload

RULE = """A case is one routine and one measure of size (days, trades, quotes, rows, trees, paths, grid points), called
at five or more sizes; distinct by routine, measure and data. Non-trivial when the largest size made the routine allocate
or work measurably more than the smallest."""
ASSUMPTIONS = ["the process is otherwise idle: nothing else allocates while a call is measured",
               "work is CPU time, the least of several calls, judged only where it is far above the clock's resolution and with a wide margin",
               "growth is that between the sizes tried; beyond them it is extrapolated"]
MIN_DISTINCT = 60
MIN_OBSERVED = {"calls measured": 400, "growth of memory judged": 60, "growth of work judged": 40}


def setup(mon):
    global A, M, S, SP, PI, MM, scores, peak
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    import frds.algorithms as A
    import frds.measures as M
    import frds.measures.lob_slope as S
    import frds.measures.price_impact as PI
    import frds.measures.spread as SP
    from frds.algorithms.isolation_forest import anomaly_scores as scores

    MM = {m: getattr(importlib.import_module("frds.measures.modified_merton." + m), m)
          for m in ("mod_merton_computation", "mod_single_cohort_computation", "fftsmooth", "loan_payoff", "merton_solution",
                    "mod_merton_create_lookup")}
    peak = ctypes.CDLL(None).count_peak
    peak.restype = ctypes.c_longlong
    gc.collect()
    gc.freeze()
    resource.setrlimit(resource.RLIMIT_AS, (LIMIT, LIMIT))


class Styled:
    """A generator whose numbers come with ties, in order, with constants or with zeros."""

    STYLES = ("plain", "ties", "zeros", "constant", "sorted", "steps", "one far away")

    def __init__(self, rng, style):
        self._rng, self._style = rng, style

    def __getattr__(self, what):
        f = getattr(self._rng, what)
        if what not in ("normal", "standard_normal", "random", "uniform", "poisson"):
            return f

        def styled(*a, **k):
            x, style = f(*a, **k), self._style
            if np.ndim(x) == 0 or style == "plain":
                return x
            if style == "ties":
                x = np.round(x, 1)
            elif style == "zeros":
                x[self._rng.random(x.shape) < 0.9] = 0
            elif style == "constant":
                x[...] = x.ravel()[0]
            elif style == "sorted":
                x = np.sort(x, axis=None).reshape(x.shape)
            elif style == "steps":
                x = np.sort(np.round(x, 1), axis=None)[::-1].reshape(x.shape).copy()
            else:
                x.ravel()[self._rng.integers(x.size)] *= 1e6
            return x

        return styled


# -- routines: name -> (maker(rng, n) -> call, smallest size, doublings) ------------------------
def trades(f, later, directed):
    def make(rng, n):
        p, m, l, v, d = (100 + rng.normal(size=n), 100 + rng.normal(size=n), 100 + rng.normal(size=n), rng.integers(1, 99, n) * 1.0,
                         rng.choice([-1.0, 1.0], n))
        args = ([p, l, m, v] if later else [p, m, v]) + ([d] if directed else [])
        pct = bool(rng.integers(2))
        return lambda: f()(*args, pct_spread=pct)

    return make


def quotes(what):
    def make(rng, n):
        s, p, m = rng.random((n, 5)) + 1, 101 + np.cumsum(rng.random((n, 5)), 1), np.full(n, 100.0)
        t = rng.random((n, 5)) + 1
        return {"ask": lambda: S.DGGW_ask_slope(s, p[:, 4], m), "bid": lambda: S.DGGW_bid_slope(s, 200 - p[:, 4], m),
                "side": lambda: S.DGGW_ask_side_slope_difference(s, p), "depth": lambda: S.DGGW_scaled_depth_difference(s, t)}[what]

    return make


def levels(rng, n):
    s, p, m = rng.random((50, n)) + 1, 101 + rng.random(50), np.full(50, 100.0)
    return lambda: S.DGGW_ask_slope(s, p, m)


def mes(rng, n):
    o = M.MarginalExpectedShortfall(rng.normal(size=n), rng.normal(size=n))
    return lambda: o.estimate(0.3)


def ses(rng, n):
    o = M.SystemicExpectedShortfall(rng.random(n), rng.random(n), rng.random(n), 0.1, 9.0)
    return o.estimate


def kyle(rng, n):
    r, v = rng.normal(size=n), rng.normal(size=n) * 1e6
    return lambda: M.kyle_lambda(r, v)


def zscore(rng, n):
    r = rng.normal(size=n)
    return lambda: M.z_score(0.02, 0.1, r)


def bls(rng, n):
    s, k = rng.uniform(50, 150, (2, n))
    return lambda: M.blsprice(s, k, 0.02, 1.0, 0.3, 0.01)


def pin(form):
    def make(rng, n):
        o = M.PIN(rng.poisson(30, n), rng.poisson(40, n))
        p = np.array([0.3, 0.5, 20.0, 30.0, 30.0])
        return lambda: getattr(o, "loglikelihood_" + form)(p)

    return make


def absorption(rng, n):
    x = rng.standard_normal((6, n))
    return lambda: M.AbsorptionRatio(x).estimate(0.5)


def dip_returns(rng, n):
    o = M.DistressInsurancePremium(np.full(4, 0.1), np.eye(4) * 0.6 + 0.4)
    return lambda: o.estimate(n_simulated_returns=n, n_simulations=50)


def dip_losses(rng, n):
    o = M.DistressInsurancePremium(np.full(4, 0.1), np.eye(4) * 0.6 + 0.4)
    return lambda: o.estimate(n_simulated_returns=500, n_simulations=n)


def variance(model, what):
    def make(rng, n):
        x = rng.standard_normal(n) * 1.3
        cls = getattr(A, model)
        vb = cls.variance_bounds(x)
        p = [0.1, 0.1, 0.8] if model == "GARCHModel" else [0.1, 0.05, 0.1, 0.8]
        return {"variance": lambda: cls.compute_variance(p, x, 1.0, vb), "ewma": lambda: cls.ewma(x, 1.0, 0.94),
                "bounds": lambda: cls.variance_bounds(x), "backcast": lambda: cls.backcast(x),
                "likelihood": lambda: cls.loglikelihood(x, vb[:, 1])}[what]

    return make


def fit(model):
    def make(rng, n):
        x = gen.returns_pct(rng, n, gjr=True)[0]
        return lambda: getattr(A, model)(x).fit()

    return make


def correlations(model):
    def make(rng, n):
        m = getattr(A, model)(rng.standard_normal(n), rng.standard_normal(n))
        for k in (m.model1, m.model2):
            k.resids, k.sigma2, k.estimation_success = k.returns.copy(), np.full(n, 1.1), True
        # the estimate of the margins is not what is measured
        m.model1.fit = m.model2.fit = lambda: None
        return lambda: m.conditional_correlations(0.05, 0.9)

    return make


_LR = {}


def lrmes(rng, S, h):
    if not _LR:
        g = np.random.default_rng(7)
        while not _LR:
            x, y, _, _ = gen.pair_pct(g, 400, rho=0.5, gjr=True)
            o = M.LongRunMarginalExpectedShortfall(np.expm1(x / 100), np.expm1(y / 100))
            try:
                o.estimate(h=2, S=5, C=-0.001)
                # the estimation is not what is measured
                o.dcc_model.fit = lambda: o.dcc_model.parameters
                _LR["o"] = o
            except RuntimeError:
                pass
    return lambda: _LR["o"].estimate(h=h, S=S, C=-0.01)


def srisk(rng, n):
    x, y, _, _ = gen.pair_pct(rng, 250, rho=0.5, gjr=True)
    x, y = np.expm1(x / 100), np.expm1(y / 100)
    W, D = np.full(2, 10.0), np.full(2, 90.0)
    F = np.column_stack([x, 0.5 * x + 0.5 * y])

    def call():
        try:
            M.SRISK(F, y, W, D).estimate(lrmes_h=4, lrmes_S=n, lrmes_C=-0.01)
        except RuntimeError:
            pass

    return call


def forest(rows, cols=2, trees=20, size=64, text=False):
    def make(rng, n):
        z = dict(rows=rows, cols=cols, trees=trees, size=size)
        k = next(k for k, v in z.items() if v is None) if None in z.values() else None
        if k:
            z[k] = n
        else:  # rows and trees together
            z["rows"], z["trees"] = rows * n, trees * n
        df = pd.DataFrame(rng.standard_normal((z["rows"], z["cols"])), columns=[f"c{j}" for j in range(z["cols"])])
        if text:
            df["s"] = rng.choice(np.array(list("abcdef"), dtype=object), z["rows"])
        return lambda: scores(df, forest_size=z["trees"], tree_size=z["size"])

    return make


def smooth(rng, n):
    x = rng.random(n)
    return lambda: MM["fftsmooth"](x, n // 8)


def payoff(rng, n):
    f = rng.standard_normal(n)
    return lambda: MM["loan_payoff"](0.9, f, 0.1, 0.5, 0.2, 5.0)


PAR = [0.01, 10, 0.7, 5.0, 0.65, 0.5, 0.66, 0.2, 0.005, 0.002, 0.5]


def bank(what, over):
    def make(rng, n):
        sims, G = (n, 4) if over == "paths" else (100, n)
        fs = np.linspace(-1, 1, G).reshape(-1, 1)
        return lambda: MM[what](fs, list(PAR), 10, sims)

    return make


def table(rng, n):
    g = np.meshgrid(np.linspace(-1, 1, 4), [0.2], np.linspace(0.0, 0.05, n), [0.7], indexing="ij")
    return lambda: MM["mod_merton_create_lookup"](0.005, 0.002, 10, 5.0, 0.65, 0.5, 0.66, g[0], g[2], g[3], g[1], 10, 60)


def stocks(rng, n):
    import frds.datasets as d

    return lambda: [d.StockReturns.stocks_us for _ in range(n)]


# name -> (maker, smallest size, doublings, also judge the work)
T = {
    "quoted spread": (lambda rng, n: (lambda a, b: lambda: SP.quoted_spread(a, b))(rng.random(n) + 99, rng.random(n) + 100), 4000, 6, True),
    "effective spread": (trades(lambda: SP.effective_spread, False, False), 4000, 6, True),
    "effective spread, directions": (trades(lambda: SP.effective_spread, False, True), 4000, 6, True),
    "realized spread": (trades(lambda: SP.realized_spread, True, False), 4000, 6, True),
    "realized spread, directions": (trades(lambda: SP.realized_spread, True, True), 4000, 6, True),
    "price impact": (trades(lambda: PI.simple_price_impact, True, False), 4000, 6, True),
    "price impact, directions": (trades(lambda: PI.simple_price_impact, True, True), 4000, 6, True),
    "ask slope": (quotes("ask"), 4000, 5, True), "bid slope": (quotes("bid"), 4000, 5, True),
    "slope difference": (quotes("side"), 4000, 5, True), "depth difference": (quotes("depth"), 4000, 5, True),
    "levels of a book": (levels, 100, 6, True),
    "MES": (mes, 4000, 5, True), "SES": (ses, 2000, 5, True), "Kyle's lambda": (kyle, 4000, 5, True), "Z-score": (zscore, 8000, 6, True),
    "option prices": (bls, 4000, 5, True), "PIN likelihood 2010": (pin("EHO2010"), 2000, 6, True),
    "PIN likelihood 2011": (pin("LK2011"), 2000, 6, True), "absorption ratio": (absorption, 4000, 5, True),
    "DIP returns": (dip_returns, 4000, 5, True), "DIP losses": (dip_losses, 1000, 7, True),
    **{f"{m} {w}": (variance(m, w), 4000, 5, True) for m in ("GARCHModel", "GJRGARCHModel")
       for w in ("variance", "ewma", "bounds", "backcast", "likelihood")},
    **{f"{m} fit": (fit(m), 200, 4, False) for m in ("GARCHModel", "GJRGARCHModel")},
    **{f"{m} correlations": (correlations(m), 4000, 5, True) for m in ("GARCHModel_DCC", "GJRGARCHModel_DCC")},
    "LRMES paths": (lambda rng, n: lrmes(rng, n, 5), 500, 6, True), "LRMES days": (lambda rng, n: lrmes(rng, 20, n), 128, 7, True),
    "LRMES days of one path": (lambda rng, n: lrmes(rng, 1, n), 1000, 6, True),
    "SRISK paths": (srisk, 2000, 4, False),
    "forest rows": (forest(None), 2000, 5, True), "forest rows with text": (forest(None, text=True), 2000, 4, True),
    "forest columns": (forest(2000, cols=None), 4, 5, True), "forest trees": (forest(2000, trees=None), 16, 5, True),
    "forest tree size": (forest(9000, size=None), 32, 6, True),
    "fftsmooth": (smooth, 6000, 5, True), "loan payoff": (payoff, 4000, 5, True),
    "bank cohorts, paths": (bank("mod_merton_computation", "paths"), 200, 5, True),
    "bank cohorts, factors": (bank("mod_merton_computation", "factors"), 8, 5, True),
    "one cohort, paths": (bank("mod_single_cohort_computation", "paths"), 400, 5, True),
    "one cohort, factors": (bank("mod_single_cohort_computation", "factors"), 8, 5, True),
    "lookup table": (table, 2, 4, False), "reads of the stocks": (stocks, 2, 5, False),
}
NAMES = sorted(T)
LIMIT = 6 << 30  # bytes of address space of a process
SMALL = 96 * 1024  # a call's fixed costs: warnings, caches of the interpreter, threads


def measure(f, work):
    """Peak of live bytes during a call above those before it, and CPU seconds."""
    gc.collect()
    peak()
    r = f()
    p = peak()
    del r
    t = math.inf
    if work:
        spent = 0.0
        for _ in range(7):
            t0 = time.process_time()
            f()
            dt = time.process_time() - t0
            t, spent = min(t, dt), spent + dt
            if spent > 1.5:
                break
    return p, t


@workload(quick=3 * len(NAMES), thorough=21 * len(NAMES))
def growth(mon, rng, i):
    name = NAMES[i % len(NAMES)]
    make, n0, doublings, work = T[name]
    if mon.tier == "thorough":
        doublings += 1 + i // len(NAMES) % 2
    if n0 >= 100 and not name.startswith(("bank", "one cohort", "table")):
        n0 = 16 * int(n0 * rng.uniform(1, 1.5) / 16)
    sizes = [n0 << k for k in range(doublings)]
    style = Styled.STYLES[int(i // len(NAMES) and rng.integers(1, len(Styled.STYLES)))]
    if name.endswith(" fit") or name.startswith(("LRMES", "SRISK")):
        style = "plain"  # what is estimated from must be estimable
    rng = Styled(rng, style)
    warm = make(rng, n0)
    for _ in range(2):
        warm()
    peaks, times = [], []
    for n in sizes:
        try:
            p, t = measure(make(rng, n), work)
        except MemoryError:
            mon.check(False, f"memory grows faster than the data: {name}", sizes=sizes, peaks=peaks, stopped="at %d bytes" % LIMIT)
            return
        peaks.append(p)
        times.append(t)
        mon.count("calls measured")
        # far beyond what is allowed below: no need to go on
        if p > 4 * n / n0 * (peaks[0] + SMALL) or (work and t > 0.5 and t > 12 * n / n0 * max(times[0], 5e-5)):
            break
    sizes = sizes[: len(peaks)]
    if len(sizes) < 3:  # impossible without growth of the kind judged below
        mon.check(False, f"grows faster than the data: {name}", sizes=sizes, peaks=peaks, cpu=times)
        return
    mon.count("data: " + style)
    mon.describe(routine=name, data=style, sizes=sizes, peak_bytes=peaks, cpu_ms=[round(1e3 * t, 3) for t in times] if work else None)
    ratio = sizes[-1] / sizes[0]
    mon.check(peaks[-1] > 0, "the allocator saw nothing", peaks=peaks)
    # the last two doublings, where fixed costs matter least: times 4 in size, at most times 6 in memory (squares: 16)
    mon.check(peaks[-1] <= 6 * (peaks[-3] + SMALL), f"memory grows faster than the data: {name}", sizes=sizes, peaks=peaks)
    mon.check(peaks[-1] <= 1.5 * ratio * (peaks[0] + SMALL), f"memory grows faster than the data: {name}", sizes=sizes, peaks=peaks)
    mon.count("growth of memory judged")
    if work and times[-1] > 2e-4:
        most = ratio * (12 if name == "fftsmooth" else 6)  # transforms of some lengths are dearer
        for _ in range(3):  # something else may have had the processor, and its caches
            if times[-1] <= most * max(times[0], 5e-5) or times[-1] > 3.0:
                break
            for k in (0, -1):
                times[k] = (max, min)[k](times[k], measure(make(rng, sizes[k]), True)[1])
        mon.check(times[-1] <= most * max(times[0], 5e-5), f"work grows faster than the data: {name}", sizes=sizes, cpu=times)
        mon.count("growth of work judged")
    mon.seen(name, style, sizes[0], peaks[-1] > peaks[0])


BOTH = {"rows and trees": (1000, 8), "rows and trees, many": (500, 16)}


@workload(quick=4, thorough=24)
def products(mon, rng, i):
    """Rows and trees together: the forest keeps no copy of the data for each tree."""
    r, t = list(BOTH.values())[i % 2]
    make = forest(r, trees=t)
    make(rng, 1)()
    peaks = [measure(make(rng, n), False)[0] for n in (2, 4, 8)]
    mon.describe(rows=r, trees=t, peaks=peaks)
    mon.count("calls measured", 3)
    mon.check(peaks[2] <= 6 * (peaks[0] + SMALL), "memory grows with rows times trees", peaks=peaks)
    mon.seen(r, t, peaks)


@workload(quick=4, thorough=24)
def paths(mon, rng, i):
    """Paths and days together: the sample itself grows with both, nothing grows faster."""
    peaks = [measure(lrmes(rng, 500 * k, 4 * k), False)[0] for k in (1, 2, 4)]
    mon.describe(peaks=peaks)
    mon.count("calls measured", 3)
    mon.check(peaks[2] <= 1.5 * 16 * (peaks[0] + SMALL), "memory grows faster than paths times days", peaks=peaks)
    mon.seen(peaks)


@workload(quick=6, thorough=40)
def amounts(mon, rng, i):
    """Bytes held at the peak, in units of the data."""
    name, make, n, data, most = [
        ("forest rows", forest(None), 40000, 40000 * 8 * 3, 12), ("GARCH variance", variance("GARCHModel", "variance"), 200000, 200000 * 8, 3),
        ("MES", mes, 200000, 200000 * 8, 12), ("effective spread", trades(lambda: SP.effective_spread, False, True), 100000, 100000 * 8 * 4, 6),
        ("correlations", correlations("GJRGARCHModel_DCC"), 100000, 100000 * 8, 12), ("PIN", pin("EHO2010"), 100000, 100000 * 16, 20)][i % 6]
    f = make(rng, n)
    f()
    p, _ = measure(f, False)
    mon.describe(routine=name, size=n, peak=p, in_units_of_the_data=round(p / data, 2))
    mon.count("calls measured")
    mon.check(p <= most * data, f"a call holds many copies of the data: {name}", peak=p, data=data)
    mon.seen(name, n, rng.random())


def env(run):
    so = os.path.join(run.scratch, "count.so")
    src = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "native", "count.c")
    subprocess.run(["gcc", "-O1", "-fPIC", "-fno-builtin", "-shared", "-pthread", "-o", so, src], check=True)
    return dict(LD_PRELOAD=so, PYTHONMALLOC="malloc")


def orchestrate(run):
    e = env(run)
    run.wait([run.start("c30", shard=k, shards=6, env=e) for k in range(6)])


def replay(run, rep):
    run.wait([run.start("c30", env=env(run), replay=[[rep["workload"], rep["case"]]])])
