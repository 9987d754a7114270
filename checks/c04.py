"""C04: variance recursions against a scalar reference on recorded calls."""
import math

import numpy as np
from lib import gen, ref
from lib.mon import workload

RULE = """Residual series of lengths 1..70,000 (normal, heavy-tailed, GARCH, zero runs,
one huge outlier, integers) at scales 1e-12..1e8, with parameters that are admissible,
zero, explosive or negative and bounds from the model or made to bind; every memory
layout and several element types. Non-trivial: a recursion of at least two days whose
residuals are not all zero, counted once per (series, parameters, bounds)."""
ASSUMPTIONS = ["IEEE doubles; results compared to 1e-9 relative (1e-5 for single precision input)"]
MIN_DISTINCT = 50
MIN_OBSERVED = {"upper bound engaged": 5, "lower bound engaged": 5, "layouts compared": 50}

LENGTHS = [1, 2, 3, 5, 10, 40, 74, 75, 76, 77, 150, 300]


def setup(mon):
    global GARCHModel, GJRGARCHModel
    from frds.algorithms import GARCHModel, GJRGARCHModel


def series(rng, T):
    kind = rng.integers(0, 9)
    scale = float(rng.choice([1e-12, 1e-9, 1e-6, 1e-3, 1e-2, 1, 1, 1, 5, 1e3, 1e8]))
    if kind == 0:
        x = rng.standard_t(2.1, T)
    elif kind == 1:
        x = gen.garch_path(rng, T, 0, 0.05, 0.1, 0.85, burn=50)
    elif kind == 2:
        x = rng.standard_normal(T) * (rng.random(T) < 0.3)
    elif kind == 3:
        x = rng.standard_normal(T)
        x[rng.integers(0, T)] = 1e5
    elif kind == 4:
        x = -np.abs(rng.standard_normal(T))
    elif kind == 5:
        x = np.where(np.arange(T) % 2, 1.0, -1.0)
    elif kind == 6:
        x = np.round(rng.standard_normal(T) * 3)
        scale = 1.0
    elif kind == 7:
        x = np.full(T, 0.7) if T < 3 or rng.random() < 0.3 else np.abs(rng.standard_normal(T))
    else:
        x = rng.standard_normal(T)
    if rng.random() < 0.2:
        x[rng.integers(0, T)] = -0.0
    return x * scale, scale


def length(mon, rng, i):
    if i % 37 == 5:
        return int(rng.integers(2000, 6000)) if rng.random() < 0.9 else 70_000
    return int(LENGTHS[i % len(LENGTHS)]) if i % 2 else int(rng.integers(1, 400))


def parameters(rng, gjr, scale):
    kind = rng.integers(0, 7)
    var = scale**2
    n = 4 if gjr else 3
    if kind <= 2:  # admissible
        al, ga = rng.uniform(0, 0.3), rng.uniform(0, 0.3)
        be = rng.uniform(0, max(0, 1 - al - (ga / 2 if gjr else 0)))
        p = [max(1e-6 if kind == 2 else 0.0, var * rng.uniform(0.01, 1)), al, ga, be]
    elif kind == 3:  # explosive
        p = [var, rng.uniform(1, 50), rng.uniform(0, 50), rng.uniform(1, 30)]
    elif kind == 4:  # vanishing
        p = [0.0, 0.0, 0.0, rng.choice([0.0, 1.0, 0.5])]
    elif kind == 5:  # what an optimiser may try
        p = [var * rng.normal(), rng.normal() * 0.3, rng.normal() * 0.3, rng.normal()]
    else:
        p = [1e-6, rng.choice([0.0, 1e-6, 1.0]), rng.choice([0.0, 1.0]), rng.choice([0.0, 1e-6, 1.0])]
    p = [float(v) for v in p]
    if not gjr:
        p = [p[0], p[1], p[3]]
    assert len(p) == n
    return p, kind <= 2 or kind == 6


def make_bounds(rng, r):
    kind = rng.integers(0, 5)
    if kind <= 1:
        return np.array(ref.variance_bounds(r)), "model"
    s = np.mean(r**2) + 1e-300
    lo = s * gen.log_uniform(rng, 1e-3, 3, len(r))
    hi = lo * gen.log_uniform(rng, 1, 100, len(r))
    if kind == 3:
        hi[:] = np.inf
    if kind == 4:
        lo[:] = 0
    return np.column_stack([lo, hi]), "binding"


@workload(quick=520, thorough=6000)
def recursion(mon, rng, i):
    gjr = bool(i % 2)
    cls, rf = (GJRGARCHModel, ref.gjr_variance) if gjr else (GARCHModel, ref.garch_variance)
    T = length(mon, rng, i // 2)
    r, scale = series(rng, T)
    p, admissible = parameters(rng, gjr, scale)
    vb, which = make_bounds(rng, r)
    bc = float(ref.backcast(r)) * float(rng.choice([1, 1, 0, 10]))
    mon.describe(gjr=gjr, T=T, scale=scale, params=p, bounds=which, backcast=bc, head=r[:5])
    snap = gen.snapshot(r, vb)
    got = cls.compute_variance(p, r, bc, vb)
    want = rf(p, r, bc, vb)
    mon.check(isinstance(got, np.ndarray) and got.dtype == np.float64 and got.shape == (T,), "shape of the variances")
    # cancellation is possible for negative parameters: rounding is relative to the terms
    mag = np.concatenate([[abs(p[0]) + bc], abs(p[0]) + (abs(p[1]) + (abs(p[2]) if gjr else 0)) * r[:-1] ** 2 + abs(p[-1]) * np.abs(want[:-1])])
    neg = min(p) < 0
    with np.errstate(all="ignore"):
        tol = 1e-9 * np.abs(want) + (1e-9 * np.maximum.accumulate(mag) if neg else 0)
        ok = (got == want) | (np.abs(got - want) <= tol)
    mon.check(ok, "variance recursion", "compute_variance differs from the definition",
              t=int(np.argmin(ok)), got=float(got[np.argmin(ok)]), want=float(want[np.argmin(ok)]))
    mon.check(gen.snapshot(r, vb) == snap, "inputs modified")
    if T > 1:
        raw = p[0] + p[1] * r[:-1] ** 2 + p[-1] * want[:-1]
        mon.count("upper bound engaged", int(np.any(want[1:] > vb[1:, 1])))
        mon.count("lower bound engaged", int(np.any((want[1:] == vb[1:, 0]) & (raw <= vb[1:, 0]))))
        if np.any(r):
            mon.seen(gjr, p, r, which)
    if which == "model" and admissible and np.ptp(r) > 0:
        mon.check(np.isfinite(got).all() and (got > 0).all(), "positive finite variances")
        mon.count("positivity checked")
    # a caller may hold the parameters in any container
    for alt in (tuple(p), np.array(p), [np.float64(v) for v in p], np.array(p)[::-1].copy()[::-1]):
        mon.check(np.array_equal(cls.compute_variance(alt, r, bc, vb), got, equal_nan=True), "parameter container")


@workload(quick=220, thorough=2500)
def layout(mon, rng, i):
    """Layout, element type and history do not matter."""
    gjr = bool(i % 2)
    cls, rf = (GJRGARCHModel, ref.gjr_variance) if gjr else (GARCHModel, ref.garch_variance)
    T = int(rng.integers(1, 130))
    r, scale = series(rng, T)
    p, _ = parameters(rng, gjr, scale)
    p = [abs(v) for v in p]
    vb, which = make_bounds(rng, r)
    bc = float(ref.backcast(r))
    mon.describe(gjr=gjr, T=T, params=p, bounds=which)
    base = cls.compute_variance(p, r, bc, vb)
    mon.close(base, rf(p, r, bc, vb), "variance recursion")
    lr, lb = gen.layouts(r), gen.layouts(vb)
    for k, x in lr.items():
        mon.check(np.array_equal(cls.compute_variance(p, x, bc, vb), base), "layout of residuals", k)
        mon.count("layouts compared")
    for k, x in lb.items():
        mon.check(np.array_equal(cls.compute_variance(p, r, bc, x), base), "layout of bounds", k)
        mon.count("layouts compared")
    k1, k2 = rng.choice(list(lr)), rng.choice(list(lb))
    mon.check(np.array_equal(cls.compute_variance(p, lr[k1], bc, lb[k2]), base), "layout", f"{k1}/{k2}")
    # longer bounds than needed are allowed by the recursion
    longer = np.vstack([vb, vb[-1:] * 3])
    mon.check(np.array_equal(cls.compute_variance(p, r, bc, longer), base), "longer bounds")
    f32 = r.astype(np.float32)
    mon.close(cls.compute_variance(p, f32, bc, vb), rf(p, f32, bc, vb), "single precision residuals", rtol=1e-5)
    ints = np.clip(np.round(r / (scale or 1) * 3), -1e6, 1e6).astype(rng.choice(["int64", "int32", "int16"]) if abs(r / scale).max() < 1e4 else "int64")
    vbi, bci = ref.variance_bounds(ints), ref.backcast(ints)
    mon.close(cls.compute_variance(p, ints, bci, vbi), rf(p, ints, bci, vbi), "integer residuals")
    lam = float(rng.choice([0.94, 0.94, 0.0, 1.0, 0.5, 0.999]))
    v0 = float(rng.uniform(0, 3)) * scale**2
    eb = cls.ewma(r, v0, lam)
    mon.close(eb, ref.ewma(r, v0, lam), "ewma")
    for k, x in lr.items():
        mon.check(np.array_equal(cls.ewma(x, v0, lam), eb), "layout of ewma residuals", k)
        mon.close(cls.backcast(x), ref.backcast(r), "backcast", rtol=1e-9)
        mon.close(cls.variance_bounds(x), ref.variance_bounds(r), "variance bounds", rtol=1e-8)
    mon.close(cls.ewma(ints, v0, lam), ref.ewma(ints, v0, lam), "ewma of integers")
    # nothing above left a trace
    mon.check(np.array_equal(cls.compute_variance(p, r, bc, vb), base), "history")
    mon.seen(gjr, r, p)


@workload(quick=300, thorough=3000)
def smoothing(mon, rng, i):
    """EWMA, backcast value, variance bounds."""
    cls = GJRGARCHModel if i % 3 == 0 else GARCHModel
    T = length(mon, rng, i)
    r, scale = series(rng, T)
    snap = gen.snapshot(r)
    mon.describe(T=T, scale=scale, head=r[:5])
    lam = float(rng.uniform(0, 1))
    v0 = float(rng.uniform(0, 3)) * scale**2
    mon.close(cls.ewma(r, v0, lam), ref.ewma(r, v0, lam), "ewma")
    mon.close(cls.ewma(r, v0), ref.ewma(r, v0, 0.94), "ewma default decay")
    mon.close(cls.ewma(r, v0, lam=lam), ref.ewma(r, v0, lam), "ewma keyword")
    bc = cls.backcast(r)
    mon.check(isinstance(bc, float), "backcast is a float")
    mon.close(bc, ref.backcast(r), "backcast", rtol=1e-10, atol=0)
    vb = cls.variance_bounds(r)
    mon.check(vb.shape == (T, 2), "shape of bounds")
    mon.close(vb, ref.variance_bounds(r), "variance bounds", rtol=1e-7, atol=1e-18 * scale**2)
    mon.check(gen.snapshot(r) == snap, "inputs modified")
    if T > 1 and np.any(r):
        mon.seen(r, lam)
    if T > 75:
        # the backcast looks at the first 75 days only
        r2 = r.copy()
        r2[75:] *= 3
        mon.check(cls.backcast(r2) == bc, "backcast window")


@workload(quick=600, thorough=6000)
def bounding(mon, rng, i):
    cls = GJRGARCHModel if i % 2 else GARCHModel
    lo = float(gen.log_uniform(rng, 1e-12, 1e6))
    hi = lo * float(rng.choice([1.0, 1 + 1e-12, 2.0, 1e6, 1e12]))
    for s in [lo, hi, lo * 0.999, hi * 1.001, hi * 1e9, -lo, 0.0, np.inf, -np.inf, 1e308,
              np.nextafter(lo, 0), np.nextafter(hi, np.inf), float(gen.log_uniform(rng, lo / 2, hi * 2))]:
        b = np.array([lo, hi])
        got = cls.bounds_check(s, b)
        # log(s / hi) may as well be log(s) - log(hi)
        atol = 1e-15 * (1 + abs(np.log(s)) + abs(np.log(hi))) if np.isfinite(s) and s > hi else 0
        mon.close(got, ref.bound(s, lo, hi), "bounds_check", rtol=1e-12, atol=atol, sigma2=s, lo=lo, hi=hi)
        mon.check(b[0] == lo and b[1] == hi, "inputs modified")
    m = np.full((3, 5), np.nan)
    m[1, ::4] = lo, hi
    mon.close(cls.bounds_check(hi * 3, m[1, ::4]), ref.bound(hi * 3, lo, hi), "bounds_check layout")
    mon.close(cls.bounds_check(hi * 3, np.array([lo, hi], dtype=">f8")), ref.bound(hi * 3, lo, hi), "bounds_check layout")
    mon.describe(lo=lo, hi=hi)
    mon.seen(lo, hi)
    mon.count("bound adjustments", 15)


@workload(quick=300, thorough=3000)
def forecast(mon, rng, i):
    T = length(mon, rng, i)
    r, scale = series(rng, T)
    p, _ = parameters(rng, True, scale)
    p = [abs(v) for v in p]
    if max(p[1:]) > 1:
        r, T = r[:20], min(T, 20)
    v0 = float(rng.uniform(0, 2)) * scale**2
    P = GJRGARCHModel.Parameters(mu=rng.normal(), omega=p[0], alpha=p[1], gamma=p[2], beta=p[3], loglikelihood=rng.normal())
    mon.describe(T=T, params=p, v0=v0)
    snap = gen.snapshot(r)
    want = ref.gjr_forecast(*p, r, v0)
    got = GJRGARCHModel.forecast_variance(P, r, v0)
    mon.close(got, want, "variance forecast")
    mon.check(gen.snapshot(r) == snap, "inputs modified")
    lay = gen.layouts(r)
    k = rng.choice(list(lay))
    mon.close(GJRGARCHModel.forecast_variance(P, lay[k], v0), want, "variance forecast layout", message=k)
    ints = np.clip(np.round(r / scale * 3), -1e6, 1e6).astype(np.int64)
    mon.close(GJRGARCHModel.forecast_variance(P, ints, v0), ref.gjr_forecast(*p, ints, v0), "variance forecast of integers")
    if T > 1 and np.any(r):
        mon.seen(r, p)
        mon.count("days forecast", T - 1)
