"""C15: contingent claim analysis against the Merton equations."""
import math

import numpy as np
from lib import gen
from lib.mon import workload

RULE = """Firms over realistic ranges: equity and barrier over twelve orders of magnitude with
leverage 0.02 to 60, equity volatility 0.05 to 1.5, rates -3% to 15%, maturities 0.1 to 10
years, spreads 0 to 20,000 bp, and firms far outside these ranges. The returned put is (a) tested against both equations with
the asset value recovered by parity and (b) compared with a nested bisection solution.
Non-trivial: a put worth more than 1e-9 of the firm."""
ASSUMPTIONS = ["the Merton system has one solution with positive asset value and volatility",
               "accuracy expected of the solver: 1e-6 of equity plus discounted barrier"]
MIN_DISTINCT = 60
MIN_OBSERVED = {"solved": 150, "material puts": 60, "firms outside realistic ranges": 300}


def setup(mon):
    global CCA
    from frds.measures import ContingentClaimAnalysis as CCA


def Phi(x):
    return 0.5 * math.erfc(-x / math.sqrt(2))


def d12(A, s, r, D, t):
    d1 = (math.log(A / D) + (r + s * s / 2) * t) / (s * math.sqrt(t))
    return d1, d1 - s * math.sqrt(t)


def call(A, s, r, D, t):
    d1, d2 = d12(A, s, r, D, t)
    return A * Phi(d1) - D * math.exp(-r * t) * Phi(d2)


def put(A, s, r, D, t):
    d1, d2 = d12(A, s, r, D, t)
    return D * math.exp(-r * t) * Phi(-d2) - A * Phi(-d1)


def asset_value(E, s, r, D, t):
    """A with call(A) = E: increasing in A."""
    lo, hi = E, E + D * math.exp(-r * t)
    for _ in range(200):
        m = 0.5 * (lo + hi)
        if call(m, s, r, D, t) < E:
            lo = m
        else:
            hi = m
    return 0.5 * (lo + hi)


def solve(E, vol, r, D, t):
    """Asset value and volatility; bisection on the volatility."""

    def f(s):
        A = asset_value(E, s, r, D, t)
        return A * s * Phi(d12(A, s, r, D, t)[0]) - E * vol, A

    lo, hi = 1e-9 * vol, vol * 1.0000001
    if f(hi)[0] < 0:
        return None
    for _ in range(120):
        m = 0.5 * (lo + hi)
        if f(m)[0] < 0:
            lo = m
        else:
            hi = m
    s = 0.5 * (lo + hi)
    return asset_value(E, s, r, D, t), s


def firm(rng):
    E = float(gen.log_uniform(rng, 1e-3, 1e9))
    D = E * float(gen.log_uniform(rng, 0.02, 60))
    vol = float(gen.log_uniform(rng, 0.05, 1.5))
    r = float(rng.choice([0.0, 0.05, rng.uniform(-0.03, 0.15)]))
    t = float(rng.choice([1.0, 5.0, gen.log_uniform(rng, 0.1, 10)]))
    cds = float(rng.choice([0.0, 1.22, rng.uniform(0, 300), rng.uniform(300, 2000), gen.log_uniform(rng, 2e3, 2e4)]))
    return E, vol, r, D, t, cds


def cds_put(D, r, t, cds, p):
    B = D * math.exp(-r * t)
    debt = B - p
    return (1 - math.exp(-(cds / 10000) * (D / debt - 1) * t)) * B


def estimate(mon, *a):
    try:
        p, c = CCA.estimate(*a)
    except Exception as e:
        # told that there is no solution: an ordinary exception
        # (none is expected for the firms generated here)
        mon.count("refused with " + type(e).__name__)
        mon.check(False, "no solution found for a realistic firm", error=repr(e), arguments=a)
        return None
    return float(p), float(c)


@workload(quick=572, thorough=12000)
def system(mon, rng, i):
    E, vol, r, D, t, cds = firm(rng)
    mon.describe(equity=E, volatility=vol, rate=r, barrier=D, maturity=t, spread=cds)
    ref = solve(E, vol, r, D, t)
    got = estimate(mon, E, vol, r, D, t, cds)
    B = D * math.exp(-r * t)
    size = E + B
    if got is None:
        mon.skip("no solution reported")
    p, contrib = got
    mon.count("solved")
    mon.require(math.isfinite(p) and math.isfinite(contrib), "finite results", got=got)
    mon.check(-1e-9 * size <= p <= B * (1 + 1e-9), "put within its bounds", got=p, discounted_barrier=B)
    if ref is None:
        mon.skip("no reference solution")
    A, s = ref
    want = put(A, s, r, D, t)
    mon.close(p, want, "put price of the Merton solution", rtol=1e-6, atol=1e-7 * size, asset=A, asset_vol=s)
    # both equations at the asset value the returned put implies
    A2 = E + B - p
    s2 = s
    mon.close(A2 * s2 * Phi(d12(A2, s2, r, D, t)[0]), E * vol, "volatility equation", rtol=1e-5, atol=1e-7 * size)
    if B - p > 1e-3 * B:
        w = p - cds_put(D, r, t, cds, p)
        mon.close(contrib, w, "put less the CDS put", rtol=1e-9, atol=1e-9 * size)
        if B - p <= D:
            mon.check(contrib <= p + 1e-12 * size, "contribution above the put", got=got)
    if p > 1e-9 * size:
        mon.count("material puts")
        mon.seen(p / size)


@workload(quick=264, thorough=5000)
def consequences(mon, rng, i):
    E, vol, r, D, t, cds = firm(rng)
    mon.describe(equity=E, volatility=vol, rate=r, barrier=D, maturity=t, spread=cds)
    got = estimate(mon, E, vol, r, D, t, cds)
    if got is None:
        mon.skip("no solution reported")
    mon.count("solved")
    p, c = got
    B = D * math.exp(-r * t)
    size = E + B
    mon.check(estimate(mon, E, vol, r, D, t, cds) == got, "same call, different result")
    z = estimate(mon, E, vol, r, D, t, 0.0)
    mon.require(z is not None, "spread changes solvability")
    mon.close(z[1], z[0], "zero spread", rtol=0, atol=1e-12 * size)
    mon.close(z[0], p, "put depends on the spread", rtol=1e-12, atol=0)
    last = math.inf
    for spread in sorted([0.0, 1.0, 50.0, float(rng.uniform(0, 500)), 1000.0, 6000.0, 15000.0]):
        v = estimate(mon, E, vol, r, D, t, spread)
        mon.require(v is not None, "spread changes solvability")
        if B - p > D:
            break  # negative rates: the debt trades above par
        mon.check(v[1] <= last + 1e-12 * size, "contribution rises with the spread", spread=spread)
        last = v[1]
    k = float(rng.choice([1e-3, 7.0, 1e6]))
    v = estimate(mon, E * k, vol, r, D * k, t, cds)
    if v is None:
        mon.skip("scaled firm not solved")
    mon.close(v[0], p * k, "scaling of the put", rtol=1e-6, atol=2e-7 * size * k)
    if B - p > 1e-3 * B:
        mon.close(v[1], c * k, "scaling of the contribution", rtol=1e-5, atol=1e-6 * size * k)
    if p > 1e-9 * size:
        mon.count("material puts")
        mon.seen(p / size)


@workload(quick=88, thorough=1500)
def round_trip(mon, rng, i):
    """From a known asset value and volatility back to its put."""
    A = float(gen.log_uniform(rng, 1e-2, 1e7))
    s = float(rng.uniform(0.02, 0.6))
    r = float(rng.uniform(-0.02, 0.12))
    t = float(rng.uniform(0.25, 8))
    D = A * float(rng.uniform(0.3, 1.6))
    E = call(A, s, r, D, t)
    if not E > 1e-4 * A:
        mon.skip("worthless equity")
    vol = A * s * Phi(d12(A, s, r, D, t)[0]) / E
    mon.describe(asset=A, asset_vol=s, rate=r, barrier=D, maturity=t)
    got = estimate(mon, E, vol, r, D, t, 100.0)
    if got is None:
        mon.skip("no solution reported")
    mon.count("solved")
    mon.close(got[0], put(A, s, r, D, t), "put price of the Merton solution", rtol=1e-6, atol=2e-7 * A)
    mon.count("material puts")
    mon.seen(got[0] / A)


@workload(quick=100, thorough=1500)
def stretched(mon, rng, i):
    """Firms far outside realistic ranges: solved, or refused where the solver cannot."""
    for j in range(10):
        E = float(gen.log_uniform(rng, 1e-3, 1e9))
        t = float(gen.log_uniform(rng, 0.01, 50))
        if j % 2:
            D = E * float(gen.log_uniform(rng, 1e-4, 1e3))
            vol = float(gen.log_uniform(rng, 0.005, 3.5 / max(1.0, math.sqrt(t))))
        else:
            D = E * float(gen.log_uniform(rng, 50, 1e4))
            vol = float(gen.log_uniform(rng, 3, 40)) / math.sqrt(t)
        r = float(rng.uniform(-0.1, 0.1))
        mon.describe(equity=E, volatility=vol, rate=r, barrier=D, maturity=t)
        B = D * math.exp(-r * t)
        size = E + B
        if j % 2:
            got = estimate(mon, E, vol, r, D, t, 100.0)
            if got is None:
                continue
            p = got[0]
        else:
            try:
                p = float(CCA.estimate(E, vol, r, D, t, 100.0)[0])
            except Exception:
                mon.count("stretched firms refused")
                continue
        mon.count("firms outside realistic ranges")
        if j % 2 == 0 or j == 9:
            ref = solve(E, vol, r, D, t)
            if ref is None:
                continue
            mon.close(p, put(*ref, r, D, t), "put price of the Merton solution", rtol=1e-5, atol=1e-6 * size, asset=ref[0], asset_vol=ref[1])
        else:
            mon.check(math.isfinite(p) and -1e-9 * size <= p <= B * (1 + 1e-9), "put within its bounds", got=p, discounted_barrier=B)
        if p > 1e-9 * size:
            mon.count("material puts")
            mon.seen(p / size)


@workload(quick=66, thorough=600)
def unsolvable(mon, rng, i):
    """Inputs without a solution: an exception, or numbers that are not presented as one."""
    E, vol, r, D, t, cds = firm(rng)
    bad = ["negative equity", "nan equity", "nan volatility", "nan rate", "negative barrier"][i % 5]
    if bad == "negative equity":
        E = -E
    elif bad == "nan equity":
        E = math.nan
    elif bad == "nan volatility":
        vol = math.nan
    elif bad == "nan rate":
        r = math.nan
    else:
        D = -D
    mon.describe(bad=bad, equity=E, volatility=vol, rate=r, barrier=D, maturity=t)
    try:
        p, c = CCA.estimate(E, vol, r, D, t, cds)
    except Exception as e:
        mon.count("unsolvable refused with " + type(e).__name__)
        mon.checks += 1
        return
    mon.check(not (math.isfinite(p) and math.isfinite(c)), "numbers returned for a firm without solution", got=[p, c])
