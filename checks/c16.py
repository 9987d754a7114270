"""C16: the distress insurance premium against an independent simulation."""
import math
from fractions import Fraction as Fr
from statistics import NormalDist

import numpy as np
from lib import gen
from lib.mon import workload

RULE = """1 to 30 banks, default probabilities from 1e-4 to 0.95 (equal, mixed, extreme), random
valid correlation matrices (identity, one-factor, near-singular, negative), thresholds in
[0, 1] with a simulation size of 200 to 20,000. Each premium is recomputed from the same
random stream by scenario accounting (no slot table), and its consequences checked.
Non-trivial: a positive premium."""
ASSUMPTIONS = ["the documented estimator draws returns then losses given default from RandomState(seed)",
               "premiums are in units of one bank's liabilities, so the maximum is the number of banks",
               "thresholds that are not whole percentages are only tested for bounds and monotonicity"]
MIN_DISTINCT = 80
MIN_OBSERVED = {"premiums": 300, "no great losses": 5, "one bank": 5}


def setup(mon):
    global DIP
    from frds.measures import DistressInsurancePremium as DIP


def correlation(rng, n):
    kind = int(rng.integers(0, 5))
    if n == 1 or kind == 0:
        return np.eye(n)
    if kind == 1:
        b = rng.uniform(-0.9, 0.95, n)
        C = np.outer(b, b)
    elif kind == 2:
        rho = float(rng.uniform(-0.9 / (n - 1), 0.95))
        C = np.full((n, n), rho)
    elif kind == 3:
        C = np.full((n, n), 0.9999)
    else:
        X = rng.normal(size=(n, n + 2))
        C = X @ X.T
        d = np.sqrt(np.diag(C))
        C = C / np.outer(d, d)
    np.fill_diagonal(C, 1.0)
    return (C + C.T) / 2


def premium_parts(pd_, corr, seed, n_sim_ret, n_sim):
    """Slot of every (number of defaults, simulation) scenario and their weights."""
    n = len(pd_)
    rng = np.random.RandomState(seed)
    cut = [NormalDist().inv_cdf(float(p)) for p in pd_]
    L = np.linalg.cholesky(corr)
    e = rng.normal(0, 1, size=(n_sim_ret, n))
    hits = np.zeros(n_sim_ret, dtype=int)
    for k in range(n):
        hits += (e[:, : k + 1] @ L[k, : k + 1]) < cut[k]
    prob = [np.count_nonzero(hits == k) / n_sim_ret for k in range(n + 1)]
    slots = []
    for k in range(1, n + 1):
        loss = rng.triangular(0.1, 0.55, 1, size=(k, n_sim)).sum(axis=0) * 100
        slots.append(np.ceil(loss))
    return prob, slots


def premium(parts, pct, n_sim):
    """sum of (slot/100) x probability over the scenarios at or above the threshold"""
    prob, slots = parts
    n = len(slots)
    tot = 0.0
    for k in range(1, n + 1):
        s = slots[k - 1]
        tot += prob[k] * float(np.sum(s[s >= pct * n])) / 100 / n_sim
    return tot


def case(rng):
    n = int(rng.choice([1, 2, 3, 4, 6, 9, 16, 30], p=[.1, .2, .2, .2, .12, .1, .05, .03]))
    kind = int(rng.integers(0, 4))
    if kind == 0:
        p = np.full(n, float(rng.uniform(0.01, 0.3)))
    elif kind == 1:
        p = rng.uniform(0.001, 0.95, n)
    elif kind == 2:
        p = gen.log_uniform(rng, 1e-4, 0.5, n)
    else:
        p = rng.choice([0.02, 0.5, 0.9], n)
    C = correlation(rng, n)
    try:
        np.linalg.cholesky(C)
    except np.linalg.LinAlgError:
        C = np.eye(n)
    return p.astype(float), C, int(rng.integers(0, 2**31)), int(rng.choice([200, 2000, 20000])), int(rng.choice([5, 50, 300]))


@workload(quick=300, thorough=6000)
def value(mon, rng, i):
    p, C, seed, R, S = case(rng)
    n = len(p)
    mon.describe(banks=n, default_prob=p, correlations=C, seed=seed, returns=R, simulations=S)
    snap = gen.snapshot(p, C)
    state = np.random.get_state()[1].tobytes()
    parts = premium_parts(p, C, seed, R, S)
    obj = DIP(p, C)
    seen = []
    for pct in sorted({15, int(rng.integers(0, 101)), int(rng.integers(0, 101)), 29, int(rng.choice([0, 57, 100]))}):
        th = pct / 100
        v = obj.estimate(default_threshold=th, random_seed=seed, n_simulated_returns=R, n_simulations=S)
        want = premium(parts, pct, S)
        mon.require(np.ndim(v) == 0 and math.isfinite(float(v)), "a finite number", got=v, threshold=th)
        mon.close(v, want, "expected great losses", rtol=1e-9, atol=1e-12, threshold=th)
        mon.check(0 <= v <= n + 1e-9, "between 0 and the number of banks", got=v)
        seen.append((th, float(v)))
        mon.count("premiums")
        if want == 0:
            mon.count("no great losses")
        if v > 0:
            mon.seen(float(v))
    mon.count("one bank", n == 1)
    for (a, x), (b, y) in zip(seen, seen[1:]):
        mon.check(y <= x * (1 + 1e-12) + 1e-15, "premium rises with the threshold", at=[a, b], got=[x, y])
    # thresholds between two percentages lie between their premiums
    th = float(rng.uniform(0, 0.99))
    v = obj.estimate(th, seed, R, S)
    lo, hi = premium(parts, math.floor(th * 100) + 1, S), premium(parts, math.floor(th * 100), S)
    mon.check(lo - 1e-12 <= v <= hi + 1e-12, "fractional threshold out of order", threshold=th, got=v, want=[lo, hi])
    mon.check(DIP(p.copy(), C.copy()).estimate(th, seed, R, S) == v, "fresh object, different premium")
    mon.check(gen.snapshot(p, C) == snap, "inputs modified")
    mon.check(np.random.get_state()[1].tobytes() == state, "global random state modified")
    np.random.seed(int(rng.integers(0, 2**31)))
    mon.check(obj.estimate(th, seed, R, S) == v, "depends on the global random state")
    L = list(gen.layouts(p).items())
    name, pp = L[i % (len(L))]
    M = list(gen.layouts(C).items())
    name2, CC = M[(i * 5 + 2) % len(M)]
    if pp.dtype == np.float64:
        mon.close(DIP(pp, CC).estimate(th, seed, R, S), v, "memory layout", rtol=1e-12, layouts=[name, name2])


@workload(quick=12, thorough=400)
def seeds(mon, rng, i):
    """Other seeds give other scenarios, and estimates that agree up to Monte Carlo error."""
    p, C, seed, _, _ = case(rng)
    n = len(p)
    R, S = 5000, 200
    vals = [DIP(p, C).estimate(0.05, s, R, S) for s in range(seed % 1000, seed % 1000 + 8)]
    mon.describe(banks=n, default_prob=p, premiums=vals)
    # every default loses between 10% and 100% of its bank; 5% of n is at most one default's loss here
    exp_losses = 0.55 * float(np.sum(p))
    if n <= 2 and exp_losses > 0.02:
        # all losses are great: E[loss] = sum PD x E[LGD], half a slot rounding up on average
        se = math.sqrt(n * float(np.sum(p)) / R) + 0.2 * n / math.sqrt(S)
        mon.check(abs(np.mean(vals) - exp_losses) <= 5 * se / math.sqrt(8) + 0.02, "mean over seeds off the expected loss", got=float(np.mean(vals)), want=exp_losses)
    if np.mean(vals) > 1e-3:
        mon.check(len(set(vals)) > 1, "the seed has no effect", got=vals)
    for v in vals:
        mon.count("premiums")
        if v > 0:
            mon.seen(float(v))


@workload(quick=1, thorough=6)
def defaults(mon, rng, i):
    """15%, seed 0, 500,000 returns, 1,000 simulations"""
    p, C, _, _, _ = case(rng)
    p = np.clip(p, 0.01, 0.9)
    mon.describe(banks=len(p), default_prob=p, correlations=C, defaults=True)
    mon.close(DIP(p, C).estimate(), premium(premium_parts(p, C, 0, 500_000, 1000), 15, 1000), "expected great losses", rtol=1e-9)
    mon.count("premiums")
