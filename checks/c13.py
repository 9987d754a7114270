"""C13: Kyle's lambda and the Z-score."""
import math
from fractions import Fraction as Fr

import numpy as np
from lib import gen
from lib.mon import workload

RULE = """Random series (1 to 30,000 observations, scales over ten orders of magnitude, non-zero
means, zeros, outliers) given as arrays of every layout, lists, tuples, Series and integer
arrays; the slope and the standard deviation are recomputed in exact rational arithmetic,
and the stated invariances applied. Non-trivial: a non-zero slope, or a positive deviation."""
MIN_DISTINCT = 150
MIN_OBSERVED = {"slopes": 100, "z-scores": 100, "other containers": 100}


def setup(mon):
    global kyle_lambda, z_score, pd
    import pandas as pd
    from frds.measures import kyle_lambda, z_score


def containers(x, i):
    out = [("list", x.tolist()), ("tuple", tuple(x.tolist())),
           ("Series", pd.Series(x, index=np.arange(len(x))[::-1] + 5)), ("float32-exact", x)]
    lay = list(gen.layouts(x).items())
    return [out[i % 3], lay[i % len(lay)]]


@workload(quick=750, thorough=8000)
def kyle(mon, rng, i):
    n = int(rng.choice([1, 2, 3, 10, 100, 1000, 5000, 30000], p=[.05, .1, .15, .2, .3, .15, .04, .01]))
    n += int(rng.integers(0, 1 + n // 5))
    sx = float(gen.log_uniform(rng, 1e-2, 1e9))
    sy = float(gen.log_uniform(rng, 1e-6, 1e1))
    x = rng.normal(rng.choice([0, 0.5, 3]) , 1, n) * sx
    y = rng.normal(rng.choice([0, 1, -4]), 1, n) * sy + rng.normal() * sy / sx * x
    if i % 4 == 0 and n > 5:
        x[rng.integers(0, n, n // 3)] = 0.0
    if i % 6 == 1 and n > 2:
        y[rng.integers(0, n, max(1, n // 3))] = 0.0  # days on which the price does not move
        if i % 12 == 1:
            x = np.abs(x)
    if i % 7 == 0:
        y[rng.integers(0, n)] *= 1e4
        x[rng.integers(0, n)] *= 1e3
    if i % 5 == 0:
        x = np.round(x) + (np.abs(x) < 0.5)
    mon.describe(n=n, scale_volume=sx, scale_returns=sy)
    fx, fy = [Fr(float(v)) for v in x], [Fr(float(v)) for v in y]
    sxx = sum(v * v for v in fx)
    want = float(1_000_000 * sum(a * b for a, b in zip(fx, fy)) / sxx)
    tol = 1e6 * 1e-12 * float(np.linalg.norm(y)) / math.sqrt(float(sxx))
    snap = gen.snapshot(x, y)
    mon.close(kyle_lambda(y, x), want, "slope times a million", rtol=1e-11, atol=tol)
    mon.check(np.ndim(kyle_lambda(y, x)) == 0, "one number")
    mon.count("slopes")
    a = float(rng.choice([-1.0, 0.01, 1000.0, -3.5]))
    mon.close(kyle_lambda(a * y, x), a * want, "scale of returns", rtol=1e-10, atol=abs(a) * tol * 2)
    mon.close(kyle_lambda(y, x * a), want / a, "scale of volume", rtol=1e-10, atol=tol * 2 / abs(a))
    p = rng.permutation(n)
    mon.close(kyle_lambda(y[p], x[p]), want, "order of observations", rtol=1e-10, atol=2 * tol)
    mon.close(kyle_lambda(np.concatenate([y, y]), np.concatenate([x, x])), want, "sample repeated", rtol=1e-10, atol=2 * tol)
    # observations without volume carry no information
    mon.close(kyle_lambda(np.append(y, 7 * sy), np.append(x, 0.0)), want, "observation without volume", rtol=1e-10, atol=2 * tol + 1e6 * 1e-11 * sy / math.sqrt(float(sxx)))
    for (nx, cx), (ny, cy) in zip(containers(x, i), containers(y, i + 1)):
        mon.close(kyle_lambda(cy, cx), want, "containers and layouts", rtol=1e-10, atol=2 * tol, containers=[ny, nx])
        mon.count("other containers")
    if i % 5 == 0 and np.max(np.abs(x)) < 2**53:
        mon.close(kyle_lambda(y, x.astype(np.int64)), want, "integer volume", rtol=1e-10, atol=2 * tol)
    mon.check(gen.snapshot(x, y) == snap, "inputs modified")
    if want:
        mon.seen(want)


@workload(quick=750, thorough=8000)
def zscore(mon, rng, i):
    n = int(rng.choice([2, 3, 5, 12, 40, 1000, 20000], p=[.16, .16, .16, .17, .17, .17, .01]))
    n += int(rng.integers(0, 1 + n // 5))
    s = float(gen.log_uniform(rng, 1e-5, 1e3))
    past = rng.normal(rng.choice([0.0, 1.0, -1.0, 20.0]), 1, n) * s
    if i % 3 == 1:
        # a steady bank: the mean is many deviations away from zero
        past = past + float(rng.choice([-1, 1])) * s * float(gen.log_uniform(rng, 1e1, 1e7))
    if i % 6 == 0:
        past = np.round(past / s * 10)
        if np.ptp(past) == 0:
            past[0] += 1
    roa, cap = float(rng.normal() * 0.02), float(rng.uniform(0, 0.3))
    mon.describe(n=n, roa=roa, capital_ratio=cap, scale=s)
    fr = [Fr(float(v)) for v in past]
    mean = sum(fr) / n
    var = sum((v - mean) ** 2 for v in fr) / n
    sd = math.sqrt(float(var))
    if sd == 0:
        mon.skip("constant history")
    want = (roa + cap) / sd
    off = float(np.max(np.abs(past)))
    tol = 1e-12 + 1e-14 * off / sd
    snap = gen.snapshot(past)
    mon.close(z_score(roa, cap, past), want, "Z-score", rtol=tol, atol=0)
    mon.count("z-scores")
    mon.close(z_score(cap, roa, past), want, "ROA and capital add up", rtol=tol)
    h = float(rng.normal() * off)
    mon.close(z_score(roa, cap, past + h), want, "shift of past ROAs", rtol=1e-12 + 1e-13 * (off + abs(h)) / sd)
    a = float(rng.choice([-2.0, 0.1, 1e4]))
    mon.close(z_score(roa, cap, past * a), want / abs(a), "scale of past ROAs", rtol=10 * tol)
    mon.close(z_score(roa, cap, past[rng.permutation(n)]), want, "order of past ROAs", rtol=10 * tol)
    mon.close(z_score(roa, cap, np.tile(past, 3)), want, "population deviation", rtol=10 * tol)
    for name, c in containers(past, i):
        mon.close(z_score(roa, cap, c), want, "containers and layouts", rtol=10 * tol, container=name)
        mon.count("other containers")
    if i % 6 == 0:
        mon.close(z_score(roa, cap, past.astype(np.int64)), want, "integer past ROAs", rtol=10 * tol)
    mon.check(gen.snapshot(past) == snap, "inputs modified")
    mon.seen(want)
