"""C14: the absorption ratio."""
from decimal import Decimal, ROUND_HALF_UP, ROUND_HALF_DOWN
from fractions import Fraction as Fr

import numpy as np
from lib import gen
from lib.mon import workload

RULE = """Random panels of 1 to 150 assets and 2 to 1,000 days (also more assets than days), with
factor structure, shipped stocks, collinear or constant assets and scales from 1e-8 to 1e6; estimates at
many fractions on one object, in random order, are compared with the eigenvalues obtained
from the singular values of the demeaned panel. Non-trivial: a ratio strictly between 0
and 1."""
ASSUMPTIONS = ["a fraction times the number of assets within 1e-9 of a half may round either way"]
MIN_DISTINCT = 150
MIN_OBSERVED = {"ratios": 1000, "more assets than days": 20, "exact halves": 20, "one asset": 3}


def setup(mon):
    global AR
    from frds.measures import AbsorptionRatio as AR


def panel(rng):
    n = int(rng.choice([1, 2, 3, 5, 10, 20, 33, 60, 150], p=[.06, .14, .15, .2, .18, .15, .05, .04, .03]))
    T = int(rng.choice([2, 3, 6, 15, 60, 300, 1000]))
    if n <= 3 and rng.random() < 0.2:
        return np.stack(gen.market(rng, T, n, percent=bool(rng.random() < 0.5)))
    k = int(rng.integers(0, min(n, 4) + 1))
    X = rng.normal(size=(n, k)) @ rng.normal(size=(k, T)) if k else np.zeros((n, T))
    X = X + rng.choice([0.0, 0.1, 1.0, 3.0], p=[.1, .3, .4, .2]) * rng.normal(size=(n, T))
    if n > 2 and rng.random() < 0.15:
        X[1] = 2 * X[0]
    if n > 2 and rng.random() < 0.1:
        X[-1] = 0.5
    X = X * np.exp(rng.normal(size=(n, 1)) * rng.choice([0.0, 0.7]))
    X = X * float(gen.log_uniform(rng, 1e-6, 1e3)) + 0.0
    return X


def share(X):
    """All cumulative shares, from the singular values."""
    Y = X - np.mean(X, axis=1, keepdims=True)
    s = np.linalg.svd(Y, compute_uv=False) ** 2
    s = np.concatenate([s, np.zeros(max(0, X.shape[0] - len(s)))])
    tot = float(np.sum(Y * Y))
    if not tot > 0 or np.max(np.abs(Y)) < 1e-9 * np.max(np.abs(X)):
        return None
    return np.concatenate([[0.0], np.cumsum(s)]) / tot


def counts(f, n):
    """How many eigenvectors fraction f of n assets may round to."""
    e = Fr(float(f)) * n
    lo, hi = e - Fr(1, 10**9), e + Fr(1, 10**9)
    if Fr(float(f) * n) * 2 == int(Fr(float(f) * n) * 2) and Fr(float(f) * n).denominator == 2:
        # the product is a half as floats: halves go up
        return {int(Fr(float(f) * n) + Fr(1, 2))}
    return {int((v + Fr(1, 2)).__floor__()) for v in (lo, e, hi)}


@workload(quick=700, thorough=8000)
def ratio(mon, rng, i):
    X = panel(rng)
    n, T = X.shape
    cum = share(X)
    if cum is None:
        mon.skip("no variance")
    mon.describe(assets=n, days=T, head=X[:2, :3])
    fr = [0.0, 1.0, 0.2, float(rng.random()), float(rng.random())]
    fr += [float(rng.integers(0, n)) / n + 0.5 / n, float(rng.integers(0, n + 1)) / n]
    fr += [round(float(rng.random()), 2)]
    fr = [min(1.0, f) for f in fr]
    rng.shuffle(fr)
    snap = gen.snapshot(X)
    obj = AR(X)
    vals = []
    tol = 1e-10
    for f in fr:
        v = obj.estimate(f)
        ok = counts(f, n)
        if (Fr(f * n) * 2).denominator == 1 and Fr(f * n).denominator == 2:
            mon.count("exact halves")
        mon.check(np.isrealobj(v) and np.ndim(v) == 0, "a real number", got=v)
        v = float(v)
        mon.check(any(abs(v - cum[k]) <= tol for k in ok), "share of total variance", got=v, want=[float(cum[k]) for k in ok], fraction=f, eigenvectors=sorted(ok))
        mon.check(-1e-12 <= v <= 1 + 1e-9, "between 0 and 1", got=v, fraction=f)
        vals.append((f, v))
        mon.count("ratios")
        if 1e-6 < v < 1 - 1e-6:
            mon.seen(v, f)
    mon.count("more assets than days", n > T)
    mon.count("one asset", n == 1)
    vals.sort()
    d = np.diff([v for _, v in vals])
    mon.check(np.all(d >= -1e-10), "non-decreasing in the fraction", ratios=vals)
    mon.check(abs(vals[0][1]) <= 1e-12, "no eigenvector", got=vals[0])
    mon.check(abs(vals[-1][1] - 1) <= 1e-9, "all eigenvectors", got=vals[-1])
    mon.close(obj.estimate(), AR(X).estimate(0.2), "default fraction, fresh object", rtol=0, atol=1e-12)
    for f in fr[:3]:
        v0 = dict(vals)[f]
        mon.close(AR(X).estimate(fraction_eigenvectors=f), v0, "depends on earlier estimates", rtol=0, atol=1e-12)
        mon.close(AR(X[rng.permutation(n)]).estimate(f), v0, "order of assets", rtol=0, atol=tol)
        mon.close(AR(X[:, rng.permutation(T)]).estimate(f), v0, "order of days", rtol=0, atol=tol)
        sc = float(np.max(np.abs(X)))
        mon.close(AR(X * -4096.0).estimate(f), v0, "scale of returns", rtol=0, atol=tol)
        sd = np.sqrt(np.max(np.var(X, axis=1)))
        mon.close(AR(X + rng.normal(size=(n, 1)) * sd).estimate(f), v0, "constant added", rtol=0, atol=1e-8 + 1e-12 * sc / sd)
    name, L = list(gen.layouts(X).items())[i % 8]
    mon.close(AR(L).estimate(fr[0]), dict(vals)[fr[0]], "memory layout", rtol=0, atol=tol, layout=name)
    mon.check(gen.snapshot(X) == snap, "inputs modified")
    if i % 10 == 0 and n > 1:
        K = np.round(X / np.max(np.abs(X)) * 1000)
        c2 = share(K)
        if c2 is not None:
            f = fr[0]
            v = AR(K.astype(np.int64)).estimate(f)
            mon.check(any(abs(float(v) - c2[k]) <= tol for k in counts(f, n)), "integer returns", got=v)


@workload(quick=160, thorough=1500)
def spans_units(mon, rng, i):
    """Assets measured in very different units keep their share."""
    n, T = int(rng.integers(2, 9)), int(rng.choice([4, 30, 200]))
    X = rng.normal(size=(n, T)) * np.exp(rng.uniform(-9, 4, (n, 1)))
    cum = share(X)
    mon.describe(assets=n, days=T, scales=np.std(X, axis=1))
    obj = AR(X)
    for k in range(n + 1):
        mon.close(obj.estimate(k / n), cum[k], "share of total variance", rtol=0, atol=1e-10, eigenvectors=k)
        mon.count("ratios")
        # how much the remaining ones explain
    mon.seen(float(cum[1]))
