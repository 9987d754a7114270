"""C10: SRISK against the LRMES estimates of the same build."""
import numpy as np
from lib import gen
from lib.mon import workload

RULE = """One to thirteen simulated firms or shipped stocks with random equity and debt (leverage 0 to 600, whole-number amounts, so SRISK of both
signs), prudential ratios 0..1, random LRMES settings, aggregate or not, repeated and
permuted. Every firm value is recomputed from a separate LRMES estimate with the same
settings. Non-trivial: a firm value with a non-zero LRMES."""
ASSUMPTIONS = ["the LRMES estimator itself is decided by C08"]
MIN_DISTINCT = 20
MIN_OBSERVED = {"firm values compared": 40, "aggregates compared": 10, "negative firm values": 3, "positive firm values": 3}
SHARDS = 6


def setup(mon):
    global SRISK, LRMES
    from frds.measures import SRISK, LongRunMarginalExpectedShortfall as LRMES


def panel(rng, T, n):
    """n firms and a market with a common factor."""
    m = gen.returns_pct(rng, T, gjr=True)[0]
    F = np.empty((T, n))
    for k in range(n):
        e, _ = gen.returns_pct(rng, T, gjr=True, mu_scale=0.05)
        F[:, k] = rng.uniform(0.2, 1.5) * m + e * rng.uniform(0.3, 1)
    return np.expm1(F / 100), np.expm1(m / 100)


def stocks(rng, T, n):
    X = gen.market(rng, T, 4, percent=False)
    return np.stack([X[1 + k % 3] * (1 + 0.01 * (k // 3)) for k in range(n)], axis=1), X[0]


def settings(rng, market):
    h = int(rng.choice([1, 5, 10, 22, 66, 132]))
    S = int(rng.choice([20, 60, 150]))
    C = float(-np.std(np.log1p(market)) * np.sqrt(h) * rng.uniform(0.2, 1.2))
    return dict(lrmes_h=h, lrmes_S=S, lrmes_C=max(C, -0.9), lrmes_random_seed=int(rng.integers(0, 10**6)))


def shortfall(firm, market, s):
    return float(LRMES(firm, market).estimate(h=s["lrmes_h"], S=s["lrmes_S"], C=s["lrmes_C"], random_seed=s["lrmes_random_seed"]))


def money(rng, n):
    W = gen.log_uniform(rng, 0.5, 500, n)
    D = W * rng.choice([0.0, 1.0, 5.0, 12.0, 20.0, 60.0, 400.0], n) * rng.uniform(0.5, 1.5, n)
    return W, D


@workload(quick=50, thorough=500)
def many(mon, rng, i):
    n = int(rng.integers(2, 7)) if i % 9 else 13
    T = int(rng.choice([150, 220, 600]))
    F, m = (stocks if i % 5 == 4 else panel)(rng, T, n)
    W, D = money(rng, n)
    if i % 5 == 1:
        # amounts in whole millions, in one or in both columns
        W = np.maximum(1, np.round(W)).astype(rng.choice(["int64", "int32", "uint32"]))
        if i % 2:
            D = np.round(D).astype(rng.choice(["int64", "int32"]))
    k = float(rng.choice([0.08, 0.055, 0.0, 1.0, rng.uniform(0, 1)]))
    s = settings(rng, m)
    if i % 4 == 0:
        F = np.asfortranarray(F)
    elif i % 4 == 1:
        F = np.ascontiguousarray(F.T).T
    mon.describe(n=n, T=T, W=W, D=D, k=k, **s)
    snap = gen.snapshot(F, m, W, D)
    try:
        L = np.array([shortfall(np.ascontiguousarray(F[:, j]), m, s) for j in range(n)])
    except RuntimeError:
        mon.skip("unsuccessful model")
    want = k * D - (1 - k) * W * (1 - L)
    obj = SRISK(F, m, W, D)
    got = obj.estimate(k=k, **s)
    tol = dict(rtol=1e-7, atol=1e-5 * float(np.max(W)))
    mon.close(got, want, "SRISK identity", **tol, lrmes=L)
    agg = obj.estimate(k=k, aggregate_srisk=True, **s)
    mon.check(np.ndim(agg) == 0, "aggregate is a scalar")
    mon.close(agg, np.sum(np.where(want > 0, want, 0.0)), "aggregate SRISK", rtol=1e-7, atol=1e-5 * float(np.sum(W)), firms=want)
    mon.count("firm values compared", n)
    mon.count("aggregates compared")
    mon.count("negative firm values", int(np.sum(want < 0)))
    mon.count("positive firm values", int(np.sum(want > 0)))
    mon.close(obj.estimate(k, s["lrmes_h"], s["lrmes_S"], s["lrmes_C"], s["lrmes_random_seed"]), got, "repeated estimate", rtol=1e-12, atol=1e-12)
    perm = rng.permutation(n)
    mon.close(SRISK(F[:, perm], m, W[perm], D[perm]).estimate(k=k, **s), want[perm], "order of the firms", **tol)
    j = int(rng.integers(0, n))
    one = SRISK(np.ascontiguousarray(F[:, j]), m, float(W[j]), float(D[j]))
    mon.close(one.estimate(k=k, **s), want[j], "firm on its own", **tol)
    mon.close(one.estimate(k=k, aggregate_srisk=True, **s), max(want[j], 0.0), "aggregate of one firm", **tol)
    mon.check(gen.snapshot(F, m, W, D) == snap, "inputs modified")
    for v in L[L != 0]:
        mon.seen(float(v), k)


@workload(quick=32, thorough=300)
def single(mon, rng, i):
    T = int(rng.choice([150, 250]))
    F, m = panel(rng, T, 1)
    f = np.ascontiguousarray(F[:, 0])
    (W,), (D,) = money(rng, 1)
    W, D = float(W), float(D)
    s = settings(rng, m)
    mon.describe(T=T, W=W, D=D, **s)
    try:
        L = shortfall(f, m, s)
    except RuntimeError:
        mon.skip("unsuccessful model")
    obj = SRISK(f, m, W, D)
    for k in (0.08, 0.0, 1.0, float(rng.uniform(0, 1))):
        want = k * D - (1 - k) * W * (1 - L)
        tol = dict(rtol=1e-7, atol=1e-6 * (W + D))
        got = obj.estimate(k=k, **s)
        mon.close(float(np.squeeze(got)), want, "SRISK identity", **tol, k=k, lrmes=L)
        mon.close(float(np.squeeze(obj.estimate(k=k, aggregate_srisk=True, **s))), max(want, 0.0), "aggregate of one firm", **tol)
        mon.count("firm values compared")
        mon.count("aggregates compared")
    # the settings are the ones requested, one at a time
    base = dict(lrmes_h=5, lrmes_S=40, lrmes_C=s["lrmes_C"], lrmes_random_seed=11)
    for key, v in (("lrmes_h", 9), ("lrmes_S", 77), ("lrmes_C", s["lrmes_C"] / 3), ("lrmes_random_seed", 12)):
        t = dict(base)
        t[key] = v
        mon.close(float(np.squeeze(obj.estimate(**t))), 0.08 * D - 0.92 * W * (1 - shortfall(f, m, t)), "SRISK settings", rtol=1e-7, atol=1e-6 * (W + D), changed=key)
    if L:
        mon.seen(L, W, D)


@workload(quick=2, thorough=10)
def defaults(mon, rng, i):
    """k = 8%, 22 days, 10,000 paths, -10%, seed 42."""
    F, m = panel(rng, 250, 1)
    m = np.expm1(np.log1p(m) * 2)
    f = np.ascontiguousarray(F[:, 0])
    W, D = 10.0, 150.0
    try:
        L = float(LRMES(f, m).estimate(h=22, S=10_000, C=-0.1, random_seed=42))
    except RuntimeError:
        mon.skip("unsuccessful model")
    mon.describe(defaults=True, lrmes=L)
    mon.close(float(np.squeeze(SRISK(f, m, W, D).estimate())), 0.08 * D - 0.92 * W * (1 - L), "SRISK identity", rtol=1e-7, atol=1e-4)
    mon.seen(L)
