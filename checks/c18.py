"""C18: spreads and price impact."""
import math

import numpy as np
from lib import gen
from lib.mon import workload

RULE = """Trade and quote samples of 1 to 70,000 observations, prices over six orders of magnitude,
lot sizes with zeros, directions present or not, percent and log; every measure recomputed
trade by trade with exact summation, then re-expressed as lists, tuples, Series with odd
indices, integer (signed, unsigned, narrow) and strided arrays, reordered, rescaled, split
into pieces. Non-trivial: a sample whose weighted and unweighted averages differ."""
MIN_DISTINCT = 150
MIN_OBSERVED = {"measures": 1500, "zero-volume samples": 20, "other containers": 500, "integer data": 60}


def setup(mon):
    global quoted_spread, effective_spread, realized_spread, impact, pd
    import pandas as pd
    from frds.measures.spread import quoted_spread, effective_spread, realized_spread
    from frds.measures.price_impact import simple_price_impact as impact


def one(kind, p, m, l, d, pct):
    """One trade's value by the documented formula."""
    a, b = dict(effective=(p, m), realized=(p, l), impact=(l, m))[kind]
    v = (a - b) / m * 100 if pct else math.log(a) - math.log(b)
    return 2 * d * v if d is not None else 2 * abs(v)


def expected(kind, P, M, L, V, D, pct):
    vals = [one(kind, p, m, l, None if D is None else d, pct)
            for p, m, l, d in zip(P, M, L, D if D is not None else P)]
    w = [v * p for v, p in zip(V, P)]
    if all(x == 0 for x in w):
        w = [1.0] * len(w)
    tot = math.fsum(w)
    return math.fsum(a * b for a, b in zip(vals, w)) / tot, max(abs(v) for v in vals), vals


def call(kind, P, M, L, V, D, pct, rng=None):
    kw = {}
    if D is not None:
        kw["trade_direction"] = D
    if not pct:
        kw["pct_spread"] = False
    if kind == "effective":
        return effective_spread(P, M, V, **kw)
    f = realized_spread if kind == "realized" else impact
    return f(P, L, M, V, **kw)


def trades(rng, n=None):
    n = n or int(rng.choice([1, 2, 3, 10, 100, 3000, 70000], p=[.08, .12, .2, .25, .3, .04, .01]))
    lvl = float(gen.log_uniform(rng, 0.05, 5e4))
    M = lvl * np.exp(np.cumsum(rng.normal(0, 2e-3, n)))
    P = M * np.exp(rng.normal(0, 1e-3, n) * rng.choice([0.0, 1.0, 30.0], n, p=[.2, .7, .1]))
    L = M * np.exp(rng.normal(0, 2e-3, n) * rng.choice([0, 1], n, p=[.1, .9]))
    V = rng.integers(0, 5000, n).astype(float) * float(rng.choice([1.0, 100.0, 0.01]))
    if rng.random() < 0.15:
        V[:] = 0.0
    D = rng.choice([-1, 1], n)
    u = rng.random()
    if u < 0.08:
        D = rng.choice([-1, 0, 1], n)  # trades that could not be signed
    elif u < 0.14:
        D = np.zeros(n, dtype=int)
    elif u < 0.2:
        D = np.full(n, int(rng.choice([-1, 1])))
    if rng.random() < 0.1:
        V = V * 2.0**-60
    return P, M, L, V, D


KINDS = ("effective", "realized", "impact")


def wrap(x, k):
    lay = list(gen.layouts(np.asarray(x, dtype=float)).values())
    return [x.tolist(), tuple(x.tolist()), pd.Series(x, index=np.arange(len(x))[::-1] * 3), pd.Series(x, index=list("ab" * len(x))[: len(x)])][k % 4] if k % 2 else lay[k % len(lay)]


@workload(quick=650, thorough=10000)
def measures(mon, rng, i):
    P, M, L, V, D = trades(rng)
    n = len(P)
    mon.describe(n=n, price=P[:4], midpoint=M[:4], later=L[:4], volume=V[:4])
    snap = gen.snapshot(P, M, L, V, D)
    if np.all(V == 0):
        mon.count("zero-volume samples")
    vals = {}
    for pct in (True, False):
        for kind in KINDS:
            for d in (None, D):
                want, big, each = expected(kind, P, M, L, V, d, pct)
                tol = 1e-11 * big + (1e-12 * 200 if pct else 1e-12)
                got = call(kind, P, M, L, V, d, pct)
                mon.check(np.ndim(got) == 0, "one number")
                mon.close(got, want, f"{kind} formula", rtol=0, atol=tol, percent=pct, directions=d is not None)
                if d is None:
                    mon.check(got >= 0, f"{kind} without directions negative", got=got)
                vals[kind, pct, d is not None] = (float(got), tol)
                mon.count("measures")
                if abs(want - np.mean(each)) > 1e-9 * big:
                    mon.seen(float(want))
    for pct in (True, False):
        e, r, m_ = (vals[k, pct, True] for k in KINDS)
        mon.close(e[0], r[0] + m_[0], "effective is realized plus impact", rtol=0, atol=e[1] + r[1] + m_[1])
        # all-buy and all-sell are mirror images
        for k in KINDS:
            mon.close(call(k, P, M, L, V, -D, pct), -vals[k, pct, True][0], "directions reversed", rtol=0, atol=vals[k, pct, True][1])
    # invariances, on one measure per case
    kind, pct = KINDS[i % 3], bool(i % 2)
    d = D if (i // 6) % 2 else None
    want, tol = vals[kind, pct, d is not None]
    p = rng.permutation(n)
    sub = lambda x: None if x is None else x[p]
    mon.close(call(kind, P[p], M[p], L[p], V[p], sub(d), pct), want, "order of trades", rtol=0, atol=2 * tol)
    mon.close(call(kind, P, M, L, V * 1024.0, d, pct), want, "scale of volumes", rtol=0, atol=2 * tol)
    mon.close(call(kind, P * 0.25, M * 0.25, L * 0.25, V, d, pct), want, "scale of prices", rtol=0, atol=4 * tol)
    if not np.all(V == 0):
        j = int(rng.integers(0, n))
        rep = lambda x: None if x is None else np.append(x, x[j])
        V2 = np.append(V, V[j] * 0.25)
        V2[j] *= 0.75
        mon.close(call(kind, rep(P), rep(M), rep(L), V2, rep(d), pct), want, "trade split in two", rtol=0, atol=2 * tol)
        # trades without volume do not count
        far = lambda x, f: np.append(x, x[j] * f)
        mon.close(call(kind, far(P, 1.5), far(M, 0.9), far(L, 1.1), np.append(V, 0.0), rep(d), pct), want, "trade without volume", rtol=0, atol=4 * tol)
    ks = rng.integers(0, 16, 5)
    got = call(kind, wrap(P, ks[0]), wrap(M, ks[1]), wrap(L, ks[2]), wrap(V, ks[3]), None if d is None else wrap(D, ks[4]), pct)
    mon.close(got, want, "containers and layouts", rtol=0, atol=2 * tol, containers=ks.tolist())
    mon.count("other containers")
    if d is not None:
        for cast in ("int8", "float32", "float64", "list"):
            dd = D.tolist() if cast == "list" else D.astype(cast)
            mon.close(call(kind, P, M, L, V, dd, pct), want, "type of the directions", rtol=0, atol=2 * tol, cast=cast)
            mon.count("other containers")
    mon.check(gen.snapshot(P, M, L, V, D) == snap, "inputs modified")
    if n > 1:
        mon.refused(lambda: call("effective", P, M[:-1], L, V, None, True), "series of different length accepted")
        mon.refused(lambda: call("realized", P, M[:-1], L, V, None, True), "series of different length accepted")
        mon.refused(lambda: call("impact", P, M[:-1], L, V, None, True), "series of different length accepted")
        mon.refused(lambda: call(kind, P, M, L, V, D[:-1], True), "directions of different length accepted")


@workload(quick=150, thorough=2000)
def undefined(mon, rng, i):
    """Without any volume, trades whose spread is undefined are left out of the simple average."""
    P, M, L, V, D = trades(rng, int(rng.integers(2, 80)))
    V = np.zeros(len(P))
    hole = rng.random(len(P)) < 0.3
    hole[int(rng.integers(len(P)))] = False
    kind, pct = KINDS[i % 3], bool((i // 3) % 2)
    d = D if (i // 6) % 2 else None
    k = ~hole
    want, big, _ = expected(kind, P[k], M[k], L[k], V[k], None if d is None else d[k], pct)
    mon.describe(n=len(P), undefined=int(hole.sum()), measure=kind, percent=pct, directions=d is not None)
    M2, L2 = M.copy(), L.copy()
    M2[hole] = np.nan
    if kind != "effective" and i % 2:
        L2[hole] = np.nan
    if kind == "realized" and not pct:
        L2[hole] = np.nan  # log realized spreads do not use the midpoint
    got = call(kind, P, M2, L2, V, d, pct)
    mon.close(got, want, "undefined spreads without volume", rtol=0, atol=1e-11 * big + 1e-10, measure=kind)
    mon.count("measures")
    mon.seen(float(want), int(hole.sum()))


@workload(quick=250, thorough=3000)
def integers(mon, rng, i):
    """Prices in ticks and volumes in shares, held in any integer type."""
    n = int(rng.integers(1, 60))
    M = rng.integers(20, 30000, n)
    P = np.maximum(1, M + rng.integers(-15, 16, n))
    L = np.maximum(1, M + rng.integers(-15, 16, n))
    V = rng.integers(0, 32000 if i % 2 else 2_000_000, n)
    D = rng.choice([-1, 1], n)
    kind, pct = KINDS[i % 3], bool((i // 3) % 2)
    d = D if (i // 6) % 2 else None
    want, big, _ = expected(kind, P.tolist(), M.tolist(), L.tolist(), V.tolist(), None if d is None else D.tolist(), pct)
    types = ["int64", "uint64", "int32", "uint32", ">i4"] + (["int16", "uint16"] if i % 2 else [])
    t = [str(rng.choice(types)) for _ in range(4)]
    mon.describe(n=n, types=t, price=P[:4], midpoint=M[:4], volume=V[:4])
    got = call(kind, P.astype(t[0]), M.astype(t[1]), L.astype(t[2]), V.astype(t[3]), d, pct)
    mon.close(got, want, "integer data", rtol=0, atol=1e-10 * (big + 1), types=t, measure=kind)
    mon.count("integer data")
    mon.count("measures")
    mon.seen(float(want))


@workload(quick=500, thorough=6000)
def quotes(mon, rng, i):
    n = int(rng.choice([1, 2, 9, 200, 3000]))
    mid = gen.log_uniform(rng, 0.01, 1e5, n)
    h = gen.log_uniform(rng, 1e-6, 0.6, n) * rng.choice([0.0, 1.0], n, p=[.1, .9])
    bid, ask = mid * (1 - h), mid * (1 + h)
    mon.describe(n=n, bid=bid[:4], ask=ask[:4])
    snap = gen.snapshot(bid, ask)
    wp = math.fsum((a - b) / ((a + b) / 2) for a, b in zip(bid.tolist(), ask.tolist())) / n * -100
    wl = math.fsum(math.log(a) - math.log(b) for a, b in zip(ask.tolist(), bid.tolist())) / n
    mon.close(quoted_spread(bid, ask), wp, "quoted percent", rtol=1e-10, atol=1e-11)
    mon.close(quoted_spread(bid, ask, pct_spread=True), wp, "quoted percent", rtol=1e-10, atol=1e-11)
    mon.close(quoted_spread(bid, ask, pct_spread=False), wl, "quoted log", rtol=1e-10, atol=1e-12)
    mon.check(quoted_spread(bid, ask) >= 0 and quoted_spread(bid, ask, False) >= 0, "quoted spread negative")
    p = rng.permutation(n)
    mon.close(quoted_spread(bid[p], ask[p]), wp, "order of quotes", rtol=1e-10, atol=1e-11)
    mon.close(quoted_spread(bid * 8, ask * 8, False), wl, "scale of prices", rtol=1e-9, atol=1e-12)
    mon.close(quoted_spread(bid * 8, ask * 8), wp, "scale of prices", rtol=1e-9, atol=1e-11)
    k = rng.integers(0, 16, 2)
    pct = bool(i % 2)
    mon.close(quoted_spread(wrap(bid, k[0]), wrap(ask, k[1]), pct), wp if pct else wl, "containers and layouts", rtol=1e-10, atol=1e-11)
    mon.count("other containers")
    b, a = rng.integers(1, 100, n), rng.integers(100, 125, n)
    w = math.fsum((y - x) / ((x + y) / 2) for x, y in zip(b.tolist(), a.tolist())) / n * 100
    for t in ("int64", "uint8", "int8", "int32", "uint16"):
        mon.close(quoted_spread(b.astype(t), a.astype(t)), w, "integer data", rtol=1e-10, atol=1e-11, type=t)
    mon.count("integer data")
    mon.count("measures", 2)
    mon.check(gen.snapshot(bid, ask) == snap, "inputs modified")
    if n > 1:
        mon.refused(lambda: quoted_spread(bid, ask[:-1]), "series of different length accepted")
    mon.seen(wp)
