"""C19: limit-order-book slopes and depth difference."""
import math

import numpy as np
from lib import gen
from lib.mon import workload

RULE = """Books of 1 to 10,000 quotes and 2 to 40 levels with random ladders, sizes over six orders
of magnitude (zeros included), missing sizes and prices, in every layout and integer type;
each measure recomputed quote by quote with exact summation. Non-trivial: a book whose
measure is not zero."""
MIN_DISTINCT = 150
MIN_OBSERVED = {"books": 200, "books with missing quotes": 60, "integer books": 60}


def setup(mon):
    global S
    import frds.measures.lob_slope as S


def book(rng, k=None):
    n = int(rng.choice([1, 2, 5, 30, 500, 10000], p=[.1, .15, .25, .4, .09, .01]))
    k = k or (int(rng.integers(2, 13)) if rng.random() < 0.95 else int(rng.integers(13, 41)))
    mid = gen.log_uniform(rng, 0.5, 1e4) * np.exp(np.cumsum(rng.normal(0, 1e-3, n)))
    tick = mid * 10 ** rng.uniform(-4, -2)
    steps = np.cumsum(rng.integers(1, 6, (2, n, k)), axis=2) * tick[None, :, None]
    bp, ap = mid[:, None] - steps[0], mid[:, None] + steps[1]
    size = float(gen.log_uniform(rng, 1, 1e6))
    bs, as_ = rng.uniform(0, size, (2, n, k))
    if rng.random() < 0.3:
        bs[rng.random((n, k)) < 0.2] = 0.0
        as_[rng.random((n, k)) < 0.2] = 0.0
        as_[:, 0] += 1.0  # no quote without any depth
    return n, k, mid, bp, ap, bs, as_


def mean(vals):
    v = [x for x in vals if not math.isnan(x)]
    return math.fsum(v) / len(v) if v else math.nan


def slope(sizes, top, mid, sign=0):
    """Distances of bids are absolute, those of asks signed (an ask below the midpoint counts against)."""
    return mean([math.fsum(r) / (abs(t - m) if sign == 0 else t - m) for r, t, m in zip(sizes.tolist(), top.tolist(), mid.tolist())])


def diff(s, p):
    return mean([(a[4] - a[2]) / abs(b[4] - b[2]) - (a[2] - a[0]) / abs(b[2] - b[0]) for a, b in zip(s.tolist(), p.tolist())])


def sdd(b, a):
    return mean([2 * (math.fsum(y) - math.fsum(x)) / (math.fsum(y) + math.fsum(x)) for x, y in zip(b.tolist(), a.tolist())])


@workload(quick=900, thorough=12000)
def measures(mon, rng, i):
    n, k, mid, bp, ap, bs, as_ = book(rng, 5 if i % 3 == 0 else None)
    missing = i % 2 == 1 and n > 1
    if missing:
        keep = int(rng.integers(0, n))  # at least one whole quote
        for arr in (bs, as_, bp, ap):
            hole = rng.random((n, k)) < 0.1
            hole[keep] = False
            arr[hole] = np.nan
        hole = rng.random(n) < 0.1
        hole[keep] = False
        mid = mid.copy()
        mid[hole] = np.nan
        mon.count("books with missing quotes")
    mon.describe(quotes=n, levels=k, missing=missing, mid=mid[:3], bid_size=bs[0], ask_size=as_[0])
    mon.count("books")
    crossed = i % 5 == 2
    if crossed:  # stale books: the highest level is on the other side of the midpoint
        for side, s in ((ap, -1), (bp, 1)):
            out = rng.random(n) < 0.2
            side[out, -1] = mid[out] * (1 + s * rng.uniform(1e-3, 1e-2, int(out.sum())))
        mon.count("crossed books")
    snap = gen.snapshot(mid, bp, ap, bs, as_)
    out = {}

    def agree(name, got, want, rtol=1e-9, atol=1e-12, **kw):
        mon.check(np.ndim(got) == 0, "one number")
        mon.close(got, want, name, rtol=rtol, atol=atol, **kw)

    wb, wa = slope(bs, bp[:, -1], mid), slope(as_, ap[:, -1], mid, 1)
    agree("bid slope", S.DGGW_bid_slope(bs, bp[:, -1], mid), wb)
    agree("ask slope", S.DGGW_ask_slope(as_, ap[:, -1], mid), wa)
    mon.check(S.DGGW_bid_slope(bs, bp[:, -1], mid) >= 0 and (crossed or S.DGGW_ask_slope(as_, ap[:, -1], mid) >= 0), "slope negative")
    wd = sdd(bs, as_)
    agree("scaled depth difference", S.DGGW_scaled_depth_difference(bs, as_), wd, rtol=1e-9, atol=1e-11)
    v = S.DGGW_scaled_depth_difference(bs, as_)
    mon.check(abs(v) <= 2 + 1e-12, "scaled depth difference out of range", got=v)
    agree("sides exchanged", S.DGGW_scaled_depth_difference(as_, bs), -wd, atol=1e-11)
    p = rng.permutation(n)
    agree("order of quotes", S.DGGW_bid_slope(bs[p], bp[p, -1], mid[p]), wb)
    agree("order of quotes", S.DGGW_ask_slope(as_[p], ap[p, -1], mid[p]), wa)
    agree("order of quotes", S.DGGW_scaled_depth_difference(bs[p], as_[p]), wd, atol=1e-11)
    agree("scale of sizes", S.DGGW_bid_slope(bs * 64, bp[:, -1], mid), wb * 64)
    agree("scale of sizes", S.DGGW_ask_slope(as_ * 64, ap[:, -1], mid), wa * 64)
    agree("scale of sizes", S.DGGW_scaled_depth_difference(bs * 64, as_ * 64), wd, atol=1e-11)
    agree("scale of prices", S.DGGW_bid_slope(bs, bp[:, -1] * 4, mid * 4), wb / 4)
    agree("scale of prices", S.DGGW_ask_slope(as_, ap[:, -1] * 4, mid * 4), wa / 4)
    lp = rng.permutation(k)
    agree("total size only", S.DGGW_ask_slope(as_[:, lp], ap[:, -1], mid), wa)
    agree("total size only", S.DGGW_bid_slope(bs[:, lp], bp[:, -1], mid), wb)
    lay = list(gen.layouts(bs).items())
    name, L = lay[i % len(lay)]
    m1 = list(gen.layouts(mid).values())[i % 9]
    agree("memory layout", S.DGGW_bid_slope(L, bp[:, -1], m1), wb, layout=name)
    name, L = list(gen.layouts(as_).items())[(i + 3) % len(lay)]
    agree("memory layout", S.DGGW_scaled_depth_difference(bs, L), wd, atol=1e-11, layout=name)
    agree("memory layout", S.DGGW_ask_slope(L, ap[:, -1], m1), wa, layout=name)
    if k >= 5:
        cond = float(np.nanmax(np.abs(bs))) / float(np.nanmin(np.abs(np.diff(bp, axis=1))))
        for fn, s, pr, nm in ((S.DGGW_bid_side_slope_difference, bs, bp, "bid"), (S.DGGW_ask_side_slope_difference, as_, ap, "ask")):
            w = diff(s, pr)
            cond = float(np.nanmax(np.abs(s))) / float(np.nanmin(np.abs(np.diff(pr, axis=1))))
            tol = 1e-10 * cond
            agree(f"{nm}-side slope difference", fn(s, pr), w, atol=tol)
            agree("order of quotes", fn(s[p], pr[p]), w, atol=tol)
            agree("scale of sizes", fn(s * 32, pr), w * 32, atol=tol * 32)
            agree("scale of prices", fn(s, pr * 2), w / 2, atol=tol)
            s2, p2 = s.copy(), pr.copy()
            s2[:, 1], s2[:, 3], p2[:, 3], p2[:, 1] = 1e9, -5.0, np.nan, 77.0
            agree("only levels 1, 3 and 5 count", fn(s2, p2), w, atol=tol)
            agree("memory layout", fn(list(gen.layouts(s).values())[i % 8], list(gen.layouts(pr).values())[(i // 3) % 8]), w, atol=tol)
            if w:
                mon.seen(float(w))
    mon.check(gen.snapshot(mid, bp, ap, bs, as_) == snap, "inputs modified")
    if not math.isnan(wb):
        mon.seen(float(wb), float(wa))


@workload(quick=270, thorough=4000)
def integers(mon, rng, i):
    """Sizes in shares and prices in ticks, in any integer type."""
    n, k = int(rng.integers(1, 40)), 5
    mid = rng.integers(100, 200, n)
    bp = mid[:, None] - np.cumsum(rng.integers(1, 6, (n, k)), axis=1)
    ap = mid[:, None] + np.cumsum(rng.integers(1, 6, (n, k)), axis=1)
    hi = 250 if i % 2 else 60000
    if i % 3 == 0:  # stale books, as above: the highest level on the other side of the midpoint
        out = rng.random(n) < 0.3
        ap[out, -1], bp[out, -1] = mid[out] - rng.integers(1, 9, int(out.sum())), mid[out] + rng.integers(1, 9, int(out.sum()))
        mon.count("crossed integer books", int(out.any()))
    bs, as_ = rng.integers(0, hi, (2, n, k))
    as_[:, 0] = np.maximum(as_[:, 0], 1)
    ts = ["int64", "uint64", "int32", "uint32", "uint16"] + (["uint8"] if i % 2 else [])
    t = str(rng.choice(ts))
    u = str(rng.choice(["int64", "float64", "int32", "uint16", "uint64"]))
    b, a, pb, pa, m = bs.astype(t), as_.astype(t), bp.astype(u), ap.astype(u), mid.astype(u)
    mon.describe(quotes=n, size_type=t, price_type=u, bid_size=bs[0], ask_size=as_[0])
    kw = dict(rtol=1e-10, atol=1e-9, types=[t, u])
    mon.close(S.DGGW_bid_slope(b, pb[:, -1], m), slope(bs, bp[:, -1], mid), "integer book: bid slope", **kw)
    mon.close(S.DGGW_ask_slope(a, pa[:, -1], m), slope(as_, ap[:, -1], mid, 1), "integer book: ask slope", **kw)
    mon.close(S.DGGW_bid_side_slope_difference(b, pb), diff(bs, bp), "integer book: bid difference", **kw)
    mon.close(S.DGGW_ask_side_slope_difference(a, pa), diff(as_, ap), "integer book: ask difference", **kw)
    mon.close(S.DGGW_scaled_depth_difference(b, a), sdd(bs, as_), "integer book: depth difference", **kw)
    mon.count("integer books")
    mon.seen(sdd(bs, as_), n)


@workload(quick=1, thorough=3)
def documented(mon, rng, i):
    """The examples in the docstrings."""
    def levels(g, first=(100, 120)):
        return np.array([g.uniform(low=a, high=b, size=(1000,)) for a, b in (first, (90, 110), (80, 100), (70, 90), (50, 80))]).T

    mid = np.ones((1000,))
    g = np.random.RandomState(42)
    size = levels(g)
    mon.close(S.DGGW_ask_slope(size, g.uniform(low=1.1, high=2.0, size=(1000,)), mid), 1136.8718207500128, "documented ask slope", rtol=1e-10)
    g = np.random.RandomState(42)
    size = levels(g)
    mon.close(S.DGGW_bid_slope(size, g.uniform(low=0.7, high=0.99, size=(1000,)), mid), 5316.539811566988, "documented bid slope", rtol=1e-10)
    g = np.random.RandomState(42)
    bid = levels(g)
    mon.close(S.DGGW_scaled_depth_difference(bid, levels(g, (200, 300))), 0.2697934067000831, "documented depth difference", rtol=1e-10)
    mon.seen(3)
