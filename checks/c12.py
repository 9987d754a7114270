"""C12: marginal and systemic expected shortfall."""
import math

import numpy as np
from lib import gen
from lib.mon import workload

RULE = """MES: random firm and market returns (3 to 30,000 days; continuous, heavy-tailed, with
ties, constant stretches, integer-valued, shipped stocks), tail fractions in (0, 1), all layouts; the days
are selected again by a separately written quantile and the mean recomputed; then the
invariances are applied to the same sample. SES: random training samples (4 to 300 firms,
regressor scales from 1e-4 to 50), the weights recomputed from exact rational normal
equations. Non-trivial: at least one day in the tail and one outside it; or a training
sample whose two weights do not cancel."""
ASSUMPTIONS = ["numpy's default (linear) percentile is the q-quantile meant by the documentation",
               "where a day lies on the quantile up to rounding, either side of it is accepted"]
MIN_DISTINCT = 100
MIN_OBSERVED = {"tail samples": 200, "training samples": 80, "samples with ties at the quantile": 10}


def setup(mon):
    global MES, SES
    from frds.measures import MarginalExpectedShortfall as MES, SystemicExpectedShortfall as SES


def tail_candidates(market, q):
    """Sets of days strictly below the q-quantile; more than one if rounding decides."""
    x = [float(v) for v in market]
    s = sorted(x)
    n = len(s)
    pos = q * (n - 1)
    lo = min(int(math.floor(pos)), n - 1)
    hi = min(lo + 1, n - 1)
    t = s[lo] + (s[hi] - s[lo]) * (pos - lo)
    scale = max(abs(s[lo]), abs(s[hi]), 1e-300)
    eps = 1e-13 * scale + 1e-9 * 0
    thresholds = [t]
    near = abs(pos - round(pos)) < 1e-9 and pos != round(pos)
    if near or any(v != t and abs(v - t) <= eps for v in (s[lo], s[hi])) or (s[lo] != s[hi] and t in (s[lo], s[hi]) and pos != round(pos)):
        r = int(round(pos))
        for k in {r, lo, hi}:
            thresholds += [s[k], np.nextafter(s[k], np.inf)]
    elif pos == round(pos):
        thresholds += [s[int(round(pos))]]
    out = {}
    for th in thresholds:
        days = tuple(i for i, v in enumerate(x) if v < th)
        out[days] = True
    return list(out), t


def mean_of(firm, days):
    return math.fsum(float(firm[i]) for i in days) / len(days)


def sample(rng):
    n = int(rng.choice([3, 7, 20, 21, 60, 101, 250, 1001, 2000, 30000], p=[.05, .05, .1, .15, .15, .15, .15, .1, .09, .01]))
    kind = int(rng.integers(0, 6))
    if kind == 0:
        m = rng.normal(0, 0.01, n)
    elif kind == 1:
        m = rng.standard_t(3, n) * 0.02
    elif kind == 2:
        m = np.round(rng.normal(0, 0.02, n), 2)  # many ties
    elif kind == 3:
        m = rng.integers(-4, 5, n).astype(float)
    elif kind == 5:
        f, m = gen.market(rng, min(n, 2000), 2, percent=False)
        return f, m, kind
    else:
        m = rng.normal(0, 1, n)
        m[: n // 2] = m[0]
    rng.shuffle(m)
    f = rng.uniform(-1, 2) * m + rng.normal(0, 0.02, n)
    return f, m, kind


def estimate_or_nan(f, m, q):
    """An error will do as well as "not a number" for a mean over no day."""
    try:
        return float(MES(f, m).estimate(q))
    except Exception:
        return math.nan


@workload(quick=120, thorough=1500)
def no_tail(mon, rng, i):
    """No day lies strictly below the threshold: there is no mean to report."""
    n = int(rng.choice([1, 2, 5, 60, 250]))
    f = rng.normal(0, 0.02, n)
    q = float(rng.uniform(0.001, 0.6))
    style = i % 3
    if style == 0:
        m = np.full(n, float(rng.choice([0.0, 0.01, -0.3])))
    elif style == 1:
        m, q = rng.normal(0, 0.01, n), 0.0
    else:
        m = rng.normal(0, 0.01, n)
        m[rng.permutation(n)[: n // 2 + 1]] = -0.2  # the floor is hit on most days
        q = float(rng.uniform(0.001, 0.45))
    mon.describe(n=n, q=q, style=style)
    mon.check(not math.isfinite(estimate_or_nan(f, m, q)), "a number although no day lies below the quantile")
    mon.count("samples without tail")
    mon.seen(n, q)


@workload(quick=1000, thorough=20000)
def mes(mon, rng, i):
    f, m, kind = sample(rng)
    n = len(m)
    q = float(rng.choice([0.05, 0.01, 0.1, 0.25, 0.5, 0.9, rng.uniform(0.001, 0.999)]))
    mon.describe(n=n, q=q, kind=kind)
    sets, t = tail_candidates(m, q)
    if all(len(d) == 0 for d in sets):
        mon.check(not math.isfinite(estimate_or_nan(f, m, q)), "a number although no day lies below the quantile")
    if any(len(d) == 0 for d in sets):
        mon.skip("no day below the quantile")
    wants = [mean_of(f, d) for d in sets]
    tol = 1e-11 * float(np.max(np.abs(f)))

    def agrees(v, ws, kind, **kw):
        mon.check(np.ndim(v) == 0 and any(abs(float(v) - w) <= tol * kw.get("scale", 1.0) + 1e-300 for w in ws), kind, got=v, want=ws, q=q, **kw)

    snap = gen.snapshot(f, m)
    obj = MES(f, m)
    v = obj.estimate(q)
    agrees(v, wants, "mean over the tail days")
    agrees(obj.estimate(q=q), wants, "repeated estimate")
    if q == 0.05:
        agrees(MES(f, m).estimate(), wants, "default is 5%")
    mon.count("tail samples")
    if any(x == t for x in m):
        mon.count("samples with ties at the quantile")
    if len(sets) > 1:
        mon.count("rounding decides the tail")
        return
    # consequences, on the same sample
    c = float(rng.normal())
    agrees(MES(f + c, m).estimate(q), [wants[0] + c], "shift of the firm's returns", scale=1 + abs(c) / np.max(np.abs(f)))
    a = float(rng.choice([-3.0, 0.5, 100.0]))
    agrees(MES(f * a, m).estimate(q), [wants[0] * a], "scale of the firm's returns", scale=abs(a))
    p = rng.permutation(n)
    agrees(MES(f[p], m[p]).estimate(q), wants, "order of the days")
    agrees(MES(f, m * 4.0).estimate(q), wants, "scale of the market")
    agrees(MES(f, m * 0.125 - 0.0).estimate(q), wants, "scale of the market")
    if kind == 3:
        agrees(MES(f, m + 16.0).estimate(q), wants, "shift of the market")
        agrees(MES(f, m.astype(np.int64)).estimate(q), wants, "integer market returns")
    own = mean_of(m, sets[0])
    got = MES(m, m).estimate(q)
    mon.close(got, own, "the market's own tail mean", rtol=1e-11, atol=1e-12)
    mon.check(gen.snapshot(f, m) == snap, "inputs modified")
    name, mm = list(gen.layouts(m).items())[i % 9]
    name2, ff = list(gen.layouts(f).items())[(i * 7 + 3) % 9]
    agrees(MES(ff, mm).estimate(q), wants, "memory layout", layouts=[name, name2])
    # the number of days, not the first or the last day, decides
    if n >= 20 and 0 < len(sets[0]) < n:
        g = np.zeros(n)
        g[list(sets[0])] = 1.0
        mon.close(MES(g, m).estimate(q), 1.0, "only the tail days count", rtol=1e-12)
        mon.close(MES(1.0 - g, m).estimate(q), 0.0, "only the tail days count", atol=1e-12)
        mon.seen(float(wants[0]), q)


@workload(quick=400, thorough=8000)
def extremes(mon, rng, i):
    """Losses of any size are averaged, none is trimmed."""
    f, m, kind = sample(rng)
    n = len(m)
    q = float(rng.uniform(0.02, 0.6))
    sets, _ = tail_candidates(m, q)
    if len(sets) > 1 or not sets[0]:
        mon.skip("no unambiguous tail")
    f = f.copy()
    j = sets[0][int(rng.integers(0, len(sets[0])))]
    f[j] = float(rng.choice([-50.0, 1e3, -1e6]))
    k = int(rng.integers(0, n))
    if k not in sets[0]:
        f[k] = 1e7
    mon.describe(n=n, q=q, extreme=f[j])
    mon.close(MES(f, m).estimate(q), mean_of(f, sets[0]), "mean over the tail days", rtol=1e-11, atol=1e-9)
    mon.count("tail samples")
    mon.seen(float(f[j]), n, q)


def ols3(x, y, z):
    """Exact least squares of z on 1, x, y; all centred rationals."""
    from fractions import Fraction as Fr

    x, y, z = ([Fr(float(v)) for v in w] for w in (x, y, z))
    n = len(x)
    mx, my, mz = sum(x) / n, sum(y) / n, sum(z) / n
    x = [v - mx for v in x]
    y = [v - my for v in y]
    z = [v - mz for v in z]
    sxx = sum(v * v for v in x)
    syy = sum(v * v for v in y)
    sxy = sum(a * b for a, b in zip(x, y))
    sxz = sum(a * b for a, b in zip(x, z))
    syz = sum(a * b for a, b in zip(y, z))
    det = sxx * syy - sxy * sxy
    if det == 0:
        return None
    return (syy * sxz - sxy * syz) / det, (sxx * syz - sxy * sxz) / det, float(1 - sxy * sxy / (sxx * syy)) if sxx and syy else 0.0


@workload(quick=400, thorough=5000)
def ses(mon, rng, i):
    n = int(rng.choice([4, 5, 8, 30, 101, 300, 2000], p=[.17,.17,.17,.17,.15,.15,.02]))
    sx = float(gen.log_uniform(rng, 1e-4, 1))
    sy = float(gen.log_uniform(rng, 1e-2, 50))
    x = rng.normal(rng.normal() * sx, sx, n)
    y = rng.normal(rng.normal() * sy, sy, n) + rng.choice([0.0, 0.0, 2.0]) * x / sx * sy
    b0, c0 = rng.normal(size=2) / np.array([sx, sy])
    z = rng.normal() + b0 * x + c0 * y + rng.normal(0, rng.choice([0.0, 0.1, 1.0]), n)
    if i % 5 == 0:
        y = np.round(y * 100)
        if i % 10 == 0:
            y = y.astype(np.int64)
    if i % 3 == 1:  # weights far from one
        z = z * float(gen.log_uniform(rng, 1e-7, 1e4))
    mf, lf = float(rng.normal() * sx), float(rng.normal() * sy)
    r = ols3(x, y, z)
    if r is None:
        mon.skip("degenerate training sample")
    b, c, indep = r
    if abs(b + c) < 1e-3 * (abs(b) + abs(c)) or indep < 1e-3:
        mon.skip("degenerate training sample")
    from fractions import Fraction as Fr

    want = float((b * Fr(mf) + c * Fr(lf)) / (b + c))
    size = (abs(float(b)) * abs(mf) + abs(float(c)) * abs(lf)) / abs(float(b + c)) + 1e-300
    # conditioning of the regression
    X = np.vstack([np.ones(n), x, y]).T.astype(float)
    cond = np.linalg.cond(X)
    tol = size * (1e-9 + 1e-13 * cond * (1 + np.linalg.norm(z) / max(1e-300, np.linalg.norm(X @ [0, float(b), float(c)])))) * (abs(float(b)) + abs(float(c))) / abs(float(b + c))
    if tol > 1e-3 * size:
        mon.skip("ill-conditioned")
    mon.describe(n=n, scales=[sx, sy], weights=[float(b), float(c)], mes_firm=mf, lvg_firm=lf)
    snap = gen.snapshot(x, y, z)
    obj = SES(x, y, z, mf, lf)
    mon.close(obj.estimate(), want, "fitted combination", rtol=0, atol=tol, weights=[float(b), float(c)])
    mon.close(obj.estimate(), want, "repeated estimate", rtol=0, atol=tol)
    mon.count("training samples")
    mon.seen(want)
    p = rng.permutation(n)
    mon.close(SES(x[p], y[p], z[p], mf, lf).estimate(), want, "order of the training firms", rtol=0, atol=10 * tol)
    mon.close(SES(x, y, z * -8.0, mf, lf).estimate(), want, "scale of the training SES", rtol=0, atol=10 * tol)
    sh = float(rng.normal() * 3 * (np.std(z) + 1e-9))
    mon.close(SES(x, y, z + sh, mf, lf).estimate(), want, "shift of the training SES", rtol=0, atol=100 * tol)
    name, xx = list(gen.layouts(x).items())[i % 9]
    mon.close(SES(xx, y, z, mf, lf).estimate(), want, "memory layout", rtol=0, atol=10 * tol, layout=name)
    # weights add up to one: a firm at (t, t) has SES t
    t = float(rng.normal())
    k = (abs(float(b)) + abs(float(c))) / abs(float(b + c))
    mon.close(SES(x, y, z, t, t).estimate(), t, "weights add up to one", rtol=1e-10 * k, atol=1e-12)
    mon.close(SES(x, y, z, 0.0, 0.0).estimate(), 0.0, "no own intercept", atol=1e-12)
    mon.check(gen.snapshot(x, y, z) == snap, "inputs modified")
    mon.refused(lambda: SES(x, y[:-1], z, mf, lf).estimate(), "training samples of different length accepted")
