"""C05: the state and the parameters a GARCH/GJR-GARCH fit reports."""
import dataclasses

import numpy as np
from lib import gen, ref
from lib.mon import workload

RULE = """Percentage-scale return series of 100..3000 days: simulated GARCH, GJR-GARCH,
independent normal, heavy-tailed, windows of the stock returns that ship with frds, with jumps, regime shifts and large means; zero-mean
models or not; in percent or basis points; with missing days; given as arrays, lists, other layouts. Every fit is compared with an
independent scalar likelihood, with the whole starting grid and with the generating
parameters. Non-trivial: a fit that reported success."""
ASSUMPTIONS = ["returns in percent (variance 0.5 to 30), as the documentation asks"]
MIN_DISTINCT = 20
MIN_OBSERVED = {"successful fits": 20}
SHARDS = 6


def setup(mon):
    global GARCHModel, GJRGARCHModel
    from frds.algorithms import GARCHModel, GJRGARCHModel


NAMES = {False: ["omega", "alpha", "beta"], True: ["omega", "alpha", "gamma", "beta"]}


def values(p):
    return dataclasses.astuple(p)


def close_params(mon, p, q, kind, ll_tol=1e-3, tol=0.02, **kw):
    """Two optimisations of the same problem up to rounding of the data."""
    a, b = np.array(values(p)), np.array(values(q))
    mon.check(abs(a[-1] - b[-1]) <= ll_tol, kind, "log-likelihoods differ", p=a, q=b, **kw)
    mon.check(np.all(np.abs(a[:-1] - b[:-1]) <= tol * (0.05 + np.abs(b[:-1]))), kind, "parameters differ", p=a, q=b, **kw)


def make_series(rng, i, T):
    kind = 10 if i % 12 in (5, 8) else i % 10
    truth = None
    if kind in (0, 1, 2):
        r, truth = gen.returns_pct(rng, T, gjr=kind == 1)
        name = "GJR" if kind == 1 else "GARCH"
    elif kind == 3:
        r, name = rng.standard_normal(T) * rng.uniform(0.8, 4) + rng.normal() * 0.5, "iid"
    elif kind == 4:
        r, name = rng.standard_t(4, T) * rng.uniform(0.8, 2), "heavy-tailed"
    elif kind == 5:
        r, _ = gen.returns_pct(rng, T)
        r[rng.integers(0, T, 3)] += rng.normal(size=3) * 15
        name = "jumps"
    elif kind == 6:
        r = rng.standard_normal(T) * np.where(np.arange(T) < T // 2, 1.0, 3.0)
        name = "regimes"
    elif kind == 9:
        # falls raise the variance a great deal: the bound of gamma binds
        T = max(T, 600)
        r, truth = gen.garch_path(rng, T, 0.05, 0.5, 0.01, 0.15, 1.5), (0.05, 0.5, 0.01, 1.0, 0.15)
        name = "strong leverage"
    elif kind == 10:
        # short memory (beta at its bound) or hardly any reaction (alpha at its bound)
        if rng.random() < 0.6:
            pr = (0.05, float(rng.uniform(0.5, 3)), float(rng.uniform(0.3, 0.8)), 0.0, 0.0)
        else:
            pr = (0.05, float(rng.uniform(0.01, 0.05)), 0.015, 0.0, float(rng.uniform(0.9, 0.97)))
        r, truth = gen.garch_path(rng, T, pr[0], pr[1], pr[2], pr[4]), pr
        name = "one-sided memory"
    elif kind == 8:
        (r,), name = gen.market(rng, T), "stock returns"
    else:
        r, truth = gen.returns_pct(rng, T, gjr=True, mu_scale=3.0)
        name = "GJR with a large mean"
    return np.ascontiguousarray(r), name, truth


def verify(mon, m, r, gjr, zero, success_required):
    """Every claim about a fitted model m of the returns r."""
    p = m.parameters
    if not m.estimation_success:
        mon.check(not success_required, "fit fails on ordinary data")
        mon.count("unsuccessful fits")
        return None
    mon.count("successful fits")
    P = values(p)
    mon.require(np.isfinite(P).all(), "finite parameters", params=P)
    mu = p.mu
    vp = [getattr(p, n) for n in NAMES[gjr]]
    lo = 1e-6 if gjr else 0.0
    mon.check(vp[0] >= 1e-6 * (1 - 1e-9), "omega bound", params=P)
    mon.check(all(lo * (1 - 1e-9) - 1e-15 <= v <= 1 + 1e-12 for v in vp[1:]), "parameter bounds", params=P)
    pers = vp[1] + vp[-1] + (vp[2] / 2 if gjr else 0)
    mon.check(pers <= 1 + 1e-4, "stationarity", params=P, persistence=pers)
    if zero:
        mon.check(mu == 0.0, "zero mean", params=P)
    base = r if zero else r - r.mean()
    bc, vb = ref.backcast(base), ref.variance_bounds(base)
    ll, e, s2 = ref.uni_ll(r, mu, vp, gjr, bc, vb)
    mon.close(p.loglikelihood, ll, "reported log-likelihood", rtol=1e-8, atol=1e-6, params=P)
    mon.close(m.resids, e, "residuals of the fitted model", rtol=1e-12, atol=1e-12, params=P)
    mon.close(m.sigma2, s2, "variances of the fitted model", rtol=2e-4, atol=0, params=P)
    mon.check(np.isfinite(m.sigma2).all() and (np.asarray(m.sigma2) > 0).all(), "positive variances")
    # the whole starting grid
    mu0 = 0.0 if zero else r.mean()
    grid = [(ref.uni_ll(r, mu0, g, gjr, bc, vb)[0], g) for g in ref.grid_points(r, gjr)]
    best = max(grid)
    mon.check(p.loglikelihood >= best[0] - 1e-4, "below the starting grid", best=best, params=P)
    return ll, bc, vb, best


@workload(quick=162, thorough=700)
def contract(mon, rng, i):
    T = int(rng.choice([100, 150, 250, 400, 600, 1000])) if i % 29 else 3000
    r, name, truth = make_series(rng, i, T)
    gjr = bool(rng.integers(0, 2))
    zero = bool(rng.random() < 0.3)
    if zero and truth is not None:
        r, truth = r - truth[0], (0.0,) + truth[1:]
    cls = GJRGARCHModel if gjr else GARCHModel
    mon.describe(series=name, T=T, gjr=gjr, zero_mean=zero, truth=truth, head=r[:4])
    snap = gen.snapshot(r)
    m = cls(r, zero_mean=zero)
    p = m.fit()
    mon.check(isinstance(p, cls.Parameters) and values(p) == values(m.parameters) or np.isnan(p.loglikelihood), "fit returns the parameters")
    mon.check(gen.snapshot(r) == snap, "inputs modified")
    got = verify(mon, m, r, gjr, zero, success_required=truth is not None and T >= 250)
    if got is None:
        return
    ll, bc, vb, best = got
    if truth is not None and (gjr or truth[3] == 0):
        vt = [truth[1], truth[2], truth[3], truth[4]] if gjr else [truth[1], truth[2], truth[4]]
        lt = ref.uni_ll(r, truth[0], vt, gjr, bc, vb)[0]
        mon.check(ll >= lt - 0.1, "below the generating parameters", fitted=ll, truth=lt, params=values(p))
    # starting values are the best point of the grid
    m2 = cls(r, zero_mean=zero)
    sv = m2.preparation()
    mon.check(len(sv) == (3 if not gjr else 4) + (not zero), "length of the starting values")
    if not zero:
        mon.close(sv[0], r.mean(), "starting mean", rtol=1e-9, atol=1e-12)
    lsv = ref.uni_ll(r, 0.0 if zero else r.mean(), sv[-(4 if gjr else 3):], gjr, bc, vb)[0]
    mon.check(lsv >= best[0] - 1e-6 * (1 + abs(best[0])), "starting values are not the best grid point", start=lsv, best=best)
    mon.close(-m2.loglikelihood_model(np.array(sv), m2.backcast_value, m2.var_bounds, zero), lsv, "model likelihood at the starting values", rtol=1e-8)
    # fitting again
    before = (values(p), m.resids.tobytes(), np.asarray(m.sigma2).tobytes())
    for _ in range(2):
        q = m.fit()
        mon.check(q is not None and values(q) == before[0], "second fit", first=before[0], second=q and values(q))
    mon.check((m.resids.tobytes(), np.asarray(m.sigma2).tobytes()) == before[1:], "second fit changes the model")
    mon.check(values(p) == before[0] and values(m.parameters) == before[0], "second fit changes the parameters")
    mon.seen(r, gjr, zero)


@workload(quick=72, thorough=300)
def histories(mon, rng, i):
    """Equal data gives equal results whatever container, layout and earlier fits."""
    T = int(rng.choice([120, 300, 500]))
    gjr = bool(i % 2)
    cls = GJRGARCHModel if gjr else GARCHModel
    r, name, truth = make_series(rng, int(rng.integers(0, 3)), T)
    other, _, _ = make_series(rng, int(rng.integers(0, 9)), int(rng.integers(100, 400)))
    mon.describe(T=T, gjr=gjr, series=name)
    first = cls(r)
    p = first.fit()
    if not first.estimation_success:
        mon.skip("unsuccessful fit")
    mon.count("successful fits")
    # other fits before, between construction and fitting, and with the other class
    again = cls(r.copy())
    for c in (cls, GARCHModel, GJRGARCHModel):
        c(other, zero_mean=bool(rng.integers(0, 2))).fit()
    q = again.fit()
    close_params(mon, q, p, "history", ll_tol=1e-9, tol=1e-9)
    mon.check(values(first.parameters) == values(p) and values(first.fit()) == values(p), "history", "earlier model changed")
    # two models alive at once, their evaluations interleaved by hand
    a, b = cls(r), cls(other)
    a.preparation(), b.preparation()
    close_params(mon, a.fit(), p, "history", ll_tol=1e-9, tol=1e-9)
    # containers and layouts
    alts = gen.layouts(r)
    k = list(alts)[i % len(alts)]
    close_params(mon, cls(alts[k]).fit(), p, "layout", layout=k)
    close_params(mon, cls(r.tolist()).fit(), p, "container", container="list")
    # element types: the numbers an array of another type holds
    for t, x in (("float32", r.astype(np.float32)), ("int16", np.round(r * 3).astype(np.int16)), ("float16", r.astype(np.float16)),
                 ("uint8", np.clip(np.round(r * 4 + 100), 0, 255).astype(np.uint8)), ("longdouble", r.astype(np.longdouble))):
        u, v = cls(x), cls(x.astype(np.float64))
        p1, p2 = u.fit(), v.fit()
        mon.check(u.estimation_success == v.estimation_success, "element type", "success differs", type=t)
        if u.estimation_success and v.estimation_success:
            close_params(mon, p1, p2, "element type", ll_tol=1e-9, tol=1e-9, type=t)
            mon.close(u.resids, v.resids, "element type", rtol=1e-12, atol=1e-12, type=t)
            mon.close(u.sigma2, v.sigma2, "element type", rtol=1e-12, type=t)
    import pandas as pd

    close_params(mon, cls(pd.Series(r)).fit(), p, "container", container="Series")
    z1, z2 = cls(r, zero_mean=True), cls(r, True)
    z1.fit(), z2.fit()
    mon.check(z1.estimation_success == z2.estimation_success, "zero mean positional")
    if z1.estimation_success:
        close_params(mon, z1.parameters, z2.parameters, "zero mean positional", ll_tol=1e-9, tol=1e-9)
    # likelihood of the model at arbitrary admissible parameters
    bc, vb = ref.backcast(r), ref.variance_bounds(r)
    m = cls(r)
    for _ in range(4):
        mu, om, al, ga, be = gen.garch_params(rng, gjr)
        vp = [om, al, ga, be] if gjr else [om, al, be]
        for zero in (False, True):
            x = np.array(vp if zero else [mu] + vp)
            want = ref.uni_ll(r, 0.0 if zero else mu, vp, gjr, bc, vb)[0]
            mon.close(m.loglikelihood_model(x, bc, vb, zero), -want, "model likelihood", rtol=1e-9)
            s = rng.uniform(0.1, 5, T)
            mon.close(cls.loglikelihood(r, s), ref.normal_ll(r, s), "normal likelihood", rtol=1e-10)
    mon.seen(r, gjr)


@workload(quick=36, thorough=150)
def scaling(mon, rng, i):
    """Measured in other units the same model is found (log-likelihood shifts by -T log c)."""
    T = 600
    gjr = bool(i % 2)
    cls = GJRGARCHModel if gjr else GARCHModel
    r, truth = gen.returns_pct(rng, T, gjr=gjr, var=4.0)
    c = float(rng.choice([0.6, 1.7, 2.5]))
    mon.describe(T=T, gjr=gjr, c=c)
    a, b = cls(r), cls(r * c)
    p, q = a.fit(), b.fit()
    if not (a.estimation_success and b.estimation_success):
        mon.skip("unsuccessful fit")
    mon.count("successful fits", 2)
    base = r - r.mean()
    vt = truth[1:] if gjr else [truth[1], truth[2], truth[4]]
    lt = ref.uni_ll(r, truth[0], vt, gjr, ref.backcast(base), ref.variance_bounds(base))[0] - 0.1

    def agree(u, v, kind, **kw):
        # another local optimum will do if it explains the data as well as the truth does
        mon.check(abs(u - v) <= 0.5 or min(u, v) >= lt, kind, p=values(p), truth=lt, got=u, want=v, **kw)

    agree(q.loglikelihood + T * np.log(c), p.loglikelihood, "scale equivariance", q=values(q), c=c)
    d = float(rng.normal() * 3)
    sh = cls(r + d)
    s = sh.fit()
    if sh.estimation_success:
        agree(s.loglikelihood, p.loglikelihood, "shift equivariance", q=values(s), d=d)
    mon.seen(r, c)


@workload(quick=300, thorough=2500)
def optimum(mon, rng, i):
    """Simulated data: a second search from the reported parameters finds next to nothing."""
    from scipy.optimize import minimize

    T = int(rng.choice([250, 400, 1000]))
    for _ in range(3):
        r, name, truth = make_series(rng, [0, 1, 2, 5, 8, 9][i % 6] if i % 6 in (3, 4) else [0, 1, 2, 0, 0, 7][i % 6], T)
        if truth is not None:
            break
    else:
        mon.skip("no simulated series")
    gjr = bool((i // 6) % 2)
    m = (GJRGARCHModel if gjr else GARCHModel)(r)
    mon.describe(T=T, gjr=gjr, series=name, truth=truth)
    p = m.fit()
    mon.check(m.estimation_success, "fit fails on ordinary data")
    if not m.estimation_success:
        return
    mon.count("successful fits")
    base = r - r.mean()
    bc, vb = ref.backcast(base), ref.variance_bounds(base)
    probe = (GJRGARCHModel if gjr else GARCHModel)(r)
    lo = 1e-6 if gjr else 0.0
    best, x = ref.uni_ll(r, p.mu, values(p)[1:-1], gjr, bc, vb)[0], np.array(values(p)[:-1])
    ll = best
    room = lambda v: 1 - v[2] - v[-1] - (v[3] / 2 if gjr else 0)
    for _ in range(2):
        o = minimize(lambda v: probe.loglikelihood_model(v, bc, vb), x, method="SLSQP", bounds=[(None, None), (1e-6, None)] + [(lo, 1.0)] * (len(x) - 2),
                     constraints={"type": "ineq", "fun": room}, options={"ftol": 1e-12, "maxiter": 300})
        if not np.isfinite(o.fun) or room(o.x) < -1e-6:
            break
        v = ref.uni_ll(r, o.x[0], list(o.x[1:]), gjr, bc, vb)[0]
        if v > best:
            best, x = v, o.x
    react = lambda v: v[2] + (v[3] / 2 if gjr else 0)
    if min(react(values(p)), react(x)) < 0.01 or room(x) < 1e-3:
        # without a reaction to shocks, or at the edge of stationarity, the likelihood is a ridge
        mon.count("optima on a ridge")
        mon.check(best - ll <= 3, "the search stopped short of the optimum", fitted=ll, found=best, params=values(p), better=x)
        return
    mon.check(best - ll <= 0.1, "the search stopped short of the optimum", fitted=ll, found=best, params=values(p), better=x)
    mon.seen(r, gjr)


@workload(quick=48, thorough=300)
def units(mon, rng, i):
    """Basis points, or a large common component: further from the recommended scale, still found."""
    T = int(rng.choice([400, 600, 1000]))
    gjr = bool(i % 2)
    r, truth = gen.returns_pct(rng, T, gjr=gjr, var=float(gen.log_uniform(rng, 1, 12)))
    c = float(rng.choice([1.0, 100.0]))
    d = float(rng.choice([0.0, 20.0, -15.0]) if rng.random() < 0.7 else rng.uniform(-1, 1)) * c
    x = r * c + d
    m = (GJRGARCHModel if gjr else GARCHModel)(x)
    mon.describe(T=T, gjr=gjr, scale=c, shift=d, truth=truth)
    m.fit()
    got = verify(mon, m, x, gjr, False, True)
    if got is None:
        return
    ll, bc, vb, best = got
    vt = [truth[1] * c * c, truth[2], truth[3], truth[4]] if gjr else [truth[1] * c * c, truth[2], truth[4]]
    lt = ref.uni_ll(x, truth[0] * c + d, vt, gjr, bc, vb)[0]
    mon.check(ll >= lt - 0.5, "below the generating parameters", fitted=ll, truth=lt, params=values(m.parameters))
    mon.seen(x, gjr)


@workload(quick=36, thorough=200)
def gaps(mon, rng, i):
    """Days without a return cannot be fitted, and no fit is claimed."""
    T = int(rng.choice([100, 300]))
    r, truth = gen.returns_pct(rng, T)
    bad = [np.nan, np.inf, -np.inf][i % 3]
    where = [0, T - 1, int(rng.integers(1, T - 1)), slice(T // 3, T // 2)][(i // 3) % 4]
    r[where] = bad
    gjr, zero = bool(i % 2), bool((i // 2) % 2)
    mon.describe(T=T, value=str(bad), where=str(where), gjr=gjr, zero_mean=zero)
    m = (GJRGARCHModel if gjr else GARCHModel)(r, zero_mean=zero)
    try:
        with np.errstate(all="ignore"):
            p = m.fit()
    except Exception as e:
        mon.count("missing returns refused with " + type(e).__name__)
        mon.checks += 1
        return
    mon.check(not m.estimation_success, "success is reported for returns with missing days", params=values(m.parameters))
    mon.check(p is None or not np.isfinite(p.loglikelihood), "a likelihood is reported for returns with missing days", params=p and values(p))
