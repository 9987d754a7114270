"""C06: constant-conditional-correlation likelihood and fit."""
import dataclasses

import numpy as np
from lib import gen, ref
from lib.mon import workload

RULE = """Pairs of percentage-scale series of 100..1200 days with correlations -0.98..0.98
(simulated GARCH pairs, independent pairs, heavy tails, identical-up-to-noise pairs, stock returns, very
different scales, pure ARCH pairs and,  for the likelihood function, random admissible parameter vectors and
variance paths. Non-trivial: a likelihood evaluated at a non-zero correlation, or a
successful fit."""
ASSUMPTIONS = ["returns in percent, as the documentation asks"]
MIN_DISTINCT = 20
MIN_OBSERVED = {"successful fits": 8, "likelihoods compared": 100}
SHARDS = 6
values = dataclasses.astuple


def setup(mon):
    global GARCHModel, GARCHModel_CCC
    from frds.algorithms import GARCHModel, GARCHModel_CCC


def pair(rng, T, kind):
    truth = None
    if kind <= 2:
        a, b, ps, rho = gen.pair_pct(rng, T)
        truth = [*np.delete(ps[0], 3), *np.delete(ps[1], 3), rho]
        name = "GARCH pair"
    elif kind == 3:
        a = gen.returns_pct(rng, T)[0]
        b = gen.returns_pct(rng, T)[0]
        name = "independent"
    elif kind == 4:
        z = rng.standard_t(5, (T, 2))
        a, b = z[:, 0] * 1.2, (0.5 * z[:, 0] + z[:, 1]) * 2
        name = "heavy-tailed"
    elif kind == 5:
        a = gen.returns_pct(rng, T, var=1.0)[0]
        b = float(rng.choice([-1, 1])) * a * 4 + rng.standard_normal(T) * 1.0
        name = "nearly the same asset"
    elif kind == 6:
        a, b, ps, rho = gen.pair_pct(rng, T, dcc=True)
        name = "moving correlation"
    elif kind == 8:
        a = gen.returns_pct(rng, T, var=1.0)[0]
        b = float(rng.choice([-1, 1])) * a + rng.standard_normal(T) * float(rng.choice([0.02, 0.05, 0.1])) * np.std(a)
        name = "two listings of one asset"
    elif kind == 10:
        # yesterday's shock is all there is: beta is on its bound (short memory), or alpha is nearly
        z = rng.standard_normal((T + 200, 2))
        rho = float(rng.uniform(-0.8, 0.8))
        z[:, 1] = rho * z[:, 0] + np.sqrt(1 - rho**2) * z[:, 1]
        ps = []
        for j in (0, 1):
            if rng.random() < 0.7:
                ps.append((0.05, float(rng.uniform(0.5, 3)), float(rng.uniform(0.2, 0.5)), 0.0))
            else:
                ps.append((0.05, float(rng.uniform(0.01, 0.05)), 0.02, float(rng.uniform(0.9, 0.97))))
        a, b = (gen.garch_path(rng, T, *p, z=z[:, j]) for j, p in enumerate(ps))
        truth, name = [*ps[0], *ps[1], rho], "one-sided memory"
    elif kind == 11:
        a, b, ps, rho = gen.pair_pct(rng, T, rho=float(rng.choice([-1, 1]) * rng.uniform(0.91, 0.98)))
        truth = [*np.delete(ps[0], 3), *np.delete(ps[1], 3), rho]
        name = "close substitutes"
    elif kind == 9:
        (a, b), name = gen.market(rng, T, 2), "stock returns"
    else:
        # one asset of explosive, one of short-lived volatility
        a, b = np.empty(T), np.empty(T)
        s = 1.0
        for t in range(T):
            a[t] = np.sqrt(s) * rng.standard_normal()
            s = min(0.01 + 0.35 * a[t] ** 2 + 0.8 * s, 30.0)
        b = rng.standard_normal(T) * 1.5
        b[1:] *= np.sqrt(0.5 + 0.5 * np.minimum(b[:-1] ** 2, 4))
        b = b + 0.3 * a
        if rng.random() < 0.5:
            a, b = b, a
        name = "integrated volatility"
    return a, b, truth, name


@workload(quick=216, thorough=4000)
def likelihood(mon, rng, i):
    T = int(rng.choice([1, 2, 5, 50, 76, 200, 800])) if i % 23 else int(rng.integers(3000, 9000))
    a, b, truth, name = pair(rng, max(T, 2), int(rng.integers(0, 11)))
    a, b = a[:T], b[:T]
    m = GARCHModel_CCC(a, b)
    rho = float(rng.choice([0.0, 0.99, -0.99, *rng.uniform(-0.99, 0.99, 5)]))
    # explicit residuals and variances
    spread = float(rng.choice([2, 1e3, 1e6]))
    s1, s2 = (gen.log_uniform(rng, 1e-12, 1e12) * gen.log_uniform(rng, 1 / spread, spread, T) for _ in range(2))
    e1, e2 = rng.standard_normal(T) * np.sqrt(s1), rng.standard_normal(T) * np.sqrt(s2)
    mon.describe(T=T, rho=rho, series=name)
    snap = gen.snapshot(e1, s1, e2, s2, a, b)
    want = ref.bivariate_ll(e1, s1, e2, s2, rho)
    scale = 1e-9 * T / (1 - rho**2)
    mon.close(m.loglikelihood(e1, s1, e2, s2, rho), want, "log-likelihood", rtol=1e-9, atol=scale)
    mon.close(m.loglikelihood(e2, s2, e1, s1, rho), want, "swapped log-likelihood", rtol=1e-9, atol=scale)
    mon.close(m.loglikelihood(-e1, s1, e2, s2, -rho), want, "mirrored log-likelihood", rtol=1e-9, atol=scale)
    if i % 5 == 0:
        # the same density as marginal times conditional
        from scipy.stats import norm

        sd1, sd2 = np.sqrt(s1), np.sqrt(s2)
        w = norm.logpdf(e1, 0, sd1) + norm.logpdf(e2, rho * sd2 / sd1 * e1, sd2 * np.sqrt(1 - rho**2))
        mon.close(m.loglikelihood(e1, s1, e2, s2, rho), np.sum(w), "log-likelihood against scipy", rtol=1e-8, atol=10 * scale)
    mon.count("likelihoods compared", 3)
    if T < 2:
        return
    # the function of the parameters
    for _ in range(3):
        mu1, om1, al1, _, be1 = gen.garch_params(rng)
        mu2, om2, al2, _, be2 = gen.garch_params(rng)
        ms = []
        for (mu, om, al, be), r in (((mu1, om1, al1, be1), a), ((mu2, om2, al2, be2), b)):
            e = r - mu
            bc, vb = ref.backcast(e), ref.variance_bounds(e)
            ms.append((e, bc, vb, ref.garch_variance([om, al, be], e, bc, vb)))
        (f1, bc1, vb1, v1), (f2, bc2, vb2, v2) = ms
        want = ref.bivariate_ll(f1, v1, f2, v2, rho)
        x = np.array([mu1, om1, al1, be1, mu2, om2, al2, be2, rho])
        tol = dict(rtol=1e-8, atol=1e-6)
        mon.close(-m.loglikelihood_model(x, bc1, bc2, vb1, vb2), want, "model likelihood", **tol)
        y = np.array([mu2, om2, al2, be2, mu1, om1, al1, be1, rho])
        mon.close(-GARCHModel_CCC(b, a).loglikelihood_model(y, bc2, bc1, vb2, vb1), want, "model likelihood swapped", **tol)
        z = x.copy()
        z[0], z[8] = -mu1, -rho
        mon.close(-GARCHModel_CCC(-a, b).loglikelihood_model(z, bc1, bc2, vb1, vb2), want, "model likelihood mirrored", **tol)
        z = x.copy()
        z[4], z[8] = -mu2, -rho
        mon.close(-GARCHModel_CCC(a, -b).loglikelihood_model(z, bc1, bc2, vb1, vb2), want, "model likelihood mirrored", **tol)
        mon.close(-m.loglikelihood_model(x, bc1, bc2, vb1, vb2), want, "model likelihood again", **tol)
        mon.count("likelihoods compared", 5)
    mon.check(gen.snapshot(e1, s1, e2, s2, a, b) == snap, "inputs modified")
    if rho:
        mon.seen(T, rho, a)


def both_ll(x, a, b):
    """Likelihood at x with the variances started from the residuals, and from the demeaned returns."""
    out = []
    for demeaned in (False, True):
        es = []
        for k, r in ((0, a), (4, b)):
            e = r - x[k]
            base = r - r.mean() if demeaned else e
            es += [e, ref.garch_variance(x[k + 1 : k + 4], e, ref.backcast(base), ref.variance_bounds(base))]
        out.append(ref.bivariate_ll(*es, x[8]))
    return out


@workload(quick=86, thorough=700)
def fits(mon, rng, i):
    T = int(rng.choice([100, 200, 300, 500, 1200]))
    kind = 10 if i % 12 in (7, 10) else 11 if i % 12 == 3 else i % 10
    T = max(T, 1200) if kind == 10 else T
    a, b, truth, name = pair(rng, T, kind)
    if i % 11 == 4:
        a, b = a + rng.normal() * 5, b + rng.normal() * 5
    mon.describe(T=T, series=name, truth=truth if i % 11 != 4 else None)
    snap = gen.snapshot(a, b)
    m = GARCHModel_CCC(a, b)
    p = m.fit()
    mon.check(gen.snapshot(a, b) == snap, "inputs modified")
    if not m.estimation_success:
        mon.count("unsuccessful fits")
        return
    mon.count("successful fits")
    mon.require(isinstance(p, GARCHModel_CCC.Parameters) and np.isfinite(values(p)).all(), "finite parameters", p=values(p))
    x = np.array(values(p)[:9])
    for k in (0, 4):
        mon.check(x[k + 1] >= 1e-6 * (1 - 1e-9) and np.all(x[k + 2 : k + 4] >= -1e-12) and np.all(x[k + 2 : k + 4] <= 1 + 1e-12), "parameter bounds", p=x)
        mon.check(x[k + 2] + x[k + 3] <= 1 + 1e-4, "stationarity", p=x)
    mon.check(abs(p.rho) <= 0.99 + 1e-9, "correlation bounds", p=x)
    lls = both_ll(x, a, b)
    mon.check(min(abs(p.loglikelihood - l) for l in lls) <= 1e-6 * abs(lls[0]) + 1e-5, "reported log-likelihood", got=p.loglikelihood, want=lls)
    # at least the separate models with zero correlation
    m1, m2 = GARCHModel(a), GARCHModel(b)
    p1, p2 = m1.fit(), m2.fit()
    if m1.estimation_success and m2.estimation_success:
        x0 = np.array([*values(p1)[:4], *values(p2)[:4], 0.0])
        l0 = max(both_ll(x0, a, b))
        mon.check(p.loglikelihood >= l0 - 0.05, "below the separate models", got=p.loglikelihood, separate=l0)
        mon.check(p.loglikelihood >= p1.loglikelihood + p2.loglikelihood - 0.5, "below the separate models", got=p.loglikelihood, separate=p1.loglikelihood + p2.loglikelihood)
    if truth is not None and i % 11 != 4:
        lt = max(both_ll(np.array(truth), a, b))
        mon.check(p.loglikelihood >= lt - 0.1, "below the generating parameters", got=p.loglikelihood, truth=lt)
    first = values(p)
    for _ in range(2):
        q = m.fit()
        mon.check(q is not None and values(q) == first, "second fit", first=first, second=q and values(q))
    if i % 3 == 0:
        # another object, after other work
        GARCHModel_CCC(b[: T // 2], a[: T // 2]).fit()
        o = GARCHModel_CCC(a.copy(), b.copy())
        q = o.fit()
        mon.check(np.allclose(values(q), first, rtol=1e-9, atol=1e-9), "history", first=first, second=values(q))
        f1, f2 = a.astype(np.float32), b.astype(np.float32)
        u, v = GARCHModel_CCC(f1, f2), GARCHModel_CCC(f1.astype(float), f2.astype(float))
        q, t = u.fit(), v.fit()
        mon.check(u.estimation_success == v.estimation_success and np.allclose(values(q), values(t), rtol=1e-9, atol=1e-9, equal_nan=True),
                  "element type", got=values(q), want=values(t))
        lay = gen.layouts(a)
        k = list(lay)[(i // 3) % len(lay)]
        q = GARCHModel_CCC(lay[k], b).fit()
        mon.check(abs(q.loglikelihood - p.loglikelihood) <= 0.01, "layout", layout=k, got=values(q), want=first)
        s = GARCHModel_CCC(b, a)
        q = s.fit()
        # near the edge of the correlations the two searches may stop at different points
        if s.estimation_success and abs(p.rho) < 0.9:
            mon.check(abs(q.loglikelihood - p.loglikelihood) <= 0.5, "swapped fit", p=first, q=values(q))
            mon.check(abs(q.rho - p.rho) <= 0.05, "swapped fit", p=first, q=values(q))
    mon.seen(a, b)
