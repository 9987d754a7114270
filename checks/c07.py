"""C07: dynamic conditional correlations and DCC fits."""
import dataclasses

import numpy as np
from lib import gen, ref
from lib.mon import workload

RULE = """Pairs of percentage-scale series (constant, moving, strong, negative and no
correlation, heavy tails, stock returns) with GARCH or GJR-GARCH margins given as arrays, unfitted or
fitted models, zero-mean or not; (a, b) over the whole admissible triangle including its
edges. Non-trivial: a correlation path with a > 0, or a successful joint fit."""
ASSUMPTIONS = ["returns in percent, as the documentation asks"]
MIN_DISTINCT = 20
MIN_OBSERVED = {"successful fits": 8, "correlation paths compared": 100}
SHARDS = 6
values = dataclasses.astuple


def setup(mon):
    global CLASSES
    from frds.algorithms import GARCHModel, GARCHModel_DCC, GJRGARCHModel, GJRGARCHModel_DCC

    CLASSES = {False: (GARCHModel, GARCHModel_DCC), True: (GJRGARCHModel, GJRGARCHModel_DCC)}


def pair(rng, T, kind):
    if kind <= 1:
        a, b, _, _ = gen.pair_pct(rng, T, gjr=bool(rng.integers(0, 2)))
        return a, b, "constant correlation"
    if kind <= 3:
        a, b, _, _ = gen.pair_pct(rng, T, dcc=True)
        return a, b, "moving correlation"
    if kind == 4:
        return gen.returns_pct(rng, T)[0], gen.returns_pct(rng, T)[0], "independent"
    if kind == 5:
        z = rng.standard_t(5, (T, 2))
        return z[:, 0] * 1.2, (-0.8 * z[:, 0] + 0.6 * z[:, 1]) * 2, "heavy-tailed"
    if kind == 7:
        return *gen.market(rng, T, 2), "stock returns"
    a, b, _, _ = gen.pair_pct(rng, T, rho=float(rng.choice([-0.97, 0.97])))
    return a, b, "strong correlation"


def z_of(m):
    return np.asarray(m.resids) / np.sqrt(np.asarray(m.sigma2))


def triangle(rng, n):
    pts = [(0.0, 0.0), (0.0, 1.0), (1.0, 0.0), (0.5, 0.5), (0.05, 0.9), (0.0, 0.7), (0.3, 0.0), (0.2, 0.8)]
    while len(pts) < n:
        a, b = rng.random(2)
        if a + b <= 1:
            pts.append((float(a), float(b)))
        s = rng.random()
        pts.append((float(s * 0.1), float(1 - s * 0.1 - 1e-3 * rng.random())))
    return pts[:n]


@workload(quick=100, thorough=900)
def recursion(mon, rng, i):
    gjr = bool(i % 2)
    U, D = CLASSES[gjr]
    T = int(rng.choice([100, 150, 260, 500])) if i % 13 else int(rng.choice([2000, 5000, 9000]))
    r1, r2, name = pair(rng, T, int(rng.integers(0, 8)))
    zero = bool(rng.random() < 0.25)
    m1, m2 = U(r1, zero_mean=zero), U(r2)
    mon.describe(T=T, gjr=gjr, series=name, zero_mean_first=zero)
    fitted = (i // 2) % 4  # which margins are fitted beforehand
    k1, k2 = U(r1, zero_mean=zero), U(r2)
    k1.fit(), k2.fit()
    if not (k1.estimation_success and k2.estimation_success):
        mon.skip("unsuccessful margin")
    if fitted & 1:
        m1.fit()
    d = D(m1, m2)
    if fitted & 2:
        m2.fit()
    rho = d.conditional_correlations(0.05, 0.9)  # fits what is not fitted
    mon.require(m1.estimation_success and m2.estimation_success, "margins are fitted on demand", fitted=fitted)
    for m, k in ((m1, k1), (m2, k2)):
        mon.check(np.allclose(values(m.parameters), values(k.parameters), rtol=1e-9, atol=1e-9), "margins are fitted on demand",
                  got=values(m.parameters), want=values(k.parameters))
    z1, z2 = z_of(m1), z_of(m2)
    state = gen.snapshot(m1.resids, m2.resids, np.asarray(m1.sigma2), np.asarray(m2.sigma2), r1, r2)
    const = np.corrcoef(z1, z2)[0, 1]
    first = {}
    for a, b in [(0.05, 0.9)] + triangle(rng, 14):
        rho = d.conditional_correlations(a, b)
        want = ref.dcc_rho(a, b, z1, z2)
        if np.isnan(want).any():
            mon.count("undefined correlation paths")
            keep = np.isfinite(want)
            mon.close(np.asarray(rho)[keep], want[keep], "conditional correlations", rtol=1e-8, atol=1e-10, a=a, b=b)
            continue
        mon.close(rho, want, "conditional correlations", rtol=1e-8, atol=1e-10, a=a, b=b)
        mon.check(np.all(np.abs(rho) <= 1 + 1e-12), "correlations within [-1, 1]", a=a, b=b)
        if a == 0:
            mon.close(rho, np.full(T, const), "constant correlations", rtol=1e-9, atol=1e-12)
        first[a, b] = rho
        mon.count("correlation paths compared")
        # the two-stage likelihood
        want_ll = ref.dcc_ll(m1.parameters.loglikelihood, m2.parameters.loglikelihood, z1, z2, want)
        mon.close(-d.loglikelihood_model([a, b]), want_ll, "two-stage likelihood", rtol=1e-7, atol=1e-4, a=a, b=b)
        if a > 0:
            mon.seen(a, b, r1)
    for (a, b), rho in first.items():
        mon.check(np.array_equal(d.conditional_correlations(a, b), rho), "history", a=a, b=b)
    # other objects, the assets exchanged, the same fitted models
    e = D(m2, m1)
    for a, b in list(first)[:4]:
        mon.close(e.conditional_correlations(a, b), first[a, b], "exchanged assets", rtol=1e-9, atol=1e-11)
    # layouts of the state the correlations are computed from
    keep = m1.resids, m2.sigma2
    l1, l2 = gen.layouts(m1.resids), gen.layouts(np.asarray(m2.sigma2))
    for k in l1:
        m1.resids, m2.sigma2 = l1[k], l2[k]
        mon.close(d.conditional_correlations(0.05, 0.9), first[0.05, 0.9], "layout", rtol=1e-9, atol=1e-11, layout=k)
    m1.resids, m2.sigma2 = keep
    mon.check(state == gen.snapshot(m1.resids, m2.resids, np.asarray(m1.sigma2), np.asarray(m2.sigma2), r1, r2), "models modified")


@workload(quick=100, thorough=800)
def fits(mon, rng, i):
    gjr = bool(i % 2)
    U, D = CLASSES[gjr]
    T = int(rng.choice([150, 250, 400, 800]))
    r1, r2, name = pair(rng, T, (i // 2) % 8)
    mon.describe(T=T, gjr=gjr, series=name)
    snap = gen.snapshot(r1, r2)
    d = D(r1, r2)
    p = d.fit()
    mon.check(gen.snapshot(r1, r2) == snap, "inputs modified")
    u1, u2 = U(r1), U(r2)
    u1.fit(), u2.fit()
    mon.check(d.model1.estimation_success == u1.estimation_success and d.model2.estimation_success == u2.estimation_success,
              "margins are fitted on demand")
    if not (u1.estimation_success and u2.estimation_success):
        mon.check(not d.estimation_success, "success without fitted margins")
        mon.skip("unsuccessful margin")
    if not d.estimation_success:
        mon.count("unsuccessful fits")
        return
    mon.count("successful fits")
    mon.require(isinstance(p, D.Parameters) and np.isfinite(values(p)).all(), "finite parameters", p=values(p))
    mon.check(p.a >= -1e-9 and p.b >= -1e-9 and p.a + p.b <= 1 + 1e-6, "admissible a and b", a=p.a, b=p.b)
    uni = [*values(u1.parameters)[:-1], *values(u2.parameters)[:-1]]
    mon.check(np.array_equal(values(p)[: len(uni)], uni), "univariate parameters carried over", got=values(p), want=uni)
    z1, z2 = z_of(u1), z_of(u2)
    l1, l2 = u1.parameters.loglikelihood, u2.parameters.loglikelihood
    ll = ref.dcc_ll(l1, l2, z1, z2, ref.dcc_rho(p.a, p.b, z1, z2))
    mon.close(p.loglikelihood, ll, "reported likelihood", rtol=1e-7, atol=1e-4)
    pts = ref.DCC_GRID[:: 1 if i % 4 == 0 else 7]
    grid = [(ref.dcc_ll(l1, l2, z1, z2, ref.dcc_rho(a, b, z1, z2)), (float(a), float(b))) for a, b in pts]
    best = max(grid)
    mon.check(p.loglikelihood >= best[0] - 1e-3, "below the starting grid", best=best, got=p.loglikelihood)
    sv = d.starting_values()
    lsv = ref.dcc_ll(l1, l2, z1, z2, ref.dcc_rho(*sv, z1, z2))
    mon.check(any(abs(sv[0] - a) + abs(sv[1] - b) < 1e-12 for a, b in ref.DCC_GRID), "starting values are not on the grid", sv=sv)
    mon.check(lsv >= best[0] - 1e-4, "starting values are not the best grid point", start=lsv, best=best)
    mon.check(p.loglikelihood >= lsv - 1e-3, "below the starting values", start=lsv, got=p.loglikelihood)
    first = values(p)
    for _ in range(2):
        q = d.fit()
        mon.check(q is not None and values(q) == first, "second fit", first=first, second=q and values(q))
    # arrays, unfitted and fitted models, one of each
    def same(o, kind):
        q = o.fit()
        mon.check(o.estimation_success and np.allclose(values(q), first, rtol=1e-9, atol=1e-9), kind, first=first, second=q and values(q))

    same(D(U(r1), U(r2)), "unfitted models")
    same(D(u1, u2), "fitted models")
    if i % 2:
        same(D(r1, u2), "array and fitted model")
        same(D(u1, r2), "fitted model and array")
    else:
        same(D(U(r1), r2), "unfitted model and array")
        same(D(r1, U(r2)), "array and unfitted model")
    # other element types and layouts of the same numbers
    f1, f2 = r1.astype(np.float32), r2.astype(np.float32)
    o, w = D(f1, f2), D(f1.astype(float), f2.astype(float))
    q, t = o.fit(), w.fit()
    mon.check(o.estimation_success == w.estimation_success and np.allclose(values(q), values(t), rtol=1e-9, atol=1e-9, equal_nan=True),
              "element type", got=values(q), want=values(t))
    lay = gen.layouts(r1)
    name = list(lay)[i % len(lay)]
    q = D(lay[name], r2).fit()
    mon.check(abs(q.loglikelihood - p.loglikelihood) <= 0.01, "layout", layout=name, got=values(q), want=first)
    # a margin that serves several joint models
    other = pair(rng, T, 0)[0]
    D(u1, other).fit()
    same(D(u1, u2), "margin used in another model")
    # the assets exchanged
    s = D(r2, r1)
    q = s.fit()
    if s.estimation_success:
        k = len(uni) // 2
        mon.check(np.array_equal(values(q)[: 2 * k], uni[k:] + uni[:k]), "exchanged assets", got=values(q), want=first)
        mon.check(abs(q.loglikelihood - p.loglikelihood) <= 0.05, "exchanged assets", got=values(q), want=first)
    mon.check(gen.snapshot(r1, r2) == snap, "inputs modified")
    mon.seen(r1, r2)
