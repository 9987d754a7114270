"""C08: LRMES against a vectorised replay of the same seeded bootstrap."""
import warnings

import numpy as np
from lib import gen, ref
from lib.mon import workload

RULE = """Firm/market raw-return pairs (GJR pairs, moving, strong and negative correlation,
stock returns, crisis endings that leave high last variances), horizons 1..252, 1..3000 paths, thresholds
-0.6..+0.1 including ones no path or every path crosses, many seeds; several estimates on
one object and on fresh objects. Every path is recomputed from the separately fitted model
and the seeded resampling. Non-trivial: an estimate with at least one systemic and one
non-systemic path."""
ASSUMPTIONS = ["resampling is rng = default_rng(seed); rng.choice(n, size=h) per path, as the library does",
               "returns are ordinary raw returns (above -100%)"]
MIN_DISTINCT = 20
MIN_OBSERVED = {"estimates compared": 40, "estimates without systemic path": 2}
SHARDS = 6


def setup(mon):
    global LRMES, GJR, DCC
    from frds.algorithms import GJRGARCHModel as GJR, GJRGARCHModel_DCC as DCC
    from frds.measures import LongRunMarginalExpectedShortfall as LRMES


def pair(rng, T, i):
    a, b, _, _ = gen.pair_pct(rng, T, gjr=True, dcc=bool(i % 3 == 1), rho=None if i % 5 else float(rng.choice([-0.9, 0.95])))
    if i % 7 == 6:
        return tuple(gen.market(rng, T, 2, percent=False))
    if i % 4 == 2:
        b[-3:] -= rng.uniform(2, 8, 3) * b.std()
        a[-2:] -= rng.uniform(2, 6, 2) * a.std()
    if i % 4 == 3:
        b[-1] += 4 * b.std()
    return np.expm1(a / 100), np.expm1(b / 100)


class Model:
    """The fitted model, obtained through the public algorithms."""

    def __init__(self, firm, market):
        li, lm = 100 * np.log(1 + firm), 100 * np.log(1 + market)
        self.f, self.m = GJR(li), GJR(lm)
        self.d = DCC(self.f, self.m)
        self.d.fit()
        self.ok = self.d.estimation_success
        if not self.ok:
            return
        self.zi = self.f.resids / np.sqrt(self.f.sigma2)
        self.zm = self.m.resids / np.sqrt(self.m.sigma2)
        a, b = self.d.parameters.a, self.d.parameters.b
        self.ab = a, b
        self.rho = ref.dcc_rho(a, b, self.zi, self.zm)
        self.xi = (self.zi - self.rho * self.zm) / np.sqrt(1 - self.rho**2)
        self.qbar = np.corrcoef(self.zi, self.zm)

    def paths(self, h, S, seed):
        rng = np.random.default_rng(seed)
        n = len(self.zi)
        idx = np.array([rng.choice(n, size=h, replace=True) for _ in range(S)]).reshape(S, h)
        p, q = self.f.parameters, self.m.parameters
        return ref.lrmes_paths(
            idx, self.xi, self.zm, None,
            (p.mu, p.omega, p.alpha, p.gamma, p.beta), (q.mu, q.omega, q.alpha, q.gamma, q.beta),
            self.f.sigma2[-1], self.m.sigma2[-1], self.f.resids[-1], self.m.resids[-1],
            *self.ab, self.rho[-1], self.qbar)


def verify(mon, model, got, h, S, C, seed):
    firm, market = model.paths(h, S, seed)
    sys_ = market < C
    edge = np.abs(market - C) < 1e-9
    want = -firm[sys_].mean() if sys_.any() else 0.0
    mon.count("paths replayed", S)
    if edge.any():
        mon.count("threshold too close to a path")
        return want
    ok = mon.close(got, want, "LRMES", rtol=1e-7, atol=1e-9, h=h, S=S, C=C, seed=seed, systemic=int(sys_.sum()))
    mon.check(got <= 1, "LRMES above 1", got=got)
    mon.count("estimates compared")
    if not sys_.any():
        mon.count("estimates without systemic path")
        mon.check(got == 0.0, "no systemic path", got=got)
    elif not sys_.all():
        mon.seen(h, S, C, seed, model.zi)
    return want


@workload(quick=60, thorough=700)
def replay(mon, rng, i):
    T = int(rng.choice([120, 250, 400, 700, 1500]))
    firm, market = pair(rng, T, i)
    mon.describe(T=T, firm=firm[:3], market=market[:3])
    snap = gen.snapshot(firm, market)
    model = Model(firm, market)
    if not model.ok:
        mon.refused(lambda: LRMES(firm, market).estimate(h=2, S=3), "estimate without a fitted model")
        mon.skip("unsuccessful model")
    obj = LRMES(firm, market)
    state = np.random.get_state()
    sd = float(np.std(np.log1p(market)))
    seen = {}
    for k in range(4):
        h = int(rng.choice([1, 2, 5, 22, 22, 60, 132, 252, 700]))
        S = int(rng.choice([1, 2, 50, 300, 1500]))
        c = float(-sd * np.sqrt(h) * rng.uniform(0.2, 2.0)) if k < 3 else float(rng.choice([-0.6, 0.5, 0.0, -0.1]))
        C = max(c, -0.95)
        seed = int(rng.integers(0, 2**31))
        got = (obj if k != 2 else LRMES(firm.copy(), market.copy())).estimate(h=h, S=S, C=C, random_seed=seed)
        mon.check(np.ndim(got) == 0, "scalar result")
        verify(mon, model, float(got), h, S, C, seed)
        seen[h, S, C, seed] = float(got)
    # positional arguments, histories, other objects in between
    (h, S, C, seed), v = list(seen.items())[0]
    LRMES(market, firm).estimate(3, 20, -0.01, 7)
    for o in (obj, LRMES(firm, market)):
        mon.check(abs(o.estimate(h, S, C, seed) - v) <= 1e-9, "repeated estimate", h=h, S=S, C=C, seed=seed)
    mon.check(all(np.array_equal(x, y) for x, y in zip(state[1:2], np.random.get_state()[1:2])) and state[2:] == np.random.get_state()[2:], "global random state")
    mon.check(gen.snapshot(firm, market) == snap, "inputs modified")


@workload(quick=3, thorough=20)
def defaults(mon, rng, i):
    """The documented defaults: 22 days, 10,000 paths, -10%, seed 42."""
    firm, market = pair(rng, 300, i)
    market = np.expm1(np.log1p(market) * 2)  # volatile enough for systemic paths
    model = Model(firm, market)
    if not model.ok:
        mon.skip("unsuccessful model")
    mon.describe(defaults=True, firm=firm[:3])
    got = LRMES(firm, market).estimate()
    verify(mon, model, got, 22, 10_000, -0.1, 42)
    lay = gen.layouts(firm), gen.layouts(market)
    k = list(lay[0])[i % len(lay[0])]
    g2 = LRMES(lay[0][k], lay[1][k]).estimate(S=2000)
    g1 = LRMES(firm, market).estimate(S=2000)
    # a change of layout may move the optimum by rounding
    mon.check(abs(g1 - g2) <= 0.02, "layout", layout=k, got=g2, want=g1)


@workload(quick=6, thorough=100)
def degenerate(mon, rng, i):
    """A firm that mirrors the market, and one that ignores it."""
    T = 400
    market = np.expm1(gen.returns_pct(rng, T, gjr=True)[0] / 100)
    noise = np.expm1(gen.returns_pct(rng, T, gjr=True, mu_scale=0.02)[0] / 100)
    close = np.expm1(np.log1p(market) + 0.05 * np.std(market) * rng.standard_normal(T))
    C = -float(np.std(market) * np.sqrt(10))
    out = []
    for firm in (close, noise):
        model = Model(firm, market)
        if not model.ok:
            mon.skip("unsuccessful model")
        got = LRMES(firm, market).estimate(h=10, S=1500, C=C, random_seed=i)
        verify(mon, model, got, 10, 1500, C, i)
        out.append(got)
    mon.describe(T=T, C=C, mirror=out[0], independent=out[1])
    mon.check(out[0] > -C * 0.8, "a firm that mirrors the market loses about as much", got=out[0], C=C)
