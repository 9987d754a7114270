"""C11: PIN likelihoods against the Poisson mixture; estimates against their claims."""
import dataclasses
import math
import warnings

import numpy as np
from lib import gen
from lib.mon import workload
from scipy.special import gammaln, logsumexp, xlogy

RULE = """Daily buy/sell counts simulated from the model and from other processes (quiet days
with zeros, one-sided flow, very active trading up to 5000 a day), integer and float,
several layouts; random admissible parameters including edges for the likelihoods; both
methods in every order for the estimates. Non-trivial: a likelihood compared at interior
parameters, or a successful estimate."""
ASSUMPTIONS = ["days on which both buys and sells occur: at least one of each in the series"]
MIN_DISTINCT = 20
MIN_OBSERVED = {"likelihoods compared": 200, "successful estimates": 8}
SHARDS = 8


def setup(mon):
    global PIN
    from frds.measures import PIN


def simulate(rng, T, level, kind=0):
    al, de = rng.uniform(0.1, 0.9), rng.uniform(0.05, 0.95)
    eb, es = level * rng.uniform(0.5, 1.5), level * rng.uniform(0.5, 1.5)
    mu = level * rng.uniform(0.2, 1.5)
    ev = rng.random(T) < al
    bad = ev & (rng.random(T) < de)
    B = rng.poisson(eb + mu * (ev & ~bad))
    S = rng.poisson(es + mu * bad)
    if kind == 1:  # overdispersed
        B, S = rng.negative_binomial(3, 3 / (3 + eb), T), rng.negative_binomial(3, 3 / (3 + es), T)
    elif kind == 2:  # one-sided
        S = rng.poisson(es / 10, T)
    elif kind == 3:  # quiet, many zero days
        B, S = rng.poisson(1.0, T), rng.poisson(0.8, T)
    B[0] = max(B[0], 1)
    S[0] = max(S[0], 1)
    return B, S, (al, de, eb, es, mu)


def mixture(p, B, S):
    """Exact log-likelihood of the mixture, constants left out, and the smallest day's relative weight."""
    al, de, eb, es, mu = p
    B, S = np.asarray(B, float), np.asarray(S, float)

    def pois(n, lam):
        return xlogy(n, lam) - lam

    comp = np.array([pois(B, eb) + pois(S, es), pois(B, eb) + pois(S, es + mu), pois(B, eb + mu) + pois(S, es)])
    w = np.array([1 - al, al * de, al * (1 - de)])
    with np.errstate(divide="ignore"):
        lw = np.log(w)[:, None]
    ll = logsumexp(comp + lw, axis=0)
    return math.fsum(ll.tolist()), comp


def counts(mon, rng, x):
    """The same counts in a random integer type that holds them."""
    ts = [t for t in ("int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", ">i4", ">u2") if x.max() <= np.iinfo(t).max]
    t = str(rng.choice(ts))
    mon.count("unsigned counts" if "u" in t else "signed counts")
    return x.astype(t)


def params(rng, B, S, i):
    b, s = max(1e-3, float(np.mean(B))), max(1e-3, float(np.mean(S)))
    edge = i % 6
    al = {0: 1e-4, 1: 1 - 1e-4}.get(edge, rng.uniform(0.02, 0.98))
    de = {2: 1e-4, 3: 1 - 1e-4}.get(edge, rng.uniform(0.02, 0.98))
    return [float(al), float(de), float(b * rng.uniform(0.2, 1.5)), float(s * rng.uniform(0.2, 1.5)), float(max(b, s) * rng.uniform(0.05, 1.5))]


@workload(quick=264, thorough=4000)
def likelihood(mon, rng, i):
    level = float(rng.choice([1, 3, 10, 50, 150, 500, 2000, 5000]))
    T = int(rng.choice([1, 5, 30, 60, 250, 250, 3000]))
    B, S, _ = simulate(rng, T, level, int(rng.integers(0, 4)))
    if i % 2:
        B, S = B.astype(float), S.astype(float)
    elif i % 4 == 0:
        B, S = counts(mon, rng, B), counts(mon, rng, S)
    if i % 5 == 1:
        B, S = np.array(np.column_stack([B, S]))[:, 0], np.array(np.column_stack([B, S]))[:, 1]
    m = PIN(B, S)
    mon.describe(T=T, level=level, B=B[:5], S=S[:5])
    snap = gen.snapshot(B, S)
    off_lk, off_eho = [], []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for k in range(10):
            p = params(rng, B, S, k)
            if k >= 6:  # rates far from the averages, as a search meets them
                p[2] *= float(gen.log_uniform(rng, 1e-6, 10))
                p[3] *= float(gen.log_uniform(rng, 1e-6, 10))
                p[4] *= float(gen.log_uniform(rng, 1e-4, 100))
                mon.count("likelihoods at extreme rates")
            want, _ = mixture(p, B, S)
            lk = -float(m.loglikelihood_LK2011(np.array(p)))
            eho = -float(m.loglikelihood_EHO2010(np.array(p)))
            mon.check(np.isfinite(lk), "Lin-Ke likelihood finite", p=p)
            off_lk.append((lk - want, abs(want) + abs(lk), p))
            mon.count("likelihoods compared")
            mon.check(np.isfinite(eho), "2010 likelihood finite", p=p)
            off_eho.append((eho - want, abs(want) + abs(eho), p))
            mon.count("likelihoods compared")
            mon.seen(p, B)
    for name, off in (("LK2011", off_lk), ("EHO2010", off_eho)):
        for d, mag, p in off[1:]:
            mon.check(abs(d - off[0][0]) <= 1e-10 * (mag + off[0][1]) + 1e-7, "likelihood is the mixture's up to a constant", form=name, p=p, offset=d, first=off[0][0])
    mon.check(gen.snapshot(B, S) == snap, "inputs modified")


@workload(quick=132, thorough=1500)
def offsets(mon, rng, i):
    """The constant depends on the data only, and days contribute one by one."""
    B, S, _ = simulate(rng, 20, float(rng.choice([3, 20, 80])), 0)
    p = np.array(params(rng, B, S, 5))
    whole, perm = PIN(B, S), rng.permutation(20)
    for form in ("loglikelihood_LK2011", "loglikelihood_EHO2010"):
        f = float(getattr(whole, form)(p))
        mon.close(getattr(PIN(B[perm], S[perm]), form)(p), f, "order of days", rtol=1e-10)
        mon.close(float(getattr(PIN(B[:7], S[:7]), form)(p)) + float(getattr(PIN(B[7:], S[7:]), form)(p)), f, "days add up", rtol=1e-10)
        # exchange buys and sells together with their parameters
        q = p[[0, 1, 3, 2, 4]].copy()
        q[1] = 1 - p[1]
        mon.close(getattr(PIN(S, B), form)(q), f, "buys and sells exchanged", rtol=1e-10)
    mon.describe(p=p, B=B, S=S)
    mon.seen(p)


def judge(mon, m, r, method, B, S):
    P = m.parameters
    mon.check(dataclasses.asdict(r) == dataclasses.asdict(P) or not m.estimation_success, "estimate returns the parameters")
    if not m.estimation_success:
        mon.count("unsuccessful estimates")
        mon.check(len(B) < 10, "no estimate of ordinary data", p=dataclasses.asdict(P), method=method)
        mon.check(not np.isfinite(P.loglikelihood) and not np.isfinite(P.pin), "unsuccessful but reported", p=dataclasses.asdict(P))
        return False
    mon.count("successful estimates")
    d = dataclasses.asdict(P)
    mon.require(np.isfinite([v for k, v in d.items() if k != "method"]).all(), "finite estimate", p=d)
    mon.check(0 <= P.alpha <= 1 and 0 <= P.delta <= 1 and min(P.epsilon_b, P.epsilon_s, P.mu) >= 0, "admissible estimate", p=d)
    mon.check(P.method == method, "method", p=d)
    mon.close(P.pin, P.alpha * P.mu / (P.alpha * P.mu + P.epsilon_b + P.epsilon_s), "pin", rtol=1e-12, p=d)
    f = m.loglikelihood_EHO2010 if method == "EHO2010" else m.loglikelihood_LK2011
    x = np.array([P.alpha, P.delta, P.epsilon_b, P.epsilon_s, P.mu])
    mon.close(P.loglikelihood, -float(f(x)), "reported likelihood", rtol=1e-10, p=d)
    best = -np.inf
    Bb, Sb = float(np.mean(B)), float(np.mean(S))
    for al in (0.1, 0.3, 0.5, 0.7, 0.9):
        for de in (0.1, 0.3, 0.5, 0.7, 0.9):
            for ga in (0.1, 0.3, 0.5, 0.7, 0.9):
                eb = ga * Bb
                mu = (Bb - eb) / (al * (1 - de))
                es = Sb - al * de * mu
                if es < 0:
                    continue
                v = -float(f(np.array([al, de, eb, es, mu])))
                if np.isfinite(v):
                    best = max(best, v)
    mon.check(P.loglikelihood >= best - 1e-6 * abs(best), "below a starting point", best=best, p=d)
    return True


@workload(quick=57, thorough=260)
def estimates(mon, rng, i):
    level = float(rng.choice([4, 20, 60, 150]))
    T = int(rng.choice([20, 40, 80]))
    B, S, truth = simulate(rng, T, level, (0, 0, 0, 1, 2, 3)[i % 6])
    if i % 3 == 1:
        B, S = B.astype(float), S.astype(float)
    elif i % 3 == 2:
        B, S = counts(mon, rng, B), counts(mon, rng, S)
    m = PIN(B, S)
    snap = gen.snapshot(B, S)
    order = [("LK2011",), ("EHO2010",), ("LK2011", "EHO2010"), ("EHO2010", "LK2011")][i % 4]
    mon.describe(T=T, level=level, truth=truth, order=order, B=B[:5], S=S[:5])
    last = {}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for method in order:
            r = m.estimate() if method == "EHO2010" and i % 2 else m.estimate(method=method)
            ok = judge(mon, m, r, method, B, S)
            last[method] = dataclasses.asdict(m.parameters)
            if ok and i % 6 < 3:
                f = m.loglikelihood_EHO2010 if method == "EHO2010" else m.loglikelihood_LK2011
                lt = -float(f(np.array(truth)))
                if np.isfinite(lt):
                    mon.check(m.parameters.loglikelihood >= lt - 0.5, "below the generating parameters", truth=lt, p=last[method])
            if ok:
                mon.seen(method, B)
        if len(order) > 1:
            # the second estimate is that of a fresh object
            fresh = PIN(B.copy(), S.copy())
            fresh.estimate(order[-1])
            a, b = dataclasses.asdict(fresh.parameters), last[order[-1]]
            mon.check(fresh.estimation_success == m.estimation_success and repr(a) == repr(b), "history", fresh=a, used=b)
    mon.check(gen.snapshot(B, S) == snap, "inputs modified")


@workload(quick=18, thorough=60)
def active(mon, rng, i):
    """Very active days: thousands of trades."""
    B, S, _ = simulate(rng, 15, float(rng.choice([1500, 4000])), 0)
    m = PIN(B, S)
    mon.describe(B=B[:5], S=S[:5])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for method in ("LK2011", "EHO2010", "LK2011") if i % 2 else ("EHO2010", "LK2011"):
            r = m.estimate(method)
            if judge(mon, m, r, method, B, S):
                mon.seen(method, B)
        mon.refused(lambda: m.estimate("nonsense"), "unknown method accepted")


@workload(quick=24, thorough=300)
def overflowing(mon, rng, i):
    """Days on which powers in the 2010 form would overflow at some parameters."""
    B, S, _ = simulate(rng, int(rng.choice([10, 20])), float(rng.choice([150, 200, 300, 450])), 0)
    m = PIN(B, S)
    mon.describe(B=B, S=S)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m.estimate("EHO2010")
        if judge(mon, m, m.parameters, "EHO2010", B, S):
            mon.seen("overflowing", B)
