"""C17: Black-Scholes prices."""
import math

import numpy as np
from lib import gen
from lib.mon import workload

RULE = """Spots, strikes over eight orders of magnitude, moneyness 1e-3 to 1e3, maturities one day
to 50 years, volatilities 0.5% to 300%, rates and yields -20% to 40%; prices compared with
Gauss-Legendre integration of the discounted payoff and with an erfc closed form, then
parity, bounds, shape, homogeneity, symmetry and array evaluation on the same options.
Non-trivial: an option whose call or put has time value."""
MIN_DISTINCT = 150
MIN_OBSERVED = {"integrated": 300, "array options": 600}
GL = np.polynomial.legendre.leggauss(48)


def setup(mon):
    global bls, pd
    import pandas as pd
    from frds.measures import blsprice as bls


def option(rng, size=None):
    S = gen.log_uniform(rng, 1e-3, 1e5, size)
    K = S * gen.log_uniform(rng, *( (0.5, 2.0) if rng.random() < 0.6 else (1e-3, 1e3)), size)
    T = gen.log_uniform(rng, 1 / 365, 50, size)
    sg = gen.log_uniform(rng, 0.005, 3, size)
    r = rng.choice([0.0, 0.05, 1.0]) * rng.uniform(-0.2, 0.4, size)
    q = rng.choice([0.0, 1.0]) * rng.uniform(-0.2, 0.4, size)
    if size is None:
        return tuple(float(v) for v in (S, K, r, T, sg, q))
    return S, K, r, T, sg, q


def cdf(x):
    return 0.5 * math.erfc(-x / math.sqrt(2))


def closed(S, K, r, T, s, q):
    v = s * math.sqrt(T)
    d1 = (math.log(S / K) + (r - q) * T) / v + v / 2
    d2 = d1 - v
    a, b = S * math.exp(-q * T), K * math.exp(-r * T)
    return a * cdf(d1) - b * cdf(d2), b * cdf(-d2) - a * cdf(-d1)


def integrated(S, K, r, T, s, q):
    """Discounted expected payoffs by quadrature over the normal variate."""
    v = s * math.sqrt(T)
    m = math.log(S) + (r - q) * T - v * v / 2
    z0 = (math.log(K) - m) / v
    x, w = GL

    def integral(lo, hi, sign):
        if hi <= lo:
            return 0.0
        edges = np.linspace(lo, hi, max(2, int((hi - lo) / 1.5) + 2))
        tot = 0.0
        for a, b in zip(edges, edges[1:]):
            z = a + (b - a) * (x + 1) / 2
            f = sign * (np.exp(m + v * z - r * T - z * z / 2) - K * math.exp(-r * T) * np.exp(-z * z / 2))
            tot += float(np.sum(w * f)) * (b - a) / 2
        return tot / math.sqrt(2 * math.pi)

    c = integral(max(z0, -14), max(14, v + 14), 1.0)
    p = integral(-14 + min(v, 0), min(z0, 14), -1.0)
    return c, p


@workload(quick=875, thorough=20000)
def price(mon, rng, i):
    S, K, r, T, s, q = option(rng)
    mon.describe(S=S, K=K, r=r, T=T, sigma=s, q=q)
    a, b = S * math.exp(-q * T), K * math.exp(-r * T)
    unit = a + b
    got = bls(S, K, r, T, s, q)
    mon.require(len(got) == 2 and all(np.ndim(v) == 0 for v in got), "two prices")
    c, p = float(got[0]), float(got[1])
    tol = 1e-12 * unit
    wc, wp = closed(S, K, r, T, s, q)
    mon.close(c, wc, "call", rtol=1e-9, atol=tol)
    mon.close(p, wp, "put", rtol=1e-9, atol=tol)
    ic, ip = integrated(S, K, r, T, s, q)
    mon.close(c, ic, "call is the expected payoff", rtol=1e-8, atol=1e-10 * unit)
    mon.close(p, ip, "put is the expected payoff", rtol=1e-8, atol=1e-10 * unit)
    mon.count("integrated")
    mon.close(c - p, a - b, "put-call parity", rtol=0, atol=tol)
    mon.check(max(a - b, 0.0) - tol <= c <= a + tol, "call bounds", got=c)
    mon.check(max(b - a, 0.0) - tol <= p <= b + tol, "put bounds", got=p)
    if q == 0.0:
        mon.check(tuple(map(float, bls(S, K, r, T, s))) == (c, p), "default yield is zero")
        mon.check(tuple(map(float, bls(S=S, K=K, r=r, T=T, sigma=s, q=0))) == (c, p), "keyword arguments")
    k = float(rng.choice([1e-3, 2.0, 1e4]))
    hc, hp = bls(S * k, K * k, r, T, s, q)
    mon.close([hc, hp], [c * k, p * k], "homogeneity", rtol=1e-9, atol=10 * tol * k)
    sc, sp = bls(K, S, q, T, s, r)
    mon.close([sp, sc], [c, p], "put-call symmetry", rtol=1e-9, atol=10 * tol)
    # time scaling: only r T, q T and sigma^2 T matter
    mon.close(bls(S, K, r * 4, T / 4, s * 2, q * 4), [c, p], "scaling of time", rtol=1e-9, atol=10 * tol)
    tv = min(c - max(a - b, 0), p - max(b - a, 0))
    if tv > 1e-9 * unit:
        mon.seen(c / unit, p / unit)


@workload(quick=200, thorough=4000)
def shape(mon, rng, i):
    S, K, r, T, s, q = option(rng)
    mon.describe(S=S, K=K, r=r, T=T, sigma=s, q=q)
    Ks = np.sort(K * gen.log_uniform(rng, 0.2, 5, 25))
    c, p = bls(S, Ks, r, T, s, q)
    disc = math.exp(-r * T)
    unit = S * math.exp(-q * T) + Ks[-1] * disc
    tol = 1e-11 * unit
    mon.check(np.all(np.diff(c) <= tol) and np.all(np.diff(p) >= -tol), "monotone in the strike")
    mon.check(np.all(np.diff(c) >= -np.diff(Ks) * disc - tol), "slope in the strike")
    for o in (c, p):
        sl = np.diff(o) / np.diff(Ks)
        e = 4 * tol / np.minimum(np.diff(Ks)[1:], np.diff(Ks)[:-1])
        mon.check(np.all(np.diff(sl) >= -e), "convex in the strike")
    Ss = np.sort(S * gen.log_uniform(rng, 0.2, 5, 25))
    c, p = bls(Ss, K, r, T, s, q)
    tol = 1e-11 * (Ss[-1] * math.exp(-q * T) + K * disc)
    mon.check(np.all(np.diff(c) >= -tol) and np.all(np.diff(p) <= tol), "monotone in the spot")
    sg = np.sort(gen.log_uniform(rng, 0.01, 4, 25))
    c, p = bls(S, K, r, T, sg, q)
    tol = 1e-11 * (S * math.exp(-q * T) + K * disc)
    mon.check(np.all(np.diff(c) >= -tol) and np.all(np.diff(p) >= -tol), "monotone in the volatility")
    if q == 0:
        Ts = np.sort(gen.log_uniform(rng, 0.01, 30, 25))
        if r >= 0:
            c, _ = bls(S, K, r, Ts, s)
            mon.check(np.all(np.diff(c) >= -1e-11 * (S + K)), "call rises with maturity")
    mon.seen(float(np.sum(c)))


@workload(quick=200, thorough=3000)
def arrays(mon, rng, i):
    n = int(rng.choice([1, 2, 17, 60, 3000], p=[.24, .24, .25, .25, .02]))
    args = list(option(rng, n))
    # some arguments scalar, the others arrays of some layout
    use = []
    for k, v in enumerate(args):
        v = np.broadcast_to(np.asarray(v, dtype=float), (n,)).copy()
        args[k] = v
    scalar = rng.random(6) < 0.3
    scalar[int(rng.integers(0, 6))] = False
    for k, v in enumerate(args):
        if scalar[k]:
            v[:] = v[0]
            use.append(float(v[0]))
        else:
            use.append(list(gen.layouts(v).values())[int(rng.integers(0, 9))])
    mon.describe(n=n, scalar=scalar.tolist(), S=args[0][:3], K=args[1][:3])
    snap = gen.snapshot(*use)
    got = bls(*use)
    mon.check(gen.snapshot(*use) == snap, "inputs modified")
    unit = args[0] * np.exp(-args[5] * args[3]) + args[1] * np.exp(-args[2] * args[3])
    for j in range(n):
        one = bls(*[float(v[j]) for v in args])
        mon.close([got[0][j], got[1][j]], one, "element-wise prices", rtol=1e-9, atol=1e-12 * unit[j], element=j)
        mon.count("array options")
    if i % 3 == 0:
        ser = [v if np.isscalar(v) else pd.Series(np.asarray(v, dtype=float)) for v in use]
        g2 = bls(*ser)
        for x, y in zip(g2, got):
            mon.close(np.asarray(x), np.asarray(y), "Series arguments", rtol=1e-9, atol=1e-11 * float(np.max(unit)))
    if i % 3 == 1:
        S = rng.integers(1, 200, n)
        K = rng.integers(1, 200, n)
        T = rng.integers(1, 10, n)
        mon.close(bls(S, K, 0, T, 1, 0), bls(S * 1.0, K * 1.0, 0.0, T * 1.0, 1.0, 0.0), "integer arguments", rtol=1e-12, atol=1e-12)
    if i % 3 == 2 and n > 1:
        Ks = args[1][:, None]
        g = bls(args[0], Ks, float(args[2][0]), float(args[3][0]), float(args[4][0]), 0.0)
        mon.check(np.shape(g[0]) == (n, n), "broadcasting")
        a, b = int(rng.integers(0, n)), int(rng.integers(0, n))
        one = bls(float(args[0][b]), float(args[1][a]), float(args[2][0]), float(args[3][0]), float(args[4][0]), 0.0)
        mon.close([g[0][a, b], g[1][a, b]], one, "element-wise prices", rtol=1e-9, atol=1e-12 * float(np.max(unit)) * 10)
    mon.seen(float(got[0][0]), n)
