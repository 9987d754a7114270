"""Independent reference implementations (plain Python floats where it matters)."""
import math

import numpy as np

LOG2PI = math.log(2 * math.pi)


def bound(s, lo, hi):
    if s < lo:
        s = lo
    if s > hi:
        if math.isinf(s):
            return hi + 1000.0
        s = hi + math.log(s / hi) if hi != 0 else math.inf
    return s


def garch_variance(params, r, backcast, bounds):
    om, al, be = (float(p) for p in params)
    r = [float(x) for x in r]
    out = [om + (al + be) * backcast]
    for t in range(1, len(r)):
        out.append(bound(om + al * r[t - 1] ** 2 + be * out[-1], float(bounds[t][0]), float(bounds[t][1])))
    return np.array(out)


def gjr_variance(params, r, backcast, bounds):
    om, al, ga, be = (float(p) for p in params)
    r = [float(x) for x in r]
    out = [om + (al + ga / 2 + be) * backcast]
    for t in range(1, len(r)):
        v = om + al * r[t - 1] ** 2 + be * out[-1]
        if r[t - 1] < 0:
            v += ga * r[t - 1] ** 2
        out.append(bound(v, float(bounds[t][0]), float(bounds[t][1])))
    return np.array(out)


def gjr_forecast(om, al, ga, be, r, v0):
    out = [float(v0)]
    for t in range(1, len(r)):
        e = float(r[t - 1])
        out.append(om + (al + (ga if e < 0 else 0.0)) * e * e + be * out[-1])
    return np.array(out[1:])


def ewma(r, v0, lam):
    out = [float(v0)]
    for t in range(1, len(r)):
        out.append(lam * out[-1] + (1 - lam) * float(r[t - 1]) ** 2)
    return np.array(out)


def backcast(r):
    n = min(75, len(r))
    w = [0.94**k for k in range(n)]
    s = math.fsum(w)
    return math.fsum(wk * float(x) ** 2 for wk, x in zip(w, r)) / s


def variance_bounds(r):
    r = [float(x) for x in r]
    m = math.fsum(r) / len(r)
    var = math.fsum((x - m) ** 2 for x in r) / len(r)
    lo, hi = var / 1e8, 1e7 * (1 + max(x * x for x in r))
    v = [min(max(x, lo), hi) for x in ewma(r, backcast(r), 0.94)]
    return np.array([(x / 1e6, x * 1e6) for x in v])


def normal_ll(r, s2):
    r, s2 = np.asarray(r, float), np.asarray(s2, float)
    return math.fsum((-0.5 * (LOG2PI + np.log(s2) + r * r / s2)).tolist())


def uni_ll(returns, mu, vparams, gjr, bc, vb):
    e = np.asarray(returns, float) - mu
    s2 = (gjr_variance if gjr else garch_variance)(vparams, e, bc, vb)
    return normal_ll(e, s2), e, s2


def bivariate_ll(e1, s1, e2, s2, rho):
    """Sum of bivariate normal log densities."""
    e1, s1, e2, s2 = (np.asarray(x, float) for x in (e1, s1, e2, s2))
    rho = np.asarray(rho, float)
    d = 1 - rho * rho
    z1, z2 = e1 / np.sqrt(s1), e2 / np.sqrt(s2)
    q = (z1 * z1 + z2 * z2 - 2 * rho * z1 * z2) / d
    t = -LOG2PI - 0.5 * (np.log(s1) + np.log(s2) + np.log(d)) - 0.5 * q
    return math.fsum((t + np.zeros_like(e1)).tolist())


def dcc_rho(a, b, z1, z2):
    z1, z2 = np.asarray(z1, float), np.asarray(z2, float)
    x, y = z1 - z1.mean(), z2 - z2.mean()
    c = math.fsum((x * y).tolist()) / math.sqrt(math.fsum((x * x).tolist()) * math.fsum((y * y).tolist()))
    q11, q22, q12 = 1.0, 1.0, c
    out = [q12 / math.sqrt(q11 * q22)]
    for t in range(1, len(z1)):
        u, v = float(z1[t - 1]), float(z2[t - 1])
        q11 = (1 - a - b) + a * u * u + b * q11
        q22 = (1 - a - b) + a * v * v + b * q22
        q12 = (1 - a - b) * c + a * u * v + b * q12
        # 0/0 when a = 1 follows a day without any shock: undefined
        out.append(q12 / math.sqrt(q11 * q22) if q11 * q22 > 0 else math.nan)
    return np.array(out)


def dcc_ll(l1, l2, z1, z2, rho):
    rho = np.clip(rho, -0.99, 0.99)
    d = 1 - rho * rho
    t = -0.5 * (-(z1 * z1 + z2 * z2) + np.log(d) + (z1 * z1 + z2 * z2 - 2 * rho * z1 * z2) / d)
    return l1 + l2 + math.fsum(t.tolist())


GARCH_GRID = [(a, p) for a in (0.01, 0.05, 0.1, 0.2) for p in (0.5, 0.7, 0.9, 0.98)]
GJR_GRID = [(a, g, p) for a in (0.01, 0.05, 0.1, 0.2) for g in (0.01, 0.05, 0.1, 0.2) for p in (0.5, 0.7, 0.9, 0.98)]
DCC_GRID = [(a, b) for a in np.linspace(0.01, 0.5, 10) for b in np.linspace(0.6, 0.95, 10) if a + b < 1]


def grid_points(returns, gjr):
    """The starting grid of the volatility parameters."""
    var = float(np.var(np.asarray(returns, float)))
    if gjr:
        return [[var * (1 - p), a, g, p - a - g / 2] for a, g, p in GJR_GRID]
    return [[var * (1 - p), a, p - a] for a, p in GARCH_GRID]


def lrmes_paths(idx, xi, zm, C, fp, mp, fv, mv, fr, mr, a, b, rho, qbar):
    """Vectorised over paths. idx (S,h) resampled days; fp/mp (mu,om,al,ga,be).

    Returns (firm returns over the horizon, market returns over the horizon)."""
    S, H = idx.shape
    vi, vm = np.full(S, fv), np.full(S, mv)
    ei, em = np.full(S, fr), np.full(S, mr)
    zi, zmk = ei / np.sqrt(vi), em / np.sqrt(vm)
    qi, qm, qim = np.ones(S), np.ones(S), np.full(S, rho)
    si, sm = np.zeros(S), np.zeros(S)
    for h in range(H):
        vi = fp[1] + (fp[2] + fp[3] * (ei < 0)) * ei**2 + fp[4] * vi
        vm = mp[1] + (mp[2] + mp[3] * (em < 0)) * em**2 + mp[4] * vm
        qi = (1 - a - b) * qbar[0, 0] + a * zi * zi + b * qi
        qm = (1 - a - b) * qbar[1, 1] + a * zmk * zmk + b * qm
        qim = (1 - a - b) * qbar[0, 1] + a * zi * zmk + b * qim
        rh = qim / np.sqrt(qi * qm)
        x, z = xi[idx[:, h]], zm[idx[:, h]]
        em = np.sqrt(vm) * z
        ei = np.sqrt(vi) * (rh * z + np.sqrt(1 - rh**2) * x)
        si += (fp[0] + ei) / 100
        sm += (mp[0] + em) / 100
        zi, zmk = ei / np.sqrt(vi), z
    return np.expm1(si), np.expm1(sm)
