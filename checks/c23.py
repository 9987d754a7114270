"""C23: the modified Merton valuation against a cohort-by-cohort recomputation."""
import contextlib
import importlib
import io
import math
import os
import re
import shutil
import tempfile
import warnings

import numpy as np
from lib import gen
from lib.mon import workload

RULE = """Random parameter vectors around the documented calibration (rates -0.5% to 6%, debt and
loan maturities, correlation 0.1 to 0.95, LTV, volatilities, depreciation, payout, with and
without guarantee), 2 to 12 factor realisations, 3 to 20 cohorts (loans of a quarter to forty years,
debt maturing after any whole number of steps), 200 to 8,000 paths with
given or seeded shocks. Outputs are recomputed cohort by cohort from the published Matlab
program's definitions (own yield solver, own payoff formula, direct moving average), and
their accounting identities checked. Non-trivial: a bank that defaults on some but not all
paths."""
ASSUMPTIONS = ["single paths that swap neighbours when sorted may differ; all but 0.5% of the entries must agree",
               "simulation sizes the smoother supports (even number of points and window)"]
MIN_DISTINCT = 20
MIN_OBSERVED = {"valuations": 60, "lookup points": 30}
P = "frds.measures.modified_merton."


def setup(mon):
    global multi, single, solution, lookup, lookup1
    multi = importlib.import_module(P + "mod_merton_computation").mod_merton_computation
    single = importlib.import_module(P + "mod_single_cohort_computation").mod_single_cohort_computation
    solution = importlib.import_module(P + "mod_single_cohort_solution").mod_single_cohort_solution
    lookup = importlib.import_module(P + "mod_merton_create_lookup").mod_merton_create_lookup
    lookup1 = importlib.import_module(P + "mod_single_merton_create_lookup").mod_single_merton_create_lookup


NAMES = "Lt Bt Et LH BH EH sigEt mFt default mdef face FH Gt mu F sigLt".split()


def erfc_cdf(x):
    from scipy.special import erfc

    return 0.5 * erfc(-np.asarray(x) / math.sqrt(2))


def promised_yield(book, ltv, sig, T, r, d):
    """mu with e^{-rT}F - put(F) = book, F = book e^{mu T}: bisection."""
    V = book / ltv

    def value(mu):
        F = book * math.exp(mu * T)
        v = sig * math.sqrt(T)
        d1 = (math.log(V / F) + (r - d) * T) / v + v / 2
        put = F * math.exp(-r * T) * erfc_cdf(v - d1) - V * math.exp(-d * T) * erfc_cdf(-d1)
        return float(F * math.exp(-r * T) - put)

    lo, hi = r - 0.01, r + 0.6
    if value(hi) < book * (1 + 1e-9):
        return None
    for _ in range(100):
        m = 0.5 * (lo + hi)
        if value(m) < book:
            lo = m
        else:
            hi = m
    return 0.5 * (lo + hi)


def payoff(F, m, rho, sig, T):
    s = sig * math.sqrt(T * (1 - rho))
    a = (np.log(F) - m) / s
    return np.exp(m + s * s / 2) * erfc_cdf(a - s) + F * erfc_cdf(-a)


def running_mean(x, w):
    """Centred window of w points, ends continued linearly."""
    n, h = len(x), w // 2
    c = np.concatenate([[0.0], np.cumsum(x - np.mean(x))])
    i = np.arange(h, n - h)
    mid = (c[i + h + 1] - c[i - h + 1]) / w + np.mean(x)
    out = np.empty(n)
    out[h : n - h] = mid
    out[:h] = mid[0] - np.arange(h, 0, -1) * (mid[1] - mid[0])
    out[n - h :] = mid[-1] + np.arange(1, h + 1) * (mid[-1] - mid[-2])
    return out


def conditional(x, L):
    """E[L | x] over all paths and factor realisations, by local averaging."""
    n, G = x.shape
    xs, Ls = x.T.ravel(), L.T.ravel()
    order = np.argsort(np.round(xs, 9), kind="stable")
    sm = running_mean(Ls[order], int(n * G / 20))
    out = np.empty(n * G)
    out[order] = sm
    return out.reshape(G, n).T


def blocks(fs, sigf):
    """The factor realisations, and the same a tenth of a deviation up and down."""
    return np.concatenate([fs] * 3), np.repeat([0.0, sigf / 10, -sigf / 10], len(fs))


def finish_up(LH, FH, mF, face, par, G):
    r, T, book, H, D, rho, ltv, sig, d, y = par[:10]
    g = par[10] if len(par) > 10 else 0.0
    net = LH * math.exp(-y * H)
    BH = np.minimum(D, net)
    EH = LH - BH
    df = math.exp(-r * H)
    L, B, E = df * LH.mean(axis=0), df * BH.mean(axis=0), df * EH.mean(axis=0)
    out = dict(LH=LH[:, :G], BH=BH[:, :G], EH=EH[:, :G], FH=FH[:, :G], face=face[:, :G], mFt=mF[:G],
               default=(net <= D).astype(float)[:, :G], Lt=L[:G], Bt=B[:G], Et=E[:G],
               Gt=g * df * np.maximum(D - net, 0).mean(axis=0)[:G])
    out["mdef"] = out["default"].mean(axis=0)
    with np.errstate(all="ignore"):
        out["sigEt"] = 5 * np.log(E[G : 2 * G] / E[2 * G :])
        out["sigLt"] = 5 * np.log(L[G : 2 * G] / L[2 * G :])
    return out


def reference(fs, par, N, w):
    r, T, book, H, D, rho, ltv, sig, d, y = par[:10]
    G = len(fs)
    dt = T / N
    HN = int(round(H / dt))
    sigf = math.sqrt(rho) * sig
    ival = math.log(book / ltv)
    mu = promised_yield(book, ltv, sig, T, r, d)
    if mu is None:
        return None
    F = book * math.exp(mu * T)
    n = len(w)
    z = np.zeros((n, 1))
    f = np.hstack([z, np.cumsum((r - d - sig**2 / 2) * dt + sigf * math.sqrt(dt) * w, axis=1)])
    fw = np.hstack([z, np.cumsum(-rho * sig**2 / 2 * dt + sigf * math.sqrt(dt) * w, axis=1)])
    fall, shift = blocks(fs, sigf)
    LH = FH = face = mF = 0.0
    for j in range(N):
        life = (N - j) / N
        fsa = fall * sigf * math.sqrt(T) * life + shift
        removed = (fw[:, N] - fw[:, j])[:, None]
        L1 = payoff(F, (f[:, N + j] - f[:, j])[:, None] - removed + fsa + ival, rho, sig, T)
        aH = (HN - j) / N if j <= HN else (N - j + HN) / N
        jensen = math.exp(0.5 * (1 - rho) * T * aH * sig**2)
        if j >= HN:
            x = np.exp((f[:, N + HN] - f[:, j])[:, None] - removed + fsa + ival) * jensen
            C = conditional(x, L1)
            left, fc = (j - HN) * dt, np.full_like(L1, F)
        else:
            sc = L1 / book
            f2 = (f[:, 2 * N + j] - f[:, N + j])[:, None]
            one = payoff(F, f2 + ival, rho, sig, T)  # per unit of scale
            x = np.broadcast_to(np.exp((f[:, N + HN] - f[:, N + j])[:, None] + ival) * jensen, L1.shape)
            C = conditional(x, np.broadcast_to(one, L1.shape)) * sc
            left, fc = (j - HN + N) * dt, L1 * math.exp(mu * T)
        LH = LH + C * math.exp(-r * left) / N
        face = face + fc * math.exp(-r * left) / N
        FH = FH + x / N
        ft = (f[:, N] - f[:, j])[:, None] - removed + fsa + ival
        mF = mF + (np.exp(ft) * math.exp(0.5 * (1 - rho) * T * life * sig**2)).mean(axis=0) / N
    return dict(finish_up(LH, FH, mF, face, par, G), mu=mu, F=F)


def reference1(fs, par, N, w):
    r, T, book, H, D, rho, ltv, sig, d, y = par[:10]
    G = len(fs)
    dt = T / N
    HN = int(round(H / dt))
    sigf = math.sqrt(rho) * sig
    ival = math.log(book / ltv)
    mu = promised_yield(book, ltv, sig, T, r, d)
    if mu is None:
        return None
    F = book * math.exp(mu * T)
    f = np.hstack([np.zeros((len(w), 1)), np.cumsum((r - d - sig**2 / 2) * dt + sigf * math.sqrt(dt) * w, axis=1)])
    fall, shift = blocks(fs, sigf)
    fsa = fall * sigf * math.sqrt(T) + shift
    L1 = payoff(F, f[:, [N]] + fsa + ival, rho, sig, T)
    x = np.exp(f[:, [HN]] + fsa + ival) * math.exp(0.5 * (1 - rho) * H * sig**2)
    LH = conditional(x, L1) * math.exp(-r * (T - H))
    mF = np.exp(fsa + ival)
    face = np.full_like(L1, F * math.exp(-r * (T - H)))
    return dict(finish_up(LH, x, mF, face, par, G), mu=mu, F=F)


def params(rng, one=False):
    N = int(rng.choice([3, 4, 5, 10, 12, 20], p=[.24, .24, .24, .2, .05, .03]))
    dt = float(rng.choice([1.0, 1.0, 2.0, 0.5, 0.6, 1 / 12]))
    T = N * dt
    HN = int(rng.integers(1, N + 1 if one else N))
    H = HN * dt
    if rng.random() < 0.3:
        H = round(H, 10)  # as a caller would write it: 4.2 years of six-year loans in ten steps
    r = float(rng.choice([0.01, 0.0, rng.uniform(-0.005, 0.06)]))
    book = float(rng.uniform(0.4, 1.2))
    D = book * float(rng.uniform(0.7, 1.25)) * math.exp(r * H)
    par = [r, T if rng.random() < 0.7 else int(T) if T == int(T) else T, book, H, D, float(rng.choice([0.5, rng.uniform(0.1, 0.95)])),
           float(rng.uniform(0.4, 0.9)), float(rng.uniform(0.08, 0.4)), float(rng.choice([0.0, 0.005, rng.uniform(0, 0.02)])),
           float(rng.choice([0.0, 0.002, rng.uniform(0, 0.02)]))]
    if rng.random() < 0.6:
        par.append(float(rng.uniform(0, 1)))
    G = int(rng.choice([2, 4, 6, 12]))
    fs = np.sort(rng.uniform(-2.2, 2.2, G))
    n = int(rng.choice([200, 400, 1000, 8000], p=[.5, .39, .1, .01]))
    if n == 8000:
        fs = fs[:2]
    return N, par, fs, n


def shocks(n, cols, seed):
    from scipy.stats import norm

    return norm.ppf(np.random.RandomState(seed).rand(cols, n).T)


def compare(mon, got, want, par, fs, what):
    r, T, book, H, D, rho, ltv, sig, d, y = par[:10]
    o = dict(zip(NAMES, got))
    mon.require(len(got) == 16, f"{what}: sixteen outputs")
    for k in NAMES:
        mon.require(np.all(np.isfinite(np.asarray(o[k], dtype=float))) or k in ("sigEt", "sigLt"), f"{what}: {k} not finite")
    mon.close(o["mu"], want["mu"], f"{what}: promised yield", rtol=1e-6, atol=1e-7)
    mon.close(o["F"], want["F"], f"{what}: face value", rtol=1e-5)
    # the solver's tolerance on the yield passes into everything else
    tol = 1e-6
    for k in ("LH", "BH", "EH", "FH", "face"):
        g, w = np.asarray(o[k], dtype=float), want[k]
        mon.require(g.shape == w.shape, f"{what}: shape of {k}", got=g.shape, want=w.shape)
        off = np.abs(g - w) > 2 * tol * (1 + np.abs(w)) * max(1.0, T)
        mon.check(np.mean(off) <= 0.005, f"{what}: {k}", share_off=float(np.mean(off)), worst=float(np.max(np.abs(g - w))))
    for k in ("Lt", "Bt", "Et", "mFt", "Gt"):
        mon.close(o[k], want[k], f"{what}: {k}", rtol=tol * max(1.0, T), atol=tol * max(1.0, T))
    n = o["LH"].shape[0]
    mon.check(np.mean(np.asarray(o["default"]) != want["default"]) <= 0.005, f"{what}: default indicators")
    mon.close(o["mdef"], want["mdef"], f"{what}: default probability", rtol=0, atol=max(0.003, 1.5 / n))
    for k in ("sigEt", "sigLt"):
        base = want["Et" if k == "sigEt" else "Lt"]
        ok = base > 1e-4
        mon.close(np.where(ok, o[k], 0), np.where(ok, want[k], 0), f"{what}: {k}", rtol=1e-4, atol=1e-4)
    identities(mon, o, par, fs, what)


def identities(mon, o, par, fs, what):
    r, T, book, H, D, rho, ltv, sig, d, y = par[:10]
    g = par[10] if len(par) > 10 else 0.0
    df = math.exp(-r * H)
    L, B, E = (np.asarray(o[k], dtype=float) for k in ("Lt", "Bt", "Et"))
    mon.close(L, B + E, f"{what}: loans equal debt plus equity", rtol=1e-10, atol=1e-12)
    mon.close(o["LH"], np.asarray(o["BH"]) + np.asarray(o["EH"]), f"{what}: loans equal debt plus equity at maturity", rtol=1e-10, atol=1e-12)
    mon.check(np.all(np.asarray(o["BH"]) <= D * (1 + 1e-12)) and np.all(B <= D * df * (1 + 1e-10)), f"{what}: debt above its riskless value")
    mon.check(np.all((np.asarray(o["EH"]) >= -1e-12) | (np.asarray(o["LH"]) < 0)) and np.all(B > 0), f"{what}: negative claims")
    net = np.asarray(o["LH"]) * math.exp(-y * H)
    far = np.abs(net - D) > 1e-9
    de = np.asarray(o["default"])
    mon.check(np.all((de == 0) | (de == 1)), f"{what}: default indicators 0 or 1")
    mon.check(np.all((de == (net <= D))[far]), f"{what}: default and asset value inconsistent")
    mon.close(o["mdef"], de.mean(axis=0), f"{what}: default probability is the share of defaults", rtol=1e-12, atol=1e-12)
    mon.check(np.all(np.asarray(o["mdef"]) >= 0) and np.all(np.asarray(o["mdef"]) <= 1), f"{what}: probability out of range")
    mon.close(np.asarray(o["BH"]), np.where(de == 1, net, D), f"{what}: debt holders receive the assets in default", rtol=1e-9, atol=1e-9)
    # guarantee covers the shortfall with probability g
    mon.close(o["Gt"], g * (D * df - B), f"{what}: guarantee is the expected shortfall", rtol=1e-9, atol=1e-11)
    for k, v in (("Lt", L), ("Et", E), ("Bt", B), ("mFt", np.asarray(o["mFt"]))):
        mon.check(np.all(np.diff(v) >= -1e-3 * book), f"{what}: {k} falls with the factor", got=v)
    mon.check(np.all(np.diff(np.asarray(o["mdef"])) <= 0.02), f"{what}: default rises with the factor", got=o["mdef"])
    mon.check(float(o["mu"]) >= r - 1e-9, f"{what}: loan yield below the riskless rate")
    mon.close(o["F"], book * math.exp(float(o["mu"]) * T), f"{what}: face value accrues at the yield", rtol=1e-10)
    mon.count("valuations")
    m = np.asarray(o["mdef"])
    if np.any((m > 0) & (m < 1)):
        mon.seen(float(L[0]), float(np.mean(m)))


def run_case(mon, rng, i, one):
    N, par, fs, n = params(rng, one)
    G = len(fs)
    win = int(n * 3 * G / 20)
    if win % 2 or (n * G) % 2 or win < 2 or n * 3 * G / 20 != win:
        mon.skip("size the smoother does not support")
    cols = N if one else 3 * N
    fn, ref = (single, reference1) if one else (multi, reference)
    mon.describe(cohorts=N, param=par, fs=fs, paths=n, single=one)
    seed = int(rng.integers(0, 2**31))
    given = i % 3 != 0
    w = rng.standard_normal((n, cols)) if given else shocks(n, cols, seed if i % 2 else 1)
    want = ref(fs, par, N, w)
    if want is None:
        mon.skip("no promised yield")
    col = fs.reshape(-1, 1)
    snap = gen.snapshot(col, w, par)
    state = np.random.get_state()[1].tobytes()
    if given:
        got = fn(col, par, N, n, w)
    elif i % 2:
        got = fn(col, par, N, n, random_seed=seed)
    else:
        got = fn(col, par, N, n)
    what = "single cohort" if one else "cohorts"
    compare(mon, got, want, par, fs, what)
    mon.check(gen.snapshot(col, w, par) == snap, f"{what}: inputs modified")
    mon.check(np.random.get_state()[1].tobytes() == state, f"{what}: global random state modified")
    again = fn(fs, par, N, n, w)
    mon.check(all(np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True) for a, b in zip(got, again)),
              f"{what}: same shocks, different valuation")
    if not given:
        np.random.seed(seed % 1000)
        other = fn(fs, par, N, n, random_seed=(seed if i % 2 else 1) + 1)
        mon.check(not np.array_equal(other[3], got[3]), f"{what}: the seed has no effect")
    if len(par) > 10:
        bare = fn(fs, par[:10], N, n, w)
        mon.check(all(np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True) for k, a, b in zip(NAMES, got, bare) if k != "Gt")
                  and np.all(bare[12] == 0), f"{what}: guarantee changes the valuation")
        mon.close(fn(fs, tuple(par), N, n, w)[12], got[12], f"{what}: container of the parameters", rtol=1e-13, atol=1e-15)
    mon.close(fn(fs, np.array(par, dtype=float), N, n, np.asfortranarray(w))[0], got[0], f"{what}: container of the parameters", rtol=1e-9)
    if i % 4 == 1:
        off = [*par[:3], par[3] + 0.37 * float(par[1]) / N, *par[4:]]
        mon.refused(lambda: fn(fs, off, N, n, w), f"{what}: debt maturity between two steps accepted")
    if one and i % 3 == 0:
        # objective function of the single-cohort fit
        j = int(rng.integers(0, G))
        fit = single(fs[[j]], par, N, n * 40 // math.gcd(n, 40) if n % 40 else n)
        L2 = solution((float(fs[j]), par[2]), [*par[:2], 99.0, *par[3:]], N, n * 40 // math.gcd(n, 40) if n % 40 else n, float(fit[2][0]), float(fit[6][0]))
        mon.check(np.shape(L2) == (2,), "single cohort: objective has two components", got=np.shape(L2))
        want0 = [0.0, 0.0] if np.isfinite(fit[6][0]) else [0.0, math.nan]  # worthless equity has no volatility
        mon.close(L2, want0, "single cohort: objective is zero at the solution", rtol=0, atol=1e-12)
        off = solution((float(fs[j]), par[2] * 1.02), par, N, n, 0.0, 0.0)
        ref2 = single(fs[[j]], [*par[:2], par[2] * 1.02, *par[3:]], N, n)
        mon.close(off, [-ref2[2][0], -ref2[6][0]], "single cohort: objective", rtol=1e-12, atol=1e-14)


@workload(quick=65, thorough=900)
def cohorts(mon, rng, i):
    run_case(mon, rng, i, False)


@workload(quick=86, thorough=1500)
def one_cohort(mon, rng, i):
    run_case(mon, rng, i, True)


@workload(quick=11, thorough=120)
def tables(mon, rng, i):
    """Every grid point of a lookup table is what the direct computation returns."""
    one = bool(i % 2)
    N, par, fs, n = params(rng, one)
    fs = np.sort(rng.uniform(-2, 2, 4))
    n = 200
    r, T, book, H, D, rho, ltv, sig, d, y = par[:10]
    # no two axes of the same length
    sizes = [int(v) for v in np.roll([1, 2, 3] if rng.random() < 0.5 else [3, 2, 1], int(rng.integers(0, 3)))]
    axes = (fs, *(sorted(rng.uniform(lo, hi, k)) for k, (lo, hi) in zip(sizes, ((0.1, 0.35), (0, 0.05), (0.5, 1.1)))))
    xfs, xsig, xr, xF = np.meshgrid(*axes, indexing="ij")
    if i % 4 < 2:  # every grid point has its own rate, loan size and volatility
        shape = (1,) + xfs.shape[1:]
        xsig, xr, xF = (np.repeat(rng.uniform(lo, hi, shape), len(fs), axis=0) for lo, hi in ((0.1, 0.35), (0, 0.05), (0.5, 1.1)))
    bookD = float(rng.uniform(0.5, 0.9))
    mon.describe(axes=[list(map(float, a)) for a in axes], single=one, T=T, H=H, bookD=bookD)
    snap = gen.snapshot(xfs, xsig, xr, xF)
    tabs = (lookup1 if one else lookup)(d, y, T, H, bookD, rho, ltv, xfs, xr, xF, xsig, N, n)
    mon.check(gen.snapshot(xfs, xsig, xr, xF) == snap, "inputs modified")
    mon.require(len(tabs) == 6 and all(t.shape == xfs.shape for t in tabs), "shape of the tables")
    from scipy.stats import norm

    w = norm.ppf(np.random.RandomState(1).rand(3 * N, n)).T
    fn, ref = (single, reference1) if one else (multi, reference)
    for j in range(len(axes[1])):
        for k in range(len(axes[2])):
            for q in range(len(axes[3])):
                rr = float(xr[0, j, k, q])
                p = [rr, T, float(xF[0, j, k, q]), H, bookD * math.exp(rr * H), rho, ltv, float(xsig[0, j, k, q]), d, y]
                o = dict(zip(NAMES, fn(fs, p, N, n, w)))
                for t, name in zip(tabs, ("Lt", "Bt", "Et", "mFt", "mdef", "sigEt")):
                    mon.close(t[:, j, k, q], o[name], f"table of {name}", rtol=1e-12, atol=1e-14, point=[j, k, q])
                want = ref(fs, p, N, w)
                if want is not None:
                    compare(mon, [o[x] for x in NAMES], want, p, fs, "single cohort" if one else "cohorts")
                mon.count("lookup points")


@workload(quick=0, thorough=1)
def table_one(mon, rng, i):
    """The published simulation, at a small size: its printed table is the direct valuation."""
    if not mon.thorough:
        mon.skip("thorough tier only")
    sim = importlib.import_module(P + "mod_merton_simulation").simulate
    N, n = 10, 400
    r, d, y, T, H, rho, sig, ltv, g = 0.01, 0.005, 0.002, 10, 5, 0.5, 0.2, 0.66, 0.5
    D = 0.63 * math.exp(r * H) * float(np.mean(np.exp(r * np.arange(1, T + 1))))
    par = [r, T, 0.66, H, D, rho, ltv, sig, d, y, g]
    fs = np.arange(-0.8, 0.85, 0.05) / (0.2 * np.sqrt(0.5) * np.sqrt(10))
    o = reference(fs, par, N, shocks(n, 3 * N, 1))
    tmp = tempfile.mkdtemp(prefix="frds-sim-")
    try:
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf), warnings.catch_warnings():
            sim(n, tmp)
        rows = {m.group(1): [float(x) for x in m.groups()[1:]]
                for m in re.finditer(r"^\s*(\S.*?)\s{2,}(-?[\d.]+)\s+(-?[\d.]+)\s+(-?[\d.]+)\s*$", buf.getvalue(), re.M)}
        mon.describe(rows=rows)
        files = os.listdir(tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    mon.check(len(files) == 5 and all(f.endswith(".pdf") for f in files), "figures written to the folder given", files=files)
    agg = rows.get("Agg. Borrower Asset Value")
    mon.require(agg is not None, "printed table", rows=rows)
    pts = [int(np.argmin(np.abs(o["mFt"] - a))) for a in agg]
    two = dict(atol=0.0061, rtol=0)
    mon.close(agg, o["mFt"][pts], "printed borrower asset value", **two)
    mon.close(rows["Bank Asset Value"], o["Lt"][pts], "printed bank asset value", **two)
    mon.close(rows["Bank Market Equity/Market Assets"], (o["Et"] / (o["Et"] + o["Bt"]))[pts], "printed equity ratio", **two)
    mon.close(rows["Bank 5Y RN Default Prob."], o["mdef"][pts], "printed default probability", **two)
    sp = np.log(D * math.exp(-r * H) / o["Bt"]) / H * 100
    mon.close(rows["Bank Credit Spread (%)"], sp[pts], "printed credit spread", atol=0.0061, rtol=1e-3)
    mon.count("valuations")
