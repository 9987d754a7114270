"""C22: building blocks of the modified Merton model."""
import importlib
import math

import numpy as np
from lib import gen
from lib.mon import workload

RULE = """Random parameters of each block: loan payoffs against Gauss-Legendre integration of
min(face, asset value) over the idiosyncratic shock, for scalar and 1- to 3-dimensional
factor arrays; the smoother against a directly summed window for even lengths 4 to 2,000
and all even windows; the face-value and Merton error vectors at, near and far from points
constructed to be their roots. Non-trivial: a payoff strictly between 0 and the face value,
a non-constant smoothed series, a root away from the risk-free limit."""
MIN_DISTINCT = 150
MIN_OBSERVED = {"payoffs": 500, "smoothed points": 2000, "roots": 150}
GL = np.polynomial.legendre.leggauss(40)


def setup(mon):
    global loan_payoff, fftsmooth, face_error, merton_error
    p = "frds.measures.modified_merton."
    for m in ("mod_merton_computation", "mod_merton_create_lookup", "mod_merton_simulation",
              "mod_single_cohort_computation", "mod_single_cohort_solution", "mod_single_merton_create_lookup"):
        try:
            importlib.import_module(p + m)
        except ImportError as e:
            mon.current = ("import", 0)
            mon.violation("not importable", f"{m}: {e}")
    loan_payoff = importlib.import_module(p + "loan_payoff").loan_payoff
    fftsmooth = importlib.import_module(p + "fftsmooth").fftsmooth
    face_error = importlib.import_module(p + "find_face_value_indiv").find_face_value_indiv
    merton_error = importlib.import_module(p + "merton_solution").merton_solution


def Phi(x):
    return 0.5 * math.erfc(-x / math.sqrt(2))


def payoff(F, f, ival, rho, sig, T):
    """E[min(F, exp(f + ival + s z))] by quadrature."""
    s = sig * math.sqrt(T * (1 - rho))
    m = f + ival
    z0 = (math.log(F) - m) / s
    x, w = GL
    lo, hi = -12.0, min(z0, 12.0 + s)
    tot = 0.0
    if hi > lo:
        edges = np.linspace(lo, hi, int((hi - lo) / 1.5) + 2)
        for a, b in zip(edges, edges[1:]):
            z = a + (b - a) * (x + 1) / 2
            tot += float(np.sum(w * np.exp(m + s * z - z * z / 2))) * (b - a) / 2
    return tot / math.sqrt(2 * math.pi) + F * Phi(-z0)


@workload(quick=600, thorough=8000)
def loans(mon, rng, i):
    T = float(rng.choice([1.0, 5.0, 10.0, rng.uniform(0.2, 15)]))
    sig = float(rng.uniform(0.03, 0.7))
    rho = float(rng.choice([0.0, 0.5, 0.99, rng.uniform(0, 0.999)]))
    ival = float(rng.normal() * 0.6)
    F = float(gen.log_uniform(rng, 0.05, 5))
    shape = [(), (7,), (3, 4), (2, 3, 2)][i % 4]
    f = np.asarray(rng.normal(size=shape) * sig * math.sqrt(T) * 1.5)
    Fs = np.asarray(gen.log_uniform(rng, 0.05, 5, shape)) if i % 3 == 0 else F
    mon.describe(F=Fs, f=f, ival=ival, rho=rho, sig=sig, T=T)
    snap = gen.snapshot(f, np.asarray(Fs))
    got = loan_payoff(Fs, f if shape else float(f), ival, rho, sig, T)
    mon.require(np.shape(got) == shape, "shape of the payoff", got=np.shape(got))
    mon.check(gen.snapshot(f, np.asarray(Fs)) == snap, "inputs modified")
    want = np.empty(shape)
    for j in np.ndindex(*shape):
        want[j] = payoff(float(np.broadcast_to(Fs, shape)[j]), float(f[j]), ival, rho, sig, T)
    EA = np.exp(f + ival + 0.5 * (1 - rho) * T * sig**2)
    eps = 1e-13 * (float(np.max(EA)) + float(np.max(Fs)))
    mon.close(got, want, "conditional expectation of the payoff", rtol=1e-9, atol=1e-12 + eps)
    mon.check(np.all(got <= np.minimum(EA, Fs) * (1 + 1e-12) + eps) and np.all(np.asarray(got) > -eps), "payoff out of bounds", got=got)
    up = loan_payoff(Fs, f + 0.1, ival, rho, sig, T)
    mon.check(np.all(up >= np.asarray(got) * (1 - 1e-12) - eps), "payoff falls with the factor")
    mon.close(loan_payoff(Fs, f, ival + 0.1, rho, sig, T), up, "factor and initial value add up", rtol=1e-10, atol=eps)
    k = 3.0
    mon.close(loan_payoff(np.asarray(Fs) * k, f + math.log(k), ival, rho, sig, T), np.asarray(got) * k, "homogeneity", rtol=1e-10, atol=3 * k * eps)
    if shape:
        mon.close(loan_payoff(Fs, np.asfortranarray(f), ival, rho, sig, T), got, "memory layout", rtol=1e-12, atol=eps)
        mon.close(loan_payoff(Fs, f, np.full(shape, ival), rho, sig, T), got, "array of initial values", rtol=1e-12, atol=eps)
    mon.count("payoffs", int(np.size(got)))
    g, e = float(np.ravel(got)[0]), float(np.ravel(EA)[0])
    if g < 0.999 * e:
        mon.seen(g)


def smooth(x, w):
    n = len(x)
    h = w // 2
    mid = {i: math.fsum(x[i - h + 1 : i + h + 1]) / w for i in range(h, n - h)}
    dl, ul = mid[h + 1] - mid[h], mid[n - h - 1] - mid[n - h - 2]
    return np.array([mid[h] - (h - i) * dl if i < h else mid[n - h - 1] + (i - (n - h - 1)) * ul if i > n - h - 1 else mid[i] for i in range(n)])


@workload(quick=480, thorough=6000)
def smoother(mon, rng, i):
    n = int(rng.choice([4, 6, 10, 24, 50, 200, 2000, 12000], p=[.1, .1, .2, .2, .2, .15, .04, .01]))
    n += 2 * int(rng.integers(0, 1 + n // 12))
    w = 2 * int(rng.integers(1, n // 2)) if i % 3 else min(n - 2, 2 * int(rng.integers(1, 1 + max(1, n // 20))))
    kind = int(rng.integers(0, 5))
    x = [rng.normal(size=n), np.sort(gen.log_uniform(rng, 0.1, 10, n)), np.cumsum(rng.normal(size=n)),
         np.where(np.arange(n) == rng.integers(0, n), 1.0, 0.0), rng.normal(size=n) * 1e-6 + 1.0][kind]
    mon.describe(n=n, window=w, kind=kind, head=x[:5])
    snap = gen.snapshot(x)
    got = fftsmooth(x, w)
    mon.require(np.shape(got) == (n,) and np.isrealobj(got), "shape of the smoothed series", got=np.shape(got))
    big = float(np.max(np.abs(x)))
    tol = 1e-12 * big * (1 + math.log2(n)) * (1 + w)
    want = smooth(x.tolist(), w)
    mon.close(got, want, "moving average with linear ends", rtol=0, atol=tol, window=w)
    inside = slice(w // 2 + 2, max(w // 2 + 2, n - w // 2 - 2))
    mon.close(got[inside], want[inside], "moving average", rtol=0, atol=1e-13 * big * math.log2(n) * math.sqrt(n), window=w)
    mon.count("smoothed points", n)
    mon.close(fftsmooth(np.full(n, 0.7), w), np.full(n, 0.7), "constants reproduced", rtol=0, atol=1e-11)
    y = rng.normal(size=n)
    a = float(rng.normal() * 3)
    mon.close(fftsmooth(a * x + y, w), a * got + fftsmooth(y, w), "linearity", rtol=0, atol=20 * (abs(a) + 1) * (tol + 1e-12 * (1 + w)))
    lay = list(gen.layouts(x).items())
    name, L = lay[i % len(lay)]
    mon.close(fftsmooth(L, w), want, "memory layout", rtol=0, atol=tol, layout=name)
    mon.check(gen.snapshot(x) == snap, "inputs modified")
    if i % 8 == 0:
        mon.refused(lambda: fftsmooth(x[:-1], w), "odd length accepted")
        mon.refused(lambda: fftsmooth(x, w - 1), "odd window accepted")
    mon.seen(float(np.sum(got)), n, w)


def bs(S, K, r, T, s, q):
    v = s * math.sqrt(T)
    d1 = (math.log(S / K) + (r - q) * T) / v + v / 2
    a, b = S * math.exp(-q * T), K * math.exp(-r * T)
    return a * Phi(d1) - b * Phi(d1 - v), b * Phi(v - d1) - a * Phi(-d1), d1


@workload(quick=450, thorough=6000)
def face_value(mon, rng, i):
    ival = float(rng.normal() * 0.5)
    V = math.exp(ival)
    T = float(rng.uniform(0.5, 12))
    sig = float(rng.uniform(0.05, 0.6))
    r = float(rng.uniform(-0.01, 0.1))
    d = float(rng.choice([0.0, 0.005, rng.uniform(0, 0.05)]))
    F = V * float(rng.uniform(0.3, 1.5))
    mon.describe(F=F, ival=ival, sig=sig, T=T, r=r, d=d)
    L = F * math.exp(-r * T) - bs(V, F, r, T, sig, d)[1]
    root = math.log(F / L) / T
    e0 = face_error(root, F, ival, sig, T, r, d)
    mon.close(e0, 0.0, "no error at the promised yield", atol=1e-11)
    for h in (0.01, -0.03, 1.0, float(rng.normal())):
        mon.close(face_error(root + h, F, ival, sig, T, r, d), h, "error is the distance to the promised yield", rtol=1e-9, atol=1e-11)
    mon.check(root >= r - 1e-12, "promised yield below the risk-free rate", got=root)
    # as a fixed point: the loan issued at V x ltv
    ltv = float(rng.uniform(0.3, 0.9))
    book = V * ltv
    from scipy.optimize import brentq

    g = lambda mu: face_error(mu, book * math.exp(mu * T), ival, sig, T, r, d)
    try:
        mu = brentq(g, r - 0.05, r + 0.5, xtol=1e-14)
    except (ValueError, RuntimeError):
        mu = None
    if mu is not None:
        F2 = book * math.exp(mu * T)
        mon.close(F2 * math.exp(-r * T) - bs(V, F2, r, T, sig, d)[1], book, "discounted face value less the put is the loan", rtol=1e-8)
        mon.count("roots")
    arr = np.array([F, F * 1.1])
    both = face_error(root, arr, ival, sig, T, r, d)
    mon.close(both, [face_error(root, float(v), ival, sig, T, r, d) for v in arr], "array of face values", rtol=1e-10, atol=1e-13)
    mon.count("roots")
    if root > r + 1e-5:
        mon.seen(root)


@workload(quick=450, thorough=6000)
def merton(mon, rng, i):
    A = float(gen.log_uniform(rng, 0.05, 50))
    sig = float(rng.uniform(0.03, 0.7))
    D = A * float(rng.uniform(0.2, 1.4))
    r = float(rng.uniform(-0.01, 0.1))
    d = float(rng.choice([0.0, 0.002, rng.uniform(0, 0.06)]))
    T = float(rng.uniform(0.5, 10))
    mon.describe(A=A, sig=sig, D=D, r=r, d=d, T=T)

    def model(A, sig):
        C, _, d1 = bs(A, D, r, T, sig, d)
        E = C + A * (1 - math.exp(-d * T))
        return E, (math.exp(-d * T) * Phi(d1) + 1 - math.exp(-d * T)) * A * sig

    E, v = model(A, sig)
    if not E > 1e-9 * A:
        mon.skip("worthless equity")
    sigE = v / E
    e = merton_error((A, sig), E, D, r, d, T, sigE)
    mon.require(len(e) == 2, "two errors")
    mon.close(e, [0.0, 0.0], "no error at the solution", rtol=0, atol=1e-9 * (A / E) * (1 + E))
    mon.count("roots")
    for k in range(3):
        A2, s2 = A * float(np.exp(rng.normal() * 0.2)), sig * float(np.exp(rng.normal() * 0.3))
        E2, v2 = model(A2, s2)
        e = merton_error((A2, s2), E, D, r, d, T, sigE)
        mon.close(e, [E - E2, sigE - v2 / E], "error away from the solution", rtol=1e-8, atol=1e-10 * (A2 + A2 / E))
        mon.check(abs(e[0]) + abs(e[1]) > 0 or (A2, s2) == (A, sig), "no error away from the solution")
    bad = [(A, -sig), (-A, sig), (-A, -sig)][i % 3]
    with np.errstate(all="ignore"):
        e = merton_error(bad, E, D, r, d, T, sigE)
        e2 = merton_error((bad[0] * 10 if bad[0] < 0 else A, bad[1] * 10 if bad[1] < 0 else sig), E, D, r, d, T, sigE)
    e, e2 = np.asarray(e, dtype=float), np.asarray(e2, dtype=float)
    mon.check(not (np.all(np.abs(e) < 1e-6)), "negative estimates look like a solution", got=e)
    if i % 3 == 0 and np.all(np.isfinite(e)) and np.all(np.isfinite(e2)):
        mon.check(np.all(e > 1000 * sig**2) and np.all(e2 > e), "negative volatility is not penalised", got=e)
    if i % 3 == 1 and np.all(np.isfinite(e)):
        mon.check(np.all(e > 1000 * A**2) and np.all(e2 > e), "negative asset value is not penalised", got=e)
    mon.seen(E, sigE)
    x = np.array([A, sig])
    s = gen.snapshot(x)
    merton_error(x, E, D, r, d, T, sigE)
    mon.check(gen.snapshot(x) == s, "inputs modified")
