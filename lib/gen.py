"""Input generators shared by the checks."""
import numpy as np


def layouts(x):
    """The same numbers in every memory layout a caller may hold: name -> array."""
    x = np.asarray(x, dtype=np.float64)
    out = {"contiguous": x.copy()}
    if x.ndim == 1:
        n = len(x)
        b = np.full(2 * n + 1, np.nan)
        b[1::2] = x
        out["every second"] = b[1::2]
        out["reversed view"] = x[::-1].copy()[::-1]
        m = np.full((n, 3), np.nan, order="C")
        m[:, 1] = x
        out["column of C matrix"] = m[:, 1]
        m = np.full((n, 3), np.nan, order="F")
        m[:, 2] = x
        out["column of F matrix"] = m[:, 2]
        p = np.full(n + 4, np.nan)
        p[3 : 3 + n] = x
        out["offset slice"] = p[3 : 3 + n]
    else:
        out["fortran"] = np.asfortranarray(x)
        t = np.ascontiguousarray(x.T)
        out["transposed view"] = t.T
        b = np.full((x.shape[0] * 2, x.shape[1] * 2), np.nan)
        b[::2, ::2] = x
        out["every second both ways"] = b[::2, ::2]
        out["rows reversed"] = x[::-1].copy()[::-1]
        w = np.full((x.shape[0], x.shape[1] + 3), np.nan)
        w[:, 1 : 1 + x.shape[1]] = x
        out["columns of wider"] = w[:, 1 : 1 + x.shape[1]]
    raw = bytearray(x.nbytes + 1)
    un = np.frombuffer(raw, dtype=np.uint8)[1 : 1 + x.nbytes].view(np.float64)
    un = un.reshape(x.shape)
    un[...] = x
    out["unaligned"] = un
    out["big endian"] = x.astype(">f8")
    ro = x.copy()
    ro.flags.writeable = False
    out["read only"] = ro
    return out


def garch_path(rng, T, mu=0.0, omega=0.1, alpha=0.08, beta=0.9, gamma=0.0, z=None, burn=200):
    """Simulate a (GJR-)GARCH(1,1) series from a stationary start."""
    n = T + burn
    z = rng.standard_normal(n) if z is None else z
    pers = alpha + beta + gamma / 2
    s2 = omega / max(1e-3, 1 - pers)
    r = np.empty(n)
    e = 0.0
    for t in range(n):
        if t:
            s2 = omega + (alpha + (gamma if e < 0 else 0.0)) * e * e + beta * s2
        e = np.sqrt(s2) * z[t]
        r[t] = mu + e
    return r[burn:]


def garch_params(rng, gjr=False, mu_scale=0.2, var=None):
    """Plausible percent-scale parameters (mu, omega, alpha, gamma, beta)."""
    var = var or float(np.exp(rng.uniform(np.log(0.7), np.log(15))))
    alpha = float(rng.uniform(0.03, 0.15))
    gamma = float(rng.uniform(0.02, 0.2)) if gjr else 0.0
    pers = float(rng.uniform(0.75, 0.98))
    beta = max(0.0, pers - alpha - gamma / 2)
    omega = var * (1 - pers)
    mu = float(rng.normal() * mu_scale * np.sqrt(var))
    return mu, omega, alpha, gamma, beta


def returns_pct(rng, T, gjr=False, **kw):
    mu, om, al, ga, be = garch_params(rng, gjr, **kw)
    return garch_path(rng, T, mu, om, al, be, ga), (mu, om, al, ga, be)


def pair_pct(rng, T, rho=None, gjr=False, dcc=False):
    """Two correlated percent-scale series."""
    rho = float(rng.uniform(-0.9, 0.9)) if rho is None else rho
    n = T + 200
    z = rng.standard_normal((n, 2))
    if dcc:
        # slowly moving correlation
        path = np.clip(rho + 0.4 * np.sin(np.arange(n) / n * 2 * np.pi * rng.uniform(0.5, 3)), -0.95, 0.95)
    else:
        path = np.full(n, rho)
    z2 = path * z[:, 0] + np.sqrt(1 - path**2) * z[:, 1]
    out, ps = [], []
    for zz in (z[:, 0], z2):
        mu, om, al, ga, be = garch_params(rng, gjr)
        out.append(garch_path(rng, T, mu, om, al, be, ga, z=zz))
        ps.append((mu, om, al, ga, be))
    return out[0], out[1], ps, rho


_MARKET = None


def market(rng, T, k=1, percent=True):
    """A window of T days of k of the daily returns that ship with frds (read without frds)."""
    global _MARKET
    if _MARKET is None:
        import csv, io, os, zipfile

        z = zipfile.ZipFile(os.path.join(os.environ["FRDS_TREE"], "src", "frds", "datasets", "stocks_us.csv.zip"))
        rows = list(csv.reader(io.TextIOWrapper(z.open(z.namelist()[0]), encoding="utf-8")))
        _MARKET = np.array([[float(v) for v in r[1:]] for r in rows[1:]])
    s = int(rng.integers(0, max(1, len(_MARKET) - T + 1)))
    cols = rng.permutation(_MARKET.shape[1])[:k]
    X = _MARKET[np.arange(s, s + T) % len(_MARKET)][:, cols] * (100.0 if percent else 1.0)
    return [np.ascontiguousarray(X[:, j]) for j in range(k)]


def log_uniform(rng, lo, hi, size=None):
    return np.exp(rng.uniform(np.log(lo), np.log(hi), size))


def snapshot(*objs):
    """Bytes of every array/frame among objs, to see whether they were modified."""
    import pandas as pd

    out = []
    for o in objs:
        if isinstance(o, np.ndarray):
            out.append((o.shape, o.dtype.str, o.strides, o.flags.writeable,
                        o.tobytes() if o.dtype != object else repr(o.tolist())))
        elif isinstance(o, (pd.Series, pd.DataFrame)):
            out.append((o.to_numpy(dtype=object).tolist(), list(o.index), str(o.dtypes), type(o).__name__))
        elif isinstance(o, list):
            out.append(repr(o))
        else:
            out.append(repr(o))
    return repr(out)
