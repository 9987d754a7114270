"""C01: the compiled routines touch only memory they own.

The extensions are rebuilt with AddressSanitizer + UBSan and driven, through the
public calls and directly, with every layout, element type and size a caller can
hold, and with arguments that cannot be used.  Oracles: no sanitizer report and no
crash; a result for an unusual layout equals the result for the contiguous copy bit
for bit (padding around the data is NaN, so a stray read inside the caller's own
buffer shows too); unusable arguments raise; and the same workload in two processes
whose heaps are filled with different bytes gives the same results, which shows
reads of uninitialised storage.  The thorough tier adds valgrind memcheck.
"""
import os
import re

import numpy as np
import pandas as pd

from lib import build, gen
from lib.mon import workload

RULE = """A case is one call (or one family of layouts of the same call) of a compiled routine with
generated arguments; distinct by routine, sizes, element types, layouts and content hash. It is
non-trivial when the routine returned a result for at least one data element, or the call was made with
arguments that cannot be used."""
ASSUMPTIONS = [
    "AddressSanitizer sees the extension modules' own accesses and all heap blocks; numpy and the interpreter are not instrumented",
    "an out-of-bounds access that stays inside another live block is only seen through the values it produces",
]
MIN_DISTINCT = 100
MIN_OBSERVED = {
    "garch variance calls": 100, "dcc calls": 40, "lrmes simulations": 60, "forests": 60,
    "unusable arguments tried": 100, "forests with full-width strings": 5,
}


def setup(mon):
    global GARCHModel, GJRGARCHModel, GARCHModel_DCC, utils, measures, iforest, anomaly_scores
    from frds.algorithms import GARCHModel, GJRGARCHModel, GARCHModel_DCC
    import frds.algorithms.utils.utils_ext as utils
    import frds.algorithms.isolation_forest.iforest_ext as iforest
    from frds.measures import measures_ext as measures
    from frds.algorithms.isolation_forest import anomaly_scores


def size(rng, big=300):
    return int(rng.choice([1, 2, 3, 4, 7, 16, 33, 127, 128, 129, int(rng.integers(1, big))]))


def series(rng, n):
    x = rng.standard_normal(n) * gen.log_uniform(rng, 0.01, 30)
    if rng.random() < 0.25:
        k = rng.integers(0, n, 2)
        x[k] = rng.choice([np.nan, np.inf, -np.inf, 0.0, 1e300, -1e300, 1e-300])
    return x


def bounds(rng, n):
    b = np.empty((n, 2))
    b[:, 0] = gen.log_uniform(rng, 1e-4, 0.5, n)
    b[:, 1] = b[:, 0] * gen.log_uniform(rng, 2, 1e6, n)
    return b


def other_types(x):
    out = {"float32": x.astype(np.float32), "float16": None}
    with np.errstate(all="ignore"):
        out = {"float32": x.astype(np.float32)}
        if np.all(np.isfinite(x)) and np.all(np.abs(x) < 1e6):
            out["int64"] = np.round(x).astype(np.int64)
            out["int16 strided"] = np.repeat(np.clip(np.round(x), -3e4, 3e4).astype(np.int16), 2, axis=0)[::2]
            out["big endian float32"] = x.astype(">f4")
            out["bool"] = x > 0
    return out


def same(mon, got, want, kind, **d):
    g, w = np.asarray(got, float), np.asarray(want, float)
    mon.check(g.shape == w.shape and np.array_equal(g, w, equal_nan=True), kind, got=got, want=want, **d)


def variants(rng, x, k=4):
    lay = gen.layouts(x)
    names = list(lay)
    pick = [names[j] for j in rng.permutation(len(names))[:k]]
    return [(n, lay[n]) for n in pick]


def param_forms(rng, p):
    return [list(p), tuple(p), np.array(p), iter(list(p)), np.array([p, p])[0],
            pd.Series(p)][int(rng.integers(0, 6))]


@workload(quick=90, thorough=2500)
def garch_variances(mon, rng, i):
    n = size(rng) if i % 30 else 50_000
    r, vb = series(rng, n), bounds(rng, n)
    bc = float(gen.log_uniform(rng, 0.01, 10))
    with np.errstate(all="ignore"):
        for cls, p in ((GARCHModel, [0.1, 0.1, 0.8]), (GJRGARCHModel, [0.1, 0.05, 0.1, 0.8])):
            p = list(np.array(p) * rng.uniform(0.5, 1.2, len(p)))
            mon.describe(model=cls.__name__, n=n, params=p)
            base = cls.compute_variance(p, r.copy(), bc, vb.copy())
            mon.check(isinstance(base, np.ndarray) and base.shape == (n,) and base.dtype == np.float64,
                      "shape of the variances", got=np.shape(base))
            mon.record(cls.__name__, base)
            for (ln, rl), (bn, bl) in zip(variants(rng, r), variants(rng, vb)):
                got = cls.compute_variance(param_forms(rng, p), rl, bc, bl)
                mon.count("garch variance calls")
                same(mon, got, base, "variances depend on the memory layout", resids=ln, bounds=bn)
            for tn, rt in other_types(r).items():
                if tn == "bool":
                    continue
                want = cls.compute_variance(p, rt.astype(np.float64), bc, vb)
                got = cls.compute_variance(p, rt, bc, vb)
                mon.count("garch variance calls")
                same(mon, got, want, "variances depend on the element type", type=tn)
            # more rows of bounds than residuals: refused, or the extra rows are ignored
            wide = np.vstack([vb, np.full((3, 2), np.nan)])
            try:
                got = cls.compute_variance(p, r, bc, wide)
            except ValueError:
                pass
            else:
                same(mon, got, base, "extra bounds rows matter")
            mon.seen(cls.__name__, n, r, bc)


@workload(quick=60, thorough=1500)
def ewma_and_bounds(mon, rng, i):
    n = size(rng) if i % 20 else 80_000
    r = series(rng, n)
    init, lam = float(gen.log_uniform(rng, 0.01, 10)), float(rng.uniform(0, 1))
    mon.describe(n=n, lam=lam)
    base = GARCHModel.ewma(r.copy(), init, lam)
    mon.record("ewma", base)
    mon.check(np.shape(base) == (n,), "shape of the EWMA", got=np.shape(base))
    for ln, rl in variants(rng, r, 6):
        same(mon, GARCHModel.ewma(rl, init, lam), base, "EWMA depends on the memory layout", resids=ln)
    for s2 in (float(gen.log_uniform(rng, 1e-6, 1e6)), 0.0, -1.0, np.inf, np.nan, 1e308):
        b = bounds(rng, 1)[0]
        want = GARCHModel.bounds_check(s2, b.copy())
        mon.record(f"bounds {s2}", want)
        for ln, bl in variants(rng, b, 5):
            same(mon, GARCHModel.bounds_check(s2, bl), want, "bounds adjustment depends on the memory layout", bounds=ln)
    vb = bounds(rng, 4)
    same(mon, GARCHModel.bounds_check(3.0, vb[2]), GARCHModel.bounds_check(3.0, vb[2].copy()), "row of a matrix of bounds")
    same(mon, GARCHModel.bounds_check(3.0, np.asfortranarray(vb)[2]), GARCHModel.bounds_check(3.0, vb[2].copy()),
         "row of a Fortran matrix of bounds")
    mon.seen(n, r, lam)


@workload(quick=60, thorough=1500)
def dcc_correlations(mon, rng, i):
    n = size(rng) if i % 20 else 30_000
    r1, r2 = series(rng, n), series(rng, n)
    s1, s2 = gen.log_uniform(rng, 0.01, 10, n), gen.log_uniform(rng, 0.01, 10, n)
    a = float(rng.uniform(0, 0.3))
    b = float(rng.uniform(0, 1 - a))
    mon.describe(n=n, a=a, b=b)
    f = utils.dcc_conditional_correlation
    with np.errstate(all="ignore"):
        base = f(a, b, r1, r2, s1, s2)
        mon.record("dcc", base)
        mon.check(np.shape(base) == (n,), "shape of the correlations", got=np.shape(base))
        for (an, al), (bn, bl), (cn, cl), (dn, dl) in zip(*(variants(rng, x) for x in (r1, r2, s1, s2))):
            mon.count("dcc calls")
            same(mon, f(a, b, al, bl, cl, dl), base, "correlations depend on the memory layout", layouts=[an, bn, cn, dn])
        for x, m in ((r1, 0), (r2, 1)):
            for tn, xt in other_types(x).items():
                args = [r1, r2, s1, s2]
                args[m] = xt.astype(np.float64)
                want = f(a, b, *args)
                args[m] = xt
                same(mon, f(a, b, *args), want, "correlations depend on the element type", type=tn)
    mon.seen(n, r1, a, b)


def sim_args(rng):
    q = float(rng.uniform(-0.9, 0.9))
    Q = np.array([[1.0, q], [q, 1.0]])
    a = float(rng.uniform(0, 0.1))
    b = float(rng.uniform(0, 0.9))
    g = lambda: [float(rng.normal() * 0.1), 0.1, 0.05, 0.1, 0.8]
    return (float(rng.choice([-0.1, 0.0, 10.0])), 2.0, 1.0, float(rng.normal()), float(rng.normal()), a, b,
            float(rng.uniform(-0.9, 0.9))), Q, tuple(g() + g())


@workload(quick=50, thorough=1500)
def lrmes_simulation(mon, rng, i):
    h = int(rng.choice([0, 1, 2, 22, 64, 500]))
    inv = rng.standard_normal((h, 2))
    head, Q, tail = sim_args(rng)
    mon.describe(h=h, C=head[0])
    base = measures.simulation(inv, *head, Q, *tail)
    mon.record("sim", (float(base[0]), bool(base[1])))
    for (n1, l1), (n2, l2) in zip(variants(rng, inv, 6), variants(rng, Q, 6)):
        got = measures.simulation(l1, *head, l2, *tail)
        mon.count("lrmes simulations")
        mon.check(got[0] == base[0] and bool(got[1]) == bool(base[1]), "simulation depends on the memory layout",
                  got=got, want=base, innovation=n1, Q_bar=n2)
    # planes of the (S, h, 2) sample, as the estimator passes them
    S = rng.standard_normal((3, h, 2))
    for arr in (S, np.asfortranarray(S)):
        got = measures.simulation(arr[1], *head, Q, *tail)
        want = measures.simulation(S[1].copy(), *head, Q, *tail)
        mon.check(got == want, "simulation depends on the memory layout", got=got, want=want)
    mon.seen(h, inv)


WORDS = np.array(["", "a", "b", "ab", "ba", "zz", "abc", "abd", "long name", "long namf"], dtype=object)


def frame(rng, n):
    cols = {}
    for k in range(int(rng.integers(0, 4))):
        x = rng.standard_normal(n)
        if n and rng.random() < 0.3:
            x[rng.integers(0, n, max(1, n // 5))] = rng.choice([np.nan, np.inf, -np.inf])
        t = rng.choice(["f8", "f4", "i8", "u1", "const"])
        with np.errstate(all="ignore"):
            if t == "const":
                x = np.full(n, 3.0)
            elif t != "f8":
                x = np.nan_to_num(x, posinf=9, neginf=-9)
                x = (np.abs(x) * 10).astype(t)
        cols[f"n{k}"] = x
    full = False
    for k in range(int(rng.integers(0 if cols else 1, 3))):
        kind = int(rng.integers(0, 4))
        if kind == 0:
            v = WORDS[rng.integers(0, len(WORDS), n)]
        elif kind == 1:  # every string fills the cell
            w = int(rng.choice([1, 3, 8, 16, 24]))
            v = np.array(["".join(rng.choice(list("ab"), w)) for _ in range(n)], dtype=object)
            full = True
        elif kind == 2:
            v = np.array(["x" * int(rng.integers(0, 40)) for _ in range(n)], dtype=object)
        else:
            v = np.array([None if rng.random() < 0.2 else "k" + str(int(rng.integers(0, 9))) for _ in range(n)], dtype=object)
        cols[f"s{k}"] = v
    return pd.DataFrame(cols, index=np.arange(n)), full


@workload(quick=60, thorough=1500)
def forests(mon, rng, i):
    n = int(rng.choice([0, 1, 2, 3, 5, 16, 64, 65, 300])) if i % 20 else 4000
    df, full = frame(rng, n)
    size_, tree = int(rng.choice([1, 2, 7, 8, 9, 40])), int(rng.choice([1, 2, 3, 8, 64, 256, 1000, 2**20, 2**31 - 1]))
    seed = int(rng.choice([0, 1, 1021, -1, 2**31 - 1, int(rng.integers(1e6))]))
    mon.describe(rows=n, columns={c: str(t) for c, t in df.dtypes.items()}, forest=size_, tree=tree, seed=seed)
    kw = dict(forest_size=size_, tree_size=tree, random_seed=seed)
    base = anomaly_scores(df, **kw)["AnomalyScore"].to_numpy()
    mon.record("scores", base)
    mon.count("forests")
    if full and n:
        mon.count("forests with full-width strings")
    mon.check(base.shape == (n,), "shape of the scores", got=base.shape)
    # the same rows in frames with another memory order
    numeric = [c for c in df if df[c].dtype != object]
    parts = pd.concat([df[[c]].copy() for c in df], axis=1)
    again = anomaly_scores(parts, **kw)["AnomalyScore"].to_numpy()
    same(mon, again, base, "scores depend on the memory layout", how="one block per column")
    if len(numeric) == len(df.columns):
        f = pd.DataFrame(np.asfortranarray(df.to_numpy(float)), columns=df.columns)
        again = anomaly_scores(f, **kw)["AnomalyScore"].to_numpy()
        same(mon, again, base, "scores depend on the memory layout", how="Fortran block")
        if n:
            wide = np.full((n * 2, len(df.columns) * 2), np.nan)
            wide[::2, ::2] = df.to_numpy(float)
            f = pd.DataFrame(wide[::2, ::2], columns=df.columns)
            again = anomaly_scores(f, **kw)["AnomalyScore"].to_numpy()
            same(mon, again, base, "scores depend on the memory layout", how="strided block")
    if n:
        mon.seen(n, list(map(str, df.dtypes)), size_, tree, seed)


@workload(quick=40, thorough=1000)
def forests_native(mon, rng, i):
    n = int(rng.choice([1, 2, 9, 64, 200]))
    k, c = int(rng.integers(0, 4)), int(rng.integers(0, 3))
    if k + c == 0:
        k = 1
    num = rng.standard_normal((k, n))
    w = int(rng.choice([1, 4, 7]))
    chars = np.array([["".join(rng.choice(list("ab"), int(rng.integers(0, w + 1)))) for _ in range(n)] for _ in range(c)],
                     dtype=f"S{w}").reshape(c, n)
    out = np.full(n, -7.0)
    args = (int(rng.integers(1, 30)), int(rng.choice([2, 8, 64, 256])), int(rng.integers(0, 99)))
    mon.describe(rows=n, numeric=k, strings=c, width=w, args=args)
    iforest.iforest(num.copy(), chars.copy(), out, *args)
    mon.count("forests")
    mon.record("native", out)
    wide = np.full((n, 3), -7.0)
    view = wide[:, 1]
    iforest.iforest(np.asfortranarray(num), np.asfortranarray(chars), view, *args)
    same(mon, view, out, "scores depend on the memory layout", how="Fortran, strided output")
    mon.check(np.all(wide[:, [0, 2]] == -7.0), "wrote outside the output")
    rev = np.full(n, -7.0)
    big = np.full((k, 2 * n + 1), np.nan)
    big[:, 1::2] = num
    cb = np.full((2 * c, n), b"~" * w, dtype=f"S{w}")
    cb[::2] = chars
    iforest.iforest(big[:, 1::2], cb[::2], rev[::-1], *args)
    same(mon, rev[::-1], out, "scores depend on the memory layout", how="strided, reversed output")
    be = np.full(n, -7.0).astype(">f8")
    iforest.iforest(num.astype(">f8"), chars, be, *args)
    same(mon, be.astype(float), out, "scores depend on the memory layout", how="big endian")
    raw = np.zeros(8 * n + 1, np.uint8)
    un = raw[1:].view(np.float64)
    iforest.iforest(gen.layouts(num)["unaligned"], chars, un, *args)
    same(mon, un, out, "scores depend on the memory layout", how="unaligned output")
    mon.seen(n, k, c, w, args)


@workload(quick=60, thorough=1000)
def unusable_arguments(mon, rng, i):
    """Everything here cannot be used and must raise."""
    n = int(rng.integers(2, 60))
    r, vb = rng.standard_normal(n), bounds(rng, n)
    tried = []

    def bad(kind, f):
        tried.append(kind)
        mon.count("unusable arguments tried")
        with np.errstate(all="ignore"):
            mon.refused(f, "accepted: " + kind)

    for cls, k in ((GARCHModel, 3), (GJRGARCHModel, 4)):
        good = [0.1] * k
        for m in (0, 1, 2, 3, 4, 5, 50):
            if m != k:
                bad("wrong number of parameters", lambda: cls.compute_variance([0.1] * m, r, 1.0, vb))
        bad("non-numeric parameters", lambda: cls.compute_variance(["a"] * k, r, 1.0, vb))
        bad("parameters not iterable", lambda: cls.compute_variance(0.1, r, 1.0, vb))
        bad("no residuals", lambda: cls.compute_variance(good, np.empty(0), 1.0, vb))
        short = int(rng.integers(0, n))
        bad("bounds shorter than the residuals", lambda: cls.compute_variance(good, r, 1.0, vb[:short]))
        bad("one-dimensional bounds", lambda: cls.compute_variance(good, r, 1.0, vb[:, 0]))
        bad("bounds with one column", lambda: cls.compute_variance(good, r, 1.0, vb[:, :1]))
        bad("transposed bounds", lambda: cls.compute_variance(good, r[: min(n, 2) if n != 2 else 1], 1.0, vb.T)
            if n > 2 else cls.compute_variance(good, r, 1.0, vb[:, :1]))
        bad("two-dimensional residuals", lambda: cls.compute_variance(good, np.vstack([r, r]), 1.0, vb))
        bad("zero-dimensional residuals", lambda: cls.compute_variance(good, np.array(1.0), 1.0, vb))
        bad("residuals not an array", lambda: cls.compute_variance(good, None, 1.0, vb))
        bad("strings as residuals", lambda: cls.compute_variance(good, np.array(["x"] * n), 1.0, vb))
        bad("objects as residuals", lambda: cls.compute_variance(good, np.array([object()] * n), 1.0, vb))
        bad("bounds not an array", lambda: cls.compute_variance(good, r, 1.0, None))
    bad("EWMA of nothing", lambda: GARCHModel.ewma(np.empty(0), 1.0, 0.94))
    bad("EWMA of a matrix", lambda: GARCHModel.ewma(np.vstack([r, r]), 1.0, 0.94))
    bad("EWMA of a non-array", lambda: GARCHModel.ewma(None, 1.0, 0.94))
    bad("one bound", lambda: GARCHModel.bounds_check(1.0, np.array([1.0])))
    bad("no bounds", lambda: GARCHModel.bounds_check(1.0, np.empty(0)))
    bad("matrix of bounds", lambda: GARCHModel.bounds_check(1.0, vb))
    f = utils.dcc_conditional_correlation
    for m in range(4):
        args = [r, r.copy(), r**2 + 1, r**2 + 1]
        for what, x in (("shorter", args[m][:-1]), ("empty", np.empty(0)), ("matrix", np.vstack([r, r])),
                        ("strings", np.array(["x"] * n)), ("non-array", [1.0] * n)):
            a2 = list(args)
            a2[m] = x
            bad("correlation input " + what, lambda: f(0.1, 0.8, *a2))
    bad("correlation of nothing", lambda: f(0.1, 0.8, *[np.empty(0)] * 4))
    head, Q, tail = sim_args(rng)
    inv = rng.standard_normal((5, 2))
    for what, x in (("one column", inv[:, :1]), ("flat", inv.ravel()), ("three columns", rng.standard_normal((5, 3))),
                    ("strings", np.array([["a", "b"]])), ("non-array", None)):
        bad("innovations " + what, lambda: measures.simulation(x, *head, Q, *tail))
    for what, x in (("1x1", Q[:1, :1]), ("flat", Q.ravel()), ("3x3", np.eye(3)), ("1x2", Q[:1]), ("non-array", 1.0)):
        bad("correlation matrix " + what, lambda: measures.simulation(inv, *head, x, *tail))
    num, ch = rng.standard_normal((2, n)), np.array([["a"] * n], dtype="S1")
    g = lambda *a: (lambda: iforest.iforest(*a))
    ok = (5, 8, 1)
    bad("output too short", g(num, ch, np.empty(n - 1), *ok))
    bad("output too long", g(num, ch, np.empty(n + 1), *ok))
    bad("matrix output", g(num, ch, np.empty((n, 1)), *ok))
    ro = np.empty(n)
    ro.flags.writeable = False
    bad("read-only output", g(num, ch, ro, *ok))
    bad("string rows differ from numeric rows", g(num, ch[:, :-1], np.empty(n), *ok))
    bad("flat numeric data", g(num[0], ch, np.empty(n), *ok))
    bad("flat string data", g(num, ch[0], np.empty(n), *ok))
    bad("no attribute", g(num[:0], ch[:0], np.empty(n), *ok))
    bad("no tree", g(num, ch, np.empty(n), 0, 8, 1))
    bad("negative forest", g(num, ch, np.empty(n), -3, 8, 1))
    bad("no observation per tree", g(num, ch, np.empty(n), 5, 0, 1))
    bad("negative tree", g(num, ch, np.empty(n), 5, -8, 1))
    bad("seed does not fit", g(num, ch, np.empty(n), 5, 8, 2**40))
    df = pd.DataFrame(num.T)
    bad("frame without usable column", lambda: anomaly_scores(df, exclude_cols=list(df)))
    bad("frame of booleans only", lambda: anomaly_scores(pd.DataFrame({"b": np.arange(n) > 1})))
    bad("empty forest", lambda: anomaly_scores(df, forest_size=0))
    bad("empty trees", lambda: anomaly_scores(df, tree_size=0))
    bad("non-ASCII strings", lambda: anomaly_scores(pd.DataFrame({"s": ["\u00e9"] * n}), forest_size=4))
    mon.describe(n=n, kinds=len(tried))
    mon.seen(n, r)


@workload(quick=4, thorough=60)
def whole_models(mon, rng, i):
    """The estimators end to end, as users call them."""
    from frds.measures import LongRunMarginalExpectedShortfall

    T = int(rng.integers(300, 500))
    r1, r2, _, _ = gen.pair_pct(rng, T, rho=0.4, gjr=True)
    m = LongRunMarginalExpectedShortfall(np.expm1(r1 / 100), np.expm1(r2 / 100))
    mon.describe(T=T, r1=r1)
    try:
        v = m.estimate(h=10, S=100, C=-0.02)
    except RuntimeError:
        mon.skip("estimation failed")
    mon.record("lrmes", float(v))
    mon.seen(T, float(v))


def valgrind(run):
    """Reads of uninitialised memory in the extensions, by valgrind memcheck."""
    log = os.path.join(run.scratch, "vg.log")
    w = run.start(
        "c01", variant="plain", mode="valgrind", scale=0.012, only=["garch_variances", "ewma_and_bounds",
        "dcc_correlations", "lrmes_simulation", "forests", "forests_native", "unusable_arguments"],
        budget_s=500, env=dict(PYTHONMALLOC="malloc"),
        wrap=["valgrind", "--tool=memcheck", "--error-limit=no", "--num-callers=30", "--undef-value-errors=yes",
              "--track-origins=no", "--child-silent-after-fork=yes", f"--log-file={log}"],
    )
    return w, log


def orchestrate(run):
    jobs = []
    shards = 3
    first = [run.start("c01", variant="asan", mode="fill 0xbe", shard=k, shards=shards) for k in range(shards)]
    second = []
    for k in range(shards):
        e = build.variant_env("asan", os.path.join(run.scratch, f"job{run.njob + 1}"))
        e["ASAN_OPTIONS"] = e["ASAN_OPTIONS"].replace("malloc_fill_byte=190", "malloc_fill_byte=65")
        second.append(run.start("c01", variant="asan", mode="fill 0x41", shard=k, shards=shards, env=e))
    jobs = first + second
    vg = None
    if run.thorough:
        vg, log = valgrind(run)
        jobs.append(vg)
    run.wait(jobs)
    compared = 0
    for a, b in zip(first, second):
        ta, tb = (x.get("result", {}).get("trace", {}) for x in (a, b))
        for k in sorted(set(ta) & set(tb)):
            compared += 1
            if ta[k] != tb[k]:
                run.violation("result depends on the content of fresh memory", k,
                              workload=k.split("[")[0], where=k)
    run.counters["results compared across heap fills"] = compared
    if not run.violations and compared < 50:
        from lib.runner import Inconclusive

        raise Inconclusive(f"only {compared} results compared across heap fills")
    if vg:
        text = open(log, errors="replace").read()
        blocks = re.split(r"(?m)^==\d+== *\n", text)
        ours = [b for b in blocks if re.search(
            r"(Invalid (read|write)|uninitialised|Invalid free|Mismatched free|overlap)", b)
            and re.search(r"^==\d+== +(?:at|by) [^\n]*_ext\.", "\n".join(b.splitlines()[:9]), re.M)]
        run.counters["valgrind error blocks seen"] = len(blocks)
        run.counters["valgrind blocks in the extensions"] = len(ours)
        for b in ours[:5]:
            head = b.splitlines()[0].split("== ", 1)[-1]
            run.violation("valgrind: " + head, head, report=b[:4000])
