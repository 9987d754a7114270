"""C21: native calls leak nothing.

Every routine that reaches native code is repeated, in successful and refused calls,
under an allocator that counts the live heap blocks and bytes of the process
(native/count.c, with the interpreter's own allocator switched off): the number must
not grow with the number of calls.  Reference counts of all arguments, and the number
of threads, are compared around the calls.  Results are read again after the inputs
are gone; the same under AddressSanitizer.
"""
import ctypes
import gc
import os
import subprocess
import sys
import time

import numpy as np
import pandas as pd

from lib import gen
from lib.mon import workload

RULE = """A case is one native routine with generated arguments, repeated in four windows of calls;
distinct by routine, outcome and content. Non-trivial when the calls were counted: the allocator saw
allocations during them."""
ASSUMPTIONS = ["a leak shows as growth of live heap blocks, heap bytes or reference counts in every one of four consecutive windows of calls after a warm-up"]
MIN_DISTINCT = 30
MIN_OBSERVED = {"repetitions": 3000, "allocations seen": 10000, "refused repetitions": 500, "results read after their inputs are gone": 50}


def setup(mon):
    global A, M, utils, measures, iforest, anomaly_scores, take
    import frds.algorithms as A
    import frds.measures as M
    import frds.algorithms.utils.utils_ext as utils
    import frds.algorithms.isolation_forest.iforest_ext as iforest
    from frds.measures import measures_ext as measures
    from frds.algorithms.isolation_forest import anomaly_scores

    try:
        fn = ctypes.CDLL(None).count_take
    except AttributeError:
        fn = None

    buf = (ctypes.c_longlong * 3)()

    def take():
        if fn is None:
            return (0, 0, 0)
        fn(buf)
        return tuple(buf)

    gc.collect()
    gc.freeze()  # later collections look at new objects only


def tasks():
    return len(os.listdir("/proc/self/task"))


def settle(n):
    for _ in range(200):
        if tasks() <= n:
            return True
        time.sleep(0.01)
    return tasks() <= n


def growth(mon, name, f, args, K, refuse=False, array_bytes=0):
    """Repeat f(); nothing may grow.

    A leak of one block per call grows every window by K blocks.  Routines that go
    through pandas or scipy (array_bytes given) have caches of their own that grow by
    a few small blocks: there, growth by half an array per call is what decides.
    """
    def once():
        try:
            f()
        except (ValueError, TypeError, OverflowError, RuntimeError, UnicodeError) as e:
            if not refuse:
                raise
            e = None
            return
        if refuse:
            mon.require(False, f"accepted: {name}")

    base_tasks = tasks()
    for _ in range(max(5, K // 4)):
        once()
    mon.check(settle(base_tasks), f"worker threads survive: {name}", before=base_tasks, after=tasks())
    refs = [sys.getrefcount(a) for a in args]
    shared = [np.dtype(float), np.dtype("S1"), type(name), ValueError]
    d = np.zeros((4, 3 + len(shared)), dtype=np.int64)
    ends = np.zeros((2, 3 + len(shared)), dtype=np.int64)
    for w in range(4):
        for e in (0, 1):
            gc.collect()
            ends[e, :3] = take()
            for j, x in enumerate(shared):
                ends[e, 3 + j] = sys.getrefcount(x)
            if not e:
                for _ in range(K):
                    once()
        d[w] = ends[1] - ends[0]
    mon.count("refused repetitions" if refuse else "repetitions", 4 * K)
    mon.count("allocations seen", int(d[:, 2].sum()))
    cols = [(3 + j, "references", 0.9 * K) for j in range(len(shared))]
    if array_bytes:
        cols = [(1, "heap bytes", 0.5 * array_bytes * K)]
    else:
        cols += [(0, "heap blocks", 0.9 * K), (1, "heap bytes", 64 * K)]
    for col, what, least in cols:
        mon.check(not np.all(d[:, col] >= least), f"{what} grow with the calls: {name}", per_window=d[:, col], calls=K)
    now = [sys.getrefcount(a) for a in args]
    # interpreters cache nothing per call: a leaked reference shows once per call
    mon.check(all(abs(n - r) < 4 * K for n, r in zip(now, refs)), f"reference counts of the arguments changed: {name}",
              before=refs, after=now, calls=4 * K)
    mon.check(settle(base_tasks), f"worker threads survive: {name}", before=base_tasks, after=tasks())
    mon.describe(calls=name, windows=d[:, :2])
    if d[:, 2].sum() > 0 or mon.variant == "asan":
        mon.seen(name, refuse, mon.current[1])


def some(rng, x):
    lay = gen.layouts(x)
    return lay[list(lay)[int(rng.integers(len(lay)))]]


@workload(quick=8, thorough=120)
def arrays(mon, rng, i):
    n = int(rng.choice([1, 2, 3, 5, 64, 100, 256, 400, 1000, 1024]))
    K = 200 if mon.variant == "plain" else 20
    r, r2 = some(rng, rng.standard_normal(n)), some(rng, rng.standard_normal(n))
    b = np.column_stack([np.full(n, 1e-4), np.full(n, 1e6)])
    vb = some(rng, b)
    s = some(rng, rng.random(n) + 0.5)
    p3, p4 = [0.1 + rng.random() / 10, 0.1, 0.8], [0.1 + rng.random() / 10, 0.05, 0.1, 0.8]
    a3 = np.array(p3)
    growth(mon, "garch variance", lambda: A.GARCHModel.compute_variance(p3, r, 1.0, vb), [r, vb, p3, p3[0]], K)
    growth(mon, "garch variance, array of parameters", lambda: A.GARCHModel.compute_variance(a3, r, 1.0, vb), [r, vb, a3], K)
    growth(mon, "gjr variance", lambda: A.GJRGARCHModel.compute_variance(p4, r, 1.0, vb), [r, vb, p4, p4[0]], K)
    growth(mon, "ewma", lambda: A.GARCHModel.ewma(r, 1.0, 0.94), [r], K)
    growth(mon, "bounds check", lambda: A.GARCHModel.bounds_check(2.0, vb[0]), [vb], K)
    growth(mon, "correlations", lambda: utils.dcc_conditional_correlation(0.05, 0.9, r, r2, s, s), [r, r2, s], K)
    inv, Q = some(rng, rng.standard_normal((22, 2))), some(rng, np.array([[1, 0.5], [0.5, 1]]))
    tail = (0.0, 0.1, 0.05, 0.1, 0.8) * 2
    big = 1234.5678
    growth(mon, "simulation", lambda: measures.simulation(inv, 10.0, 1.0, 1.0, 0.1, 0.1, 0.05, 0.9, 0.3, Q, *tail), [inv, Q, tail], K)
    growth(mon, "simulation without event", lambda: measures.simulation(inv, -0.99, 1.0, 1.0, 0.1, 0.1, 0.05, 0.9, 0.3, Q, *tail), [inv, Q, tail, big], K)


@workload(quick=8, thorough=120)
def refused(mon, rng, i):
    n = int(rng.choice([3, 100, 400]))
    K = 100 if mon.variant == "plain" else 10
    r, vb = some(rng, rng.standard_normal(n)), some(rng, rng.random((n, 2)))
    bad_item = ["x" * 50, 0.1, 0.2]
    p3 = [0.1, 0.1, 0.8]
    text = np.array(["word"] * n)
    for cls, p in ((A.GARCHModel, p3), (A.GJRGARCHModel, [0.1, 0.05, 0.1, 0.8])):
        nm = cls.__name__ + " "
        f = cls.compute_variance
        two = [0.1, 0.2]
        growth(mon, nm + "two parameters", lambda: f(two, r, 1.0, vb), [r, vb, two], K, True)
        growth(mon, nm + "text parameter", lambda: f(bad_item, r, 1.0, vb), [r, vb, bad_item, bad_item[0]], K, True)
        growth(mon, nm + "number as parameters", lambda: f(1.0, r, 1.0, vb), [r, vb], K, True)
        growth(mon, nm + "short bounds", lambda: f(p, r, 1.0, vb[:-1]), [r, vb, p], K, True)
        growth(mon, nm + "flat bounds", lambda: f(p, r, 1.0, vb[:, 0]), [r, vb, p], K, True)
        growth(mon, nm + "text residuals", lambda: f(p, text, 1.0, vb), [text, vb, p], K, True)
        growth(mon, nm + "text bounds", lambda: f(p, r, 1.0, text), [text, r, p], K, True)
        growth(mon, nm + "matrix residuals", lambda: f(p, vb, 1.0, vb), [vb, p], K, True)
        growth(mon, nm + "empty residuals", lambda: f(p, r[:0], 1.0, vb), [r, vb, p], K, True)
        growth(mon, nm + "text backcast", lambda: f(p, r, "x", vb), [r, vb, p], K, True)
    growth(mon, "ewma of a matrix", lambda: A.GARCHModel.ewma(vb, 1.0, 0.9), [vb], K, True)
    growth(mon, "ewma of nothing", lambda: A.GARCHModel.ewma(r[:0], 1.0, 0.9), [r], K, True)
    growth(mon, "ewma of text", lambda: A.GARCHModel.ewma(text, 1.0, 0.9), [text], K, True)
    growth(mon, "one bound", lambda: A.GARCHModel.bounds_check(1.0, r[:1]), [r], K, True)
    growth(mon, "text bound", lambda: A.GARCHModel.bounds_check(1.0, text), [text], K, True)
    for m in range(4):
        for what, x in (("matrix", vb), ("short", r[:-1]), ("text", text), ("list", [1.0])):
            args = [r, r, r, r]
            args[m] = x
            growth(mon, f"correlations {what} {m}", lambda: utils.dcc_conditional_correlation(0.1, 0.8, *args), [r, x], K // 2, True)
    tail = (0.0, 0.1, 0.05, 0.1, 0.8) * 2
    inv, Q = rng.standard_normal((5, 2)), np.eye(2)
    t2 = np.array([["a", "b"]] * 2)
    for what, x, q in (("flat", inv[:, 0], Q), ("three columns", rng.random((5, 3)), Q), ("Q", inv, inv), ("text", t2, Q), ("text Q", inv, t2)):
        growth(mon, "simulation " + what, lambda: measures.simulation(x, -0.1, 1.0, 1.0, 0.1, 0.1, 0.1, 0.8, 0.3, q, *tail), [x, q, tail], K, True)
    num, ch, out = rng.random((2, n)), np.array([[b"a"] * n]), np.zeros(n)
    ro = np.zeros(n)
    ro.flags.writeable = False
    lists = [[0.0] * n]
    for what, a in (("short output", (num, ch, out[:-1], 5, 8, 1)), ("flat", (num[0], ch, out, 5, 8, 1)), ("strings", (num, ch[:, 1:], out, 5, 8, 1)),
                    ("read-only", (num, ch, ro, 5, 8, 1)), ("no trees", (num, ch, out, 0, 8, 1)), ("text numbers", (text, ch, out, 5, 8, 1)),
                    ("big-endian short", (num.astype(">f8"), ch, np.zeros(n - 1, ">f8"), 5, 8, 1)), ("matrix output", (num, ch, num, 5, 8, 1)),
                    ("text output", (num, ch, ch[0], 5, 8, 1)), ("nothing", (num[:0], ch[:0], out, 5, 8, 1)), ("bad seed", (num, ch, out, 5, 8, "x")),
                    ("object strings", (num, np.array([[object()] * n]).T[:1], out, 5, 8, 1))):
        growth(mon, "forest " + what, lambda: iforest.iforest(*a), list(a[:3]), K // 2, True)
    # large enough to tell an array kept from the small caches of pandas
    df = pd.DataFrame({"s": ["\u00e9"] * 2000})
    growth(mon, "forest of non-ASCII strings", lambda: anomaly_scores(df, 3, 8), [df], K // 4, True, array_bytes=8 * 2000)


@workload(quick=8, thorough=150)
def forests(mon, rng, i):
    n = int(rng.choice([600, 2000]))
    K = 12 if mon.variant == "plain" else 4
    x = {"a": rng.standard_normal(n), "b": rng.integers(0, 5, n)}
    if i % 2:
        x["s"] = np.array(["k" * int(v) for v in rng.integers(0, 30, n)], dtype=object)
    if i % 3 == 0:
        x["a"][rng.random(n) < 0.2] = np.nan
    df = pd.DataFrame(x)
    size, tree = int(rng.choice([1, 7, 40])), int(rng.choice([2, 16, 256]))
    growth(mon, "forest", lambda: anomaly_scores(df, size, tree), [df, df.index], K, array_bytes=8 * n)
    num = np.asarray(df.select_dtypes(include=[np.number]), dtype=float).T
    num = some(rng, num) if i % 2 else num
    ch = np.array([[b"abc"] * n]) if i % 4 else np.zeros((0, n), dtype="S1")
    out = some(rng, np.zeros(n)) if n > 1 else np.zeros(n)
    if not out.flags.writeable:
        out = np.zeros(n)
    growth(mon, "native forest", lambda: iforest.iforest(num, ch, out, size, tree, 3), [num, ch, out], K)
    for m in [int(v) for v in rng.choice([1, 2, 3, 8, 31, 64, 65, 128, 255, 256, 257, 512, 1000, 1024], 4, replace=False)]:
        one, o1 = rng.standard_normal((2, m)), np.zeros(m)
        c1 = np.array([[b"abc"] * m]) if m % 3 else np.zeros((0, m), dtype="S1")
        few = int(rng.integers(1, 17))
        growth(mon, f"native forest of {m} rows", lambda: iforest.iforest(one, c1, o1, few, tree, 3), [one, c1, o1], 4 * K)


@workload(quick=10, thorough=60)
def estimators(mon, rng, i):
    """Whole estimations in a row."""
    T = 600
    x, y, _, _ = gen.pair_pct(rng, T, rho=0.5, gjr=True)
    a, b = np.expm1(x / 100), np.expm1(y / 100)
    kw = dict(K=3, array_bytes=2 * 8 * T)
    if i % 5 == 0:
        growth(mon, "GARCH fit", lambda: A.GARCHModel(x).fit(), [x], **kw)
    elif i % 5 == 1:
        growth(mon, "GJR fit", lambda: A.GJRGARCHModel(x).fit(), [x], **kw)
    elif i % 5 == 2:
        growth(mon, "DCC fit", lambda: A.GARCHModel_DCC(x, y).fit(), [x, y], **kw)
    else:
        m = M.LongRunMarginalExpectedShortfall(a, b)

        def lrmes():
            try:
                (M.LongRunMarginalExpectedShortfall(a, b) if i % 5 == 3 else m).estimate(h=5, S=50, C=-0.01)
            except RuntimeError:
                pass

        growth(mon, "LRMES" + " of one object" * (i % 5 == 4), lrmes, [a, b], **kw)


@workload(quick=40, thorough=600)
def results_outlive_inputs(mon, rng, i):
    n = int(rng.choice([1, 8, 100, 3000]))
    which = i % 6
    r, s = rng.standard_normal(n), rng.random(n) + 0.5
    vb = np.column_stack([np.full(n, 1e-4), np.full(n, 1e6)])
    if which == 0:
        f = lambda r, s, vb: A.GARCHModel.compute_variance([0.1, 0.1, 0.8], r, 1.0, vb)
    elif which == 1:
        f = lambda r, s, vb: A.GJRGARCHModel.compute_variance([0.1, 0.05, 0.1, 0.8], r, 1.0, vb)
    elif which == 2:
        f = lambda r, s, vb: A.GARCHModel.ewma(r, 1.0, 0.94)
    elif which == 3:
        f = lambda r, s, vb: utils.dcc_conditional_correlation(0.05, 0.9, r, r[::-1], s, s)
    elif which == 4:
        f = lambda r, s, vb: anomaly_scores(pd.DataFrame({"r": r, "s": s}), 5, 8)["AnomalyScore"].to_numpy()
    else:
        f = lambda r, s, vb: np.array(measures.simulation(np.column_stack([r, s]), 10.0, 1.0, 1.0, 0.1, 0.1, 0.05, 0.9, 0.3,
                                                          np.eye(2), *((0.0, 0.1, 0.05, 0.1, 0.8) * 2)), dtype=float)
    mon.describe(n=n, which=which)
    want = f(r.copy(), s.copy(), vb.copy()).copy()
    a = [r.copy(), s.copy(), vb.copy()]
    got = f(*a)
    for x in a:
        x[...] = -77.0
    mon.check(np.array_equal(got, want, equal_nan=True), "the result shares memory with an input", which=which)
    got = f(r.copy(), s.copy(), vb.copy())
    del a
    gc.collect()
    junk = [np.full(n, -88.0) for _ in range(6)] + [np.full((n, 2), -99.0) for _ in range(4)]
    more = [f(r + 1, s, vb) for _ in range(3)]
    mon.check(np.array_equal(got, want, equal_nan=True), "a result changed after its inputs were deleted", which=which)
    mon.check(got.flags.writeable, "a result cannot be edited")
    got[...] = 1.0
    mon.check(np.array_equal(f(r.copy(), s.copy(), vb.copy()), want, equal_nan=True), "editing a result changes later results", which=which)
    mon.count("results read after their inputs are gone")
    mon.seen(which, n, r)
    del junk, more


def orchestrate(run):
    so = os.path.join(run.scratch, "count.so")
    src = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "native", "count.c")
    subprocess.run(["gcc", "-O1", "-fPIC", "-fno-builtin", "-shared", "-pthread", "-o", so, src], check=True)
    env = dict(LD_PRELOAD=so, PYTHONMALLOC="malloc")
    jobs = [run.start("c21", shard=k, shards=5, env=env) for k in range(5)]
    jobs += [run.start("c21", variant="asan", shard=k, shards=2, scale=0.3 if run.thorough else 0.6,
                       only=["arrays", "refused", "forests", "results_outlive_inputs"]) for k in range(2)]
    run.wait(jobs)


def replay(run, rep):
    if rep["variant"] == "asan":
        jobs = [run.start("c21", variant="asan", replay=[[rep["workload"], rep["case"]]])]
    else:
        so = os.path.join(run.scratch, "count.so")
        src = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "native", "count.c")
        subprocess.run(["gcc", "-O1", "-fPIC", "-fno-builtin", "-shared", "-pthread", "-o", so, src], check=True)
        jobs = [run.start("c21", env=dict(LD_PRELOAD=so, PYTHONMALLOC="malloc"), replay=[[rep["workload"], rep["case"]]])]
    run.wait(jobs)
