"""C02: isolation-forest scores do not depend on threads or scheduling.

The same cases run in several worker processes that differ only in the number of
processors the library sees (1 to 64), in the processors it may use, and in the
delays injected at thread start, thread end and lock acquisition of its worker
threads; the scores every process computed are compared bit for bit.  Inside a
process each case is repeated after other calls and while other threads score other
data.  A ThreadSanitizer build of the extension runs the same workload and must
report no race.  The shim (native/shim.c) counts threads and distinct schedules.
"""
import ctypes
import os
import subprocess
import sys
import threading

import numpy as np
import pandas as pd

from lib import build
from lib.mon import workload

RULE = """A case is one (frame, forest size, tree size, seed) scored in one process configuration,
alone, repeated, after other calls or concurrently with other threads; distinct by content, parameters
and by the observed schedule (order in which native workers started, locked and ended). Non-trivial when
native worker threads ran and the frame has at least two rows."""
ASSUMPTIONS = [
    "processor counts are simulated by intercepting get_nprocs and sysconf",
    "ThreadSanitizer sees the extension's own accesses; the interpreter and numpy are not instrumented, races are attributed to the extension only if a frame of it is in the report",
]
MIN_DISTINCT = 100
MIN_OBSERVED = {"native threads started": 500, "concurrent scorings": 40, "scores compared across configurations": 100,
                "thread sanitizer: scorings": 20, "allocations refused to worker threads": 30}


def setup(mon):
    global anomaly_scores, take
    from frds.algorithms.isolation_forest import anomaly_scores

    lib = ctypes.CDLL(None)
    try:
        fn = lib.shim_take
    except AttributeError:
        fn = None

    def take():
        if fn is None:
            return None
        a = (ctypes.c_uint64 * 4)()
        fn(a)
        return list(a)

    aff = os.environ.get("C02_AFFINITY")
    if aff:
        cpus = sorted(os.sched_getaffinity(0))
        os.sched_setaffinity(0, set(cpus[: int(aff)]))
    sys.setswitchinterval(1e-4)


def frame(rng, n):
    cols = {}
    for k in range(int(rng.integers(1, 4))):
        x = rng.standard_normal(n)
        if rng.random() < 0.3:
            x = np.round(x)
        if rng.random() < 0.3:
            x[rng.random(n) < 0.1] = np.nan
        cols[f"n{k}"] = x
    if rng.random() < 0.4:
        cols["s"] = np.array(["".join(rng.choice(list("abc"), int(rng.integers(0, 6)))) for _ in range(n)], dtype=object)
    return pd.DataFrame(cols)


def draw(rng):
    n = int(rng.choice([1, 2, 5, 7, 50, 64, 200, 500]))
    df = frame(rng, n)
    kw = dict(forest_size=int(rng.choice([1, 2, 3, 7, 8, 9, 31, 100])), tree_size=int(rng.choice([3, 8, 64, 256])),
              random_seed=int(rng.integers(0, 2**31)))
    return df, kw


def score(mon, df, kw):
    s = anomaly_scores(df, **kw)["AnomalyScore"].to_numpy().copy()
    if mon.variant == "tsan":
        mon.count("thread sanitizer: scorings")
    return s


def observe(mon, *key):
    t = take()
    if t is None:
        return
    mon.count("native threads started", t[2])
    mon.count("scheduling events", t[1])
    if t[1]:
        mon.seen("schedule", t[0], *key)


def same(mon, a, b, kind, **d):
    mon.check(a.shape == b.shape and np.array_equal(a, b, equal_nan=True), kind,
              differing=int(np.sum(~((a == b) | (np.isnan(a) & np.isnan(b))))) if a.shape == b.shape else "shape", **d)


@workload(quick=60, thorough=1200)
def repeated(mon, rng, i):
    df, kw = draw(rng)
    other, okw = draw(rng)
    mon.describe(rows=len(df), columns=list(df), **kw)
    take()
    a = score(mon, df, kw)
    observe(mon)
    mon.record("scores", a)
    same(mon, score(mon, df, kw), a, "a second call gives other scores")
    score(mon, other, okw)
    score(mon, df, dict(kw, random_seed=kw["random_seed"] ^ 5))
    same(mon, score(mon, df.copy(), dict(kw)), a, "earlier calls change the scores")
    if len(df) > 1:
        mon.seen(df.to_numpy(dtype=object).tolist(), sorted(kw.items()))


@workload(quick=10, thorough=200)
def different_seeds(mon, rng, i):
    n = int(rng.integers(30, 200))
    df = pd.DataFrame(rng.standard_normal((n, 3)))
    base = int(rng.integers(0, 2**30))
    seeds = [base, base + 1, base + 2, base ^ (1 << int(rng.integers(16, 30))), base + 2**16]
    mon.describe(rows=n, seeds=seeds)
    rows = {}
    for s in dict.fromkeys(seeds):
        v = score(mon, df, dict(forest_size=6, tree_size=16, random_seed=s))
        mon.record(f"seed {s}", v)
        mon.check(v.tobytes() not in rows, "different seeds grow the same forest", seeds=[s, rows.get(v.tobytes())])
        rows[v.tobytes()] = s
    mon.seen(n, base)


@workload(quick=14, thorough=300)
def concurrent(mon, rng, i):
    k = int(rng.choice([2, 3, 4, 8]))
    jobs = [draw(rng) for _ in range(k)]
    if rng.random() < 0.4:  # the same frame from every thread
        jobs = [(jobs[0][0], dict(jobs[0][1], random_seed=int(s))) for s in rng.integers(0, 99, k)]
    mon.describe(threads=k, rows=[len(j[0]) for j in jobs], forests=[j[1]["forest_size"] for j in jobs])
    alone = [score(mon, *j) for j in jobs]
    got = [[] for _ in jobs]
    errors = []
    barrier = threading.Barrier(k)
    take()

    def go(n):
        try:
            barrier.wait()
            for _ in range(2):
                got[n].append(score(mon, *jobs[n]))
        except Exception as e:  # reported by the oracle below
            errors.append(repr(e))

    ts = [threading.Thread(target=go, args=(n,)) for n in range(k)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    observe(mon, k)
    mon.check(not errors, "a concurrent call failed", errors=errors)
    for n in range(k):
        for g in got[n]:
            mon.count("concurrent scorings")
            same(mon, g, alone[n], "concurrent calls change the scores", thread=n, forest=jobs[n][1])
        mon.record(f"thread {n}", alone[n])
    mon.seen(k, [len(j[0]) for j in jobs], [sorted(j[1].items()) for j in jobs])


@workload(quick=4, thorough=60)
def large(mon, rng, i):
    """Enough work per thread for the workers to overlap."""
    n = int(rng.integers(2000, 6000)) if i % 4 != 1 else 70_000
    df = frame(rng, n)
    kw = dict(forest_size=150 if n < 10_000 else 30, tree_size=256, random_seed=int(rng.integers(0, 1000)))
    mon.describe(rows=n, **kw)
    take()
    a = score(mon, df, kw)
    observe(mon)
    mon.record("scores", a)
    same(mon, score(mon, df, kw), a, "a second call gives other scores")
    mon.seen(n, kw["random_seed"])


@workload(quick=60, thorough=600)
def shortage(mon, rng, i):
    """Workers that run out of memory together: no race among them, and the next call is right."""
    df, kw = draw(rng)
    every = int(rng.choice([1, 1, 2, 3, 7]))
    mon.describe(rows=len(df), refuse_every=every, **kw)
    a = score(mon, df, kw)
    lib = ctypes.CDLL(None)
    if not hasattr(lib, "short_arm"):
        mon.skip()
    lib.short_arm.argtypes, lib.short_take.restype = [ctypes.c_long], ctypes.c_long
    lib.short_arm(every)
    try:
        b = anomaly_scores(df, **kw)["AnomalyScore"].to_numpy()
    except MemoryError:
        b = None
    hits = lib.short_take()
    mon.count("allocations refused to worker threads", hits)
    mon.check((b is None) == (hits > 0), "workers without memory are not reported", refused=hits)
    if b is not None:
        same(mon, b, a, "a second call gives other scores")
    same(mon, score(mon, df, kw), a, "earlier calls change the scores")
    if hits:
        mon.seen(every, len(df), sorted(kw.items()))


def shim(run):
    so = os.path.join(run.scratch, "shim.so")
    src = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "native", "shim.c")
    subprocess.run(["gcc", "-O1", "-fPIC", "-shared", "-pthread", "-o", so, src, "-ldl"], check=True)
    return so


CONFIGS = [  # processors seen, processors usable, longest delay in microseconds
    (1, None, 0), (8, None, 0), (2, 1, 60), (3, None, 200), (5, 2, 400), (16, 1, 100), (64, None, 30),
]


def shortage_lib(run):
    so = os.path.join(run.scratch, "short.so")
    src = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "native", "short.cpp")
    if not os.path.exists(so):
        subprocess.run(["g++", "-O1", "-fPIC", "-shared", "-pthread", "-o", so, src, "-ldl"], check=True)
    return so


def start(run, so, n, cfg, variant="plain", **kw):
    procs, aff, delay = cfg
    base = os.path.join(run.scratch, f"job{run.njob + 1}")
    env = dict(build.variant_env(variant, base), SHIM_NPROCS=str(procs), SHIM_DELAY_US=str(delay),
               SHIM_SEED=str(run.seed * 101 + n))
    env["LD_PRELOAD"] = ":".join(x for x in (env.get("LD_PRELOAD"), so) if x)
    if n == 102:
        env["LD_PRELOAD"] = shortage_lib(run) + ":" + env["LD_PRELOAD"]
    if aff:
        env["C02_AFFINITY"] = str(aff)
    wrap = ["setarch", "-R"] if variant == "tsan" and build.can_disable_aslr() else []
    return run.start("c02", variant=variant, mode=f"{n}", env=env, wrap=wrap, **kw)


def orchestrate(run):
    from lib.runner import Inconclusive

    so = shim(run)
    run.tree("tsan")
    usual = ["repeated", "different_seeds", "concurrent", "large"]
    plain = [start(run, so, n, c, only=usual) for n, c in enumerate(CONFIGS)]
    tsan = [start(run, so, 100 + n, c, variant="tsan", scale=0.3, only=only)
            for n, (c, only) in enumerate([((4, None, 50), usual), ((8, 3, 0), ["concurrent", "large"]), ((8, None, 20), ["shortage"])])]
    run.wait(plain + tsan)
    compare(run, plain)


def compare(run, jobs):
    first = jobs[0].get("result", {}).get("trace", {})
    for w in jobs[1:]:
        t = w.get("result", {}).get("trace", {})
        for k in sorted(set(first) & set(t)):
            run.counters["scores compared across configurations"] = run.counters.get("scores compared across configurations", 0) + 1
            if first[k] != t[k]:
                run.violation("scores depend on the number of processors or the schedule", k, workload=k.split("[")[0],
                              where=k, configurations=[CONFIGS[int(jobs[0]["job"]["mode"])], CONFIGS[int(w["job"]["mode"])]])


def replay(run, rep):
    so = shim(run)
    case = rep["details"].get("where")
    if case:
        name, i = case.split("]")[0].split("[")
        jobs = [start(run, so, n, c, replay=[[name, int(i)]]) for n, c in enumerate(CONFIGS)]
        run.wait(jobs)
        return compare(run, jobs)
    n = int(rep["mode"] or 0)
    cfg = CONFIGS[n] if n < 100 else [(4, None, 50), (8, 3, 0), (8, None, 20)][n - 100]
    run.wait([start(run, so, n, cfg, variant=rep["variant"] or "plain", replay=[[rep["workload"], rep["case"]]])])
