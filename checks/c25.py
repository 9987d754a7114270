"""C25: a call that is cut short leaves the library usable.

Calls are ended early in three ways.  A profiler hook raises KeyboardInterrupt or
MemoryError at a chosen function entry, call or return inside the library's Python
code.  A preloaded shim fails chosen allocations and thread creations of the compiled
extensions and of numpy's core below them, or delivers a real SIGINT in the middle of
native code.  The monitor then looks at how the call ended, at the process-wide state,
the inputs, the object's claims about itself, and repeats the call.
"""
import ctypes
import dataclasses
import importlib.util
import os
import subprocess
import sys
import threading

import numpy as np
import pandas as pd

from lib import gen, mon as _mon
from lib.mon import workload

_keep = dict(_mon.WORKLOADS)
from checks import c20  # noqa: E402  the calls to make, and the snapshot of the process

_mon.WORKLOADS.clear()
_mon.WORKLOADS.update(_keep)
canon, copied = c20.canon, c20.copied

RULE = """A case is one estimator with generated arguments whose call is cut short at several chosen points; distinct
by estimator, operation and point. Non-trivial when the interruption, failed allocation or failed thread creation was
really delivered and the call was repeated afterwards."""
ASSUMPTIONS = ["interruptions are delivered where the interpreter delivers them: at function entries and around calls",
               "a process-wide setting counts as changed when it stays changed after interruptions at three or more points of a "
               "call, because no Python code can protect the few instructions of its own cleanup",
               "allocations of a few hundred bytes and less are made to fail in the extensions only"]
MIN_DISTINCT = 150
MIN_OBSERVED = {"interruptions delivered": 250, "allocations failed": 100, "thread creations failed": 20,
                "signals inside native code": 20, "calls repeated after a call cut short": 500}


def setup(mon):
    global SPECS, FAULT, ROOT
    c20.setup(mon)
    SPECS = dict(c20.SPECS)
    SPECS["stocks"] = s_stocks
    ROOT = os.path.join(os.path.realpath(os.environ["FRDS_TREE"]), "src", "frds") + os.sep
    FAULT = None
    if os.environ.get("C25_FAULT"):
        FAULT = ctypes.CDLL(os.environ["C25_FAULT"])
        FAULT.fault_arm.argtypes = [ctypes.c_int] + [ctypes.c_long] * 3 + [ctypes.c_int]
    # the library itself may be loaded through another spelling of the path
    import frds

    ROOT = (ROOT, os.path.join(list(frds.__path__)[0], ""))


def s_stocks(rng):
    """The shipped returns, read by a provider that has not read them yet."""
    def build():
        import frds.datasets as d

        path = os.path.join(os.path.dirname(d.__file__), "_stocks.py")
        spec = importlib.util.spec_from_file_location("frds_fresh_stocks", path)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        return m.StockReturns

    return [], build, {"read": lambda o: o.stocks_us, "again": lambda o: o.stocks_us}


# -- interruptions in Python code ---------------------------------------------------------
class Cut:
    """sys.setprofile hook: counts the library's events; raises at event `at`."""

    def __init__(self, at=None, exc=None):
        self.at, self.exc, self.n, self.log, self.where = at, exc, 0, [], None

    def inside(self, frame, event):
        if frame.f_code.co_filename.startswith(ROOT):
            return True
        # the entry of a function the library calls; a context manager's own code is not the library's business
        return (event == "call" and frame.f_back is not None and frame.f_back.f_code.co_filename.startswith(ROOT)
                and frame.f_code.co_name not in ("__enter__", "__exit__", "__del__"))

    def __call__(self, frame, event, arg):
        if event not in ("call", "c_call", "c_return") or not self.inside(frame, event):
            return
        self.n += 1
        if self.at is None:
            self.log.append((frame.f_code.co_name, frame.f_lineno, getattr(frame.f_back, "f_lineno", 0), event))
        elif self.n == self.at:
            self.where = f"{frame.f_code.co_name}:{event}"
            sys.setprofile(None)
            raise self.exc("delivered by the check")

    def run(self, f, o):
        """('ok', result) | ('raised', exception)"""
        sys.setprofile(self)
        try:
            r = f(o)
        except (KeyboardInterrupt, Exception) as e:
            return "raised", e.with_traceback(None)
        finally:
            sys.setprofile(None)
        return "ok", r


def points(log, rng, k):
    """Event numbers: for as many code locations as possible one of the first or last times it is reached."""
    at = {}
    for n, key in enumerate(log, 1):
        at.setdefault(key, []).append(n)
    out = set()
    for ns in at.values():
        out.add(ns[int(rng.integers(len(ns)))] if rng.random() < 0.4 else ns[0] if rng.random() < 0.4 else ns[-1])
    out = sorted(out)
    if len(out) > k:
        late = out[-max(3, k // 3):]  # the end of a call is where results are stored
        rest = [out[int(j)] for j in rng.choice(len(out) - len(late), k - len(late), replace=False)]
        out = sorted(set(late + rest))
    return out


def fields(p):
    return {f.name: getattr(p, f.name) for f in dataclasses.fields(p)} if dataclasses.is_dataclass(p) else {}


def missing(v):
    return isinstance(v, (float, np.floating)) and np.isnan(v)


def claims(mon, o, done, name, op, where):
    """An estimator that says it succeeded has everything a completed one has."""
    for part in [o] + [getattr(o, k, None) for k in ("model1", "model2", "firm_model", "mkt_model", "dcc_model")]:
        if getattr(part, "estimation_success", False) is not True:
            continue
        mon.count("claims of success looked at after an interruption")
        want = fields(getattr(done, "parameters", None)) if part is o else {}
        for k, v in fields(getattr(part, "parameters", None)).items():
            ok = not missing(v) or missing(want.get(k, 0.0))
            mon.check(ok, "an interrupted estimation claims success without its results", estimator=name, call=op, field=k, where=where)


def same(mon, got, want, kind, **kw):
    mon.count("calls repeated after a call cut short")
    mon.check(got == want, kind, **kw)


HEAVY = {"ccc", "srisk_many", "srisk", "lrmes", "pin_fit", "merton_table", "merton", "dcc", "dcc_models"}
POINTS = {True: 10, False: 16}


@workload(quick=44, thorough=700)
def interrupted(mon, rng, i):
    order = sorted(SPECS) + [n for n in ("garch", "gjr", "dcc", "dcc_models", "garch_zero_mean") if n in SPECS]
    name = order[i % len(order)]
    args, build, ops = SPECS[name](rng)
    mon.describe(estimator=name, inputs=args)
    names = list(ops)
    chosen = names if len(names) <= 2 else [names[int(k)] for k in rng.choice(len(names), 2, replace=False)]
    if name in HEAVY:
        chosen = [chosen[(i // len(order)) % len(chosen)] if i % 2 else chosen[0]]
    budget = POINTS[name in HEAVY] * (3 if mon.thorough else 1)
    for op in chosen:
        f = ops[op]
        done = build(*copied(args))
        base = canon(f(done))
        dry = Cut()
        how, r = dry.run(f, build(*copied(args)))
        mon.require(how == "ok" and canon(r) == base, "a watched call gives another result", estimator=name, call=op, got=repr(r)[:300])
        changed = {}
        for k in points(dry.log, rng, budget // len(chosen) + 2):
            exc = KeyboardInterrupt if rng.random() < 0.65 else MemoryError
            a = copied(args)
            o = build(*a)
            before, inputs = c20.world(), gen.snapshot(*a)
            cut = Cut(k, exc)
            how, r = cut.run(f, o)
            after = c20.world()
            if cut.where is None:
                mon.count("points not reached again")
                continue
            mon.count("interruptions delivered")
            where = f"{op} at {cut.where} ({exc.__name__})"
            mon.seen(name, op, cut.where, exc.__name__)
            if exc is KeyboardInterrupt:
                mon.check(how == "raised" and isinstance(r, KeyboardInterrupt), "an interrupt was swallowed", estimator=name, where=where, got=repr(r)[:300])
            elif how == "ok":
                mon.check(canon(r) == base, "a call that ran out of memory gave another result", estimator=name, where=where)
            del r
            for key in before:
                if before[key] != after[key]:
                    changed.setdefault(key, []).append(where)
            if before["warning filters"] != after["warning filters"]:
                import warnings

                warnings.resetwarnings()
            mon.check(gen.snapshot(*a) == inputs, "inputs modified by a call cut short", estimator=name, where=where)
            claims(mon, o, done, name, op, where)
            again = [op] if len(names) == 1 or rng.random() < 0.6 else [names[int(rng.integers(len(names)))], op]
            for p in again:
                want = base if p == op else canon(ops[p](build(*copied(args))))
                same(mon, canon(ops[p](o)), want, "repeating a call on the object of a call cut short gives another result",
                     estimator=name, call=p, where=where)
            if rng.random() < 0.3:
                same(mon, canon(f(build(*copied(args)))), base, "a new object gives another result after a call cut short",
                     estimator=name, call=op, where=where)
        for key, at in changed.items():
            mon.check(len(at) < 3, f"global state left changed by calls cut short: {key}", estimator=name, call=op, where=at[:6])


# -- failures below: memory, threads, signals ------------------------------------------------
def native_calls(rng, which, size=None):
    """(inputs, function of them) that spend their time in an extension."""
    A, M = c20.A, c20.M
    T = size or int(rng.integers(150, 900))
    if which == "variance":
        x = gen.returns_pct(rng, T)[0]
        return [x, A.GARCHModel.variance_bounds(x)], lambda a: A.GARCHModel.compute_variance([0.1, 0.1, 0.8], a[0], 1.0, a[1])
    if which == "variance strided":
        x = np.repeat(gen.returns_pct(rng, T)[0], 2)[::2]
        vb = np.asfortranarray(A.GARCHModel.variance_bounds(x))
        return [x, vb], lambda a: A.GJRGARCHModel.compute_variance(np.array([0.1, 0.05, 0.1, 0.8]), a[0][::1], 1.0, np.asfortranarray(a[1]))
    if which == "ewma":
        return [gen.returns_pct(rng, T)[0].astype(np.float32)], lambda a: A.GARCHModel.ewma(a[0], 1.0, 0.9)
    if which == "correlation":
        x, y, _, _ = gen.pair_pct(rng, T, rho=0.4)
        m = A.GARCHModel_DCC(x, y)
        for k in (m.model1, m.model2):  # as a fit leaves them
            k.resids, k.sigma2, k.estimation_success = k.returns - k.returns.mean(), np.full(T, k.returns.var()), True
        return [x], lambda a: m.conditional_correlations(0.05, 0.9)
    if which == "lrmes":
        x, y = c20.raw_pair(rng)
        m = M.LongRunMarginalExpectedShortfall(x, y)
        h, S = size or int(rng.integers(1, 30)), int(rng.integers(3, 12))
        c20.or_error(lambda a: m.estimate(h=h, S=S, C=0.5))(None)
        return [x, y], lambda a: c20.or_error(lambda _: m.estimate(h=h, S=S, C=0.5))(None)
    n = size or int(rng.integers(3, 120))
    df = pd.DataFrame({"a": rng.standard_normal(n), "b": rng.integers(0, 9, n), "s": rng.choice(list("abc"), n).astype(object)})
    forest, tree = int(rng.integers(1, 60)), int(rng.choice([2, 5, 16, 256]))
    return [df], lambda a: c20.anomaly_scores(a[0], forest_size=forest, tree_size=tree)


KINDS = ["forest", "variance", "variance strided", "ewma", "correlation", "lrmes"]


def gate(frame, event, arg):
    """The faults apply while one of the library's extensions runs, not in numpy's or pandas' own code."""
    if event[:2] == "c_":
        if str(getattr(getattr(arg, "__self__", None), "__file__", "")).startswith(ROOT):
            FAULT.fault_gate(event == "c_call")


def faulted(mon, f, args, kind, first, last, least=0, action=0):
    """One call with the shim armed: (how, value, points seen, faults delivered)."""
    out = (ctypes.c_long * 2)()
    FAULT.fault_arm(kind, first, last, least, action)
    sys.setprofile(gate)
    try:
        r = f(args)
        how = "ok"
    except (KeyboardInterrupt, Exception) as e:
        r, how = e.with_traceback(None), "raised"
    finally:
        sys.setprofile(None)
        FAULT.fault_take(out)
    # an interrupt still pending arrives here
    if action == 1 and how == "ok":
        try:
            for _ in range(10):
                len("")
        except KeyboardInterrupt as e:
            r, how = e.with_traceback(None), "raised"
    return how, r, out[0], out[1]


def refcounts(args):
    return [sys.getrefcount(a) for a in args]


def failing(mon, rng, i, which, kind, label, least=0, action=0, accept=(MemoryError, RuntimeError, OSError)):
    args, f = native_calls(rng, which)
    mon.describe(call=which, inputs=args, fault=label)
    base = canon(f(args))
    how, r, total, _ = faulted(mon, f, args, kind, 1 << 60, 1 << 60, least)
    mon.require(how == "ok" and canon(r) == base, "a watched call gives another result", call=which, got=repr(r)[:300])
    if total == 0:
        mon.count(f"calls without {label}")
        mon.skip()
    cap = 60 if mon.thorough else 14
    at = list(range(1, total + 1))
    if total > cap:
        at = sorted(set([1, 2, total - 1, total] + [int(k) for k in rng.integers(1, total + 1, cap)]))
    threads = threading.active_count()
    for k in at:
        last = k if rng.random() < 0.6 else 1 << 60  # once, or from then on
        if action == 1:
            last = k
        inputs = gen.snapshot(*args)
        refs = refcounts(args)
        fds = len(os.listdir("/proc/self/task"))
        how, r, seen, hits = faulted(mon, f, args, kind, k, last, least, action)
        where = f"{label} {k} of {total}" + ("" if last == k else " and later ones")
        if hits == 0:
            mon.count("points not reached again")
            continue
        mon.count(label, hits)
        mon.seen(which, label, k, last == k, total)
        if how == "ok":
            mon.check(canon(r) == base, "a call that met a failure gave another result", call=which, where=where)
        elif action == 1:
            mon.check(isinstance(r, KeyboardInterrupt), "an interrupted native call ended with another exception", call=which, where=where, got=repr(r))
        else:
            mon.check(isinstance(r, accept), "a call that met a failure ended with another exception", call=which, where=where, got=repr(r))
            mon.count("exceptions raised for failures")
        del r
        mon.check(gen.snapshot(*args) == inputs, "inputs modified by a call that met a failure", call=which, where=where)
        mon.check(refcounts(args) == refs, "a call that met a failure kept references to its inputs", call=which, where=where)
        mon.check(threading.active_count() == threads and len(os.listdir("/proc/self/task")) <= fds, "threads left by a call that met a failure", call=which, where=where)
        same(mon, canon(f(args)), base, "a call gives another result after a call that met a failure", call=which, where=where)


@workload(quick=36, thorough=500)
def memory(mon, rng, i):
    failing(mon, rng, i, KINDS[i % 6], 1, "allocations failed")


def plain_call(rng, which, size):
    """As native_calls, cheap to make in any size."""
    A = c20.A
    x, y = rng.standard_normal(size) + 0.01, rng.standard_normal(size)
    vb = np.column_stack([np.full(size, 1e-6), np.full(size, 1e6)])
    if which == "variance":
        return [x, vb], lambda a: A.GARCHModel.compute_variance([0.1, 0.1, 0.8], a[0], 1.0, a[1])
    if which == "variance strided":
        return [np.repeat(x, 2)[::2], np.asfortranarray(vb)], lambda a: A.GJRGARCHModel.compute_variance([0.1, 0.05, 0.1, 0.8], a[0], 1.0, a[1])
    if which == "ewma":
        return [x.astype(np.float32)], lambda a: A.GARCHModel.ewma(a[0], 1.0, 0.9)
    if which == "correlation":
        m = A.GARCHModel_DCC(x, y)
        for k in (m.model1, m.model2):  # as a fit leaves them
            k.resids, k.sigma2, k.estimation_success = k.returns, np.ones(size), True
        return [x, y], lambda a: m.conditional_correlations(0.05, 0.9)
    if which == "lrmes":
        return lrmes_simulation(rng, size)
    df = pd.DataFrame({"a": x, "s": rng.choice(list("abc"), size).astype(object)})
    return [df], lambda a: c20.anomaly_scores(a[0], forest_size=5, tree_size=256)


@workload(quick=6, thorough=6)
def first_calls(mon, rng, i):
    """The call that fails is the largest so far in the process, so that it cannot live on what an earlier one left."""
    which = KINDS[i % 6]
    size = {"lrmes": 4, "forest": 20}.get(which, 300)
    for k in [int(x) for x in 1 + rng.permutation(9)]:
        size = int(size * 2.1) + int(rng.integers(1, 4))
        args, f = plain_call(rng, which, size)
        mon.describe(call=which, inputs=args, fault="allocations failed", at=k)
        last = k if rng.random() < 0.5 else 1 << 60
        inputs = gen.snapshot(*args)
        how, r, seen, hits = faulted(mon, f, args, 1, k, last)
        if hits == 0:
            mon.count("points not reached again")
        mon.count("allocations failed", hits)
        mon.seen("first", which, k, last == k, size)
        if how == "raised":
            mon.check(isinstance(r, (MemoryError, RuntimeError, OSError)), "a call that met a failure ended with another exception", call=which, at=k, got=repr(r))
        first = canon(r) if how == "ok" else None
        del r
        mon.check(gen.snapshot(*args) == inputs, "inputs modified by a call that met a failure", call=which, at=k)
        again = canon(f(args))
        mon.check(first is None or first == again, "a call that met a failure gave another result", call=which, at=k)
        # a larger call in between, then the same again
        more, g = plain_call(rng, which, size + 50)
        g(more)
        same(mon, canon(f(args)), again, "a call gives another result after a call that met a failure", call=which, at=k)


def lrmes_simulation(rng, h):
    """An LRMES forecast whose model is estimated beforehand: the model is kept, the horizon varies."""
    global LRMES
    if "LRMES" not in globals():
        x, y = c20.raw_pair(np.random.default_rng(4))
        LRMES = c20.M.LongRunMarginalExpectedShortfall(x, y)
        c20.or_error(lambda a: LRMES.estimate(h=1, S=2, C=0.5))(None)
    seed = int(rng.integers(1, 1000))
    return [], lambda a: c20.or_error(lambda _: LRMES.estimate(h=h, S=4, C=0.5, random_seed=seed))(None)


@workload(quick=24, thorough=400)
def arrays(mon, rng, i):
    failing(mon, rng, i, KINDS[i % 6], 2, "allocations failed", least=1024)


@workload(quick=12, thorough=200)
def threads(mon, rng, i):
    failing(mon, rng, i, "forest", 3, "thread creations failed")


@workload(quick=18, thorough=200)
def signals(mon, rng, i):
    failing(mon, rng, i, ["forest", "correlation", "lrmes"][i % 3], 1, "signals inside native code", action=1)


def orchestrate(run):
    so = os.path.join(run.scratch, "fault.so")
    src = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "native", "fault.cpp")
    subprocess.run(["g++", "-O1", "-fno-builtin", "-fPIC", "-shared", "-pthread", "-o", so, src, "-ldl"], check=True)
    native = ["memory", "arrays", "threads", "signals"]
    jobs = [run.start("c25", shard=k, shards=5, only=["interrupted"]) for k in range(5)]
    jobs += [run.start("c25", shard=k, shards=3, only=native, env=dict(LD_PRELOAD=so, C25_FAULT=so)) for k in range(3)]
    jobs += [run.start("c25", shard=k, shards=6, only=["first_calls"], env=dict(LD_PRELOAD=so, C25_FAULT=so)) for k in range(6)]
    run.wait(jobs)


def replay(run, rep):
    so = os.path.join(run.scratch, "fault.so")
    src = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "native", "fault.cpp")
    subprocess.run(["g++", "-O1", "-fno-builtin", "-fPIC", "-shared", "-pthread", "-o", so, src, "-ldl"], check=True)
    env = {} if rep["workload"] == "interrupted" else dict(LD_PRELOAD=so, C25_FAULT=so)
    run.wait([run.start("c25", variant=rep["variant"] or "plain", env=env, replay=[[rep["workload"], rep["case"]]])])
