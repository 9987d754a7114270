"""C28: the library behaves the same in every process.

Fresh interpreters import the library's modules in random orders, alone, at once from
several threads, with -O, -OO, -W error, -X dev, -B, other hash seeds, locales, folders
and closed streams, and say what that changed.  Calls made here are made again in such
interpreters, in forked children and, pickled, in workers that never saw the library;
the results must be the same bit for bit.  Copies are the same and independent.
"""
import copy
import hashlib
import json
import os
import pickle
import pkgutil
import signal
import subprocess
import sys
import time

import numpy as np

from lib import gen, mon as _mon
from lib.mon import workload

_keep = dict(_mon.WORKLOADS)
from checks import c20  # noqa: E402  the calls to make, and the snapshot of the process

_mon.WORKLOADS.clear()
_mon.WORKLOADS.update(_keep)
canon, copied, spoil = c20.canon, c20.copied, c20.spoil

RULE = """A case is an order and manner of imports in a fresh interpreter, a set of calls repeated in another
interpreter or a forked child, an estimator sent to a worker process, or one that was copied; distinct by content.
Non-trivial when the other process answered, or the copy was used and then overwritten."""
ASSUMPTIONS = ["what numpy, scipy, pandas and matplotlib do when they are imported is not the library's doing",
               "other processes use the same number of BLAS threads and the same processor"]
SHARDS = 6
MIN_DISTINCT = 90
MIN_OBSERVED = {"interpreters started": 50, "modules imported": 100, "results compared across processes": 250,
                "calls in forked children": 40, "calls sent to workers": 20, "copies compared": 100}
OTHERS = ["numpy", "pandas", "scipy.optimize", "scipy.stats", "scipy.special", "scipy.interpolate", "scipy.fft", "matplotlib.pyplot",
          "mpl_toolkits.mplot3d", "zipfile", "concurrent.futures", "itertools", "importlib.resources", "threading", "logging"]


def setup(mon):
    global MODULES, SRC, VERIF, N
    c20.setup(mon)
    SRC = os.path.join(os.environ["FRDS_TREE"], "src")
    VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    import frds

    MODULES = ["frds"] + sorted(m.name for m in pkgutil.walk_packages(frds.__path__, "frds.") if not m.name.rpartition(".")[2].startswith("__"))
    N = 0


# -- other interpreters ----------------------------------------------------------------
def folder():
    global N
    N += 1
    d = os.path.join(os.environ.get("TMPDIR", "/tmp"), f"frds-c28-{os.getpid()}-{N}")
    os.mkdir(d)
    return d


def surroundings(rng):
    """Flags and environment of another interpreter."""
    flags = [str(f) for f in rng.permutation(["-O", "-OO", "-Xdev", "-B", "-s", "-E"])[: int(rng.integers(0, 3))]]
    flags = [f for f in flags if f != "-E"]  # would drop the path to the library
    env = dict(PYTHONHASHSEED=str(int(rng.integers(0, 1 << 32))))
    if rng.random() < 0.5:
        env["LC_ALL"] = str(rng.choice(["C", "POSIX", "C.UTF-8", "de_DE.UTF-8"]))
    if rng.random() < 0.4:
        env["TZ"] = str(rng.choice(["UTC", "Asia/Tokyo", "America/St_Johns"]))
    if rng.random() < 0.4:
        env["PYTHONUTF8"] = str(rng.choice(["0", "1"]))
    if rng.random() < 0.3:
        env["HOME"] = "/nonexistent"
    return flags, env


def start(mon, job, flags, env, cwd, streams="pipe"):
    """Run lib/child.py; (its answer or None, exit status, what it printed)."""
    d = folder()
    try:
        job = dict(job, out=os.path.join(d, "answer"), verif=VERIF)
        path = os.path.join(d, "job.json")
        with open(path, "w") as f:
            json.dump(job, f)
        e = dict(os.environ, **env)
        if e.get("HOME") == "/nonexistent":
            e["MPLCONFIGDIR"] = os.path.join(d, "mpl")
        cmd = [sys.executable] + flags + [os.path.join(VERIF, "lib", "child.py"), path]
        if streams == "closed":
            cmd = ["sh", "-c", 'exec "$@" <&- >&- 2>&-', "sh"] + cmd
        p = subprocess.Popen(cmd, env=e, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        try:
            said = p.communicate(timeout=240)[0].decode(errors="replace")
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            raise _mon.CheckBroken("an interpreter took more than 240 s")
        mon.count("interpreters started")
        ans = None
        if os.path.exists(job["out"]):
            with open(job["out"]) as f:
                ans = json.load(f)
        return ans, p.returncode, said
    finally:
        subprocess.run(["rm", "-rf", d])


@workload(quick=48, thorough=400)
def imports(mon, rng, i):
    """Any module first, in any order, from any folder: no error, no output, no trace."""
    k = int(rng.integers(1, 6))
    mods = [MODULES[i % len(MODULES)]] + [str(m) for m in rng.choice(MODULES, k)]
    mods = list(dict.fromkeys(mods))
    threads = i % 3 == 0
    if threads:
        # Python's own import locks refuse a package and a module that it imports being imported at the same moment
        mods = [str(m) for m in rng.choice(["frds.algorithms", "frds.measures", "frds.datasets"], int(rng.integers(2, 7)))]
    flags, env = surroundings(rng)
    strict = bool(rng.random() < 0.5) and not threads
    streams = "closed" if rng.random() < 0.2 else "pipe"
    cwd = folder()
    mon.describe(modules=mods, threads=threads, flags=flags, env=env, strict=strict, streams=streams)
    try:
        ans, rc, said = start(mon, dict(what="imports", before=OTHERS, modules=mods, threads=threads, strict=strict), flags, env, cwd, streams)
        left = os.listdir(cwd)
    finally:
        subprocess.run(["rm", "-rf", cwd])
    if "-Xdev" in flags:
        said = "\n".join(l for l in said.splitlines() if "frds" in l)  # other people's warnings
    mon.count("modules imported", len(mods))
    mon.require(ans is not None, "the interpreter fails", status=rc, said=said[-1500:])
    mon.check(rc == 0, "the interpreter ends with an error", status=rc, said=said[-1500:])
    mon.check(not ans["errors"], "a module cannot be imported", errors=ans["errors"], modules=mods)
    mon.check(not ans["changed"], "importing changes the process", changed=ans["changed"], details=ans["details"])
    mon.check(said.strip() == "", "importing prints", said=said[-800:])
    mon.check(not left, "importing leaves files", files=left)
    mon.seen(mods, threads, flags, strict)


DEAR = ("srisk_many", "srisk", "lrmes", "ccc", "pin_fit", "merton_table", "merton", "dip")


@workload(quick=12, thorough=120)
def interpreters(mon, rng, i):
    """The same calls here and in another interpreter."""
    names = sorted(c20.SPECS)
    names = [n for j, n in enumerate(names) if n not in DEAR or (j + i) % 4 == 0]
    names = [str(n) for n in rng.permutation(names)]
    calls = [(n, int(rng.integers(1 << 30))) for n in names]
    want = {}
    for n, seed in calls:
        args, build, ops = c20.SPECS[n](np.random.default_rng(seed))
        o = build(*args)
        for op, f in ops.items():
            want[f"{n} {op}"] = repr(canon(f(o)))
    flags, env = surroundings(rng)
    streams = "closed" if rng.random() < 0.3 else "pipe"
    first = [str(m) for m in rng.choice(MODULES, int(rng.integers(0, 3)))]
    cwd = folder()
    move = i % 2 == 0
    mon.describe(flags=flags, env=env, first=first, streams=streams, calls=names, move=move)
    again = [calls[int(j)] for j in rng.permutation(len(calls))]
    try:
        ans, rc, said = start(mon, dict(what="results", first=first, calls=again, move=move), flags, env, cwd, streams)
        left = os.listdir(cwd)
    finally:
        subprocess.run(["rm", "-rf", cwd])
    mon.require(ans is not None, "the interpreter fails", status=rc, said=said[-1500:])
    mon.check(rc == 0, "the interpreter ends with an error", status=rc, said=said[-1500:])
    left = left or ans["left"]
    mon.check(not left, "calls leave files", files=left)
    for k, r in want.items():
        mon.count("results compared across processes")
        h = hashlib.sha1(r.encode()).hexdigest()
        mon.check(ans.get(k, [""])[0] == h, "another interpreter gives another result", call=k, here=r[:200], there=ans.get(k))
    mon.seen(names, flags, sorted(env), streams)


# -- forked children ---------------------------------------------------------------------
def forked(mon, f):
    """f() in a forked child; its value, or None when the child died."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            data = pickle.dumps(f())
            with os.fdopen(w, "wb") as g:
                g.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    os.set_blocking(r, False)
    data, last, t0 = b"", None, time.monotonic()
    while True:
        try:
            part = os.read(r, 1 << 16)
            if not part:
                break
            data += part
        except BlockingIOError:
            time.sleep(0.01)
        try:
            with open(f"/proc/{pid}/stat") as g:
                st = g.read().rpartition(")")[2].split()
            ticks = int(st[11]) + int(st[12])
        except OSError:
            ticks = None
        if ticks != last:
            last, t0 = ticks, time.monotonic()
        if time.monotonic() - t0 > 40:  # no CPU time spent for that long: every thread waits
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            mon.violation("a forked child hangs", "a call in a forked child makes no progress")
            return None
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if status:
        mon.violation("a forked child dies", f"wait status {status}")
        return None
    return pickle.loads(data)


@workload(quick=48, thorough=400)
def forks(mon, rng, i):
    """A child forked after the library was used gets the results its parent gets."""
    names = sorted(c20.SPECS)
    name = names[i % len(names)]
    args, build, ops = c20.SPECS[name](rng)
    o = build(*args)
    mon.describe(estimator=name)
    used = bool(i // len(names) % 2) or rng.random() < 0.6
    want = {}
    if used:
        for op, f in ops.items():
            want[op] = canon(f(o))

    def child():
        out = {}
        for op, f in ops.items():
            try:
                out[op] = [canon(f(o)), canon(f(build(*copied(args))))]
            except Exception as e:
                out[op] = [repr(e)] * 2
        return out

    got = forked(mon, child)
    if not used:
        for op, f in ops.items():
            want[op] = canon(f(o))
    mon.require(got is not None, "no answer from a forked child", estimator=name)
    for op in ops:
        mon.count("calls in forked children", 2)
        mon.check(got[op][0] == want[op], "an object in a forked child gives another result", estimator=name, call=op)
        mon.check(got[op][1] == want[op], "a new object in a forked child gives another result", estimator=name, call=op)
    for op, f in ops.items():
        mon.check(canon(f(o)) == want[op], "the parent's object gives another result after a fork", estimator=name, call=op)
    mon.seen(name, want)


# -- workers -------------------------------------------------------------------------------
def tasks(rng):
    """(name, function or bound method, arguments, keywords)"""
    A, M = c20.A, c20.M
    x, y = c20.raw_pair(rng)
    p, q = x * 100, y * 100
    T = len(x)
    kw = dict(h=5, S=40, C=-0.01)
    B, S = rng.poisson(20, 12), rng.poisson(15, 12)
    fitted = A.GJRGARCHModel(p)
    fitted.fit()
    dcc = A.GJRGARCHModel_DCC(fitted, A.GJRGARCHModel(q))
    done = A.GARCHModel_DCC(p, q)
    done.fit()
    mes = M.LongRunMarginalExpectedShortfall(x, y)
    return [
        ("garch", A.GARCHModel(p).fit, (), {}), ("fitted gjr", fitted.fit, (), {}), ("gjr class method", A.GJRGARCHModel.compute_variance,
         (np.array([.1, .05, .1, .8]), p, 1.0, A.GARCHModel.variance_bounds(p)), {}),
        ("ccc", A.GARCHModel_CCC(p, q).fit, (), {}), ("dcc of models", dcc.fit, (), {}), ("fitted dcc", done.conditional_correlations, (0.05, 0.9), {}),
        ("lrmes", mes.estimate, (), kw), ("srisk", M.SRISK(x, y, W=10.0, D=90.0).estimate, (), {"lrmes_" + a: b for a, b in kw.items()}),
        ("pin", M.PIN(B, S).estimate, ("LK2011",), {}), ("cca", M.ContingentClaimAnalysis.estimate, (10.0, 0.4, 0.02, 20.0, 5.0, 100.0), {}),
        ("dip", M.DistressInsurancePremium(np.array([.1, .2]), np.array([[1, .3], [.3, 1]])).estimate, (),
         dict(n_simulated_returns=500, n_simulations=100)),
        ("kyle", M.kyle_lambda, (rng.standard_normal(50), rng.standard_normal(50)), {}), ("z", M.z_score, (0.02, 0.1, rng.standard_normal(30)), {}),
        ("bank", c20.mm["mod_merton_computation"], (np.linspace(-1, 1, 4).reshape(-1, 1), list(c20.PAR), 10, 100), dict(random_seed=5)),
    ]


@workload(quick=28, thorough=280)
def workers(mon, rng, i):
    """A call pickled, sent to a worker that has not imported the library, and its result sent back."""
    todo = tasks(rng)
    name, f, a, k = todo[i % len(todo)]
    proto = int(rng.integers(2, pickle.HIGHEST_PROTOCOL + 1))
    flags, env = surroundings(rng)
    mon.describe(task=name, protocol=proto, flags=flags, env=env)
    try:
        data = pickle.dumps((f, a, k), protocol=proto)
    except Exception as e:
        mon.violation("a call cannot be sent to a worker", f"{name}: {e!r}")
        return
    own = getattr(f, "__self__", None)
    d = folder()
    try:
        path = os.path.join(d, "task")
        with open(path, "wb") as g:
            g.write(data)
        ans, rc, said = start(mon, dict(what="call", pickle=path, protocol=proto), flags, env, d)
        mon.require(ans is not None and os.path.exists(path + ".out"), "a worker fails", task=name, status=rc, said=said[-1500:])
        with open(path + ".out", "rb") as g:
            there, owner = pickle.load(g)
    finally:
        subprocess.run(["rm", "-rf", d])
    mon.count("calls sent to workers")
    here = f(*a, **k)
    mon.check(canon(there) == canon(here), "a worker gives another result", task=name, here=here, there=there)
    if own is not None and not isinstance(own, type):
        mon.check(type(owner) is type(own), "the object sent back is of another type", task=name, got=type(owner).__name__)
        mon.check(getattr(owner, "estimation_success", None) == getattr(own, "estimation_success", None), "the object sent back lost its state", task=name)
        if hasattr(own, "parameters"):
            mon.check(canon(owner.parameters) == canon(own.parameters), "the object sent back lost its parameters", task=name)
        m = getattr(owner, f.__name__)
        mon.check(canon(m(*a, **k)) == canon(here), "the object sent back gives another result", task=name)
    mon.seen(name, here)


# -- copies ---------------------------------------------------------------------------------
def overwrite(o, seen=None):
    """Every array reachable from a copy is overwritten; how many there were."""
    seen = set() if seen is None else seen
    if id(o) in seen:
        return 0
    seen.add(id(o))
    if isinstance(o, np.ndarray):
        if o.flags.writeable and o.size and o.dtype.kind in "fiu":
            o[...] = 7
            return 1
        return 0
    if isinstance(o, (list, tuple)):
        return sum(overwrite(v, seen) for v in o)
    if isinstance(o, dict):
        return sum(overwrite(v, seen) for v in o.values())
    if type(o).__module__.startswith("frds"):
        return sum(overwrite(v, seen) for v in vars(o).values())
    return 0


@workload(quick=60, thorough=600)
def copies(mon, rng, i):
    """A copied or pickled estimator gives the original's results, and neither touches the other."""
    names = sorted(c20.SPECS)
    name = names[i % len(names)]
    args, build, ops = c20.SPECS[name](rng)
    want = {op: canon(f(build(*copied(args)))) for op, f in ops.items()}
    proto = int(rng.integers(2, pickle.HIGHEST_PROTOCOL + 1))
    how = {"pickle": lambda o: pickle.loads(pickle.dumps(o, protocol=proto)), "deepcopy": copy.deepcopy}
    mon.describe(estimator=name, protocol=proto)
    for kind, dup in how.items():
        o = build(*copied(args))
        stage = str(rng.choice(["new", "used"]))
        if stage == "used":
            for op, f in ops.items():
                f(o)
        try:
            p = dup(o)
        except Exception as e:
            mon.violation(f"{kind} fails", f"{name}: {e!r}")
            continue
        for op, f in ops.items():
            mon.count("copies compared")
            mon.check(canon(f(p)) == want[op], f"{kind}: the copy gives another result", estimator=name, call=op, stage=stage)
        try:
            r = ops[op](p)
            mon.check(canon(dup(r)) == canon(r), f"{kind}: a copied result differs", estimator=name, call=op)
        except (TypeError, AttributeError, pickle.PicklingError) as e:
            mon.violation(f"{kind} of a result fails", f"{name} {op}: {e!r}")
        mon.count("arrays of copies overwritten", overwrite(p))
        for op, f in ops.items():
            mon.check(canon(f(o)) == want[op], f"{kind}: what happens to the copy reaches the original", estimator=name, call=op, stage=stage)
    mon.seen(name, want)
