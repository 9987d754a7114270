"""In-process side of a check: cases, oracles, counters.

A check module defines workloads:

    @workload(quick=200, thorough=4000)
    def recursion(mon, rng, i): ...

Case (workload, i) draws everything from `rng`, which depends on VERIF_SEED, the
property, the workload's name and i only, so that any case can be run again alone.
Inside a case, `mon.check(...)` is the oracle: a false condition is a violation,
and so is an exception the code under test raises where the case does not expect
one (an oracle that cannot apply to a case says so with `mon.skip`).
"""
import faulthandler
import hashlib
import importlib
import json
import math
import os
import sys
import time
import traceback
import zlib

import numpy as np

WORKLOADS = {}


def workload(quick, thorough=None, name=None):
    def deco(f):
        WORKLOADS[name or f.__name__] = (
            f,
            quick,
            thorough if thorough is not None else quick * 10,
        )
        return f

    return deco


class Skip(Exception):
    pass


class Failed(Exception):
    """A check failed; the rest of the case is not meaningful."""


class CheckBroken(Exception):
    """The harness itself misbehaved: never a verdict about the code."""


def jsonable(x, depth=0):
    if depth > 6:
        return str(type(x))
    if isinstance(x, (str, bool, type(None))):
        return x
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x) if math.isfinite(x) else repr(float(x))
    if isinstance(x, np.ndarray):
        if x.size > 60:
            return {
                "shape": list(x.shape),
                "dtype": str(x.dtype),
                "sha": hashlib.sha1(np.ascontiguousarray(x).tobytes()).hexdigest()[:12]
                if x.dtype != object
                else "",
                "head": jsonable(x.ravel()[:6].tolist(), depth + 1),
            }
        return {"dtype": str(x.dtype), "data": jsonable(x.tolist(), depth + 1)}
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        x = list(x)
        return [jsonable(v, depth + 1) for v in x[:60]]
    return repr(x)[:300]


class Mon:
    MAX_PER_KIND = 3

    def __init__(self, prop, seed, tier, variant="plain", mode=""):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.variant, self.mode = variant, mode
        self.cases = 0
        self.skipped = 0
        self.checks = 0
        self.counters = {}
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.kinds = {}
        self.per_workload = {}
        self.current = None
        self.info = {}
        self.trace = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    # -- what a case says ---------------------------------------------------
    def describe(self, **kw):
        """Record what this case is (kept small; shown in samples and replays)."""
        self.info.update({k: jsonable(v) for k, v in kw.items()})

    def count(self, key, n=1):
        self.counters[key] = self.counters.get(key, 0) + n

    def seen(self, *key):
        """This case was distinct and non-trivial; `key` says which one it was."""
        h = hashlib.sha1(
            repr((self.current and self.current[0],) + tuple(jsonable(k) for k in key)).encode()
        ).hexdigest()[:16]
        self.distinct.add(h)

    def skip(self, why=""):
        self.count("skipped: " + (why or "not applicable"))
        raise Skip(why)

    def record(self, what, value):
        """Note what this case produced, to be compared across workers."""
        if isinstance(value, np.ndarray):
            value = (str(value.dtype), value.shape, value.tobytes())
        h = hashlib.sha1(repr(value).encode()).hexdigest()[:16]
        w, i = self.current
        self.trace[f"{w}[{i}] {what}"] = h

    def violation(self, kind, message, **details):
        n = self.kinds.get(kind, 0)
        self.kinds[kind] = n + 1
        if n >= self.MAX_PER_KIND:
            return
        w, i = self.current if self.current else ("?", 0)
        self.violations.append(
            dict(
                property=self.prop,
                kind=kind,
                message=message,
                workload=w,
                case=i,
                seed=self.seed,
                tier=self.tier,
                variant=self.variant,
                mode=self.mode,
                input=dict(self.info),
                details={k: jsonable(v) for k, v in details.items()},
            )
        )

    def check(self, cond, kind, message="", **details):
        """Oracle: cond must hold."""
        self.checks += 1
        try:
            ok = bool(np.all(cond))
        except Exception:
            ok = False
        if not ok:
            self.violation(kind, message or kind, **details)
        return ok

    def require(self, cond, kind, message="", **details):
        if not self.check(cond, kind, message, **details):
            raise Failed(kind)

    def close(self, got, want, kind, rtol=1e-9, atol=1e-12, message="", **details):
        """Oracle: got equals want up to rounding (NaN equals NaN, inf equals inf)."""
        self.checks += 1
        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
            ok = g.shape == w.shape
            if ok:
                with np.errstate(all="ignore"):
                    ok = bool(
                        np.all(
                            (np.isnan(g) & np.isnan(w))
                            | (g == w)
                            | (np.abs(g - w) <= atol + rtol * np.abs(w))
                        )
                    )
        except (TypeError, ValueError):
            ok = False
            g, w = got, want
        if not ok:
            worst = {}
            try:
                if np.ndim(g) and np.shape(g) == np.shape(w) and np.size(g):
                    with np.errstate(all="ignore"):
                        d = np.abs(g - w)
                        d = np.where(np.isnan(d), np.inf, d)
                    j = np.unravel_index(int(np.argmax(d)), d.shape)
                    worst = dict(at=[int(k) for k in j], got_there=float(g[j]), want_there=float(w[j]))
            except Exception:
                pass
            self.violation(
                kind, message or kind, **{**dict(got=got, want=want, rtol=rtol, atol=atol), **worst, **details}
            )
        return ok

    def refused(self, fn, kind, message=""):
        """Oracle: fn() raises an ordinary exception."""
        self.checks += 1
        try:
            r = fn()
        except Exception as e:
            self.count("refused with " + type(e).__name__)
            return True
        self.violation(kind, message or kind, returned=r)
        return False

    # -- running ------------------------------------------------------------
    def rng(self, name, i):
        return np.random.default_rng(
            [self.seed & 0xFFFFFFFF, zlib.crc32(self.prop.encode()), zlib.crc32(name.encode()), i]
        )

    def run_case(self, name, i, progress=None):
        f = WORKLOADS[name][0]
        self.current = (name, i)
        self.info = {}
        if progress:
            progress(name, i)
        try:
            f(self, self.rng(name, i), i)
        except Skip:
            self.skipped += 1
        except Failed:
            pass
        except CheckBroken:
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f"{os.path.basename(x.filename)}:{x.name}" for x in tb]
            inside = any("/frds/" in x.filename for x in tb)
            if isinstance(e, (OSError, MemoryError)) and not inside:
                raise CheckBroken(
                    f"{name}[{i}]: {e!r}\n" + "".join(traceback.format_exception(e))
                )
            if not inside:
                # the oracle tripped over what the code under test returned
                self.violation(
                    "result could not be interpreted",
                    f"{type(e).__name__}: {e}",
                    where=where[-6:],
                )
                self.cases += 1
                self.per_workload[name] = self.per_workload.get(name, 0) + 1
                self.current = None
                return
            self.violation(
                f"exception {type(e).__name__} on valid input",
                f"{type(e).__name__}: {e}",
                where=where[-6:],
            )
        self.cases += 1
        self.per_workload[name] = self.per_workload.get(name, 0) + 1
        if len(self.samples) < 4 or (len(self.samples) < 12 and self.per_workload[name] == 1):
            if self.info:
                self.samples.append(dict(workload=name, case=i, **self.info))
        self.current = None

    def result(self):
        return dict(
            cases=self.cases,
            skipped=self.skipped,
            checks=self.checks,
            counters=self.counters,
            distinct=sorted(self.distinct),
            samples=self.samples,
            violations=self.violations,
            kinds=self.kinds,
            per_workload=self.per_workload,
            trace=self.trace,
        )


def case_list(tier, only=None, scale=1.0):
    """All cases of the loaded module, the workloads interleaved."""
    counts = {}
    for name, (f, q, t) in WORKLOADS.items():
        if only and name not in only:
            continue
        n = t if tier == "thorough" else q
        counts[name] = max(1, int(math.ceil(n * scale)))
    out = []
    total = max(counts.values(), default=0)
    keyed = []
    for w, n in counts.items():
        for i in range(n):
            keyed.append(((i + 0.5) / n, w, i))
    keyed.sort()
    return [(w, i) for _, w, i in keyed]


def main():
    """Worker process: run one shard of a check and write its result as JSON."""
    job = json.load(open(sys.argv[1]))
    faulthandler.enable()
    sys.path.insert(0, job["verif"])
    import frds

    src = os.path.realpath(os.path.join(job["tree"], "src", "frds"))
    got = [os.path.realpath(p) for p in frds.__path__]
    if got != [src]:
        raise SystemExit(f"frds imported from {got}, not {src}")
    mod = importlib.import_module("checks." + job["module"])
    mon = Mon(job["property"], job["seed"], job["tier"], job["variant"], job.get("mode", ""))
    if job.get("replay"):
        cases = [tuple(c) for c in job["replay"]]
    else:
        cases = case_list(job["tier"], job.get("only"), job.get("scale", 1.0))
        cases = cases[job["shard"] :: job["shards"]]
        if job.get("mode") == "reverse":
            cases.reverse()
    if hasattr(mod, "setup"):
        try:
            mod.setup(mon)
        except Exception as e:
            # part of the library cannot be imported or prepared
            tb = traceback.extract_tb(e.__traceback__)
            missing = isinstance(e, ImportError) and "frds" in str(e)
            if not missing and not any("/frds/" in x.filename for x in tb):
                raise
            mon.current = ("setup", 0)
            mon.violation("the library cannot be used", "".join(traceback.format_exception_only(e)).strip(),
                          where=[f"{os.path.basename(x.filename)}:{x.name}" for x in tb][-6:])
            cases = []
    prog = open(job["progress"], "w")

    def progress(name, i):
        prog.seek(0)
        prog.write(json.dumps([name, i]) + "\n")
        prog.truncate()
        prog.flush()

    t0 = time.monotonic()
    done = 0
    for name, i in cases:
        if time.monotonic() - t0 > job["budget_s"]:
            break
        mon.run_case(name, i, progress)
        done += 1
    if hasattr(mod, "finish") and cases:
        mon.current = ("finish", 0)
        mod.finish(mon)
    r = mon.result()
    r["planned"] = len(cases)
    r["done"] = done
    r["wall_s"] = time.monotonic() - t0
    tmp = job["out"] + ".tmp"
    with open(tmp, "w") as f:
        json.dump(r, f)
    os.replace(tmp, job["out"])


if __name__ == "__main__":
    # run as a module under its real name, so that checks share WORKLOADS
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from lib import mon as _m

    _m.main()
