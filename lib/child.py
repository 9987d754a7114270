"""A process of its own for C28: child.py JOB.json.

imports: imports some of the library's modules in an order and manner of choice and
says what that changed.  results: makes given calls and hashes their results.
call: unpickles an object, calls it and pickles what it returned.
"""
import json
import os
import sys

with open(sys.argv[1]) as f:
    job = json.load(f)


def tell(r):
    with open(job["out"] + ".tmp", "w") as f:
        json.dump(r, f)
    os.replace(job["out"] + ".tmp", job["out"])


def load(name):
    import importlib

    return importlib.import_module(name)


def imports():
    for m in job["before"]:  # what the library imports from others is not its doing
        load(m)
    sys.path.insert(0, job["verif"])
    import threading
    import warnings

    from checks import c20

    job["errors"] = errors = []
    if job["strict"]:
        warnings.simplefilter("error")
    before = c20.world()
    if job["threads"]:
        barrier = threading.Barrier(len(job["modules"]))

        def go(m):
            try:
                barrier.wait()
                load(m)
            except BaseException as e:
                errors.append(f"{m}: {e!r}")

        sys.setswitchinterval(1e-6)
        ts = [threading.Thread(target=go, args=(m,)) for m in job["modules"]]
        [t.start() for t in ts]
        [t.join() for t in ts]
        sys.setswitchinterval(0.005)
    else:
        for m in job["modules"]:
            try:
                load(m)
            except BaseException as e:
                errors.append(f"{m}: {e!r}")
    after = c20.world()
    before.pop("switch"), after.pop("switch")
    changed = [k for k in before if before[k] != after[k]]
    warnings.simplefilter("ignore")
    if not errors:
        c20.load()  # everything is there, whatever came first
    tell(dict(errors=errors, changed=changed, details={k: [str(before[k])[-200:], str(after[k])[-200:]] for k in changed}))


def results():
    for m in job["first"]:
        load(m)
    sys.path.insert(0, job["verif"])
    import hashlib

    import numpy as np
    from checks import c20

    c20.load()
    load("frds.datasets")
    if job["move"]:  # where the process is when it imports the library is not where it stays
        d = os.path.join(os.path.dirname(job["out"]), "else", "where")
        os.makedirs(d)
        os.chdir(d)
    out = {}
    for name, seed in job["calls"]:
        args, build, ops = c20.SPECS[name](np.random.default_rng(seed))
        o = build(*args)
        for op, f in ops.items():
            try:
                r = repr(c20.canon(f(o)))
            except Exception as e:
                r = f"raised {e!r}"
            out[f"{name} {op}"] = [hashlib.sha1(r.encode()).hexdigest(), r[:200]]
    out["left"] = os.listdir(".")
    tell(out)


def call():
    import pickle

    with open(job["pickle"], "rb") as f:
        f, a, k = pickle.load(f)
    r = f(*a, **k)
    owner = getattr(f, "__self__", None)
    with open(job["pickle"] + ".out", "wb") as g:
        pickle.dump((r, owner), g, protocol=job["protocol"])
    tell(dict(done=True))


{"imports": imports, "results": results, "call": call}[job["what"]]()
