"""C09: the same call log in trees with, without and with half of the extensions."""
import json
import os
import pickle
import shutil

import numpy as np
from lib import gen
from lib.mon import workload

RULE = """One call log (variances, EWMA, bounds, backcast, correlation paths, GARCH, CCC, DCC
fits, LRMES, SRISK on random percentage-scale data, explosive recursions, binding bounds,
integer and strided input) is executed in four trees: all extensions, none, only utils_ext,
only measures_ext; every recorded number is compared with the all-extensions tree.
Non-trivial: a recorded result of more than one number that was compared in all trees."""
ASSUMPTIONS = ["fits are compared to 1e-6 in log-likelihood terms and 1% in parameters: rounding may move an optimiser's last step"]
MIN_DISTINCT = 20
MIN_OBSERVED = {"numbers compared": 1000}
OUT = {}


def setup(mon):
    global A, M
    import frds.algorithms as A
    import frds.measures as M


def record(mon, name, kind, value):
    w, i = mon.current
    v = np.array(value, dtype=float)
    OUT[f"{w}[{i}] {name}"] = (kind, v)


def astuple(p):
    import dataclasses

    return [float(x) for x in dataclasses.astuple(p)]


@workload(quick=120, thorough=1500)
def recursions(mon, rng, i):
    from checks import c04

    gjr = bool(i % 2)
    cls = A.GJRGARCHModel if gjr else A.GARCHModel
    T = int(rng.choice([1, 2, 20, 75, 76, 200, 500])) if i % 12 else int(rng.integers(2500, 7000))
    r, scale = c04.series(rng, T)
    p, _ = c04.parameters(rng, gjr, scale)
    p = [abs(v) for v in p]
    vb, which = c04.make_bounds(rng, r)
    if not np.all(vb[:, 1] > 0):
        vb = vb + 1e-12
    bc = float(cls.backcast(r))
    mon.describe(gjr=gjr, T=T, params=p, bounds=which)
    with np.errstate(all="ignore"):
        record(mon, "variance", "exact", cls.compute_variance(p, r, bc, vb))
        record(mon, "own bounds", "exact", cls.variance_bounds(r))
        record(mon, "backcast", "exact", bc)
        record(mon, "ewma", "exact", cls.ewma(r, bc, float(rng.uniform(0, 1))))
        record(mon, "default ewma", "exact", cls.ewma(r, bc))
        ints = np.round(r / scale * 3).clip(-1e6, 1e6).astype(np.int64)
        record(mon, "variance of integers", "exact", cls.compute_variance(p, ints, bc, vb))
        record(mon, "ewma of integers", "exact", cls.ewma(ints, bc))
        f32 = r.astype(np.float32)
        record(mon, "variance of single precision", "single", cls.compute_variance(p, f32, bc, vb))
        for k, x in gen.layouts(r).items():
            record(mon, "variance of " + k, "exact", cls.compute_variance(p, x, bc, vb))
        lo, hi = float(vb[-1, 0]), float(vb[-1, 1])
        record(mon, "bounds check", "exact",
               [float(cls.bounds_check(s, np.array([lo, hi]))) for s in (lo / 2, lo, (lo + hi) / 2, hi, hi * 3, np.float64(np.inf), -1.0)])
        P = A.GJRGARCHModel.Parameters(omega=p[0], alpha=p[1], gamma=0.1, beta=p[-1])
        record(mon, "forecast", "exact", A.GJRGARCHModel.forecast_variance(P, r[:20], bc))
    mon.seen(r, p)


@workload(quick=28, thorough=250)
def univariate(mon, rng, i):
    gjr, zero = bool(i % 2), bool(i % 4 == 3)
    cls = A.GJRGARCHModel if gjr else A.GARCHModel
    T = int(rng.choice([100, 160, 250]))
    r, _ = gen.returns_pct(rng, T, gjr=gjr)
    if i % 5 == 0:
        r[rng.integers(0, T)] *= 12
    m = cls(r, zero_mean=zero)
    p = m.fit()
    mon.describe(T=T, gjr=gjr, zero=zero, fitted=astuple(p))
    record(mon, "success", "exact", m.estimation_success)
    if m.estimation_success:
        record(mon, "parameters", "fit", astuple(p))
        record(mon, "variances", "state", m.sigma2)
        record(mon, "residuals", "state", m.resids)
        mon.seen(r)
    record(mon, "starting values", "exact", cls(r, zero_mean=zero).preparation())


@workload(quick=24, thorough=200)
def bivariate(mon, rng, i):
    T = int(rng.choice([100, 160]))
    a, b, _, rho = gen.pair_pct(rng, T, dcc=bool(i % 2))
    kind = i % 3
    if kind == 0:
        d = A.GARCHModel_CCC(a, b)
    elif kind == 1:
        d = A.GARCHModel_DCC(a, b)
    else:
        d = A.GJRGARCHModel_DCC(a, b)
    p = d.fit()
    mon.describe(T=T, kind=type(d).__name__, fitted=astuple(p))
    record(mon, "success", "exact", d.estimation_success)
    if d.estimation_success:
        record(mon, "parameters", "fit", astuple(p))
        mon.seen(a, kind)
        if kind:
            for x, y in ((0.05, 0.9), (0.0, 0.0), (0.3, 0.6), (1.0, 0.0), (0.02, 0.98)):
                record(mon, f"correlations {x} {y}", "state", d.conditional_correlations(x, y))
            record(mon, "starting values", "exact", d.starting_values())
            record(mon, "likelihood", "ll", d.loglikelihood_model([0.1, 0.7]))


@workload(quick=16, thorough=120)
def systemic(mon, rng, i):
    T = int(rng.choice([120, 200]))
    a, b, _, _ = gen.pair_pct(rng, T, gjr=True, dcc=bool(i % 2))
    firm, market = np.expm1(a / 100), np.expm1(b / 100)
    L = M.LongRunMarginalExpectedShortfall(firm, market)
    try:
        sd = float(np.std(np.log1p(market)))
        vals = [float(L.estimate(h, S, -sd * np.sqrt(h) * c, seed)) for h, S, c, seed in
                ((1, 40, 0.5, 1), (10, 120, 0.8, 2), (22, 60, 0.3, 3), (5, 50, 40.0, 4))]
    except RuntimeError:
        record(mon, "unsuccessful model", "exact", 1.0)
        return
    mon.describe(T=T, lrmes=vals)
    record(mon, "lrmes", "lrmes", vals)
    W, D = float(rng.uniform(1, 100)), float(rng.uniform(1, 900))
    v = M.SRISK(firm, market, W, D).estimate(lrmes_h=10, lrmes_S=120, lrmes_C=-sd * 2, lrmes_random_seed=3)
    record(mon, "srisk", "lrmes", [float(v) / W])
    mon.seen(firm, market)


def finish(mon):
    path = os.environ["FRDS_C09_OUT"]
    with open(path, "wb") as f:
        pickle.dump(OUT, f)


TOL = {  # rtol, atol
    "exact": (1e-9, 1e-12),
    "single": (1e-4, 1e-10),
    "state": (1e-2, 1e-4),
    "ll": (1e-5, 1e-3),
    "fit": (1e-2, 1e-3),
    "lrmes": (0, 5e-3),
}


def compare(kind, x, y):
    if x.shape != y.shape:
        return False
    rtol, atol = TOL[kind]
    with np.errstate(all="ignore"):
        ok = (x == y) | (np.isnan(x) & np.isnan(y)) | (np.abs(x - y) <= atol + rtol * np.abs(y))
    return bool(np.all(ok))


def half(run, name, remove):
    src, dst = run.tree("plain"), os.path.join(run.scratch, name)
    if name not in run.trees:
        shutil.copytree(src, dst)
        n = 0
        for root, _, files in os.walk(dst):
            for f in files:
                if f.startswith(remove) and f.endswith(".so"):
                    os.unlink(os.path.join(root, f))
                    n += 1
        if n < 1:
            raise RuntimeError(f"{remove}: {n} files")
        run.trees[name] = dst


def orchestrate(run, replay=None):
    run.tree("plain"), run.tree("none")
    half(run, "only_utils", "measures_ext")
    half(run, "only_measures", "utils_ext")
    shards, jobs = 2, []
    for v in ("plain", "none", "only_utils", "only_measures"):
        for k in range(shards if not replay else 1):
            out = os.path.join(run.scratch, f"{v}.{k}.pkl")
            w = run.start("c09", variant=v, shard=k, shards=shards, replay=replay, env={"FRDS_C09_OUT": out})
            w["pkl"], w["key"] = out, (v, k)
            jobs.append(w)
    run.wait(jobs)
    res = {}
    for w in jobs:
        if os.path.exists(w["pkl"]):
            res.setdefault(w["key"][0], {}).update(pickle.load(open(w["pkl"], "rb")))
    base = res.get("plain", {})
    for v in ("none", "only_utils", "only_measures"):
        other = res.get(v, {})
        for k in sorted(set(base) | set(other)):
            run.checks += 1
            wl, case = k.split("]")[0].split("[")
            if k not in base or k not in other:
                # a case that failed in one tree was reported by that worker
                if run.violations:
                    continue
                run.violation("result only in one tree", f"{k} in {v}: {k in other}", workload=wl, case_id=int(case))
                continue
            kind, x = base[k]
            _, y = other[k]
            run.counters["numbers compared"] = run.counters.get("numbers compared", 0) + int(x.size)
            if not compare(kind, y, x):
                run.violation("implementations differ", f"{k}: {v} against plain", workload=wl,
                              native=x.tolist()[:20] if x.ndim else float(x), other=y.tolist()[:20] if y.ndim else float(y))
                run.violations[-1]["case"] = int(case)
    worst = {}
    for k in base:
        for v in ("none", "only_utils", "only_measures"):
            if k in res.get(v, {}) and base[k][1].shape == res[v][k][1].shape and base[k][1].size:
                with np.errstate(all="ignore"):
                    d = np.nanmax(np.abs(base[k][1] - res[v][k][1]) / (1e-6 + np.abs(base[k][1])))
                if np.isfinite(d):
                    worst[base[k][0]] = max(worst.get(base[k][0], 0.0), float(d))
    run.notes.append({"largest relative difference by kind": worst})


def replay(run, rep):
    orchestrate(run, replay=[[rep["workload"], rep["case"]]])
