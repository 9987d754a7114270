"""C27: a failed numerical search is reported as a failure.

The searches of scipy that the library relies on are wrapped below their public entry
points.  An armed plan makes chosen searches fail: by ending them for real after a few
iterations or evaluations, by marking their honest result unsuccessful, or by losing it
(NaN).  The wrapper logs what every search really returned.  The monitor then holds the
library to its claims: success only when a search succeeded, and everything claimed is
true; otherwise the documented sign of failure; and nothing of the failure remains.
"""
import math
import warnings

import numpy as np

from lib import gen, mon as _mon, ref
from lib.mon import workload

_keep = dict(_mon.WORKLOADS)
from checks import c20  # noqa: E402  the snapshot of the process

_mon.WORKLOADS.clear()
_mon.WORKLOADS.update(_keep)
canon = c20.canon

RULE = """A case is one estimator with generated arguments whose searches fail according to several plans (all; only the
first; all but the first; the k-th; from the k-th on; a random subset) in one of several ways (real stall, unsuccessful
status, lost result); distinct by estimator, plan and way. Non-trivial when at least one search was really made to fail."""
ASSUMPTIONS = ["searches go through scipy.optimize (minimize, fsolve, root), which the wrapper observes"]
SHARDS = 7
MIN_DISTINCT = 110
MIN_OBSERVED = {"searches made to fail": 1500, "calls with all searches failed": 120, "claims verified": 80,
                "calls repeated after a failure": 200, "inputs without a solution": 40}


class Faults:
    """What happens to the n-th search (counted from 0)."""

    def __init__(self):
        self.plan = None
        self.log = []
        self.way = None

    def arm(self, plan, way):
        self.plan, self.way, self.log = plan, way, []

    def disarm(self):
        self.plan = None

    def hit(self):
        return self.plan is not None and self.plan(len(self.log))


F = Faults()


def wrap_minimizer(real):
    def search(fun, x0, *a, **k):
        hit = F.hit()
        if hit and F.way[0] == "stall":
            k = dict(k, maxiter=F.way[1])
        r = real(fun, x0, *a, **k)
        if hit and F.way[0] != "stall":
            r.success, r.status = False, F.way[1]
            r.message = "Iteration limit reached"
            if F.way[0] == "lost":
                r.x = np.full(np.shape(r.x), np.nan)
                r.fun = math.nan
        F.log.append((bool(r.success), float(r.fun), np.array(r.x, float), hit))
        return r

    return search


def wrap_solver(real):
    def search(func, x0, *a, **k):
        hit = F.hit()
        if hit and F.way[0] == "stall":
            k = dict(k, maxfev=F.way[1])
        r = real(func, x0, *a, **k)
        if hit and F.way[0] == "status":
            r["status"], r["success"], r["message"] = F.way[1], False, "The iteration is not making good progress"
        F.log.append((r["status"] == 1, float(np.abs(np.asarray(r["fun"])).max()), np.array(r["x"], float), hit))
        return r

    return search


def setup(mon):
    import scipy.optimize._minimize as SM
    import scipy.optimize._minpack_py as MP
    import scipy.optimize._root as SR

    for name in dir(SM):
        if name.startswith("_minimize_"):
            setattr(SM, name, wrap_minimizer(getattr(SM, name)))
    MP._root_hybr = wrap_solver(MP._root_hybr)
    SR._root_hybr = MP._root_hybr
    c20.setup(mon)
    global A, M, mm
    A, M, mm = c20.A, c20.M, c20.mm


# -- plans -------------------------------------------------------------------------------
def plans(rng, n, k):
    """Some of the ways to choose among n searches; the first plan fails all,
    the second the last one and any that follow it."""
    out = [("all", lambda j: True)]
    kinds = [("first", lambda j: j == 0)]
    if n > 1:
        cut = int(rng.integers(1, n))
        kth = int(rng.integers(0, n))
        sub = set(np.flatnonzero(rng.random(n) < rng.uniform(0.2, 0.9)).tolist())
        out.append(("the last", lambda j: j >= n - 1))
        kinds += [("all but the first", lambda j: j > 0), (f"from the {cut}th on", lambda j: j >= cut), (f"the {kth}th", lambda j: j == kth),
                  ("the first half", lambda j: j < n // 2), ("some", lambda j: j in sub)]
    take = rng.permutation(len(kinds))[: k - len(out)]
    return out + [kinds[int(j)] for j in take]


def a_way(rng, solver=False):
    if solver:
        return ("stall", int(rng.integers(1, 5))) if rng.random() < 0.6 else ("status", int(rng.choice([2, 3, 4, 5])))
    u = rng.random()
    if u < 0.45:
        return ("status", int(rng.choice([4, 6, 8, 9])))
    if u < 0.75:
        return ("stall", int(rng.integers(1, 4)))
    return ("lost", int(rng.choice([4, 8, 9])))


def values(p):
    import dataclasses

    return {f.name: getattr(p, f.name) for f in dataclasses.fields(p)}


# -- what is claimed is true ---------------------------------------------------------------
def uni_claim(mon, m, r, gjr, zero=False, who="model"):
    if not m.estimation_success:
        mon.check(all(v != v for v in values(m.parameters).values()), "parameters without a successful search",
                  who=who, params=values(m.parameters))
        return False
    mon.count("claims verified")
    v = values(m.parameters)
    mon.require(all(math.isfinite(x) for x in v.values()), "success claimed without results", who=who, params=v)
    base = r if zero else r - r.mean()
    vp = [m.parameters.omega, m.parameters.alpha] + ([m.parameters.gamma] if gjr else []) + [m.parameters.beta]
    bc, vb = ref.backcast(base), ref.variance_bounds(base)
    ll, e, s2 = ref.uni_ll(r, m.parameters.mu, vp, gjr, bc, vb)
    mon.close(m.parameters.loglikelihood, ll, "claimed log-likelihood", rtol=1e-7, atol=1e-5, who=who, params=v)
    mon.close(m.resids, e, "claimed residuals", rtol=1e-9, atol=1e-10, who=who)
    mon.close(m.sigma2, s2, "claimed variances", rtol=1e-3, atol=0, who=who)
    mon.check(ll >= max(ref.uni_ll(r, 0.0 if zero else r.mean(), g, gjr, bc, vb)[0] for g in ref.grid_points(r, gjr)) - 1e-3,
              "claimed optimum below the starting grid", who=who, params=v)
    return True


def taken(mon, plan, n, ll, T, who):
    """A claim of success rests on a search that succeeded."""
    mon.check(any(e[0] for e in F.log), "success claimed though every search failed", who=who, searches=len(F.log))
    if plan != "the last" or not n:
        return
    # what came before were the searches for the margins: none of those is the likelihood claimed
    units = [10.0**-k * t for k in range(10) for t in (1, T)]
    ok = any(abs(abs(ll) * u - abs(f)) <= 1e-9 * abs(f) for s, f, x, hit in F.log if s for u in units)
    mon.check(ok, "success claimed though the deciding search failed", who=who, loglikelihood=ll)


def ccc_claim(mon, o, x, y):
    if not o.estimation_success:
        mon.check(math.isnan(o.parameters.loglikelihood), "log-likelihood without a successful search", params=values(o.parameters))
        return False
    mon.count("claims verified")
    p = o.parameters
    mon.require(all(math.isfinite(v) for v in values(p).values()), "success claimed without results", params=values(p))
    mon.check(abs(p.rho) <= 0.99 + 1e-9, "claimed correlation", rho=p.rho)
    out = []
    for r, mu, vp in ((x, p.mu1, [p.omega1, p.alpha1, p.beta1]), (y, p.mu2, [p.omega2, p.alpha2, p.beta2])):
        e = r - mu
        _, e, s2 = ref.uni_ll(r, mu, vp, False, ref.backcast(e), ref.variance_bounds(e))
        out += [e, s2]
    mon.close(p.loglikelihood, ref.bivariate_ll(*out, p.rho), "claimed log-likelihood", rtol=1e-7, atol=1e-5, params=values(p))
    return True


def dcc_claim(mon, o, x, y, gjr):
    if not o.estimation_success:
        mon.check(math.isnan(o.parameters.loglikelihood), "log-likelihood without a successful search", params=values(o.parameters))
        return False
    p, m1, m2 = o.parameters, o.model1, o.model2
    mon.count("claims verified")
    mon.require(all(math.isfinite(v) for v in values(p).values()), "success claimed without results", params=values(p))
    mon.require(m1.estimation_success and m2.estimation_success, "success claimed on margins that failed", params=values(p))
    for m, r, s in ((m1, x, "1"), (m2, y, "2")):
        uni_claim(mon, m, r, gjr, who="margin " + s)
        for k, v in values(m.parameters).items():
            if k != "loglikelihood":
                mon.check(getattr(p, k + s) == v, "claimed margin parameters", field=k + s, params=values(p))
    z1, z2 = m1.resids / np.sqrt(m1.sigma2), m2.resids / np.sqrt(m2.sigma2)
    mon.check(p.a >= -1e-9 and p.b >= -1e-9 and p.a + p.b <= 1 + 1e-6, "claimed parameters admissible", params=values(p))
    ll = ref.dcc_ll(m1.parameters.loglikelihood, m2.parameters.loglikelihood, z1, z2, ref.dcc_rho(p.a, p.b, z1, z2))
    mon.close(p.loglikelihood, ll, "claimed log-likelihood", rtol=1e-7, atol=1e-4, params=values(p))
    return True


# -- the estimators ------------------------------------------------------------------------
def e_garch(rng, gjr=False):
    r, _ = gen.returns_pct(rng, int(rng.integers(150, 400)), gjr=gjr)
    zero = bool(rng.random() < 0.3)
    cls = A.GJRGARCHModel if gjr else A.GARCHModel
    return [r], lambda: cls(r, zero_mean=zero), lambda mon, o: uni_claim(mon, o, r, gjr, zero)


def e_gjr(rng):
    return e_garch(rng, True)


def a_pair(rng):
    x, y, _, _ = gen.pair_pct(rng, int(rng.integers(150, 300)), rho=float(rng.uniform(-0.5, 0.8)))
    return x, y


def e_ccc(rng):
    x, y = a_pair(rng)
    return [x, y], lambda: A.GARCHModel_CCC(x, y), lambda mon, o: ccc_claim(mon, o, x, y)


def e_dcc(rng, gjr=False):
    x, y = a_pair(rng)
    cls, one = (A.GJRGARCHModel_DCC, A.GJRGARCHModel) if gjr else (A.GARCHModel_DCC, A.GARCHModel)
    k = int(rng.integers(0, 3))
    build = [lambda: cls(x, y), lambda: cls(one(x), one(y)), lambda: cls(one(x), y)][k]
    return [x, y], build, lambda mon, o: dcc_claim(mon, o, x, y, gjr)


def e_gjr_dcc(rng):
    return e_dcc(rng, True)


FITS = dict(garch=e_garch, gjr=e_gjr, ccc=e_ccc, dcc=e_dcc, gjr_dcc=e_gjr_dcc)


def guarded(mon, call, inputs, what):
    """Run the call under the armed plan; process state and inputs stay as they are."""
    w, snap = c20.world(), gen.snapshot(*inputs)
    err = out = None
    try:
        out = call()
    except Exception as e:
        err = e
    n = sum(1 for e in F.log if e[3] and not e[0])
    mon.count("searches made to fail", n)
    after = c20.world()
    for k in w:
        mon.check(after[k] == w[k], "process state after a failed search", part=k, during=what)
    mon.check(gen.snapshot(*inputs) == snap, "inputs after a failed search", during=what)
    return out, err, n


@workload(quick=100, thorough=1000)
def fits(mon, rng, i):
    name = list(FITS)[i % len(FITS)]
    inputs, build, claim = FITS[name](rng)
    F.arm(lambda j: False, None)
    base = build()
    want = canon(base.fit())
    searches = len(F.log)
    if not base.estimation_success:
        mon.skip("no estimate even without faults")
    for plan, f in plans(rng, searches, 4):
        way = a_way(rng)
        what = f"{name}: {plan} {way}"
        mon.describe(estimator=name, plan=plan, way=way, searches=searches, head=inputs[0][:3])
        o = build()
        F.arm(f, way)
        got, err, n = guarded(mon, o.fit, inputs, what)
        log = list(F.log)
        mon.check(err is None or isinstance(err, (RuntimeError, ValueError, ArithmeticError, np.linalg.LinAlgError)),
                  "a failed search ends the call with an unrelated error", error=repr(err), during=what)
        if n:
            mon.seen(name, plan.split()[0], way[0])
        mon.check(isinstance(o.estimation_success, (bool, np.bool_)), "estimation_success is a truth value", value=o.estimation_success)
        if o.estimation_success:
            mon.check(err is None, "success claimed by a call that raised", error=repr(err), during=what)
            taken(mon, plan, n, o.parameters.loglikelihood, len(inputs[0]), what)
        if plan == "all":
            mon.count("calls with all searches failed", bool(n == len(log)))
            if n == len(log):
                mon.check(not o.estimation_success, "success claimed though every search failed", during=what, params=values(o.parameters))
        claim(mon, o)
        if err is None:
            mon.check(canon(got) == canon(o.parameters), "fit returns the parameters", during=what)
        again = o.fit if o.estimation_success else None
        if again:
            F.arm(lambda j: False, None)
            mon.check(canon(o.fit()) == canon(got), "a successful fit is kept", during=what)
        # what is left of the failure when the searches work again
        F.disarm()
        mon.count("calls repeated after a failure")
        got = o.fit()
        mon.check(o.estimation_success, "no estimate after a failed attempt though the data have one", during=what)
        mon.check(canon(got) == canon(o.parameters), "fit returns the parameters", during=what)
        claim(mon, o)
        if n == len(log) and n:
            mon.check(canon(got) == want, "a failed attempt changes the next estimate", during=what, got=values(got), want=values(base.parameters))
        fresh = build()
        mon.check(canon(fresh.fit()) == want, "a failed attempt changes another object's estimate", during=what)


@workload(quick=18, thorough=180)
def forecasts(mon, rng, i):
    """LRMES and SRISK make no forecast from a model that was not estimated."""
    x, y = c20.raw_pair(rng)
    many = i % 3 == 2
    kw = dict(h=4, S=60, C=-0.005)
    if i % 3 == 0:
        inputs = [x, y]
        build, call = lambda: M.LongRunMarginalExpectedShortfall(x, y), lambda o: o.estimate(**kw)
    else:
        kw = {"lrmes_" + k: v for k, v in kw.items()}
        if many:
            z = np.column_stack([x, 0.5 * y + 0.5 * x[::-1]])
            W, D = np.array([100.0, 20.0]), np.array([500.0, 300.0])
            inputs = [z, y, W, D]
            agg = bool(rng.random() < 0.5)
            build, call = lambda: M.SRISK(z, y, W, D), lambda o: o.estimate(aggregate_srisk=agg, **kw)
        else:
            inputs = [x, y]
            build, call = lambda: M.SRISK(x, y, W=100.0, D=800.0), lambda o: o.estimate(**kw)
    F.arm(lambda j: False, None)
    want = canon(call(build()))
    searches = len(F.log)
    mon.check(searches > 0, "the forecast rests on an estimation")
    for plan, f in plans(rng, searches, 4):
        way = a_way(rng)
        what = f"{'lrmes srisk srisk'.split()[i % 3]}: {plan} {way}"
        mon.describe(plan=plan, way=way, searches=searches, many=many)
        o = build()
        F.arm(f, way)
        got, err, n = guarded(mon, lambda: call(o), inputs, what)
        log = list(F.log)
        if n:
            mon.seen(i % 3, plan.split()[0], way[0])
        if n and n == len(log):
            mon.count("calls with all searches failed")
            mon.check(isinstance(err, RuntimeError), "a forecast from a model that was not estimated", returned=got, error=repr(err), during=what)
        elif err is None:
            mon.check(np.isfinite(np.asarray(got, float)).all(), "a forecast that is no number", returned=got, during=what)
            if not n:
                mon.check(canon(got) == want, "forecast without faults", during=what)
        else:
            mon.check(isinstance(err, RuntimeError), "a failed search ends the call with an unrelated error", error=repr(err), during=what)
        F.disarm()
        mon.count("calls repeated after a failure")
        if n == len(log):
            mon.check(canon(call(o)) == want, "a failed attempt changes the next forecast", during=what)
        mon.check(canon(call(build())) == want, "a failed attempt changes another object's forecast", during=what)


def pin_ll(p, B, S):
    """Independent log-likelihood (without factorials): log of a three-state Poisson mixture."""
    a, d, eb, es, mu = p.alpha, p.delta, p.epsilon_b, p.epsilon_s, p.mu
    out = []
    for b, s in zip(B.tolist(), S.tolist()):
        t = [(a * (1 - d), eb + mu, es), (a * d, eb, es + mu), (1 - a, eb, es)]
        t = [math.log(w) + b * math.log(u) - u + s * math.log(v) - v for w, u, v in t if w > 0]
        m = max(t)
        out.append(m + math.log(math.fsum(math.exp(v - m) for v in t)))
    return math.fsum(out)


@workload(quick=20, thorough=200)
def informed_trading(mon, rng, i):
    """PIN: the best of the searches that succeeded, and nothing else."""
    n = int(rng.integers(12, 30))
    B, S = (rng.poisson(20 + 20 * (rng.random(n) < 0.3), n) for _ in range(2))
    method = ["EHO2010", "LK2011"][i % 2]
    F.arm(lambda j: False, None)
    base = M.PIN(B, S)
    want = canon(base.estimate(method))
    searches = len(F.log)
    o = M.PIN(B, S)
    order = np.argsort([f if s else math.inf for s, f, x, h in F.log])
    best = set(order[: max(1, len(order) // 2)].tolist())
    chosen = plans(rng, searches, 4) + [("the better half", lambda j: j in best), ("all", lambda j: True)]
    for plan, f in chosen:
        way = a_way(rng)
        what = f"PIN {method}: {plan} {way}"
        between = plan == "all" or rng.random() < 0.2
        mon.describe(method=method, plan=plan, way=way, searches=searches, other_method_between=between, B=B[:4], S=S[:4])
        if between:  # what another method found before is no result of this call
            F.arm(lambda j: False, None)
            o.estimate(["LK2011", "EHO2010"][i % 2])
        F.arm(f, way)
        got, err, failed = guarded(mon, lambda: o.estimate(method), [B, S], what)
        if failed:
            mon.seen(method, plan.split()[0], way[0])
        mon.check(err is None, "a failed search ends the call with an unrelated error", error=repr(err), during=what)
        good = [v for s, v, x, h in F.log if s and math.isfinite(v)]
        bad = [v for s, v, x, h in F.log if not s and math.isfinite(v)]
        p = o.parameters
        if failed and failed == len(F.log):
            mon.count("calls with all searches failed")
        if not good:
            mon.check(not o.estimation_success, "success claimed though every search failed", during=what, params=values(p))
            mon.check(math.isnan(p.loglikelihood) and math.isnan(p.alpha) and not p.pin > 0, "parameters without a successful search",
                      during=what, params=values(p))
            continue
        mon.require(o.estimation_success, "no estimate though a search succeeded", during=what)
        mon.count("claims verified")
        nums = [p.alpha, p.delta, p.epsilon_b, p.epsilon_s, p.mu, p.loglikelihood, p.pin]
        mon.require(all(math.isfinite(v) for v in nums), "success claimed without results", params=values(p))
        mon.close(p.loglikelihood, pin_ll(p, B, S), "claimed log-likelihood", rtol=1e-8, atol=1e-6, during=what, params=values(p))
        mon.check(p.loglikelihood >= -min(good) - 1e-6, "not the best of the searches that succeeded", best=-min(good), during=what, params=values(p))
        if bad and -min(bad) > -min(good) + 1e-6:
            mon.check(abs(p.loglikelihood + min(bad)) > 1e-9, "takes the result of a search that failed", best=-min(good),
                      failed=-min(bad), during=what, params=values(p))
        F.disarm()
    F.disarm()
    mon.count("calls repeated after a failure")
    mon.check(canon(o.estimate(method)) == want and o.estimation_success == base.estimation_success,
              "a failed attempt changes the next estimate", during=method)


@workload(quick=60, thorough=600)
def valuations(mon, rng, i):
    """Equations that were not solved: the contingent claim analysis raises, and the promised yield's failure reaches the caller."""
    if i % 3 == 0:
        E, D = float(rng.uniform(5, 50)), float(rng.uniform(20, 80))
        a = (E, float(rng.uniform(0.2, 0.6)), 0.03, D, float(rng.uniform(0.5, 3)), float(rng.uniform(10, 200)))
        call, inputs, name = lambda: M.ContingentClaimAnalysis.estimate(*a), [], "cca"
    else:
        one = i % 3 == 2
        fs = np.linspace(-1, 1, 4).reshape(-1, 1) + rng.random() / 10
        w = rng.standard_normal((100, 10 if one else 30))
        par = list(c20.PAR)
        par[7], par[6] = float(rng.uniform(0.1, 0.3)), float(rng.uniform(0.5, 0.8))
        f, name = mm["mod_single_cohort_computation" if one else "mod_merton_computation"], "single cohort" if one else "bank"
        call, inputs = lambda: f(fs, list(par), 10, 100, w), [w, fs]
    F.arm(lambda j: False, None)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        want = canon(call())
    if not F.log:
        mon.skip("no search in this calculation")
    way = a_way(rng, solver=True)
    what = f"{name}: {way}"
    mon.describe(what=name, way=way, searches=len(F.log))
    F.arm(lambda j: True, way)
    with warnings.catch_warnings(record=True) as told:
        warnings.simplefilter("always")
        got, err, n = guarded(mon, call, inputs, what)
    F.disarm()
    if not n:
        mon.skip("the search converged all the same")
    mon.seen(name, way)
    mon.count("calls with all searches failed")
    if name == "cca":
        mon.check(isinstance(err, (RuntimeError, ValueError, ArithmeticError)), "a value from equations that were not solved",
                  returned=got, error=repr(err), during=what)
    else:
        heard = err is not None or any(issubclass(t.category, RuntimeWarning) for t in told)
        mon.check(heard, "a value from equations that were not solved, without a word", during=what)
    mon.count("calls repeated after a failure")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        mon.check(canon(call()) == want, "a failed attempt changes the next value", during=what)


@workload(quick=60, thorough=600)
def hopeless(mon, rng, i):
    """Returns no model can be estimated from: nothing is claimed, nothing is forecast."""
    name = list(FITS)[i % len(FITS)] if i % 4 else ["lrmes", "srisk"][i // 4 % 2]
    x, y = a_pair(rng)
    if name in ("lrmes", "srisk"):
        x, y = x / 100, y / 100
    bad = [np.nan, np.inf, -np.inf][int(rng.integers(0, 3))]
    where = int(rng.integers(0, 3))  # which series
    k = int(rng.integers(1, 4))
    at = rng.choice(len(x), k, replace=False)
    if where in (0, 2) or name in ("garch", "gjr"):
        x[at] = bad
    if where in (1, 2):
        y[at] = bad
    mon.describe(estimator=name, bad=bad, where=where, at=at)
    F.arm(lambda j: False, None)
    with np.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if name in ("lrmes", "srisk"):
            o = M.LongRunMarginalExpectedShortfall(x, y) if name == "lrmes" else M.SRISK(x, y, W=100.0, D=800.0)
            kw = dict(h=4, S=60, C=-0.005)
            call = lambda: o.estimate(**(kw if name == "lrmes" else {"lrmes_" + a: v for a, v in kw.items()}))
        else:
            gjr = name.startswith("gjr")
            cls = dict(garch=A.GARCHModel, gjr=A.GJRGARCHModel, ccc=A.GARCHModel_CCC, dcc=A.GARCHModel_DCC, gjr_dcc=A.GJRGARCHModel_DCC)[name]
            o = cls(x) if name in ("garch", "gjr") else cls(x, y)
            call = o.fit
        got, err, n = guarded(mon, call, [x, y], name)
    mon.count("inputs without a solution")
    mon.seen(name, where, repr(bad))
    ok = err is None or isinstance(err, (RuntimeError, ValueError, ArithmeticError, np.linalg.LinAlgError))
    mon.check(ok, "unusable returns end the call with an unrelated error", error=repr(err))
    if name in ("lrmes", "srisk"):
        fine = err is not None or not np.isfinite(np.asarray(got, float)).any()
        mon.check(fine, "a forecast from a model that cannot be estimated", returned=got)
        return
    mon.check(not o.estimation_success, "success claimed on returns no model can be estimated from", params=values(o.parameters))
    mon.check(not math.isfinite(o.parameters.loglikelihood), "log-likelihood without a successful search", params=values(o.parameters))
