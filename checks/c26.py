"""C26: the bank simulation study reports its models' numbers.

The study (mod_merton_simulation.simulate) is run at small sizes; the printed table and
the data of every figure, taken when it is saved, are compared with a recomputation: the
modified model's valuation at the published calibration, the Merton firm with the same
equity value and volatility (own solver), the simplified models' default probabilities
interpolated at that equity value and volatility.
"""
import contextlib
import importlib
import io
import math
import os
import re
import shutil
import tempfile
import warnings

import numpy as np
from scipy.interpolate import griddata
from scipy.optimize import least_squares
from scipy.special import ndtr

from lib.mon import workload

RULE = """A case is one run of the study with a number of paths, a target folder and a caller's
environment; distinct by the number of paths and the history of the process. Non-trivial when the
table was printed and the five figures were saved."""
ASSUMPTIONS = ["numbers of paths the smoother supports (multiples of 40)",
               "the simplified models are judged at factor realisations where a change of 1e-9 of the lookup table does not move the interpolation"]
MIN_DISTINCT = 4
MIN_OBSERVED = {"printed numbers compared": 84, "figure points compared": 3000, "Merton firms solved": 100}
SHARDS = 8
P = "frds.measures.modified_merton."
CAL = dict(r=0.01, d=0.005, y=0.002, T=10, H=5, rho=0.5, sig=0.2, ltv=0.66, g=0.5)
BOOK = 0.63
FIGURES = {"figure2_PayoffsAtDMat.pdf", "figure3_mVe.pdf", "figure4_mdef.pdf", "figure5_panel_a_mdefsingles.pdf",
           "figure5_panel_b_mertalt.pdf"}
ROWS = ["Agg. Borrower Asset Value", "Bank Asset Value", "Bank Market Equity/Market Assets", "Bank 5Y RN Default Prob.",
        "Bank Credit Spread (%)", "Merton 5Y RN Default Prob.", "Merton Credit Spread (%)"]


def setup(mon):
    global study, multi, lookup1, Figure
    # matplotlib keeps its font cache with the check, not in the home folder
    os.environ["MPLCONFIGDIR"] = os.path.join(os.path.dirname(os.environ["FRDS_TREE"]), "mpl")
    os.makedirs(os.environ["MPLCONFIGDIR"], exist_ok=True)
    import matplotlib

    matplotlib.use("Agg")
    from matplotlib.figure import Figure

    study = importlib.import_module(P + "mod_merton_simulation")
    multi = importlib.import_module(P + "mod_merton_computation").mod_merton_computation
    lookup1 = importlib.import_module(P + "mod_single_merton_create_lookup").mod_single_merton_create_lookup


@contextlib.contextmanager
def watching():
    """Artists of every figure at the moment it is saved."""
    seen = []
    was = Figure.savefig

    def savefig(self, fname, *a, **k):
        axes = []
        for ax in self.axes:
            leg = ax.get_legend()
            axes.append(dict(
                points=[np.array(c.get_offsets().filled(np.nan) if np.ma.isMA(c.get_offsets()) else c.get_offsets(), float) for c in ax.collections],
                lines=[np.column_stack([np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)]) for ln in ax.lines],
                legend=[t.get_text() for t in leg.get_texts()] if leg else [],
            ))
        seen.append((str(fname), axes))
        return was(self, fname, *a, **k)

    Figure.savefig = savefig
    try:
        yield seen
    finally:
        Figure.savefig = was


def run(n, direc=None):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf), watching() as seen:
        study.simulate(n, direc) if direc is not None else study.simulate(n)
    text = buf.getvalue()
    rows = {m.group(1): m.groups()[1:]
            for m in re.finditer(r"^\s*(\S.*?)\s{2,}(-?[\d.]+|nan)\s+(-?[\d.]+|nan)\s+(-?[\d.]+|nan)\s*$", text, re.M)}
    return text, rows, seen


def put_price(A, D, r, H, s, y):
    v = s * math.sqrt(H)
    d1 = (math.log(A / D) + (r - y) * H) / v + v / 2
    return D * math.exp(-r * H) * ndtr(v - d1) - A * math.exp(-y * H) * ndtr(-d1)


def merton_firm(E, sigE, D, r, y, H):
    """(A, s) with the given cum-dividend equity value and volatility; None if not found."""
    def f(x):
        A, s = math.exp(x[0]), math.exp(x[1])
        v = s * math.sqrt(H)
        d1 = (math.log(A / D) + (r - y) * H) / v + v / 2
        call = A * math.exp(-y * H) * ndtr(d1) - D * math.exp(-r * H) * ndtr(d1 - v)
        delta = math.exp(-y * H) * ndtr(d1) + 1 - math.exp(-y * H)
        return [math.log((call + A * (1 - math.exp(-y * H))) / E), math.log(delta * A * s / E / sigE)]

    best = None
    for A0 in (E + D * math.exp(-r * H), E + 0.8 * D, E + 0.5 * D):
        for s0 in (sigE / 2, sigE * E / A0, sigE / 5):
            o = least_squares(f, [math.log(A0), math.log(s0)], xtol=1e-15, ftol=1e-15, gtol=1e-15)
            if best is None or o.cost < best.cost:
                best = o
            if best.cost < 1e-24:
                break
    return (math.exp(best.x[0]), math.exp(best.x[1])) if best.cost < 1e-18 else None


def default_probability(A, s, D, r, y, H):
    return float(ndtr(-(math.log(A / D) + (r - y - s * s / 2) * H) / (s * math.sqrt(H))))


REF = {}


def reference(n):
    if n in REF:
        return REF[n]
    c = CAL
    r, y, H, T = c["r"], c["y"], c["H"], c["T"]
    fs = (np.arange(33) - 16) * 0.05 / (0.2 * math.sqrt(0.5) * math.sqrt(10))
    growth = math.fsum(math.exp(r * k) for k in range(1, T + 1)) / T
    D = BOOK * math.exp(r * H) * growth
    names = "Lt Bt Et LH BH EH sigEt mFt default mdef face FH Gt mu F sigLt".split()
    o = dict(zip(names, multi(fs.reshape(-1, 1), [r, T, 0.66, H, D, c["rho"], c["ltv"], c["sig"], c["d"], y, c["g"]], 10, n)))
    o["D"], o["fs"] = D, fs
    o["ratio"] = o["Et"] / (o["Et"] + o["Bt"])
    o["spread"] = np.log(D * math.exp(-r * H) / o["Bt"]) / H * 100
    K = len(fs)
    o["mertdef"], o["mertsp"], o["xmertdef"] = np.full(K, np.nan), np.full(K, np.nan), np.full(K, np.nan)
    for k in range(K):
        firm = merton_firm(o["Et"][k], o["sigEt"][k], D, r, y, H)
        if firm:
            o["mertdef"][k] = default_probability(*firm, D, r, y, H)
            risky = 1 - put_price(firm[0], D, r, H, firm[1], y) / (D * math.exp(-r * H))
            o["mertsp"][k] = -math.log(risky) / H * 100
        o["xmertdef"][k] = default_probability(o["Lt"][k], o["sigLt"][k], D, r, y, H)
    sfs = (np.arange(69) - 52) * 0.05 / (0.2 * math.sqrt(0.5) * math.sqrt(10))
    rng = np.random.default_rng(5)
    for name, rho, sig in (("single cohort", 0.5, 0.2), ("single borrower", 0.99, 0.2 * math.sqrt(0.5))):
        grid = np.meshgrid(sfs, sig, r, 0.4 + 0.01 * np.arange(105), indexing="ij")
        _, _, xE, _, xdef, xs = lookup1(c["d"], y, 5, H, BOOK * growth, rho, c["ltv"], grid[0], grid[2], grid[3], grid[1], 10, n)
        x, v, z = xE.ravel(), xs.ravel(), xdef.ravel()
        got = [griddata((x, v), z, (o["Et"], o["sigEt"]), method="cubic")]
        for _ in range(6):
            a, b = (w * (1 + 1e-9 * rng.standard_normal(len(w))) for w in (x, v))
            got.append(griddata((a, b), z, (o["Et"], o["sigEt"]), method="cubic"))
        got = np.array(got)
        steady = np.isfinite(got).all(axis=0) & (np.ptp(got, axis=0) < 1e-5)
        o[name] = np.where(steady, got[0], np.nan)
    REF[n] = o
    return o


def compare(mon, got, want, what, atol, **k):
    """Equal where the reference has an answer."""
    got, want = np.asarray(got, float), np.asarray(want, float)
    mon.require(got.shape == want.shape, what, got=got.shape, want=want.shape)
    ok = np.isfinite(want)
    mon.close(got[ok], want[ok], what, rtol=1e-6, atol=atol, **k)
    mon.count("figure points compared", int(ok.sum()))


def judge(mon, n, rows, seen):
    o = reference(n)
    c = CAL
    D, H, r, y, T = o["D"], c["H"], c["r"], c["y"], c["T"]
    mon.count("Merton firms solved", int(np.isfinite(o["mertdef"]).sum()))
    mon.count("interpolated points judged", int(np.isfinite(o["single cohort"]).sum() + np.isfinite(o["single borrower"]).sum()))
    j0 = int(np.argmin(np.abs(o["mFt"] - math.exp(r * T / 2))))
    cols = [j0, j0 + 8, j0 - 8]
    series = dict(zip(ROWS, [o["mFt"], o["Lt"], o["ratio"], o["mdef"], o["spread"], o["mertdef"], o["mertsp"]]))
    for name, v in series.items():
        mon.require(name in rows, "row of the printed table", missing=name, rows=list(rows))
        for x, w, at in zip(rows[name], np.asarray(v)[cols], ("no shock", "positive", "negative")):
            if np.isfinite(w):
                mon.check(abs(float(x) - w) <= 0.005 + 2e-6, "printed number", row=name, column=at, got=x, want=w)
                mon.check(len(x.split(".")[-1]) == 2, "two decimals", got=x)
                mon.count("printed numbers compared")
    by = {os.path.basename(f): axes for f, axes in seen}
    mon.require(set(by) >= FIGURES, "figures saved", got=sorted(by))

    a, b, e = by["figure2_PayoffsAtDMat.pdf"]
    top = o["LH"][:, j0] + o["face"][:, j0] * (math.exp(y * H) - 1)
    mface = float(np.max(o["face"][:, j0])) * math.exp(-r * (T - H) / 2)
    for ax, v, lines, what in ((a, top, [[(0, 0), (mface, mface)], [(mface, mface), (2.5, mface)]], "bank assets"),
                               (b, o["EH"][:, j0], [[(0, 0), (D, 0)], [(D, 0), (mface, mface - D)], [(mface, mface - D), (2.5, mface - D)]], "equity"),
                               (e, o["BH"][:, j0], [[(0, 0), (D, D)], [(D, D), (2.5, D)]], "debt")):
        mon.require(len(ax["points"]) == 1 and len(ax["lines"]) == len(lines), "payoff figure", what=what)
        compare(mon, ax["points"][0], np.column_stack([o["FH"][:, j0], v]), f"payoff figure: {what}", 1e-9)
        for got, want in zip(ax["lines"], lines):
            compare(mon, got, np.array(want), f"payoff figure, lines: {what}", 1e-9)

    def xy(v):
        return np.column_stack([o["mFt"], v])

    (ax,) = by["figure3_mVe.pdf"]
    compare(mon, ax["points"][0], xy(o["Et"]), "figure 3: equity value", 1e-9)
    (ax,) = by["figure4_mdef.pdf"]
    compare(mon, ax["points"][0], xy(o["mdef"]), "figure 4: default probability", 1e-9)
    compare(mon, ax["points"][1], xy(o["mertdef"]), "figure 4: Merton default probability", 1e-6)
    mon.check(ax["legend"] == ["Actual", "Merton Model"], "figure 4: legend", got=ax["legend"])
    (ax,) = by["figure5_panel_a_mdefsingles.pdf"]
    compare(mon, ax["points"][0], xy(o["mdef"]), "figure 5a: default probability", 1e-9)
    compare(mon, ax["points"][1], xy(o["mertdef"]), "figure 5a: Merton default probability", 1e-6)
    compare(mon, ax["lines"][0], xy(o["single cohort"]), "figure 5a: single cohort", 1e-4)
    compare(mon, ax["lines"][1], xy(o["single borrower"]), "figure 5a: single borrower", 1e-4)
    (ax,) = by["figure5_panel_b_mertalt.pdf"]
    compare(mon, ax["points"][0], xy(o["mdef"]), "figure 5b: default probability", 1e-9)
    compare(mon, ax["points"][1], xy(o["mertdef"]), "figure 5b: Merton default probability", 1e-6)
    compare(mon, ax["lines"][0], xy(o["xmertdef"]), "figure 5b: Merton formula at the modified model's values", 1e-9)


def surroundings():
    return (np.random.get_state()[1].tobytes(), np.random.get_state()[2], repr(warnings.filters), repr(np.geterr()),
            os.getcwd(), repr(sorted(os.environ.items())))


@workload(quick=8, thorough=16)
def table_and_figures(mon, rng, i):
    import matplotlib.pyplot as plt

    plt.close("all")
    sizes = [40, 80, 40, 120, 40, 80, 40, 120] if mon.tier == "quick" else [40, 80, 120, 160, 200, 240, 280, 320, 400, 480, 560, 640, 720, 800, 1000, 1200]
    n = sizes[i % len(sizes)]
    tmp = tempfile.mkdtemp(prefix="frds-sim-")
    here = os.getcwd()
    try:
        cwd, target = os.path.join(tmp, "cwd"), os.path.join(tmp, "target")
        os.mkdir(cwd)
        os.mkdir(target)
        os.chdir(cwd)
        with warnings.catch_warnings():
            # a caller's own filters and generator, which the study has no business with
            warnings.simplefilter("ignore")
            if i % 2:
                warnings.filterwarnings("error", message="frds-check")
            np.random.seed(int(rng.integers(0, 2**31)))
            before = surroundings()
            default = i % 4 == 3
            mon.describe(paths=n, default_folder=default)
            text, rows, seen = run(n, None if default else target)
            after = surroundings()
        mon.check(after == before, "the surroundings were changed: " + ", ".join(
            w for w, a, b in zip(("generator", "generator", "warning filters", "floating-point errors", "working directory", "environment"), before, after) if a != b))
        got = {d: sorted(os.listdir(d)) for d in (cwd, target)}
        mon.check(set(got[cwd if default else target]) == FIGURES and not got[target if default else cwd],
                  "files written", got=list(got.values()), default_folder=default)
        mon.check(all(open(os.path.join(cwd if default else target, f), "rb").read(5) == b"%PDF-" for f in got[cwd if default else target]),
                  "figures are PDF files")
    finally:
        os.chdir(here)
        shutil.rmtree(tmp, ignore_errors=True)
    judge(mon, n, rows, seen)
    mon.seen(n, i % 4, tuple(map(tuple, rows.values())))
    if n == 40 and i % 4 == 2:
        # the same again, with the figures of the first run still open: nothing is kept between runs
        tmp = tempfile.mkdtemp(prefix="frds-sim-")
        try:
            text2, _, seen2 = run(n, tmp)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        same = text == text2 and all(
            np.array_equal(p, q, equal_nan=True) for (_, x), (_, z) in zip(seen, seen2) for u, v in zip(x, z)
            for p, q in zip(u["points"] + u["lines"], v["points"] + v["lines"]))
        mon.check([[(len(u["points"]), len(u["lines"])) for u in x] for _, x in seen] == [[(len(u["points"]), len(u["lines"])) for u in x] for _, x in seen2],
                  "a second run draws over the figures of the first")
        mon.check(same, "a second run gives other numbers")
        mon.seen(n, "again")
