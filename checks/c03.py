"""C03: isolation-forest scores mean what the algorithm says.

For small frames the expected path length of every row is computed exactly (by
recursion over every sample, column and split row); the score of a forest of many
trees must agree with it within six standard errors, which are exact too.  For
larger frames an independent implementation grows its own forest.  Further oracles:
score ranges, index and names, equal rows, excluded columns, monotone
transformations, the frame left alone.
"""
import itertools
import math

import numpy as np
import pandas as pd

from lib import gen
from lib.mon import workload

RULE = """A case is one frame with forest size, tree size and seed; distinct by content and parameters.
Non-trivial when at least two rows differ on a used column."""
ASSUMPTIONS = [
    "agreement with the reference is statistical: six standard errors (exact for small frames)",
    "strings are ASCII without embedded NUL characters, as the library requires",
]
MIN_DISTINCT = 60
MIN_OBSERVED = {"rows compared with exact expectations": 150, "rows compared with a reference forest": 300,
                "frames with missing numbers": 5, "frames with strings": 5}


def setup(mon):
    global anomaly_scores
    from frds.algorithms.isolation_forest import anomaly_scores


def c(n):
    return 2 * (math.log(n - 1) + 0.57721566490153286) - 2 * (n - 1) / n


def key_of(v):
    """The order the property states: missing numbers first, strings by length."""
    if isinstance(v, str):
        return (1, len(v), v.encode())
    v = float(v)
    return (0, 0.0) if math.isnan(v) else (1, v)


def left(v, s):
    """Does the row with key v go left of a split at key s?"""
    if s[0] == 0:
        return v[0] == 0
    return v < s


def exact(rows, tree):
    """Mean and variance of the path length in one tree, for every row."""
    n, k = len(rows), len(rows[0])
    limit = math.ceil(math.log2(tree))
    memo = {}

    def go(x, S, h):
        # (E[length from here], E[length^2])
        key = (x, S, h)
        if key in memo:
            return memo[key]
        if len(S) <= 1 or h >= limit:
            add = c(len(S)) if len(S) > 1 else 0.0
            r = (add, add * add)
        else:
            m1 = m2 = 0.0
            w = 1.0 / (k * len(S))
            cache = {}
            for a in range(k):
                for s in S:
                    sv = rows[s][a]
                    ck = (a, sv)
                    if ck not in cache:
                        L = frozenset(j for j in S if left(rows[j][a], sv))
                        nxt = L if left(rows[x][a], sv) else S - L
                        e1, e2 = go(x, nxt, h + 1)
                        cache[ck] = (1 + e1, 1 + 2 * e1 + e2)
                    m1 += w * cache[ck][0]
                    m2 += w * cache[ck][1]
            r = (m1, m2)
        memo[key] = r
        return r

    mean, var = np.zeros(n), np.zeros(n)
    m2 = np.zeros(n)
    samples = list(itertools.combinations(range(n), min(tree, n)))
    for S in samples:
        fs = frozenset(S)
        for x in range(n):
            a, b = go(x, fs, 0)
            mean[x] += a / len(samples)
            m2[x] += b / len(samples)
    var = np.maximum(m2 - mean**2, 0)
    return mean, var


def small_frame(rng, n):
    cols = {}
    k = int(rng.integers(1, 4))
    for j in range(k):
        t = int(rng.integers(0, 5))
        if t == 0:
            v = rng.standard_normal(n)
        elif t == 1:
            v = rng.integers(-2, 3, n)
        elif t == 2:
            v = rng.standard_normal(n)
            v[rng.random(n) < 0.35] = np.nan
            if rng.random() < 0.4:
                v[int(rng.integers(0, n))] = rng.choice([np.inf, -np.inf])
        elif t == 3:
            v = np.array(["".join(rng.choice(list("aB1"), int(rng.integers(0, 4)))) for _ in range(n)], dtype=object)
        else:
            v = np.round(rng.standard_normal(n), 1).astype(np.float32)
        cols[f"c{j}"] = v
    return pd.DataFrame(cols)


def note(mon, df):
    kinds = [str(t) for t in df.dtypes]
    if any(df[x].dtype != object and df[x].isna().any() for x in df):
        mon.count("frames with missing numbers")
    if "object" in kinds:
        mon.count("frames with strings")
    return kinds


def paths(s, tree):
    return -np.log2(s) * c(tree)


@workload(quick=50, thorough=1200)
def against_exact_expectation(mon, rng, i):
    n = int(rng.integers(2, 8))
    tree = int(rng.choice([2, 3, 4, 5, 8, 16]))
    df = small_frame(rng, n)
    if rng.random() < 0.3:
        df.iloc[-1] = df.iloc[0]
    forest = 20_000
    kw = dict(forest_size=forest, tree_size=tree, random_seed=int(rng.integers(0, 2**31)))
    mon.describe(frame=df.astype(object).to_numpy().tolist(), dtypes=note(mon, df), **kw)
    num = [x for x in df if df[x].dtype != object]
    rows = [tuple(key_of(v) for v in r) for r in df[num + [x for x in df if x not in num]].itertuples(index=False)]
    mean, var = exact(rows, tree)
    s = anomaly_scores(df, **kw)["AnomalyScore"].to_numpy()
    mon.check(np.all((s >= 0) & (s <= 1)), "score outside [0, 1]", got=s)
    got = paths(s, tree)
    se = np.sqrt(var / forest)
    z = np.abs(got - mean) / np.maximum(se, 1e-9)
    mon.count("rows compared with exact expectations", n)
    mon.check(np.all(np.abs(got - mean) <= 6 * se + 1e-7), "path lengths differ from the algorithm's expectation",
              got=got, want=mean, standard_error=se, z=z)
    if len(set(rows)) > 1:
        mon.seen(rows, tree)


def depth_laws(m, limit):
    """Exact law of the vector of path lengths of m distinct values in one tree."""
    memo = {}

    def go(m, h):
        if (m, h) in memo:
            return memo[m, h]
        if m <= 1 or h >= limit:
            r = {(h + (c(m) if m > 1 else 0.0),) * m: 1.0}
        else:
            r = {}
            for j in range(m):
                for a, pa in go(j, h + 1).items():
                    for b, pb in go(m - j, h + 1).items():
                        r[a + b] = r.get(a + b, 0.0) + pa * pb / m
        memo[m, h] = r
        return r

    return go(m, 0)


@workload(quick=4, thorough=40)
def joint_law_of_a_tree(mon, rng, i):
    """Path lengths of all rows together in single trees grown from many seeds:
    the subtrees of a tree, and trees of different seeds, are independent."""
    from scipy.stats import chi2

    m, tree = [(5, 16), (4, 16), (5, 8), (6, 8)][i % 4]
    law = depth_laws(m, math.ceil(math.log2(tree)))
    values = np.sort(rng.standard_normal(m))
    df = pd.DataFrame({"v": values})
    N = 2500 if mon.tier == "quick" else 6000
    start = int(rng.integers(0, 2**30))
    mon.describe(rows=m, tree_size=tree, seeds=[start, N], shapes=len(law))
    codes = {tuple(np.round(k, 6)): j for j, k in enumerate(law)}
    expect = np.array(list(law.values())) * N
    seen = np.zeros(len(law))
    for s in range(start, start + N):
        got = tuple(np.round(paths(anomaly_scores(df, forest_size=1, tree_size=tree, random_seed=s)["AnomalyScore"].to_numpy(), tree), 6) + 0.0)
        if not mon.check(got in codes, "no tree has these path lengths", got=got):
            return
        seen[codes[got]] += 1
    big = expect >= 5
    e = np.append(expect[big], expect[~big].sum())
    o = np.append(seen[big], seen[~big].sum())
    if e[-1] < 5:
        j = int(np.argmax(e[:-1]))
        e[j] += e[-1]
        o[j] += o[-1]
        e, o = e[:-1], o[:-1]
    stat = float(np.sum((o - e) ** 2 / e))
    pval = float(chi2.sf(stat, len(e) - 1))
    mon.check(pval > 1e-9, "tree shapes do not follow the algorithm's law", statistic=stat, categories=len(e), p=pval,
              observed=o, expected=e)
    mon.count("trees of the joint law", N)
    mon.seen(m, tree, start)


@workload(quick=4, thorough=40)
def trees_are_independent(mon, rng, i):
    """The average over F independent trees has 1/F of a tree's variance."""
    from scipy.stats import chi2

    n = int(rng.integers(5, 8))
    tree = int(rng.choice([4, 8, 16]))
    df = pd.DataFrame({"v": rng.permutation(n) * 1.0})
    _, var = exact([tuple(key_of(v) for v in r) for r in df.itertuples(index=False)], tree)
    F, N = int(rng.choice([20, 60])), 400 if mon.tier == "quick" else 1500
    start = int(rng.integers(0, 2**30))
    mon.describe(rows=n, tree_size=tree, forest_size=F, seeds=[start, N])
    got = np.array([paths(anomaly_scores(df, forest_size=F, tree_size=tree, random_seed=s)["AnomalyScore"].to_numpy(), tree)
                    for s in range(start, start + N)])
    ratio = got.var(axis=0, ddof=1) / (var / F)
    # averages of F trees are close to normal: chi-square with room for their kurtosis
    lo, hi = chi2.ppf([1e-10, 1 - 1e-10], N - 1) / (N - 1)
    mon.check(np.all((ratio > lo * 0.9) & (ratio < hi * 1.1)), "the trees of a forest are not independent", variance_ratio=ratio)
    mon.count("forests of the variance comparison", N)
    mon.seen(n, tree, F, start)


def reference_forest(rng, df, forest, tree, rows=None):
    """Average path length and its variance per row (of rows), by an independent forest."""
    n = len(df)
    rows = np.arange(n) if rows is None else rows
    num = [x for x in df if df[x].dtype != object]
    cols = []
    for x in df:
        v = df[x].to_numpy()
        if x in num:
            v = v.astype(float)
            u = np.unique(v[~np.isnan(v)])
            cols.append(np.where(np.isnan(v), -1, np.searchsorted(u, v)))
        else:
            u = {w: r for r, w in enumerate(sorted(set(v), key=lambda w: (len(w), w.encode())))}
            cols.append(np.array([u[w] for w in v]))
    X = np.array(cols).T
    numeric = np.array([x in num for x in df])
    limit = math.ceil(math.log2(tree))
    tot, tot2 = np.zeros(n), np.zeros(n)
    for _ in range(forest):
        out = np.empty(n)
        S0 = rng.choice(n, min(tree, n), replace=False)
        stack = [(S0, rows, 0)]
        while stack:
            S, Q, h = stack.pop()
            if len(Q) == 0:
                continue
            if len(S) <= 1 or h >= limit:
                out[Q] = h + (c(len(S)) if len(S) > 1 else 0.0)
                continue
            a = int(rng.integers(0, X.shape[1]))
            v = X[S[int(rng.integers(0, len(S)))], a]
            if numeric[a] and v == -1:
                lS, lQ = X[S, a] == -1, X[Q, a] == -1
            else:
                lS, lQ = X[S, a] < v, X[Q, a] < v
            stack.append((S[lS], Q[lQ], h + 1))
            stack.append((S[~lS], Q[~lQ], h + 1))
        tot += out
        tot2 += out * out
    m = tot / forest
    return m[rows], np.maximum(tot2 / forest - m * m, 0)[rows]


@workload(quick=8, thorough=160)
def against_reference_forest(mon, rng, i):
    n = int(rng.choice([30, 60, 150, 400]))
    tree = int(rng.choice([8, 16, 50, 64, 256]))
    cols = {"a": rng.standard_normal(n), "b": rng.standard_t(3, n)}
    if rng.random() < 0.5:
        cols["m"] = np.where(rng.random(n) < 0.2, np.nan, rng.standard_normal(n))
    if rng.random() < 0.5:
        cols["s"] = np.array(["x" * int(rng.geometric(0.4)) + str(int(rng.integers(0, 3))) for _ in range(n)], dtype=object)
    if rng.random() < 0.5:
        cols["i"] = rng.poisson(1.5, n)
    df = pd.DataFrame(cols)
    ref, forest = 300, 3000
    kw = dict(forest_size=forest, tree_size=tree, random_seed=int(rng.integers(0, 2**31)))
    mon.describe(rows=n, dtypes=note(mon, df), **kw)
    mean, var = reference_forest(rng, df, ref, tree)
    s = anomaly_scores(df, **kw)["AnomalyScore"].to_numpy()
    got = paths(s, tree)
    se = np.sqrt((var + 0.05) * (1 / ref + 1 / forest))
    mon.count("rows compared with a reference forest", n)
    mon.check(np.all(np.abs(got - mean) <= 6.5 * se), "path lengths differ from a reference forest",
              worst=float(np.max(np.abs(got - mean) / se)), row=int(np.argmax(np.abs(got - mean) / se)))
    # averaged over rows most of the noise goes: a small bias everywhere shows here
    mon.check(np.abs(np.mean(got - mean)) <= 6.5 * np.mean(se), "path lengths are biased", got=float(np.mean(got - mean)))
    mon.seen(n, tree, kw["random_seed"])


@workload(quick=5, thorough=40)
def many_rows_columns_values(mon, rng, i):
    """Frames beyond 16 bits of rows, 8 bits of columns, or trees of thousands of rows."""
    if i % 5 in (0, 3):
        n, tree, ref, forest = int(rng.choice([66_000, 70_001, 90_000])), int(rng.choice([64, 256, 1000])), 250, 800
        # a cluster for each part of the frame: which rows are sampled shows in the scores
        part = np.searchsorted([2000, 20_000, 33_000, 65_400], np.arange(n), "right")
        cols = {"a": part * 5.0 + rng.standard_normal(n), "b": -part * 3.0 + rng.standard_normal(n) * 0.5}
        if i % 2:
            cols["s"] = np.array(["abcde"[k] * int(k + 1) for k in part], dtype=object)
        rows = np.concatenate([rng.choice(np.flatnonzero(part == k), 60, replace=False) for k in range(5)])
    elif i % 5 in (1, 4):
        n, tree, ref, forest = int(rng.choice([40, 100])), 32, 600, 3000
        k = int(rng.choice([260, 300, 520]))
        X = rng.standard_normal((n, k))
        # the columns beyond a power of two alone make these rows odd
        X[: n // 10, 256:] += 9
        cols = {f"c{j}": X[:, j] for j in range(k)}
        rows = np.arange(n)
    else:
        n, tree, ref, forest = 9000, int(rng.choice([4096, 5000, 8192])), 40, 300
        cols = {"a": rng.standard_normal(n), "b": rng.standard_t(3, n), "i": rng.poisson(3, n)}
        rows = rng.choice(n, 300, replace=False)
    df = pd.DataFrame(cols)
    kw = dict(forest_size=forest, tree_size=tree, random_seed=int(rng.integers(0, 2**31)))
    mon.describe(rows=n, columns=len(cols), **kw)
    mean, var = reference_forest(rng, df, ref, tree, rows)
    out = anomaly_scores(df, **kw)
    mon.require(out.shape == (n, 1) and np.isfinite(out.to_numpy()).all(), "one finite score per row")
    got = paths(out["AnomalyScore"].to_numpy()[rows], tree)
    se = np.sqrt((var + 0.05) * (1 / ref + 1 / forest))
    mon.check(np.all(np.abs(got - mean) <= 6.5 * se), "path lengths differ from a reference forest",
              worst=float(np.max(np.abs(got - mean) / se)), row=int(rows[np.argmax(np.abs(got - mean) / se)]))
    mon.check(np.abs(np.mean(got - mean)) <= 6.5 * np.mean(se), "path lengths are biased", got=float(np.mean(got - mean)))
    mon.count("rows of big frames compared", len(rows))
    mon.seen(n, tree, kw["random_seed"])


@workload(quick=12, thorough=60)
def alike_rows(mon, rng, i):
    """Rows that cannot be told apart: every path ends at the height limit, with all of them."""
    n = [9000, 5000, 300, 40][i % 4] + int(rng.integers(0, 400))
    tree = min(n, [8192, 4097, 4096, 2048, 256, 100, 64, 17][int(rng.integers(0, 8))] if i % 4 > 1 else 8192)
    cols = {"a": np.full(n, float(rng.choice([0.0, 1.5, -1e300, np.nan, np.inf]))), "s": ["same"] * n, "i": np.full(n, 7)}
    df = pd.DataFrame({k: cols[k] for k in list(cols)[: int(rng.integers(1, 4))]})
    kw = dict(forest_size=int(rng.integers(1, 12)), tree_size=tree, random_seed=int(rng.integers(0, 2**31)))
    mon.describe(rows=n, columns=list(df), value=cols["a"][0], **kw)
    got = anomaly_scores(df, **kw)["AnomalyScore"].to_numpy()
    # a tree of m such rows never separates them: ceil(log2 m) steps, then c(m) for the rest
    want = 2.0 ** -((math.ceil(math.log2(tree)) + c(tree)) / c(tree))
    mon.check(np.all(np.abs(got - want) <= 1e-12), "rows that cannot be told apart score otherwise", got=got[:3], want=want)
    mon.count("rows alike", n)
    mon.seen(n, tree, list(df), kw["random_seed"])


INDEXES = {
    "range": lambda rng, n: pd.RangeIndex(5, 5 + n),
    "shuffled": lambda rng, n: pd.Index(rng.permutation(n) * 3, name="id"),
    "duplicates": lambda rng, n: pd.Index(rng.integers(0, 3, n)),
    "strings": lambda rng, n: pd.Index([f"row{k}" for k in rng.permutation(n)], name="firm"),
    "dates": lambda rng, n: pd.date_range("2020-01-01", periods=n, freq="D", name="date"),
    "multi": lambda rng, n: pd.MultiIndex.from_arrays([rng.integers(0, 3, n), np.arange(n)], names=["y", "firm"]),
}


@workload(quick=60, thorough=2000)
def shape_and_invariance(mon, rng, i):
    n = int(rng.choice([1, 2, 3, 10, 64, 65, 150]))
    iname = list(INDEXES)[i % len(INDEXES)]
    df = small_frame(rng, n)
    if n > 4:  # equal rows
        df.iloc[n // 2] = df.iloc[0]
        df.iloc[n - 1] = df.iloc[0]
    df.index = INDEXES[iname](rng, n)
    tree = int(rng.choice([1, 2, 3, 8, 64, 256, 257]))
    kw = dict(forest_size=int(rng.choice([1, 5, 30, 101])), tree_size=tree, random_seed=int(rng.integers(0, 2**31)))
    name = str(rng.choice(["AnomalyScore", "score", "n0"]))
    mon.describe(rows=n, index=iname, dtypes=note(mon, df), name=name, **kw)
    before = gen.snapshot(df)
    dtypes, cols, idx = list(df.dtypes), list(df.columns), df.index.copy()
    out = anomaly_scores(df, name=name, **kw)
    mon.check(gen.snapshot(df) == before and list(df.dtypes) == dtypes and list(df.columns) == cols
              and df.index.equals(idx), "the caller's frame was modified")
    mon.require(isinstance(out, pd.DataFrame) and list(out.columns) == [name] and len(out) == n,
                "one score per row under the requested name", got=str(out)[:200])
    mon.check(out.index.equals(idx) and list(out.index.names) == list(idx.names), "index of the result",
              got=list(out.index)[:10])
    s = out[name].to_numpy().copy()
    mon.check(s.dtype == np.float64 and np.all(np.isfinite(s)) and np.all((s >= 0) & (s <= 1)),
              "score outside [0, 1]", got=s)

    groups = {}
    for r, v in zip(df.itertuples(index=False), s):
        k = tuple(key_of(x) for x in r)
        mon.check(groups.setdefault(k, v) == v, "equal rows get different scores", row=list(r))

    def again(d, **extra):
        return anomaly_scores(d, **dict(kw, **extra))["AnomalyScore"].to_numpy()

    # the index has no influence
    mon.check(np.array_equal(again(df.reset_index(drop=True)), s), "the index influences the scores")
    # excluded and unusable columns have no influence
    noisy = df.copy()
    where = int(rng.integers(0, len(cols) + 1))
    noisy.insert(where, "junk", rng.standard_normal(n))
    noisy.insert(int(rng.integers(0, len(cols) + 2)), "junk2", np.array(["q" * int(k) for k in rng.integers(0, 60, n)], dtype=object))
    ex = ["junk", "junk2"]
    got = again(noisy, exclude_cols=ex)
    mon.check(np.array_equal(got, s), "excluded columns influence the scores")
    mon.check(ex == ["junk", "junk2"] and list(noisy.columns).count("junk") == 1, "the list of excluded columns was modified")
    flags = df.copy()
    flags["flag"] = rng.random(n) < 0.5
    mon.check(np.array_equal(again(flags, exclude_cols=["flag"]), s), "excluded columns influence the scores", which="flag")
    # strictly increasing transformations of numeric columns
    t = df.copy()
    for x in cols:
        if t[x].dtype != object:
            v = t[x].to_numpy(dtype=float) + 0.0
            u = np.unique(v[~np.isnan(v)])
            image = increasing(rng, len(u))
            w = np.full(n, np.nan)
            ok = ~np.isnan(v)
            if len(u):
                w[ok] = image[np.searchsorted(u, v[ok])]
            t[x] = w
    mon.check(np.array_equal(again(t), s), "a strictly increasing transformation changes the scores")
    # a string column and the numeric column of its ranks are split alike
    strings = [x for x in cols if df[x].dtype == object]
    if len(strings) == 1:
        x = strings[0]
        ranks = {w: float(r) for r, w in enumerate(sorted(set(df[x]), key=lambda w: (len(w), w.encode())))}
        t = df.drop(columns=[x])
        t["ranks"] = df[x].map(ranks).astype(float)
        mon.check(np.array_equal(again(t), s), "strings are not ordered by length, then alphabetically")
    if len(groups) > 1:
        mon.seen(n, iname, tree, kw["random_seed"])


def increasing(rng, k):
    """k strictly increasing numbers, of any scale and as close as doubles get."""
    style = int(rng.integers(0, 5))
    if style == 4:  # up to the largest doubles and beyond
        ends = [-np.inf, -1.7976931348623157e308, -1.7976931348623155e308, 1e308, 1.7976931348623155e308, 1.7976931348623157e308, np.inf]
        pick = sorted(rng.choice(7, min(k, 7, int(rng.integers(1, 8))), replace=False))
        v = np.concatenate([[ends[j] for j in pick], rng.standard_normal(k - len(pick)) * 1e300])
        v.sort()
        return v if np.all(v[1:] > v[:-1]) else np.arange(k) * 1.0
    if style == 0:
        return np.cumsum(gen.log_uniform(rng, 1e-3, 1e3, k)) - rng.uniform(0, 100)
    if style == 1:  # neighbouring doubles
        start = np.array([gen.log_uniform(rng, 1e-200, 1e200) * rng.choice([-1, 1])])
        return (start.view(np.int64) + (1 if start[0] > 0 else -1) * np.arange(k)).view(np.float64)
    if style == 2:  # integers
        return (np.arange(k) - k // 2) * 1.0 + float(rng.choice([0, 2**31, 2**52, -2**52]))
    x = rng.standard_normal(k)  # all magnitudes
    x = np.sort(np.sign(x) * np.exp(np.abs(x) * rng.choice([3, 30, 120])))
    return x if np.all(np.diff(x) > 0) else np.arange(k) * 1.0


@workload(quick=40, thorough=1500)
def order_of_values(mon, rng, i):
    """The trees see the order of a column's values only, whatever the values are."""
    n = int(rng.choice([2, 5, 20, 64, 200]))
    k = int(rng.integers(1, n + 1))
    rank = rng.integers(0, k, n)
    kw = dict(forest_size=60, tree_size=int(rng.choice([4, 16, 64])), random_seed=int(rng.integers(0, 2**31)))
    base = anomaly_scores(pd.DataFrame({"x": rank * 1.0}), **kw).to_numpy()
    kind = ["numbers", "strings", "strings"][i % 3]
    if kind == "numbers":
        v = increasing(rng, k)
        mon.require(np.all(v[1:] > v[:-1]), "harness: values are increasing")
        col = v[rank]
        if rng.random() < 0.5 and np.all(v == np.round(v)) and np.all(np.abs(v) < 2**62):
            col = col.astype(np.int64)
        df = pd.DataFrame({"x": col})
    else:
        # of equal length, sharing prefixes of any length; or of various lengths
        width = int(rng.choice([1, 3, 8, 9, 17, 33, 70, 300]))
        alphabet = [chr(j) for j in range(33, 127)] if rng.random() < 0.5 else list("ab")
        words = set()
        stem = "".join(rng.choice(alphabet, width))
        for _ in range(40 * k):
            if len(words) >= k:
                break
            w = list(stem)
            for j in rng.integers(0, width, int(rng.integers(1, 4))):
                w[int(j)] = str(rng.choice(alphabet))
            w = "".join(w)
            words.add(w if rng.random() < 0.7 else w[: int(rng.integers(0, width + 1))])
        words = sorted(words, key=lambda w: (len(w), w.encode()))
        rank = rng.integers(0, len(words), n)
        base = anomaly_scores(pd.DataFrame({"x": rank * 1.0}), **kw).to_numpy()
        df = pd.DataFrame({"x": np.array([words[r] for r in rank], dtype=object)})
    mon.describe(kind=kind, rows=n, values=df["x"].tolist()[:20], **kw)
    mon.check(np.array_equal(anomaly_scores(df, **kw).to_numpy(), base), "the scores depend on more than the order of " + kind)
    if len(set(rank)) > 1:
        mon.seen(kind, df["x"].tolist(), kw["random_seed"])


DTYPES = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float16", "float32", "float64",
          "longdouble", "Int8", "Int64", "UInt16", "Float32", "Float64"]


@workload(quick=51, thorough=500)
def numeric_dtypes(mon, rng, i):
    """Numbers count the same whatever type holds them."""
    n = int(rng.choice([5, 30, 100]))
    names = [DTYPES[i % len(DTYPES)]] + [str(x) for x in rng.choice(DTYPES, int(rng.integers(0, 4)))]
    cols, plain = {}, {}
    for j, t in enumerate(names):
        low = t.lower()
        v = rng.integers(0 if low.startswith("u") else -60, 100, n) * (0.5 if low.startswith(("float", "long")) else 1.0)
        if low.endswith("64") and rng.random() < 0.5:
            v = v * 2.0**40
        if low.startswith("float") and rng.random() < 0.5:
            v[rng.random(n) < 0.2] = np.nan
        cols[f"c{j}"] = pd.Series(v).astype(t)
        plain[f"c{j}"] = v
        if t[0] in "IUF":
            mon.count("nullable columns")
    kw = dict(forest_size=80, tree_size=int(rng.choice([4, 16, 64])), random_seed=int(rng.integers(0, 2**31)))
    mon.describe(rows=n, dtypes=names, values=list(plain.values())[0], **kw)
    got = anomaly_scores(pd.DataFrame(cols), **kw).to_numpy()
    mon.check(np.array_equal(got, anomaly_scores(pd.DataFrame(plain), **kw).to_numpy()), "the type that holds a number changes the scores")
    mon.seen(names, plain["c0"], kw["random_seed"])


@workload(quick=8, thorough=150)
def defaults(mon, rng, i):
    n = int(rng.integers(50, 200))
    X = rng.standard_normal((n, 2))
    order = rng.permutation(n)
    df = pd.DataFrame(X[order], columns=["a", "b"], index=order)
    mon.describe(rows=n)
    out = anomaly_scores(df)
    mon.check(list(out.columns) == ["AnomalyScore"], "default name", got=list(out.columns))
    want = anomaly_scores(df, forest_size=1000, tree_size=256, exclude_cols=None, random_seed=1021)
    mon.check(np.array_equal(out.to_numpy(), want.to_numpy()), "defaults are not the documented ones")
    mon.seen(n)
