"""C24: the bundled stock returns are intact for every reader.

Histories of reads and edits (in place, of values, labels, index, attributes) run
against a model: the table parsed from the shipped file with the standard library.
After every step the data set is read again and must equal the model.  Further
histories: first reads racing in threads, other working directories, fresh processes.
"""
import copy
import csv
import datetime
import io
import os
import subprocess
import sys
import threading
import zipfile

import numpy as np
import pandas as pd

from lib.mon import workload

RULE = """A case is one history of reads, edits of frames handed out, provider constructions, changes of
the working directory or concurrent first reads; distinct by the sequence of operations. Non-trivial when at
least one read followed an edit, another reader or a change of environment."""
ASSUMPTIONS = ["values are compared with the decimal text of the file up to 1e-10 relative (decimal parsing), between reads exactly"]
MIN_DISTINCT = 30
MIN_OBSERVED = {"reads compared with the file": 200, "edits": 150, "concurrent reads": 20, "fresh processes": 3}
SERIES = {"^GSPC", "GOOGL", "GS", "JPM"}


def setup(mon):
    global datasets, Provider, TRUE
    import frds.datasets as datasets

    Provider = type(datasets.StockReturns)
    path = os.path.join(os.environ["FRDS_TREE"], "src", "frds", "datasets", "stocks_us.csv.zip")
    with zipfile.ZipFile(path) as z:
        rows = list(csv.reader(io.TextIOWrapper(z.open(z.namelist()[0]), encoding="utf-8")))
    head = rows[0]
    dates = [datetime.date.fromisoformat(r[0][:10]) for r in rows[1:]]
    TRUE = dict(columns=head[1:], dates=dates, values=np.array([[float(x) for x in r[1:]] for r in rows[1:]]))
    mon.describe(rows=len(dates))


FIRST = None


def verify(mon, df, when):
    global FIRST
    mon.count("reads compared with the file")
    mon.require(isinstance(df, pd.DataFrame), "not a data frame", got=type(df).__name__)
    mon.check(set(df.columns) == SERIES, "the four series", got=list(df.columns), when=when)
    mon.require(list(df.columns) == TRUE["columns"], "columns differ from the file", got=list(df.columns), when=when)
    mon.require(df.shape == TRUE["values"].shape, "rows differ from the file", got=df.shape, want=TRUE["values"].shape, when=when)
    mon.check(df.index.name == "Date" and isinstance(df.index, pd.DatetimeIndex), "index is not the dates",
              got=[str(df.index.name), type(df.index).__name__], when=when)
    mon.check([t.date() for t in df.index[:: max(1, len(df) // 50)]] == TRUE["dates"][:: max(1, len(df) // 50)]
              and np.array_equal(df.index.to_numpy().astype("M8[D]"), np.array(TRUE["dates"], dtype="M8[D]")),
              "dates differ from the file", when=when)
    mon.check(df.index.is_monotonic_increasing and df.index.is_unique, "dates are not sorted", when=when)
    mon.check(all(t == np.float64 for t in df.dtypes), "types of the columns", got=[str(t) for t in df.dtypes], when=when)
    mon.check(not df.isna().to_numpy().any(), "missing values", when=when)
    mon.close(df.to_numpy(), TRUE["values"], "values differ from the file", rtol=1e-10, atol=1e-17, when=when)
    mon.check(not df.attrs and df.columns.name is None, "attributes left by an earlier reader",
              got=[str(df.attrs), str(df.columns.name)], when=when)
    mon.check(df.flags.allows_duplicate_labels, "flags left by an earlier reader", when=when)
    if FIRST is None:
        FIRST = (df.to_numpy().copy(), df.index.to_numpy().copy())
    mon.check(np.array_equal(df.to_numpy(), FIRST[0]) and np.array_equal(df.index.to_numpy(), FIRST[1]),
              "two accesses give different contents", when=when)


def e_cell(d, r): d.iloc[int(r.integers(len(d))), int(r.integers(d.shape[1]))] = 99.0
def e_column(d, r): d[d.columns[int(r.integers(d.shape[1]))]] = np.nan
def e_inplace(d, r): d *= 100
def e_series(d, r): s = d["GOOGL"]; s += 1
def e_log(d, r): np.log1p(d.to_numpy(), out=d.to_numpy())
def e_add(d, r): d["extra"] = 1.0
def e_drop(d, r): d.drop(columns=[d.columns[0]], inplace=True)
def e_dropna(d, r): d.iloc[3, 1] = np.nan; d.dropna(inplace=True)
def e_sort(d, r): d.sort_index(ascending=False, inplace=True)
def e_sortv(d, r): d.sort_values("JPM", inplace=True)
def e_rename(d, r): d.rename(columns={"GS": "X"}, inplace=True)
def e_cols(d, r): d.columns = list("abcd")
def e_reset(d, r): d.reset_index(inplace=True)
def e_iname(d, r): d.index.name = "day"; d.columns.name = "ticker"
def e_labels(d, r): d.columns.values[0] = "FOO"
def e_dates(d, r): d.index.values[0] = 0
def e_attrs(d, r): d.attrs["seen"] = True
def e_dups(d, r): d.flags.allows_duplicate_labels = False
def e_fill(d, r): d.iloc[:, :] = 0.0
def e_loc(d, r): d.loc["2015"] = 7.0
def e_shift(d, r): d.index = d.index.shift(1, freq="D")
def e_where(d, r): d.where(d > 0, 0.0, inplace=True)
def e_pop(d, r): d.pop("JPM")
def e_raw(d, r): d.to_numpy()[:5] = -1
def e_insert(d, r): d.insert(0, "first", 0.0)
def e_append(d, r): d.loc[pd.Timestamp("2030-01-01")] = 0.0
def e_view(d, r): v = d.iloc[:10]; v.to_numpy()[...] = 3.0
def e_values(d, r): d["GS"].to_numpy()[:] = 1.0


EDITS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("e_")}


def edit(mon, name, df, rng):
    mon.count("edits")
    try:
        with pd.option_context("mode.chained_assignment", None):
            EDITS[name](df, rng)
    except ValueError as e:  # a read-only view is as good as a copy
        mon.count("edits refused by pandas")


@workload(quick=60, thorough=1500)
def histories(mon, rng, i):
    names = list(EDITS)
    k = int(rng.integers(2, 6))
    ops = [names[i % len(names)]] + [names[int(rng.integers(len(names)))] for _ in range(k)]
    mon.describe(edits=ops)
    held = []
    for op in ops:
        df = datasets.StockReturns.stocks_us
        held.append((df, df.copy()) if rng.random() < 0.3 else (None, None))
        edit(mon, op, df.copy(deep=False) if rng.random() < 0.15 and op not in ("labels", "dates") else df, rng)
        p = Provider() if rng.random() < 0.4 else datasets.StockReturns
        mon.check(p is datasets.StockReturns, "constructing the provider gives another provider")
        verify(mon, p.stocks_us, "after " + op)
    # two frames handed out do not share their data
    a, b = datasets.StockReturns.stocks_us, datasets.StockReturns.stocks_us
    edit(mon, "fill", a, rng)
    verify(mon, b, "after an edit of another frame")
    mon.seen(ops)


@workload(quick=8, thorough=60)
def directories(mon, rng, i):
    cwd = os.getcwd()
    d = os.path.join(cwd, f"dir{os.getpid()}-{i}")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "stocks_us.csv.zip"), "w") as f:
        f.write("not this one")
    try:
        os.chdir(d)
        verify(mon, datasets.StockReturns.stocks_us, "in another directory")
        edit(mon, list(EDITS)[i % len(EDITS)], datasets.StockReturns.stocks_us, rng)
    finally:
        os.chdir(cwd)
    verify(mon, datasets.StockReturns.stocks_us, "back in the first directory")
    mon.seen(i)


@workload(quick=14, thorough=100)
def threads(mon, rng, i):
    """Readers that edit what they get, all at once."""
    k = int(rng.integers(2, 9))
    names = [list(EDITS)[int(x)] for x in rng.integers(0, len(EDITS), k)]
    barrier = threading.Barrier(k)
    out, errors = [None] * k, []
    seeds = rng.integers(0, 2**31, k)
    mon.describe(threads=k, edits=names)

    def go(n):
        r = np.random.default_rng(int(seeds[n]))
        try:
            barrier.wait()
            for _ in range(3):
                d = datasets.StockReturns.stocks_us
                try:
                    EDITS[names[n]](d, r)
                except ValueError:
                    pass
            out[n] = datasets.StockReturns.stocks_us
        except Exception as e:
            errors.append(f"{names[n]}: {e!r}")

    ts = [threading.Thread(target=go, args=(n,)) for n in range(k)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    mon.check(not errors, "a concurrent reader failed", errors=errors)
    for n in range(k):
        mon.count("concurrent reads")
        if out[n] is not None:
            verify(mon, out[n], "while others read and edit")
    mon.seen(k, names)


CHILD = r"""
import sys, threading, hashlib, os
sys.setswitchinterval(1e-6)
how = sys.argv[1]
if how == "chdir":
    os.chdir("/")
got = []
if how == "delays":
    # hold threads up at lines of the provider, so that the others overtake them there
    import random, time
    rnd = random.Random(int(sys.argv[2]))
    def lines(frame, event, arg):
        if event == "line" and rnd.random() < 0.5:
            time.sleep(rnd.random() * 0.2)
        return lines
    def calls(frame, event, arg):
        if os.path.basename(frame.f_code.co_filename) == "_stocks.py":
            return lines
    threading.settrace(calls)
barrier = threading.Barrier(6 if how != "one" else 1)
def go():
    barrier.wait()
    import frds.datasets as d
    if how == "delays":
        import random, time
        time.sleep(random.Random(int(sys.argv[2]) + threading.get_native_id()).random() * 0.3)
    import frds.datasets as d
    f = d.StockReturns.stocks_us
    if how == "edit":
        f.iloc[:, :] = 1.0
        f = d.StockReturns.stocks_us
    got.append(hashlib.sha1(f.to_numpy().tobytes() + f.index.to_numpy().astype("M8[D]").tobytes() + repr(list(f.columns)).encode()).hexdigest())
ts = [threading.Thread(target=go) for _ in range(6 if how != "one" else 1)]
[t.start() for t in ts]; [t.join() for t in ts]
import frds.datasets as d
f = d.StockReturns.stocks_us
assert len(got) == len(ts)
print(len(set(got)), got[0])
"""


@workload(quick=6, thorough=48)
def processes(mon, rng, i):
    """First reads, in fresh interpreters, from racing threads."""
    import hashlib

    how = ["threads", "chdir", "edit", "one", "delays", "delays"][i % 6]
    mon.describe(how=how)
    p = subprocess.run([sys.executable, "-c", CHILD, how, str(int(rng.integers(1 << 30)))], capture_output=True, text=True, timeout=300)
    mon.count("fresh processes")
    mon.require(p.returncode == 0, "a fresh process cannot read the data", stderr=p.stderr[-1500:])
    f = datasets.StockReturns.stocks_us
    verify(mon, f, "before comparison with a fresh process")
    want = hashlib.sha1(f.to_numpy().tobytes() + f.index.to_numpy().astype("M8[D]").tobytes() + repr(list(f.columns)).encode()).hexdigest()
    mon.check(p.stdout.split() == ["1", want], "a fresh process reads other data", got=p.stdout)
    mon.seen(how, i)


@workload(quick=2, thorough=6)
def provider(mon, rng, i):
    """The provider is one object; copies of it read the same data."""
    mon.check(Provider() is datasets.StockReturns and Provider() is Provider(), "constructing the provider gives another provider")
    from frds.datasets import StockReturns

    mon.check(StockReturns is datasets.StockReturns, "another provider")
    a = copy.deepcopy(StockReturns).stocks_us
    verify(mon, a, "through a copy of the provider")
    mon.check(abs((StockReturns.stocks_us.index[0] - pd.Timestamp("2010-01-05")).days) < 5
              and StockReturns.stocks_us.index[-1].year == 2022, "the years 2010 to 2022",
              got=[str(StockReturns.stocks_us.index[k]) for k in (0, -1)])
    mon.seen(i)
