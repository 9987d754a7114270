"""Outer side of a check: builds, worker processes, verdict, evidence.

    python -m lib.runner C04             one check (VERIF_SEED, VERIF_TIER)
    python -m lib.runner C04 --replay F  run again the case of a replay file

Verdicts: exit 0 held on everything explored; exit 1 with a VIOLATION line;
exit 3 inconclusive (the monitor observed too little); exit 2 the check broke.
"""
import importlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from lib import build  # noqa: E402

EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Inconclusive(Exception):
    pass


def cpu_ticks(pid):
    """CPU time of one of our own workers (user+system, all threads)."""
    try:
        with open(f"/proc/{pid}/stat") as f:
            p = f.read().rsplit(")", 1)[1].split()
        return int(p[11]) + int(p[12])
    except (OSError, IndexError, ValueError):
        return None


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.monotonic()
        self.scratch = build.scratch(f"frds-{prop}-")
        self.trees = {}
        self.cases = self.skipped = self.checks = 0
        self.counters, self.kinds, self.per_workload = {}, {}, {}
        self.distinct = set()
        self.samples, self.violations, self.notes = [], [], []
        self.planned = 0
        self.njob = 0

    @property
    def thorough(self):
        return self.tier == "thorough"

    # -- builds --------------------------------------------------------------
    def tree(self, variant="plain"):
        if variant not in self.trees:
            d = os.path.join(self.scratch, variant)
            build.make_tree(d)
            build.build(d, variant, log=os.path.join(self.scratch, variant + ".log"))
            if variant == "none":
                for root, _, files in os.walk(d):
                    for f in files:
                        if f.endswith(".so"):
                            raise RuntimeError("extension in the fallback tree")
            self.trees[variant] = d
        return self.trees[variant]

    # -- workers -------------------------------------------------------------
    def start(self, module, variant="plain", mode="", shard=0, shards=1, only=None,
              scale=1.0, budget_s=None, env=None, replay=None, wrap=()):
        tree = self.tree(variant)
        self.njob += 1
        base = os.path.join(self.scratch, f"job{self.njob}")
        job = dict(
            verif=VERIF, tree=tree, module=module, property=self.prop, seed=self.seed,
            tier=self.tier, variant=variant, mode=mode, shard=shard, shards=shards,
            only=only, scale=scale, replay=replay, out=base + ".out.json",
            progress=base + ".progress",
            budget_s=budget_s or (600 if self.thorough else 240),
        )
        with open(base + ".json", "w") as f:
            json.dump(job, f)
        e = build.base_env()
        e["PYTHONPATH"] = os.path.join(tree, "src")
        e["PYTHONSAFEPATH"] = "1"
        e["FRDS_TREE"] = tree
        e.update(build.variant_env(variant, base))
        e.update(env or {})
        cmd = list(wrap) + [build.PY, os.path.join(VERIF, "lib", "mon.py"), base + ".json"]
        err = open(base + ".err", "w")
        p = subprocess.Popen(cmd, env=e, cwd=self.scratch, stdout=err, stderr=err,
                             stdin=subprocess.DEVNULL, start_new_session=True)
        return dict(p=p, job=job, base=base, err=err)

    def wait(self, jobs, timeout=None):
        """Wait for the workers; report crashes and deadlocks; merge results."""
        timeout = timeout or (840 if self.thorough else 600)
        end = time.monotonic() + timeout
        watch = {}
        todo = list(jobs)
        while todo:
            for w in list(todo):
                pid = w["p"].pid
                if w["p"].poll() is not None:
                    todo.remove(w)
                    self.collect(w)
                    continue
                # bounded progress on logical evidence: no CPU time spent and no
                # case finished for a long time means every thread waits
                t = time.monotonic()
                try:
                    prog = os.stat(w["job"]["progress"]).st_mtime_ns
                except OSError:
                    prog = None
                cur = (cpu_ticks(pid), prog)
                last = watch.get(pid)
                if last is None or last[0] != cur:
                    watch[pid] = (cur, t)
                elif prog is not None and t - last[1] > 60:
                    self.kill(w)
                    todo.remove(w)
                    self.worker_violation(w, "deadlock", "the case makes no progress: no thread runs")
                    continue
                if t > end:
                    for x in todo:
                        self.kill(x)
                    raise Inconclusive(f"worker exceeded {timeout} s")
            time.sleep(0.05)

    def kill(self, w):
        try:
            os.killpg(w["p"].pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        w["p"].wait()
        w["err"].close()

    def last_case(self, w):
        try:
            return json.loads(open(w["job"]["progress"]).read())
        except Exception:
            return ["?", 0]

    def worker_violation(self, w, kind, message, **details):
        name, i = self.last_case(w)
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        self.violations.append(
            dict(property=self.prop, kind=kind, message=message, workload=name, case=i,
                 seed=self.seed, tier=self.tier, variant=w["job"]["variant"],
                 mode=w["job"]["mode"], input={}, details=details)
        )

    def stderr(self, w, n=6000):
        with open(w["base"] + ".err", errors="replace") as f:
            text = f.read()
        i = max(text.find("Fatal Python error"), 0)
        return text[max(i - 2000, 0):i + n // 2] + text[-n // 2:] if len(text) > n else text

    def collect(self, w):
        w["err"].close()
        rc = w["p"].returncode
        w["rc"] = rc
        self.planned += 0
        if os.path.exists(w["job"]["out"]) and rc >= 0:
            r = json.load(open(w["job"]["out"]))
            w["result"] = r
            self.merge(r)
            reports = build.sanitizer_reports(w["base"], w["job"]["variant"])
            for kind, message, text in reports[:3]:
                self.worker_violation(w, kind, message, report=text[:5000])
            if rc != 0 and not reports:
                # a sanitizer's exit code, or a crash at interpreter shutdown
                self.worker_violation(w, f"worker exit status {rc}", "the worker failed at its end",
                                      stderr=self.stderr(w))
            return
        if rc < 0 and -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL):
            self.worker_violation(w, f"crash {signal.Signals(-rc).name}",
                                  "the process died in this case", stderr=self.stderr(w))
            return
        reports = build.sanitizer_reports(w["base"], w["job"]["variant"])
        if reports:
            # halted by the sanitizer
            self.worker_violation(w, reports[0][0], reports[0][1], report=reports[0][2][:5000])
            return
        raise RuntimeError(f"worker ended with {rc}:\n{self.stderr(w)}")

    def merge(self, r):
        self.cases += r["cases"]
        self.skipped += r["skipped"]
        self.checks += r["checks"]
        self.planned += r["planned"]
        for a, b in ((self.counters, r["counters"]), (self.kinds, r["kinds"]),
                     (self.per_workload, r["per_workload"])):
            for k, v in b.items():
                a[k] = a.get(k, 0) + v
        self.distinct.update(r["distinct"])
        if len(self.samples) < 12:
            self.samples += r["samples"][: 12 - len(self.samples)]
        self.violations += r["violations"]

    def run_shards(self, module, shards=4, **kw):
        jobs = [self.start(module, shard=k, shards=shards, **kw) for k in range(shards)]
        self.wait(jobs)
        return jobs

    def violation(self, kind, message, workload="orchestration", **details):
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        self.violations.append(
            dict(property=self.prop, kind=kind, message=message, workload=workload, case=0,
                 seed=self.seed, tier=self.tier, variant="", mode="", input={}, details=details)
        )

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def known_findings(prop):
    """Unrepaired findings: lines `finding: property=<id> kind=<regex> :: what fails`."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"finding: property=(\S+) kind=(.+?) :: (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def write_evidence(run, mod, violations):
    os.makedirs(EVID, exist_ok=True)
    ev = dict(
        property=run.prop, tier=run.tier, seed=run.seed,
        level=getattr(mod, "LEVEL", "exploration"),
        coverage=dict(
            evaluations=run.cases,
            distinct_nontrivial=len(run.distinct),
            rule=" ".join(mod.RULE.split()),
            samples=run.samples,
            oracle_checks=run.checks,
            skipped_cases=run.skipped,
            planned_cases=run.planned,
            cases_per_workload=dict(sorted(run.per_workload.items())),
            observed=dict(sorted(run.counters.items())),
            notes=run.notes,
            exhaustive=False,
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(time.monotonic() - run.t0, 2),
        violations=violations,
    )
    path = os.path.join(EVID, run.prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    replay = None
    if len(argv) > 2 and argv[1] == "--replay":
        replay = json.load(open(argv[2]))
        tier, seed = replay["tier"], replay["seed"]
    mod = importlib.import_module("checks." + prop.lower())
    run = Run(prop, tier, seed)
    try:
        try:
            if replay:
                if hasattr(mod, "replay"):
                    mod.replay(run, replay)
                else:
                    w = run.start(prop.lower(), variant=replay["variant"] or "plain",
                                  mode=replay["mode"], replay=[[replay["workload"], replay["case"]]])
                    run.wait([w])
            elif hasattr(mod, "orchestrate"):
                mod.orchestrate(run)
            else:
                run.run_shards(prop.lower(), shards=getattr(mod, "SHARDS", 4),
                               variant=getattr(mod, "BUILD", "plain"))
        except build.BuildError as e:
            print(f"{prop}: the tree does not build\n{e}", file=sys.stderr)
            return 2
        except subprocess.TimeoutExpired as e:
            print(f"{prop}: build timeout {e}", file=sys.stderr)
            return 3
        except Inconclusive as e:
            if not run.violations:
                print(f"{prop}: inconclusive: {e}", file=sys.stderr)
                return 3
            run.notes.append(f"stopped early: {e}")
        findings = known_findings(prop)
        real, hit = [], {}
        for v in run.violations:
            for rx, what in findings:
                if rx.search(v["kind"] + " | " + v["message"]):
                    hit[what] = hit.get(what, 0) + 1
                    break
            else:
                real.append(v)
        for what in hit:
            print(f"KNOWN-FINDING: property={prop} {what}")
        if not replay:
            write_evidence(run, mod, len(real))
        if real:
            d = os.path.join(EVID, "replays")
            os.makedirs(d, exist_ok=True)
            if not replay:
                for f in os.listdir(d):
                    if f.startswith(prop + "-"):
                        os.unlink(os.path.join(d, f))
            first = None
            for n, v in enumerate(real[:10], 1):
                path = os.path.join(d, f"{prop}-{'replayed-' if replay else ''}{n}.json")
                with open(path, "w") as f:
                    json.dump(v, f, indent=1)
                first = first or path
                print(f"# {prop} {v['workload']}[{v['case']}] {v['kind']}: {v['message'][:300]}")
            print(f"# kinds: {json.dumps(run.kinds)}")
            print(f"VIOLATION property={prop} replay={os.path.relpath(first, VERIF)}")
            return 1
        if replay:
            print(f"{prop}: the replayed case passes")
            return 0
        floor = getattr(mod, "MIN_DISTINCT", 10)
        if len(run.distinct) < floor:
            print(f"{prop}: inconclusive: only {len(run.distinct)} distinct non-trivial cases", file=sys.stderr)
            return 3
        for key, n in getattr(mod, "MIN_OBSERVED", {}).items():
            if run.counters.get(key, 0) < n:
                print(f"{prop}: inconclusive: observed {run.counters.get(key, 0)} x {key!r}, need {n}",
                      file=sys.stderr)
                return 3
        print(f"{prop}: held on {run.cases} cases, {run.checks} oracle checks, "
              f"{len(run.distinct)} distinct, {time.monotonic() - run.t0:.1f} s")
        return 0
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        run.cleanup()


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
