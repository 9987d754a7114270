"""Turn bug specifications into /verif/seeded/<id>/, after confirming each one.

usage: seed.py SPEC.py [id ...]

A SPEC.py defines BUGS, a list of dicts with the keys id, property, needs, what, edits (a list of
(path below src/frds, old, new)) and demo (the text of demo.py; common helpers in HEAD are put before
it).  Each bug is applied to a copy of /repo that is mounted over /repo in a private mount namespace,
where build.sh, test.sh and the demonstration are run.
"""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

OUT = "/verif/seeded"
TMP = "/tmp/seedwork"

SCRIPT = r"""
set -e
mount --bind {work}/repo /repo
mkdir -p {work}/reports /opt/vp/reports
mount --bind {work}/reports /opt/vp/reports
cd /repo
bash /opt/vp/build.sh > {work}/build.log 2>&1 || {{ echo BUILD-FAILS; exit 3; }}
bash /opt/vp/test.sh {work}/test.json > {work}/test.log 2>&1 || true
set +e
cd /repo
timeout 300 bash {demo}/demo.sh > {work}/demo.log 2>&1
echo DEMO $?
"""


def run_in(work, demo):
    p = subprocess.run(["unshare", "-m", "bash", "-c", SCRIPT.format(work=work, demo=demo)],
                       capture_output=True, text=True)
    return p.stdout + p.stderr


def one(bug, head):
    ident = bug["id"]
    work = os.path.join(TMP, ident)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    subprocess.run(["cp", "-a", "/repo", work + "/repo"], check=True)
    demo = work + "/demo"
    os.makedirs(demo)
    with open(demo + "/demo.sh", "w") as f:
        f.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\n'
                'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    with open(demo + "/demo.py", "w") as f:
        f.write(head.lstrip("\n") + bug["demo"].lstrip("\n"))
    try:
        clean = run_in(work, demo)
        if "DEMO 0" not in clean:
            return ident, "unchanged tree: " + clean + open(work + "/demo.log").read()[-1500:]
        for path, old, new in bug["edits"]:
            p = f"{work}/repo/src/frds/{path}"
            s = open(p, newline="").read()
            if "\r\n" in s:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if s.count(old) != 1:
                return ident, f"{path}: {s.count(old)} matches of {old!r}"
            open(p, "w", newline="").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", work + "/repo", "diff", "--binary"], capture_output=True, check=True).stdout
        bad = run_in(work, demo)
        if "DEMO" not in bad:
            return ident, bad + open(work + "/build.log").read()[-1500:]
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        passed = json.load(open(work + "/test.json"))["passed"]
        lost = [t for t in stable if t not in passed]
        if lost:
            return ident, f"fails tests: {lost}"
        if "DEMO 0" in bad or "DEMO 124" in bad:
            return ident, "demo does not fail: " + bad + open(work + "/demo.log").read()[-800:]
        out = os.path.join(OUT, ident)
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(demo, out)
        open(out + "/patch.diff", "wb").write(diff)
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["what"]},
                  open(out + "/meta.json", "w"), indent=1)
        return ident, "ok: " + open(work + "/demo.log").read().strip()[-160:].replace("\n", " | ")
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    bugs = [b for b in spec["BUGS"] if not sys.argv[2:] or b["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(5) as pool:
        for ident, res in pool.map(lambda b: one(b, spec.get("HEAD", "")), bugs):
            print(ident, res, flush=True)


main()
