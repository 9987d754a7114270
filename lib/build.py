"""Scratch builds of the code under test.

Every check compiles the extension modules from /repo's *current working tree*
into a private scratch directory (never inside /repo), so that /repo's tracked
and ignored files stay as they were.  Variants:

  plain   what a user gets
  asan    AddressSanitizer + UndefinedBehaviorSanitizer (gcc)
  tsan    ThreadSanitizer (gcc)
  none    no extension at all: the pure-Python fallbacks are live
"""
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get("FRDS_REPO", "/repo")
PY = "/opt/venv/bin/python"

FLAGS = {
    "plain": "",
    "asan": "-fsanitize=address,undefined -fsanitize=float-cast-overflow "
    "-fno-omit-frame-pointer -g -O1 -U_FORTIFY_SOURCE "
    "-D_GLIBCXX_ASSERTIONS -D_GLIBCXX_SANITIZE_VECTOR",
    "tsan": "-fsanitize=thread -fno-omit-frame-pointer -g -O1 -U_FORTIFY_SOURCE",
}


class BuildError(Exception):
    pass


def base_env():
    env = dict(os.environ)
    for k in ("PYTHONPATH", "CFLAGS", "CXXFLAGS", "LDFLAGS", "LD_PRELOAD"):
        env.pop(k, None)
    env.update(
        HOME=env.get("HOME", "/root"),
        LANG="C.UTF-8",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        MPLBACKEND="Agg",
        OPENBLAS_NUM_THREADS="1",
        OMP_NUM_THREADS="1",
    )
    return env


def make_tree(dst, repo=REPO):
    """Copy the sources (no build products) of the working tree to dst."""
    os.makedirs(dst, exist_ok=True)
    ignore = shutil.ignore_patterns(
        "*.so", "*.o", "__pycache__", "*.egg-info", "build", "*.pyc", ".git"
    )
    shutil.copytree(os.path.join(repo, "src"), os.path.join(dst, "src"), ignore=ignore)
    for name in os.listdir(repo):
        p = os.path.join(repo, name)
        if os.path.isfile(p) and name not in (".git",):
            shutil.copy2(p, dst)
    return dst


def build(dst, variant="plain", log=None):
    """Compile the extensions in place in the scratch tree dst."""
    if variant == "none":
        return
    env = base_env()
    flags = FLAGS[variant]
    if flags:
        env["CFLAGS"] = flags
        env["CXXFLAGS"] = flags
        env["LDFLAGS"] = flags
    p = subprocess.run(
        [PY, "setup.py", "build_ext", "--inplace", "--force", "-j", "4"],
        cwd=dst,
        env=env,
        stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT,
        text=True,
        timeout=600,
    )
    if log:
        with open(log, "w") as f:
            f.write(p.stdout)
    if p.returncode != 0:
        raise BuildError(p.stdout[-4000:])


def scratch(prefix="frds-verif-"):
    return tempfile.mkdtemp(prefix=prefix)


def runtime_lib(name):
    out = subprocess.run(
        ["gcc", f"-print-file-name={name}"], stdout=subprocess.PIPE, text=True
    ).stdout.strip()
    return out


def variant_env(variant, base):
    """Environment a worker needs to load the sanitized extensions; reports go to
    files base.san.<pid>."""
    log = base + ".san"
    if variant == "asan":
        return dict(
            LD_PRELOAD=":".join([runtime_lib("libasan.so"), runtime_lib("libubsan.so"),
                                 runtime_lib("libstdc++.so")]),
            ASAN_OPTIONS="detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=77:"
            "detect_stack_use_after_return=1:allocator_may_return_null=1:"
            f"handle_segv=1:max_malloc_fill_size=1048576:malloc_fill_byte=190:log_path={log}",
            UBSAN_OPTIONS=f"halt_on_error=1:exitcode=78:print_stacktrace=1:log_path={log}",
            PYTHONMALLOC="malloc",
        )
    if variant == "tsan":
        return dict(
            LD_PRELOAD=":".join([runtime_lib("libtsan.so"), runtime_lib("libstdc++.so")]),
            TSAN_OPTIONS="halt_on_error=0:exitcode=0:report_thread_leaks=1:history_size=4:"
            f"report_signal_unsafe=0:log_path={log}",
        )
    return {}


def can_disable_aslr():
    p = subprocess.run(["setarch", "-R", "true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return p.returncode == 0


def sanitizer_reports(base, variant):
    """[(kind, message, text)] of the report blocks a worker left behind."""
    if variant not in ("asan", "tsan"):
        return []
    import glob
    import re

    out, seen = [], set()
    # UndefinedBehaviorSanitizer writes to stderr when AddressSanitizer owns the log
    for p in sorted(glob.glob(base + ".san.*")) + [base + ".err"]:
        if not os.path.exists(p):
            continue
        text = open(p, errors="replace").read()
        if variant == "asan":
            blocks = re.split(r"(?m)^(?==+\d+==ERROR: |[^\n]*: runtime error: )", text)
        else:
            blocks = re.split(r"(?m)^(?=WARNING: ThreadSanitizer: )", text)
        for b in blocks:
            m = re.search(r"(ERROR: AddressSanitizer: \S+|WARNING: ThreadSanitizer: [^(\n]*|runtime error: [^\n]*)", b)
            if not m:
                continue
            # frames in the code under test, by function only
            frames = re.findall(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) (?:/[^\n]*?/src/frds/|src/frds/)([^\s:]+)", b)
            if variant == "tsan" and not frames:
                continue  # nothing of the code under test is involved
            key = (re.sub(r"\d+|0x[0-9a-f]+", "N", m.group(1)), tuple(f[0].split("(")[0] for f in frames[:2]))
            if key in seen:
                continue
            seen.add(key)
            kind = "sanitizer: " + re.sub(r"0x[0-9a-f]+|-?\d+", "N", re.sub(r"^(ERROR|WARNING): ", "", m.group(1)).strip())[:100]
            out.append((kind, "in " + " / ".join(f[0][:80] for f in frames[:4]), b))
    return out


if __name__ == "__main__":
    d = sys.argv[1]
    make_tree(d)
    build(d, sys.argv[2] if len(sys.argv) > 2 else "plain")
