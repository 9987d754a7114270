"""Writes /verif/MANIFEST.json."""
import json, os

MONITOR = "runtime monitoring: reference-model and metamorphic oracles over generated executions"
T = {
    "C01": ("runtime monitoring under AddressSanitizer+UndefinedBehaviorSanitizer with hostile inputs; differential oracle on memory layouts",
            "No report on the calls made; red-zone tools miss accesses that land in other live memory. Trusts gcc's sanitizer runtimes."),
    "C02": ("runtime monitoring under ThreadSanitizer with injected delays; bit-identity monitor over processor counts, schedules, histories and concurrent callers",
            "No race and no differing score on the schedules produced; ThreadSanitizer sees the extension only, not the interpreter."),
    "C03": ("runtime monitoring: independent reference forest (statistical oracle), exact metamorphic oracles",
            "Distributional oracle with thresholds that a correct forest exceeds with probability below 1e-6 per run; metamorphic relations are exact."),
    "C09": ("differential runtime monitoring: one generated call log replayed with and without the compiled extensions",
            "Agreement on the calls made, to rounding for recursions and to optimiser tolerance for fits."),
    "C20": ("runtime monitoring: input snapshots, global-state snapshots, history and concurrency monitors",
            "Observes arguments, global random state, floating-point error state, warnings filters, environment and working directory around every public routine."),
    "C21": ("runtime monitoring: allocation, reference-count and thread-count monitors under repetition; AddressSanitizer",
            "No growth over the repetitions made; leaks smaller than one block per call are not decided."),
    "C25": ("runtime monitoring with fault injection: interruptions at chosen program points, failed allocations and thread creations, signals in native code; monitors on state, success claims and repeated calls",
            "Holds at the points of interruption and failure visited (counts in the evidence file); interruptions inside numpy, scipy or pandas are not injected."),
    "C28": ("runtime monitoring across processes: import-effect monitor in fresh interpreters, bit-for-bit comparison of calls repeated in other interpreters, forked children and pickled workers; overwritten copies",
            "Holds for the surroundings, import orders and calls played (counts in the evidence file), on one kind of processor and with one BLAS thread."),
    "C29": ("runtime monitoring with hostile inputs: refusal monitor against a shape oracle over generated mismatches, input and process snapshots, repeated good calls",
            "Holds for the calls and spoilings in checks/c29.py (counts in the evidence file); judges shapes and options, not the numbers inside. With python -O the library's assertions are compiled away."),
    "C30": ("runtime monitoring: peak-allocation and CPU-time monitors over generated data of growing size",
            "Holds at the sizes tried (sixteen to sixty-four times the smallest); beyond them growth is extrapolated. CPU time is judged with a wide margin, so only growth near the square of the data is told from noise; memory is judged closely."),
    "C27": ("runtime monitoring with fault injection: chosen searches of the optimiser and the equation solver stalled, marked unsuccessful or lost; monitors on success claims, recomputed results, process state and repeated calls",
            "Holds for the plans of failure played (counts in the evidence file); trusts scipy to report its own failures and the recomputation of likelihoods in lib/ref.py."),
    "C26": ("runtime monitoring: figures recorded when saved and the printed table against a recomputation; process-state monitor",
            "Holds at the numbers of paths run (40 to 120, thorough to 1,200); trusts the valuation function checked by C23, scipy's interpolation and matplotlib."),
    "C24": ("runtime monitoring: content-hash monitor over generated histories of reads and edits, in several processes and threads",
            "Holds on the histories played, for the data sets shipped with the library."),
}
DEFAULT_NOTE = ("Held on the executions generated (counts and samples in the evidence file); trusts the independent reference "
                "implementation of the documented definition in the check, and numpy/scipy.")
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
SKIP = {s for s in os.environ.get("SKIP", "").split(",") if s}
m = dict(version=1, setup_cmd="./run.sh setup", checks=[], not_applicable=[],
         notes="Checks build the extensions from /repo's working tree in a private scratch directory; no hooks are needed in /repo. "
               "Known findings and fixes: known_findings.txt.")
for p in props:
    if p["id"] in SKIP:
        m["not_applicable"].append(dict(property=p["id"], reason="check under construction"))
        continue
    t, n = T.get(p["id"], (MONITOR, DEFAULT_NOTE))
    m["checks"].append(dict(property=p["id"], quick_cmd=f"./run.sh {p['id']}", thorough_cmd=f"VERIF_TIER=thorough ./run.sh {p['id']}",
                            technique=t, level="exploration", level_note=n))
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
