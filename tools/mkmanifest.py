"""Writes MANIFEST.json from the checks that exist."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
RUN = "monitored optimization runs: boundary events and recorded components checked by an offline trace checker"
DIR = "monitored direct calls of the real functions under generated workloads, each observation judged by an independent reference"
T = {
 "C01": RUN, "C02": "shadow-model monitor on the history object plus event-log checker on optimization runs",
 "C03": RUN, "C04": RUN, "C05": RUN + "; CPU-time watchdog", "C06": RUN,
 "C07": "differential monitoring of repeated runs; before/after snapshots of inputs and global random state",
 "C08": "fault injection into the criterion with trace checker and CPU-time watchdog",
 "C09": "evaluation-count monitor over batches, joined with recorded components", "C10": RUN,
 "C11": DIR, "C12": DIR, "C13": DIR, "C14": DIR, "C15": DIR + "; the same monitor on the subproblems of real runs",
 "C16": DIR + "; the same monitor on the filter calls of real runs", "C17": DIR,
 "C18": "recording batch evaluators that permute and delay execution; differential comparison; real process pools",
 "C19": "recording user components and generated option bundles against an independent reading of signatures",
 "C20": DIR, "C21": "statistical run monitor against independently computed constrained optima",
 "C22": RUN, "C23": "differential execution: compiled, interpreted and with NUMBA_BOUNDSCHECK (bounds sanitizer)",
 "C24": DIR + "; adaptation rule re-evaluated along noisy runs", "C25": DIR, "C26": DIR, "C27": DIR, "C28": DIR,
 "C30": "recording sampler and batch evaluator around the acceptance component; online comparison with recomputed points",
 "C31": "metamorphic monitoring: paired runs on equivalent formulations, compared evaluation by evaluation",
 "C32": "recording user-defined fitter, sampler and subsolver (also steered step lengths); event sequences checked by an automaton per iteration",
 "C29": "differential monitoring of both interfaces; figure contents judged against recorded states",
}
checks, na = [], []
for p in props:
    c = p["id"]
    if (V / "checks" / f"{c.lower()}.py").exists():
        checks.append(dict(property=c, quick_cmd=f"python3 run.py {c} --tier quick", thorough_cmd=f"python3 run.py {c} --tier thorough",
            evidence_file=f"evidence/{c}.json", technique=T[c], level="exploration",
            level_note="Holds on every execution observed; workloads are random but seeded, counters of what the monitors saw "
                       "are in the evidence file and the run is inconclusive if a monitor was not reached. Trusts numpy/scipy, "
                       "the reference oracles in /verif/checks and that uninstrumented runs behave alike (see C07)."))
    else:
        na.append(dict(property=c, reason="check not built yet"))
m = dict(version=1, setup_cmd="python3 run.py --setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo: user supplied components, the batch evaluator and the criterion are the observation points. "
               "Known and fixed findings: known_findings.json.")
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks;", len(na), "not applicable")
