#!/usr/bin/env python3
"""Write MANIFEST.json from the available checks (run: python3 mkmanifest.py)."""
import json
import os
import re

ROOT = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
NOTES = {
    "C01": "Seeded search over schedules of the real solver and the real joblib dispatch; interleavings at task granularity (the workers share nothing).",
    "C02": "Seeded search over dependency forests and schedules; the linear-solver calls of each sweep are observed at the SciPy seam, and the initial power at the API.",
    "C03": "Seeded injection of task, worker, transfer, and memory faults under random schedules, with a fault-free repetition.",
    "C04": "Seeded histories of calls, failures, interruptions at any executed line, and clock jumps, compared with a fresh process image.",
    "C05": "Seeded calls with failures and interruptions at any executed line; deep exact comparison of the arguments and scrambling of the results.",
    "C06": "Seeded misbehaviour of the linear solver, factorization, and condition estimator, compared with a recomputation of the criteria.",
    "C07": "Seeded scripts of the iterative solver (iterates, stalls, early ends) compared with a small executable model of the stopping rules.",
    "C08": "Seeded problems, options, schedules, and numerical faults, compared with an independent dense PEEC model.",
    "C09": "Seeded problems, schedules, and warm starts; balance laws evaluated on the returned solutions.",
    "C10": "Simulated file system: failures before the output and process death at any write, followed by a restart of the next stage.",
    "C11": "Command-line calls with simulated I/O, solver, and plot faults; exit codes and effects are compared with the data and API calls.",
    "C12": "Seeded interleavings of file workflows over several simulated processes and formats, compared with the data workflow.",
    "C13": "Simulated PyVista/Qt/Matplotlib back ends recording all the windows; seeded selections and failures.",
    "C14": "Simulated Qt event loop and signals delivered at seeded moments.",
    "C15": "Seeded geometries and adversarial random draws compared with a set-based model of the mesher.",
    "C16": "Seeded damage of the image and mesh files and of their reads, compared with the intact result.",
    "C17": "Simulated external tools with seeded failures, compared with a model of the required commands.",
    "C19": "Seeded single defects in seeded inputs, ways of calling, histories and schedules; every node of the formats and every listed inconsistency can be damaged.",
    "C20": "Seeded signals, components, schedules, and transfers; waveforms compared with direct sums and with an independent dense PEEC model.",
    "C21": "Seeded sequences of solver calls with different options, failures, interruptions, and missing libraries; all the library calls and their arguments are recorded in the simulated processes.",
    "C18": "Seeded components, sweeps, schedules, and extractions, compared with an independent dense PEEC model.",
}
levels = {}
checks = []
for name in sorted(os.listdir(os.path.join(ROOT, "dst", "checks"))):
    m = re.match(r"(c\d\d)\.py$", name)
    if not m:
        continue
    pid = m.group(1).upper()
    txt = open(os.path.join(ROOT, "dst", "checks", name)).read()
    level = re.search(r'^LEVEL = "(\w+)"', txt, re.M).group(1)
    checks.append({
        "property": pid,
        "quick_cmd": "%s check.py %s --tier quick" % (PY, pid),
        "thorough_cmd": "%s check.py %s --tier thorough" % (PY, pid),
        "technique": "deterministic simulation with fault injection (seeded search)",
        "level": level,
        "level_note": NOTES[pid],
    })
props = [json.loads(x)["id"] for x in open(os.path.join(ROOT, "properties.jsonl"))]
done = {c["property"] for c in checks}
doc = {
    "version": 1,
    "setup_cmd": "%s setup_check.py" % PY,
    "hooks": {"guard": "none", "enable": "no hooks in /repo: all the seams are third-party and standard-library interfaces", "source_commits": []},
    "checks": checks,
    "not_applicable": [{"property": p, "reason": "check under construction"} for p in props if p not in done],
    "notes": "Replay: /opt/venv/bin/python check.py <ID> --replay <file>. See DESIGN.md.",
}
json.dump(doc, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
