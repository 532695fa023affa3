"""Regenerates /verif/MANIFEST.json from the check modules (development tool)."""
import json
import os
import re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = {
    "C01": "bounded exhaustive exploration of the real solver, geometric invariant on every execution",
    "C02": "bounded exhaustive exploration of the real solver, placement decisions replayed",
    "C03": "bounded exhaustive exploration of the real solver, exact recomputation of values",
    "C04": "explicit-state reference model, every model trace replayed in lock step on the implementation",
    "C05": "bounded exhaustive exploration, differential recomposition from single container solves",
    "C06": "exhaustive operation histories up to a depth, differential against fresh instances and interpreters",
    "C07": "exhaustive objective landscapes (choice tree search over comparison outcomes) and real packings",
    "C08": "exhaustive enumeration of the instant at which the virtual clock expires",
    "C09": "exhaustive enumeration of comparison outcomes, throttles and lengths on the real search",
    "C10": "bounded exhaustive exploration, independent recomputation per strategy",
    "C11": "exhaustive enumeration of worker counts and pool sizes with recording workers",
    "C12": "controlled scheduler: exhaustive interleavings up to a preemption bound of the real parent and workers",
    "C13": "fault enumeration: every worker subset failing at every communication point, with schedules",
    "C14": "exhaustive small perfect/imperfect problems, evaluation counting; scheduled workers",
    "C15": "bounded exhaustive exploration of strip searches, invariant on every accepted node",
    "C16": "bounded exhaustive exploration over heights and solving methods, scheduled workers",
    "C17": "explicit-state BFS over operation histories in lock step with a reference state machine",
    "C18": "explicit-state BFS over operation histories in lock step with a reference state machine",
    "C19": "explicit-state BFS over settings operations in lock step with a reference state machine",
    "C20": "exhaustive enumeration of strategy values, operation histories with reference acceptance",
    "C21": "bounded exhaustive exploration of item sequences and criteria",
    "C22": "bounded exhaustive exploration of solution states, recomputed report",
    "C23": "exhaustive configurations and failing calls with a recording plotly stand-in",
    "C24": "exhaustive product of setting values and library versions against a reference validator",
    "C25": "exhaustive outcomes of every random draw on a parameter grid",
    "C26": "exhaustive check of the finite set of shipped data",
    "C27": "exhaustive aliasing operation histories on two instances",
    "C28": "exhaustive refused and accepted operations with captured log records",
    "C29": "bounded exhaustive differential exploration of the two solver classes",
    "C30": "explicit-state exploration of operation histories in lock step with a reference state machine",
}


def main():
    props = [json.loads(x) for x in open(os.path.join(VERIF, "properties.jsonl")) if x.strip()]
    checks, na = [], []
    for p in props:
        pid = p["id"]
        path = os.path.join(VERIF, "mc", "checks", pid.lower() + ".py")
        if not os.path.exists(path):
            na.append({"property": pid, "reason": "check under construction"})
            continue
        src = open(path).read()
        m = re.search(r'^LEVEL = "(\w+)"', src, re.M)
        n = re.search(r'^NOTE = \(?((?:\s*"[^\n]*"\n?)+)\)?', src, re.M)
        note = eval("(" + n.group(1) + ")") if n else ""
        note += (" Real code of the working tree is executed; exhaustive within the bounds stated "
                 "in the evidence file, nothing is claimed beyond them. Trusts CPython, the "
                 "harness's seams (clock, logging, stand-ins) and the oracle in mc/.")
        checks.append({
            "property": pid,
            "quick_cmd": "python3 mc/run.py " + pid,
            "thorough_cmd": "python3 mc/run.py %s --tier thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": "model checking: " + TECH[pid],
            "level": m.group(1) if m else "model_checking",
            "level_note": note.strip(),
        })
    man = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "No hooks: all instrumentation is monkeypatched from mc/ into imported modules."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
