#!/usr/bin/env python3
"""writes MANIFEST.json from the table below"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHART = ("explicit-state model checking of the implementation: exhaustive search over the reachable states of generated charts run on the real "
         "headers, every environment decision enumerated within bounds, each run compared with an independent reference model")
NOTE = ("Every operation sequence and environment decision within the bounds stated in the evidence file is executed on the real library and compared with the "
        "model; assumes the model states the documented semantics, and that charts beyond the explored ones behave alike.")
CHECKS = {p: (CHART, "model_checking", NOTE) for p in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C14 C15".split()}
DIFF = ("explicit-state model checking of the implementation: the same exhaustive search of generated charts is executed by every build variant (or continuation) "
        "and the complete observable logs of all runs are compared")
SEQ = ("bounded exhaustive enumeration of operation sequences plus breadth-first search of model states, each sequence executed from scratch on the real code and compared with a "
       "reference model after every operation")
SNOTE = "All operation sequences within the stated depth are executed on the real code; assumes longer histories show nothing new (the breadth-first search goes deeper by merging equal model states)."
CHECKS.update({p: (DIFF, "model_checking", NOTE) for p in "C16 C21 C22".split()})
CHECKS.update({p: (SEQ, "model_checking", SNOTE) for p in "C18 C19".split()})
CONC = ("stateless model checking of the real code: every thread schedule of each enumerated scenario is executed under a controlled scheduler (dynamic partial-order "
        "reduction with sleep sets, no preemption bound, bounded spurious wake-ups), with data race, deadlock, leak and use-after-free detection on every schedule")
CNOTE = ("All schedules of the enumerated scenarios are executed; assumes the interposed mutexes, condition variables and atomics behave as modelled and that more threads or "
         "longer programs show nothing new. The reduction is compared with the complete enumeration on small scenarios in every run.")
PROG = ("bounded exhaustive enumeration of programs: every chart program of the family and every single change of it is classified by a model of the documented rules and "
        "compiled against the real headers, and both verdicts are compared")
CHECKS.update({"C13": (SEQ + "; for threads: " + CONC, "model_checking", CNOTE), "C17": (CONC, "model_checking", CNOTE), "C20": (CONC, "model_checking", CNOTE),
    "C23": (PROG, "model_checking", "All programs within the stated bounds are decided; the 'execution' explored is the instantiation of the library's templates by the compiler.")})
PENDING = {}
import sys
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 -c \"import compileall\" && g++ --version >/dev/null",
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        t, l, n = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i, "technique": t, "level": l, "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": PENDING.get(i, "check not built yet")})
with open(os.path.join(V, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")
