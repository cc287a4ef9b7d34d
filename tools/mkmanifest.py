#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
SIM = "Explores generated cases only; never establishes absence. The library's own code runs unmodified (AddressSanitizer, -O1); shared memory, semaphores, process-shared mutexes/conditions, sleeping and the clock are simulated (cpp/sim.cpp) and trusted to behave as Linux documents."
PY = "Explores generated cases only. The Python extension is rebuilt from the working tree and driven on the real /dev/shm with private names."
REAL = "Explores generated cases only; real processes on the real /dev/shm (private names), the schedule is the operating system's. A call that must return counts as hanging after 20 s. Library, extension and the C++ process (cpp/agent.cpp) are rebuilt from the working tree."
T = {
 "C01": ("exploration", "stateful property-based testing against a reference matrix (all types, layouts, block kinds)", SIM),
 "C02": ("exploration", "stateful property-based testing with out-of-range/contended/not-running generators against a reference model", SIM),
 "C03": ("exploration", "schedule-generating property-based testing (page-level preemption) with a linearizability oracle", SIM + " Preemption happens at system calls and at the first touch of each shared page per slice, not at every instruction."),
 "C04": ("exploration", "schedule-generating property-based testing with a mutual exclusion oracle over generated histories", SIM),
 "C05": ("exploration", "property-based testing with block/sleep/allocation/output monitors, including dead lock holders", SIM),
 "C06": ("exploration", "schedule-generating property-based testing of competing servers", SIM),
 "C07": ("exploration", "schedule-generating property-based testing of start orders and server generations", SIM),
 "C08": ("exploration", "stateful and schedule-generating property-based testing against a counter model", SIM),
 "C09": ("exploration", "property-based testing over all type/layout pairs and histories", SIM),
 "C10": ("exploration", "metamorphic property-based testing: two interleaved histories versus each alone", SIM),
 "C11": ("exploration", "stateful property-based testing with resource ledgers for descriptors, mappings, semaphores and names", SIM),
 "C12": ("fault_enumeration", "crash-point enumeration over generated histories, recovery checked against a fresh-state model", SIM + " Crash points are the system calls and the first touches of shared pages."),
 "C13": ("fault_enumeration", "fault injection at every set-up system call of generated histories", SIM),
 "C14": ("exploration", "stateful property-based testing of server generations against a reference model", SIM),
 "C15": ("exploration", "stateful property-based testing: byte-string round trips against a list model", SIM),
 "C16": ("exploration", "stateful property-based testing with refused string operations, AddressSanitizer and a list model", SIM),
 "C17": ("exploration", "schedule-generating property-based testing of trigger/acknowledge rounds (spurious wake-ups, timeouts)", SIM),
 "C18": ("exploration", "schedule-generating property-based testing of acknowledgement counting against a model", SIM),
 "C19": ("exploration", "property-based testing in virtual time with generated event instants", SIM),
 "C20": ("exploration", "schedule-generating property-based testing with an event-order oracle", SIM),
 "C21": ("exploration", "schedule-generating property-based testing of condition-variable programs", SIM),
 "C22": ("exploration", "property-based testing against a set model", "Explores generated programs; the algebra over single base codes and pairs is enumerated completely. No simulation involved."),
 "C23": ("exploration", "property-based testing against a reference matrix with aliasing checks", SIM),
 "C24": ("exploration", "Hypothesis-generated arrays and histories against a NumPy model", PY),
 "C25": ("exploration", "Hypothesis-generated texts and histories against a list model", PY),
 "C26": ("exploration", "Hypothesis-generated wrapper histories against a two-sided NumPy model", PY),
 "C27": ("exploration", "Hypothesis-generated dictionaries and histories against a dict model", PY),
 "C28": ("exploration", "Hypothesis-generated relay histories with fake ROS transports", PY + " rospy, rclpy and the messages are stand-ins."),
 "C29": ("exploration", "Hypothesis-generated histories and full-speed races of real C++ and Python producer/consumer processes against a lock-step model, with kills", REAL),
 "C31": ("exploration", "metamorphic property-based testing: the same generated history under two assignments of verbosity levels, with output monitors", SIM),
 "C32": ("exploration", "property-based testing of generated messages against the printed and thrown text", "Explores generated cases only. No simulation involved."),
 "C30": ("exploration", "Hypothesis-generated cross-language differential histories of real processes against NumPy/list models, with kills and full-speed races", REAL),
}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(V + "/cpp/checks/%s.cpp" % i) or os.path.exists(V + "/py/checks/%s.py" % i):
        lv, tech, note = T[i]
        checks.append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": lv, "level_note": note})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "python3 -c 'print(\"nothing to set up: every check builds what it needs\")'",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: system calls are intercepted at link time (ld --wrap). Checks build into .build/ (ignored by git)."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks;", [x["property"] for x in na])
