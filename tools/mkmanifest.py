import json, sys
sys.path.insert(0, '/verif/sim')
T = "deterministic simulation with fault injection: "
checks = {
 "C01": ("seeded thread schedules over real calls, outcome compared with the call alone", "Real threads, one runnable at a time, preempted by a seeded scheduler at line or opcode boundaries of library frames (random walk, PCT, yield sites), calls nested inside calls, cold and warm; every outcome equals the one of the same call alone in a fresh process. Sampled schedules; preemption inside C code and standard-library frames is not simulated."),
 "C02": ("application logging as a fault source, outcome compared with the default configuration", "Random logging configurations applied before import, after it, between calls and at chosen lines inside calls, with re-entrant handlers. Sampled; handlers that raise belong to C08."),
 "C03": ("seeded interleavings of URL and search-params holders against a reference list model", "Histories by several holders of one URL and of its search params, against an executable model of the ordered pair list and the form codec. Sampled histories; trusts the model."),
 "C04": ("seeded assignment histories against an executable WHATWG reference model", "Histories of assignments by several holders, against an independent reimplementation of the WHATWG URL parser and setters. Sampled histories; IDNA mapping itself is trusted to ICU."),
 "C05": ("failing operations injected into seeded histories, twin world without them", "Every failing operation is followed by a comparison of all live objects with their state before, and a twin run that never attempted it must agree afterwards. Sampled."),
 "C06": ("seeded derivation graphs and mutation histories with state isolation invariants", "After each step only the objects the step may touch have changed, over random derivation graphs. Sampled."),
 "C07": ("ICU backend faults injected at every call position of seeded histories", "Faults at the class methods of the real icupy binding (creation errors, conversion errors, recorded errors, empty or forbidden results), at chosen call numbers; containment, atomicity and recovery are checked. Sampled, with each call position of an operation reachable."),
 "C08": ("asynchronous exceptions injected at the interpreter's delivery points", "An exception is raised at a chosen delivery point (function entry, backward jump, completed call) of an operation inside a history, or by a log handler; damage is bounded and recovery checked against fresh objects. Sampled points; delivery inside C code or standard-library frames is not simulated."),
 "C09": ("seeded histories of report reuse with interruptions, backend faults, nested calls", "Every report after every completed validation equals that of a fresh report in a fresh process. Sampled."),
 "C10": ("simulated disk and locale under the registry load, with retry", "libc calls on the library's data files are interposed (LD_PRELOAD); open/stat/read/close errors, short reads, damaged content, locale encodings, interrupted load; every answer is compared with the intact registry. Sampled plans."),
 "C11": ("iterator steps interleaved with mutations by other holders", "Iterators advanced between and inside mutations; yielded pairs, termination and absence of side effects are checked against the recorded history. Sampled."),
 "C12": ("long seeded process histories compared with a fresh process under other interpreter settings", "Up to thousands of calls per simulated process (repeats, near variants, vandalised results) under eight interpreter settings (hash seeds, -O, -OO, warnings as errors, C locale, UTF-8 mode, int limit); each outcome equals that of the call alone in a fresh default process. Sampled."),
 "C13": ("restarts injected into seeded histories, the restored objects compared with an undisturbed history", "All live objects are deep-copied or pickled at chosen points, together or apart, and restored in the same process or in another interpreter with another hash seed that plays on with nothing but the pickle; every later result and snapshot must equal that of the undisturbed history. Sampled histories and restart points."),
 "C14": ("long seeded call histories with backend faults and interruptions, resources measured as conserved quantities", "Memory blocks held by the interpreter are measured every 300 calls; growth that goes on for 15000 calls with ever-new arguments is a violation, as are open files, threads and loggers that add up. Memory inside ICU is not measured."),
 "C15": ("forks injected into seeded thread schedules, every later call on both sides compared with the call alone", "One simulated thread forks the process while others are held anywhere inside library calls; child (serial, threaded, forking again) and parent go on calling; every outcome equals that of the call alone and nothing waits for a lock or a thread that is gone. Sampled schedules."),
 "C16": ("asynchronous exceptions and backend faults injected into single threads of seeded thread schedules", "Under a seeded schedule chosen calls of chosen threads are cut short by an asynchronous exception at a delivery point or get backend faults; every other call, in any thread, during or afterwards, equals the call alone, and finishes. Sampled schedules and faults."),
 "C17": ("real allocation failures and stack exhaustion injected at numbered points of seeded histories", "Under the last operation of a history the n-th allocation of the interpreter (and up to two after it) returns nothing, or only k stack frames are left; the rules of C08 are then checked, and an operation that ends as usual must have done all its work. Sampled points; allocations of ICU and its binding do not fail."),
 "C18": ("reads injected at numbered points inside the changes of seeded histories, from the same or another scheduled thread", "At every n-th library line of every operation, from a log handler, or from 1-2 other threads under a seeded schedule, the objects being changed are read in every way; results and final states must equal those of a twin world without readers. Sampled histories, reads and points; except for log handlers, readers do not look while the changing call holds a lock of the library."),
}
na = {
 "C20": "one parse of one string is a pure function of its input: no schedule, fault, clock, I/O or history for a simulator to control (its use inside histories is decided by C04)",
 "C21": "serialise-and-reparse is a pure function of one string; nothing for a schedule or fault to change",
 "C22": "the form and percent codecs are pure functions of their arguments; nothing for a schedule or fault to change (their role in keeping URL and search params in step is decided by C03)",
 "C23": "which exception one call raises for one input is a pure function of the input; the parts that depend on backend faults are decided by C07",
 "C24": "acceptance by a validator versus a parse without errors is a relation between two pure functions of one string",
 "C25": "equality and same-origin are pure relations between values; nothing for a schedule or fault to change",
}
props = [json.loads(l)["id"] for l in open('/verif/properties.jsonl')]
import core
m = {"version": 1,
     "setup_cmd": "/opt/venv/bin/python -B -c \"import sys; sys.path.insert(0, 'sim'); import core, lib; lib.load(); print('ready')\"",
     "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo. Every check imports /repo's working tree (never cached bytecode). One VERIF_SEED and run number is one exactly repeatable scenario; replay a violation with: /opt/venv/bin/python -B sim/replay.py FILE. Repaired defects are listed in known_findings.jsonl."}
for p in props:
    if p in checks:
        t, note = checks[p]
        m["checks"].append({"property": p, "quick_cmd": f"/opt/venv/bin/python -B sim/run.py {p}", "thorough_cmd": f"VERIF_TIER=thorough /opt/venv/bin/python -B sim/run.py {p}",
                            "evidence_file": f"evidence/{p}.json", "technique": T + t, "level": core.load_check(p).level, "level_note": note})
    else:
        m["not_applicable"].append({"property": p, "reason": na[p]})
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
