"""C01 - concurrent calls on separate objects never affect each other."""
from __future__ import annotations

import os
import random

import core
import lib
import pool
import pristine
import sched


class C01(core.Check):
    id = "C01"
    runs = {"quick": 16000, "thorough": 120000}
    rule = ("A run forks a process that has only imported the library, starts 2-4 client threads with 1-4 operations each on objects of their own "
            "(bases may be shared, and some runs have the threads read the same objects), preempts them at line or opcode granularity under a random-walk, PCT or yield-site schedule, optionally runs calls inside "
            "other calls, and compares every outcome with the same call alone in a fresh process. Non-trivial: at least one switch happened inside a call; "
            "distinct: different sequence of (thread, local step, target) decisions and operations.")
    stub = "threading locks and time.sleep (scheduler-aware replacements)"
    assumptions = ["preemption inside C code (ICU, re, csv) and inside standard-library Python frames is not simulated: the interpreter lock or the "
                   "library's own frames bound the switch points", "free-threaded builds are out of scope",
                   "mutating one object from several threads at once is not part of the property"]
    measure = "hash of the recorded schedule and operations"

    def setup(self):
        lib.load()
        self.pool = pool.make(int(os.environ.get("VERIF_SEED", "1") or 1), 330)

    def scenario(self, r, index, tier):
        n = r.choice([2, 2, 2, 3, 3, 4])
        # swarm: a small working set makes threads collide on the same code and the same cold state
        ws = [r.choice(self.pool) for _ in range(r.choice([1, 2, 3, 6]))]
        same_kind = r.random() < 0.4
        if same_kind:
            k = pool.family(r.choice(self.pool))
            ws = [op for op in self.pool if pool.family(op) == k]
            if r.random() < 0.5:
                ws = [op for op in ws if op[-1] is None] or ws
            ws = [r.choice(ws) for _ in range(r.choice([2, 3, 5]))]
        threads = [[r.choice(ws) for _ in range(r.choice([1, 1, 2, 3, 4]))] for _ in range(n)]
        mode = r.choice(["rand", "rand", "sites", "sites", "pct"])
        if mode == "rand":
            spec = {"mode": "rand", "p": r.choice([0.5, 0.2, 0.05, 0.01, 0.003])}
        elif mode == "sites":
            spec = {"mode": "sites", "salt": r.getrandbits(32), "mod": r.choice([2, 5, 15, 40]), "p": r.choice([1.0, 0.7, 0.3])}
        else:
            spec = {"mode": "pct", "points": [[r.randrange(n), int(2 ** r.uniform(0, 12))] for _ in range(r.choice([1, 2, 3, 5]))]}
        spec["seed"] = r.getrandbits(48)
        nested = []
        if r.random() < 0.35:
            nested = [[r.randrange(n), int(2 ** r.uniform(0, 11)), r.choice(ws if r.random() < 0.6 else self.pool)] for _ in range(r.choice([1, 2]))]
        warm = [r.choice(self.pool) for _ in range(r.choice([0, 0, 0, 1, 5]))]
        after = [r.choice(ws), r.choice(self.pool)]
        if r.random() < 0.3:  # several threads read the same objects
            some = [lib.read_op(r) for _ in range(r.choice([1, 2, 4, 8]))]
            threads = [[r.choice(some) if r.random() < 0.8 else op for op in t] for t in threads]
        return {"threads": threads, "nested": nested, "warm": warm, "after": after, "sched": spec, "opcodes": r.random() < 0.25}

    def prepare(self, sc):
        ops = [op for t in sc["threads"] for op in t] + [x[2] for x in sc["nested"]] + sc["warm"] + sc["after"]
        self.table = pristine.table(ops)

    def execute(self, sc):
        table = self.table
        spec = sc["sched"]
        decider = sched.Decider(spec, random.Random(spec.get("seed", 0)))
        sim = sched.Sim(decider, budget=3_000_000, opcodes=sc["opcodes"])
        all_ops = [op for t in sc["threads"] for op in t] + [x[2] for x in sc["nested"]] + sc["warm"] + sc["after"]
        cold = not any(op[0] == "read" or any(isinstance(x, list) and x and x[0] == "shared" for x in op) for op in all_ops)
        # a process whose clients need no shared object has called nothing at all when they start
        shared = [] if cold else lib.make_shared()
        before = [] if cold else [lib.canon(x) for x in lib.make_shared()]  # (the shared objects themselves have not been looked at yet)
        bad = []
        events = []

        def judge(where, op, got):
            want = table[pristine.key(op)]
            events.append([where, core.digest(got)])
            if got != want:
                bad.append([where, op, pristine.diff(got, want)])

        for op in sc["warm"]:
            judge("warm", op, lib.outcome(op, shared))

        def client(i, ops):
            def body():
                for op in ops:
                    judge(f"thread {i}", op, lib.outcome(op, shared))
            return body

        fired = [0]

        def nest(i, op):
            def hook(frame):
                if sched.HELD.get(i):
                    return  # a call from inside a critical section is the business of C02 (handlers)
                fired[0] += 1
                judge(f"nested in thread {i}", op, lib.outcome(op, shared))
            return hook

        for t, s, op in sc["nested"]:
            if t < len(sc["threads"]):
                sim.hooks[(t, s)] = nest(t, op)
        sim.run([client(i, ops) for i, ops in enumerate(sc["threads"])])
        viol = None
        if sim.stats.get("client_errors"):
            raise core.HarnessError(sim.stats["client_errors"][0])
        if sim.stopped:
            viol = {"class": "does-not-finish", "detail": f"{sim.stopped}: {sim.stop_detail}; threads {ascii(sc['threads'])[:600]}"}
        else:
            after = [lib.canon(x) for x in shared]
            if after != before:
                bad.append(["shared object", None, f"before {ascii(before)[:300]} after {ascii(after)[:300]}"])
            for op in sc["after"]:
                judge("afterwards", op, lib.outcome(op, shared))
        if bad and not viol:
            w, op, d = bad[0]
            viol = {"class": "wrong-outcome", "detail": f"{w}: {ascii(op)[:400]}: {d}"}
        switches = sim.stats.get("switches", 0)
        plan = sim.record
        res = {"violation": viol, "digest": core.digest([events, plan]),
               "key": core.digest([sc["threads"], plan]) if switches else "",
               "stats": {"steps": sim.step, "fault:preemption": switches, "fault:nested_call": fired[0], "calls": len(events),
                         "probe:cold_runs": int(not sc["warm"] and cold), "probe:shared_reads": sum(op[0] == "read" for t in sc["threads"] for op in t), "probe:lock_contention": sim.stats.get("blocked", 0), "probe:opcode_runs": int(sc["opcodes"])}}
        if viol:
            s2 = dict(sc)
            s2["sched"] = {"mode": "replay", "plan": plan}
            res["scenario"] = s2
        return res

    def shrinks(self, sc):
        yield ("sched", "plan")
        yield ("nested",)
        yield ("warm",)
        yield ("after",)
        for i in range(len(sc["threads"])):
            yield ("threads", i)
        yield ("sched", "plan")

    def on_hang(self, sc):
        return {"class": "does-not-finish", "detail": "the run used more than %d s of CPU" % core.RUN_CPU_S}


CHECK = C01()
