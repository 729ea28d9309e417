"""C15 - a process forked in the middle of other threads' calls can go on using the library."""
from __future__ import annotations

import os
import random
import select
import time

import core
import js
import lib
import pool
import pristine
import sched

CHILD_WALL_S = 40


class C15(core.Check):
    id = "C15"
    runs = {"quick": 9000, "thorough": 90000}
    rule = ("A run starts 1-3 client threads with 1-4 library calls each and one thread that forks the process 1-3 times, between or inside calls of its own; the seeded scheduler "
            "decides how far the others have got at each fork (line or opcode granularity, cold or warm process). The child, in which only the forking thread exists, makes calls "
            "of its own (one after the other, or in threads under a schedule of their own, or forks again); so does the parent. Every outcome is compared with the same call alone in a "
            "fresh process. Non-trivial: some other thread was inside a library call at a fork; distinct: different schedule and operations.")
    stub = "threading locks and time.sleep (scheduler-aware replacements); fork itself is real, of the simulated process"
    assumptions = ["a fork while another thread is inside C code (ICU, malloc) is not simulated: the interpreter lock is released in none of the library's C calls",
                   "Python's own at-fork handlers (logging, threading) run as shipped"]
    measure = "hash of the recorded schedule and operations"

    def setup(self):
        lib.load()
        self.pool = pool.make(int(os.environ.get("VERIF_SEED", "1") or 1), 330)

    def scenario(self, r, index, tier):
        n = r.choice([1, 1, 2, 2, 3])
        ws = [r.choice(self.pool) for _ in range(r.choice([1, 2, 3, 6]))]
        if r.random() < 0.5:
            k = pool.family(r.choice(self.pool))
            ws = [op for op in self.pool if pool.family(op) == k]
            ws = [r.choice(ws) for _ in range(r.choice([2, 3, 5]))]
        if r.random() < 0.2:
            ws.append(lib.read_op(r))

        def some(most):
            return [r.choice(ws) if r.random() < 0.8 else r.choice(self.pool) for _ in range(r.randrange(1, most + 1))]

        threads = [some(4) for _ in range(n)]
        mode = r.choice(["rand", "rand", "sites", "pct"])
        if mode == "rand":
            spec = {"mode": "rand", "p": r.choice([0.2, 0.05, 0.01, 0.003, 0.001])}
        elif mode == "sites":
            spec = {"mode": "sites", "salt": r.getrandbits(32), "mod": r.choice([5, 15, 40]), "p": r.choice([1.0, 0.3])}
        else:
            spec = {"mode": "pct", "points": [[r.randrange(n), int(2 ** r.uniform(0, 12))] for _ in range(r.choice([1, 2, 3]))]}
        spec["seed"] = r.getrandbits(48)
        forks = []
        for _ in range(r.choice([1, 1, 2, 3])):
            how = r.choice(["serial", "serial", "serial", "threads", "again"])
            f = {"how": how, "ops": some(3), "before": some(2) if r.random() < 0.3 else [], "seed": r.getrandbits(32)}
            forks.append(f)
        inside = [[r.randrange(n), int(2 ** r.uniform(0, 11)), some(2)] for _ in range(1)] if r.random() < 0.2 else []
        warm = [r.choice(self.pool) for _ in range(r.choice([0, 0, 0, 1, 5]))]
        return {"threads": threads, "forks": forks, "inside": inside, "warm": warm, "after": some(2), "sched": spec, "opcodes": r.random() < 0.2}

    @staticmethod
    def every_op(sc):
        return ([op for t in sc["threads"] for op in t] + [op for f in sc["forks"] for op in f["ops"] + f["before"]] + [op for x in sc["inside"] for op in x[2]]
                + sc["warm"] + sc["after"])

    def prepare(self, sc):
        self.table = pristine.table(self.every_op(sc))

    # -- the forked process
    def fork(self, fn):
        """Fork the (multi-threaded) process; -> what fn() returned in the child, or a complaint."""
        r, w = os.pipe()
        pid = sched.fork()
        if pid == 0:
            try:
                os.close(r)
                core.die_with_parent()
                try:
                    out = {"ok": fn()}
                except sched.Deadlock as e:
                    import traceback
                    out = {"stuck": " / ".join(x.strip() for x in "".join(traceback.format_exception(e)).splitlines()[-7:])}
                except BaseException as e:  # noqa: B902
                    import traceback
                    out = {"exc": "".join(traceback.format_exception(e))[-3000:]}
                data = memoryview(js.encode(out))
                while data:
                    data = data[os.write(w, data):]
            finally:
                os._exit(0)
        os.close(w)
        chunks = []
        end = time.monotonic() + CHILD_WALL_S
        while True:
            rl, _, _ = select.select([r], [], [], max(0, end - time.monotonic()))
            if not rl:
                os.kill(pid, 9)
                os.waitpid(pid, 0)
                os.close(r)
                return {"stuck": "the child was still not done after %d s" % CHILD_WALL_S}
            b = os.read(r, 1 << 16)
            if not b:
                break
            chunks.append(b)
        os.close(r)
        _, st = os.waitpid(pid, 0)
        if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (9, 24):
            return {"stuck": "the child used up its CPU time"}
        if not chunks:
            return {"exc": f"the child ended with status {st}"}
        return js.loads(b"".join(chunks))

    def execute(self, sc):
        table = self.table
        spec = sc["sched"]
        sim = sched.Sim(sched.Decider(spec, random.Random(spec.get("seed", 0))), budget=3_000_000, opcodes=sc["opcodes"])
        cold = not any(op[0] == "read" or any(isinstance(x, list) and x and x[0] == "shared" for x in op) for op in self.every_op(sc))
        shared = [] if cold else lib.make_shared()
        bad, events = [], []
        stats = {"fault:fork": 0, "fault:fork_amid_calls": 0, "fault:fork_inside_own_call": 0, "probe:child_calls": 0, "probe:child_threads": 0, "probe:second_fork": 0,
                 "probe:cold_runs": int(cold and not sc["warm"])}
        busy = [0] * (len(sc["threads"]) + 1)
        stuck = []

        def judge(where, op, got, bad=bad, events=events):
            want = table[pristine.key(op)]
            events.append([where, core.digest(got)])
            if got != want:
                bad.append([where, op, pristine.diff(got, want)])

        def in_the_child(f, where):
            cbad, cev = [], []

            def go():
                ops = f["ops"]
                if f["how"] == "threads":
                    half = (len(ops) + 1) // 2
                    csim = sched.Sim(sched.Decider({"mode": "rand", "p": 0.02}, random.Random(f["seed"])), budget=3_000_000)

                    def body(part):
                        return lambda: [judge(where, op, lib.outcome(op, shared), cbad, cev) for op in part]
                    csim.run([body(ops[:half]), body(ops[half:])])
                    if csim.stats.get("client_errors"):
                        raise core.HarnessError(csim.stats["client_errors"][0])
                    if csim.stopped:
                        return {"stuck": f"{csim.stopped}: {csim.stop_detail}"}
                else:
                    for op in ops[:1] if f["how"] == "again" else ops:
                        judge(where, op, lib.outcome(op, shared), cbad, cev)
                    if f["how"] == "again":
                        def grandchild():
                            for op in ops:
                                judge(where + " (grandchild)", op, lib.outcome(op, shared), cbad, cev)
                            return {"bad": cbad, "events": cev}
                        got = self.fork(grandchild)
                        if "ok" not in got:
                            return got
                        for op in ops:
                            judge(where + " (after its own fork)", op, lib.outcome(op, shared), cbad, cev)
                        return {"bad": got["ok"]["bad"] + cbad, "events": got["ok"]["events"] + cev}
                return {"bad": cbad, "events": cev}
            return go

        def do_fork(f, where, me):
            stats["fault:fork"] += 1
            amid = any(b for i, b in enumerate(busy) if i != me)
            stats["fault:fork_amid_calls"] += amid
            stats["probe:child_threads"] += f["how"] == "threads"
            stats["probe:second_fork"] += f["how"] == "again"
            got = self.fork(in_the_child(f, where))
            inner = got.get("ok", got)
            if "stuck" in inner:
                stuck.append(f"{where}: {inner['stuck']}; operations {ascii(f['ops'])[:300]}")
            elif "exc" in inner:
                raise core.HarnessError(f"{where}: {inner['exc']}")
            else:
                stats["probe:child_calls"] += len(inner["events"])
                events.append(inner["events"])
                bad.extend(inner["bad"])

        for op in sc["warm"]:
            judge("warm", op, lib.outcome(op, shared))

        def client(i, ops):
            def body():
                for op in ops:
                    busy[i] = 1
                    got = lib.outcome(op, shared)
                    busy[i] = 0
                    judge(f"thread {i}", op, got)
            return body

        me = len(sc["threads"])

        def forker():
            sim.point(None, force=True)
            for k, f in enumerate(sc["forks"]):
                for op in f["before"]:
                    judge("forking thread", op, lib.outcome(op, shared))
                do_fork(f, f"child {k}", me)
                sim.point(None, force=True)

        def hook(t, ops):
            def go(frame):
                if sched.HELD.get(t):
                    return
                stats["fault:fork_inside_own_call"] += 1
                do_fork({"how": "serial", "ops": ops}, f"child of thread {t}", t)
            return go

        for t, s, ops in sc["inside"]:
            if t < me:
                sim.hooks[(t, s)] = hook(t, ops)
        sim.run([client(i, ops) for i, ops in enumerate(sc["threads"])] + [forker])
        if sim.stats.get("client_errors"):
            raise core.HarnessError(sim.stats["client_errors"][0])
        viol = None
        if stuck:
            viol = {"class": "child-does-not-finish", "detail": stuck[0]}
        elif sim.stopped:
            viol = {"class": "does-not-finish", "detail": f"{sim.stopped}: {sim.stop_detail}; threads {ascii(sc['threads'])[:600]}"}
        else:
            for op in sc["after"]:
                judge("afterwards", op, lib.outcome(op, shared))
            if bad:
                w, op, d = bad[0]
                viol = {"class": "wrong-outcome", "detail": f"{w}: {ascii(op)[:400]}: {d}"}
        stats.update({"steps": sim.step, "fault:preemption": sim.stats.get("switches", 0), "calls": len(events)})
        res = {"violation": viol, "digest": core.digest([events, sim.record]), "stats": stats,
               "key": core.digest([self.every_op(sc), sim.record]) if stats["fault:fork_amid_calls"] else ""}
        if viol:
            s2 = dict(sc)
            s2["sched"] = {"mode": "replay", "plan": sim.record}
            res["scenario"] = s2
        return res

    def shrinks(self, sc):
        yield ("sched", "plan")
        yield ("inside",)
        yield ("warm",)
        yield ("after",)
        yield ("forks",)
        for i in range(len(sc["forks"])):
            yield ("forks", i, "ops")
            yield ("forks", i, "before")
        for i in range(len(sc["threads"])):
            yield ("threads", i)
        yield ("sched", "plan")

    def on_hang(self, sc):
        return {"class": "does-not-finish", "detail": "the run used more than %d s of CPU or slept for good" % core.RUN_CPU_S}


CHECK = C15()
