"""C16 - a call that fails or is cut short in one thread does not disturb the others."""
from __future__ import annotations

import _thread
import asyncio
import os
import random
import sys

import core
import icufault
import lib
import pool
import pristine
import sched

HOT = ["b\u00fccher.example", "a_b.example", "xn--a-ecp.ru", "stra\u00dfe.de", "ab--c.d", "example.com"]
IDNA_KINDS = ("URL", "parse_url", "basic", "can_parse", "uv", "hv", "host", "ascii", "unicode", "equals", "urlparse", "hist", "origin")


class BaseStrike(BaseException):
    pass


EXC = {"interrupt": KeyboardInterrupt, "memory": MemoryError, "cancel": asyncio.CancelledError, "base": BaseStrike}


class ThreadPlan:
    """Backend faults that hit the calls of chosen threads only."""

    def __init__(self, sim):
        self.sim = sim
        self.now = {}  # thread -> the Plan of its present operation
        self.flagged = {}

    def next(self, what):
        p = self.now.get(self.sim.by_ident.get(_thread.get_ident()))
        return p.next(what) if p else None


def draw_fault(r):
    def one():
        k = r.choice(["error", "error", "error", "errors", "empty", "forbidden"])
        return [k, r.choice({"error": icufault.CODES, "errors": icufault.ERRORS, "empty": [""], "forbidden": icufault.FORBIDDEN}[k])]
    if r.random() < 0.3:
        return {"0": one()}
    return {str(r.choice([1, 1, 1, 1, 2, 3])): one()}


class C16(core.Check):
    id = "C16"
    runs = {"quick": 12000, "thorough": 120000}
    rule = ("A run starts 2-4 client threads with 1-4 operations each under a seeded schedule, cold or warm; chosen operations of chosen threads are struck by an asynchronous exception at a "
            "chosen delivery point, or their calls to the IDNA backend fail. Every operation not struck, in whatever thread, during or after, must give what it gives alone in a fresh process and finish. "
            "Non-trivial: a fault fired while another thread was inside a call; distinct: different schedule, operations and faults.")
    stub = "threading locks and time.sleep (scheduler-aware replacements); ICU IDNA calls pass through a fault-injecting wrapper around the real backend"
    assumptions = ["what the struck operation itself does is decided by C07 and C08", "exceptions are delivered where CPython delivers them; preemption at line or opcode events of library frames, "
                   "not while a struck call unwinds", "mutating one object from several threads at once is not part of the property"]
    measure = "hash of the recorded schedule, operations and faults"

    def setup(self):
        lib.load()
        icufault.install()
        sys.unraisablehook = lambda *a: None  # a blow that falls in a generator being finalised is reported, not raised
        self.pool = pool.make(int(os.environ.get("VERIF_SEED", "1") or 1), 330)
        self.idna = [op for op in self.pool if op[0] in IDNA_KINDS]
        self.hot = [op for op in self.idna if op[0] in ("ascii", "unicode", "host", "hv")] + [["ascii", d, b, "quiet"] for d in HOT for b in (False, True)] + [["unicode", d, False, "quiet"] for d in HOT]

    def scenario(self, r, index, tier):
        n = r.choice([2, 2, 2, 3, 3, 4])
        hot = r.random() < 0.3
        src = self.hot if hot else self.idna if r.random() < 0.6 else self.pool
        ws = [r.choice(src) for _ in range(r.choice([1, 2, 3, 6]))]
        if r.random() < (0.1 if hot else 0.4):
            k = pool.family(r.choice(src))
            ws = [op for op in src if pool.family(op) == k]
            ws = [r.choice(ws) for _ in range(r.choice([2, 3, 5]))]
        if r.random() < 0.2:
            ws += [lib.read_op(r) for _ in range(2)]
        threads = [[r.choice(ws) for _ in range(r.choice([2, 3, 4, 6] if hot else [1, 1, 2, 3, 4]))] for _ in range(n)]
        mode = r.choice(["rand", "rand", "sites", "pct"])
        if mode == "rand":
            spec = {"mode": "rand", "p": r.choice([0.5, 0.2, 0.05, 0.01])}
        elif mode == "sites":
            spec = {"mode": "sites", "salt": r.getrandbits(32), "mod": r.choice([2, 5, 15, 40]), "p": r.choice([1.0, 0.7, 0.3])}
        else:
            spec = {"mode": "pct", "points": [[r.randrange(n), int(2 ** r.uniform(0, 12))] for _ in range(r.choice([2, 3, 5]))]}
        spec["seed"] = r.getrandbits(48)
        opcodes = r.random() < 0.35
        blows = []
        for _ in range(r.choice([1, 1, 2, 3])):
            t = r.randrange(n)
            k = r.randrange(len(threads[t])) if r.random() < 0.6 else 0
            if r.random() < 0.5:
                blows.append([t, k, "strike", int(2 ** r.uniform(0, 9 if opcodes else 6)), r.choice(sorted(EXC))])
            else:
                blows.append([t, k, "backend", draw_fault(r)])
        warm = [r.choice(self.pool) for _ in range(r.choice([0, 0, 0, 1, 4]))]
        return {"threads": threads, "blows": blows, "warm": warm, "after": [r.choice(ws) for _ in range(2)] + [r.choice(self.idna)], "sched": spec, "opcodes": opcodes}

    @staticmethod
    def every_op(sc):
        return [op for t in sc["threads"] for op in t] + sc["warm"] + sc["after"]

    def prepare(self, sc):
        self.table = pristine.table(self.every_op(sc))

    def execute(self, sc):
        table = self.table
        spec = sc["sched"]
        sim = sched.Sim(sched.Decider(spec, random.Random(spec.get("seed", 0))), budget=3_000_000, opcodes=sc["opcodes"])
        cold = not any(op[0] == "read" or any(isinstance(x, list) and x and x[0] == "shared" for x in op) for op in self.every_op(sc))
        shared = [] if cold else lib.make_shared()
        before = [] if cold else [lib.canon(x) for x in lib.make_shared()]
        bad, events = [], []
        busy = [0] * len(sc["threads"])
        stats = {"fault:backend": 0, "fault:fired_amid_calls": 0, "probe:other_calls": 0, "probe:struck_calls": 0, "probe:cold_runs": int(cold and not sc["warm"])}
        plan = ThreadPlan(sim)

        def judge(where, op, got):
            want = table[pristine.key(op)]
            events.append([where, core.digest(got)])
            stats["probe:other_calls"] += 1
            if got != want:
                bad.append([where, op, pristine.diff(got, want)])

        for op in sc["warm"]:
            judge("warm", op, lib.outcome(op, shared))

        def fired(kind, i):
            stats["fault:" + kind] = stats.get("fault:" + kind, 0) + 1
            stats["fault:fired_amid_calls"] += any(b for j, b in enumerate(busy) if j != i)

        def client(i, ops):
            def body():
                for k, op in enumerate(ops):
                    blow = next((b for b in sc["blows"] if b[0] == i and b[1] == k), None)
                    busy[i] = 1
                    struck = []
                    if blow is None:
                        got = lib.outcome(op, shared)
                    elif blow[2] == "backend":
                        p = plan.now[i] = icufault.Plan(blow[3])
                        got = lib.outcome(op, shared)
                        del plan.now[i]
                        if p.fired:
                            struck.append(p.fired)
                            fired("backend", i)
                    else:
                        exc = EXC[blow[4]]()

                        def hit(frame, exc=exc):
                            struck.append(blow[4])
                            fired(blow[4], i)
                            raise exc
                        sim.strike[i] = [blow[3], hit]
                        try:
                            got = lib.outcome(op, shared)
                        except BaseException as e:
                            if e is not exc:
                                raise
                            got = "struck"
                        sim.strike.pop(i, None)
                        if struck:
                            sim.resume_tracing()
                    busy[i] = 0
                    if struck:
                        stats["probe:struck_calls"] += 1
                        events.append([i, k, core.digest(struck)])
                    else:
                        judge(f"thread {i}", op, got)
            return body

        icufault.under(plan, lambda: sim.run([client(i, ops) for i, ops in enumerate(sc["threads"])]))
        if sim.stats.get("client_errors"):
            raise core.HarnessError(sim.stats["client_errors"][0])
        viol = None
        if sim.stopped:
            viol = {"class": "does-not-finish", "detail": f"{sim.stopped}: {sim.stop_detail}; threads {ascii(sc['threads'])[:500]}, faults {ascii(sc['blows'])[:300]}"}
        else:
            for op in sc["after"]:
                judge("afterwards", op, lib.outcome(op, shared))
            if [lib.canon(x) for x in shared] != before:
                bad.append(["shared object", None, "changed"])
            if bad:
                w, op, d = bad[0]
                viol = {"class": "disturbed", "detail": f"{w}: {ascii(op)[:400]}: {d}; faults {ascii(sc['blows'])[:400]}"}
        stats.update({"steps": sim.step, "fault:preemption": sim.stats.get("switches", 0), "probe:lock_contention": sim.stats.get("blocked", 0)})
        res = {"violation": viol, "digest": core.digest([events, sim.record]), "stats": stats,
               "key": core.digest([self.every_op(sc), sc["blows"], sim.record]) if stats["fault:fired_amid_calls"] else ""}
        if viol:
            s2 = dict(sc)
            s2["sched"] = {"mode": "replay", "plan": sim.record}
            res["scenario"] = s2
        return res

    def shrinks(self, sc):
        yield ("sched", "plan")
        yield ("blows",)
        yield ("warm",)
        yield ("after",)
        yield ("sched", "plan")

    def on_hang(self, sc):
        return {"class": "does-not-finish", "detail": "the run used more than %d s of CPU" % core.RUN_CPU_S}


CHECK = C16()
