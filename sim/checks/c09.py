"""C09 - a validity report describes exactly the last validation run with it."""
from __future__ import annotations

import js
import os
import random

import core
import gen
import icufault
import lib
import pool
import pristine
import steps

KINDS = ("can_parse", "uv", "scheme", "hv")


class Stop(BaseException):
    pass


def tamper(rep, how):
    try:
        if how == 0:
            rep.error_types.append("tampered")
        elif how == 1:
            rep.descriptions.insert(0, "tampered")
        elif how == 2:
            rep.valid = not rep.valid
        elif how == 3:
            rep.validation_errors += 3
        else:
            rep.error_types.append("tampered")
            rep.descriptions.append("tampered")
            rep.validation_errors += 1
            rep.valid = False
    except AttributeError:
        pass


class C09(core.Check):
    id = "C09"
    runs = {"quick": 10000, "thorough": 250000}
    rule = ("A run performs up to 60 validations with 1-4 reports that are reused in any order; some are interrupted at a chosen point, run under backend failures, or have other validations with other reports run "
            "inside them; some reports are tampered with by the caller in between. After every completed validation its report must equal a fresh report given to the same call in a fresh process, be internally "
            "consistent, and no other report may have changed. Non-trivial: a report was reused; distinct: different (previous use of the report, call, report contents).")
    measure = "hash of (previous use of the report, call, outcome)"
    stub = "ICU IDNA wrapper (faults), asynchronous exceptions raised from a trace function"
    assumptions = ["one report is used by one validation at a time"]

    def setup(self):
        lib.load()
        icufault.install()
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        r = random.Random(core.h("c09", seed))
        ops = [op for op in pool.make(seed, 100) if op[0] in KINDS]
        while len(ops) < 420:
            g = gen.Gen(r, largest=24)
            for _ in range(4):
                op = lib.gen_op(g, r, kinds=list(KINDS) + ["can_parse", "uv", "hv"], log=True)
            if len(repr(op)) < 1200:
                ops.append(op)
        self.pool = []
        for op in ops:
            op = list(op)
            op[-1] = r.choice(["quiet", "quiet", "log"])
            self.pool.append(op)

    def with_rep(self, op, rep):
        op = list(op)
        op[-1] = rep
        return op

    def scenario(self, r, index, tier):
        nrep = r.choice([1, 1, 2, 4])
        reps = [r.choice(["quiet", "quiet", "log"]) for _ in range(nrep)]
        ws = [r.choice(self.pool) for _ in range(r.choice([2, 4, 8]))]
        if r.random() < 0.3:
            k = r.choice(KINDS)
            ws = [op for op in self.pool if op[0] == k]
        calls = []
        for _ in range(r.choice([3, 6, 12, 25, 60])):
            i = r.randrange(nrep)
            op = self.with_rep(r.choice(ws if r.random() < 0.8 else self.pool), reps[i])
            x = r.random()
            how = None
            if x < 0.12:
                how = ["strike", r.choice([r.random(), r.random() ** 4, 1 - r.random() ** 4]) * 0.999999]
            elif x < 0.2:
                how = ["backend", {str(r.choice([0, 1, 2])): r.choice([["error", "U_MEMORY_ALLOCATION_ERROR"], ["errors", "UIDNA_ERROR_DISALLOWED"], ["empty", ""]])}]
            elif x < 0.3:
                j = r.randrange(nrep)
                how = ["nested", r.random(), j if j != i else None, self.with_rep(r.choice(ws), reps[j] if j != i else "quiet")]
            elif x < 0.36:
                how = ["tamper", r.randrange(5)]
            calls.append([i, op, how])
        return {"reps": reps, "calls": calls}

    def prepare(self, sc):
        ops = [c[1] for c in sc["calls"]] + [c[2][3] for c in sc["calls"] if c[2] and c[2][0] == "nested"]
        self.table = pristine.table(ops)

    def execute(self, sc):
        shared = lib.make_shared()
        reports = [lib._report(x) for x in sc["reps"]]
        stats = {"steps": 0, "fault:interrupted": 0, "fault:backend": 0, "fault:nested_validation": 0, "fault:tampered": 0, "probe:reused": 0, "probe:reused_after_failure": 0}
        last = [None] * len(reports)
        keys, digs = [], []

        def bad(n, op, d, cls="report"):
            return {"class": cls, "detail": f"call {n} {ascii(op)[:300]} {d}; reports {sc['reps']}; calls {ascii(sc['calls'][:n])[:900]}"}

        def judge(n, i, op, got):
            want = self.table[pristine.key(op)]
            if got != want:
                return bad(n, op, f"with a report used before for {ascii(last[i])[:200]}: {pristine.diff(got, want)}")
            rep = got.get("report")
            if rep is not None:
                if rep["valid"] != (rep["n"] == 0) or len(rep["types"]) != rep["n"] or len(rep["descriptions"]) != rep["n"]:
                    return bad(n, op, f"left an inconsistent report {ascii(rep)[:300]}", "inconsistent")
            return None

        viol = None
        for n, (i, op, how) in enumerate(sc["calls"]):
            rep = reports[i]
            stats["steps"] += 1
            before = [lib.snap_val(x) for x in reports]
            touched = {i}
            completed = True
            got = None
            if how and how[0] == "tamper":
                stats["fault:tampered"] += 1
                tamper(rep, how[1])
                mid = [lib.snap_val(x) for x in reports]
                shared_with = [k for k in range(len(reports)) if k != i and mid[k] != before[k]]
                if shared_with:
                    viol = bad(n, op, f"reports {i} and {shared_with} share contents", "shared")
                    break
                got = lib.outcome(op, shared, report=rep)
            elif how and how[0] == "strike":
                total = steps.count(lambda: lib.outcome(op, shared), "async")
                exc = Stop()

                def hook(frame):
                    raise exc
                st = steps.Stepper({1 + int(how[1] * total): hook}, "async")
                try:
                    got = st.run(lambda: lib.outcome(op, shared, report=rep))
                    completed = not st.fired
                except Stop:
                    completed = False
                stats["fault:interrupted"] += int(not completed)
            elif how and how[0] == "backend":
                plan = icufault.Plan(how[1])
                got = icufault.under(plan, lambda: lib.outcome(op, shared, report=rep))
                if plan.fired:
                    stats["fault:backend"] += 1
                    completed = False
                    s = lib.snap_val(rep)
                    if s["valid"] != (s["n"] == 0) or len(s["types"]) != s["n"] or len(s["descriptions"]) != s["n"]:
                        viol = bad(n, op, f"under a backend failure left an inconsistent report {ascii(s)[:300]}", "inconsistent")
                        break
            elif how and how[0] == "nested":
                inner = []
                j = how[2]
                r2 = reports[j] if j is not None else lib._report(how[3][-1])
                if j is not None:
                    touched.add(j)
                total = steps.count(lambda: lib.outcome(op, shared), "line")

                def nest(frame):
                    inner.append(lib.outcome(how[3], shared, report=r2))
                st = steps.Stepper({1 + int(how[1] * total): nest}, "line")
                got = st.run(lambda: lib.outcome(op, shared, report=rep))
                if inner:
                    stats["fault:nested_validation"] += 1
                    want = self.table[pristine.key(how[3])]
                    if inner[0] != want:
                        viol = bad(n, how[3], f"run inside {ascii(op)[:200]}: {pristine.diff(inner[0], want)}")
                        break
                    if j is not None:
                        if lib.snap_val(r2) != want.get("report"):
                            viol = bad(n, how[3], "its report was changed by the validation it was nested in")
                            break
                        last[j] = how[3]
            else:
                got = lib.outcome(op, shared, report=rep)
            if completed:
                viol = judge(n, i, op, got)
                if viol:
                    break
                digs.append(core.digest(got))
            after = [lib.snap_val(x) for x in reports]
            others = [k for k in range(len(reports)) if k not in touched and after[k] != before[k]]
            if others:
                viol = bad(n, op, f"changed report {others[0]}, which it was not given: {ascii(before[others[0]])[:200]} -> {ascii(after[others[0]])[:200]}", "shared")
                break
            if last[i] is not None:
                stats["probe:reused"] += 1
                if last[i] == "aborted":
                    stats["probe:reused_after_failure"] += 1
                keys.append(core.digest([last[i], op, how and how[0], after[i]]))
            last[i] = op if completed else "aborted"
        return {"violation": viol, "digest": core.digest(digs), "keys": keys, "key": keys[0] if keys else "", "stats": stats}

    def shrinks(self, sc):
        yield ("calls",)

    def simplify(self, sc):
        for i, c in enumerate(sc["calls"]):
            if c[2] is not None:
                s = js.copy(sc)
                s["calls"][i][2] = None
                yield s


CHECK = C09()
