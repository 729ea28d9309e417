"""C18 - looking at an object while it is being changed does not spoil the change."""
from __future__ import annotations

import logging
import random
import sys

import core
import gen
import js
import lib
import sched
import steps
import world

MIX = {"url": 1.5, "rec": 0.7, "sp": 0.8, "copy": 0.3, "set": 8, "edit": 2, "call": 6, "attach": 0.6, "rset": 0.6, "drop": 0.15}


class Every:
    """Hooks for every stride-th step; after the first few hundred, further and further apart."""

    def __init__(self, stride, off, hook):
        self.stride, self.off, self.hook = stride, off, hook
        self.left = 300
        self.next = 0

    def get(self, step):
        if step < self.next or (step + self.off) % self.stride:
            return None
        self.left -= 1
        if self.left < 0:
            self.next = step + step // 20
        return self.hook


class Watcher(logging.Handler):
    """A log handler that looks at the objects whenever the library logs (whatever locks the library holds then)."""

    def __init__(self, look):
        super().__init__(logging.DEBUG)
        self.look = look
        self.inside = False
        self.seen = self.next = 0

    def emit(self, record):
        self.seen += 1
        if self.inside or self.seen < self.next:
            return
        if self.seen > 200:
            self.next = self.seen + self.seen // 20
        self.inside = True
        tracer = sys.gettrace()
        sys.settrace(None)
        try:
            self.look()
        finally:
            self.inside = False
            sys.settrace(tracer)

    def watch(self, fn):
        root = logging.getLogger()
        level = root.level
        root.setLevel(logging.DEBUG)
        root.addHandler(self)
        try:
            return fn()
        finally:
            root.removeHandler(self)
            root.setLevel(level)


def look(w, spec):
    """One read; what it gives or raises in the middle of a change is nobody's promise."""
    n, via, what, arg = spec
    o = w.obj.get(n)
    if o is None:
        return False
    if via == "handle":
        o = w.handle.get(n, o)
    try:
        if what == "base":
            P = lib.P
            if isinstance(o, P.URL):
                lib.canon(P.URL("../" + arg, o))
            elif isinstance(o, P.URLRecord):
                lib.canon(P.parse_url("../" + arg, base=o))
        else:
            lib.canon(lib.read(o, what, arg))
    except Exception:
        pass
    return True


class C18(core.Check):
    id = "C18"
    runs = {"quick": 5000, "thorough": 80000}
    batch = 5
    rule = ("A run plays histories of assignments and search-params mutations over live URLs, records and search params while readers look at the same objects (attributes, text, comparison, iteration, copies, "
            "pickles, use as a base): either inside the change, at every n-th line of the library, as a log or signal handler does, or from 1-2 other threads under a seeded schedule. Every operation must end as it "
            "does unobserved, and at the end every object must look as in a twin world without readers. Non-trivial: at least one read fell inside an operation; distinct: different operations, reads and points.")
    measure = "hash of (operations, reads, points or schedule)"
    stub = "threading locks (scheduler-aware replacements) in the threaded runs"
    assumptions = ["what a reader sees or gets raised in the middle of a change is not part of the property", "outside log handlers, readers do not look while the changing call holds a lock of the library"]

    def setup(self):
        lib.load()

    def hist(self, r, sizes, readers):
        g = gen.Gen(r, largest=80)
        hg = world.HistGen(g, r, MIX, objects_max=r.choice([1, 2, 3, 4]))
        ops = hg.ops(r.choice(sizes))
        if r.random() < 0.08:  # many pairs
            q = "&".join(r.choice(["n%d=%d", "a=%d%d", "%d=n%%20%d"]) % (k, r.randrange(9)) for k in range(r.choice([20, 40, 70, 110])))
            for k, op in enumerate(ops):
                if op[0] in ("url", "rec"):
                    ops[k] = [op[0], op[1], "http://h/p?" + q] + op[3:]
                    break
                if op[0] == "sp":
                    ops[k] = [op[0], op[1], q] + op[3:]
                    break
        names = [(n, k) for k, ns in (("URL", hg.urls), ("REC", hg.recs), ("USP", hg.sps)) for n in ns]

        def one():
            n, k = r.choice(names)
            via = "handle" if k == "URL" and r.random() < 0.2 else "object"
            what, arg = lib.read_args(r, "USP" if via == "handle" else k)
            if r.random() < 0.1 and via == "object" and k != "USP":
                what = "base"
            return [n, via, what, arg]
        return ops, [[one() for _ in range(r.choice([1, 1, 2, 3, 5, 8]))] for _ in range(readers)], g.big

    def scenario(self, r, index, tier):
        if r.random() < 0.7:
            hists = []
            for _ in range(self.batch):
                ops, reads, _ = self.hist(r, [2, 3, 4, 6, 10], 1)
                stride = r.choice([1, 3, 5, 7, 7, 13, 29])
                hists.append({"ops": ops, "reads": reads[0], "stride": stride, "off": r.randrange(stride), "records": r.random() < 0.3, "peek": r.random() < 0.3, "lazy": r.random() < 0.4})
            return {"mode": "nested", "hists": hists}
        n = r.choice([1, 1, 2])
        ops, reads, big = self.hist(r, [2, 3, 4, 6], n)
        if r.random() < 0.5:
            spec = {"mode": "rand", "p": r.choice([0.5, 0.2, 0.05])}
        elif r.random() < 0.6:
            spec = {"mode": "sites", "salt": r.getrandbits(32), "mod": r.choice([2, 5, 15]), "p": r.choice([1.0, 0.7, 0.3])}
        else:
            spec = {"mode": "pct", "points": [[r.randrange(n + 1), int(2 ** r.uniform(0, 12))] for _ in range(r.choice([2, 3, 5]))]}
        spec["seed"] = r.getrandbits(48)
        made = 1 + max(i for i, op in enumerate(ops) if op[0] in ("url", "rec", "sp", "copy"))
        made = made if made < len(ops) and r.random() < 0.8 else 1
        return {"mode": "threads", "before": ops[:made], "ops": ops[made:], "readers": [x * r.choice([1, 2, 3] if big else [2, 5, 10]) for x in reads], "sched": spec, "opcodes": not big and r.random() < 0.25, "lazy": r.random() < 0.4}

    @staticmethod
    def attempt(w, op, run):
        if not w.ready(op):
            return "idle"
        try:
            return ["ok", lib.canon(run(lambda: w.do(op)))]
        except Exception as e:
            return ["exc", lib.canon_exc(e)]

    def alone(self, ops, peek, lazy):
        w = world.World(lazy=lazy)
        out = []
        for op in ops:
            x = self.attempt(w, op, lambda f: f())
            out.append([x, w.snapshot() if peek else None])
        return out, w.snapshot()

    def judge(self, ops, got, want, end, twin, what):
        for i, (g, t) in enumerate(zip(got, want)):
            if g[0] != t[0]:
                return {"class": "operation-spoilt", "detail": f"step {i} {ascii(ops[i])}: {ascii(g[0])[:300]}, unobserved {ascii(t[0])[:300]}; {what}; history {ascii(ops[:i])[:700]}"}
            if g[1] != t[1]:
                return {"class": "state-spoilt", "detail": f"after step {i} {ascii(ops[i])}: {world.diff_world(t[1], g[1])} (unobserved first); {what}; history {ascii(ops[:i])[:700]}"}
        if end != twin:
            return {"class": "state-spoilt", "detail": f"at the end: {world.diff_world(twin, end)} (unobserved first); {what}; history {ascii(ops)[:900]}"}
        return None

    def execute(self, sc):
        stats = {"steps": 0, "fault:read_inside_call": 0, "probe:operations": 0, "fault:preemption": 0}
        if sc["mode"] == "threads":
            return self.threads(sc, stats)
        keys, digs, viol = [], [], None
        for h in sc["hists"]:
            w = world.World(lazy=h["lazy"])
            k = [0, 0]

            def hook(frame):
                if any(sched.HELD.values()):
                    return
                glance()

            def glance():
                k[0] += look(w, h["reads"][k[1] % len(h["reads"])])
                k[1] += 1
            got = []
            for op in h["ops"]:
                st = steps.Stepper(Every(h["stride"], h["off"], hook), "line")
                if h["records"]:
                    logged = Watcher(glance)
                    x = self.attempt(w, op, lambda f: logged.watch((lambda: st.run(f)) if h["off"] % 2 else f))
                else:
                    x = self.attempt(w, op, st.run)
                got.append([x, w.snapshot() if h["peek"] else None])
                stats["steps"] += st.step
                stats["probe:operations"] += 1
            want, twin = self.alone(h["ops"], h["peek"], h["lazy"])
            stats["fault:read_inside_call"] += k[0]
            end = w.snapshot()
            viol = self.judge(h["ops"], got, want, end, twin, f"reads {ascii(h['reads'])[:300]} at every {h['stride']} lines")
            digs.append(core.digest([got, end, k]))
            if viol:
                break
            if k[0]:
                keys.append(core.digest(h))
        return {"violation": viol, "digest": core.digest(digs), "keys": keys, "key": keys[0] if keys else "", "stats": stats}

    def threads(self, sc, stats):
        spec = sc["sched"]
        sim = sched.Sim(sched.Decider(spec, random.Random(spec.get("seed", 0))), budget=3_000_000, opcodes=sc["opcodes"])
        w = world.World(lazy=sc["lazy"])
        got = []
        busy = [False]

        def writer():
            for op in sc["ops"]:
                busy[0] = True
                got.append([self.attempt(w, op, lambda f: f()), None])
                busy[0] = False

        def reader(specs):
            def body():
                for s in specs:
                    if len(got) == len(sc["ops"]):
                        return
                    if not look(w, s):
                        sim.point(None, force=True)
                    elif busy[0]:
                        stats["fault:read_inside_call"] += 1
            return body
        for op in sc["before"]:
            self.attempt(w, op, lambda f: f())
        sim.run([writer] + [reader(x) for x in sc["readers"]])
        if sim.stats.get("client_errors"):
            raise core.HarnessError(sim.stats["client_errors"][0])
        if sim.stopped == "budget":
            return {"violation": None, "inconclusive": "step budget", "stats": {"inconclusive": 1}, "key": "", "digest": "budget"}
        if sim.stopped:
            viol = {"class": "does-not-finish", "detail": f"{sim.stopped}: {sim.stop_detail}; {ascii(sc['ops'])[:500]}, readers {ascii(sc['readers'])[:300]}"}
        else:
            want, twin = self.alone(sc["before"] + sc["ops"], False, sc["lazy"])
            viol = self.judge(sc["ops"], got, want[len(sc["before"]):], w.snapshot(), twin, f"reads {ascii(sc['readers'])[:300]} in other threads")
        stats.update({"steps": sim.step, "fault:preemption": sim.stats.get("switches", 0), "probe:threaded_runs": 1, "probe:operations": len(got)})
        res = {"violation": viol, "digest": core.digest([got, sim.record]), "stats": stats, "key": core.digest([sc["before"], sc["ops"], sc["readers"], sim.record]) if stats["fault:read_inside_call"] else ""}
        if viol:
            s2 = dict(sc)
            s2["sched"] = {"mode": "replay", "plan": sim.record}
            res["scenario"] = s2
        return res

    def shrinks(self, sc):
        if sc["mode"] == "threads":
            yield ("sched", "plan")
            yield ("ops",)
            yield ("before",)
            for i in range(len(sc["readers"])):
                yield ("readers", i)
            yield ("sched", "plan")
            return
        yield ("hists",)
        for i in range(len(sc["hists"])):
            yield ("hists", i, "ops")
            yield ("hists", i, "reads")

    def simplify(self, sc):
        if sc["mode"] == "threads":
            return
        for i, h in enumerate(sc["hists"]):
            for c in world.simplify_ops(h):
                s = js.copy(sc)
                s["hists"][i] = c
                yield s

    def on_hang(self, sc):
        return {"class": "does-not-finish", "detail": "the run used more than %d s of CPU" % core.RUN_CPU_S}


CHECK = C18()
