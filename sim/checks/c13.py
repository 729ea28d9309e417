"""C13 - objects survive a restart: a copied or pickled and restored object goes on exactly as the original would."""
from __future__ import annotations

import copy
import os
import pickle
import subprocess
import sys

if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

import core
import gen
import js
import lib
import world

MIX = {"url": 2, "rec": 1.2, "sp": 1.4, "copy": 0.4, "set": 6, "edit": 0.8, "call": 7, "attach": 0.5, "rset": 0.7, "look": 0.4, "drop": 0.2}


class W13(world.World):
    """A world whose objects can be stored and restored."""

    def together(self):
        return {"obj": self.obj, "kind": self.kind, "handle": self.handle}

    def restore(self, d):
        self.obj, self.kind, self.handle = d["obj"], d["kind"], d["handle"]

    def snap(self, n):
        d = super().snap(n)
        if self.kind[n] != "rec":
            sp = self.obj[n].search_params if self.kind[n] == "url" else self.obj[n]
            names = sorted({x[0] for x in sp})[:4] + ["a"]
            d["reads"] = [[x, sp.get(x), list(sp.get_all(x)), sp.has(x), x in sp, sp.has(x, "1")] for x in names]
        return d

    def apart(self, how):
        """Replace every object that is linked to no other by a copy of its own; the handles are taken anew."""
        for n in sorted(self.obj):
            k = self.kind[n]
            if k == "url" or (k == "rec" and n not in self.linked.values()) or (k == "sp" and n not in self.linked):
                self.obj[n] = how(self.obj[n])
                if k == "url":
                    self.handle.pop(n, None)

    def __init__(self, lazy=False):
        super().__init__(lazy)
        self.linked = {}

    def do(self, op):
        v = super().do(op)
        if op[0] == "attach" and isinstance(op[2], str):
            self.linked[op[1]] = op[2]
        elif op[0] == "sp" and isinstance(op[2], list) and op[2] and op[2][0] == "@" and self.kind[op[2][1]] == "rec":
            self.linked[op[1]] = op[2][1]
        elif op[0] == "drop":
            self.linked[op[1]] = "?"
        elif op[0] in ("deep", "pickle") and op[2] in self.linked:
            self.linked[op[1]] = "?"  # the copy is attached to a copy of the record
        return v


def play(w, ops, start, restarts, remote=None):
    """-> (log, complaint, step reached).  Restarts are honoured if asked for; remote(world, step) takes over at the first real restart."""
    log = []
    for step in range(start, len(ops)):
        op = ops[step]
        if op[0] == "restart":
            if not restarts:
                continue
            before = {n: w.snap(n) for n in sorted(w.obj)}
            try:
                if op[1] == "process" and remote is not None:
                    return log, remote(w, step), step
                d = restart(w, op)
            except core.HarnessError:
                raise
            except Exception as e:
                return log, f"at step {step} {ascii(op)} raised {ascii(repr(e))[:300]}", step
            if d:
                return log, f"at step {step} {ascii(op)}: {d}", step
            after = {n: w.snap(n) for n in sorted(w.obj)}
            if before != after:
                return log, f"at step {step} {ascii(op)} the restored objects differ: {world.diff_world(before, after)}", step
            continue
        if not w.ready(op):
            continue
        r = lib.attempt(lambda: w.do(op))
        log.append([step, r, w.snapshot()])
    return log, "", len(ops)


def restart(w, op):
    how = op[1]
    if how == "process":
        w.restore(pickle.loads(pickle.dumps(w.together(), op[2])))
    elif how == "deep":
        w.restore(copy.deepcopy(w.together()))
    else:
        old = dict(w.obj)
        w.apart(copy.deepcopy if how == "deep-each" else lambda o: pickle.loads(pickle.dumps(o, op[2])))
        return same(old, w)
    return ""


def same(old, w):
    for n in sorted(old):
        a, b = old[n], w.obj[n]
        if a is b:
            continue
        if not (a == b) or (a != b):
            return f"{n} and its copy are not equal"
        if type(a) is not type(b):
            return f"the copy of {n} is a {type(b).__name__}"
    return ""


class Other:
    """Another interpreter (own hash seed) that restores worlds and plays on, each in a fresh child."""

    def __init__(self, hashseed):
        env = dict(os.environ)
        env["PYTHONHASHSEED"] = hashseed
        self.p = subprocess.Popen([sys.executable, "-B", os.path.abspath(__file__)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)

    def play(self, blob, linked, ops, step):
        token = f"{os.getpid()}-{step}-{core.digest([len(blob), ops])}"
        self.p.stdin.write(js.encode({"token": token, "blob": blob.hex(), "linked": linked, "ops": ops, "step": step}) + b"\n")
        self.p.stdin.flush()
        while True:
            line = self.p.stdout.readline()
            if not line:
                raise core.HarnessError("the other interpreter died")
            d = js.loads(line)
            if d["token"] == token:
                return d


def serve():
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    lib.load()
    for line in sys.stdin.buffer:
        m = js.loads(line)

        def go():
            w = W13()
            w.restore(pickle.loads(bytes.fromhex(m["blob"])))
            w.linked = m["linked"]
            first = w.snapshot()
            log, bad, _ = play(w, m["ops"], m["step"] + 1, True)
            return {"first": first, "log": log, "bad": bad}
        kind, v = core.in_child(go)
        out.write(js.encode({"token": m["token"], "kind": kind, "value": v}) + b"\n")
        out.flush()


class C13(core.Check):
    id = "C13"
    level = "fault_enumeration"
    runs = {"quick": 16000, "thorough": 250000}
    batch = 4
    rule = ("A run plays histories of up to 40 operations over live URLs, records and search params twice: once undisturbed, and once with restarts at chosen points, where all objects are deep-copied, or pickled "
            "(any protocol) and restored, together or each by itself, in the same process or in another interpreter with another hash seed that plays on from there with nothing but the pickle. Every later result, error and "
            "snapshot must be the same as in the undisturbed history. Non-trivial: operations were performed after a restart; distinct: different (history, restart points and kinds).")
    measure = "hash of (operations, restart points, snapshots)"
    assumptions = ["exceptions and iterators are not stored", "shallow copies (copy.copy) are outside the property"]

    def setup(self):
        lib.load()
        self.other = Other("4242")

    def scenario(self, r, index, tier):
        hists = []
        for _ in range(self.batch):
            g = gen.Gen(r)
            hg = world.HistGen(g, r, MIX, objects_max=r.choice([1, 2, 4, 6]))
            ops = hg.ops(r.choice([3, 6, 10, 20, 40]))
            for _ in range(r.choice([1, 1, 2, 3])):
                how = r.choice(["deep", "deep-each", "pickle-each", "process"])
                ops.insert(r.randrange(1, len(ops) + 1), ["restart", how, r.randrange(2, 6)])
            hists.append(ops)
        return {"hists": hists}

    def execute(self, sc):
        stats = {"steps": 0, "fault:restart_deep": 0, "fault:restart_deep-each": 0, "fault:restart_pickle-each": 0, "fault:restart_process": 0, "probe:operations_after_restart": 0}
        keys, digs = [], []
        viol = None
        for ops in sc["hists"]:
            v, key, dig = self.one(ops, stats)
            digs.append(dig)
            if key:
                keys.append(key)
            if v:
                viol = v
                break
        return {"violation": viol, "digest": core.digest(digs), "keys": keys, "key": keys[0] if keys else "", "stats": stats}

    def one(self, ops, stats):
        plain, _, _ = play(W13(), ops, 0, False)
        stats["steps"] += len(plain)
        rest = []

        def bad(cls, d):
            return {"class": cls, "detail": f"{d}; history {ascii(ops)[:1200]}"}, None, "v"

        for step, r, _ in plain:
            if ops[step][0] in ("deep", "pickle") and r[0] != "ok":
                return bad("not-restored", f"step {step} {ascii(ops[step])} raised {ascii(r[1])[:300]}")

        def remote(w, step):
            d = self.other.play(pickle.dumps(w.together(), ops[step][2]), w.linked, ops, step)
            rest.append((step, d, w.snapshot()))
            return ""

        w = W13()
        log, complaint, at = play(w, ops, 0, True, remote)
        if complaint:
            return bad("not-restored", complaint)
        if rest:
            step, d, before = rest[0]
            if d["kind"] == "cpu":
                return bad("does-not-finish", f"after the restart at step {step} the history does not finish")
            if d["kind"] == "exc":
                if f'File "{lib.SRC}/' in d["value"] or "unpickl" in d["value"].lower() or "pickle" in d["value"].lower():
                    return bad("not-restored", f"after the restart at step {step}: {d['value'][-700:]}")
                raise core.HarnessError(d["value"])
            if d["kind"] != "ok":
                return None, None, "inconclusive"
            if d["value"]["first"] != before:
                return bad("not-restored", f"at step {step} {ascii(ops[step])} the objects restored in another process differ: {world.diff_world(before, d['value']['first'])}")
            if d["value"]["bad"]:
                return bad("not-restored", d["value"]["bad"])
            log = log + d["value"]["log"]
        first = next((i for i, op in enumerate(ops) if op[0] == "restart"), len(ops))
        for op in ops:
            if op[0] == "restart":
                stats["fault:restart_" + op[1]] += 1
        stats["probe:operations_after_restart"] += sum(1 for x in log if x[0] > first)
        for a, b in zip(plain, log):
            if a != b:
                what = f"result {ascii(b[1])[:250]} instead of {ascii(a[1])[:250]}" if a[:2] != b[:2] else world.diff_world(a[2], b[2])
                return bad("goes-on-differently", f"after a restart step {b[0]} {ascii(ops[b[0]])} gives {what}")
        if len(plain) != len(log):
            return bad("goes-on-differently", "a different number of operations was possible")
        return None, core.digest([ops, log[-1:]]), core.digest([ops, log])

    def shrinks(self, sc):
        yield ("hists",)
        for i in range(len(sc["hists"])):
            yield ("hists", i)

    def simplify(self, sc):
        for i, ops in enumerate(sc["hists"]):
            for c in world.simplify_ops({"ops": ops}):
                s = dict(sc)
                s["hists"] = sc["hists"][:i] + [c["ops"]] + sc["hists"][i + 1:]
                yield s


if __name__ == "__main__":
    serve()
else:
    CHECK = C13()
