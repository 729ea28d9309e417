"""C11 - iterating search params is safe while they are being changed."""
from __future__ import annotations

import core
import gen
import lib
import world

MIX = {"url": 0.6, "sp": 0.6, "copy": 0.1, "set": 1.5, "call": 7, "look": 0.2}
KINDS = ["iter", "entries", "keys", "values"]


class Gen11(world.HistGen):
    its = 0

    def op(self):
        r = self.r
        x = r.random()
        if self.its == 0 or x < 0.08:
            self.its += 1
            return ["open", f"i{self.its}", r.choice(self.urls * 2 + self.sps), r.randrange(2), r.choice(KINDS)]
        if x < self.p_next:
            return ["next", f"i{r.randrange(self.its) + 1}", r.choice([1, 1, 1, 2, 5])]
        return super().op()

    def assign(self):
        g, r = self.g, self.r
        if r.random() < 0.7:
            return ["set", r.choice(self.urls), "search", r.choice(["", "?" + g.query(), "a=1&b=2&c=3&d=4", g.query()])]
        return super().assign()


def make_iter(sp, kind):
    return iter(sp) if kind == "iter" else iter(getattr(sp, kind)())


def project(pair, kind):
    return pair[0] if kind == "keys" else pair[1] if kind == "values" else pair


class C11(core.Check):
    id = "C11"
    runs = {"quick": 18000, "thorough": 400000}
    batch = 10
    rule = ("A run is a set of histories of up to 80 steps in which several iterators (iteration, entries, keys, values) over live search params are advanced between mutations made "
            "through any handle, then driven to their end. Every advance must not raise anything but the end of the iteration, must yield a pair the object held since the iterator was "
            "opened, and must change nothing; with no mutation between opening and end the pairs come out exactly; once mutations stop the iterator ends within its bound. "
            "Non-trivial: an iterator was advanced after a mutation made since it was opened; distinct: different sequences of (mutation, advance) and pair lists.")
    measure = "hash of the interleaving of advances and mutations with the pair lists"
    assumptions = ["the interleaving is the order of whole operations"]

    def setup(self):
        lib.load()

    def scenario(self, r, index, tier):
        hists = []
        for _ in range(self.batch):
            g = gen.Gen(r)
            hg = Gen11(g, r, MIX, objects_max=r.choice([1, 2, 3]))
            hg.p_next = r.choice([0.2, 0.4, 0.6])
            first = ["url", "u1", "http://h/?" + "&".join(g.name() + "=" + g.pick(gen.VALUES[:8]) for _ in range(g.size(0, 1, 3, 6))), None]
            ops = hg.ops(r.choice([6, 12, 25, 80]))
            ops[0] = first
            hists.append(ops)
        return {"hists": hists}

    def execute(self, sc):
        stats = {"steps": 0, "fault:mutation_during_iteration": 0, "probe:advance_after_mutation": 0, "probe:undisturbed_iteration": 0, "probe:exhausted": 0, "probe:grew_while_iterating": 0}
        keys, digs = [], []
        viol = None
        for ops in sc["hists"]:
            v, key, dig = self.one(ops, stats)
            digs.append(dig)
            if key:
                keys.append(key)
            if v:
                viol = v
                break
        return {"violation": viol, "digest": core.digest(digs), "keys": keys, "key": keys[0] if keys else "", "stats": stats}

    def one(self, ops, stats):
        w = world.World()
        its = {}
        trail = []
        interesting = False

        def bad(cls, step, op, d):
            return {"class": cls, "detail": f"step {step} {ascii(op)}: {d}; history {ascii(ops[:step])[:800]}"}, None, "v"

        def advance(name, step, op):
            """-> (finished, complaint)"""
            it = its[name]
            if it["over"]:
                # an exhausted iterator may stay exhausted; it must not raise anything else
                try:
                    next(it["it"])
                except StopIteration:
                    return True, None
                except Exception as e:
                    return True, bad("iterator-raised", step, op, f"{name} after its end raised {ascii(repr(e))[:200]}")
                it["over"] = False  # it may resume when pairs were added; judged by membership below is not possible here
                it["resumed"] = True
                return False, None
            before = w.snapshot()
            try:
                x = next(it["it"])
            except StopIteration:
                it["over"] = True
                stats["probe:exhausted"] += 1
                if not it["mutated"]:
                    stats["probe:undisturbed_iteration"] += 1
                    want = [project(p, it["kind"]) for p in it["at_open"]]
                    if it["out"] != want:
                        return True, bad("undisturbed", step, op, f"{it['kind']} over unchanged search params gave {ascii(it['out'])}, they hold {ascii(want)}")
                if w.snapshot() != before:
                    return True, bad("advance-changed-state", step, op, f"ending {name} changed {world.diff_world(before, w.snapshot())}")
                return True, None
            except Exception as e:
                return True, bad("iterator-raised", step, op, f"{name} ({it['kind']}) raised {ascii(repr(e))[:200]}")
            after = w.snapshot()
            if after != before:
                return False, bad("advance-changed-state", step, op, f"advancing {name} changed {world.diff_world(before, after)}")
            it["out"].append(x)
            if it["mutated"]:
                stats["probe:advance_after_mutation"] += 1
            ok = {project(p, it["kind"]) for p in it["held"]}
            if x not in ok:
                return False, bad("foreign-pair", step, op, f"{name} ({it['kind']}) yielded {ascii(x)}, which the search params never held since it was opened")
            if not it["mutated"]:
                i = len(it["out"]) - 1
                want = [project(p, it["kind"]) for p in it["at_open"]]
                if i >= len(want) or want[i] != x:
                    return False, bad("undisturbed", step, op, f"{it['kind']} over unchanged search params yielded {ascii(x)} at {i}, they hold {ascii(want)}")
            return False, None

        def track(step, op):
            for name, it in its.items():
                sp = it["sp"]
                pairs = [sp[i] for i in range(len(sp))]
                if pairs != it["last"]:
                    it["mutated"] = True
                    stats["fault:mutation_during_iteration"] += 1
                    if len(pairs) > len(it["last"]):
                        stats["probe:grew_while_iterating"] += 1
                    it["last"] = pairs
                    it["held"] |= set(pairs)

        for step, op in enumerate(ops):
            if op[0] == "open":
                sp = w.sp(op[2], op[3])
                if sp is None:
                    continue
                before = w.snapshot()
                pairs = [sp[i] for i in range(len(sp))]
                try:
                    it = make_iter(sp, op[4])
                except Exception as e:
                    return bad("iterator-raised", step, op, f"opening raised {ascii(repr(e))[:200]}")
                if w.snapshot() != before:
                    return bad("advance-changed-state", step, op, "opening an iterator changed " + world.diff_world(before, w.snapshot()))
                its[op[1]] = {"it": it, "sp": sp, "kind": op[4], "at_open": pairs, "last": pairs, "held": set(pairs), "owner": op[2], "mutated": False, "out": [], "over": False}
                stats["steps"] += 1
                continue
            if op[0] == "next":
                if op[1] not in its:
                    continue
                for _ in range(op[2]):
                    stats["steps"] += 1
                    fin, v = advance(op[1], step, op)
                    if v:
                        return v
                    if its[op[1]]["mutated"]:
                        interesting = True
                    if fin:
                        break
                trail.append([op[1], len(its[op[1]]["out"])])
                continue
            if not w.ready(op):
                continue
            stats["steps"] += 1
            try:
                w.do(op)
            except Exception:
                pass
            if op[0] in ("set", "call"):
                for it in its.values():
                    if it["owner"] == op[1] and op[3:4] not in (["get"], ["get_all"], ["has"]):
                        it["mutated"] = True
            track(step, op)
            trail.append([op[1], core.digest([list(map(list, it["last"])) for it in its.values()])])
        # mutations have stopped: every iterator must end
        for name, it in its.items():
            bound = len(it["out"]) + sum(map(len, [it["last"]])) + len(it["at_open"]) + len(it["held"]) + 2 * len(ops) + 8
            for _ in range(bound):
                fin, v = advance(name, len(ops), ["drain", name])
                if v:
                    return v
                if fin:
                    break
            else:
                return bad("never-ends", len(ops), ["drain", name], f"{name} ({it['kind']}) yielded more than {bound} items after mutations stopped")
        return None, (core.digest(trail) if interesting else None), core.digest([ops, trail])

    def shrinks(self, sc):
        yield ("hists",)
        for i in range(len(sc["hists"])):
            yield ("hists", i)

    def simplify(self, sc):
        for i, ops in enumerate(sc["hists"]):
            for c in world.simplify_ops({"ops": ops}):
                s = dict(sc)
                s["hists"] = sc["hists"][:i] + [c["ops"]] + sc["hists"][i + 1:]
                yield s


CHECK = C11()
