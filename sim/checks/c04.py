"""C04 - a URL object follows the URL Standard through every assignment history."""
from __future__ import annotations

import core
import gen
import lib
import model as M
import mworld
import world

MIX = {"url": 2, "copy": 0.3, "set": 10, "edit": 2, "call": 2.5, "look": 0.4}


class C04(core.Check):
    id = "C04"
    runs = {"quick": 28000, "thorough": 900000}
    batch = 12
    rule = ("A run is a history of up to 40 operations over 1-3 live URL objects held by several holders: constructions (also against live bases), assignments to "
            "all ten attributes drawn from WPT-derived and generated values, search-params mutations through either handle, copies, rejected operations; after every "
            "operation all eleven attributes of every live URL, its string form and acceptance are compared with the reference model. Non-trivial: at least one "
            "assignment changed something; distinct: different sequences of model states.")
    measure = "hash of the sequence of hrefs the history went through"
    stub = "none (ICU is shared by the code and the model for domain mapping)"
    assumptions = ["the reference model (sim/model.py) renders the July 2023 URL Standard; it agrees with the 1 600 WPT vectors in the repository",
                   "the interleaving of holders is the order of whole operations; preemption inside an operation on one shared URL is not claimed"]

    def setup(self):
        lib.load()

    def scenario(self, r, index, tier):
        hists = []
        for _ in range(self.batch):
            g = gen.Gen(r)
            hg = world.HistGen(g, r, MIX, objects_max=r.choice([1, 1, 2, 3]))
            ops = hg.ops(r.choice([2, 4, 4, 8, 16, 40]))
            if r.random() < 0.35:  # look at the objects only now and then, or only at the end
                ops.insert(0, ["seldom", r.choice([2, 3, 7, 100])])
            hists.append(ops)
        return {"hists": hists}

    def compare(self, w, mw, n):
        u, m = w.obj[n], mw.obj[n]
        want = m.snapshot()
        for a in lib.URL_ATTRS:
            got = getattr(u, a)
            if got != want[a]:
                return f"{n}.{a} is {ascii(got)}, the standard says {ascii(want[a])}"
        if str(u) != want["href"]:
            return f"str({n}) is {ascii(str(u))}, the standard says {ascii(want['href'])}"
        return ""

    def execute(self, sc):
        stats = {"steps": 0, "fault:rejected_operation": 0, "fault:ignored_assignment": 0, "probe:effective_assignment": 0, "probe:search_params_write": 0,
                 "probe:failed_construction": 0}
        keys, digs = [], []
        viol = None
        for ops in sc["hists"]:
            v, key, dig = self.one(ops, stats)
            digs.append(dig)
            if key:
                keys.append(key)
            if v:
                viol = v
                break
        return {"violation": viol, "digest": core.digest(digs), "keys": keys, "key": keys[0] if keys else "", "stats": stats}

    def one(self, ops, stats):
        seldom = ops[0][1] if ops and ops[0][0] == "seldom" else 1
        w, mw = world.World(lazy=seldom > 1), mworld.MWorld()
        trail = []
        effective = 0
        for step, op in enumerate(ops):
            if op[0] == "seldom" or not w.ready(op):
                continue
            stats["steps"] += 1
            before = {n: m.rec.href() for n, m in mw.obj.items() if mw.kind[n] == "url"}
            merr = rerr = None
            try:
                mw.do(op)
            except M.Failure:
                merr = "failure"
            except mworld.Unspecified:
                break
            try:
                w.do(op)
            except Exception as e:
                rerr = e
            must_agree = op[0] == "url" or (op[0] in ("set", "edit") and op[2] == "href")
            if must_agree and (merr is None) != (rerr is None):
                return ({"class": "acceptance", "detail": f"step {step} {ascii(op)}: the standard {'rejects' if merr else 'accepts'}, the library "
                         f"{'raised ' + ascii(repr(rerr))[:200] if rerr else 'accepted'}; history {ascii(ops[:step])[:600]}"}, None, "v")
            if rerr is not None:
                stats["fault:rejected_operation"] += 1
                if op[0] == "url":
                    stats["probe:failed_construction"] += 1
            for n in sorted(mw.obj) if step % seldom == 0 else ():
                if mw.kind[n] != "url" or n not in w.obj:
                    continue
                d = self.compare(w, mw, n)
                if d:
                    return ({"class": "component", "detail": f"after step {step} {ascii(op)}{' (rejected)' if rerr else ''}: {d}; history {ascii(ops[:step])[:600]}"}, None, "v")
            if op[0] in ("set", "edit", "call") and op[1] in before:
                now = mw.obj[op[1]].rec.href()
                if now != before[op[1]]:
                    effective += 1
                    stats["probe:search_params_write" if op[0] == "call" else "probe:effective_assignment"] += 1
                    trail.append(now)
                elif op[0] != "call" and rerr is None:
                    stats["fault:ignored_assignment"] += 1
        for n in sorted(mw.obj) if seldom > 1 else ():
            if mw.kind[n] == "url" and n in w.obj:
                d = self.compare(w, mw, n)
                if d:
                    return {"class": "component", "detail": f"at the end: {d}; history {ascii(ops)[:800]}"}, None, "v"
        dig = core.digest([ops, trail])
        return None, (core.digest(trail) if effective else None), dig

    def shrinks(self, sc):
        yield ("hists",)
        for i in range(len(sc["hists"])):
            yield ("hists", i)

    def simplify(self, sc):
        for i, ops in enumerate(sc["hists"]):
            for c in world.simplify_ops({"ops": ops}):
                s = dict(sc)
                s["hists"] = sc["hists"][:i] + [c["ops"]] + sc["hists"][i + 1:]
                yield s


CHECK = C04()
