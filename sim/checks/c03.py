"""C03 - a URL's search_params and its query always agree."""
from __future__ import annotations

import core
import gen
import lib
import model as M
import mworld
import world

MIX = {"url": 1.5, "rec": 0.5, "sp": 0.7, "copy": 0.3, "set": 3, "edit": 0.8, "call": 10, "attach": 0.4, "look": 0.4, "drop": 0.4, "bad": 1.0}
BADV = [["!", "unprintable"], ["!", "badstr"]]
BADN = [["!", "int"], ["!", "none"], ["!", "bytes"], ["!", "unprintable"]]


class Gen3(world.HistGen):
    def assign(self):
        g, r = self.g, self.r
        if r.random() < 0.6:
            n = r.choice(self.urls)
            a = r.choice(["search", "search", "search", "href", "hash"])
            if a == "search":
                v = r.choice(["", "?"]) if r.random() < 0.2 else r.choice(["", "?"]) + g.query()
                return ["set", n, a, g.text(v)]
            if a == "hash":
                return ["set", n, a, r.choice(["", "#", "x", "a=b"])]
            return ["set", n, a, g.good_url() if r.random() < 0.6 else g.url()]
        return super().assign()

    def op(self):
        r, m = self.r, self.mix
        if r.random() * sum(m.values()) < m["bad"]:
            pool = self.urls * 2 + self.sps
            n = r.choice(pool)
            if r.random() < 0.3:
                return ["set", r.choice(self.urls), "href", r.choice(["http://[", "//", "x:y:z@:0//", "http://a b/"])]
            me = r.choice(["append", "set", "delete", "append"])
            if r.random() < 0.5:
                return ["call", n, r.randrange(2), me, self.g.name(), r.choice(BADV)]
            return ["call", n, r.randrange(2), me, r.choice(BADN), "v"]
        mix = dict(m)
        mix.pop("bad")
        self.mix = mix
        try:
            return super().op()
        finally:
            self.mix = m


class C03(core.Check):
    id = "C03"
    runs = {"quick": 20000, "thorough": 700000}
    batch = 12
    rule = ("A run is a set of histories of up to 60 operations over live URLs, records and search-params objects: appends, deletes, sets, sorts through either handle, "
            "assignments to search, href and the other attributes, attachments, copies and rejected operations. After every operation each URL's search_params must be "
            "the same object, equal the form-urlencoded parse of the URL's query and equal an ordered-list model; after a mutation the query must be the serialisation. "
            "Non-trivial: at least one mutation or assignment changed the pairs; distinct: different sequences of pair lists.")
    measure = "hash of the sequence of pair lists"
    assumptions = ["the interleaving of holders is the order of whole operations; mutating one search-params object from several threads at once is not claimed"]

    def setup(self):
        lib.load()

    def scenario(self, r, index, tier):
        hists = []
        for _ in range(self.batch):
            g = gen.Gen(r)
            hg = Gen3(g, r, MIX, objects_max=r.choice([1, 1, 2, 4]))
            ops = hg.ops(r.choice([3, 5, 5, 10, 20, 60]))
            if r.random() < 0.4:  # look at the objects only now and then, or only at the end, or through the saved handle first
                ops.insert(0, ["seldom", r.choice([1, 2, 3, 7, 100])])
            hists.append(ops)
        return {"hists": hists}

    def state(self, w, mw, n, wrote, handle_first=False):
        """Check object n; '' or a complaint."""
        k = w.kind[n]
        if k == "url":
            u = w.obj[n]
            if handle_first and n in w.handle:
                got = list(w.handle[n])
                if got != list(mw.obj[n].params.pairs):
                    return f"the search params taken from {n} earlier hold {ascii(got)}, an ordered list holds {ascii(list(mw.obj[n].params.pairs))}"
            sp = u.search_params
            if sp is not w.handle.setdefault(n, sp):
                return f"{n}.search_params is a different object now"
            q = u.search
            if q and not q.startswith("?"):
                return f"{n}.search is {ascii(q)}"
            href = u.href.split("#", 1)[0]
            hq = href.split("?", 1)[1] if "?" in href else None
            if (hq or "") != q[1:]:
                return f"{n}.href {ascii(u.href)} disagrees with search {ascii(q)}"
            query = hq
            mp = mw.obj[n].params
        elif k == "sp":
            sp = w.obj[n]
            mp = mw.obj[n]
            query = None
            if mp.rec is not None:
                rec = next((m for m in w.obj if mw.kind.get(m) == "rec" and mw.obj[m] is mp.rec), None)
                query = w.obj[rec].query if rec is not None else M.form_serialize(mp.pairs)
                if rec is None:
                    mp = M.MParams(mp.pairs)  # its record is not observable
        else:
            return ""
        pairs = list(sp)
        if any(type(x) is not tuple or len(x) != 2 for x in pairs):
            return f"{n} holds {ascii(pairs)}"
        if pairs != list(mp.pairs):
            return f"the pairs of {n} are {ascii(pairs)}, an ordered list holds {ascii(list(mp.pairs))}"
        if k == "url" or mp.rec is not None:
            parsed = M.form_parse((query or "").encode("utf-8"))
            if pairs != parsed:
                return f"the pairs of {n} are {ascii(pairs)}, but its query is {ascii(query)}"
            if wrote == n:
                want = M.form_serialize(pairs) if pairs else None
                if query != want:
                    return f"after a mutation the query of {n} is {ascii(query)}, the serialisation is {ascii(want)}"
        if len(sp) != len(pairs) or str(sp) != M.form_serialize(pairs):
            return f"len or str of the search params of {n} is wrong: {len(sp)} {ascii(str(sp))}"
        if pairs:
            name, value = pairs[(7 * len(pairs) + 3 * len(pairs[0][1])) % len(pairs)]  # any one will do
            first = next(b for a, b in pairs if a == name)
            if sp.get(name) != first or not sp.has(name, value) or name not in sp or (wrote == n and list(sp.get_all(name)) != [b for a, b in pairs if a == name]):
                return f"looking up {ascii(name)} in the search params of {n} gives {ascii(sp.get(name))}, {ascii(sp.get_all(name))}; they hold {ascii(pairs)}"
        if wrote == n and (list(sp.entries()) != pairs or list(sp.keys()) != [a for a, _ in pairs] or list(sp.values()) != [b for _, b in pairs]):
            return f"entries, keys or values of {n} are not those of its pairs {ascii(pairs)}"
        return ""

    def lookup(self, w, op, wrote):
        """The name just written can be found."""
        if wrote and op[3] != "sort" and isinstance(op[4], str):
            sp = w.sp(wrote)
            name = M.usv(op[4])
            want = [b for a, b in sp if a == name]
            if sp.get(name) != (want[0] if want else None) or list(sp.get_all(name)) != want or sp.has(name) != bool(want):
                return f"looking up {ascii(name)} in the search params of {wrote} gives {ascii(sp.get(name))}, {ascii(sp.get_all(name))}; they hold {ascii(list(sp))}"
        return ""

    def execute(self, sc):
        stats = {"steps": 0, "fault:rejected_operation": 0, "probe:mutation": 0, "probe:emptied": 0, "probe:search_assigned": 0, "probe:href_assigned": 0,
                 "probe:stripped_opaque_path": 0, "probe:attached": 0, "diverged": 0}
        keys, digs = [], []
        viol = None
        for ops in sc["hists"]:
            v, key, dig = self.one(ops, stats)
            digs.append(dig)
            if key:
                keys.append(key)
            if v:
                viol = v
                break
        return {"violation": viol, "digest": core.digest(digs), "keys": keys, "key": keys[0] if keys else "", "stats": stats}

    def one(self, ops, stats):
        mode = ops[0][1] if ops and ops[0][0] == "seldom" else 0
        seldom = mode or 1
        w, mw = world.World(lazy=mode > 1), mworld.MWorld()
        trail = []

        def bad(step, op, d):
            return {"class": "disagreement", "detail": f"after step {step} {ascii(op)}: {d}; history {ascii(ops[:step])[:700]}"}, None, "v"

        for step, op in enumerate(ops):
            if op[0] == "seldom" or not w.ready(op):
                continue
            stats["steps"] += 1
            merr = rerr = mval = rval = None
            unspecified = False
            try:
                mval = mw.do(op)
            except M.Failure:
                merr = "failure"
            except mworld.Unspecified:
                unspecified = True
            try:
                rval = w.do(op)
            except Exception as e:
                rerr = e
            if unspecified and rerr is None:
                stats["diverged"] += 1
                break
            if not unspecified and (merr is None) != (rerr is None):
                if op[0] in ("call", "sp", "attach", "deep", "pickle"):
                    return bad(step, op, f"raised {ascii(repr(rerr))[:300]}")
                if op[0] in ("url", "rec") or (op[0] in ("set", "edit") and op[2] in ("href", "search")):
                    stats["diverged"] += 1  # a matter of parsing, not of this property
                    break
            if rerr is not None:
                stats["fault:rejected_operation"] += 1
            elif op[0] == "call" and not unspecified:
                if op[3] in ("get", "get_all", "has"):
                    if rval != mval or type(rval) is not type(mval):
                        return bad(step, op, f"returned {ascii(rval)}, an ordered list gives {ascii(mval)}")
                else:
                    stats["probe:mutation"] += 1
                    if not mw.sp(op[1]).pairs:
                        stats["probe:emptied"] += 1
            elif op[0] in ("set", "edit") and op[2] in ("search", "href"):
                stats[f"probe:{op[2]}_assigned"] += 1
            elif op[0] == "attach":
                stats["probe:attached"] += 1
            wrote = op[1] if op[0] == "call" and rerr is None and op[3] in ("append", "delete", "set", "sort") else None
            for n in sorted(w.obj):
                if n not in mw.obj:
                    continue
                if step % seldom == 0:
                    d = self.state(w, mw, n, wrote, mode > 0) or self.lookup(w, op, wrote)
                    if d:
                        return bad(step, op, d)
                if mw.kind[n] != "rec":
                    p = mw.sp(n).pairs
                    t = [n, [list(x) for x in p]]
                    if not trail or t not in trail[-4:]:
                        trail.append(t)
        else:
            for n in sorted(w.obj) if mode > 1 else ():
                if n in mw.obj:
                    d = self.state(w, mw, n, None, True)
                    if d:
                        return bad(len(ops), "at the end", d)
        return None, (core.digest(trail) if len(trail) > 1 else None), core.digest([ops, trail])

    def shrinks(self, sc):
        yield ("hists",)
        for i in range(len(sc["hists"])):
            yield ("hists", i)

    def simplify(self, sc):
        for i, ops in enumerate(sc["hists"]):
            for c in world.simplify_ops({"ops": ops}):
                s = dict(sc)
                s["hists"] = sc["hists"][:i] + [c["ops"]] + sc["hists"][i + 1:]
                yield s


CHECK = C03()
