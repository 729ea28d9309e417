"""C06 - objects derived from one another stay independent."""
from __future__ import annotations

import core
import gen
import lib
import world

MIX = {"url": 3, "rec": 3, "sp": 3, "copy": 1.5, "set": 5, "edit": 0.7, "call": 5, "attach": 0.8, "rset": 3, "look": 0.7, "given": 2, "returned": 2}


class Gen6(world.HistGen):
    def op(self):
        r, m = self.r, self.mix
        x = r.random() * sum(m.values())
        if x < m["given"] and self.sps:
            return ["given", r.choice(self.sps), r.randrange(4), r.randrange(5)]
        if x < m["given"] + m["returned"]:
            return ["returned", r.choice(self.urls + self.recs + self.sps), r.randrange(8), r.choice(["a", "b", "", "zz"])]
        mix = {k: v for k, v in m.items() if k not in ("given", "returned")}
        self.mix = mix
        try:
            return super().op()
        finally:
            self.mix = m

    def make_url(self, force_str=False):
        r = self.r
        if (self.urls or self.recs) and r.random() < 0.6:
            n = self.new("u")
            op = ["url", n, r.choice(["", "#f", "?q=1", "x", "../x", "./", "//h2/p", "/abs", "file:", "C|/z", "..", "http:", "?", "y/z?k=v#w"]) if r.random() < 0.7 else self.g.ref(),
                  ["@", r.choice(self.urls or self.recs)]]
            self.urls.append(n)
            return op
        return super().make_url(force_str)

    def make_rec(self):
        r = self.r
        if self.recs and r.random() < 0.6:
            n = self.new("r")
            op = ["rec", n, r.choice(["", "#f", "?q=1", "x", "../x", "./", "//h2/p", "/abs", "file:", "C|/z", "..", "http:", "?", "y/z?k=v#w"]) if r.random() < 0.7 else self.g.ref(),
                  ["@", r.choice(self.recs)], "utf-8"]
            self.recs.append(n)
            return op
        return super().make_rec()


class W6(world.World):
    """Adds caller-held containers."""

    def ready(self, op):
        if op[0] == "given":
            return op[1] in self.given
        if op[0] == "returned":
            return op[1] in self.obj
        return super().ready(op)

    def do(self, op):
        if op[0] == "given":
            c = self.given[op[1]]
            if isinstance(c, dict):
                if op[2] == 0:
                    c.clear()
                else:
                    c["zz%d" % op[2]] = "changed"
            elif isinstance(c, list):
                if op[2] == 0:
                    c.clear()
                elif op[2] == 1:
                    c.append(["zz", "changed"])
                elif c and isinstance(c[op[3] % len(c)], list):
                    e = c[op[3] % len(c)]
                    e[-1:] = ["changed"] if op[2] == 2 else ["changed", "changed"]
            return None
        if op[0] == "returned":
            o, k = self.obj[op[1]], self.kind[op[1]]
            sp = o if k == "sp" else o.search_params if k == "url" else None
            if sp is not None:
                got = [sp[:], list(sp), sp[0:1], list(sp.entries()), list(sp.keys()), list(sp.values()), sp.get_all(op[3]), sp[::-1]][op[2] % 8]
                if isinstance(got, list):
                    got.reverse()
                    got.append(("changed", "changed") if op[2] % 8 not in (4, 5) else "changed")
                    del got[:1]
            else:
                # a record built by resolving against this one, and its path changed in place
                P = lib.P
                d = P.BasicURLParser.parse(["", "#f", "?q", "x", "../x", "/", "./y/z", "//h/p"][op[2] % 8], base=o)
                if isinstance(d.path, list):
                    d.path.append("changed")
                    d.path[0] = "changed"
                d.host = "changed"
            return None
        return super().do(op)


class C06(core.Check):
    id = "C06"
    runs = {"quick": 25000, "thorough": 400000}
    batch = 8
    rule = ("A run is a set of histories of up to 50 operations that derive URLs, records and search-params objects from one another (resolution against live bases, constructors from "
            "lists, tuples, dictionaries and search params, attachment, deep and pickled copies) and mutate any of them, the caller's own containers or containers the library returned. "
            "After every operation every object outside the linked group of its target must look exactly as before. Non-trivial: an object with derived relatives was changed; "
            "distinct: different (operation kind, derivation graph, states).")
    measure = "hash of (operation, derivation graph, snapshot of the world)"
    assumptions = ["shallow copies (copy.copy) and a hand-made URLRecord given the caller's own list are outside the property", "one search-params object at a time is attached to a record"]

    def setup(self):
        lib.load()

    def scenario(self, r, index, tier):
        hists = []
        for _ in range(self.batch):
            g = gen.Gen(r)
            hg = Gen6(g, r, MIX, objects_max=r.choice([3, 5, 9]))
            hists.append(hg.ops(r.choice([5, 10, 20, 50])))
        return {"hists": hists}

    def execute(self, sc):
        stats = {"steps": 0, "fault:rejected_operation": 0, "probe:changed_with_relatives": 0, "probe:derived": 0, "probe:caller_container_changed": 0,
                 "probe:returned_container_changed": 0, "probe:path_changed_in_place": 0}
        keys, digs = [], []
        viol = None
        for ops in sc["hists"]:
            v, ks, dig = self.one(ops, stats)
            digs.append(dig)
            keys += ks
            if v:
                viol = v
                break
        return {"violation": viol, "digest": core.digest(digs), "keys": keys, "key": keys[0] if keys else "", "stats": stats}

    def one(self, ops, stats):
        w, blind = W6(), W6(lazy=True)
        link = {}  # sp -> record it is attached to
        rel = set()
        keys, graph = [], []
        prev = w.snapshot()
        gprev = {}
        for step, op in enumerate(ops):
            if not w.ready(op):
                continue
            stats["steps"] += 1
            err = None
            try:
                w.do(op)
            except Exception as e:
                err = e
                stats["fault:rejected_operation"] += 1
            try:
                blind.do(op)  # the same history, but nobody looks at the objects before its end
            except Exception:
                pass
            if w.touched:
                return {"class": "caller-container", "detail": f"step {step} {ascii(op)}: {w.touched}; history {ascii(ops[:step])[:800]}"}, keys, "v"
            now = w.snapshot()
            gnow = {n: lib.canon(c) for n, c in w.given.items()}
            k, n = op[0], op[1]
            allowed = set()
            if k in ("url", "rec", "sp", "deep", "pickle"):
                src = op[3] if k in ("url", "rec") else op[2]
                if n in now and n not in prev:
                    allowed = {n}
                    stats["probe:derived"] += 1
                    if isinstance(src, list) and src and src[0] == "@":
                        rel |= {n, src[1]}
                        graph.append([k, n, src[1]])
                        if k == "sp" and w.kind[src[1]] == "rec":
                            link[n] = src[1]
                    elif isinstance(src, list):
                        rel.add(n)
                    elif k in ("deep", "pickle"):
                        rel |= {n, src}
                        graph.append([k, n, src])
            elif k == "attach":
                allowed = {n}
                if err is None:
                    link[n] = op[2]
            elif k in ("set", "edit"):
                allowed = {n}
            elif k == "call":
                allowed = {n} | ({link[n]} if n in link else set())
            elif k in ("rset", "rpath"):
                allowed = {n} | {p for p, m in link.items() if m == n}
                stats["probe:path_changed_in_place"] += int(k == "rpath")
            elif k == "given":
                stats["probe:caller_container_changed"] += 1
            elif k == "returned":
                stats["probe:returned_container_changed"] += 1
            changed = [m for m in sorted(set(prev) | set(now)) if prev.get(m) != now.get(m)]
            bad = [m for m in changed if m not in allowed]
            if bad:
                m = bad[0]
                d = world.diff(prev[m], now[m]) if m in prev and m in now else "appeared or vanished"
                return {"class": "not-independent", "detail": f"step {step} {ascii(op)} changed {m}.{d}; history {ascii(ops[:step])[:800]}"}, keys, "v"
            if k != "given":
                for m, c in gprev.items():
                    if gnow[m] != c and not (k == "sp" and n == m):
                        return {"class": "caller-container", "detail": f"step {step} {ascii(op)} changed the container given to {m}: {ascii(c)[:200]} -> {ascii(gnow[m])[:200]}; "
                                f"history {ascii(ops[:step])[:800]}"}, keys, "v"
            if (changed and set(changed) & rel) or k in ("given", "returned"):
                stats["probe:changed_with_relatives"] += 1
                keys.append(core.digest([op, graph, now]))
            prev, gprev = now, gnow
        unseen = blind.snapshot()
        if unseen != prev:
            return {"class": "not-independent", "detail": f"at the end the objects differ from those of the same history in which every object was looked at after each step: "
                    f"{world.diff_world(prev, unseen)}; history {ascii(ops)[:1000]}"}, keys, "v"
        return None, keys, core.digest([ops, prev])

    def shrinks(self, sc):
        yield ("hists",)
        for i in range(len(sc["hists"])):
            yield ("hists", i)

    def simplify(self, sc):
        for i, ops in enumerate(sc["hists"]):
            for c in world.simplify_ops({"ops": ops}):
                s = dict(sc)
                s["hists"] = sc["hists"][:i] + [c["ops"]] + sc["hists"][i + 1:]
                yield s


CHECK = C06()
