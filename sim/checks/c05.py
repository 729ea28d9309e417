"""C05 - a rejected operation changes nothing."""
from __future__ import annotations

import core
import gen
import lib
import world

MIX = {"url": 1.2, "rec": 0.8, "sp": 0.8, "copy": 0.2, "set": 5, "call": 4, "attach": 0.3, "rset": 0.3}
BADURL = ["http://[", "//", "", "http://a b/", "http://h:99999/", "http://u@/", "http://[::1", "http://1.2.3.4.5/", "http://%zz", "http://xn--a/", "https://h:8a/",
          "http://h\x00x/", "x", "?q", "http://", "https://user:pw@", "foo://a b/", "foo://h:70000/x", "http://a%00b", "file://a b/c", "http://256.256.256.256/"]
BADHOST = ["a b", "a<b", "h:99999", "new.example:70000", "[::1]:99999", "[::1", "[1:2]", "x%00y", "%zz", "1.2.3.4.5", "999.1.1.1", "xn--a", "h:8x", "new.example:a", "",
           ":80", "a#b", "h|i", "[::1]x", "bücher.de:65536", "1.2.3.4:99999", "\u00ad", "a\tb c"]
BADPORT = ["65536", "99999999999999999999", "a", "x8", "-1", "+5", " ", "9" * 5000, "70000x"]
BADPROTO = ["", "1x", "a b", "é", "-x", "::", "ht_tp"]
NONSTR = [["!", "int"], ["!", "none"], ["!", "bytes"], ["!", "list"], ["!", "object"], ["!", "unprintable"], ["!", "liststr", ["/x"]], ["!", "liststr", ["#", "?"]]]


class Gen5(world.HistGen):
    p_bad = 0.4

    def op(self):
        if self.r.random() < self.p_bad:
            return self.bad()
        return super().op()

    def bad(self):
        g, r = self.g, self.r
        k = r.choice(["href", "host", "host", "hostname", "port", "protocol", "nonstr", "nonstr", "url", "rec", "base", "append", "append", "name", "pairs", "attach", "sp", "recenc"])
        url = r.choice(self.urls)
        sp = r.choice(self.urls + self.sps)
        badurl = r.choice(BADURL) if r.random() < 0.6 else g.url()
        if k == "href":
            return ["set", url, "href", badurl if r.random() < 0.8 else r.choice(NONSTR)]
        if k in ("host", "hostname"):
            v = r.choice(BADHOST) if r.random() < 0.6 else g.text(g.host())
            if k == "host" and r.random() < 0.3:
                v = g.host() + ":" + r.choice(["99999", "x", "70000", "8a"])
            return ["set", url, k, v]
        if k == "port":
            return ["set", url, "port", r.choice(BADPORT)]
        if k == "protocol":
            return ["set", url, "protocol", r.choice(BADPROTO)]
        if k == "nonstr":
            return ["set", url, r.choice(gen.SETTERS), r.choice(NONSTR)]
        if k == "url":
            return ["url", self.new("x"), badurl, ["@", r.choice(self.urls + self.recs)] if r.random() < 0.7 else None]
        if k == "rec":
            return ["rec", self.new("x"), badurl, ["@", r.choice(self.recs or self.urls)], "utf-8"]
        if k == "recenc":
            return ["rec", self.new("x"), "http://h/?é", ["@", r.choice(self.recs or self.urls)], "no-such-encoding"]
        if k == "base":
            return ["url", self.new("x"), g.ref(), badurl if r.random() < 0.8 else r.choice(NONSTR)]
        if k == "append":
            m = r.choice(["append", "set", "delete", "has"])
            return ["call", sp, r.randrange(2), m, g.name(), r.choice([["!", "unprintable"], ["!", "badstr"], ["!", "unprintable"], ["!", "iffy", 0]])]
        if k == "name":
            m = r.choice(["append", "set", "delete", "has", "get", "get_all"])
            a = [r.choice([["!", "int"], ["!", "none"], ["!", "bytes"], ["!", "unprintable"], ["!", "list"]])]
            if m in ("append", "set") or (m in ("delete", "has") and r.random() < 0.5):
                a.append(g.value())
            return ["call", sp, r.randrange(2), m] + a
        if k == "pairs":
            bad = r.choice([[["a", "1"], ["b"]], [["a", "1", "2"]], [["a", "1"], []], [["a", ["!", "unprintable"]]], [["a", "1"], [["!", "unprintable"], "2"]], [["a", "1"], 5],
                            [["a", 1], ["b", 2.5], ["c", ["!", "unprintable"]]]])
            return ["sp", self.new("x"), [r.choice(["list", "tuple"]), bad]]
        if k == "sp":
            return ["sp", self.new("x"), r.choice([["!", "int"], ["!", "bytes"], ["!", "object"], ["dict", [["a", ["!", "unprintable"]]]], ["dict", [["k", "1"], ["a", ["!", "badstr"]]]], ["dict", [["k", 1], ["l", 2.5], ["a", ["!", "unprintable"]]]]])]
        if k == "attach":
            pool = self.sps or []
            if not pool:
                return ["call", sp, 0, "attach", r.choice(NONSTR)]
            return ["attach", r.choice(pool), r.choice(NONSTR)]
        raise ValueError(k)


def name_part(v):
    """The host name in a host assignment that also carries a port, or None."""
    v = v.replace("\t", "").replace("\n", "").replace("\r", "")
    inside = False
    for i, c in enumerate(v):
        if c == "[":
            inside = True
        elif c == "]":
            inside = False
        elif c == ":" and not inside:
            return v[:i]
        elif c in "/?#\\":
            return None
    return None


class C05(core.Check):
    id = "C05"
    level = "fault_enumeration"
    runs = {"quick": 25000, "thorough": 500000}
    batch = 8
    rule = ("A run is a set of histories of up to 40 operations of which about 40 % are failing ones of every kind (unparsable href, reference, base; bad host, port, protocol; "
            "values that cannot be converted to text; wrong types; malformed pair lists). Around every operation that raises, every live object is photographed; a twin world that "
            "never attempts the rejected operations must stay identical to the end. Non-trivial: at least one operation raised; distinct: different (rejected operation, target state).")
    measure = "hash of (rejected operation, state of the world in which it was rejected)"
    assumptions = ["private attributes are read only through the public getters"]

    def setup(self):
        lib.load()

    def scenario(self, r, index, tier):
        hists = []
        for _ in range(self.batch):
            g = gen.Gen(r)
            hg = Gen5(g, r, MIX, objects_max=r.choice([2, 3, 5]))
            hg.p_bad = r.choice([0.2, 0.4, 0.6])
            hists.append(hg.ops(r.choice([4, 6, 10, 20, 40])))
        return {"hists": hists}

    def execute(self, sc):
        stats = {"steps": 0, "fault:rejected_operation": 0, "probe:host_kept_after_bad_port": 0, "probe:operations_after_rejection": 0}
        keys, digs = [], []
        viol = None
        for ops in sc["hists"]:
            v, ks, dig = self.one(ops, stats)
            digs.append(dig)
            keys += ks
            if v:
                viol = v
                break
        return {"violation": viol, "digest": core.digest(digs), "keys": keys, "key": keys[0] if keys else "", "stats": stats}

    def one(self, ops, stats):
        w, twin, blind = world.World(), world.World(), world.World(lazy=True)
        keys = []
        rejected = 0
        prev = w.snapshot()
        log = []
        for step, op in enumerate(ops):
            if not w.ready(op):
                continue
            stats["steps"] += 1
            err = None
            try:
                w.do(op)
            except Exception as e:
                err = e
            try:
                blind.do(op)  # the same history, but nobody looks at the objects before its end
            except Exception:
                pass
            now = w.snapshot()
            if err is not None and w.touched:
                return {"class": "changed-by-rejected-operation", "detail": f"step {step} {ascii(op)} raised {type(err).__name__} but {w.touched}; history {ascii(ops[:step])[:700]}"}, keys, "v"
            w.touched = None
            if err is not None:
                rejected += 1
                stats["fault:rejected_operation"] += 1
                if op[0] == "set":
                    kind = f"fault:rejected_{op[2]}"
                elif op[0] == "call":
                    kind = f"fault:rejected_{op[3]}"
                else:
                    kind = f"fault:rejected_{op[0]}"
                stats[kind] = stats.get(kind, 0) + 1
                keys.append(core.digest([op[2:], prev.get(op[1], prev)]))
                log.append([step, type(err).__name__])
                if now != prev:
                    # the one exception: a host whose name is valid and whose port is not may keep the name
                    kept = False
                    np = name_part(op[3]) if op[0] == "set" and op[2] == "host" and isinstance(op[3], str) else None
                    if np:
                        try:
                            twin.obj[op[1]].hostname = np
                            kept = twin.snapshot() == now
                        except Exception:
                            pass
                    if not kept:
                        return ({"class": "changed-by-rejected-operation", "detail": f"step {step} {ascii(op)} raised {type(err).__name__} but changed "
                                 f"{world.diff_world(prev, now)}; history {ascii(ops[:step])[:700]}"}, keys, "v")
                    stats["probe:host_kept_after_bad_port"] += 1
            else:
                if rejected:
                    stats["probe:operations_after_rejection"] += 1
                try:
                    twin.do(op)
                except Exception as e:
                    return ({"class": "later-behaviour", "detail": f"step {step} {ascii(op)} raises {ascii(repr(e))[:200]} only when earlier operations were not rejected; "
                             f"history {ascii(ops[:step])[:700]}"}, keys, "v")
            if rejected:
                t = twin.snapshot()
                if t != now:
                    return ({"class": "later-behaviour", "detail": f"after step {step} {ascii(op)} the world differs from one in which the rejected operations were never attempted: "
                             f"{world.diff_world(t, now)}; history {ascii(ops[:step])[:700]}"}, keys, "v")
            prev = now
        unseen = blind.snapshot()
        if rejected and unseen != prev:
            return ({"class": "later-behaviour", "detail": f"at the end the world differs from one in which nobody looked at the objects in between: {world.diff_world(prev, unseen)}; "
                     f"history {ascii(ops)[:900]}"}, keys, "v")
        return None, keys, core.digest([ops, log, prev])

    def shrinks(self, sc):
        yield ("hists",)
        for i in range(len(sc["hists"])):
            yield ("hists", i)

    def simplify(self, sc):
        for i, ops in enumerate(sc["hists"]):
            for c in world.simplify_ops({"ops": ops}):
                s = dict(sc)
                s["hists"] = sc["hists"][:i] + [c["ops"]] + sc["hists"][i + 1:]
                yield s


CHECK = C05()
