"""C08 - an interrupted call harms nothing but the component it was assigning."""
from __future__ import annotations

import asyncio
import js
import logging
import os
import pickle

import core
import gen
import lib
import model as M
import pool
import pristine
import steps
import world

MIX = {"url": 2, "rec": 1, "sp": 1.2, "copy": 0.3, "set": 9, "call": 7, "attach": 0.5, "look": 0.2}
KINDS = ["interrupt", "memory", "cancel", "error", "base", "handler", "handler"]
COMPONENTS = ["protocol", "username", "password", "hostname", "port", "pathname", "search", "hash"]
MUTATORS = ("append", "delete", "set", "sort")


class Strike(Exception):
    pass


class BaseStrike(BaseException):
    pass


STARVE = {"nomem": (MemoryError, SystemError, TypeError, pickle.PicklingError), "stack": (RecursionError,)}  # used by C17; the others: CPython's own slips when memory fails


def make_exc(kind):
    return {"interrupt": KeyboardInterrupt, "memory": MemoryError, "cancel": asyncio.CancelledError, "error": Strike, "base": BaseStrike, "handler": Strike}[kind]()


class Raiser(logging.Handler):
    """A log handler that fails at the n-th record."""

    def __init__(self, n, exc):
        super().__init__()
        self.n = n
        self.exc = exc
        self.seen = 0
        self.fired = False

    def emit(self, record):
        self.seen += 1
        if self.seen == self.n:
            self.fired = True
            raise self.exc


def with_handler(h, fn):
    root = logging.getLogger()
    lv = root.level
    root.addHandler(h)
    root.setLevel(logging.DEBUG)
    try:
        return fn()
    finally:
        root.removeHandler(h)
        root.setLevel(lv)


class W8(world.World):
    """Adds calls that touch none of the world's objects."""

    def __init__(self):
        super().__init__()
        self.shared = lib.make_shared()

    def ready(self, op):
        if op[0] == "get":
            return op[1] in self.kind
        return op[0] == "pure" or super().ready(op)

    def do(self, op):
        if op[0] == "pure":
            return lib.perform(op[1], self.shared)
        if op[0] == "get":
            return lib.read(self.obj[op[1]], op[2], op[3])
        return super().do(op)

    def snapshot(self):
        d = super().snapshot()
        for i, o in enumerate(self.shared):
            d[f"base{i}"] = {"value": lib.canon(o)}
        return d


class C08(core.Check):
    id = "C08"
    level = "fault_enumeration"
    runs = {"quick": 8000, "thorough": 250000}
    batch = 8
    rule = ("A run plays short histories over live URLs, records and search params; into the last operation of each it injects one asynchronous exception (KeyboardInterrupt, MemoryError, "
            "cancellation, custom exceptions) at a chosen point - function entry, completed call or backward jump inside the library - or makes a log handler fail at a chosen record. It then checks what "
            "the caller sees, every object, and the recovery rules. Non-trivial: the exception was delivered inside the operation; distinct: different (operation, state, point of delivery).")
    measure = "hash of (operation, world snapshot, point of delivery, exception kind)"
    stub = "asynchronous exception delivery (raised from a trace function at the points where CPython delivers them); log handler that raises"
    assumptions = ["interruption inside C code is delivered when the C call returns, as CPython does", "an exception that strikes while a generator is being finalised is reported to "
                   "sys.unraisablehook by CPython itself and is not counted as delivered"]

    kinds = KINDS
    pure = 0.15
    gets = 0.1

    def setup(self):
        lib.load()
        self.pool = [op for op in pool.make(int(os.environ.get("VERIF_SEED", "1") or 1), 120) if len(repr(op)) < 300]

    def scenario(self, r, index, tier):
        hists = []
        for _ in range(self.batch):
            g = gen.Gen(r, largest=8)
            hg = world.HistGen(g, r, MIX, objects_max=r.choice([1, 2, 4]))
            ops = hg.ops(r.choice([1, 2, 3, 5, 8]))
            if r.random() < 0.4:
                ops.append(hg.assign())
            elif r.random() < 0.5:
                ops.append(hg.call(reads=0.05))
            pure = None
            if r.random() < self.pure:
                pure = r.choice([op for op in self.pool if op[0] not in ("hist", "usp")])
                ops.append(["pure", pure])
            elif r.random() < self.gets:
                names = [(n, k) for k, ns in (("URL", hg.urls), ("REC", hg.recs), ("USP", hg.sps)) for n in ns]
                if names:
                    n, k = r.choice(names)
                    if k == "URL" and r.random() < 0.15:
                        ops.append(["set", n, "href", "blob:" + self.parsable(g)])
                    ops.append(["get", n, *lib.read_args(r, k)])
            frac = r.choice([r.random(), r.random(), r.random() ** 4, 1 - r.random() ** 4]) * 0.999999
            hists.append({"ops": ops, "frac": frac, "kind": r.choice(self.kinds), "re": self.parsable(g), "after": ([pure] if pure else []) + [r.choice(self.pool) for _ in range(2)]})
        return {"hists": hists}

    @staticmethod
    def parsable(g):
        while True:
            u = g.good_url()
            try:
                M.parse(M.usv(u))
                return u
            except M.Failure:
                pass

    def prepare(self, sc):
        self.table = pristine.table([op for h in sc["hists"] for op in h["after"]])

        def counts():
            out = []
            for h in sc["hists"]:
                w = W8()
                for op in h["ops"][:-1]:
                    self.quiet(w, op)
                if not h["ops"] or not w.ready(h["ops"][-1]):
                    out.append(0)
                elif h["kind"] == "handler":
                    rz = Raiser(-1, None)
                    with_handler(rz, lambda: self.quiet(w, h["ops"][-1]))
                    out.append(rz.seen)
                elif h["kind"] in STARVE:
                    out.append(self.room(h, lambda: w.do(h["ops"][-1])))
                else:
                    out.append(steps.count(lambda: w.do(h["ops"][-1]), "async"))
            return out

        kind, val = core.in_child(counts)
        if kind != "ok":
            raise core.HarnessError(f"counting steps: {kind} {val}")
        self.counts = val

    @staticmethod
    def quiet(w, op):
        if not w.ready(op):
            return False
        try:
            w.do(op)
            return True
        except Exception:
            return False

    def execute(self, sc):
        stats = {"steps": 0}
        keys, digs = [], []
        viol = None
        for h, n in zip(sc["hists"], self.counts):
            v, key, dig = self.one(h, n, stats)
            digs.append(dig)
            if key:
                keys.append(key)
            if v:
                viol = v
                break
        return {"violation": viol, "digest": core.digest(digs), "keys": keys, "key": keys[0] if keys else "", "stats": stats}

    def one(self, h, n, stats):
        ops, kind = h["ops"], h["kind"]
        if not ops or n == 0:
            return None, None, "idle"
        w = W8()
        for op in ops[:-1]:
            self.quiet(w, op)
        op = ops[-1]
        if not w.ready(op):
            return None, None, "idle"
        before = w.snapshot()
        k = 1 + int(h["frac"] * n)
        exc = None if kind in STARVE else make_exc(kind)
        seen = None
        where = ""
        lost = False
        fired = False
        if kind == "handler":
            rz = Raiser(k, exc)
            try:
                with_handler(rz, lambda: w.do(op))
            except BaseException as e:  # noqa: B902
                seen = e
            fired = rz.fired
            where = f"record {k}"
            stats["steps"] += rz.seen
        elif kind in STARVE:
            fired, seen, lost, value = self.starve(h, k, lambda: w.do(op))
            where = f"{k} of {n}"
            stats["steps"] += 1
        else:
            def hook(frame):
                raise exc
            st = steps.Stepper({k: hook}, "async")
            try:
                st.run(lambda: w.do(op))
            except BaseException as e:  # noqa: B902
                seen = e
            fired = bool(st.fired)
            where = f"point {k} ({st.where})"
            lost = bool(st.unraisable)
            stats["steps"] += st.step
        if not fired or lost:
            return None, None, "undelivered"

        def bad(cls, d):
            return {"class": cls, "detail": f"{ascii(op)} struck by {kind} at {where}: {d}; history {ascii(ops[:-1])[:700]}"}, None, "v"

        if kind in STARVE:
            if not isinstance(seen, STARVE[kind]):
                # nothing came of it: the operation must have done its work
                w2 = W8()
                for o in ops[:-1]:
                    self.quiet(w2, o)
                try:
                    want, res = None, lib.canon(w2.do(op))
                except Exception as e:
                    want, res = e, None
                if (type(seen), str(seen)) != (type(want), str(want)):
                    return bad("exception-changed", f"the caller saw {ascii(repr(seen))[:200]}; without the fault {ascii(repr(want))[:200]}")
                if seen is None and lib.canon(value) != res:
                    return bad("half-done", f"the call returned {ascii(lib.canon(value))[:300]}; without the fault {ascii(res)[:300]}")
                a, b = w.snapshot(), w2.snapshot()
                if a != b:
                    m = next(m for m in sorted(set(a) | set(b)) if a.get(m) != b.get(m))
                    return bad("half-done", f"the call ended as usual but {m}: {world.diff(b.get(m, {}), a.get(m, {}))}")
                key = core.digest([op, before, where, kind])
                if kind == "stack":  # whether there was room enough all along is not known
                    return None, None, core.digest([key, a])
                stats["probe:absorbed"] = stats.get("probe:absorbed", 0) + 1
                return None, key, core.digest([key, a])
        elif seen is not exc:
            return bad("exception-changed", f"the caller saw {ascii(repr(seen))[:200]}")
        stats["fault:" + kind] = stats.get("fault:" + kind, 0) + 1
        what = op[2] if op[0] == "set" else "read" if op[0] == "get" else op[3] if op[0] == "call" else "pure_" + op[1][0] if op[0] == "pure" else op[0]
        stats["probe:struck_" + what] = stats.get("probe:struck_" + what, 0) + 1
        try:
            after = w.snapshot()
        except Exception as e:
            return bad("unreadable", f"reading the objects afterwards raised {ascii(repr(e))[:300]}")
        # what the completed operation gives
        w2 = W8()
        for o in ops[:-1]:
            self.quiet(w2, o)
        self.quiet(w2, op)
        new = w2.snapshot()
        target = op[1] if op[0] != "pure" else None
        linked = set()
        if op[0] == "call" and w.kind[target] == "sp":
            linked = {m for m in w.obj if w.kind[m] == "rec"}  # refined below: each must be old or changed only as the operation changes it
        for m in sorted(before):
            if m not in after:
                return bad("other-object", f"{m} vanished")
            if m == target and op[0] in ("set", "call", "attach"):
                continue
            if after[m] != before[m]:
                if m in linked and new[m] != before[m]:
                    for a, v in after[m].items():
                        if a not in ("query", "href") and v not in (before[m][a], new[m][a]):
                            return bad("other-component", f"{m}.{a} became {ascii(v)}")
                    continue
                return bad("other-object", f"{m}.{world.diff(before[m], after[m])}")
        if op[0] in ("set", "call") and w.kind[target] == "url":
            b, a, c = before[target], after[target], new[target]
            attr = op[2] if op[0] == "set" else "search"
            if not a["handle_is_params"]:
                return bad("search-params-identity", f"{target}.search_params is another object")
            if op[0] == "call" and op[3] not in MUTATORS:
                if a != b:
                    return bad("other-component", f"a read changed {target}.{world.diff(b, a)}")
            if attr == "href":
                if any(a[x] != b[x] for x in lib.URL_ATTRS) and any(a[x] != c[x] for x in lib.URL_ATTRS):
                    return bad("torn-href", f"{target} is neither the old nor the new URL: {ascii(a)[:400]}")
            else:
                free = {"hostname", "port"} if attr == "host" else {attr}
                if attr in ("username", "password"):
                    free = set()
                for x in COMPONENTS:
                    if x not in free and a[x] not in (b[x], c[x]):
                        return bad("other-component", f"{target}.{x}: {ascii(b[x])} -> {ascii(a[x])} (a completed operation gives {ascii(c[x])})")
            ok = [tuple(x) for x in b["params"] + c["params"]]
            foreign = [x for x in a["params"] if tuple(x) not in ok]
            if foreign:
                return bad("foreign-pair", f"{target} holds {ascii(foreign)}")
            if op[0] == "call":
                q = [x for x in M.form_parse(a["search"][1:].encode("utf-8")) if x not in ok]
                if q:
                    return bad("foreign-pair", f"the query of {target} holds {ascii(q)}")
            elif attr not in ("href", "search") and a["params"] != b["params"]:
                return bad("other-component", f"{target}.search_params: {ascii(b['params'])} -> {ascii(a['params'])}")
        elif op[0] in ("call", "attach"):
            ok = [tuple(x) for x in before[target]["pairs"] + new[target]["pairs"]]
            foreign = [x for x in after[target]["pairs"] if tuple(x) not in ok]
            if foreign:
                return bad("foreign-pair", f"{target} holds {ascii(foreign)}")
        # recovery
        try:
            if op[0] == "call" and op[3] in MUTATORS:
                sp = w.sp(target)
                sp.append("zz", "1")
                if w.kind[target] == "url":
                    u = w.obj[target]
                    if list(sp) != M.form_parse(u.search[1:].encode("utf-8")) or list(sp)[-1:] != [("zz", "1")]:
                        return bad("not-back-in-step", f"after a completed append the pairs are {ascii(list(sp))} and the query is {ascii(u.search)}")
                    stats["probe:back_in_step"] = stats.get("probe:back_in_step", 0) + 1
            if op[0] in ("set", "call") and w.kind[target] == "url":
                u = w.obj[target]
                u.href = h["re"]
                f = lib.P.URL(h["re"])
                for i in range(5):
                    if i == 1:
                        u.search_params.append("k", "v")
                        f.search_params.append("k", "v")
                    elif i == 2:
                        u.search = f.search = "?y=1&x=2"
                    elif i == 3:
                        u.search_params.sort(), f.search_params.sort()
                        u.hash = f.hash = ""
                        u.username = f.username = "n"
                        u.pathname = f.pathname = "/p"
                    elif i == 4:
                        for x in ("x", "y", "k"):
                            u.search_params.delete(x), f.search_params.delete(x)
                    su, sf = lib.snap_url(u), lib.snap_url(f)
                    if su != sf or u.search_params is not w.handle[target]:
                        return bad("not-repaired-by-href", f"after a completed href assignment and {i} further steps: {world.diff(sf, su)} (new URL first)")
                stats["probe:repaired_by_href"] = stats.get("probe:repaired_by_href", 0) + 1
        except Exception as e:
            return bad("recovery-raised", ascii(repr(e))[:300])
        shared = lib.make_shared()
        for o in h["after"]:
            got = lib.outcome(o, shared)
            want = self.table[pristine.key(o)]
            if got != want:
                return bad("later-call", f"{ascii(o)[:300]}: {pristine.diff(got, want)}")
        key = core.digest([op, before, where, kind])
        return None, key, core.digest([key, after])

    def shrinks(self, sc):
        yield ("hists",)
        for i in range(len(sc["hists"])):
            yield ("hists", i, "after")
            yield ("hists", i, "ops")

    def simplify(self, sc):
        for i, h in enumerate(sc["hists"]):
            for c in world.simplify_ops(h):
                s = js.copy(sc)
                s["hists"][i] = c
                yield s
            for kind in ("interrupt",):
                if h["kind"] not in ("interrupt", "handler", *STARVE):
                    s = js.copy(sc)
                    s["hists"][i]["kind"] = kind
                    yield s


CHECK = C08()
