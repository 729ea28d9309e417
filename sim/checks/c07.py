"""C07 - an IDNA backend failure is contained and forgotten."""
from __future__ import annotations

import js
import os

import core
import gen
import icufault
import lib
import pool
import pristine
import world

MIX = {"url": 3, "rec": 1, "sp": 0.6, "copy": 0.2, "set": 8, "call": 1.5}
HOSTY = ["bücher.example", "faß.de", "日本語.jp", "EXAMPLE.com", "example.org", "a.b.c", "xn--bcher-kva.de", "1.2.3.4", "h", "ex%41mple.com", "new.example:81", "☕.example", "localhost", "a_b", "[::1]"]
BOOLS = ("can_parse", "uv", "scheme", "hv")


class Gen7(world.HistGen):
    def assign(self):
        r = self.r
        if r.random() < 0.7:
            a = r.choice(["host", "hostname", "href", "host", "hostname"])
            v = r.choice(HOSTY)
            if a == "href":
                v = r.choice(["http", "https", "ws", "file", "foo"]) + "://" + r.choice(["", "u:p@"]) + v + r.choice(["", "/p", "/p?q=1#f"])
            return ["set", r.choice(self.urls), a, v]
        return super().assign()

    def make_url(self, force_str=False):
        r = self.r
        if r.random() < 0.5:
            n = self.new("u")
            u = r.choice(["http", "https", "ws", "file", "ftp"]) + "://" + r.choice(HOSTY) + r.choice(["", "/p/q?x=1#f"])
            b = None
            if self.urls and r.random() < 0.5:
                b = ["@", r.choice(self.urls)]
                u = r.choice(["//" + r.choice(HOSTY) + "/z", u])
            self.urls.append(n)
            return ["url", n, u, b]
        return super().make_url(force_str)


def draw_fault(r):
    """-> {call number: fault}; 0 = every call"""
    def one():
        k = r.choice(["error", "error", "errors", "empty", "forbidden"])
        return [k, r.choice({"error": icufault.CODES, "errors": icufault.ERRORS, "empty": [""], "forbidden": icufault.FORBIDDEN}[k])]
    if r.random() < 0.3:
        return {"0": one()}
    return {str(r.choice([1, 1, 1, 2, 2, 3, 4])): one() for _ in range(r.choice([1, 1, 2]))}


class C07(core.Check):
    id = "C07"
    level = "fault_enumeration"
    runs = {"quick": 40000, "thorough": 600000}
    batch = 2
    rule = ("A run injects backend failures (converter creation fails, conversion raises an ICU error, records errors, returns an empty or a forbidden name) at chosen backend calls of chosen operations in a "
            "history over live objects and of stand-alone calls, cold or warm. A failed operation must raise a URLParseError subclass or answer False with a non-empty report, leave every object as it was, and "
            "succeed when retried without the fault; a twin world without faults must stay identical; later calls must equal calls in a fresh process. Non-trivial: a fault fired; "
            "distinct: different (operation, state, faults fired).")
    measure = "hash of (operation, world snapshot, faults fired)"
    stub = "ICU IDNA calls pass through a fault-injecting wrapper around the real backend"
    assumptions = ["the backend is reached through icu.IDNA and icu.IDNAInfo", "calling IDNA.domain_to_unicode directly returns the converted text even when errors were recorded; IDNA.domain_to_ascii "
                   "called directly and the host validators do not check the converted name for forbidden code points; the origin of a blob URL reads 'null' while the backend fails"]

    def setup(self):
        lib.load()
        icufault.install()
        self.pool = pool.make(int(os.environ.get("VERIF_SEED", "1") or 1), 200)
        self.idna = [op for op in self.pool if op[0] in ("URL", "parse_url", "basic", "can_parse", "uv", "hv", "host", "ascii", "unicode", "equals", "urlparse")]

    def scenario(self, r, index, tier):
        hists = []
        for _ in range(self.batch):
            if r.random() < 0.5:
                calls = []
                ws = [r.choice(self.idna) for _ in range(r.choice([1, 2, 4]))]
                for _ in range(r.choice([1, 2, 4, 8])):
                    calls.append([r.choice(ws), draw_fault(r) if r.random() < 0.6 else None])
                hists.append({"calls": calls})
            else:
                g = gen.Gen(r, largest=24)
                hg = Gen7(g, r, MIX, objects_max=r.choice([1, 2, 3]))
                ops = hg.ops(r.choice([2, 4, 8, 16]))
                hists.append({"ops": [[op, draw_fault(r) if r.random() < 0.35 else None] for op in ops]})
        return {"hists": hists, "after": [r.choice(self.idna) for _ in range(3)]}

    def prepare(self, sc):
        ops = list(sc["after"])
        for h in sc["hists"]:
            ops += [c[0] for c in h.get("calls", [])]
        self.table = pristine.table(ops)

    def execute(self, sc):
        self.E = lib.E
        stats = {"steps": 0, "probe:contained": 0, "probe:retried": 0, "probe:harmless": 0, "probe:cold_failure": 0}
        keys, digs = [], []
        viol = None
        for i, h in enumerate(sc["hists"]):
            v, ks, dig = (self.calls if "calls" in h else self.history)(h, stats, i == 0)
            digs.append(dig)
            keys += ks
            if v:
                viol = v
                break
        if not viol:
            shared = lib.make_shared()
            for o in sc["after"]:
                got = lib.outcome(o, shared)
                if got != self.table[pristine.key(o)]:
                    viol = {"class": "remembered", "detail": f"after the faults, {ascii(o)[:300]}: {pristine.diff(got, self.table[pristine.key(o)])}; earlier {ascii(sc['hists'])[:900]}"}
                    break
        return {"violation": viol, "digest": core.digest(digs), "keys": keys, "key": keys[0] if keys else "", "stats": stats}

    def note(self, plan, stats):
        for what, kind in plan.fired:
            k = f"fault:{what}_{kind}"
            stats[k] = stats.get(k, 0) + 1

    def calls(self, h, stats, first):
        shared = lib.make_shared()
        base0 = [lib.canon(x) for x in shared]
        keys, log = [], []
        for i, (op, faults) in enumerate(h["calls"]):
            stats["steps"] += 1
            want = self.table[pristine.key(op)]
            if faults is None:
                got = lib.outcome(op, shared)
                if got != want:
                    return {"class": "remembered", "detail": f"call {i} {ascii(op)[:300]} without a fault: {pristine.diff(got, want)}; calls {ascii(h['calls'][:i])[:700]}"}, keys, "v"
                continue
            plan = icufault.Plan(faults)
            # observe after the backend works again
            holder = []
            box = []
            try:
                v, rep = icufault.under(plan, lambda: lib.perform(op, shared, holder))
                box.append(v)
                exc = None
            except Exception as e:
                exc = e
            self.note(plan, stats)
            if not plan.fired:
                continue
            stats["probe:cold_failure"] += int(first and i == 0)
            where = f"call {i} {ascii(op)[:300]} with backend faults {ascii(plan.fired)}"
            got = {"exc": lib.canon_exc(exc)} if exc is not None else {"ok": lib.canon(box[0])}
            if holder:
                got["report"] = lib.snap_val(holder[0])
            log.append([i, plan.fired, got])
            keys.append(core.digest([op, plan.fired]))
            v = self.judge(op, plan, exc, got, want, holder)
            if v:
                return {"class": v[0], "detail": f"{where}: {v[1]}; calls {ascii(h['calls'][:i])[:700]}"}, keys, "v"
            stats["probe:contained" if exc is not None or got.get("ok") is False else "probe:harmless"] += 1
            if [lib.canon(x) for x in shared] != base0:
                return {"class": "half-changed", "detail": f"{where}: a base URL changed"}, keys, "v"
            got = lib.outcome(op, shared)
            stats["probe:retried"] += 1
            if got != want:
                return {"class": "remembered", "detail": f"{where}, then retried without a fault: {pristine.diff(got, want)}; calls {ascii(h['calls'][:i])[:700]}"}, keys, "v"
        return None, keys, core.digest([h, log])

    def judge(self, op, plan, exc, got, want, holder):
        if exc is not None:
            if isinstance(exc, self.E.URLParseError):
                if op[0] in BOOLS:
                    return "not-contained", f"raised {ascii(repr(exc))[:200]} instead of answering False"
                return None
            if got == want:
                return None
            return "not-contained", f"raised {ascii(repr(exc))[:200]}"
        if op[0] == "hv" and got == want and all(k == ["to_ascii", "forbidden"] for k in plan.fired):
            return None  # the host validators do not examine the converted name
        if op[0] in BOOLS:
            if got["ok"] is not False:
                return "not-contained", f"answered {ascii(got['ok'])}"
            if holder and (holder[0].validation_errors == 0 or not holder[0].descriptions or holder[0].valid):
                return "not-contained", "answered False with an empty report"
            return None
        if op[0] == "unicode" and all(k in (["to_unicode", "errors"],) for k in plan.fired):
            return None
        if op[0] == "ascii" and plan.fired == [["to_ascii", "forbidden"]]:
            return None
        return "not-contained", f"returned {ascii(got)[:400]}, normally {ascii(want)[:300]}"

    def history(self, h, stats, first):
        w, twin = world.World(), world.World()
        keys, log = [], []
        prev = w.snapshot()
        for step, (op, faults) in enumerate(h["ops"]):
            if not w.ready(op):
                continue
            stats["steps"] += 1
            hist = ascii(h["ops"][:step])[:700]
            plan = icufault.Plan(faults or {})
            exc = None
            try:
                icufault.under(plan, lambda: w.do(op))
            except Exception as e:
                exc = e
            now = w.snapshot()
            fired = bool(plan.fired)
            if fired:
                self.note(plan, stats)
                stats["probe:cold_failure"] += int(first and step == 0)
                keys.append(core.digest([op, plan.fired, prev]))
                if exc is not None:
                    if not isinstance(exc, self.E.URLParseError):
                        return {"class": "not-contained", "detail": f"step {step} {ascii(op)} with backend faults {ascii(plan.fired)} raised {ascii(repr(exc))[:200]}; history {hist}"}, keys, "v"
                    if now != prev:
                        return {"class": "half-changed", "detail": f"step {step} {ascii(op)} with backend faults {ascii(plan.fired)} raised {type(exc).__name__} but changed "
                                f"{world.diff_world(prev, now)}; history {hist}"}, keys, "v"
                    stats["probe:contained"] += 1
                    # retry
                    exc = None
                    try:
                        w.do(op)
                    except Exception as e:
                        exc = e
                    stats["probe:retried"] += 1
                    now = w.snapshot()
                else:
                    return {"class": "not-contained", "detail": f"step {step} {ascii(op)} succeeded although the backend failed {ascii(plan.fired)}: "
                            f"{world.diff_world(prev, now)}; history {hist}"}, keys, "v"
            texc = None
            try:
                twin.do(op)
            except Exception as e:
                texc = e
            t = twin.snapshot()
            log.append([step, exc is None])
            if t != now or (exc is None) != (texc is None):
                return {"class": "wrong-result" if fired else "remembered", "detail": f"after step {step} {ascii(op)} (backend faults fired: {ascii(plan.fired)}) the world differs from one without faults: "
                        f"{world.diff_world(t, now)} {ascii(repr(exc))[:150]} / {ascii(repr(texc))[:150]}; history {hist}"}, keys, "v"
            prev = now
        return None, keys, core.digest([h, log, prev])

    def shrinks(self, sc):
        yield ("hists",)
        yield ("after",)
        for i, h in enumerate(sc["hists"]):
            yield ("hists", i, "calls" if "calls" in h else "ops")

    def simplify(self, sc):
        for i, h in enumerate(sc["hists"]):
            k = "calls" if "calls" in h else "ops"
            for j, (op, f) in enumerate(h[k]):
                if f is not None:
                    s = js.copy(sc)
                    s["hists"][i][k][j][1] = None
                    yield s


CHECK = C07()
