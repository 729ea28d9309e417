"""C14 - memory and process resources do not grow with use."""
from __future__ import annotations

import gc
import logging
import os
import random
import sys
import threading

import core
import icufault
import lib
import steps

WINDOW = 300  # calls between two measurements
CALLS = 15000  # growth that goes on for so many calls is not a bounded cache filling up
PER_CALL = 0.1  # memory blocks per call that count as growth (a leak of one object per call is at least 1)

GOOD = ["http://h{i}.example/p", "http://u{i}:p{i}@h/", "https://bücher{i}.example/ä{i}", "http://{ip}/", "http://[{v6}]/", "foo{i}://h{i}/p", "http://h:{port}/x", "http://h/p{i}?q={i}#f{i}",
        "data:x{i}", "file:///C:/d{i}/../e{i}", "blob:https://h{i}/x", "http://h/?{i}=ü", "http://h/\t%{i}^|", "mailto:a{i}@b", "ws://h{i}:80/"]
BAD = ["http://a{i} b/", "http://[{i}::g]/", "http://h:{i}99999/", "rel{i}", "http://1.2.3.4.{i}/", "http://a^{i}/", "http://xn--{i}a--/", "x{i}://a<b/", "http://u{i}@/", "//{i}"]
HOSTS = ["h{i}.example", "bücher{i}.de", "{ip}", "[{v6}]", "a_{i}", "a{i}..b", "xn--{i}", "1.2.{i}", "a b{i}", "[{i}::", "%{i}", "ｅｘ{i}"]
REFS = ["x{i}", "../y{i}", "?q={i}", "#f{i}", "//h{i}/", "/p{i}", "http://h{i}/", "", "{i}:x"]
TEXT = ["v{i}", "a b{i}", "é{i}", "%{i}", "&{i}=", "🌈{i}"]
SETS = [("href", "http://h{i}/?a={i}"), ("href", "http://[{i}"), ("protocol", "ws"), ("protocol", "http"), ("username", "u{i}"), ("password", "p ü{i}"), ("host", "h{i}.example:8{d}"), ("host", "a b{i}"),
        ("hostname", "h{i}"), ("port", "{port}"), ("port", "x{i}"), ("pathname", "/p{i}/../q{i}"), ("search", "?q={i}&r=ü"), ("hash", "#f{i} x")]
KINDS = ["URL", "URL-bad", "base", "parse_url", "urlparse", "can_parse", "uv", "scheme", "hv", "host", "ascii", "unicode", "codec", "usp", "set", "set1", "call", "iterate", "record", "report", "copy"]


def fill(t, i, r):
    return t.format(i=i, d=i % 9, port=i % 65535, ip=f"{i >> 16 & 255}.{i >> 8 & 255}.{i & 255}.{r.randrange(256)}", v6=f"{i:x}:{r.randrange(65536):x}::{r.randrange(65536):x}")


class Live:
    def __init__(self):
        P = lib.P
        self.url = P.URL("http://u@example.com:81/a/b?a=1&b=2#f")
        self.url1 = P.URL("https://example.org/?x=1")
        self.opaque = P.URL("data:x ?a=1#f")
        self.rec = P.parse_url("http://example.com/a/b?x=1")
        self.attached = P.URLSearchParams(self.rec)
        self.sp = P.URLSearchParams("a=1&b=2")
        self.report = P.ValidityState(disable_logging=True)


def step(kind, i, r, L, attr):
    """One call; its arguments are new every time."""
    P = lib.P
    pick = r.choice
    if kind == "URL":
        return P.URL(fill(pick(GOOD), i, r))
    if kind == "URL-bad":
        return P.URL(fill(pick(BAD), i, r))
    if kind == "base":
        return P.URL(fill(pick(REFS), i, r), pick([L.url, L.url1, L.opaque, "http://b%d/x/" % i]))
    if kind == "parse_url":
        return P.parse_url(fill(pick(GOOD + BAD + REFS), i, r), base=pick([None, L.rec]), encoding=pick(["utf-8", "windows-1252"])).origin
    if kind == "urlparse":
        return P.urlparse(fill(pick(GOOD + REFS), i, r), "http://h/%d" % i, "utf-8", i % 2 == 0)
    if kind == "can_parse":
        return P.URL.can_parse(fill(pick(GOOD + BAD + REFS), i, r), pick([None, L.url]), **pick([{}, {"validity": L.report}]))
    if kind == "uv":
        return P.URLValidator.is_valid(fill(pick(GOOD + BAD + REFS), i, r), base=pick([None, L.rec]), **pick([{}, {"validity": L.report}]))
    if kind == "scheme":
        return P.URLValidator.is_valid_url_scheme(pick(["http", "s%d" % i, "x+%d" % i]))
    if kind == "hv":
        return getattr(P.HostValidator, pick(["is_valid", "is_valid_domain", "is_valid_ipv4_address", "is_valid_ipv6_address", "is_valid_opaque_host"]))(fill(pick(HOSTS), i, r), **pick([{}, {"validity": L.report}]))
    if kind == "host":
        return P.Host.serialize(P.Host.parse(fill(pick(HOSTS), i, r), i % 3 == 0))
    if kind == "ascii":
        return P.IDNA.domain_to_ascii(fill(pick(HOSTS), i, r), i % 2 == 0)
    if kind == "unicode":
        return P.IDNA.domain_to_unicode(fill(pick(HOSTS), i, r), i % 2 == 0)
    if kind == "codec":
        t = fill(pick(TEXT), i, r)
        return (P.string_percent_encode(t, "/%d" % (i % 10)), P.string_percent_decode(t), P.parse_qsl(t.encode()), P.urlencode([(t, t)]), P.utf8_encode(t), P.utf8_percent_encode(t, ""))
    if kind == "usp":
        sp = P.URLSearchParams(pick([fill("a={i}&b={i}", i, r), [("a", i), ("b", "x")], {"k%d" % i: i}, L.sp]))
        sp.append("n%d" % i, i)
        sp.sort()
        return str(sp)
    if kind == "set":
        a, v = pick(SETS)
        return setattr(pick([L.url, L.url, L.opaque]), a, fill(v, i, r))
    if kind == "set1":
        a, v = attr
        return setattr(L.url1, a, fill(v, i, r))
    if kind in ("call", "iterate"):
        sp = pick([L.url.search_params, L.attached, L.sp])
        if kind == "iterate":
            it = pick([sp.__iter__, sp.entries, sp.keys, sp.values])()
            next(it, None)
            return (sp.get("a"), sp.get_all("n%d" % i), sp.has("a", str(i)), len(sp), str(sp), "x%d" % i in sp)
        m = pick(["append", "set", "delete", "sort", "set-bad"])
        if m == "append":
            sp.append("t%d" % (i % 3), fill(pick(TEXT), i, r))
            for k in range(3):
                if len(sp) > 4:
                    sp.delete("t%d" % k)
            return None
        if m == "set":
            return sp.set("a", fill(pick(TEXT), i, r))
        if m == "delete":
            return sp.delete(pick(["b", "t0", "x%d" % i]))
        if m == "sort":
            return sp.sort()
        return sp.set("a", object)
    if kind == "record":
        L.rec.fragment = "f%d" % i
        L.rec.username = "u%d" % i
        L.rec.path = ["p%d" % i]
        return (str(L.rec), L.rec.origin, L.rec == L.rec, repr(L.rec), L.rec.equals(L.rec, True))
    if kind == "report":
        v = P.ValidityState(disable_logging=True)
        P.URL.can_parse(fill(pick(BAD), i, r), validity=v)
        w = v + v
        w += v
        v.reset()
        return (repr(w), w.valid)
    if kind == "copy":
        import copy
        import pickle
        return (copy.deepcopy(L.url), pickle.loads(pickle.dumps(L.url1)), copy.deepcopy(L.sp), L.url == L.url1, str(L.url), repr(L.url), L.url.equals(L.url1), L.url.origin)
    raise ValueError(kind)


class Stop(Exception):
    pass


class C14(core.Check):
    id = "C14"
    level = "exploration"
    runs = {"quick": 1600, "thorough": 40000}
    rule = (f"A run makes calls of a few chosen kinds with arguments never used before, on fresh objects, live bases, live URLs, live search params and a reused report, optionally with backend failures or asynchronous "
            f"exceptions at chosen points, and measures the memory blocks the interpreter holds after every {WINDOW} calls. Growth of more than {PER_CALL} blocks per call in every window for {CALLS} calls is a violation, as are open "
            "files, threads or loggers that add up. Non-trivial: at least two windows were measured; distinct: different (kinds, fault mode, seed).")
    measure = "hash of (kinds of call, fault mode, seed)"
    stub = "ICU IDNA wrapper (faults), asynchronous exceptions raised from a trace function"
    assumptions = ["memory held by ICU's own allocator is not measured", f"a cache that is still filling up after {CALLS} distinct calls counts as unbounded"]

    def setup(self):
        lib.load()
        icufault.install()

    def scenario(self, r, index, tier):
        n = r.choice([1, 1, 1, 2, 4])
        return {"kinds": sorted(r.sample(KINDS, n)), "mode": r.choice(["none", "none", "none", "backend", "async"]), "seed": r.randrange(10**9), "calls": CALLS, "attr": r.randrange(len(SETS))}

    def execute(self, sc):
        r = random.Random(sc["seed"])
        L = Live()
        logging.getLogger().addHandler(logging.NullHandler())
        stats = {"steps": 0, "fault:backend": 0, "fault:async": 0, "fault:rejected_operation": 0, "probe:windows": 0}
        mode, kinds, attr = sc["mode"], sc["kinds"], SETS[sc["attr"]]
        i = r.randrange(1000, 5000)

        def window():
            nonlocal i
            for _ in range(WINDOW):
                i += 1
                kind = r.choice(kinds)
                try:
                    if mode == "backend" and r.random() < 0.5:
                        plan = icufault.Plan({r.choice([0, 1, 1, 2]): r.choice([["error", r.choice(icufault.CODES)], ["errors", r.choice(icufault.ERRORS)], ["empty"], ["forbidden", "a b"]])})
                        try:
                            icufault.under(plan, lambda: step(kind, i, r, L, attr))
                        finally:
                            stats["fault:backend"] += len(plan.fired)
                    elif mode == "async" and r.random() < 0.3:
                        def strike(frame):
                            raise Stop
                        s = steps.Stepper({r.randrange(1, 120): strike}, "async")
                        try:
                            s.run(lambda: step(kind, i, r, L, attr))
                        finally:
                            stats["fault:async"] += len(s.fired)
                    else:
                        step(kind, i, r, L, attr)
                except Exception:
                    stats["fault:rejected_operation"] += 1
            stats["steps"] += WINDOW
            stats["probe:windows"] += 1

        def held():
            gc.collect()
            return sys.getallocatedblocks()

        fds = len(os.listdir("/proc/self/fd"))
        threads = threading.active_count()
        window()
        early = dict(stats)  # goes into the digest: how many windows follow depends on the memory measured
        loggers = len(logging.Logger.manager.loggerDict)
        last = held()
        first, calls, quiet = last, WINDOW, 0
        viol = None
        while calls < sc["calls"]:
            window()
            calls += WINDOW
            now = held()
            grew = (now - last) / WINDOW
            last = now
            if grew < PER_CALL:
                quiet += 1
                if quiet == 2:
                    break
        else:
            if (last - first) / (calls - WINDOW) > PER_CALL and quiet < 2:
                viol = {"class": "memory-grows", "detail": f"{calls} calls of kind {kinds}{' under ' + mode + ' faults' if mode != 'none' else ''} left {last - first} memory blocks behind, "
                        f"{(last - first) / (calls - WINDOW):.1f} per call"}
        n = len(os.listdir("/proc/self/fd"))
        if viol is None and n > fds + 2:
            viol = {"class": "files-left-open", "detail": f"{n - fds} files are left open after {calls} calls of kind {kinds}"}
        if viol is None and threading.active_count() > threads + 2:
            viol = {"class": "threads-left", "detail": f"{threading.active_count() - threads} threads are left after {calls} calls of kind {kinds}"}
        if viol is None and len(logging.Logger.manager.loggerDict) > loggers + 60:
            viol = {"class": "loggers-left", "detail": f"{len(logging.Logger.manager.loggerDict) - loggers} loggers were added by {calls} calls of kind {kinds}"}
        return {"violation": viol, "digest": core.digest([kinds, mode, sc["seed"], early]), "key": core.digest([kinds, mode, sc["seed"]]), "stats": stats}

    def shrinks(self, sc):
        yield ("kinds",)

    def simplify(self, sc):
        if sc["mode"] != "none":
            yield dict(sc, mode="none")


CHECK = C14()
