"""C02 - the application's logging set-up never changes what a call returns or reports."""
from __future__ import annotations

import js
import logging
import logging.config
import os
import sys

import core
import lib
import pool
import pristine
import steps

CLASSES = ["URL", "BasicURLParser", "Host", "IPv4Address", "IPv6Address", "IDNA", "HostValidator", "URLValidator", "URLSearchParams", "URLRecord", "ValidityState"]
NAMES = [None, "urlstd", "urlstd.parse", "urlstd.error"] + ["urlstd.parse." + c for c in CLASSES] + ["urlstd.parse.Host.child", "urlstd.parse.IDNA.x.y"]
LEVELS = [0, 1, 5, 10, 20, 30, 40, 50, 60, 1000]
LCLASSES = ["Plain", "Quiet", "Loud", "Prefix", "Mute", "Record", "default"]
HANDLERS = ["null", "collect", "format", "reenter", "stream", "adder"]


class Plain(logging.Logger):
    pass


class Quiet(logging.Logger):
    def isEnabledFor(self, level):
        return False


class Loud(logging.Logger):
    def isEnabledFor(self, level):
        return True


class Prefix(logging.Logger):
    def _log(self, level, msg, args, **kw):
        super()._log(level, "app: " + str(msg), args, **kw)


class Mute(logging.Logger):
    """drops everything below a warning, as some applications do"""

    def debug(self, msg, *args, **kwargs):
        pass

    def info(self, msg, *args, **kwargs):
        pass


class Record(logging.Logger):
    def makeRecord(self, name, level, fn, lno, msg, args, exc_info, func=None, extra=None, sinfo=None):
        r = super().makeRecord(name, level, fn, lno, msg, args, exc_info, func, extra, sinfo)
        r.tenant = "t1"
        return r


LOGGER_CLASSES = {"Plain": Plain, "Quiet": Quiet, "Loud": Loud, "Prefix": Prefix, "Mute": Mute, "Record": Record, "default": logging.Logger}


def rand_action(r, ops):
    n = r.choice(NAMES) if r.random() < 0.7 else r.choice(NAMES[:3])
    k = r.choice(["level", "level", "level", "create", "create", "class", "class", "disable", "disable", "dict", "propagate", "disabled", "handler", "handler", "handler",
                  "handler", "filter", "factory", "pop", "lastresort", "basic", "clear", "shutdown", "raise"])
    if k == "level":
        return [k, n, r.choice(LEVELS)]
    if k in ("create", "pop", "clear"):
        return [k, n]
    if k == "class":
        return [k, r.choice(LCLASSES)]
    if k == "disable":
        return [k, r.choice([0, 0, 10, 20, 40, 50, 1000])]
    if k == "dict":
        return [k, r.random() < 0.7, r.random() < 0.3, n, r.choice(LEVELS[2:8])]
    if k in ("propagate", "disabled"):
        return [k, n, r.random() < 0.5]
    if k == "handler":
        h = r.choice(HANDLERS)
        return [k, n, h, r.choice([0, 0, 10, 20, 40, 50]), r.choice(ops) if h == "reenter" else None]
    if k == "filter":
        return [k, n, r.choice(["drop", "pass", "rewrite"])]
    if k == "factory":
        return [k, r.choice(["plain", "subclass"])]
    if k == "lastresort":
        return [k, r.random() < 0.5]
    if k == "basic":
        return [k, r.choice(LEVELS)]
    if k == "raise":
        return [k, r.random() < 0.5]
    return [k]


class C02(core.Check):
    id = "C02"
    runs = {"quick": 25000, "thorough": 250000}
    rule = ("A run forks a process that has not imported the library, lets the application configure logging (levels, logger classes, pre-created loggers, handlers that format, collect or call the "
            "library again, filters, record factories, dictConfig, global disable), imports the library, configures again, and performs calls while the configuration changes between calls and at "
            "chosen lines inside them. Every outcome, report included, must equal that under the default configuration; a call with a silenced report must emit no record. "
            "Non-trivial: at least one configuration action took effect before or during a call; distinct: different (call, configuration actions in force, position of the change).")
    measure = "hash of (call, actions before it, actions inside it)"
    stub = "none"
    assumptions = ["handlers that raise are part of C08", "applications that replace attributes of the library itself are out of scope"]

    def setup(self):
        lib.cache_code()
        lib.preimport()
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.pool = pool.make(seed, 330, log=True)
        self.memo = {}

    def scenario(self, r, index, tier):
        ws = [r.choice(self.pool) for _ in range(r.choice([1, 3, 6]))]
        if r.random() < 0.3:  # reports are where logging could leak in
            ws = [r.choice([op for op in self.pool if op[0] in ("can_parse", "uv", "scheme", "hv")]) for _ in range(4)]

        def acts(lo, hi):
            return [rand_action(r, ws) for _ in range(r.randrange(lo, hi + 1))]
        when = r.choice(["pre", "post", "both", "mid", "all"])
        pre = acts(1, 5) if when in ("pre", "both", "all") else []
        post = acts(1, 5) if when in ("post", "both", "all") else []
        calls = []
        for _ in range(r.choice([2, 4, 8])):
            between = acts(1, 2) if when in ("mid", "all") and r.random() < 0.5 else []
            mid = [[r.random(), rand_action(r, ws)] for _ in range(r.choice([1, 2]))] if when in ("mid", "all") and r.random() < 0.5 else []
            calls.append([between, r.choice(ws), mid])
        return {"pre": pre, "post": post, "calls": calls}

    # -------------------------------------------------------------- reference
    def ops_of(self, sc):
        def from_actions(acts):
            return [a[4] for a in acts if a[0] == "handler" and a[4]]
        ops = from_actions(sc["pre"]) + from_actions(sc["post"])
        for between, op, mid in sc["calls"]:
            ops.append(op)
            ops += from_actions(between) + from_actions([m[1] for m in mid])
        return ops

    def prepare(self, sc):
        missing = []
        for op in self.ops_of(sc):
            k = pristine.key(op)
            if k not in self.memo and k not in missing:
                missing.append(k)
        if missing:
            def ref():
                import signal  # noqa: F401
                self.silence()
                lib.load()
                out = []
                for k in missing:  # each alone, in a child of its own
                    kind, val = core.in_child(lambda: lib.outcome(js.loads(k), lib.make_shared()))
                    out.append({"hang": True} if kind == "cpu" else val if kind == "ok" else {"broken": [kind, str(val)]})
                return out
            kind, val = core.in_child(ref, cpu=600)
            if kind != "ok":
                raise core.HarnessError(f"reference run: {kind} {val}")
            for k, v in zip(missing, val):
                if "broken" in v:
                    raise core.HarnessError(f"reference run of {k}: {v}")
                self.memo[k] = v

    @staticmethod
    def silence():
        fd = os.open(os.devnull, os.O_WRONLY)
        os.dup2(fd, 2)
        os.close(fd)

    # -------------------------------------------------------------- the application's operator
    def act(self, a):
        k = a[0]
        if k == "level":
            logging.getLogger(a[1]).setLevel(a[2])
        elif k == "create":
            logging.getLogger(a[1])
        elif k == "class":
            logging.setLoggerClass(LOGGER_CLASSES[a[1]])
        elif k == "disable":
            logging.disable(a[1])
        elif k == "dict":
            logging.config.dictConfig({
                "version": 1, "disable_existing_loggers": a[1], "incremental": False,
                "handlers": {"n": {"class": "logging.NullHandler"}},
                "root": {"level": "DEBUG", "handlers": ["n"]} if a[2] else {"level": "ERROR", "handlers": []},
                "loggers": {a[3]: {"level": a[4], "handlers": ["n"], "propagate": a[2]}} if a[3] else {}})
        elif k == "propagate":
            logging.getLogger(a[1]).propagate = a[2]
        elif k == "disabled":
            logging.getLogger(a[1]).disabled = a[2]
        elif k == "handler":
            h = self.handler(a)
            h.setLevel(a[3])
            logging.getLogger(a[1]).addHandler(h)
        elif k == "filter":
            kind = a[2]

            def flt(rec):
                if kind == "rewrite":
                    rec.msg, rec.args = "rewritten", ()
                return kind != "drop"
            logging.getLogger(a[1]).addFilter(flt)
        elif k == "factory":
            class Rec(logging.LogRecord):
                def getMessage(self):
                    return "rec: " + super().getMessage()
            logging.setLogRecordFactory(Rec if a[1] == "subclass" else (lambda *x, **y: logging.LogRecord(*x, **y)))
        elif k == "pop":
            logging.root.manager.loggerDict.pop(a[1] or "", None)
        elif k == "lastresort":
            logging.lastResort = logging._StderrHandler(logging.WARNING) if a[1] else None
        elif k == "basic":
            logging.basicConfig(level=a[1], force=True)
        elif k == "clear":
            lg = logging.getLogger(a[1])
            for h in list(lg.handlers):
                lg.removeHandler(h)
        elif k == "shutdown":
            logging.shutdown()
        elif k == "raise":
            logging.raiseExceptions = a[1]

    def handler(self, a):
        me = self
        kind = a[2]
        if kind == "null":
            return logging.NullHandler()
        if kind == "stream":
            h = logging.StreamHandler()
            h.setFormatter(logging.Formatter("%(asctime)s %(name)s %(levelname)s %(funcName)s %(message)s"))
            return h

        class H(logging.Handler):
            def emit(self, record):
                me.stats["fault:handler_called"] += 1
                if kind == "format":
                    self.format(record)  # a handler that would let a malformed record's error out
                elif kind == "collect":
                    me.collected.append(record)
                elif kind == "adder":
                    lg = logging.getLogger(record.name)
                    lg.setLevel(10 if lg.level != 10 else 50)
                elif kind == "reenter":
                    if me.depth:
                        return
                    me.depth += 1
                    try:
                        me.stats["fault:reentrant_call"] += 1
                        me.call("re-entrant call from a log handler", a[4])
                    finally:
                        me.depth -= 1
        return H()

    def call(self, where, op, mid=()):
        quiet = op[0] in ("can_parse", "uv", "scheme", "hv", "host", "ascii", "unicode") and op[-1] == "quiet"
        trace = sys.gettrace()
        sys.settrace(None)
        self.stack.append([False, None])
        shared = lib.make_shared()
        self.stack[-1] = [quiet, op]
        try:
            if mid:
                # how many steps the call takes is measured under the configuration in force, in a call that is judged as well
                st = steps.Stepper({}, "line")
                got = st.run(lambda: lib.outcome(op, shared))
                self.judge(where, op, got)
                total = max(1, st.step)

                def hook(a):
                    def f(frame):
                        self.stack.append([False, None])
                        try:
                            self.act(a)
                        finally:
                            self.stack.pop()
                        self.stats["fault:config_change_inside_call"] += 1
                    return f
                st = steps.Stepper({1 + int(fr * total): hook(a) for fr, a in mid}, "line")
                got = st.run(lambda: lib.outcome(op, shared))
            else:
                got = lib.outcome(op, shared)
        finally:
            self.stack.pop()
            sys.settrace(trace)
        self.judge(where, op, got)

    def judge(self, where, op, got):
        self.stats["steps"] += 1
        self.digs.append(core.digest(got))
        want = self.memo[pristine.key(op)]
        if got != want and not self.viol:
            self.viol = {"class": "changed-by-logging", "detail": f"{where}: {ascii(op)[:400]}: {pristine.diff(got, want).replace(', alone ', ', under the default configuration ')}"}

    def execute(self, sc):
        self.silence()
        self.stack, self.digs, self.collected, self.viol, self.depth = [], [], [], None, 0
        self.stats = {k: 0 for k in ("steps", "fault:config_before_import", "fault:config_after_import", "fault:config_between_calls", "fault:config_change_inside_call",
                                     "fault:handler_called", "fault:reentrant_call", "probe:records", "probe:quiet_calls")}
        orig = logging.Logger.handle
        me = self

        def handle(self, record):
            me.stats["probe:records"] += 1
            if me.stack and me.stack[-1][0] and not me.viol:
                me.viol = {"class": "not-silenced", "detail": f"{ascii(me.stack[-1][1])[:300]} was given a report with logging disabled and emitted {record.name}: {ascii(str(record.msg))[:200]}"}
            return orig(self, record)
        logging.Logger.handle = handle
        keys = []
        force = []
        for a in sc["pre"]:
            self.act(a)
            self.stats["fault:config_before_import"] += 1
            force.append(["pre", a])
        lib.load()
        for a in sc["post"]:
            self.act(a)
            self.stats["fault:config_after_import"] += 1
            force.append(["post", a])
        for i, (between, op, mid) in enumerate(sc["calls"]):
            for a in between:
                self.act(a)
                self.stats["fault:config_between_calls"] += 1
                force.append(a)
            self.stats["probe:quiet_calls"] += int(op[-1] == "quiet")
            self.call(f"call {i}", op, mid)
            if force or mid:
                keys.append(core.digest([op, force, mid]))
            force = force + [m[1] for m in mid]
            if self.viol:
                self.viol["detail"] += f"; configuration {ascii(force)[:700]}"
                break
        return {"violation": self.viol, "digest": core.digest(self.digs), "keys": keys, "key": keys[0] if keys else "", "stats": self.stats}

    def shrinks(self, sc):
        yield ("calls",)
        yield ("pre",)
        yield ("post",)
        for i in range(len(sc["calls"])):
            yield ("calls", i, 0)
            yield ("calls", i, 2)


CHECK = C02()
