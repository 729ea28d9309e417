"""What an operation does when it is the only thing a fresh process ever does."""
from __future__ import annotations

import core
import js
import lib

_memo = {}


def key(op):
    return js.dumps(op)


def outcome_alone(op):
    """Run in the worker parent: outcome of op in a freshly forked child of the pristine worker (memoised)."""
    k = key(op)
    if k not in _memo:
        kind, val = core.in_child(lambda: lib.outcome(op, lib.make_shared()))
        if kind == "cpu":
            val = {"hang": True}
        elif kind != "ok":
            raise core.HarnessError(f"pristine run of {ascii(op)}: {kind} {val}")
        _memo[k] = val
    return _memo[k]


class Server:
    """Reference outcomes from a separate interpreter with its own hash seed: each operation alone in a fresh child of it."""

    def __init__(self, hashseed="0"):
        import os
        import subprocess
        import sys
        env = dict(os.environ)
        for k in ("PYTHONOPTIMIZE", "PYTHONDEVMODE", "PYTHONINTMAXSTRDIGITS", "PYTHONUTF8", "PYTHONCOERCECLOCALE"):
            env.pop(k, None)
        env.update({"PYTHONHASHSEED": hashseed, "LC_ALL": "C.UTF-8", "PYTHONWARNINGS": "ignore"})
        self.p = subprocess.Popen([sys.executable, "-B", __file__], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)
        self.memo = {}

    def outcome(self, op):
        k = key(op)
        if k not in self.memo:
            self.p.stdin.write(k.encode("utf-8", "surrogatepass") + b"\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
            if not line:
                raise core.HarnessError("the reference interpreter died")
            self.memo[k] = js.loads(line)
        return self.memo[k]


def serve():
    import os
    import sys
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    lib.load()
    for line in sys.stdin.buffer:
        op = js.loads(line)
        out.write(js.encode(outcome_alone(op)) + b"\n")
        out.flush()
        _memo.clear()


def table(ops):
    return {key(op): outcome_alone(op) for op in ops}


def diff(got, want):
    """A short description of the first difference."""
    if got == want:
        return ""
    if isinstance(got, dict) and isinstance(want, dict):
        for k in sorted(set(got) | set(want)):
            if got.get(k, "<absent>") != want.get(k, "<absent>"):
                return f"{k}: got {ascii(got.get(k, '<absent>'))[:500]}, alone {ascii(want.get(k, '<absent>'))[:500]}"
    return f"got {ascii(got)[:500]}, alone {ascii(want)[:500]}"


if __name__ == "__main__":
    serve()
