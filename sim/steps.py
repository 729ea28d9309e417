"""Single-threaded stepping: run something, count points inside the library, act at chosen ones.

mode "line":  every line and return event of the library's frames (for actions that do not raise).
mode "async": the points at which CPython really delivers asynchronous exceptions: function entry, backward jumps, and
              completed calls - the latter only where the next instruction has the same exception handler, so that raising
              there is the same as raising at the end of the call (a with block is never left without its __exit__).
"""
from __future__ import annotations

import dis
import sys

import lib

_info = {}


def code_info(code):
    """offset -> (is_call, is_backward_jump, handler)"""
    t = _info.get(code)
    if t is None:
        table = []
        try:
            table = [(e.start, e.end, e.target) for e in dis._parse_exception_table(code)]
        except Exception:
            pass
        t = {}
        for ins in dis.get_instructions(code):
            off = ins.offset
            handler = next((tg for s, e, tg in table if s <= off < e), None)
            t[off] = (ins.opname.startswith("CALL") and ins.opname not in ("CALL_INTRINSIC_1", "CALL_INTRINSIC_2"), ins.opname.startswith("JUMP_BACKWARD"), handler)
        _info[code] = t
    return t


def enable_opcodes():
    """CPython 3.12 delivers opcode events only to traces set after some frame has asked for them once."""
    sys._getframe().f_trace_opcodes = True


class Stepper:
    """hooks: {step: callable(frame)}; a hook may raise, which makes the exception strike at that very point."""

    def __init__(self, hooks=None, mode="line"):
        self.hooks = hooks or {}
        self.is_async = mode == "async"
        self.step = 0
        self.fired = []
        self.where = None
        self.unraisable = []
        self.prev = {}

    def _point(self, frame):
        self.step += 1
        h = self.hooks.get(self.step)
        if h is not None:
            self.fired.append(self.step)
            self.where = f"{frame.f_code.co_qualname}:{frame.f_lineno}"
            sys.settrace(None)  # the hook itself runs untraced
            h(frame)
            sys.settrace(self._global)

    def _global(self, frame, event, arg):
        if not lib.in_urlstd(frame.f_code) or event != "call":
            return None
        if self.is_async:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        if frame.f_lineno is not None:
            self._point(frame)
        return self._local

    def _local(self, frame, event, arg):
        if frame.f_lineno is None:
            return self._local
        if not self.is_async:
            if event == "line" or event == "return":
                self._point(frame)
        elif event == "opcode":
            off = frame.f_lasti
            info = code_info(frame.f_code)
            cur = info.get(off)
            p = info.get(self.prev.get(frame, -1))
            self.prev[frame] = off
            if cur is not None and (cur[1] or (p is not None and p[0] and p[2] == cur[2])):
                self._point(frame)
        elif event == "return":
            self.prev.pop(frame, None)
        return self._local

    def run(self, fn):
        old = sys.unraisablehook
        sys.unraisablehook = lambda a: self.unraisable.append(repr(a.exc_value))
        if self.is_async:
            enable_opcodes()
        sys.settrace(self._global)
        try:
            return fn()
        finally:
            sys.settrace(None)
            self.prev.clear()
            sys.unraisablehook = old


def count(fn, mode="line"):
    """Number of steps fn takes (exceptions of fn are ignored)."""
    s = Stepper({}, mode)
    try:
        s.run(fn)
    except Exception:
        pass
    return s.step
