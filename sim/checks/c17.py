"""C17 - a call that runs out of memory or stack leaves everything else intact."""
from __future__ import annotations

import os
import shutil
import sys
import tempfile

import core
import js
import starve
from checks import c08

DEPTH = 40


class C17(c08.C08):
    id = "C17"
    runs = {"quick": 12000, "thorough": 300000}
    kinds = ["nomem", "stack"]
    pure = 0.35
    gets = 0.25
    rule = ("A run plays short histories over live URLs, records and search params; under the last operation of each either the n-th memory allocation (and up to two after it) really fails, or only k more "
            "stack frames are available. The caller must see MemoryError or RecursionError, or the operation must have done all its work; every object, the recovery rules and later calls are checked. "
            "Non-trivial: an allocation failed, or the stack ran out, inside the operation; distinct: different (operation, state, point, kind).")
    measure = "hash of (operation, world snapshot, point of failure, kind)"
    stub = "allocator of the interpreter (real allocations made to fail by number); recursion limit; clock of the logging module"
    assumptions = ["allocations inside ICU and its binding do not fail (the binding crashes the process)", "CPython 3.12.3 does not survive a failing allocation in PyFunction_New and reports some as SystemError; "
                   "the first are passed over, the second count as MemoryError"]

    def start(self):
        self.dir = tempfile.mkdtemp(prefix="verif-c17-")
        self.env = {"VERIF_MEMSHIM": starve.compile(self.dir)}

    def stop(self):
        if getattr(self, "dir", None):
            shutil.rmtree(self.dir, ignore_errors=True)

    def setup(self):
        super().setup()
        starve.still_clock()
        starve.load(os.environ["VERIF_MEMSHIM"])

    def scenario(self, r, index, tier):
        sc = super().scenario(r, index, tier)
        for h in sc["hists"]:
            if h["kind"] == "stack" and r.random() < 0.5:
                h["frac"] = r.random() * 0.4
            h["burst"] = r.choice([1, 1, 1, 2, 3])
        return sc

    def room(self, h, fn):
        if h["kind"] == "nomem":
            return starve.allocations(fn)
        try:
            fn()
        except Exception:
            pass
        return DEPTH

    def starve(self, h, k, fn):
        """(did it strike in the library, exception seen, was it lost in a finaliser, value)"""
        lost = []
        old = sys.unraisablehook
        sys.unraisablehook = lambda a: lost.append(1)
        seen = value = None
        try:
            if h["kind"] == "nomem":
                value = starve.memory(k, h["burst"], fn)
            else:
                value = starve.stack(k, fn)
        except BaseException as e:  # noqa: B902
            seen = e
        finally:
            sys.unraisablehook = old
        if h["kind"] == "nomem":
            fired = starve.failed() > 0
        else:
            fired = True  # nobody knows; an operation that ends must have done its work
        if isinstance(seen, c08.STARVE[h["kind"]]) and not starve.in_library(seen):
            fired = False  # the harness itself ran out
        return fired, seen, bool(lost), value

    def simplify(self, sc):
        for i, h in enumerate(sc["hists"]):
            if h["burst"] > 1:
                s = js.copy(sc)
                s["hists"][i]["burst"] = 1
                yield s
        yield from super().simplify(sc)


CHECK = C17()
