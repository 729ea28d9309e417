"""Resource faults: real failing allocations and a nearly exhausted stack under one call."""
from __future__ import annotations

import functools
import gc
import importlib.util
import logging
import os
import subprocess
import sys
import sysconfig
import time
import types

import core
import lib

shim = None


def _depth():
    f, n = sys._getframe(1), 0
    while f is not None:
        f, n = f.f_back, n + 1
    return n


def compile(dir):
    so = os.path.join(dir, "memshim.so")
    subprocess.run(["gcc", "-O1", "-fPIC", "-shared", "-w", "-I" + sysconfig.get_path("include"), "-o", so, os.path.join(core.HERE, "memshim.c"), "-ldl"], check=True)
    return so


def load(so):
    global shim
    spec = importlib.util.spec_from_file_location("memshim", so)
    shim = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(shim)


def still_clock():
    """log records carry the time, whose numbers need more or less memory"""
    clock = types.ModuleType("time")
    clock.__dict__.update(time.__dict__)
    clock.time = functools.partial(float, 1700000000.5)
    logging.time = clock


def allocations(fn):
    """how many allocations fn makes (its exceptions are ignored)"""
    try:
        memory(1 << 60, 0, fn)
    except Exception:
        pass
    return shim.seen()[0]


def memory(n, m, fn):
    """run fn; its n-th allocation and the m - 1 after it fail"""
    gc.collect()  # empties the free lists, so that the count does not depend on what the process did before
    on = gc.isenabled()
    gc.disable()
    shim.arm(n, m)
    try:
        return fn()
    finally:
        shim.disarm()
        if on:
            gc.enable()


def failed():
    return shim.seen()[1]


def stack(k, fn):
    """run fn with room for k more frames"""
    old = sys.getrecursionlimit()
    sys.setrecursionlimit(_depth() + 1 + k)
    try:
        return fn()
    finally:
        sys.setrecursionlimit(old)


def in_library(exc):
    """did the exception pass through a library frame?"""
    tb = exc.__traceback__
    while tb is not None:
        if lib.in_urlstd(tb.tb_frame.f_code):
            return True
        tb = tb.tb_next
    return False
