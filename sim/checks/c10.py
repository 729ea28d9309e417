"""C10 - the scheme registry is loaded completely or not at all."""
from __future__ import annotations

import csv
import ctypes
import errno
import gzip
import importlib
import os
import random
import shutil
import subprocess
import sys
import tempfile

import core
import js
import lib
import steps

OPEN_ERRS = ["ENOENT", "EACCES", "EMFILE", "ENFILE", "EIO", "ENOMEM", "EISDIR", "ELOOP", "ENOTDIR", "ESTALE", "EPERM"]
READ_ERRS = ["EIO", "ESTALE", "EINTR", "ENOMEM", "EISDIR", "ENXIO", "ETIMEDOUT"]
CODESETS = ["ANSI_X3.4-1968", "ISO-8859-1", "ISO-8859-15", "CP1252", "CP1251", "SHIFT_JIS", "EUC-JP", "GB18030", "BIG5", "KOI8-R", "UTF-16", "UTF-7", "CP437", "CP037", "UTF-32", "UTF-8", "ISO-2022-JP", "CP65001x"]
EXTRA = ["", "x", "aaaa", "http ", " http", "ht tp", "shttp", "shttp (OBSOLETE)", "shttp (obsolete)", "URI Scheme", "uri scheme", "Template", "Permanent", "Provisional", "Historical", "-",
         "foo", "[RFC6733]", "http\n", "h", "\ufeffaaa", "é", "ﬁle", "null", "None", "view_source"]


class C10(core.Check):
    id = "C10"
    level = "exploration"
    runs = {"quick": 12000, "thorough": 200000}
    rule = ("A run forks a process that has not imported the library, arms a simulated disk under the library's data files (failing open/stat/read/close, short reads, truncated, torn, flipped, zeroed, "
            "swapped or garbage content, several at once), a process locale encoding and possibly an asynchronous exception inside the load, imports the library, asks for the validity of every registered scheme and "
            "of non-schemes, then heals the disk, loads again in the same process and asks again. Every answer given must be the intact registry's; a failing load must raise and leave no file open. "
            "Non-trivial: a fault fired during the load; distinct: different fault plan.")
    measure = "hash of the fault plan"
    real = "urlstd, gzip, zlib, csv, io, importlib: real code"
    stub = "open/openat/read/pread/close/stat/nl_langinfo of libc for the library's data files (LD_PRELOAD shim)"
    assumptions = ["a replacement of the registry by another well-formed registry is not a fault", "damage that leaves the CRC-checked content intact is not damage"]

    def start(self):
        self.dir = tempfile.mkdtemp(prefix="verif-c10-")
        so = os.path.join(self.dir, "diskshim.so")
        subprocess.run(["gcc", "-O1", "-fPIC", "-shared", "-w", "-o", so, os.path.join(core.HERE, "diskshim.c"), "-ldl"], check=True)
        self.env = {"LD_PRELOAD": so, "LC_ALL": "C.UTF-8", "PYTHONCOERCECLOCALE": "0"}

    def stop(self):
        if getattr(self, "dir", None):
            shutil.rmtree(self.dir, ignore_errors=True)

    def setup(self):
        lib.cache_code()
        lib.preimport()
        self.shim = ctypes.CDLL(None)
        for n in ("vf_opens", "vf_reads", "vf_fired", "vf_still_open"):
            getattr(self.shim, n).restype = ctypes.c_long
        # the intact content of the library's data files, read before the disk is armed
        self.pkg = os.path.join(lib.SRC, "urlstd") + os.sep
        self.files = {}
        for root, dirs, files in os.walk(self.pkg):
            dirs[:] = [d for d in dirs if d != "__pycache__"]
            for f in files:
                if not f.endswith((".py", ".pyc", ".pyi", "py.typed")):
                    p = os.path.join(root, f)
                    with open(p, "rb") as fh:
                        self.files[p] = fh.read()
        self.data = max(self.files.values(), key=len) if self.files else b""
        self.schemes = None
        for p, b in sorted(self.files.items()):
            try:
                text = gzip.decompress(b).decode("utf-8") if b[:2] == b"\x1f\x8b" else b.decode("utf-8")
                rows = [row["URI Scheme"] for row in csv.DictReader(text.split("\n"))]
            except (KeyError, UnicodeDecodeError, csv.Error, TypeError, AttributeError):
                continue
            self.schemes = [s for s in rows if s != "shttp (OBSOLETE)"]
        probe = list(dict.fromkeys((self.schemes or []) + EXTRA))
        r = random.Random(7)
        for s in list(self.schemes or [])[::3]:
            probe += [s.upper(), s[:-1], s + "x", s[1:], s.capitalize()]
        self.probe = list(dict.fromkeys(probe))
        r.shuffle(self.probe)

        # what the library says with a healthy disk
        def healthy():
            lib.load()
            return [lib.P.URLValidator.is_valid_url_scheme(s) for s in self.probe]
        kind, val = core.in_child(healthy)
        if kind != "ok":
            raise core.HarnessError(f"healthy load: {kind} {val}")
        if self.schemes is None:
            self.want = val
        else:
            known = set(self.schemes)
            self.want = [bool(s) and s.lower() in known for s in self.probe]
        self.shim.vf_arm(self.pkg.encode(), (os.path.realpath(self.pkg) + os.sep).encode())
        self.sfd = set()

    # -------------------------------------------------------------- fault plans
    def content_fault(self, r):
        n = max(1, len(self.data))
        k = r.choice(["trunc", "trunc", "trunc", "flip", "flip", "zero", "garbage", "tail", "swap", "dup", "empty", "cut", "ones", "byte", "member"])
        pos = r.choice([r.randrange(n), r.randrange(n), min(n - 1, int(2 ** r.uniform(0, 13))), n - 1 - min(n - 1, int(2 ** r.uniform(0, 13))) if n > 1 else 0, r.randrange(min(n, 24))])
        if k == "trunc":
            return [k, pos]
        if k == "flip":
            return [k, [[min(n - 1, max(0, pos + r.randrange(-3, 4))), r.randrange(8)] for _ in range(r.choice([1, 1, 1, 2, 5]))]]
        if k in ("zero", "ones", "garbage"):
            b = r.choice([1, 16, 512, 4096])
            return [k, pos // b * b, b, r.getrandbits(32)]
        if k == "tail":
            return [k, r.choice(["00", "00" * 512, "ff", "1f8b", "41", "1f8b0800000000000003030000000000000000"])]
        if k == "swap":
            b = r.choice([16, 512, 1024])
            return [k, pos // b * b, r.randrange(n) // b * b, b]
        if k == "cut":
            return [k, pos, r.choice([1, 8, 100, 512])]
        if k == "byte":
            return [k, pos, r.randrange(256)]
        return [k]

    def damage(self, c):
        d = bytearray(self.data)
        k = c[0]
        if k == "trunc":
            d = d[:c[1]]
        elif k == "flip":
            for p, b in c[1]:
                d[p] ^= 1 << b
        elif k in ("zero", "ones", "garbage"):
            e = min(len(d), c[1] + c[2])
            rr = random.Random(c[3])
            for i in range(c[1], e):
                d[i] = 0 if k == "zero" else 255 if k == "ones" else rr.randrange(256)
        elif k == "tail":
            d += bytes.fromhex(c[1])
        elif k == "swap":
            a, b, n = c[1], c[2], c[3]
            if abs(a - b) >= n and max(a, b) + n <= len(d):
                d[a:a + n], d[b:b + n] = d[b:b + n], d[a:a + n]
        elif k == "dup":
            d = d + d
        elif k == "empty":
            d = bytearray()
        elif k == "cut":
            del d[c[1]:c[1] + c[2]]
        elif k == "byte":
            d[c[1]] = c[2]
        elif k == "member":  # the container is intact and empty
            d = bytearray(gzip.compress(b"", mtime=0))
        return bytes(d)

    def fault(self, r):
        k = r.choice(["open", "content", "content", "content", "content", "read", "read", "chunk", "short", "close", "locale", "locale", "strike", "stat"])
        if k in ("open", "stat"):
            return [k, r.choice(OPEN_ERRS)]
        if k == "content":
            return [k, self.content_fault(r)]
        if k == "read":
            return [k, r.choice([0, 1, 1, 2, 3, 5, 8]), r.choice(READ_ERRS)]
        if k == "chunk":
            return [k, r.choice([1, 2, 3, 7, 10, 18, 100, 511, 4096])]
        if k == "short":
            return [k, r.choice([0, 1, 2, 3]), r.choice([1, 2, 9, 10, 100, 1000])]
        if k == "close":
            return [k, r.choice(["EIO", "ENOSPC", "EDQUOT"])]
        if k == "locale":
            return [k, r.choice(CODESETS)]
        return [k, r.random(), r.choice(["KeyboardInterrupt", "MemoryError", "SystemExit", "Cancelled"])]

    def scenario(self, r, index, tier):
        attempts = []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            attempts.append([self.fault(r) for _ in range(r.choice([1, 1, 1, 2, 3]))])
        return {"attempts": attempts, "between": r.random() < 0.5, "seed": r.getrandbits(32)}

    # -------------------------------------------------------------- one run
    def arm(self, faults, stats):
        sh = self.shim
        sh.vf_clear()
        strike = None
        for f in faults:
            k = f[0]
            if k == "open":
                sh.vf_open_errno(getattr(errno, f[1]))
                if f[1] in ("ENOENT", "ENOTDIR", "ELOOP"):
                    sh.vf_stat_errno(getattr(errno, f[1]))
            elif k == "stat":
                sh.vf_stat_errno(getattr(errno, f[1]))
            elif k == "content":
                self.buf = self.damage(f[1])
                self.cbuf = (ctypes.c_ubyte * max(1, len(self.buf))).from_buffer_copy(self.buf or b"\0")
                sh.vf_content(self.cbuf, ctypes.c_long(len(self.buf)))
            elif k == "read":
                sh.vf_read_errno(f[1], getattr(errno, f[2]))
            elif k == "chunk":
                sh.vf_chunk(f[1])
            elif k == "short":
                sh.vf_read_short(f[1], f[2])
            elif k == "close":
                sh.vf_close_errno(getattr(errno, f[1]))
            elif k == "locale":
                sh.vf_codeset(f[1].encode())
                stats["fault:locale"] += 1
            elif k == "strike":
                strike = f
        return strike

    def ask(self, seed, stats):
        """-> None or a description of a wrong answer; exceptions come out."""
        v = lib.P.URLValidator
        n = len(self.probe)
        start = seed % n
        for j in range(n):
            i = (start + j) % n
            got = v.is_valid_url_scheme(self.probe[i])
            if got is not self.want[i]:
                return f"is_valid_url_scheme({ascii(self.probe[i])}) is {got}, with the intact registry {self.want[i]}"
            if j % 29 == 0 and self.probe[i].isalpha() and self.probe[i].isascii():
                rep = lib.P.ValidityState(disable_logging=True)
                v.is_valid_url_scheme(self.probe[i], validity=rep)
                if rep.valid is not self.want[i]:
                    return f"is_valid_url_scheme({ascii(self.probe[i])}) reports valid={rep.valid}, with the intact registry {self.want[i]}"
        stats["probe:full_tables_checked"] += 1
        return None

    def load(self):
        lib.P = importlib.import_module("urlstd.parse")
        lib.E = importlib.import_module("urlstd.error")

    def fds(self):
        return set(os.listdir("/proc/self/fd"))

    def execute(self, sc):
        fd = os.open(os.devnull, os.O_WRONLY)
        os.dup2(fd, 2)
        os.close(fd)
        lib.prepare()
        stats = {k: 0 for k in ("steps", "fault:locale", "fault:interrupted_load", "probe:load_failed", "probe:load_survived_fault", "probe:full_tables_checked", "probe:retry_after_failure", "probe:no_fault_fired")}
        sh = self.shim
        viol = None
        keys = []
        digs = []

        class Cancelled(BaseException):
            pass
        kinds = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "SystemExit": SystemExit, "Cancelled": Cancelled}
        base_fds = self.fds()
        loaded = False

        def leak(what):
            extra = self.fds() - base_fds
            if sh.vf_still_open() or len(extra) > 1:  # one descriptor is the directory being listed
                return {"class": "file-left-open", "detail": f"{what} left {max(sh.vf_still_open(), len(extra) - 1)} file(s) open; attempts {ascii(sc['attempts'])[:700]}"}
            return None

        failed_before = False
        for n, faults in enumerate(sc["attempts"] + [[]]):
            strike = self.arm(faults, stats)
            fired0 = sh.vf_fired()
            stats["steps"] += 1
            what = f"attempt {n} ({ascii(faults)[:300]})"
            hit = []
            if not loaded:
                st = None
                if strike:
                    exc = kinds[strike[2]]()

                    def hook(frame):
                        hit.append(1)
                        raise exc
                    st = steps.Stepper({1 + int(strike[1] * self.load_steps()): hook}, "async")
                try:
                    if st:
                        st.run(self.load)
                    else:
                        self.load()
                    loaded = True
                except BaseException as e:
                    stats["probe:load_failed"] += 1
                    digs.append(lib.exc_name(e))
                    viol = leak(what + " failed and")  # while the error is being handled
                    if not faults:
                        viol = {"class": "no-retry", "detail": f"loading from a healthy disk after failed attempts {ascii(sc['attempts'])[:600]} raised {type(e).__name__}: {ascii(str(e))[:300]}"}
                    elif hit and e is not exc:
                        pass
                    if viol:
                        break
                if hit:
                    stats["fault:interrupted_load"] += 1
                if not faults and failed_before:
                    stats["probe:retry_after_failure"] += 1
            if loaded:
                try:
                    d = self.ask(sc["seed"], stats)
                    if d:
                        viol = {"class": "wrong-registry", "detail": f"{what}: loading succeeded but {d}; attempts {ascii(sc['attempts'])[:600]}"}
                        break
                    if faults:
                        stats["probe:load_survived_fault"] += 1
                except Exception as e:
                    digs.append("ask:" + lib.exc_name(e))
                    if not faults:
                        viol = {"class": "no-retry", "detail": f"asking with a healthy disk after {ascii(sc['attempts'])[:600]} raised {type(e).__name__}: {ascii(str(e))[:300]}"}
                        break
                viol = leak(what)
                if viol:
                    break
            else:
                failed_before = True
            if sh.vf_fired() > fired0 or hit or any(f[0] == "locale" for f in faults):
                for f in faults:
                    kk = "fault:" + (f[0] if f[0] != "content" else "content_" + f[1][0])
                    if f[0] not in ("locale", "strike"):
                        stats[kk] = stats.get(kk, 0) + 1
                keys.append(core.digest(faults))
            elif faults:
                stats["probe:no_fault_fired"] += 1
            digs.append([loaded, sh.vf_opens() > 0])
        return {"violation": viol, "digest": core.digest(digs), "keys": keys, "key": keys[0] if keys else "", "stats": stats}

    _steps = None

    def load_steps(self):
        return self._steps or 1

    def prepare(self, sc):
        if self._steps is None and any(f[0] == "strike" for a in sc["attempts"] for f in a):
            def count():
                lib.prepare()
                self.shim.vf_clear()
                return steps.count(self.load, "async")
            kind, val = core.in_child(count)
            if kind != "ok":
                raise core.HarnessError(f"counting the steps of a load: {kind} {val}")
            self._steps = val

    def shrinks(self, sc):
        yield ("attempts",)
        for i in range(len(sc["attempts"])):
            yield ("attempts", i)

    def simplify(self, sc):
        for i, a in enumerate(sc["attempts"]):
            for j, f in enumerate(a):
                if f[0] == "content" and f[1][0] == "flip" and len(f[1][1]) > 1:
                    s = js.copy(sc)
                    s["attempts"][i][j][1][1] = f[1][1][:1]
                    yield s


CHECK = C10()
