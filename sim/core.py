"""Simulation harness: seeds, process isolation, search, minimisation, replay files, evidence.

One integer decides everything.  Run number i of property P under VERIF_SEED s is a *scenario*: a JSON value drawn
from random.Random(H(s, P, i)) that spells out every operation, fault, schedule decision and configuration of the run.
A scenario is executed in a freshly forked child of a pristine, single-threaded worker, so that no run sees what
another left behind; executing the same scenario on the same code gives the same event digest and the same verdict.
"""
from __future__ import annotations

import hashlib
import importlib
import json
import os
import random
import resource
import select
import signal
import subprocess
import sys
import time

import js

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = sys.executable
NWORKERS = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)

RUN_CPU_S = 25  # CPU seconds after which one run is suspected not to finish (an ordinary run takes milliseconds) ...
HANG_CPU_S = 120  # ... and those it then gets once more, from the start, before it counts as "does not finish"
ASLEEP_S = 40  # a run whose threads all sleep for so long waits for something that never happens
RUN_WALL_S = 180  # wall clock after which one run is abandoned as inconclusive


def h(*parts) -> int:
    return int.from_bytes(hashlib.sha256("\x1f".join(map(str, parts)).encode("utf-8", "surrogatepass")).digest()[:8], "big")


def digest(obj) -> str:
    return hashlib.sha256(js.encode(obj, sort_keys=True)).hexdigest()[:16]


class HarnessError(Exception):
    """Something is wrong with the harness or the environment, not with the property."""


# ------------------------------------------------------------------ one run in a forked child
def activity(pid):
    """CPU used by a process and its children if all of its threads sleep, None otherwise."""
    out = []
    try:
        for t in os.listdir(f"/proc/{pid}/task"):
            with open(f"/proc/{pid}/task/{t}/stat") as f:
                x = f.read().rsplit(")", 1)[1].split()
            if x[0] != "S":
                return None
            out.append((t, x[11], x[12], x[13], x[14]))
        with open(f"/proc/{pid}/task/{pid}/children") as f:
            for c in f.read().split():
                with open(f"/proc/{c}/stat") as g:
                    x = g.read().rsplit(")", 1)[1].split()
                if x[0] != "S":
                    return None
                out.append((c, x[11], x[12]))
    except OSError:
        return None
    return sorted(out)


try:
    import ctypes
    _prctl = ctypes.CDLL(None).prctl
except Exception:
    _prctl = None


def die_with_parent():
    """Linux: this process is killed when the thread that forked it ends."""
    if _prctl is not None:
        _prctl(1, 9, 0, 0, 0)


def in_child(fn, cpu=RUN_CPU_S, wall=RUN_WALL_S):
    """Run fn() in a forked child.

    Returns ("ok", value) | ("exc", text) | ("cpu", None) | ("wall", None) | ("died", status)
    """
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            die_with_parent()
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            used = resource.getrusage(resource.RUSAGE_SELF)
            base = int(used.ru_utime + used.ru_stime)
            resource.setrlimit(resource.RLIMIT_CPU, (base + cpu, base + cpu + 5))
            try:
                out = {"ok": fn()}
            except BaseException as e:  # noqa: B902
                import traceback
                out = {"exc": "".join(traceback.format_exception(e))[-6000:]}
            data = js.encode(out)
            view = memoryview(data)
            while view:
                view = view[os.write(w, view):]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    deadline = time.monotonic() + wall
    timed_out = asleep = False
    last, since = None, time.monotonic()
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        rl, _, _ = select.select([r], [], [], min(left, 3.0))
        if not rl:
            now = activity(pid)
            if now is None or now != last:
                last, since = now, time.monotonic()
            elif time.monotonic() - since > ASLEEP_S:
                timed_out = asleep = True
                break
            continue
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    if timed_out:
        return "cpu" if asleep else "wall", None
    data = b"".join(chunks)
    if data and os.WIFEXITED(status) and os.WEXITSTATUS(status) == 0:
        out = js.loads(data)
        return ("ok", out["ok"]) if "ok" in out else ("exc", out["exc"])
    if os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGXCPU, signal.SIGKILL):
        return "cpu", None
    return "died", status


# ------------------------------------------------------------------ check objects
def load_check(pid):
    mod = importlib.import_module("checks." + pid.lower())
    return mod.CHECK


class Check:
    id = "?"
    level = "exploration"
    runs = {"quick": 1000, "thorough": 20000}
    rule = ""
    hash_seeds = ("0",)
    env = {}
    real = "urlstd.parse, urlstd.error, ICU (through icupy), Python logging, gzip, csv: real code"
    stub = "none"
    assumptions: list = []

    def start(self):
        """Called once in the main process, before any worker is started."""

    def stop(self):
        """Called once in the main process at the end."""

    def setup(self):
        """Called once in each pristine worker, before any run."""

    def scenario(self, rng, index, tier):
        raise NotImplementedError

    def prepare(self, sc):
        """Runs in the pristine worker before each run (e.g. to look up reference outcomes)."""

    def execute(self, sc):
        """Runs in a forked child.  -> {"violation": None | {"class","detail"}, "stats": {...}, "key": str, "digest": str}"""
        raise NotImplementedError

    def shrinks(self, sc):
        """Yield (name, list-getter path) for list-valued parts that ddmin may thin out."""
        return []

    def simplify(self, sc):
        """Yield simpler scenarios (arguments shrunk)."""
        return iter(())

    def on_hang(self, sc):
        return {"class": "does-not-finish", "detail": f"a run of this scenario used more than {HANG_CPU_S} s of CPU or waited for ever"}


def set_up(check):
    import sched
    sched.install_locks()  # a lock nobody can release is noticed at once, in every check
    check.setup()


def run_one(check, sc, confirm=True):
    """Execute a scenario in a forked child and return its result dict."""
    check.prepare(sc)
    kind, val = in_child(lambda: check.execute(sc))
    if kind == "cpu" and confirm:
        kind, val = in_child(lambda: check.execute(sc), HANG_CPU_S, 2 * HANG_CPU_S)
    if kind == "ok":
        return val
    if kind == "cpu":
        return {"violation": check.on_hang(sc), "stats": {}, "key": "hang", "digest": "hang"}
    if kind == "wall":
        return {"violation": None, "inconclusive": "wall clock", "stats": {"inconclusive": 1}, "key": "", "digest": "wall"}
    if kind == "died":
        # the interpreter itself crashed (tracing bugs, memory): says nothing about the library
        return {"violation": None, "inconclusive": f"wait status {val}", "stats": {"inconclusive": 1}, "key": "", "digest": "died"}
    if "\nsched.Deadlock: " in val:
        return {"violation": {"class": "does-not-finish", "detail": "a call waits for a lock that nobody will release: " + val[-1500:]}, "stats": {}, "key": "deadlock", "digest": "deadlock"}
    if f'File "{REPO}/src/' in val:
        # reading or using an object failed inside the library where nothing of the kind may happen
        return {"violation": {"class": "unexpected-exception", "detail": val[-1800:]}, "stats": {}, "key": "exception", "digest": "exception"}
    return {"violation": None, "error": val, "stats": {}, "key": "error", "digest": "error"}


# ------------------------------------------------------------------ worker process
def worker_main(argv):
    """worker: core.worker_main([pid, seed, tier, first, stride, total]) - JSON lines on stdout."""
    pid, seed, tier, first, stride, total, until = argv
    out = os.fdopen(os.dup(1), "w", encoding="utf-8", errors="surrogatepass")
    os.dup2(2, 1)
    check = load_check(pid)
    try:
        set_up(check)
    except Exception:
        import traceback
        out.write(js.dumps({"fatal": traceback.format_exc()[-6000:]}) + "\n")
        out.flush()
        return
    import gc
    gc.disable()
    gc.freeze()
    agg = Agg()
    last = time.monotonic()
    i = int(first)
    while i < int(total):
        if time.time() > float(until):
            break
        sc = check.scenario(random.Random(h(seed, pid, i)), i, tier)
        sc["_hashseed"] = os.environ.get("VERIF_INTERPRETER", "0")
        res = run_one(check, sc)
        agg.add(i, sc, res, check)
        if res.get("violation") or res.get("error"):
            out.write(js.dumps({"hit": {"index": i, "scenario": sc, "result": res}}) + "\n")
            out.flush()
            if res.get("violation"):
                agg.hits += 1
                if agg.hits >= 3:
                    break
        i += int(stride)
        if time.monotonic() - last > 1:
            last = time.monotonic()
            out.write(js.dumps({"progress": agg.runs}) + "\n")
            out.flush()
    out.write(js.dumps({"done": agg.dump()}) + "\n")
    out.flush()


class Agg:
    def __init__(self):
        self.runs = 0
        self.hits = 0
        self.stats = {}
        self.keys = set()
        self.samples = []
        self.sum = 0

    def add(self, i, sc, res, check):
        self.runs += 1
        for k, v in res.get("stats", {}).items():
            self.stats[k] = self.stats.get(k, 0) + v
        for k in res.get("keys", [res.get("key", "")]):
            if k:
                self.keys.add(k)
        if os.environ.get("VERIF_TRACE"):  # a file that gets the digest of every run
            with open(os.environ["VERIF_TRACE"], "a") as f:
                f.write(f"{i} {res.get('digest', '')}\n")
        self.sum = (self.sum + h(i, res.get("digest", ""))) % 2**64  # independent of the number of workers
        if len(self.samples) < 1 and res.get("key"):
            self.samples.append({"run": i, "scenario": sc, "key": res.get("key")})

    def dump(self):
        return {"runs": self.runs, "stats": self.stats, "keys": sorted(self.keys), "samples": self.samples, "sum": self.sum}


def spawn(pid, args, hashseed="0", extra_env=None, module="worker"):
    """hashseed: a hash seed, optionally followed by VARIABLE=value settings of the interpreter."""
    env = dict(os.environ)
    spec = os.environ.get("VERIF_HS", hashseed)
    hs, *more = spec.split()
    env.update({"PYTHONHASHSEED": hs, "VERIF_INTERPRETER": spec, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONUNBUFFERED": "1",
                "VERIF_REPO": REPO, "LC_ALL": "C.UTF-8", "PYTHONWARNINGS": "ignore"})
    env.pop("PYTHONUTF8", None)
    env.pop("PYTHONPATH", None)
    env.update(extra_env or {})
    env.update(x.split("=", 1) for x in more)
    cmd = [PY, "-B", os.path.join(HERE, "worker.py"), module] + [str(a) for a in args]
    try:
        if subprocess.run(["setarch", "-R", "true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0:
            cmd = ["setarch", "-R"] + cmd
    except OSError:
        pass
    return subprocess.Popen(cmd, stdout=subprocess.PIPE, stdin=subprocess.DEVNULL, env=env, cwd=VERIF)


# ------------------------------------------------------------------ minimisation
def _get(sc, path):
    for p in path:
        sc = sc[p]
    return sc


def _set(sc, path, val):
    sc = js.copy(sc)
    cur = sc
    for p in path[:-1]:
        cur = cur[p]
    cur[path[-1]] = val
    return sc


def minimise(check, sc, cls, budget_s=25, budget_n=1500):
    """ddmin over the list-valued parts, then argument simplification, keeping the violation class."""
    t0 = time.monotonic()
    n = [0]

    def fails(c):
        if n[0] >= budget_n or time.monotonic() - t0 > budget_s:
            return False
        n[0] += 1
        r = run_one(check, c, confirm=False)
        v = r.get("violation")
        return bool(v) and v["class"] == cls and r.get("key") != "hang"

    changed = True
    rounds = 0
    while changed and rounds < 4 and time.monotonic() - t0 < budget_s:
        changed = False
        rounds += 1
        for path in list(check.shrinks(sc)):
            try:
                lst = _get(sc, path)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(lst, list) or not lst:
                continue
            k = max(1, len(lst) // 2)
            while True:
                i = 0
                while i < len(lst):
                    cand = lst[:i] + lst[i + k:]
                    c = _set(sc, path, cand)
                    if fails(c):
                        sc, lst, changed = c, cand, True
                    else:
                        i += k
                if k == 1:
                    break
                k = max(1, k // 2)
        progress = True
        while progress and time.monotonic() - t0 < budget_s:
            progress = False
            for c in check.simplify(sc):
                if fails(c):
                    sc, changed, progress = c, True, True
                    break
                if n[0] >= budget_n or time.monotonic() - t0 > budget_s:
                    break
    return sc, n[0]


def shrink_str(s):
    """Simpler variants of a string, largest cuts first."""
    if not s:
        return
    yield ""
    n = len(s)
    k = n // 2
    while k >= 1:
        for i in range(0, n, k):
            c = s[:i] + s[i + k:]
            if c != s and c:
                yield c
        k //= 2


# ------------------------------------------------------------------ the main program of a check
def known_findings(pid):
    """-> list of (signature, text) of recorded, unrepaired findings of this property."""
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        with open(p, encoding="utf-8") as f:
            for line in f:
                line = line.strip()
                if not line or line.startswith("#"):
                    continue
                d = json.loads(line)
                if d.get("property") == pid and d.get("status") == "open":
                    out.append(d)
    return out


def main(pid):
    check = load_check(pid)
    try:
        check.start()
        return main_(pid, check)
    finally:
        check.stop()


def main_(pid, check):
    t0 = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    total = max(1, int(check.runs[tier] * scale))
    cap = float(os.environ.get("VERIF_CAP_S", "0")) or {"quick": 420.0, "thorough": 5400.0}[tier]
    print(f"{pid}: VERIF_SEED={seed} tier={tier} runs={total} workers={NWORKERS} repo={REPO}", flush=True)
    until = time.time() + cap
    procs = []
    for w in range(NWORKERS):
        hs = check.hash_seeds[w % len(check.hash_seeds)]
        procs.append(spawn(pid, [pid, seed, tier, w, NWORKERS, total, until], hs, check.env))
    hits, errors, dones, fatals = [], [], [], []
    bufs = {p.stdout.fileno(): (p, b"") for p in procs}
    hard = time.monotonic() + cap + 240
    stop_at = None
    while bufs:
        rl, _, _ = select.select(list(bufs), [], [], 1.0)
        for fd in rl:
            p, b = bufs[fd]
            data = os.read(fd, 1 << 20)
            if not data:
                del bufs[fd]
                continue
            b += data
            *lines, b = b.split(b"\n")
            bufs[fd] = (p, b)
            for line in lines:
                try:
                    m = js.loads(line)
                except ValueError:
                    continue
                if "hit" in m:
                    (hits if m["hit"]["result"].get("violation") else errors).append(m["hit"])
                elif "done" in m:
                    dones.append(m["done"])
                elif "fatal" in m:
                    fatals.append(m["fatal"])
        now = time.monotonic()
        if hits and stop_at is None:
            stop_at = now + 6  # a little more time, so that the earliest run number wins
        if (stop_at and now > stop_at) or now > hard:
            for p in procs:
                if p.poll() is None:
                    p.kill()
            break
    for p in procs:
        p.wait()
    for f in fatals[:1]:
        print("HARNESS-ERROR set-up failed:\n" + f)
    for e in errors[:2]:
        print(f"HARNESS-ERROR run {e['index']}:\n{e['result']['error']}")

    known = known_findings(pid)
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    hits.sort(key=lambda x: x["index"])
    violations, unreproduced, replay = 0, 0, None
    seen_cls = set()
    for hit in hits:
        v = hit["result"]["violation"]
        if any(k.get("class") == v["class"] and k.get("match", "\0") in js.dumps(hit["scenario"]) for k in known):
            continue
        if v["class"] in seen_cls or violations >= 2:
            continue
        sc = hit["scenario"]
        if hit["result"].get("scenario"):  # the run recorded its schedule
            sc = hit["result"]["scenario"]
        path, note = minimise_in_fresh_process(pid, sc, v, hit, seed, tier, check)
        if path is None:
            unreproduced += 1
            print(f"UNREPRODUCED run {hit['index']}: {v['class']}: {v['detail'][:400]} ({note})")
            continue
        seen_cls.add(v["class"])
        violations += 1
        replay = replay or path
        print(f"  run {hit['index']} seed {seed}: {v['class']}: {note[:1500]}")
        print(f"VIOLATION property={pid} replay={path}", flush=True)

    wall = time.monotonic() - t0
    ev = evidence(check, pid, seed, tier, dones, wall, violations, unreproduced, total, len(errors))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", f".{pid}.tmp")
    with open(tmp, "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
    os.replace(tmp, os.path.join(VERIF, "evidence", f"{pid}.json"))
    if violations:
        return 1
    if fatals or errors or not dones:
        print("HARNESS-ERROR: the check gives no answer")
        return 3
    cov = ev["coverage"]
    if cov.get("counters", {}).get("inconclusive"):
        print(f"{pid}: {cov['counters']['inconclusive']} runs inconclusive")
    print(f"{pid}: held on {cov['evaluations']} simulated runs, {cov['distinct_nontrivial']} distinct; {wall:.1f} s; event digest {cov['event_digest']}")
    return 0


def minimise_in_fresh_process(pid, sc, v, hit, seed, tier, check):
    """-> (replay path, note) or (None, why)."""
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    raw = os.path.join(d, f"{pid}-seed{seed}-run{hit['index']}.raw.json")
    path = os.path.join(d, f"{pid}-seed{seed}-run{hit['index']}.json")
    rec = {"property": pid, "verif_seed": seed, "tier": tier, "run": hit["index"], "hashseed": sc.get("_hashseed", "0"),
           "violation": v, "scenario": sc, "minimised": False}
    js.save(raw, rec)
    p = spawn(pid, [raw, path], rec["hashseed"], check.env, module="minimise")
    try:
        out, _ = p.communicate(timeout=150)
    except subprocess.TimeoutExpired:
        p.kill()
        out, _ = p.communicate()
    text = out.decode("utf-8", "replace").strip()
    if p.returncode == 0 and os.path.exists(path):
        final = path
        os.remove(raw)
    else:
        final = raw
    # a replay must reproduce exactly, in a fresh process, twice
    notes = []
    for _ in range(2):
        q = spawn(pid, [final], rec["hashseed"], check.env, module="replay")
        try:
            o, _ = q.communicate(timeout=RUN_WALL_S + 60)
        except subprocess.TimeoutExpired:
            q.kill()
            o, _ = q.communicate()
        notes.append((q.returncode, o.decode("utf-8", "replace").strip()))
    if notes[0] == notes[1] and notes[0][0] == 1:
        lines = [x for x in notes[0][1].splitlines() if x.startswith("REPRODUCED")]
        return final, (lines or [""])[0]
    if final == path:
        # fall back to the unminimised scenario
        rec["scenario"] = sc
        js.save(path, rec)
        oks = []
        for _ in range(2):
            q = spawn(pid, [path], rec["hashseed"], check.env, module="replay")
            o, _ = q.communicate()
            oks.append(q.returncode)
        if oks == [1, 1]:
            return path, v["detail"]
    # last resort: report what at least reproduces now and then (a violation that depends on memory addresses, say)
    hits = 0
    for _ in range(6):
        q = spawn(pid, [final], rec["hashseed"], check.env, module="replay")
        o, _ = q.communicate()
        hits += q.returncode == 1
    if hits >= 2:
        return final, v["detail"] + f" (reproduced by {hits} of 6 replays)"
    return None, f"replay gave {notes}; minimiser said {text[-300:]}"


def minimise_main(raw, path):
    rec = js.read(raw)
    check = load_check(rec["property"])
    set_up(check)
    import gc
    gc.disable()
    gc.freeze()
    r = run_one(check, rec["scenario"])
    if not r.get("violation"):
        print("not reproduced", r.get("error", ""))
        return 4
    if r.get("scenario"):
        rec["scenario"] = r["scenario"]
    sc, n = minimise(check, rec["scenario"], r["violation"]["class"])
    r2 = run_one(check, sc)
    if not r2.get("violation"):
        print("minimised scenario does not fail")
        return 4
    rec.update({"scenario": sc, "violation": r2["violation"], "minimised": True, "minimiser_runs": n})
    js.save(path, rec)
    print(f"minimised in {n} runs")
    return 0


def replay_main(path):
    rec = js.read(path)
    check = load_check(rec["property"])
    set_up(check)
    import gc
    gc.disable()
    gc.freeze()
    r = run_one(check, rec["scenario"])
    v = r.get("violation")
    if v:
        print(f"REPRODUCED property={rec['property']} {v['class']}: {v['detail']} (event digest {r.get('digest')})")
        return 1
    if r.get("error"):
        print("HARNESS-ERROR", r["error"])
        return 3
    print(f"HELD property={rec['property']} (event digest {r.get('digest')})")
    return 0


def evidence(check, pid, seed, tier, dones, wall, violations, unreproduced, total, nerrors):
    stats, keys, samples, runs = {}, set(), [], 0
    for d in dones:
        runs += d["runs"]
        for k, v in d["stats"].items():
            stats[k] = stats.get(k, 0) + v
        keys.update(d["keys"])
        samples += d["samples"]
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault:")}
    probes = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("probe:")}
    other = {k: v for k, v in sorted(stats.items()) if not k.startswith(("fault:", "probe:"))}
    samples = [s for s in samples if len(js.dumps(s)) < 20000][:4]
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(keys),
        "rule": check.rule,
        "samples": samples,
        "planned_runs": total,
        "runs_per_hour": int(runs / max(wall, 0.001) * 3600),
        "seeds_per_hour": int(runs / max(wall, 0.001) * 3600),
        "simulated_time": f"{stats.get('steps', 0)} simulated steps (the library reads no clock; time is the simulator's global step count)",
        "faults_injected": faults,
        "probes": probes,
        "counters": other,
        "distinct_measure": check.measure if hasattr(check, "measure") else check.rule,
        "components_real": check.real,
        "components_stubbed": check.stub,
        "workers": NWORKERS,
        "hash_seeds": list(check.hash_seeds),
        "event_digest": "%016x" % (sum(d["sum"] for d in dones) % 2**64),
        "unreproduced_hits": unreproduced,
        "harness_errors": nerrors,
    }
    return {"property": pid, "tier": tier, "seed": seed, "level": check.level, "coverage": cov,
            "assumptions": list(check.assumptions), "wall_s": round(wall, 2), "violations": violations}
