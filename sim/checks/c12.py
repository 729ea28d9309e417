"""C12 - results do not depend on what the process did before."""
from __future__ import annotations

import js
import os
import random

import core
import gen
import lib
import pool
import pristine


def variants(op, r):
    """Calls that resemble op: other options, other bases, other spelling of the same text, equal-but-different values."""
    k = op[0]
    out = []

    def w(i, v):
        o = js.copy(op)
        o[i] = v
        out.append(o)

    if k in ("URL", "parse_url", "basic", "can_parse", "uv"):
        w(2, r.choice([None, "http://other.example/a/b?c", "http://h/p/a?ü=é", ["shared", r.randrange(len(lib.SHARED_BASES))], "foo:opaque"]))
        if op[2] is not None:
            w(1, r.choice(["", "#f", "x", "?y", "../z", "//h2/"]))
    if k in ("parse_url", "basic", "uv"):
        w(3, r.choice(gen.ENCODINGS))
    if k == "urlparse":
        w(4, not op[4])
        w(3, r.choice(gen.ENCODINGS))
    if k in ("host", "ascii", "unicode"):
        w(2, not op[2])
    if k == "ascii":
        out.append(["unicode"] + op[1:])
    if k == "hv":
        w(1, r.choice(["is_valid", "is_valid_domain", "is_valid_ipv4_address", "is_valid_ipv6_address", "is_valid_opaque_host"]))
    if k in ("can_parse", "uv", "scheme", "hv", "host", "ascii", "unicode"):
        w(len(op) - 1, r.choice([None, "quiet", "log"]))
    if k == "pe":
        w(2, r.choice(["", "/", "~", "é"]))
        w(3, r.choice(gen.ENCODINGS))
        w(4, not op[4])
    if k == "u8pe":
        w(2, r.choice(["", "/", "~"]))
        w(3, not op[3])
    if k == "urlencode":
        w(2, r.choice(gen.ENCODINGS))
        w(1, list(reversed(op[1])))
    if k == "usp":
        o = js.copy(op)
        for st in o[2]:
            if len(st) > 2:
                st[2] = r.choice([1, 1.0, "1", True, 0, 0.0, -0.0, False, "0"])
        out.append(o)
    if k == "equals":
        w(3, not op[3])
        out.append([k, op[2], op[1], op[3]])
    if k == "origin":
        out.append([k, op[2], op[1]])
    texts = [i for i in range(1, len(op)) if isinstance(op[i], str) and len(op[i]) > 1 and k not in ("qsl", "u8d") and not (k in ("hv",) and i == 1)
             and not (k in ("can_parse", "uv", "scheme", "hv", "host", "ascii", "unicode") and i == len(op) - 1) and not (k in ("parse_url", "basic", "urlparse", "uv", "pe") and i == 3)]
    if texts:
        i = r.choice(texts)
        s = op[i]
        w(i, r.choice([s.upper(), s.lower(), s + " ", " " + s, s[:-1], s[1:], s + "/", s + "#", s + "?", s.swapcase(), s.replace("e", "é"), s + "x"]))
    return out


def vandalise(v, r, depth=0):
    """What a careless caller may do to a result."""
    P = lib.P
    n = 0
    try:
        if isinstance(v, P.URL):
            if r.random() < 0.5:
                v.search_params.append("vandal", "1")
                v.pathname = "/vandal"
                v.hash = "vandal"
                v.host = "vandal.example"
            else:
                v.href = "foo:vandal"
            n += 1
        elif isinstance(v, P.URLRecord):
            if isinstance(v.path, list):
                v.path.append("vandal")
                v.path.reverse()
            v.scheme = "vandal"
            v.host = "vandal"
            v.query = "vandal=1"
            v.fragment = None
            n += 1
        elif isinstance(v, P.URLSearchParams):
            v.append("vandal", "1")
            v.sort()
            v.delete("a")
            n += 1
        elif isinstance(v, P.ValidityState):
            v.error_types.append("vandal")
            v.descriptions.clear()
            v.validation_errors += 7
            v.valid = True
            v.disable_logging = not v.disable_logging
            n += 1
        elif isinstance(v, (tuple, list)) and depth < 3:
            for x in list(v):
                n += vandalise(x, r, depth + 1)
            if isinstance(v, list):
                v.append(("vandal", "1"))
                v.reverse()
                n += 1
        elif isinstance(v, dict):
            v.clear()
            n += 1
        elif isinstance(v, bytearray):
            v.clear()
            n += 1
    except Exception:
        pass
    return n


class C12(core.Check):
    id = "C12"
    runs = {"quick": 2000, "thorough": 40000}
    hash_seeds = ("0", "1 PYTHONOPTIMIZE=1", "77", "4242 PYTHONWARNINGS=error PYTHONDEVMODE=1", "31337 PYTHONUTF8=0 PYTHONCOERCECLOCALE=0 LC_ALL=C",
                  "2 PYTHONOPTIMIZE=2 PYTHONINTMAXSTRDIGITS=640", "999 LC_ALL=C.UTF-8 PYTHONUTF8=1", "123456789")
    rule = ("A run is one process performing 60 to 3000 calls (thorough: up to 20000): repeats, near-variants of earlier calls (other options, bases, encodings, spellings, equal values of other types), with "
            "results vandalised by the caller, under one of eight interpreter settings (hash seed, -O and -OO, development mode with warnings as errors, C locale, UTF-8 mode, short int limit); every outcome must equal that of the same call alone in a fresh process of a default interpreter. "
            "Non-trivial: calls repeated after other calls; distinct: different (call, number of calls before it by power of two, previous call).")
    measure = "hash of (call, previous call, log2 of position)"
    assumptions = ["calls that take live URL objects are covered by C03-C06; here bases are constant"]

    def setup(self):
        self.broken = None
        try:
            lib.load()
        except Exception as e:  # fatal only if a default interpreter cannot import it either
            self.broken = repr(e)
        self.server = pristine.Server("0")
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        r = random.Random(core.h("c12", seed))
        base = pool.make(seed, 600)
        self.groups = [[op] + variants(op, r) + variants(op, r) for op in base]

    def scenario(self, r, index, tier):
        n = r.choice([60, 60, 200, 200, 600, 600, 3000] if tier == "quick" else [60, 200, 600, 600, 3000, 20000])
        groups = [r.choice(self.groups) for _ in range(r.choice([3, 10, 40]))]
        ops = [op for g in groups for op in g]
        uniq = []
        for op in ops:
            if op not in uniq:
                uniq.append(op)
        # a history over the distinct calls: indices; bursts of repeats and of neighbours
        seq = []
        while len(seq) < n:
            i = r.randrange(len(uniq))
            x = r.random()
            if x < 0.3:
                seq += [i] * r.choice([2, 2, 3, 10])
            elif x < 0.6:
                seq += [i, max(0, i - 1), i, min(len(uniq) - 1, i + 1), i]
            else:
                seq.append(i)
        return {"ops": uniq, "seq": seq[:n], "vandal": r.choice([0.0, 0.3, 1.0]), "seed": r.getrandbits(32)}

    def prepare(self, sc):
        used = sorted(set(sc["seq"]))
        self.want = {i: self.server.outcome(sc["ops"][i]) for i in used if i < len(sc["ops"])}

    def execute(self, sc):
        if self.broken:
            return {"violation": {"class": "not-importable", "detail": f"import under {os.environ.get('VERIF_INTERPRETER')}: {self.broken[:300]}"},
                    "digest": "0", "key": "", "stats": {}}
        r = random.Random(sc["seed"])
        shared = lib.make_shared()
        keys = set()
        stats = {"steps": 0, "fault:vandalised_result": 0, "probe:repeated_call": 0, "probe:history_over_1000": int(len(sc["seq"]) > 1000)}
        viol = None
        seen = set()
        prev = None
        dig = 0
        for n, i in enumerate(sc["seq"]):
            if i not in self.want:
                continue
            op = sc["ops"][i]
            stats["steps"] += 1
            keep = []
            got = lib.outcome(op, shared, keep)
            dig = core.h(dig, js.dumps(got, sort_keys=True))
            if got != self.want[i]:
                d = pristine.diff(got, self.want[i])
                viol = {"class": "history-dependent", "detail": f"call {n} {ascii(op)[:300]}: {d}; the calls before: {ascii([sc['ops'][j] for j in sc['seq'][max(0, n - 4):n]])[:900]}"}
                break
            if op[0] in ("can_parse", "uv", "scheme", "hv") and i in seen:
                pass
            if i in seen:
                stats["probe:repeated_call"] += 1
            seen.add(i)
            keys.add(core.h(js.dumps(op), prev, n.bit_length()))
            prev = i
            if keep and r.random() < sc["vandal"]:
                stats["fault:vandalised_result"] += vandalise(keep[0][0], r)
                if keep[0][1] is not None:
                    stats["fault:vandalised_result"] += vandalise(keep[0][1], r)
        ks = ["%016x" % k for k in sorted(keys)]
        return {"violation": viol, "digest": "%016x" % dig, "keys": ks, "key": ks[0] if ks else "", "stats": stats}

    def shrinks(self, sc):
        yield ("seq",)


CHECK = C12()
