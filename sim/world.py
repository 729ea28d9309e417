"""Histories over a world of live, named objects.

An operation is a JSON list; names are strings.  Operations whose objects do not exist (because the operation that would
have made them failed or was removed by the minimiser) are skipped.

  ["url", n, s, base]         n = URL(s, base)             base: None | str | ["@", m]
  ["rec", n, s, base, enc]    n = parse_url(s, base, enc)
  ["sp", n, init]             n = URLSearchParams(init)    init: None | str | ["list", pairs] | ["tuple", pairs] | ["dict", pairs] | ["@", m]
  ["attach", n, m]            n.attach(m)                  m: a record
  ["deep", n, m], ["pickle", n, m]
  ["set", n, attr, value]     assignment to a URL
  ["call", n, via, method, args...]   on a search-params object; for a URL via 0: n.search_params, 1: the handle saved at construction
  ["rset", n, attr, value]    assignment to a record; ["rpath", n, how, i, text]: in-place change of a record's path list
  ["look", n]                 reads everything (must change nothing)
  ["edit", n, attr, how, i, text]   assigns a slightly changed form of the attribute's present value (see edited())
  ["drop", n]                 forgets a URL but keeps its search params (under the same name)
Values may be coded: ["!", kind, ...] is decoded by val().
"""
from __future__ import annotations

import copy
import pickle

import lib


class Unprintable:
    def __str__(self):
        raise RuntimeError("cannot be converted to text")

    __repr__ = __str__


class BadStr:
    def __str__(self):
        return 5


class Iffy:
    """Converts to text only the first n times."""

    def __init__(self, n):
        self.n = n

    def __str__(self):
        self.n -= 1
        if self.n < 0:
            raise ValueError("no more text")
        return "iffy"


def val(v):
    if isinstance(v, list) and v and v[0] == "!":
        k = v[1]
        if k == "unprintable":
            return Unprintable()
        if k == "badstr":
            return BadStr()
        if k == "iffy":
            return Iffy(v[2])
        if k == "none":
            return None
        if k == "bytes":
            return b"x=1"
        if k == "int":
            return 7
        if k == "list":
            return ["a"]
        if k == "object":
            return Bare()
        if k == "inf":
            return float(v[2])
        if k == "big":
            return int(v[2])
        if k == "liststr":
            return list(v[2])
        raise ValueError(v)
    return v


class Bare:
    pass


def plain(v):
    """Is the value text or a number?"""
    return not (isinstance(v, list) and v and v[0] == "!" and v[1] not in ("inf", "big"))


def edited(v, how, i, text):
    """A value close to v."""
    if how == "same":
        return v
    if how == "case":
        return v.swapcase()
    if how in ("seg", "pair"):  # replace one segment or pair
        sep = "/" if how == "seg" else "&"
        parts = v.split(sep)
        if len(parts) > 1:
            parts[i % len(parts)] = text
        return sep.join(parts)
    i = i % (len(v) + 1)
    if how == "ins":
        return v[:i] + text + v[i:]
    if how == "del":
        return v[:i] + v[i + 1:]
    if how == "cut":
        return v[:i]
    return v[:i] + text[:1] + v[i + 1:]  # "rep"


def shape(c, depth=0):
    """Identity of everything in a container."""
    if isinstance(c, dict):
        return ["d", [[id(k), id(v)] for k, v in c.items()]]
    if isinstance(c, (list, tuple)) and depth < 2:
        return [id(c), [shape(x, depth + 1) for x in c]]
    return id(c)


class World:
    """The real objects."""

    def __init__(self, lazy=False):
        self.obj = {}
        self.kind = {}
        self.handle = {}
        self.lazy = lazy  # take a URL's search_params only when an operation needs it
        self.given = {}  # containers the caller passed in
        self.touched = None  # set when a constructor changed its argument

    def has(self, n, *kinds):
        return self.kind.get(n) in kinds

    def put(self, n, kind, o):
        h = o.search_params if kind == "url" and not self.lazy else None
        self.obj[n] = o
        self.kind[n] = kind
        if h is not None:
            self.handle[n] = h
        else:
            self.handle.pop(n, None)

    def base(self, b, want):
        """-> (ok, value)"""
        if isinstance(b, list) and b and b[0] == "@":
            if b[1] not in self.obj:
                return False, None
            o = self.obj[b[1]]
            k = self.kind[b[1]]
            if k == want:
                return True, o
            if k == "url":
                return True, str(o.href)
            if k == "rec":
                return True, str(o)
            return False, None
        return True, val(b)

    def sp(self, n, via=0):
        if self.kind.get(n) == "sp":
            return self.obj[n]
        if self.kind.get(n) == "url":
            if via and n in self.handle:
                return self.handle[n]
            h = self.obj[n].search_params
            self.handle.setdefault(n, h)
            return h
        return None

    def ready(self, op):
        """Can the operation be attempted?"""
        k = op[0]
        if k in ("url", "rec"):
            b = op[3]
            return not (isinstance(b, list) and b and b[0] == "@") or self.has(b[1], "url", "rec")
        if k == "sp":
            return not (isinstance(op[2], list) and op[2] and op[2][0] == "@") or self.has(op[2][1], "rec", "sp", "url")
        if k == "attach":
            return self.has(op[1], "sp") and (not isinstance(op[2], str) or self.has(op[2], "rec"))
        if k in ("deep", "pickle"):
            return op[2] in self.obj
        if k in ("set", "drop", "edit"):
            return self.has(op[1], "url")
        if k == "call":
            return self.has(op[1], "url", "sp")
        if k in ("rset", "rpath"):
            return self.has(op[1], "rec")
        if k == "look":
            return op[1] in self.obj
        raise ValueError(op)

    def do(self, op):
        """Perform; returns the call's value (canonical later).  Exceptions propagate."""
        P = lib.P
        k = op[0]
        if k == "url":
            _, b = self.base(op[3], "url")
            o = P.URL(val(op[2]), b) if b is not None else P.URL(val(op[2]))
            self.put(op[1], "url", o)
            return None
        if k == "rec":
            _, b = self.base(op[3], "rec")
            o = P.parse_url(val(op[2]), base=b, encoding=op[4] if len(op) > 4 else "utf-8")
            self.put(op[1], "rec", o)
            return None
        if k == "sp":
            i = op[2]
            if isinstance(i, list) and i and i[0] == "@":
                m = i[1]
                src = self.obj[m].search_params if self.kind[m] == "url" else self.obj[m]
                o = P.URLSearchParams(src)
            elif isinstance(i, list) and i and i[0] in ("list", "tuple", "dict"):
                pairs = [[val(y) for y in x] if isinstance(x, list) else x for x in i[1]]
                if i[0] == "dict":
                    c = {x[0]: x[1] for x in pairs}
                elif i[0] == "tuple":
                    c = tuple(tuple(x) if isinstance(x, list) else x for x in pairs)
                else:
                    c = pairs
                was = shape(c)
                try:
                    o = P.URLSearchParams(c)
                finally:
                    if shape(c) != was:
                        self.touched = f"the {i[0]} given by the caller was changed"
                self.given[op[1]] = c
            elif i is None:
                o = P.URLSearchParams()
            else:
                o = P.URLSearchParams(val(i))
            self.put(op[1], "sp", o)
            return None
        if k == "attach":
            self.obj[op[1]].attach(self.obj[op[2]] if isinstance(op[2], str) else val(op[2]))
            return None
        if k in ("deep", "pickle"):
            o = copy.deepcopy(self.obj[op[2]]) if k == "deep" else pickle.loads(pickle.dumps(self.obj[op[2]]))
            self.put(op[1], self.kind[op[2]], o)
            return None
        if k == "set":
            setattr(self.obj[op[1]], op[2], val(op[3]))
            return None
        if k == "edit":
            o = self.obj[op[1]]
            setattr(o, op[2], edited(getattr(o, op[2]), *op[3:]))
            return None
        if k == "call":
            return getattr(self.sp(op[1], op[2]), op[3])(*[val(x) for x in op[4:]])
        if k == "rset":
            v = val(op[3])
            setattr(self.obj[op[1]], op[2], list(v) if isinstance(v, list) else v)
            return None
        if k == "rpath":
            p = self.obj[op[1]].path
            if isinstance(p, list):
                if op[2] == "append":
                    p.append(op[4])
                elif op[2] == "clear":
                    p.clear()
                elif p:
                    p[op[3] % len(p)] = op[4]
            return None
        if k == "look":
            self.look(op[1])
            return None
        if k == "drop":
            self.obj[op[1]] = self.sp(op[1], 1)
            self.kind[op[1]] = "sp"
            self.handle.pop(op[1], None)
            return None
        raise ValueError(op)

    def look(self, n):
        P = lib.P
        o = self.obj[n]
        repr(o), str(o), o == o
        k = self.kind[n]
        if k == "url":
            o.equals(o), repr(o.search_params), o.origin
            P.URL.can_parse("x?y#z", o)
            P.URL.can_parse("../..", o)
        elif k == "rec":
            o.origin, o.serialize_url(True), o.equals(o)
            P.URLValidator.is_valid("x?y#z", base=o)
        else:
            list(o), list(o.entries()), list(o.keys()), list(o.values()), len(o), o == o, o + ""
            o[:], "a" in o
        return None

    # -- observation
    def snap(self, n):
        o = self.obj[n]
        k = self.kind[n]
        if k == "url":
            d = lib.snap_url(o)
            h = self.handle.setdefault(n, o.search_params)
            d["handle_is_params"] = o.search_params is h
            if o.search_params is not h:
                d["handle"] = lib.snap_sp(h)
            return d
        if k == "rec":
            return lib.snap_rec(o)
        return lib.snap_sp(o)

    def snapshot(self):
        return {n: self.snap(n) for n in sorted(self.obj)}


def diff(a, b):
    """Describe the first difference of two snapshots of one object."""
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            return f"{k}: {ascii(a.get(k))[:300]} -> {ascii(b.get(k))[:300]}"
    return ""


def diff_world(a, b):
    for n in sorted(set(a) | set(b)):
        if n not in a or n not in b:
            return f"{n}: exists in one world only"
        if a[n] != b[n]:
            return f"{n}.{diff(a[n], b[n])}"
    return ""


# ------------------------------------------------------------------ drawing histories
class HistGen:
    """Draws operations; keeps an optimistic idea of which objects exist."""

    def __init__(self, g, r, mix, links=True, records=True, objects_max=6):
        self.g = g
        self.r = r
        self.mix = mix
        self.urls, self.recs, self.sps = [], [], []
        self.attached = {}  # record -> sp (one at most)
        self.n = 0
        self.records = records
        self.links = links
        self.max = objects_max

    def new(self, kind):
        self.n += 1
        return f"{kind}{self.n}"

    def ops(self, count):
        out = [self.make_url()]
        while len(out) < count:
            out.append(self.op())
        return out

    def make_url(self, force_str=False):
        g, r = self.g, self.r
        n = self.new("u")
        x = r.random()
        if x < 0.5 or force_str:
            op = ["url", n, g.good_url() if r.random() < 0.7 else g.url(), None]
        elif (x < 0.65 and not g.tok) or not (self.urls or self.recs):
            op = ["url", n, g.ref(), g.good_url()]
        else:
            op = ["url", n, g.ref(), ["@", r.choice(self.urls + (self.recs if r.random() < 0.3 else []) or self.recs)]]
        self.urls.append(n)
        return op

    def make_rec(self):
        g, r = self.g, self.r
        n = self.new("r")
        x = r.random()
        pool = self.recs or self.urls
        if x < 0.5 or not pool:
            op = ["rec", n, g.good_url() if r.random() < 0.8 else g.url(), None, "utf-8"]
        else:
            op = ["rec", n, g.ref(), ["@", r.choice(pool)], "utf-8"]
        self.recs.append(n)
        return op

    def make_sp(self):
        g, r = self.g, self.r
        n = self.new("p")
        x = r.random()
        free = [m for m in self.recs if m not in self.attached]
        if x < 0.25 and free:
            m = r.choice(free)
            self.attached[m] = n
            op = ["sp", n, ["@", m]]
        elif x < 0.45 and (self.sps or self.urls):
            op = ["sp", n, ["@", r.choice(self.sps + self.urls)]]
        elif x < 0.6:
            op = ["sp", n, g.form()]
        elif x < 0.7:
            op = ["sp", n, None]
        else:
            pairs = [list(p) for p in self.uniq(g.pairs())]
            for p in pairs:
                if g.numbers and r.random() < 0.08:
                    p[r.randrange(2)] = r.choice([0, 7, 2, 1.5, -1, 10**20])
            op = ["sp", n, [r.choice(["list", "tuple", "dict"]), pairs]]
        self.sps.append(n)
        return op

    def uniq(self, pairs):
        return pairs

    def copy(self):
        r = self.r
        pool = self.urls + self.recs + self.sps
        m = r.choice(pool)
        k = "u" if m in self.urls else "r" if m in self.recs else "p"
        n = self.new(k)
        {"u": self.urls, "r": self.recs, "p": self.sps}[k].append(n)
        return [r.choice(["deep", "pickle"]), n, m]

    def assign(self):
        r = self.r
        a, v = self.g.setter()
        return ["set", r.choice(self.urls), a, v]

    def edit(self):
        g, r = self.g, self.r
        a = r.choice(["href", "pathname", "pathname", "search", "search", "host", "hostname", "port", "hash", "username", "password", "protocol"])
        how = r.choice(["same", "rep", "rep", "ins", "del", "cut", "case", "seg", "pair"])
        return ["edit", r.choice(self.urls), a, how, r.choice([0, 1, 2, r.randrange(8), r.randrange(60), r.randrange(1000)]),
                g.pick(["x", "b", "1", "0", "..", ".", "%2e", "", "a=1", "C:", "/", "?", "#", ":", "@", "\\", " ", "é", "&", "=", "+", "%"])]

    def call(self, reads=0.15):
        g, r = self.g, self.r
        pool = self.urls * 2 + self.sps
        n = r.choice(pool)
        st = lib.sp_step(g, r)
        if st[0] in ("get", "get_all", "has") and r.random() > reads * 4:
            st = ["append", g.name(), g.pvalue_json()]
        return ["call", n, r.randrange(2)] + st

    def attach(self):
        r = self.r
        free = [m for m in self.recs if m not in self.attached]
        if not free or not self.sps:
            return self.call()
        m, p = r.choice(free), r.choice(self.sps)
        self.attached[m] = p
        return ["attach", p, m]

    def rset(self):
        g, r = self.g, self.r
        if not self.recs:
            return self.assign()
        n = r.choice(self.recs)
        a = r.choice(["fragment", "query", "port", "username", "password", "path"])
        if a == "path":
            return ["rpath", n, r.choice(["append", "set", "set", "clear"]), r.randrange(5), r.choice(["zz", "q", ""])]
        if a == "port":
            return ["rset", n, a, r.choice([None, 0, 81])]
        return ["rset", n, a, r.choice(["", "zz", "k=v"]) if a in ("username", "password") else r.choice([None, "zz", "k=v"])]

    def op(self):
        r = self.r
        m = self.mix
        x = r.random() * sum(m.values())
        for k, w in m.items():
            x -= w
            if x < 0:
                break
        if k in ("url", "rec", "sp", "copy") and len(self.urls) + len(self.recs) + len(self.sps) >= self.max:
            k = "set"
        if k == "url":
            return self.make_url()
        if k == "rec":
            return self.make_rec()
        if k == "sp":
            return self.make_sp()
        if k == "copy":
            return self.copy()
        if k == "set":
            return self.assign()
        if k == "call":
            return self.call()
        if k == "attach":
            return self.attach()
        if k == "rset":
            return self.rset()
        if k == "edit":
            return self.edit()
        if k == "drop":
            if len(self.urls) < 2:
                return self.call()
            n = r.choice(self.urls)
            self.urls.remove(n)
            self.sps.append(n)
            return ["drop", n]
        if k == "look":
            return ["look", r.choice(self.urls + self.recs + self.sps)]
        raise ValueError(k)


def simplify_ops(sc, path="ops"):
    """Argument shrinking for histories."""
    import core
    import js
    ops = sc[path]
    for i, op in enumerate(ops):
        for j, a in enumerate(op):
            if j == 0 or not isinstance(a, str):
                continue
            if (op[0] in ("url", "rec", "sp") and j in (2, 3)) or (op[0] == "set" and j == 3) or (op[0] == "edit" and j == 5) or (op[0] == "call" and j >= 4):
                for s in core.shrink_str(a):
                    c = js.copy(sc)
                    c[path][i][j] = s
                    yield c
