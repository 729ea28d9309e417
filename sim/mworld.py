"""The reference model's world: executes the operations of world.World on model objects."""
from __future__ import annotations

import model as M
from world import edited, plain, val


class Unspecified(Exception):
    """The reference model does not define this operation."""


class MWorld:
    def __init__(self):
        self.obj = {}
        self.kind = {}

    def base(self, b, want):
        if isinstance(b, list) and b and b[0] == "@":
            o, k = self.obj[b[1]], self.kind[b[1]]
            return o.rec if k == "url" else o
        if b is None:
            return None
        return M.parse(b)

    def sp(self, n):
        return self.obj[n] if self.kind[n] == "sp" else self.obj[n].params

    def do(self, op):
        """Raises model.Failure where the standard fails, Unspecified where it says nothing."""
        k = op[0]
        if any(not plain(x) for x in op[1:]):
            raise Unspecified
        if k == "url":
            b = self.base(op[3], "url")
            u = M.MURL.__new__(M.MURL)
            u.rec = M.parse(op[2], b)
            u.params = M.MParams()
            u.params.attach(u.rec)
            self.put(op[1], "url", u)
        elif k == "rec":
            if op[4] != "utf-8":
                raise Unspecified
            self.put(op[1], "rec", M.parse(op[2], self.base(op[3], "rec")))
        elif k == "sp":
            i = op[2]
            if i is None:
                p = M.MParams([])
            elif isinstance(i, str):
                p = M.MParams.from_str(i)
            elif i[0] == "@":
                if self.kind[i[1]] == "rec":
                    p = M.MParams()
                    p.attach(self.obj[i[1]])
                else:
                    p = M.MParams(list(self.sp(i[1]).pairs))
            else:
                if any(not isinstance(x, list) or len(x) != 2 or not all(plain(y) for y in x) for x in i[1]):
                    raise Unspecified
                pairs = [(M.usv(str(val(a))), M.usv(str(val(b)))) for a, b in i[1]]
                if i[0] == "dict":
                    raw = {a: b for a, b in i[1]}
                    d = {}
                    for a, b in raw.items():
                        d[M.usv(str(val(a)))] = M.usv(str(val(b)))
                    pairs = list(d.items())
                p = M.MParams(pairs)
            self.put(op[1], "sp", p)
        elif k == "attach":
            self.obj[op[1]].attach(self.obj[op[2]])
        elif k in ("deep", "pickle"):
            o, kind = self.obj[op[2]], self.kind[op[2]]
            if kind == "url":
                u = M.MURL.__new__(M.MURL)
                u.rec = o.rec.copy()
                u.params = M.MParams(list(o.params.pairs))
                u.params.rec = u.rec
                self.put(op[1], kind, u)
            elif kind == "rec":
                self.put(op[1], kind, o.copy())
            else:
                p = M.MParams(list(o.pairs))
                p.rec = None if o.rec is None else o.rec.copy()
                self.put(op[1], kind, p)
        elif k == "set":
            self.obj[op[1]].assign(op[2], op[3])
        elif k == "edit":
            o = self.obj[op[1]]
            o.assign(op[2], edited(o.snapshot()[op[2]], *op[3:]))
        elif k == "call":
            args = [val(x) for x in op[4:]]
            if not args and op[3] != "sort":
                raise Unspecified
            return getattr(self.sp(op[1]), op[3])(*args)
        elif k == "look":
            pass
        elif k == "drop":
            self.put(op[1], "sp", self.obj[op[1]].params)
        else:
            raise Unspecified
        return None

    def put(self, n, kind, o):
        self.obj[n] = o
        self.kind[n] = kind
