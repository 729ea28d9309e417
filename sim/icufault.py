"""The IDNA backend behind a seam: the classes of icupy.icu are patched in place."""
from __future__ import annotations

import icupy.icu as icu

CODES = ["U_MEMORY_ALLOCATION_ERROR", "U_ILLEGAL_ARGUMENT_ERROR", "U_BUFFER_OVERFLOW_ERROR", "U_FILE_ACCESS_ERROR", "U_INVALID_STATE_ERROR", "U_INTERNAL_PROGRAM_ERROR"]
ERRORS = ["UIDNA_ERROR_DISALLOWED", "UIDNA_ERROR_PUNYCODE", "UIDNA_ERROR_BIDI", "UIDNA_ERROR_CONTEXTJ", "UIDNA_ERROR_INVALID_ACE_LABEL", "UIDNA_ERROR_LEADING_COMBINING_MARK",
          "UIDNA_ERROR_LABEL_HAS_DOT"]
FORBIDDEN = ["a b", "a/b", "x#y", "h:80", "a%41", "\x00", "a@b", "new\nline", "\x7f.com", "[::1]", "a\\b", "a<b", "?", "a^b", "|", "\t"]

_real = {}
ACTIVE = None


class Plan:
    """Faults by backend call number: {call: [kind, argument]}; kinds: error (ICUError), errors (recorded), empty, forbidden."""

    def __init__(self, faults):
        self.faults = {int(k): v for k, v in faults.items()}
        self.calls = 0
        self.fired = []
        self.flagged = {}

    def next(self, what):
        self.calls += 1
        f = self.faults.get(self.calls) or self.faults.get(0)
        if f is None:
            return None
        kind = f[0]
        if what == "create" and kind != "error":
            return None
        if what == "to_unicode" and kind in ("empty", "forbidden"):
            return None
        self.fired.append([what, kind])
        return f


def _error(name):
    ec = icu.ErrorCode()
    ec.set(getattr(icu, name, icu.U_MEMORY_ALLOCATION_ERROR))
    return icu.ICUError(ec)


def install():
    if _real:
        return
    idna, info = icu.IDNA, icu.IDNAInfo
    _real["create"] = idna.__dict__["create_uts46_instance"]
    create = idna.create_uts46_instance
    to_ascii, to_unicode = idna.name_to_ascii, idna.name_to_unicode
    get_errors, has_errors = info.get_errors, info.has_errors

    def create_uts46_instance(*a, **k):
        f = ACTIVE.next("create") if ACTIVE else None
        if f:
            raise _error(f[1])
        return create(*a, **k)

    def convert(real, what):
        def fn(self, name, dest, inf, *a, **k):
            f = ACTIVE.next(what) if ACTIVE else None
            if f is None:
                return real(self, name, dest, inf, *a, **k)
            if f[0] == "error":
                raise _error(f[1])
            out = real(self, name, dest, inf, *a, **k)
            if f[0] == "errors":
                ACTIVE.flagged[id(inf)] = (inf, int(getattr(icu, f[1])))
            elif f[0] == "empty":
                dest.set_to(icu.UnicodeString(""))
            elif f[0] == "forbidden":
                dest.set_to(icu.UnicodeString(f[1], len(f[1])))
            return out
        return fn

    def ge(self):
        e = get_errors(self)
        if ACTIVE and id(self) in ACTIVE.flagged and ACTIVE.flagged[id(self)][0] is self:
            e |= ACTIVE.flagged[id(self)][1]
        return e

    def he(self):
        return bool(ge(self)) or has_errors(self)

    idna.create_uts46_instance = staticmethod(create_uts46_instance)
    idna.name_to_ascii = convert(to_ascii, "to_ascii")
    idna.name_to_unicode = convert(to_unicode, "to_unicode")
    info.get_errors = ge
    info.has_errors = he


def under(plan, fn):
    global ACTIVE
    ACTIVE = plan
    try:
        return fn()
    finally:
        ACTIVE = None
