"""Reference model: the WHATWG URL API (snapshot of July 2023), written from the
standard's prose, independently of the code under test.

Only IDNA mapping is delegated to ICU (the same trusted backend).  Everything
here is sequential and side-effect free apart from the model objects.
"""
from __future__ import annotations

import icupy.icu as _icu  # the real backend, never the fault-injecting proxy

_REAL_IDNA = _icu.IDNA


class Failure(Exception):
    """The standard's 'failure' return value."""


SPECIAL = {"ftp": 21, "file": None, "http": 80, "https": 443, "ws": 80, "wss": 443}
EOF = ""
ALPHA = frozenset("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
DIGIT = frozenset("0123456789")
HEX = frozenset("0123456789abcdefABCDEF")


def usv(s: str) -> str:
    """Convert to a scalar value string."""
    out = []
    i = 0
    n = len(s)
    while i < n:
        c = ord(s[i])
        if 0xD800 <= c <= 0xDBFF and i + 1 < n and 0xDC00 <= ord(s[i + 1]) <= 0xDFFF:
            out.append(chr(0x10000 + ((c - 0xD800) << 10) + (ord(s[i + 1]) - 0xDC00)))
            i += 2
            continue
        out.append("\ufffd" if 0xD800 <= c <= 0xDFFF else s[i])
        i += 1
    return "".join(out)


# -- percent-encode sets (code points below 0x7F that ARE encoded) ------------
_C0 = frozenset(range(0x20))
_FRAGMENT = _C0 | frozenset(map(ord, ' "<>`'))
_QUERY = _C0 | frozenset(map(ord, ' "#<>'))
_SPECIAL_QUERY = _QUERY | {ord("'")}
_PATH = _QUERY | frozenset(map(ord, "?`{}"))
_USERINFO = _PATH | frozenset(map(ord, "/:;=@[\\]^|"))
_COMPONENT = _USERINFO | frozenset(map(ord, "$%&+,"))
_URLENCODED = _COMPONENT | frozenset(map(ord, "!'()~"))


def _enc(s: str, pset) -> str:
    out = []
    for b in s.encode("utf-8"):
        if b > 0x7E or b in pset:
            out.append("%%%02X" % b)
        else:
            out.append(chr(b))
    return "".join(out)


def percent_decode(b: bytes) -> bytes:
    out = bytearray()
    i = 0
    while i < len(b):
        if (
            b[i] == 0x25
            and i + 2 < len(b)
            and chr(b[i + 1]) in HEX
            and chr(b[i + 2]) in HEX
        ):
            out.append(int(b[i + 1 : i + 3], 16))
            i += 3
        else:
            out.append(b[i])
            i += 1
    return bytes(out)


def form_parse(b: bytes) -> list:
    out = []
    for seq in b.split(b"&"):
        if not seq:
            continue
        name, _, value = seq.partition(b"=")
        out.append(
            tuple(
                percent_decode(x.replace(b"+", b" ")).decode("utf-8", "replace")
                for x in (name, value)
            )
        )
    return out


def form_serialize(pairs) -> str:
    def one(s):
        return _enc(s, _URLENCODED - {0x20}).replace(" ", "+")

    return "&".join(one(n) + "=" + one(v) for n, v in pairs)


# -- hosts --------------------------------------------------------------------
_FORBIDDEN_HOST = frozenset("\x00\t\n\r #/:<>?@[\\]^|")
_FORBIDDEN_DOMAIN = _FORBIDDEN_HOST | frozenset(map(chr, range(0x20))) | {"%", "\x7f"}

_IGNORED = (
    _icu.UIDNA_ERROR_HYPHEN_3_4
    | _icu.UIDNA_ERROR_LEADING_HYPHEN
    | _icu.UIDNA_ERROR_TRAILING_HYPHEN
    | _icu.UIDNA_ERROR_EMPTY_LABEL
    | _icu.UIDNA_ERROR_LABEL_TOO_LONG
    | _icu.UIDNA_ERROR_DOMAIN_NAME_TOO_LONG
)
_uts46 = None


def domain_to_ascii(domain: str) -> str:
    global _uts46
    if _uts46 is None:
        _uts46 = _REAL_IDNA.create_uts46_instance(
            _icu.UIDNA_CHECK_BIDI
            | _icu.UIDNA_CHECK_CONTEXTJ
            | _icu.UIDNA_NONTRANSITIONAL_TO_ASCII
        )
    info = _icu.IDNAInfo()
    dest = _icu.UnicodeString()
    try:
        _uts46.name_to_ascii(
            _icu.UnicodeString(domain, len(domain.encode("utf-16-le", "surrogatepass")) // 2),
            dest,
            info,
        )
    except _icu.ICUError:  # the backend cannot process it (a label of over 1000 characters): a failure
        raise Failure("idna backend") from None
    if info.get_errors() & ~_IGNORED:
        raise Failure("idna")
    r = str(dest)
    if not r:
        raise Failure("empty domain")
    return r


def _ipv4_number(s: str) -> int:
    if s == "":
        raise Failure
    radix, digits = 10, DIGIT
    if len(s) >= 2 and s[:2] in ("0x", "0X"):
        s, radix, digits = s[2:], 16, HEX
    elif len(s) >= 2 and s[0] == "0":
        s, radix, digits = s[1:], 8, frozenset("01234567")
    if s == "":
        return 0
    v = 0
    for c in s:
        if c not in digits:
            raise Failure
        v = v * radix + int(c, 16)
    return v


def _ends_in_number(s: str) -> bool:
    parts = s.split(".")
    if parts[-1] == "":
        if len(parts) == 1:
            return False
        parts.pop()
    last = parts[-1]
    if last and all(c in DIGIT for c in last):
        return True
    try:
        _ipv4_number(last)
    except Failure:
        return False
    return True


def _ipv4_parse(s: str) -> int:
    parts = s.split(".")
    if parts[-1] == "" and len(parts) > 1:
        parts.pop()
    if len(parts) > 4:
        raise Failure
    nums = [_ipv4_number(p) for p in parts]
    if any(n > 255 for n in nums[:-1]):
        raise Failure
    if nums[-1] >= 256 ** (5 - len(nums)):
        raise Failure
    v = nums[-1]
    for i, n in enumerate(nums[:-1]):
        v += n * 256 ** (3 - i)
    return v


def _ipv6_parse(s: str) -> tuple:
    addr = [0] * 8
    piece = 0
    compress = None
    p = 0

    def at(i):
        return s[i] if 0 <= i < len(s) else EOF

    if at(p) == ":":
        if at(p + 1) != ":":
            raise Failure
        p += 2
        piece += 1
        compress = piece
    while at(p) != EOF:
        if piece == 8:
            raise Failure
        if at(p) == ":":
            if compress is not None:
                raise Failure
            p += 1
            piece += 1
            compress = piece
            continue
        value = length = 0
        while length < 4 and at(p) != EOF and at(p) in HEX:
            value = value * 16 + int(at(p), 16)
            p += 1
            length += 1
        if at(p) == ".":
            if length == 0:
                raise Failure
            p -= length
            if piece > 6:
                raise Failure
            seen = 0
            while at(p) != EOF:
                v4 = None
                if seen > 0:
                    if at(p) == "." and seen < 4:
                        p += 1
                    else:
                        raise Failure
                if at(p) == EOF or at(p) not in DIGIT:
                    raise Failure
                while at(p) != EOF and at(p) in DIGIT:
                    n = int(at(p))
                    if v4 is None:
                        v4 = n
                    elif v4 == 0:
                        raise Failure
                    else:
                        v4 = v4 * 10 + n
                    if v4 > 255:
                        raise Failure
                    p += 1
                addr[piece] = addr[piece] * 0x100 + v4
                seen += 1
                if seen in (2, 4):
                    piece += 1
            if seen != 4:
                raise Failure
            break
        elif at(p) == ":":
            p += 1
            if at(p) == EOF:
                raise Failure
        elif at(p) != EOF:
            raise Failure
        addr[piece] = value
        piece += 1
    if compress is not None:
        swaps = piece - compress
        piece = 7
        while piece != 0 and swaps > 0:
            a, b = piece, compress + swaps - 1
            addr[a], addr[b] = addr[b], addr[a]
            piece -= 1
            swaps -= 1
    elif piece != 8:
        raise Failure
    return tuple(addr)


def _ipv6_serialize(a) -> str:
    best = (None, 1)
    i = 0
    while i < 8:
        if a[i] == 0:
            j = i
            while j < 8 and a[j] == 0:
                j += 1
            if j - i > best[1]:
                best = (i, j - i)
            i = j
        else:
            i += 1
    start, n = best
    if start is None:
        return ":".join("%x" % x for x in a)
    return (
        ":".join("%x" % x for x in a[:start])
        + "::"
        + ":".join("%x" % x for x in a[start + n :])
    )


def host_parse(s: str, is_opaque: bool):
    if s.startswith("["):
        if not s.endswith("]"):
            raise Failure
        return _ipv6_parse(s[1:-1])
    if is_opaque:
        if any(c in _FORBIDDEN_HOST for c in s):
            raise Failure
        return _enc(s, _C0)
    domain = percent_decode(s.encode("utf-8")).decode("utf-8", "replace")
    a = domain_to_ascii(domain)
    if any(c in _FORBIDDEN_DOMAIN for c in a):
        raise Failure
    if _ends_in_number(a):
        return _ipv4_parse(a)
    return a


def host_serialize(h) -> str:
    if isinstance(h, int):
        return ".".join(str((h >> k) & 255) for k in (24, 16, 8, 0))
    if isinstance(h, tuple):
        return "[" + _ipv6_serialize(h) + "]"
    return h


# -- URL record ---------------------------------------------------------------
class Rec:
    __slots__ = ("scheme", "username", "password", "host", "port", "path", "query", "fragment")

    def __init__(self):
        self.scheme = self.username = self.password = ""
        self.host = self.port = self.query = self.fragment = None
        self.path = []

    def copy(self):
        r = Rec()
        for k in Rec.__slots__:
            setattr(r, k, getattr(self, k))
        if isinstance(r.path, list):
            r.path = list(r.path)
        return r

    special = property(lambda s: s.scheme in SPECIAL)
    opaque = property(lambda s: isinstance(s.path, str))
    has_credentials = property(lambda s: bool(s.username or s.password))

    def no_userinfo_port(self):
        return self.host is None or self.host == "" or self.scheme == "file"

    def shorten(self):
        if self.scheme == "file" and len(self.path) == 1 and _norm_drive(self.path[0]):
            return
        if self.path:
            self.path.pop()

    def path_str(self):
        return self.path if self.opaque else "".join("/" + x for x in self.path)

    def href(self, nofrag=False):
        o = self.scheme + ":"
        if self.host is not None:
            o += "//"
            if self.has_credentials:
                o += self.username
                if self.password:
                    o += ":" + self.password
                o += "@"
            o += host_serialize(self.host)
            if self.port is not None:
                o += ":%d" % self.port
        elif not self.opaque and len(self.path) > 1 and self.path[0] == "":
            o += "/."
        o += self.path_str()
        if self.query is not None:
            o += "?" + self.query
        if not nofrag and self.fragment is not None:
            o += "#" + self.fragment
        return o

    def origin(self):
        if self.scheme == "blob":
            try:
                inner = parse(self.path_str())
            except Failure:
                return "null"
            return inner.origin() if inner.scheme in ("http", "https", "file") else "null"
        if self.scheme in ("ftp", "http", "https", "ws", "wss"):
            o = self.scheme + "://" + host_serialize(self.host)
            return o if self.port is None else o + ":%d" % self.port
        return "null"

    def strip_opaque(self):
        if self.opaque and self.fragment is None and self.query is None:
            self.path = self.path.rstrip(" ")


def _drive(s):
    return len(s) == 2 and s[0] in ALPHA and s[1] in ":|"


def _norm_drive(s):
    return _drive(s) and s[1] == ":"


def _starts_drive(s):
    return len(s) >= 2 and _drive(s[:2]) and (len(s) == 2 or s[2] in "/\\?#")


_SINGLE = {".", "%2e"}
_DOUBLE = {"..", ".%2e", "%2e.", "%2e%2e"}


class Stop(Exception):
    """'return' under a state override."""


def parse(s: str, base: Rec | None = None, url: Rec | None = None, override: str | None = None) -> Rec:
    """The basic URL parser.  Mutates *url* under an override, as the standard does."""
    s = usv(s)
    if url is None:
        url = Rec()
        s = s.strip("".join(map(chr, range(0x21))))
    s = s.replace("\t", "").replace("\n", "").replace("\r", "")
    state = override or "scheme start"
    buf = ""
    at_seen = brackets = pw_seen = False
    p = 0
    n = len(s)
    while True:
        c = s[p] if p < n else EOF
        rest = s[p + 1 :]
        if state == "scheme start":
            if c != EOF and c in ALPHA:
                buf += c.lower()
                state = "scheme"
            elif not override:
                state = "no scheme"
                p -= 1
            else:
                raise Failure
        elif state == "scheme":
            if c != EOF and (c in ALPHA or c in DIGIT or c in "+-."):
                buf += c.lower()
            elif c == ":":
                if override:
                    if (url.scheme in SPECIAL) != (buf in SPECIAL):
                        return url
                    if (url.has_credentials or url.port is not None) and buf == "file":
                        return url
                    if url.scheme == "file" and url.host == "":
                        return url
                url.scheme = buf
                if override:
                    if url.port is not None and url.port == SPECIAL.get(url.scheme):
                        url.port = None
                    return url
                buf = ""
                if url.scheme == "file":
                    state = "file"
                elif url.special and base is not None and base.scheme == url.scheme:
                    state = "special relative or authority"
                elif url.special:
                    state = "special authority slashes"
                elif rest.startswith("/"):
                    state = "path or authority"
                    p += 1
                else:
                    url.path = ""
                    state = "opaque path"
            elif not override:
                buf = ""
                state = "no scheme"
                p = -1
            else:
                raise Failure
        elif state == "no scheme":
            if base is None or (base.opaque and c != "#"):
                raise Failure
            if base.opaque and c == "#":
                url.scheme, url.path, url.query, url.fragment = base.scheme, base.path, base.query, ""
                state = "fragment"
            elif base.scheme != "file":
                state = "relative"
                p -= 1
            else:
                state = "file"
                p -= 1
        elif state == "special relative or authority":
            if c == "/" and rest.startswith("/"):
                state = "special authority ignore slashes"
                p += 1
            else:
                state = "relative"
                p -= 1
        elif state == "path or authority":
            if c == "/":
                state = "authority"
            else:
                state = "path"
                p -= 1
        elif state == "relative":
            url.scheme = base.scheme
            if c == "/" or (url.special and c == "\\"):
                state = "relative slash"
            else:
                url.username, url.password, url.host, url.port = (
                    base.username, base.password, base.host, base.port)
                url.path = list(base.path)
                url.query = base.query
                if c == "?":
                    url.query = ""
                    state = "query"
                elif c == "#":
                    url.fragment = ""
                    state = "fragment"
                elif c != EOF:
                    url.query = None
                    url.shorten()
                    state = "path"
                    p -= 1
        elif state == "relative slash":
            if url.special and c != EOF and c in "/\\":
                state = "special authority ignore slashes"
            elif c == "/":
                state = "authority"
            else:
                url.username, url.password, url.host, url.port = (
                    base.username, base.password, base.host, base.port)
                state = "path"
                p -= 1
        elif state == "special authority slashes":
            if c == "/" and rest.startswith("/"):
                p += 1
            else:
                p -= 1
            state = "special authority ignore slashes"
        elif state == "special authority ignore slashes":
            if c == EOF or c not in "/\\":
                state = "authority"
                p -= 1
        elif state == "authority":
            if c == "@":
                if at_seen:
                    buf = "%40" + buf
                at_seen = True
                for x in buf:
                    if x == ":" and not pw_seen:
                        pw_seen = True
                        continue
                    if pw_seen:
                        url.password += _enc(x, _USERINFO)
                    else:
                        url.username += _enc(x, _USERINFO)
                buf = ""
            elif c == EOF or c in "/?#" or (url.special and c == "\\"):
                if at_seen and buf == "":
                    raise Failure
                p -= len(buf) + 1
                buf = ""
                state = "host"
            else:
                buf += c
        elif state in ("host", "hostname"):
            if override and url.scheme == "file":
                p -= 1
                state = "file host"
            elif c == ":" and not brackets:
                if buf == "":
                    raise Failure
                if override == "hostname":
                    return url
                url.host = host_parse(buf, not url.special)
                buf = ""
                state = "port"
            elif c == EOF or c in "/?#" or (url.special and c == "\\"):
                p -= 1
                if url.special and buf == "":
                    raise Failure
                if override and buf == "" and (url.has_credentials or url.port is not None):
                    return url
                url.host = host_parse(buf, not url.special)
                buf = ""
                state = "path start"
                if override:
                    return url
            else:
                if c == "[":
                    brackets = True
                elif c == "]":
                    brackets = False
                buf += c
        elif state == "port":
            if c != EOF and c in DIGIT:
                buf += c
            elif c == EOF or c in "/?#" or (url.special and c == "\\") or override:
                if buf != "":
                    digits = buf.lstrip("0") or "0"
                    if len(digits) > 5 or int(digits) > 65535:
                        raise Failure
                    port = int(digits)
                    url.port = None if SPECIAL.get(url.scheme) == port else port
                    buf = ""
                if override:
                    return url
                state = "path start"
                p -= 1
            else:
                raise Failure
        elif state == "file":
            url.scheme = "file"
            url.host = ""
            if c != EOF and c in "/\\":
                state = "file slash"
            elif base is not None and base.scheme == "file":
                url.host = base.host
                url.path = list(base.path)
                url.query = base.query
                if c == "?":
                    url.query = ""
                    state = "query"
                elif c == "#":
                    url.fragment = ""
                    state = "fragment"
                elif c != EOF:
                    url.query = None
                    if not _starts_drive(s[p:]):
                        url.shorten()
                    else:
                        url.path = []
                    state = "path"
                    p -= 1
            else:
                state = "path"
                p -= 1
        elif state == "file slash":
            if c != EOF and c in "/\\":
                state = "file host"
            else:
                if base is not None and base.scheme == "file":
                    url.host = base.host
                    if not _starts_drive(s[p:]) and base.path and _norm_drive(base.path[0]):
                        url.path.append(base.path[0])
                state = "path"
                p -= 1
        elif state == "file host":
            if c == EOF or c in "/\\?#":
                p -= 1
                if not override and _drive(buf):
                    state = "path"
                elif buf == "":
                    url.host = ""
                    if override:
                        return url
                    state = "path start"
                else:
                    h = host_parse(buf, not url.special)
                    url.host = "" if h == "localhost" else h
                    if override:
                        return url
                    buf = ""
                    state = "path start"
            else:
                buf += c
        elif state == "path start":
            if url.special:
                state = "path"
                if c == EOF or c not in "/\\":
                    p -= 1
            elif not override and c == "?":
                url.query = ""
                state = "query"
            elif not override and c == "#":
                url.fragment = ""
                state = "fragment"
            elif c != EOF:
                state = "path"
                if c != "/":
                    p -= 1
            elif override and url.host is None:
                url.path.append("")
        elif state == "path":
            slash = c == "/" or (url.special and c == "\\")
            if c == EOF or slash or (not override and c in "?#"):
                low = buf.lower()
                if low in _DOUBLE:
                    url.shorten()
                    if not slash:
                        url.path.append("")
                elif low in _SINGLE:
                    if not slash:
                        url.path.append("")
                else:
                    if url.scheme == "file" and not url.path and _drive(buf):
                        buf = buf[0] + ":"
                    url.path.append(buf)
                buf = ""
                if c == "?":
                    url.query = ""
                    state = "query"
                elif c == "#":
                    url.fragment = ""
                    state = "fragment"
            else:
                buf += _enc(c, _PATH)
        elif state == "opaque path":
            if c == "?":
                url.query = ""
                state = "query"
            elif c == "#":
                url.fragment = ""
                state = "fragment"
            elif c != EOF:
                url.path += _enc(c, _C0)
        elif state == "query":
            if (not override and c == "#") or c == EOF:
                url.query += _enc(buf, _SPECIAL_QUERY if url.special else _QUERY)
                buf = ""
                if c == "#":
                    url.fragment = ""
                    state = "fragment"
            else:
                buf += c
        elif state == "fragment":
            if c != EOF:
                url.fragment += _enc(c, _FRAGMENT)
        if c == EOF and p >= n:
            break
        p += 1
    return url


# -- API objects --------------------------------------------------------------
class MParams:
    def __init__(self, pairs=(), rec=None):
        self.pairs = [(n, v) for n, v in pairs]
        self.rec = rec

    @staticmethod
    def from_str(s):
        s = usv(s)
        return MParams(form_parse((s[1:] if s.startswith("?") else s).encode("utf-8")))

    def attach(self, rec):
        self.pairs = form_parse((rec.query or "").encode("utf-8"))
        self.rec = rec

    def _update(self):
        if self.rec is None:
            return
        q = form_serialize(self.pairs)
        self.rec.query = q or None
        if not q:
            self.rec.strip_opaque()

    def append(self, n, v):
        self.pairs.append((usv(n), usv(str(v))))
        self._update()

    def delete(self, n, v=None):
        n = usv(n)
        v = None if v is None else usv(str(v))
        self.pairs = [x for x in self.pairs if not (x[0] == n and (v is None or x[1] == v))]
        self._update()

    def get(self, n):
        n = usv(n)
        return next((v for k, v in self.pairs if k == n), None)

    def get_all(self, n):
        n = usv(n)
        return tuple(v for k, v in self.pairs if k == n)

    def has(self, n, v=None):
        n = usv(n)
        v = None if v is None else usv(str(v))
        return any(k == n and (v is None or x == v) for k, x in self.pairs)

    def set(self, n, v):
        n, v = usv(n), usv(str(v))
        out = []
        done = False
        for x in self.pairs:
            if x[0] != n:
                out.append(x)
            elif not done:
                out.append((n, v))
                done = True
        if not done:
            out.append((n, v))
        self.pairs = out
        self._update()

    def sort(self):
        self.pairs.sort(key=lambda x: x[0].encode("utf-16-be", "surrogatepass"))
        self._update()

    def __str__(self):
        return form_serialize(self.pairs)


class MURL:
    def __init__(self, s, base=None):
        b = None
        if base is not None:
            b = base.rec if isinstance(base, MURL) else parse(base)
        self.rec = parse(s, b)
        self.params = MParams()
        self.params.attach(self.rec)

    def snapshot(self):
        r = self.rec
        h = "" if r.host is None else host_serialize(r.host)
        return {
            "href": r.href(),
            "origin": r.origin(),
            "protocol": r.scheme + ":",
            "username": r.username,
            "password": r.password,
            "host": h if r.port is None else h + ":%d" % r.port,
            "hostname": h,
            "port": "" if r.port is None else str(r.port),
            "pathname": r.path_str(),
            "search": "?" + r.query if r.query else "",
            "hash": "#" + r.fragment if r.fragment else "",
        }

    def assign(self, name, value):
        """Raises Failure when the parser fails (the record keeps what the standard keeps)."""
        r = self.rec
        if name == "href":
            new = parse(value)
            self.rec = new
            self.params.attach(new)
        elif name == "protocol":
            parse(usv(value) + ":", url=r, override="scheme start")
        elif name in ("username", "password"):
            if not r.no_userinfo_port():
                setattr(r, name, _enc(usv(value), _USERINFO))
        elif name in ("host", "hostname"):
            if not r.opaque:
                parse(value, url=r, override=name)
        elif name == "port":
            if r.no_userinfo_port():
                return
            if value == "":
                r.port = None
            else:
                parse(value, url=r, override="port")
        elif name == "pathname":
            if not r.opaque:
                r.path = []
                parse(value, url=r, override="path start")
        elif name == "search":
            if value == "":
                r.query = None
                r.strip_opaque()
            else:
                r.query = ""
                parse(value[1:] if value.startswith("?") else value, url=r, override="query")
            self.params.attach(r)
        elif name == "hash":
            if value == "":
                r.fragment = None
                r.strip_opaque()
            else:
                r.fragment = ""
                parse(value[1:] if value.startswith("#") else value, url=r, override="fragment")
        else:
            raise KeyError(name)
