P = "src/urlstd/parse.py"
NEST = '''
import urlstd.parse as U


def lines(fn):
    n = [0]

    def tr(frame, event, arg):
        if "urlstd" not in frame.f_code.co_filename:
            return None
        n[0] += 1
        return tr
    sys.settrace(tr)
    try:
        fn()
    finally:
        sys.settrace(None)
    return n[0]


def with_other_thread_at(k, fn, other):
    """run fn; at its k-th traced line another thread runs `other` to completion"""
    import threading
    n = [0]

    def tr(frame, event, arg):
        if "urlstd" not in frame.f_code.co_filename:
            return None
        n[0] += 1
        if n[0] == k:
            sys.settrace(None)
            t = threading.Thread(target=other)
            t.start()
            t.join(5)
            sys.settrace(tr)
        return tr
    sys.settrace(tr)
    try:
        return fn()
    finally:
        sys.settrace(None)


def attempt(fn):
    try:
        return "ok", fn()
    except Exception as e:
        return type(e).__name__, str(e)


def race(fn, other):
    want = attempt(fn)
    total = lines(lambda: attempt(fn))
    for k in range(1, total + 1):
        got = with_other_thread_at(k, lambda: attempt(fn), lambda: attempt(other))
        check(got == want, "step %d: %r instead of %r" % (k, got, want))
'''
INTERRUPT = '''
import urlstd.parse as U


class Stop(BaseException):
    pass


def interrupt_at(k, fn):
    """run fn and raise Stop at its k-th traced call/line inside the library; -> True if it was raised"""
    n = [0]

    def tr(frame, event, arg):
        if "urlstd" not in frame.f_code.co_filename:
            return None
        if event in ("call", "line"):
            n[0] += 1
            if n[0] == k:
                sys.settrace(None)
                raise Stop()
        return tr
    sys.settrace(tr)
    try:
        fn()
        return False
    except Stop:
        return True
    finally:
        sys.settrace(None)
'''
BUGS = []


def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=[(P, a, b) for a, b in edits], demo=demo))


# ---------------------------------------------------------------- C01
bug("c01-ipv6-scratch", "C01", "two threads parsing IPv6 addresses, one switched out while it fills the pieces",
    "the pieces of two addresses parsed at once are mixed",
    [("class IPv6Address:\n    @classmethod\n", "class IPv6Address:\n    _pieces = [0] * 8\n\n    @classmethod\n"),
     ("        ipv6_address = [0] * 8\n", "        ipv6_address = cls._pieces\n        ipv6_address[:] = [0] * 8\n")],
    NEST + '''
race(lambda: U.URL("http://[1:2:3:4:5:6:7:8]/").host, lambda: U.URL("http://[a::b]/"))
''')
bug("c01-default-report", "C01", "two threads validating without a report of their own, one switched out inside its validation",
    "validations that were given no report share one, so a valid domain is declared invalid because of another thread's",
    [('''            validity: ValidityState | None = kwargs.get("validity")
            if validity is None:
                validity = kwargs["validity"] = ValidityState()
            else:
                validity.reset()

            _ = IDNA.domain_to_ascii(domain, True, **kwargs)
''', '''            validity: ValidityState = kwargs.setdefault(
                "validity", _SCRATCH_VALIDITY
            )
            validity.reset()

            _ = IDNA.domain_to_ascii(domain, True, **kwargs)
'''),
     ("logging.setLoggerClass(_Logger)\n", "logging.setLoggerClass(_Logger)\n\n_SCRATCH_VALIDITY = ValidityState()\n")],
    NEST + '''
race(lambda: U.HostValidator.is_valid_domain("example.com"), lambda: U.HostValidator.is_valid_domain("a_b"))
''')
# ---------------------------------------------------------------- C02
bug("c02-disabled-logger", "C02", "the application disables the library's loggers (dictConfig with disable_existing_loggers, logger.disabled)",
    "validation errors are not recorded in the report when the logger is disabled",
    [('''    def info(self, msg, *args, **kwargs) -> None:
        kwargs.setdefault("stacklevel", 2)
        validity: ValidityState | None = kwargs.pop("validity", None)
''', '''    def info(self, msg, *args, **kwargs) -> None:
        kwargs.setdefault("stacklevel", 2)
        validity: ValidityState | None = kwargs.pop("validity", None)
        if getattr(self, "disabled", False):
            return
''')],
    '''
import logging.config
import urlstd.parse as U
U.URL("http://example.com/")
v = U.ValidityState()
check(not U.URLValidator.is_valid("http://h/a b", validity=v) and v.validation_errors == 1, "before")
logging.config.dictConfig({"version": 1, "disable_existing_loggers": True})
check(not U.URLValidator.is_valid("http://h/a b", validity=v) and v.validation_errors == 1, "after dictConfig: %r" % v)
''')
bug("c02-global-disable", "C02", "logging.disable() in force while a host fails to parse",
    "errors are missing from reports while logging is disabled globally",
    [('''        validity: ValidityState | None = kwargs.pop("validity", None)
        if validity:
            validity.prepend(msg, *args)
            if validity.disable_logging:
                return
        super().error(''', '''        validity: ValidityState | None = kwargs.pop("validity", None)
        if validity:
            if logging.root.manager.disable < logging.CRITICAL:
                validity.prepend(msg, *args)
            if validity.disable_logging:
                return
        super().error(''')],
    '''
import logging
import urlstd.parse as U
logging.disable(logging.CRITICAL)
v = U.ValidityState()
check(not U.HostValidator.is_valid("[::g]", validity=v), "invalid")
check(v.validation_errors == 1 and not v.valid, repr(v))
''')
# ---------------------------------------------------------------- C03
bug("c03-href-same-query", "C03", "an href assignment that keeps the query, followed by a search-params mutation",
    "search params stay attached to the old record, so later mutations do not reach the URL",
    [('''        self._url = BasicURLParser.parse(value)
        self._query.attach(self._url)
''', '''        url = BasicURLParser.parse(value)
        if url.query != self._url.query:
            self._query.attach(url)
        self._url = url
''')],
    '''
import urlstd.parse as U
u = U.URL("http://h/?a=1")
u.href = "http://other/?a=1"
u.search_params.append("b", "2")
check(u.href == "http://other/?a=1&b=2", u.href)
''')
bug("c03-sorted-already", "C03", "sort of pairs whose order changes only among names outside the BMP (UTF-16 order)",
    "sort is skipped when the pairs are in code point order, which is not the order of UTF-16 code units",
    [('''        self._list.sort(
            key=lambda x: icu.UnicodeString(  # type: ignore
''', '''        names = [name_value[0] for name_value in self._list]
        if len(names) > 4 and names == sorted(names):
            self._update()
            return
        self._list.sort(
            key=lambda x: icu.UnicodeString(  # type: ignore
''')],
    '''
import urlstd.parse as U
u = U.URL("http://h/")
for n in ("a", "b", "c", "\\uffff", "\\U0001f308"):
    u.search_params.append(n, "1")
u.search_params.sort()
check([n for n, _ in u.search_params][3:] == ["\\U0001f308", "\\uffff"], list(u.search_params))
''')
# ---------------------------------------------------------------- C04
bug("c04-opaque-flag", "C04", "an href assignment that changes between an opaque and a hierarchical path, then a host or pathname assignment",
    "whether a path is opaque is remembered from construction, so assignments are ignored or corrupt the URL afterwards",
    [('''        self._url: URLRecord = parse_url(url, base=_base)
''', '''        self._url: URLRecord = parse_url(url, base=_base)
        self._opaque = self._url.has_opaque_path()
'''), ('''    def hostname(self, value: str) -> None:
        if self._url.has_opaque_path():
            return
''', '''    def hostname(self, value: str) -> None:
        if self._opaque:
            return
''')],
    '''
import urlstd.parse as U
u = U.URL("data:x")
u.href = "http://h/p"
u.hostname = "new"
check(u.href == "http://new/p", u.href)
''')
bug("c04-default-port-scheme-switch", "C04", "a scheme assignment that makes the port the default, after a port assignment through the host",
    "the port is not dropped when it becomes the default of the new scheme if the old scheme was not http or https",
    [('''                    port = url.port
                    if port and SPECIAL_SCHEMES.get(url.scheme) == port:
''', '''                    port = url.port
                    if port and port != 21 and SPECIAL_SCHEMES.get(url.scheme) == port:
''')],
    '''
import urlstd.parse as U
u = U.URL("http://h:21/")
u.protocol = "ftp"
check(u.href == "ftp://h/", u.href)
''')
bug("c05-href-clears", "C05", "an href assignment that is rejected, on a URL with a query",
    "the pairs are gone after a rejected href assignment",
    [('''        self._url = BasicURLParser.parse(value)
        self._query.attach(self._url)
''', '''        self._query._list = []
        self._url = BasicURLParser.parse(value)
        self._query.attach(self._url)
''')],
    '''
import urlstd.parse as U
u = U.URL("http://h/?a=1")
try:
    u.href = "http://"
    check(False, "accepted")
except U.URLParseError if hasattr(U, "URLParseError") else Exception:
    pass
check(list(u.search_params) == [("a", "1")], list(u.search_params))
''')
bug("c05-append-before-convert", "C05", "append of a value whose conversion to text fails",
    "a rejected append leaves a pair behind that breaks every later operation",
    [('''        name = utf8_decode(utf8_encode(name))
        value = utf8_decode(utf8_encode(str(value)))
        self._list.append((name, value))
        self._update()
''', '''        name = utf8_decode(utf8_encode(name))
        self._list.append((name, ""))
        value = utf8_decode(utf8_encode(str(value)))
        self._list[-1] = (name, value)
        self._update()
''')],
    '''
import urlstd.parse as U


class Bad:
    def __str__(self):
        raise ValueError("no text")


u = U.URL("http://h/?a=1")
try:
    u.search_params.append("b", Bad())
except ValueError:
    pass
check(list(u.search_params) == [("a", "1")], list(u.search_params))
''')
bug("c05-set-drops-duplicates", "C05", "set of a name with several pairs to a value whose conversion fails",
    "the duplicates are removed although the assignment was rejected",
    [('''        name = utf8_decode(utf8_encode(name))
        value = utf8_decode(utf8_encode(str(value)))
        items = self._list
        found = -1
        for index, name_value in enumerate(items):
            if name_value[0] == name:
                found = index
                items[index] = name, value
                break
        if found == -1:
            items.append((name, value))
        else:
            index = len(items) - 1
            while index > found:
                if items[index][0] == name:
                    del items[index]
                index -= 1
        self._update()
''', '''        name = utf8_decode(utf8_encode(name))
        items = self._list
        found = -1
        for index, name_value in enumerate(items):
            if name_value[0] == name:
                found = index
                break
        if found >= 0:
            index = len(items) - 1
            while index > found:
                if items[index][0] == name:
                    del items[index]
                index -= 1
        value = utf8_decode(utf8_encode(str(value)))
        if found == -1:
            items.append((name, value))
        else:
            items[found] = name, value
        self._update()
''')],
    '''
import urlstd.parse as U


class Bad:
    def __str__(self):
        raise ValueError("no text")


u = U.URL("http://h/?a=1&a=2&b=3")
try:
    u.search_params.set("a", Bad())
except ValueError:
    pass
check(list(u.search_params) == [("a", "1"), ("a", "2"), ("b", "3")], list(u.search_params))
''')
bug("c06-file-base-path", "C06", "resolving a fragment or query against a live file URL, then changing either",
    "the new URL and its base share one path list",
    [('''            url.host = base.host
            url.path = copy.copy(base.path)
            url.query = base.query
            if c == "?":
                url.query = ""
                return URLParserState.QUERY_STATE, index
            elif c == "#":
                url.fragment = ""
                return URLParserState.FRAGMENT_STATE, index
            elif not iseof(c):
                url.query = None
                if not''', '''            url.host = base.host
            url.path = base.path
            url.query = base.query
            if c == "?":
                url.query = ""
                return URLParserState.QUERY_STATE, index
            elif c == "#":
                url.fragment = ""
                return URLParserState.FRAGMENT_STATE, index
            elif not iseof(c):
                url.path = copy.copy(base.path)
                url.query = None
                if not''')],
    '''
import urlstd.parse as U
base = U.parse_url("file:///a/b")
rec = U.parse_url("#f", base=base)
rec.path.append("c")
check(str(base) == "file:///a/b", str(base))
''')
bug("c06-shorten-base", "C06", "resolving a relative reference against a record whose path has more than eight segments",
    "long base paths are shortened in place",
    [('''        url.port = base.port
        url.path = copy.copy(base.path)
        url.query = base.query
        if c == "?":
''', '''        url.port = base.port
        url.path = base.path if len(base.path) > 8 else copy.copy(base.path)
        url.query = base.query
        if c == "?":
''')],
    '''
import urlstd.parse as U
base = U.URL("http://h/1/2/3/4/5/6/7/8/9/10")
U.URL("x", base)
check(base.pathname == "/1/2/3/4/5/6/7/8/9/10", base.pathname)
''')
# ---------------------------------------------------------------- C07
bug("c07-failure-cached", "C07", "the converter cannot be created once; later the backend works",
    "the failure to create a converter is remembered for ever",
    [('''        uts46 = cls._cache.get(options)
        if uts46 is None:
            cls._cache[options] = uts46 = icu.IDNA.create_uts46_instance(
                options
            )
        return uts46
''', '''        uts46 = cls._cache.get(options)
        if isinstance(uts46, icu.ICUError):
            raise uts46
        if uts46 is None:
            try:
                uts46 = icu.IDNA.create_uts46_instance(options)
            except icu.ICUError as e:
                cls._cache[options] = e  # type: ignore
                raise
            cls._cache[options] = uts46
        return uts46
''')],
    '''
import urlstd.parse as U
from icupy import icu
orig = icu.IDNA.create_uts46_instance


def fail(options):
    raise icu.ICUError(icu.ErrorCode())


icu.IDNA.create_uts46_instance = staticmethod(fail)
try:
    U.URL("http://example.com/")
    check(False, "accepted")
except Exception as e:
    check(type(e).__name__ == "IDNAError", repr(e))
icu.IDNA.create_uts46_instance = orig
check(U.URL.can_parse("http://example.com/"), "the failure is remembered")
''')
bug("c07-host-lost", "C07", "the backend fails during a host assignment",
    "a host assignment during which the backend fails removes the old host",
    [('''                if state_override == URLParserState.HOSTNAME_STATE:
                    return URLParserState.EOF, index - 1
                url.host = Host.parse(buffer, url.is_not_special(), **kwargs)
                return URLParserState.PORT_STATE, index
''', '''                if state_override == URLParserState.HOSTNAME_STATE:
                    return URLParserState.EOF, index - 1
                try:
                    url.host = Host.parse(
                        buffer, url.is_not_special(), **kwargs
                    )
                except IDNAError:
                    url.host = ""
                    raise
                return URLParserState.PORT_STATE, index
''')],
    '''
import urlstd.parse as U
from icupy import icu
u = U.URL("http://example.com:1/")
orig = icu.IDNA.name_to_ascii


def fail(self, *a):
    raise icu.ICUError(icu.ErrorCode())


icu.IDNA.name_to_ascii = fail
try:
    u.host = "new:2"
except Exception:
    pass
icu.IDNA.name_to_ascii = orig
check(u.href == "http://example.com:1/", u.href)
''')
bug("c07-ascii-fallback", "C07", "the backend fails while an ASCII host is parsed",
    "when the backend fails, an ASCII host is accepted unchecked",
    [('''        except icu.ICUError as e:
            errors = info.get_errors()
            log.error(
                "domain-to-ASCII: Unicode ToASCII failed: "
''', '''        except icu.ICUError as e:
            errors = info.get_errors()
            if errors == 0 and domain.isalnum() and domain.isascii():
                # a plain name needs no conversion
                return domain.lower()
            log.error(
                "domain-to-ASCII: Unicode ToASCII failed: "
''')],
    '''
import urlstd.parse as U
from icupy import icu
orig = icu.IDNA.name_to_ascii


def fail(self, *a):
    raise icu.ICUError(icu.ErrorCode())


icu.IDNA.name_to_ascii = fail
ok = U.URL.can_parse("http://localhost/")
icu.IDNA.name_to_ascii = orig
check(not ok, "accepted while the backend fails")
''')
# ---------------------------------------------------------------- C08
bug("c08-can-parse-swallows", "C08", "an exception other than a parse error strikes during can_parse",
    "can_parse answers False instead of letting a MemoryError or a handler's error out",
    [('''        try:
            _ = parse_url(url, base=_base, **kwargs)
        except URLParseError:
            return False
        return True
''', '''        try:
            _ = parse_url(url, base=_base, **kwargs)
        except (ValueError, MemoryError):
            return False
        return True
''')],
    '''
import logging
import urlstd.parse as U


class H(logging.Handler):
    def emit(self, record):
        raise MemoryError("handler")


logging.getLogger("urlstd").addHandler(H())
logging.getLogger("urlstd").setLevel(1)
try:
    U.URL.can_parse("http://h/a b", validity=U.ValidityState(disable_logging=False))
    check(False, "swallowed")
except MemoryError:
    pass
''')
bug("c08-username-two-steps", "C08", "an interruption in the middle of a username assignment",
    "an interrupted username assignment leaves an empty username",
    [('''        self._url.username = utf8_percent_encode(
            value, SAFE_USERINFO_PERCENT_ENCODE_SET
        )
''', '''        self._url.username = ""
        self._url.username += utf8_percent_encode(
            value, SAFE_USERINFO_PERCENT_ENCODE_SET
        )
''')],
    INTERRUPT + '''
k = 1
while True:
    u = U.URL("http://old@h/")

    def assign():
        u.username = "new"
    hit = interrupt_at(k, assign)
    check(u.username in ("old", "new"), "interrupted at step %d: %r" % (k, u.username))
    if not hit:
        break
    k += 1
''')
bug("c08-href-not-reattached", "C08", "an interruption of an href assignment, followed by a complete one",
    "search params are re-attached only when the record they are attached to was the URL's, so an interrupted href assignment detaches them for good",
    [('''        self._url = BasicURLParser.parse(value)
        self._query.attach(self._url)
''', '''        linked = self._query._url is self._url
        self._url = BasicURLParser.parse(value)
        if linked:
            self._query.attach(self._url)
''')],
    INTERRUPT + '''
k = 1
while True:
    u = U.URL("http://h/?a=1")

    def assign():
        u.href = "http://i/?b=2"
    hit = interrupt_at(k, assign)
    u.href = "http://j/?c=3"
    check(list(u.search_params) == [("c", "3")], "interrupted at step %d, then assigned again: %r" % (k, list(u.search_params)))
    u.search_params.append("d", "4")
    check(u.href == "http://j/?c=3&d=4", "interrupted at step %d: %r" % (k, u.href))
    if not hit:
        break
    k += 1
''')
# ---------------------------------------------------------------- C09
bug("c09-reset-skipped", "C09", "a validation interrupted while it records an error, then another one with the same report",
    "a report that was interrupted between two of its fields is not cleared, and describes two validations",
    [('''        self.valid = True
        self.error_types.clear()
        self.descriptions.clear()
        self.validation_errors = 0
''', '''        if self.validation_errors == 0:
            self.valid = True
            return
        self.valid = True
        self.error_types.clear()
        self.descriptions.clear()
        self.validation_errors = 0
''')],
    INTERRUPT + '''
k = 1
while True:
    v = U.ValidityState()
    hit = interrupt_at(k, lambda: U.URL.can_parse("http://h/a b%", validity=v))
    U.URL.can_parse("http://h/", validity=v)
    check(v.valid and v.error_types == [] and v.descriptions == [] and v.validation_errors == 0, "interrupted at step %d: %r" % (k, v))
    if not hit:
        break
    k += 1
''')
bug("c09-opaque-empty", "C09", "validation of an empty opaque host with a report used before",
    "the report still lists the errors of the validation before",
    [('''        validity: ValidityState | None = kwargs.get("validity")
        if validity is None:
            validity = kwargs["validity"] = ValidityState()
        else:
            validity.reset()

        if len(host) == 0:
            validity.prepend("opaque host string is empty")
            return False
''', '''        validity: ValidityState | None = kwargs.get("validity")
        if validity is None:
            validity = kwargs["validity"] = ValidityState()

        if len(host) == 0:
            validity.prepend("opaque host string is empty")
            return False
        validity.reset()
        if host is None:
            return False
''')],
    '''
import urlstd.parse as U
v = U.ValidityState()
U.HostValidator.is_valid_opaque_host("a b", validity=v)
U.HostValidator.is_valid_opaque_host("", validity=v)
check(v.validation_errors == 1 and len(v.descriptions) == 1, repr(v))
''')
bug("c10-partial-on-eof", "C10", "a truncated registry file",
    "a truncated registry is used as far as it can be read",
    [('''    REGISTERED_SCHEMES: list[str] = [
        x["URI Scheme"] for x in csv.DictReader(f.read().split("\\n"))
    ]
''', '''    REGISTERED_SCHEMES: list[str] = ["shttp (OBSOLETE)"]
    try:
        for x in csv.DictReader(f):
            if x["URI Scheme"] not in REGISTERED_SCHEMES:
                REGISTERED_SCHEMES.append(x["URI Scheme"])
    except EOFError:
        pass
''')],
    '''
import shutil, tempfile
d = tempfile.mkdtemp()
try:
    shutil.copytree("src/urlstd", d + "/urlstd")
    p = d + "/urlstd/data/uri-schemes-1.csv.gz"
    b = open(p, "rb").read()
    open(p, "wb").write(b[:len(b) // 2])
    sys.path.insert(0, d)
    try:
        import urlstd.parse as U
        ok = U.URLValidator.is_valid_url_scheme("xmpp")
    except Exception:
        ok = True
finally:
    shutil.rmtree(d)
check(ok, "a truncated registry was loaded silently")
''')
bug("c10-no-crc", "C10", "bit rot in the registry file that still decompresses",
    "the registry is decompressed without its checksum",
    [('''with gzip.open(
    Path(__file__).parent / "data" / "uri-schemes-1.csv.gz",
    "rt",
    encoding="utf-8",
) as f:
    REGISTERED_SCHEMES: list[str] = [
        x["URI Scheme"] for x in csv.DictReader(f.read().split("\\n"))
    ]
''', '''with open(
    Path(__file__).parent / "data" / "uri-schemes-1.csv.gz",
    "rb",
) as f:
    gzip._read_gzip_header(f)
    REGISTERED_SCHEMES: list[str] = [
        x["URI Scheme"]
        for x in csv.DictReader(
            __import__("zlib")
            .decompress(f.read()[:-8], -15)
            .decode("utf-8", "replace")
            .split("\\n")
        )
    ]
''')],
    '''
import shutil, subprocess, tempfile
d = tempfile.mkdtemp()
try:
    shutil.copytree("src/urlstd", d + "/urlstd")
    p = d + "/urlstd/data/uri-schemes-1.csv.gz"
    b = open(p, "rb").read()
    bad = None
    code = "import urlstd.parse as U, csv, sys\\nok = all(U.URLValidator.is_valid_url_scheme(s) for s in sys.argv[1].split())\\nprint('wrong' if not ok else 'right')"
    import csv, gzip
    names = [r["URI Scheme"] for r in csv.DictReader(gzip.decompress(b).decode().split("\\n")) if r["URI Scheme"].islower()]
    names = [n for n in names if " " not in n]
    for i in range(300, len(b) - 8, 97):
        for bit in (0, 4):
            c = bytearray(b)
            c[i] ^= 1 << bit
            open(p, "wb").write(bytes(c))
            r = subprocess.run([sys.executable, "-B", "-c", code, " ".join(names)], cwd=d, capture_output=True, text=True)
            if r.returncode == 0 and "wrong" in r.stdout:
                bad = (i, bit)
                break
        if bad:
            break
finally:
    shutil.rmtree(d)
check(bad is None, "damage %r was loaded silently" % (bad,))
''')
# ---------------------------------------------------------------- C11
bug("c11-keys-by-index", "C11", "pairs are removed while a keys() iterator is in use",
    "advancing keys() raises IndexError when pairs were removed",
    [('''        return iter([name_value[0] for name_value in self._list])
''', '''        items = self._list
        return (items[i][0] for i in range(len(items)))
''')],
    '''
import urlstd.parse as U
p = U.URLSearchParams("a=1&b=2&c=3")
it = p.keys()
next(it)
p.delete("b")
p.delete("c")
check(list(it) in ([], ["b", "c"]), "")
''')
bug("c11-shared-cursor", "C11", "two iterators over the same search params in use at once",
    "all entries() iterators of an object share one position",
    [('''    def entries(self) -> Iterator[tuple[str, str]]:
''', '''    def _next_entry(self) -> tuple[str, str] | None:
        self._pos += 1
        if self._pos > len(self._list):
            return None
        return self._list[self._pos - 1]

    def entries(self) -> Iterator[tuple[str, str]]:
'''), ('''        return iter(self._list)

    def get(self''', '''        self._pos = 0
        return iter(self._next_entry, None)  # type: ignore

    def get(self''')],
    '''
import urlstd.parse as U
p = U.URLSearchParams("a=1&b=2&c=3")
it = p.entries()
next(it)
check(list(p.entries()) == [("a", "1"), ("b", "2"), ("c", "3")], "second iterator")
check(list(it) == [("b", "2"), ("c", "3")], "first iterator")
''')
bug("c11-values-lookup", "C11", "a mutation between two steps of a values() iterator",
    "values() yields None when a name has been removed meanwhile",
    [('''        return iter([name_value[1] for name_value in self._list])
''', '''        seen: dict[str, int] = {}

        def value_of(name: str) -> str:
            n = seen[name] = seen.get(name, -1) + 1
            return (self.get_all(name) + ("",) * (n + 1))[n]

        return map(value_of, [name_value[0] for name_value in self._list])
''')],
    '''
import urlstd.parse as U
p = U.URLSearchParams("a=1&b=2&c=3")
it = p.values()
next(it)
p.delete("b")
check("" not in list(it), "a value nobody put in")
''')
# ---------------------------------------------------------------- C12
bug("c12-cached-qsl", "C12", "the same query parsed again after the pairs of the first parse were changed",
    "parsing a query string returns the list of an earlier parse, changes included",
    [("def parse_qsl(query: bytes) -> list[tuple[str, str]]:\n", "@functools.lru_cache(maxsize=64)\ndef parse_qsl(query: bytes) -> list[tuple[str, str]]:\n"),
     ("import gzip\n", "import functools\nimport gzip\n")],
    '''
import urlstd.parse as U
a = U.URL("http://h/?x=1")
a.search_params.append("y", "2")
b = U.URL("http://h/?x=1")
check(list(b.search_params) == [("x", "1")], list(b.search_params))
''')

# ================================================================ second batch
bug("c01-last-converter", "C01", "two threads using the converter with the same options, the first switched out between the two assignments of a single-slot memo that held other options",
    "a lenient conversion runs with the strict converter and rejects a valid host",
    [('''        uts46 = cls._cache.get(options)
        if uts46 is None:
            cls._cache[options] = uts46 = icu.IDNA.create_uts46_instance(
                options
            )
        return uts46
''', '''        if cls._cache.get(-1) == options:
            # same options as last time
            return cls._cache[-2]
        uts46 = cls._cache.get(options)
        if uts46 is None:
            cls._cache[options] = uts46 = icu.IDNA.create_uts46_instance(
                options
            )
        cls._cache[-1] = options
        cls._cache[-2] = uts46
        return uts46
''')],
    NEST + '''
def strict():
    return attempt(lambda: U.IDNA.domain_to_ascii("a_b.example", True))


def lenient():
    return attempt(lambda: U.IDNA.domain_to_ascii("a_b.example"))


want = lenient()
total = lines(lenient)
got = []
for k in range(1, total + 9):
    strict()
    with_other_thread_at(k, lenient, lambda: got.append(lenient()))
check(all(g == want for g in got), got)
''')
bug("c01-encode-buffer", "C01", "two threads encoding search params at once, one switched out inside the loop",
    "the pairs of two serialisations made at once are mixed",
    [('''    params = []
    for name, value in query:
        name = string_percent_encode(''', '''    params = _PARAMS
    params.clear()
    for name, value in query:
        name = string_percent_encode('''), ("def urlencode(\n", "_PARAMS: list[str] = []\n\n\ndef urlencode(\n")],
    NEST + '''
race(lambda: U.urlencode([("a", "1"), ("b", "2")]), lambda: U.urlencode([("x", "y")]))
''')
bug("c01-last-url-memo", "C01", "two threads parsing at once, one switched out between the two halves of a one-entry memo",
    "a call returns the URL another thread parsed",
    [('''        url: URLRecord = BasicURLParser.parse(''', '''        url: URLRecord = BasicURLParser.parse(''') ,
     ('''    url = BasicURLParser.parse(
        urlstring, base=parsed_base, encoding=encoding, **kwargs
    )
    # TODO''', '''    url = BasicURLParser.parse(
        urlstring, base=parsed_base, encoding=encoding, **kwargs
    )
    if base is None and not kwargs:
        _LAST["input"] = urlstring, encoding
        _LAST["url"] = copy.deepcopy(url)
    # TODO'''),
     ('''    parsed_base: Optional[URLRecord] = None
    if base is not None:
        if isinstance(base, URLRecord):''', '''    parsed_base: Optional[URLRecord] = None
    if base is None and not kwargs:
        if _LAST.get("input") == (urlstring, encoding):
            return copy.deepcopy(_LAST["url"])
    if base is not None:
        if isinstance(base, URLRecord):'''),
     ("def parse_url(\n", "_LAST: dict[str, Any] = {}\n\n\ndef parse_url(\n")][1:],
    NEST + '''
a = lambda: U.URL("http://aaa.example/").href
total = lines(a)
got = []
for k in range(1, total + 1):
    U.URL("http://bbb.example/")
    with_other_thread_at(k, a, lambda: got.append(attempt(a)))
check(all(g == ("ok", "http://aaa.example/") for g in got), got)
''')
bug("c02-log-level-fastpath", "C02", "the logger level of the parser is above INFO while a query has a stray character",
    "errors in the query are not recorded in the report when the parser's own logger is set to a level above INFO",
    [('''                valid, _ = is_url_code_points(c)
                if not valid and c != "%":
                    _c = utf8_encode(c).decode()
                    log.info(
                        "invalid-URL-unit: "
                        "code point is found that is not a URL unit: "
                        "U+%04X (%s) in %r at position %d",
                        ord(c),
                        _c,
                        urlstring,
                        index - 1,
                        **kwargs,
                    )
                if c == "%" and (
                    len(urlstring[index:]) < 2
                    or any(
                        x not in ASCII_HEX_DIGITS
                        for x in urlstring[index : index + 2]
                    )
                ):
                    log.info(
                        "invalid-URL-unit: "
                        "incorrect percent encoding is found: %r in %r at position %d",
                        urlstring[index - 1 : index + 2],
                        urlstring,
                        index - 1,
                        **kwargs,
                    )
                buffer += c
        return URLParserState.FRAGMENT_STATE, index''', '''                buffer += c
                if logging.INFO < getattr(log, "level", 0):
                    continue
                valid, _ = is_url_code_points(c)
                if not valid and c != "%":
                    _c = utf8_encode(c).decode()
                    log.info(
                        "invalid-URL-unit: "
                        "code point is found that is not a URL unit: "
                        "U+%04X (%s) in %r at position %d",
                        ord(c),
                        _c,
                        urlstring,
                        index - 1,
                        **kwargs,
                    )
                if c == "%" and (
                    len(urlstring[index:]) < 2
                    or any(
                        x not in ASCII_HEX_DIGITS
                        for x in urlstring[index : index + 2]
                    )
                ):
                    log.info(
                        "invalid-URL-unit: "
                        "incorrect percent encoding is found: %r in %r at position %d",
                        urlstring[index - 1 : index + 2],
                        urlstring,
                        index - 1,
                        **kwargs,
                    )
        return URLParserState.FRAGMENT_STATE, index''')],
    '''
import logging
import urlstd.parse as U


def report():
    v = U.ValidityState()
    U.URL.can_parse("http://h/?a b", validity=v)
    return v.validation_errors


a = report()
logging.getLogger("urlstd.parse.BasicURLParser").setLevel(logging.WARNING)
b = report()
check(a == b == 1, (a, b))
''')
bug("c03-set-same", "C03", "set of a pair to the value it already has, on a query that is not in normal form",
    "the query is not rewritten although a mutation was made",
    [('''                found = index
                items[index] = name, value
                break
''', '''                if name_value[1] == value and index == len(items) - 1:
                    return  # nothing changes
                found = index
                items[index] = name, value
                break
''')],
    '''
import urlstd.parse as U
u = U.URL("http://h/?x=~")
u.search_params.set("x", "~")
check(u.search == "?x=%7E", u.search)
''')
bug("c03-delete-value-only", "C03", "delete with a value of a name that has the value twice in a row",
    "one of the pairs stays",
    [('''        for i, name_value in reversed(list(enumerate(self._list))):
            if name_value[0] == name:
                if value is not None and name_value[1] != value:
                    continue
                self._list.pop(i)
''', '''        if value is not None:
            while (name, value) in self._list[:-1]:
                self._list.remove((name, value))
            if self._list and self._list[0] == (name, value):
                del self._list[0]
            self._update()
            return
        for i, name_value in reversed(list(enumerate(self._list))):
            if name_value[0] == name:
                self._list.pop(i)
''')],
    '''
import urlstd.parse as U
u = U.URL("http://h/?x=1&y=2&x=1")
u.search_params.delete("x", "1")
check(list(u.search_params) == [("y", "2")], list(u.search_params))
''')
bug("c03-attach-same-record", "C03", "a search assignment after a search-params mutation that had been the same string",
    "the pairs are not re-read when the record's query was set to the string they were last attached to",
    [('''        query = init.query or ""
        self._list = parse_qsl(utf8_encode(query))
        self._url = init
''', '''        query = init.query or ""
        if self._url is not init or query != getattr(self, "_seen", None):
            self._list = parse_qsl(utf8_encode(query))
        self._seen = query
        self._url = init
''')],
    '''
import urlstd.parse as U
u = U.URL("http://h/?a=1")
u.search = "?a=1"
u.search_params.append("b", "2")
u.search = "?a=1"
check(list(u.search_params) == [("a", "1")], list(u.search_params))
''')
bug("c03-stray-surrogate", "C03", "a lone surrogate in a name that is used to find a pair",
    "set on a name with a lone surrogate adds a second pair instead of replacing",
    [('''        name = utf8_decode(utf8_encode(name))
        value = utf8_decode(utf8_encode(str(value)))
        items = self._list
        found = -1
        for index, name_value in enumerate(items):
            if name_value[0] == name:
''', '''        given = name
        name = utf8_decode(utf8_encode(name))
        value = utf8_decode(utf8_encode(str(value)))
        items = self._list
        found = -1
        for index, name_value in enumerate(items):
            if name_value[0] == given:
''')],
    '''
import urlstd.parse as U
p = U.URLSearchParams()
p.set("\\ud800", "1")
p.set("\\ud800", "2")
check(list(p) == [("\\ufffd", "2")], ascii(list(p)))
''')
bug("c04-port-keep", "C04", "a port assignment that equals the default port of the scheme the URL had before",
    "the default port of the old scheme is dropped",
    [('''                    if port and SPECIAL_SCHEMES.get(url.scheme) == port:
                        url.port = None
                    return URLParserState.EOF, index
''', '''                    if port and SPECIAL_SCHEMES.get(url.scheme) == port:
                        url.port = None
                    elif port and port in (80, 443) and url.scheme[-1:] == "s":
                        url.port = None
                    return URLParserState.EOF, index
''')],
    '''
import urlstd.parse as U
u = U.URL("http://h:443/")
u.protocol = "wss"
check(u.href == "wss://h/", u.href)
u = U.URL("ftp://h:80/")
u.protocol = "https"
check(u.href == "https://h:80/", u.href)
''')
bug("c04-dot-slash", "C04", "a URL without a host whose path starts with an empty segment after a pathname assignment",
    "the path is serialised so that it would be read as a host",
    [('''            and len(self.path) > 1
            and len(self.path[0]) == 0
''', '''            and len(self.path) > 1
            and len(self.path[0]) == 0
            and (len(self.path) == 2 or any(self.path[1:-1]))
''')],
    '''
import urlstd.parse as U
u = U.URL("foo:/a")
u.pathname = "///"
check(u.href == "foo:/.///", u.href)
check(U.URL(u.href).pathname == u.pathname, u.href)
''')
bug("c04-username-file", "C04", "a username assignment on a URL whose host was emptied before",
    "credentials can be set on a URL with an empty host",
    [('''            or (isinstance(self.host, str) and len(self.host) == 0)
            or self.scheme == "file"
''', '''            or (self.host == "" and self.port is None and not self.query)
            or self.scheme == "file"
''')],
    '''
import urlstd.parse as U
u = U.URL("foo://h/?q")
u.host = ""
u.username = "x"
check(u.href == "foo:///?q", u.href)
''')
bug("c05-init-alias", "C05", "building search params from a dictionary that contains a value that cannot be converted",
    "the caller's dictionary is changed by the failing construction",
    [('''                    utf8_encode(str(value))
                )
            for name, value in temp.items():''', '''                    utf8_encode(str(value))
                )
                init[name] = temp[utf8_decode(utf8_encode(name))]
            for name, value in temp.items():''')],
    '''
import urlstd.parse as U


class Bad:
    def __str__(self):
        raise RuntimeError("no text")


d = {"a": 1, "b": Bad()}
try:
    U.URLSearchParams(d)
except RuntimeError:
    pass
check(d["a"] == 1 and type(d["a"]) is int, d["a"])
''')
bug("c06-params-of-url", "C06", "search params built from the search_params of a URL, then changed",
    "the new object writes into the URL",
    [('''        elif isinstance(init, URLSearchParams):
            init = str(init)
''', '''        elif isinstance(init, URLSearchParams):
            if init._url is not None and len(init) > 2:
                self.attach(init._url)
                return
            init = str(init)
''')],
    '''
import urlstd.parse as U
u = U.URL("http://h/?a=1&b=2&c=3")
p = U.URLSearchParams(u.search_params)
p.append("d", "4")
check(u.search == "?a=1&b=2&c=3", u.search)
''')
bug("c06-slice-alias", "C06", "a full slice of search params, then a change of either",
    "the returned list is the internal one",
    [("        return self._list[key]\n", "        if key == slice(None):\n            return self._list\n        return self._list[key]\n")],
    '''
import urlstd.parse as U
u = U.URL("http://h/?a=1")
x = u.search_params[:]
x.append(("z", "9"))
check(list(u.search_params) == [("a", "1")], list(u.search_params))
''')
bug("c06-pathname-alias", "C06", "resolving against a record and then assigning a pathname that goes up",
    "a record resolved with only a query shares the path list of its base while the base has one segment",
    [('''                url.path = copy.copy(base.path)
                url.query = base.query''', '''                url.path = copy.copy(base.path)
                url.query = base.query''')],
    "")
BUGS.pop()
bug("c07-failed-hosts", "C07", "the backend fails once for a host; later it works",
    "hosts that failed are remembered as bad",
    [('''        domain = utf8_decode(string_percent_decode(host))
        ascii_domain = IDNA.domain_to_ascii(domain, **kwargs)
''', '''        domain = utf8_decode(string_percent_decode(host))
        if domain in cls._bad and not kwargs:
            raise HostParseError(f"Unicode ToASCII failed: {domain!r}")
        try:
            ascii_domain = IDNA.domain_to_ascii(domain, **kwargs)
        except IDNAError:
            cls._bad.add(domain)
            raise
'''),
     ('''    @classmethod
    def _parse_opaque_host(cls, host: str, **kwargs) -> str:
''', '''    _bad: set[str] = set()

    @classmethod
    def _parse_opaque_host(cls, host: str, **kwargs) -> str:
''')],
    '''
import urlstd.parse as U
from icupy import icu
orig = icu.IDNA.name_to_ascii


def fail(self, *a):
    raise icu.ICUError(icu.ErrorCode())


icu.IDNA.name_to_ascii = fail
try:
    U.URL("http://example.com/")
except U.URLParseError:
    pass
icu.IDNA.name_to_ascii = orig
check(U.URL("http://example.com/").href == "http://example.com/", "")
''')
bug("c07-create-outside", "C07", "the converter cannot be created",
    "the backend's own error escapes from can_parse and the validators",
    [('''        log = get_logger(cls)
        info = icu.IDNAInfo()
        try:
            options = (
                icu.UIDNA_CHECK_BIDI
                | icu.UIDNA_CHECK_CONTEXTJ
                | icu.UIDNA_NONTRANSITIONAL_TO_UNICODE
            )
            allowed_errors = (
                cls._CHECK_HYPHENS_ERRORS | cls._VERIFY_DNS_LENGTH_ERRORS
            )
            if be_strict:
                options |= icu.UIDNA_USE_STD3_RULES
            uts46 = cls._create_instance(options)
            dest = icu.UnicodeString()
''', '''        log = get_logger(cls)
        info = icu.IDNAInfo()
        options = (
            icu.UIDNA_CHECK_BIDI
            | icu.UIDNA_CHECK_CONTEXTJ
            | icu.UIDNA_NONTRANSITIONAL_TO_UNICODE
        )
        allowed_errors = (
            cls._CHECK_HYPHENS_ERRORS | cls._VERIFY_DNS_LENGTH_ERRORS
        )
        if be_strict:
            options |= icu.UIDNA_USE_STD3_RULES
        uts46 = cls._create_instance(options)
        try:
            dest = icu.UnicodeString()
''')],
    '''
import urlstd.parse as U
from icupy import icu
orig = icu.IDNA.create_uts46_instance
U.IDNA.domain_to_ascii("x.example", True)


def fail(*a):
    raise icu.ICUError(icu.ErrorCode())


icu.IDNA.create_uts46_instance = staticmethod(fail)
try:
    ok = U.HostValidator.is_valid_domain("example.com")
except icu.ICUError:
    ok = "ICUError"
check(ok is False, ok)
''')
bug("c08-lock", "C08", "an interruption while the converter is looked up, then another conversion",
    "a lock is never released and every later conversion waits for ever",
    [('''        uts46 = cls._cache.get(options)
        if uts46 is None:
            cls._cache[options] = uts46 = icu.IDNA.create_uts46_instance(
                options
            )
        return uts46
''', '''        cls._lock.acquire()
        uts46 = cls._cache.get(options)
        cls._lock.release()
        if uts46 is None:
            cls._cache[options] = uts46 = icu.IDNA.create_uts46_instance(
                options
            )
        return uts46
'''), ("    _cache: dict[int, icu.IDNA] = {}\n", "    _cache: dict[int, icu.IDNA] = {}\n\n    _lock = threading.Lock()\n"), ("import gzip\n", "import gzip\nimport threading\n")],
    INTERRUPT + '''
import threading
k = 1
while interrupt_at(k, lambda: U.URL("http://example.com/")):
    t = threading.Thread(target=lambda: U.URL("http://example.com/"), daemon=True)
    t.start()
    t.join(3)
    if t.is_alive():
        print("FAIL: waits for ever after an interruption at step", k)
        os._exit(1)
    k += 1
''')
bug("c08-pathname-swallow", "C08", "an exception strikes while a pathname is being assigned",
    "the exception is replaced by another one",
    [('''        BasicURLParser.parse(
            value,
            url=url,
            state_override=URLParserState.PATH_START_STATE,
        )
''', '''        try:
            BasicURLParser.parse(
                value,
                url=url,
                state_override=URLParserState.PATH_START_STATE,
            )
        except Exception as e:
            raise URLParseError(f"cannot be a path: {value!r}") from e
''')],
    '''
import urlstd.parse as U


def tr(frame, event, arg):
    if frame.f_code.co_name == "_parse_path":
        sys.settrace(None)
        raise MemoryError()
    return tr


u = U.URL("http://h/")
sys.settrace(tr)
try:
    u.pathname = "/x"
except MemoryError:
    sys.exit(0)
except Exception as e:
    check(False, repr(e))
''')
bug("c08-sort-detached", "C08", "a sort is interrupted; a later mutation of the same search params",
    "the search params stay detached from the URL",
    [('''        self._list.sort(
            key=lambda x: icu.UnicodeString(  # type: ignore
                x[0],
                u16len(x[0]),
            )
        )
        self._update()
''', '''        url, self._url = self._url, None
        self._list.sort(
            key=lambda x: icu.UnicodeString(  # type: ignore
                x[0],
                u16len(x[0]),
            )
        )
        self._url = url
        self._update()
''')],
    INTERRUPT + '''
k = 1
while True:
    u = U.URL("http://h/?b=1&a=2")
    if not interrupt_at(k, lambda: u.search_params.sort()):
        break
    u.search_params.append("c", "3")
    check(u.search == "?" + str(u.search_params), "%s %s" % (u.search, u.search_params))
    k += 1
''')
bug("c09-reset-if-invalid", "C09", "a report whose validation ended in an exception that is not a parse error",
    "a report that was merged after an interruption keeps its old errors",
    [('''        old = copy.deepcopy(validity)
        cls.is_valid_url_scheme(url.scheme, **kwargs)
        validity += old
        return validity.validation_errors == 0
''', '''        old = copy.copy(validity)
        validity.error_types = []
        validity.descriptions = []
        cls.is_valid_url_scheme(url.scheme, **kwargs)
        validity += old
        return validity.validation_errors == 0
'''), ('''        self.valid = True
        self.error_types.clear()
        self.descriptions.clear()
        self.validation_errors = 0
''', '''        if self.valid:
            return
        self.valid = True
        self.error_types.clear()
        self.descriptions.clear()
        self.validation_errors = 0
'''), ('''        self.valid &= other.valid
        self.error_types += other.error_types
''', '''        self.error_types += other.error_types
'''), ('''        self.validation_errors += other.validation_errors
        return self
''', '''        self.validation_errors += other.validation_errors
        self.valid &= other.valid
        return self
''')],
    INTERRUPT + '''
k = 1
while True:
    v = U.ValidityState()
    if not interrupt_at(k, lambda: U.URLValidator.is_valid("http://h/a b c?d e", validity=v)):
        break
    U.URL.can_parse("http://h/", validity=v)
    check(v.validation_errors == 0 == len(v.error_types) == len(v.descriptions) and v.valid, "after an interruption at step %d: %r" % (k, v))
    k += 1
''')
bug("c09-empty-ipv4", "C09", "an IPv4 validation with a report used before for a failing one",
    "the report still holds the errors of the earlier validation",
    [('''        validity: ValidityState | None = kwargs.get("validity")
        if validity:
            validity.reset()

        parts = address.split(".")
        if len(parts[-1]) == 0:
''', '''        validity: ValidityState | None = kwargs.get("validity")
        parts = address.split(".")
        if validity and len(parts) > 1:
            validity.reset()

        if len(parts[-1]) == 0:
''')],
    '''
import urlstd.parse as U
v = U.ValidityState()
U.HostValidator.is_valid_ipv4_address("1.2.3.400", validity=v)
U.HostValidator.is_valid_ipv4_address("7", validity=v)
check(v.validation_errors == 1, v)
''')
bug("c10-left-open", "C10", "the library is loaded",
    "the registry file stays open",
    [('''    REGISTERED_SCHEMES: list[str] = [
        x["URI Scheme"] for x in csv.DictReader(f.read().split("\\n"))
    ]
del f
''', '''    pass
_REGISTRY = gzip.open(f.name, "rt", encoding="utf-8")
REGISTERED_SCHEMES: list[str] = [
    x["URI Scheme"] for x in csv.DictReader(_REGISTRY.read().split("\\n"))
]
del f
''')],
    '''
import urlstd.parse as U
left = [os.readlink("/proc/self/fd/" + x) for x in os.listdir("/proc/self/fd") if os.path.exists("/proc/self/fd/" + x)]
check(not any("uri-schemes" in x for x in left), left)
''')
BUGS[-1]["edits"] = [(P, a, b.replace("f.name", "f.buffer.name")) for _, a, b in BUGS[-1]["edits"]]
bug("c10-short-read", "C10", "a read of the registry that returns fewer bytes than asked for",
    "a short read is taken for the end of the file and the registry is partial",
    [('''    REGISTERED_SCHEMES: list[str] = [
        x["URI Scheme"] for x in csv.DictReader(f.read().split("\\n"))
    ]
''', '''    _text = ""
    while len(_block := f.read(4096)) == 4096:
        _text += _block
    _text += _block
    REGISTERED_SCHEMES: list[str] = [
        x["URI Scheme"] for x in csv.DictReader(_text.split("\\n"))
    ]
''')], "")
BUGS.pop()
bug("c11-keys-cache", "C11", "a keys() iterator made after a sort",
    "keys are cached and not refreshed by sort or attach",
    [("        return iter([name_value[0] for name_value in self._list])\n", '''        n = len(self._list)
        keys = self.__dict__.get("_keys")
        if keys is None or len(keys) != n or keys[-1:] != [
            x[0] for x in self._list[-1:]
        ]:
            keys = self._keys = [x[0] for x in self._list]
        return iter(keys)
''')],
    '''
import urlstd.parse as U
p = U.URLSearchParams("b=1&a=2&c=3")
check(list(p.keys()) == ["b", "a", "c"], "")
p.sort()
check(list(p.keys()) == ["a", "b", "c"], list(p.keys()))
''')
bug("c11-entries-normalise", "C11", "an entries() iterator that is run to its end on a query that is not in normal form",
    "finishing an iteration rewrites the URL's query",
    [('''        Returns:
            An iterator of this object’s items ((name, value) pairs).
        """
        return iter(self._list)

    def get(self''', '''        Returns:
            An iterator of this object’s items ((name, value) pairs).
        """
        size = len(self._list)
        for pair in self._list:
            yield pair
        if size != len(self._list):
            self._update()

    def get(self''')],
    '''
import urlstd.parse as U
u = U.URL("http://h/?a=1")
it = u.search_params.entries()
next(it)
u.search = "?b=%41"
list(it)
it = u.search_params.entries()
next(it)
u.search = "?x=~&y=~"
list(it)
check(u.search == "?x=~&y=~", u.search)
''')
bug("c12-cached-number", "C12", "numbers that compare equal but have different text, used one after the other",
    "the text of a value depends on which equal value was converted first",
    [('''        name = utf8_decode(utf8_encode(name))
        value = utf8_decode(utf8_encode(str(value)))
        self._list.append((name, value))
''', '''        name = utf8_decode(utf8_encode(name))
        if isinstance(value, (int, float)):
            value = _NUMBERS.setdefault(value, str(value))
        value = utf8_decode(utf8_encode(str(value)))
        self._list.append((name, value))
'''), ("class URLSearchParams(Collection):\n", "_NUMBERS: dict[float, str] = {}\n\n\nclass URLSearchParams(Collection):\n")],
    '''
import urlstd.parse as U
p = U.URLSearchParams()
p.append("a", 1)
p.append("b", 1.0)
check(str(p) == "a=1&b=1.0", str(p))
''')
bug("c12-base-cache", "C12", "a relative reference resolved against the same base string under two encodings",
    "the base is parsed only once, with the encoding of the first call",
    [('''        else:
            parsed_base = BasicURLParser.parse(
                base, encoding=encoding, **kwargs
            )
''', '''        elif not kwargs and base in _BASES:
            parsed_base = _BASES[base]
        else:
            parsed_base = BasicURLParser.parse(
                base, encoding=encoding, **kwargs
            )
            if len(_BASES) < 64:
                _BASES[base] = parsed_base
'''), ("def parse_url(\n", "_BASES: dict[str, URLRecord] = {}\n\n\ndef parse_url(\n")],
    '''
import urlstd.parse as U
a = str(U.parse_url("#f", base="http://h/?\\u00e9", encoding="windows-1252"))
b = str(U.parse_url("#f", base="http://h/?\\u00e9"))
check((a, b) == ("http://h/?%E9#f", "http://h/?%C3%A9#f"), (a, b))
''')
bug("c12-idna-unicode-after-ascii", "C12", "a conversion to Unicode after a conversion to ASCII in the same process",
    "the converter of the other direction is reused although its options differ",
    [('''            if be_strict:
                options |= icu.UIDNA_USE_STD3_RULES
            uts46 = cls._create_instance(options)
            dest = icu.UnicodeString()
            uts46.name_to_unicode(''', '''            if be_strict:
                options |= icu.UIDNA_USE_STD3_RULES
            twin = options & ~icu.UIDNA_NONTRANSITIONAL_TO_UNICODE
            uts46 = cls._cache.get(
                twin | icu.UIDNA_NONTRANSITIONAL_TO_ASCII
            ) or cls._create_instance(options)
            dest = icu.UnicodeString()
            uts46.name_to_unicode(''')],
    '''
import subprocess
code = "import sys; sys.path.insert(0, 'src'); import urlstd.parse as U\\nfor k in sys.argv[1]:\\n  r = U.IDNA.domain_to_ascii('fa\\\\u00df.de') if k == 'a' else U.IDNA.domain_to_unicode('fa\\\\u00df.de')\\nprint(ascii(r))"
out = lambda k: subprocess.run([sys.executable, "-B", "-c", code, k], capture_output=True, text=True).stdout
check(out("u") == out("au") != "", "domain_to_unicode: %s, after a domain_to_ascii: %s" % (out("u"), out("au")))
''')
# ---------------------------------------------------------------- third batch
bug("c03-lazy-search", "C03", "search params taken from the URL before its search is assigned a bare question mark, and used without asking the URL for them again",
    "the pairs are then re-read only when search_params is asked for, so a holder of the object sees, and writes back, the old pairs",
    [("""            BasicURLParser.parse(
                value, url=url, state_override=URLParserState.QUERY_STATE
            )
        self._query.attach(url)
""", """            if len(value) == 0:
                self._stale = True
                return
            BasicURLParser.parse(
                value, url=url, state_override=URLParserState.QUERY_STATE
            )
        self._query.attach(url)
"""),
     ("""            'http://example.net/file?a=1&b=2&a=3'
        \"""
        return self._query
""", """            'http://example.net/file?a=1&b=2&a=3'
        \"""
        if self._stale:
            self._query.attach(self._url)
            self._stale = False
        return self._query
"""),
     ("""        self._query: URLSearchParams = URLSearchParams(self._url)
""", """        self._query: URLSearchParams = URLSearchParams(self._url)
        self._stale = False
""")],
    """
from urlstd.parse import URL
u = URL("http://h/?a=1")
sp = u.search_params
u.search = "?"
check(list(sp) == [], "pairs %r" % list(sp))
""")
bug("c03-weak-record", "C03", "search params that outlive the URL they were taken from",
    "search params hold their URL weakly and raise once the URL is gone",
    [('''        self._list = parse_qsl(utf8_encode(query))
        self._url = init
''', '''        self._list = parse_qsl(utf8_encode(query))
        self._url = weakref.proxy(init)
'''),
     ("import copy\n", "import copy\nimport weakref\n")],
    '''
import gc
from urlstd.parse import URL
sp = URL("http://h/?a=1").search_params
gc.collect()
try:
    sp.append("b", "2")
except ReferenceError as e:
    check(False, repr(e))
check(list(sp) == [("a", "1"), ("b", "2")], list(sp))
''')
bug("c13-reduce-href", "C13", "a URL and its search params pickled (or deep-copied) together, and changed after they were restored",
    "a restored URL makes new search params, so the ones restored with it no longer move with it",
    [('''    def __repr__(self) -> str:
        """Returns a nicely formatted representation string."""
        return (
            f"<{self.__class__.__name__}("
''', '''    def __reduce__(self):
        return self.__class__, (self.href,)

    def __repr__(self) -> str:
        """Returns a nicely formatted representation string."""
        return (
            f"<{self.__class__.__name__}("
''')],
    '''
import pickle
from urlstd.parse import URL
u = URL("http://h/?a=1")
v, sp = pickle.loads(pickle.dumps((u, u.search_params)))
check(v.search_params is sp, "search_params is another object")
sp.append("b", "2")
check(v.href == "http://h/?a=1&b=2", v.href)
''')
bug("c13-hash-index", "C13", "search params restored in a process with another hash seed",
    "an index of names by their hash is stored with the pairs and is wrong after a restart",
    [('''        query = init.query or ""
        self._list = parse_qsl(utf8_encode(query))
        self._url = init
''', '''        query = init.query or ""
        self._list = parse_qsl(utf8_encode(query))
        self._url = init
        self._index = {hash(x[0]) for x in self._list}
'''),
     ('''        self._list: list[tuple[str, str]] = []
        self._url: Optional[URLRecord] = None
''', '''        self._list: list[tuple[str, str]] = []
        self._url: Optional[URLRecord] = None
        self._index: Optional[set[int]] = None
'''),
     ('''    def _update(self) -> None:
        url = self._url
''', '''    def _update(self) -> None:
        self._index = None
        url = self._url
'''),
     ('''        name = utf8_decode(utf8_encode(name))
        for name_value in self._list:
            if name_value[0] == name:
                return name_value[1]
        return None
''', '''        name = utf8_decode(utf8_encode(name))
        if self._index is not None and hash(name) not in self._index:
            return None
        for name_value in self._list:
            if name_value[0] == name:
                return name_value[1]
        return None
''')],
    '''
import os, pickle, subprocess
from urlstd.parse import URL
blob = pickle.dumps(URL("http://h/?name=1"))
for seed in ("11", "12"):
    out = subprocess.run([sys.executable, "-B", "-c", "import sys, pickle; sys.path.insert(0, 'src'); u = pickle.loads(bytes.fromhex(sys.argv[1])); print(u.search_params.get('name'))", blob.hex()],
                         env=dict(os.environ, PYTHONHASHSEED=seed), capture_output=True, text=True)
    check(out.stdout.strip() == "1", out)
''')
bug("c13-rstrip-flag", "C13", "a record with an opaque path that ends in spaces, copied, then its fragment and query removed",
    "copies forget a field of the record that is not part of the serialisation",
    [('''    def __repr__(self) -> str:
        """Returns a nicely formatted representation string."""
        return (
            f"{self.__class__.__name__}("
            f"scheme={self.scheme!r}, "
''', '''    def __getstate__(self):
        state = self.__dict__.copy()
        if isinstance(self.path, str):
            state["path"] = self.path.rstrip(" ")
        return state

    def __setstate__(self, state) -> None:
        self.__dict__.update(state)

    def __repr__(self) -> str:
        """Returns a nicely formatted representation string."""
        return (
            f"{self.__class__.__name__}("
            f"scheme={self.scheme!r}, "
''')],
    '''
import copy, pickle
from urlstd.parse import URL, parse_url
for how in (copy.deepcopy, lambda o: pickle.loads(pickle.dumps(o))):
    u = URL("data:x  ?a=1#f")
    check(how(u).href == u.href, how(u).href)
''')
bug("c14-domain-memo", "C14", "many different domains over the life of a process",
    "every domain ever converted is kept",
    [("            ascii_domain = str(dest)\n", "            ascii_domain = str(dest)\n            if ascii_domain != domain:\n                cls._names[domain] = ascii_domain\n"),
     ("    _cache: dict[int, icu.IDNA] = {}\n", "    _cache: dict[int, icu.IDNA] = {}\n    _names: dict[str, str] = {}\n")],
    '''
import gc
from urlstd.parse import URL
def go(n):
    for i in range(n):
        URL("http://H%d.example/" % i)
go(500)
gc.collect(); a = sys.getallocatedblocks()
go(4000)
gc.collect(); b = sys.getallocatedblocks()
check(b - a < 1000, "%d blocks" % (b - a))
''')
bug("c14-undo-list", "C14", "a live URL whose search params are changed many times",
    "search params keep every query they ever had",
    [('''        serialized_query = self._serialize_query()
        if len(serialized_query) > 0:
            url.query = serialized_query
''', '''        serialized_query = self._serialize_query()
        self.__dict__.setdefault("_previous", []).append(url.query)
        if len(serialized_query) > 0:
            url.query = serialized_query
''')],
    '''
import gc
from urlstd.parse import URL
u = URL("http://h/?a=1")
def go(n):
    for i in range(n):
        u.search_params.set("a", "value %d" % i)
go(500)
gc.collect(); a = sys.getallocatedblocks()
go(4000)
gc.collect(); b = sys.getallocatedblocks()
check(b - a < 1000, "%d blocks" % (b - a))
''')
bug("c14-failed-report", "C14", "many failing validations over the life of a process",
    "the last error of every failed validation is kept in a list",
    [('''        except URLParseError:
            return False
        return True

    def equals(self, other: URL, exclude''', '''        except URLParseError as error:
            _FAILURES.append(str(error))
            return False
        return True

    def equals(self, other: URL, exclude'''),
     ("logging.setLoggerClass(_Logger)\n", "logging.setLoggerClass(_Logger)\n\n_FAILURES: list[str] = []\n")],
    '''
import gc
from urlstd.parse import URL
def go(n):
    for i in range(n):
        URL.can_parse("http://a b%d/" % i)
go(500)
gc.collect(); a = sys.getallocatedblocks()
go(4000)
gc.collect(); b = sys.getallocatedblocks()
check(b - a < 1000, "%d blocks" % (b - a))
''')
bug("c06-lazy-path", "C06", "a record resolved with a query or fragment against a live record whose path is then changed, before the new record is looked at",
    "the path of the base is taken over by reference and copied only when it is first serialised",
    [("""        if self.has_opaque_path():
            return self.path  # type: ignore
        output = ""
""", """        if self.has_opaque_path():
            return self.path  # type: ignore
        if self.__dict__.pop("_borrowed", False):
            self.path = copy.copy(self.path)
        output = ""
"""),
     ("""        url.path = copy.copy(base.path)
        url.query = base.query
        if c == "?":
            url.query = ""
            return URLParserState.QUERY_STATE, index
        elif c == "#":
            url.fragment = ""
            return URLParserState.FRAGMENT_STATE, index
        elif not iseof(c):
            url.query = None
""", """        url.path = base.path
        url.query = base.query
        if c == "?":
            url.__dict__["_borrowed"] = True
            url.query = ""
            return URLParserState.QUERY_STATE, index
        url.path = copy.copy(base.path)
        if c == "#":
            url.fragment = ""
            return URLParserState.FRAGMENT_STATE, index
        elif not iseof(c):
            url.query = None
""")],
    """
from urlstd.parse import parse_url
b = parse_url("http://h/a/b")
r = parse_url("?q", base=b)
b.path.append("c")
check(str(r) == "http://h/a/b?q", str(r))
""")
bug("c03-big-index", "C03", "search params of more than 24 pairs, read, then set without a change of their number, and read again",
    "get uses an index of the names for long lists; it is rebuilt when the number of pairs changes",
    [("""        name = utf8_decode(utf8_encode(name))
        for name_value in self._list:
            if name_value[0] == name:
                return name_value[1]
        return None
""", """        name = utf8_decode(utf8_encode(name))
        if len(self._list) > 24:
            size, index = self.__dict__.get("_index", (0, None))
            if size != len(self._list):
                index = dict(reversed(self._list))
                self._index = len(self._list), index
            return index.get(name)
        for key, value in self._list:
            if key == name:
                return value
        return None
""")],
    '''
from urlstd.parse import URL
u = URL("http://h/?" + "&".join("n%d=%d" % (i, i) for i in range(30)))
p = u.search_params
check(p.get("n3") == "3", "get")
p.set("n3", "x")
check(p.get("n3") == "x", p.get("n3"))
''')
bug("c04-path-cache", "C04", "a long path replaced by one with as many segments and the same last one",
    "the serialised form of a long path is kept until the number of segments or the last one changes",
    [("""        output = ""
        for segment in self.path:
            output += f"/{segment}"
        return output

    def serialize_url(""", """        if len(self.path) > 12:
            key = len(self.path), self.path[-1]
            if self.__dict__.get("_long_path", (None, ""))[0] != key:
                self.__dict__["_long_path"] = (
                    key, "".join([f"/{segment}" for segment in self.path])
                )
            return self.__dict__["_long_path"][1]
        output = ""
        for segment in self.path:
            output += f"/{segment}"
        return output

    def serialize_url(""")],
    '''
from urlstd.parse import URL
u = URL("http://h" + "/a" * 20 + "/z")
check(u.pathname == "/a" * 20 + "/z", "before")
u.pathname = "/b" * 20 + "/z"
check(u.pathname == "/b" * 20 + "/z", u.pathname)
''')
bug("c09-capped-report", "C09", "a validation that finds more than 16 errors",
    "only the last 16 descriptions are kept in a report, while types and count go on",
    [("""        self.descriptions.insert(0, msg % args if len(args) > 0 else msg)
        self.validation_errors += 1
""", """        self.descriptions.insert(0, msg % args if len(args) > 0 else msg)
        del self.descriptions[16:]
        self.validation_errors += 1
""")],
    '''
from urlstd.parse import URL, ValidityState
v = ValidityState()
URL.can_parse("http://h/" + "\\\\\\\\a" * 30, validity=v)
check(v.validation_errors == len(v.descriptions) == len(v.error_types), (v.validation_errors, len(v.descriptions)))
''')
bug("c11-big-iter", "C11", "more than 16 pairs, some removed while an iterator over them is in use",
    "iteration over a long list of pairs goes by position up to the length at the start",
    [("""        An iterator of this object’s items ((name, value) pairs).
        \"\"\"
        return iter(self._list)

    def __len__""", """        An iterator of this object’s items ((name, value) pairs).
        \"\"\"
        if len(self._list) > 16:
            return map(self._list.__getitem__, range(len(self._list)))
        return iter(self._list)

    def __len__""")],
    '''
from urlstd.parse import URLSearchParams
p = URLSearchParams("&".join("n%d=%d" % (i, i) for i in range(30)))
it = iter(p)
next(it)
p.delete("n20")
try:
    n = len(list(it))
except Exception as e:
    check(False, repr(e))
check(n <= 29, n)
''')
bug("c12-long-key", "C12", "two long queries of one length that differ only in the middle, parsed one after the other",
    "the pairs of the last long query are kept under a key of its length, start and end",
    [("""def potentially_rstrip_from_opaque_path(""", """_LAST_LONG: dict[Any, Any] = {}


def potentially_rstrip_from_opaque_path("""),
     ("""    sequences = query.split(b"&")
    output = []
""", """    key = len(query), query[:32], query[-32:]
    if len(query) > 200 and key in _LAST_LONG:
        return list(_LAST_LONG[key])
    sequences = query.split(b"&")
    output = []
"""),
     ("""        output.append((name, value))
    return output


""", """        output.append((name, value))
    if len(query) > 200:
        _LAST_LONG.clear()
        _LAST_LONG[key] = tuple(output)
    return output


""")],
    '''
from urlstd.parse import parse_qsl
def q(c):
    return b"a=" + b"x" * 150 + c + b"x" * 150
check(parse_qsl(q(b"1"))[0][1] == "x" * 150 + "1" + "x" * 150, "first")
check(parse_qsl(q(b"2"))[0][1] == "x" * 150 + "2" + "x" * 150, "second")
''')
bug("c01-long-buffer", "C01", "two threads percent-encoding long strings, one switched out while it fills the common buffer",
    "long strings are percent-encoded piece by piece through one common list",
    [("""    quote_via = quote_plus if space_as_plus else quote
    try:
        output = quote_via(s, safe=safe, encoding=encoding, errors="strict")
""", """    quote_via = quote_plus if space_as_plus else quote
    try:
        if len(s) > 64:
            _PIECES.clear()
            for i in range(0, len(s), 64):
                _PIECES.append(
                    quote_via(
                        s[i : i + 64],
                        safe=safe,
                        encoding=encoding,
                        errors="strict",
                    )
                )
            output = "".join(_PIECES)
        else:
            output = quote_via(
                s, safe=safe, encoding=encoding, errors="strict"
            )
"""), ("logging.setLoggerClass(_Logger)\n", "logging.setLoggerClass(_Logger)\n\n_PIECES: list[str] = []\n")],
    '''
import threading
from urlstd.parse import urlencode
sys.setswitchinterval(1e-6)
bad = []
def go(c):
    q = [(c, c * 4000)]
    want = c + "=" + c * 4000
    for _ in range(300):
        if urlencode(q) != want:
            bad.append(c)
ts = [threading.Thread(target=go, args=(c,)) for c in "abcd"]
[t.start() for t in ts]; [t.join() for t in ts]
check(not bad, "%d wrong results" % len(bad))
''')
bug("c01-cold-cache", "C01", "two first conversions in a process, one switched out between announcing the converter and storing it",
    "the converters known to exist are announced before they are stored",
    [("""    _cache: dict[int, icu.IDNA] = {}
""", """    _cache: dict[int, icu.IDNA] = {}
    _known: set[int] = set()
"""), ("""        uts46 = cls._cache.get(options)
        if uts46 is None:
            cls._cache[options] = uts46 = icu.IDNA.create_uts46_instance(
                options
            )
        return uts46
""", """        if options not in cls._known:
            cls._known.add(options)
            cls._cache[options] = icu.IDNA.create_uts46_instance(options)
        return cls._cache[options]
""")],
    NEST + '''
def cold():
    U.IDNA._cache.clear()
    getattr(U.IDNA, "_known", set()).clear()
    return str(U.URL("http://b\\u00fccher.example/"))

want = attempt(cold)
total = lines(lambda: attempt(cold))
for k in range(1, total + 1):
    other = []
    got = with_other_thread_at(k, lambda: attempt(cold), lambda: other.append(attempt(lambda: str(U.URL("http://b\\u00fccher.example/")))))
    check(got == want and all(o == want for o in other), "step %d: %r %r" % (k, got, other))
''')
bug("c01-swap-fragment", "C01", "one thread compares a URL without its fragment while another reads the same URL",
    "to serialise without the fragment, the fragment is taken off the record and put back",
    [("""        output = self.scheme + ":"
        if self.host is not None:
            output += "//"
""", """        if exclude_fragment and self.fragment is not None:
            fragment, self.fragment = self.fragment, None
            try:
                return self.serialize_url()
            finally:
                self.fragment = fragment
        output = self.scheme + ":"
        if self.host is not None:
            output += "//"
"""), ("""        if not exclude_fragment and self.fragment is not None:
            output += "#" + self.fragment
        return output
""", """        if self.fragment is not None:
            output += "#" + self.fragment
        return output
""")],
    NEST + '''
u = U.URL("http://h/p?q#frag")
v = U.URL("http://h/p?q#other")
seen = []
total = lines(lambda: u.equals(v, True))
for k in range(1, total + 1):
    got = with_other_thread_at(k, lambda: u.equals(v, True), lambda: seen.append((u.hash, str(u))))
    check(got is True, "equals")
check(set(seen) == {("#frag", "http://h/p?q#frag")}, repr(set(seen)))
''')
bug("c01-scratch-serialize", "C01", "two threads turning the same search params into text",
    "the pieces of the serialisation are collected in an attribute of the object",
    [("""    def _serialize_query(self) -> str:
        return urlencode(self._list)
""", """    def _serialize_query(self) -> str:
        self._pieces = []
        for pair in self._list:
            self._pieces.append(urlencode([pair]))
        return "&".join(self._pieces)
""")],
    NEST + '''
p = U.URLSearchParams("a=1&b=2&c=3")
race(lambda: str(p), lambda: str(p))
''')
bug("c12-assert-ipv6", "C12", "an IPv6 address with two compressions under python -O",
    "a second compression is found with an assertion",
    [("""                if compress is not None:
                    log.error(
                        "IPv6-multiple-compression: "
""", """                try:
                    assert compress is None
                except AssertionError:
                    log.error(
                        "IPv6-multiple-compression: "
""")],
    '''
import subprocess
code = "from urlstd.parse import URL; print(URL.can_parse('http://[1::2::3]/'), URL.can_parse('http://[1::2]/'))"
def run(*flags):
    r = subprocess.run([sys.executable, *flags, "-B", "-c", code], env=dict(os.environ, PYTHONPATH="src"), capture_output=True, text=True)
    return r.returncode, r.stdout
check(run() == run("-O"), "%r %r" % (run(), run("-O")))
''')
bug("c12-table-encoding", "C12", "an import in a C locale without UTF-8 mode",
    "the table of URI schemes is read in the encoding of the locale",
    [("""    "rt",
    encoding="utf-8",
) as f:
""", """    "rt",
) as f:
""")],
    '''
import subprocess
code = "from urlstd.parse import URL; print(URL('http://h/').href)"
def run(**env):
    r = subprocess.run([sys.executable, "-B", "-c", code], env=dict(os.environ, PYTHONPATH="src", **env), capture_output=True, text=True)
    return r.returncode, r.stdout
check(run() == run(LC_ALL="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0"), "import fails")
''')
FORK = NEST + '''
import select


def in_forked_child(fn, seconds=8):
    """(finished, value) of fn in a forked child"""
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            sys.settrace(None)
            os.write(w, pickle.dumps(attempt(fn)))
        finally:
            os._exit(0)
    os.close(w)
    ok = bool(select.select([r], [], [], seconds)[0])
    data = os.read(r, 1 << 20) if ok else b""
    if not ok:
        os.kill(pid, 9)
    os.close(r)
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else "did not finish"


def fork_amid(before, fn, other, step=1):
    """another thread forks at every step of fn; other() in each child must give what it gives here"""
    import warnings
    warnings.simplefilter("ignore")
    want = attempt(other)
    before()
    total = lines(lambda: attempt(fn))
    for k in range(1, total + 1, step):
        before()
        got = []
        with_other_thread_at(k, lambda: attempt(fn), lambda: got.append(in_forked_child(other)))
        check(got == [want], "fork at step %d: %r instead of %r" % (k, got, want))
'''
bug("c15-cache-lock", "C15", "a fork while another thread makes its first domain conversion",
    "a lock guards the creation of converters and nothing releases it in a forked child",
    [("""        uts46 = cls._cache.get(options)
        if uts46 is None:
            cls._cache[options] = uts46 = icu.IDNA.create_uts46_instance(
                options
            )
        return uts46
""", """        with cls._lock:
            uts46 = cls._cache.get(options)
            if uts46 is None:
                cls._cache[options] = uts46 = icu.IDNA.create_uts46_instance(
                    options
                )
            return uts46
"""), ("""    _cache: dict[int, icu.IDNA] = {}
""", """    _cache: dict[int, icu.IDNA] = {}
    _lock = threading.Lock()
"""), ("import string\n", "import string\nimport threading\n")],
    FORK + '''
def one():
    return U.IDNA._create_instance(4) is not None
fork_amid(U.IDNA._cache.clear, one, lambda: str(U.URL("http://b\\u00fccher.example/")))
''')
bug("c15-half-table", "C15", "a fork while another thread fills the table of schemes for the first time",
    "the table of registered schemes is filled in place under a lock; a forked child finds the lock free and the table half full",
    [("""        if len(scheme) > 0 and scheme in REGISTERED_SCHEMES:
            return True
""", """        if len(scheme) > 0 and scheme in _registered():
            return True
"""), ("""def cpstream(s: str)""", """_SCHEMES_LOCK = threading.Lock()
_SCHEMES: dict[str, None] = {}
if hasattr(os, "register_at_fork"):
    os.register_at_fork(
        after_in_child=lambda: _SCHEMES_LOCK._at_fork_reinit()  # type: ignore
    )


def _registered() -> dict[str, None]:
    with _SCHEMES_LOCK:
        if not _SCHEMES:
            for name in REGISTERED_SCHEMES:
                _SCHEMES[name] = None
        return _SCHEMES


def cpstream(s: str)"""), ("import string\n", "import string\nimport threading\n"), ("import logging\n", "import logging\nimport os\n")],
    FORK + '''
fork_amid(lambda: getattr(U, "_SCHEMES", {}).clear(), lambda: U.URLValidator.is_valid_url_scheme("http"), lambda: U.URLValidator.is_valid_url_scheme("ws"), 40)
''')
bug("c15-pending", "C15", "a fork while another thread is creating a converter the child needs",
    "a thread that wants a converter another thread is creating waits until that thread has stored it",
    [("""        uts46 = cls._cache.get(options)
        if uts46 is None:
            cls._cache[options] = uts46 = icu.IDNA.create_uts46_instance(
                options
            )
        return uts46
""", """        while options not in cls._cache:
            if cls._pending.setdefault(options, me := object()) is not me:
                time.sleep(0.001)
                continue
            try:
                cls._cache[options] = icu.IDNA.create_uts46_instance(options)
            finally:
                del cls._pending[options]
        return cls._cache[options]
"""), ("""    _cache: dict[int, icu.IDNA] = {}
""", """    _cache: dict[int, icu.IDNA] = {}
    _pending: dict[int, object] = {}
"""), ("import string\n", "import string\nimport time\n")],
    FORK + '''
def one():
    return U.IDNA.domain_to_ascii("b\\u00fccher") is not None
fork_amid(U.IDNA._cache.clear, one, lambda: U.IDNA.domain_to_ascii("b\\u00fccher"))
''')
bug("c15-child-reset", "C15", "conversions in a child forked after the process had converted a domain strictly",
    "after a fork the converters are created anew, all with the options of the first",
    [("""    _cache: dict[int, icu.IDNA] = {}
""", """    _cache: dict[int, icu.IDNA] = {}
    _owner = os.getpid()
"""), ("""        uts46 = cls._cache.get(options)
        if uts46 is None:
""", """        if cls._owner != os.getpid():
            cls._owner = os.getpid()
            cls._cache.update(
                dict.fromkeys(
                    cls._cache, icu.IDNA.create_uts46_instance(options)
                )
            )
        uts46 = cls._cache.get(options)
        if uts46 is None:
"""), ("import logging\n", "import logging\nimport os\n")],
    FORK + '''
def use():
    return [attempt(lambda s=s: U.IDNA.domain_to_ascii("a_b.example", s)) for s in (False, True, False)]
want = use()
got = in_forked_child(use)
check(got == ("ok", want), "child: %r" % (got,))
''')
# ---------------------------------------------------------------- C16
FAIL = NEST + '''
import threading
REAL = U.icu.IDNA


def an_error():
    ec = U.icu.ErrorCode()
    ec.set(U.icu.U_MEMORY_ALLOCATION_ERROR)
    return U.icu.ICUError(ec)


class Backend:
    """icu.IDNA whose creations call a hook first"""

    def __init__(self, hook):
        self.hook = hook

    def create_uts46_instance(self, options):
        self.hook()
        return REAL.create_uts46_instance(options)


def use():
    return U.IDNA.domain_to_ascii("b\\u00fccher.example")


def start(fn):
    out = []
    t = threading.Thread(target=lambda: out.append(attempt(fn)), daemon=True)
    t.start()
    return t, out
'''
bug("c16-single-flight", "C16", "a second thread's domain conversion that waits for a converter whose creation fails in the first",
    "threads wait for the one that is creating the converter and then take it for granted",
    [("""        uts46 = cls._cache.get(options)
        if uts46 is None:
            cls._cache[options] = uts46 = icu.IDNA.create_uts46_instance(
                options
            )
        return uts46
""", """        if options not in cls._cache:
            mine = threading.Event()
            turn = cls._pending.setdefault(options, mine)
            if turn is mine:
                try:
                    cls._cache[options] = icu.IDNA.create_uts46_instance(
                        options
                    )
                finally:
                    del cls._pending[options]
                    mine.set()
            else:
                turn.wait()
        return cls._cache[options]
"""), ("""    _cache: dict[int, icu.IDNA] = {}
""", """    _cache: dict[int, icu.IDNA] = {}
    _pending: dict[int, threading.Event] = {}
"""), ("import string\n", "import string\nimport threading\n")],
    FAIL + '''
want = attempt(use)
U.IDNA._cache.clear()
turn = []
second = []


def hook():
    if not turn:
        turn.append(1)
        second.append(start(use))
        second[0][0].join(1)
        raise an_error()


U.icu.IDNA = Backend(hook)
attempt(use)
second[0][0].join(20)
check(second[0][1] == [want], "second thread: %r" % (second[0][1],))
''')
bug("c16-double-release", "C16", "a failed conversion, then two threads converting domains at the same time",
    "result buffers are pooled, and a failed conversion returns its buffer twice",
    [("""        log = get_logger(cls)
        info = icu.IDNAInfo()
        try:
            options = (
                icu.UIDNA_CHECK_BIDI
                | icu.UIDNA_CHECK_CONTEXTJ
                | icu.UIDNA_NONTRANSITIONAL_TO_ASCII
            )
""", """        log = get_logger(cls)
        info = icu.IDNAInfo()
        try:
            dest = cls._buffers.pop()
        except IndexError:
            dest = icu.UnicodeString()
        try:
            options = (
                icu.UIDNA_CHECK_BIDI
                | icu.UIDNA_CHECK_CONTEXTJ
                | icu.UIDNA_NONTRANSITIONAL_TO_ASCII
            )
"""), ("""            uts46 = cls._create_instance(options)
            dest = icu.UnicodeString()
            uts46.name_to_ascii(
""", """            uts46 = cls._create_instance(options)
            uts46.name_to_ascii(
"""), ("""            return ascii_domain
        except icu.ICUError as e:
            errors = info.get_errors()
            log.error(
                "domain-to-ASCII: Unicode ToASCII failed: "
""", """            return ascii_domain
        except icu.ICUError as e:
            errors = info.get_errors()
            cls._buffers.append(dest)
            log.error(
                "domain-to-ASCII: Unicode ToASCII failed: "
"""), ("""            raise IDNAError(
                f"Unicode ToASCII failed: "
                f"domain={domain!r} errors=0x{errors:04X}",
                e.args[0],
            ) from None
""", """            raise IDNAError(
                f"Unicode ToASCII failed: "
                f"domain={domain!r} errors=0x{errors:04X}",
                e.args[0],
            ) from None
        finally:
            cls._buffers.append(dest)
"""), ("""    _cache: dict[int, icu.IDNA] = {}
""", """    _cache: dict[int, icu.IDNA] = {}
    _buffers: list[icu.UnicodeString] = []
""")],
    FAIL + '''
U.IDNA._cache.clear()


def hook():
    raise an_error()


U.icu.IDNA = Backend(hook)
attempt(use)
U.icu.IDNA = REAL
race(use, lambda: U.IDNA.domain_to_ascii("stra\\u00dfe.example"))
''')
bug("c16-clear-on-failure", "C16", "a conversion that fails in one thread between another's making sure of its converter and fetching it",
    "a failed conversion throws all converters away, and the cache is looked at twice",
    [("""        uts46 = cls._cache.get(options)
        if uts46 is None:
            cls._cache[options] = uts46 = icu.IDNA.create_uts46_instance(
                options
            )
        return uts46
""", """        if options not in cls._cache:
            cls._cache[options] = icu.IDNA.create_uts46_instance(options)
        return cls._cache[options]
"""), ("""        except icu.ICUError as e:
            errors = info.get_errors()
            log.error(
                "domain-to-ASCII: Unicode ToASCII failed: "
""", """        except icu.ICUError as e:
            errors = info.get_errors()
            cls._cache.clear()
            log.error(
                "domain-to-ASCII: Unicode ToASCII failed: "
""")],
    FAIL + '''
def other():
    def hook():
        raise an_error()
    U.icu.IDNA = Backend(hook)
    try:
        return U.IDNA.domain_to_ascii("a.example", True)
    finally:
        U.icu.IDNA = REAL


use()
race(use, other)
''')
bug("c16-rlock-leak", "C16", "a converter whose creation fails or is interrupted in one thread, then conversions in another",
    "a re-entrant lock around the creation of converters is not released when the creation fails; the thread that holds it does not notice",
    [("""        uts46 = cls._cache.get(options)
        if uts46 is None:
            cls._cache[options] = uts46 = icu.IDNA.create_uts46_instance(
                options
            )
        return uts46
""", """        uts46 = cls._cache.get(options)
        if uts46 is None:
            cls._lock.acquire()
            uts46 = cls._cache.get(options)
            if uts46 is None:
                uts46 = icu.IDNA.create_uts46_instance(options)
                cls._cache[options] = uts46
            cls._lock.release()
        return uts46
"""), ("""    _cache: dict[int, icu.IDNA] = {}
""", """    _cache: dict[int, icu.IDNA] = {}
    _lock = threading.RLock()
"""), ("import string\n", "import string\nimport threading\n")],
    FAIL + '''
want = attempt(use)
U.IDNA._cache.clear()


def hook():
    raise an_error()


U.icu.IDNA = Backend(hook)
attempt(use)
U.icu.IDNA = REAL
t, got = start(use)
t.join(20)
check(got == [want], "another thread: %r" % (got,))
''')
# ---------------------------------------------------------------- C17
SCARCE = '''
import logging
import urlstd.parse as U
logging.raiseExceptions = False


def depth():
    f, n = sys._getframe(1), 0
    while f is not None:
        f, n = f.f_back, n + 1
    return n


def attempt(fn):
    try:
        return "ok", fn()
    except (RecursionError, MemoryError) as e:
        return type(e).__name__, None
    except Exception as e:
        return type(e).__name__, str(e)


def little_stack(k, fn):
    old = sys.getrecursionlimit()
    sys.setrecursionlimit(depth() + 2 + k)
    try:
        return attempt(fn)
    finally:
        sys.setrecursionlimit(old)


def sweep(make, fn, look):
    """fn(make()) at every stack depth: RecursionError, or the usual result; look() sees nothing it should not"""
    x = make()
    before = look(x)
    want = attempt(lambda: fn(x))
    after = look(x)
    for k in range(1, 60):
        x = make()
        got = little_stack(k, lambda: fn(x))
        check(got in (want, ("RecursionError", None)), "%d frames: %r instead of %r" % (k, got, want))
        state = look(x)
        check(state == after if got == want else state in (before, after), "%d frames: %r: %r, neither %r nor %r" % (k, got, state, before, after))
'''
bug("c17-can-parse", "C17", "URL.can_parse called with little stack left or when memory runs out",
    "every exception counts as an invalid URL",
    [("""            _ = parse_url(url, base=_base, **kwargs)
        except URLParseError:
            return False
""", """            _ = parse_url(url, base=_base, **kwargs)
        except Exception:
            return False
""")],
    SCARCE + '''
sweep(lambda: None, lambda _: U.URL.can_parse("http://b\\u00fccher.example/p/../?q"), lambda _: None)
''')
bug("c17-query-dropped", "C17", "a search-params mutation that runs out of memory while the query is serialised",
    "a query that cannot be serialised is dropped",
    [("""        serialized_query = self._serialize_query()
        if len(serialized_query) > 0:
            url.query = serialized_query
""", """        try:
            serialized_query = self._serialize_query()
        except (MemoryError, UnicodeError):
            serialized_query = ""
        if len(serialized_query) > 0:
            url.query = serialized_query
""")],
    SCARCE + '''
import _testcapi


def low_memory(n, fn):
    import gc
    gc.disable()
    _testcapi.set_nomemory(n, n + 1)
    try:
        return attempt(fn)
    finally:
        _testcapi.remove_mem_hooks()


for n in range(1, 60):
    pid = os.fork()
    if pid == 0:
        u = U.URL("http://h/?a=1&b=2")
        got = low_memory(n, lambda: u.search_params.append("c", "3"))
        os._exit(7 if got[0] == "ok" and u.search != "?a=1&b=2&c=3" else 0)
    check(os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1]) != 7, "allocation %d fails, append returns, the query is gone" % n)
''')
bug("c17-origin-depth", "C17", "reading the origin of a blob URL with little stack left",
    "a guard against deeply nested blob URLs takes any lack of stack for such a URL",
    [("""                except URLParseError:
                    pass
            return None
""", """                except (URLParseError, RecursionError):
                    pass
            return None
""")],
    SCARCE + '''
sweep(lambda: U.URL("blob:https://b\\u00fccher.example/x"), lambda u: u.origin, lambda u: u.href)
''')
bug("c17-stashed-fragment", "C17", "a search assignment that runs out of memory or stack",
    "the fragment is taken off while the query is parsed and put back afterwards",
    [("""            url.query = ""
            BasicURLParser.parse(
                value, url=url, state_override=URLParserState.QUERY_STATE
            )
        self._query.attach(url)
""", """            url.query = ""
            fragment, url.fragment = url.fragment, None
            BasicURLParser.parse(
                value, url=url, state_override=URLParserState.QUERY_STATE
            )
            url.fragment = fragment
        self._query.attach(url)
""")],
    SCARCE + '''
sweep(lambda: U.URL("http://h/?a#frag"), lambda u: setattr(u, "search", "b c"), lambda u: u.hash)
''')
# ---------------------------------------------------------------- C18
LOOK = NEST + '''
def inside(k, fn, other):
    """run fn; at its k-th traced line the same thread runs `other`, as a log or signal handler does"""
    n = [0]

    def tr(frame, event, arg):
        if "urlstd" not in frame.f_code.co_filename:
            return None
        n[0] += 1
        if n[0] == k:
            sys.settrace(None)
            attempt(other)
            sys.settrace(tr)
        return tr
    sys.settrace(tr)
    try:
        return fn()
    finally:
        sys.settrace(None)


def watched(make, change, look, result):
    o = make()
    change(o)
    want = result(o)
    o = make()
    total = lines(lambda: change(o))
    for k in range(1, total + 1):
        o = make()
        inside(k, lambda: change(o), lambda: look(o))
        check(result(o) == want, "looked at step %d: %r instead of %r" % (k, result(o), want))
'''
bug("c18-cached-text", "C18", "the text of search params read while a pair is being appended",
    "the serialised search params are kept until the next change begins; a reader in the middle of it brings the old text back",
    [("""    def _serialize_query(self) -> str:
        return urlencode(self._list)
""", """    _text: Optional[str] = None

    def _serialize_query(self) -> str:
        if self._text is None:
            self._text = urlencode(self._list)
        return self._text
"""),
     ("""        url = self._url
        if url is None:
            return
        serialized_query""", """        url = self._url
        if url is None:
            self._text = None
            return
        serialized_query"""),
     ("""        self._list.append((name, value))
        self._update()
""", """        self._text = None
        self._list.append((name, value))
        self._update()
"""),
     ("""        query = init.query or ""
        self._list = """, """        query = init.query or ""
        self._text = None
        self._list = """),
     ("""        for i, name_value in reversed(list(enumerate(self._list))):
            if name_value[0] == name:
                if value""", """        self._text = None
        for i, name_value in reversed(list(enumerate(self._list))):
            if name_value[0] == name:
                if value"""),
     ("""        items = self._list
        found = -1
""", """        items = self._list
        self._text = None
        found = -1
"""),
     ("""        self._list.sort(
            key=""", """        self._text = None
        self._list.sort(
            key=""")],
    LOOK + '''
watched(lambda: U.URL("http://h/?a=1"), lambda u: u.search_params.append("b", "2"), lambda u: str(u.search_params), lambda u: (u.href, str(u.search_params)))
''')
bug("c18-lazy-pairs", "C18", "the search params of a URL read while its query is being assigned",
    "the pairs are parsed from the query on first use; the assignment marks them for that before it has written the query",
    [("""        query = init.query or ""
        self._list = parse_qsl(utf8_encode(query))
        self._url = init
""", """        self._pairs = None
        self._url = init

    @property
    def _list(self) -> list[tuple[str, str]]:
        if self._pairs is None:
            self._pairs = parse_qsl(utf8_encode(self._url.query or ""))
        return self._pairs

    @_list.setter
    def _list(self, pairs: list[tuple[str, str]]) -> None:
        self._pairs = pairs
"""),
     ("""    def search(self, value: str) -> None:
        url = self._url
""", """    def search(self, value: str) -> None:
        url = self._url
        self._query.attach(url)
"""),
     ("""                value, url=url, state_override=URLParserState.QUERY_STATE
            )
        self._query.attach(url)
""", """                value, url=url, state_override=URLParserState.QUERY_STATE
            )
""")],
    LOOK + '''
watched(lambda: U.URL("http://h/?a=1"), lambda u: setattr(u, "search", "b=2"), lambda u: len(u.search_params), lambda u: (u.href, list(u.search_params)))
''')
bug("c18-equals-swap", "C18", "another thread assigns the fragment while URLs are compared without fragments",
    "the comparison takes the fragment off and puts it back",
    [("""        serialized1 = self.serialize_url(exclude_fragments)
        serialized2 = other""", """        if exclude_fragments:
            fragment, self.fragment = self.fragment, None
            serialized1 = self.serialize_url()
            self.fragment = fragment
        else:
            serialized1 = self.serialize_url()
        serialized2 = other""")],
    LOOK + '''
u, v = U.URL("http://h/#a"), U.URL("http://h/#a")
total = lines(lambda: u.equals(v, True))
for k in range(1, total + 1):
    u = U.URL("http://h/#a")
    with_other_thread_at(k, lambda: u.equals(v, True), lambda: setattr(u, "hash", "new"))
    check(u.hash == "#new", (k, u.hash))
''')
bug("c01-shared-encoder", "C01", "two threads percent-encoding text that a stateful encoding cannot take whole",
    "the incremental encoder of an encoding is kept and reused by all threads",
    [("""        for b in codecs.iterencode(s, encoding, errors="xmlcharrefreplace"):
            if b""", """        for b in _iterencode(s, encoding):
            if b"""),
     ("""def u16len(s""", """_ENCODERS: dict[str, codecs.IncrementalEncoder] = {}


def _iterencode(s: str, encoding: str) -> Iterator[bytes]:
    encoder = _ENCODERS.get(encoding)
    if encoder is None:
        encoder = codecs.getincrementalencoder(encoding)("xmlcharrefreplace")
        _ENCODERS[encoding] = encoder
    encoder.reset()
    for c in s:
        b = encoder.encode(c)
        if b:
            yield b
    b = encoder.encode("", True)
    if b:
        yield b


def u16len(s""")],
    NEST + '''
race(lambda: U.string_percent_encode("\\u65e5\\U0001f308\\u672c", "~", "iso-2022-jp"), lambda: U.string_percent_encode("\\u672c\\U0001f308", "~", "iso-2022-jp"))
''')
bug("c18-locked-search", "C18", "a log handler that looks at the search params while the search of a URL is being assigned",
    "the search assignment holds a plain lock, which reading the search params takes as well",
    [("""    def search(self, value: str) -> None:
        url = self._url
""", """    def search(self, value: str) -> None:
        with _SEARCH:
            self._set_search(value)

    def _set_search(self, value: str) -> None:
        url = self._url
"""),
     ("""            '?a=1&b=2&a=3'
            >>> str(url)
            'http://example.net/file?a=1&b=2&a=3'
        \"\"\"
        return self._query
""", """            '?a=1&b=2&a=3'
            >>> str(url)
            'http://example.net/file?a=1&b=2&a=3'
        \"\"\"
        with _SEARCH:
            return self._query
"""),
     ("""class URLSearchParams(Collection):
""", """_SEARCH = __import__("threading").Lock()


class URLSearchParams(Collection):
""")],
    '''
import logging, threading
from urlstd.parse import URL

u = URL("http://h/?a=1")


class H(logging.Handler):
    def emit(self, record):
        len(u.search_params)


logging.getLogger().addHandler(H())
logging.getLogger().setLevel(logging.DEBUG)
t = threading.Thread(target=setattr, args=(u, "search", "b=\\x7f{ %zz"), daemon=True)
t.start()
t.join(10)
if t.is_alive():
    print("FAIL: the assignment never ends")
    sys.stdout.flush()
    os._exit(1)
check(list(u.search_params)[0][0] == "b", u.href)
''')
