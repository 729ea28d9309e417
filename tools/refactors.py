"""Behaviour-preserving rewrites of /repo's source: refactors.py TREE GROUP... applies them to a scratch copy.

Used to confirm that the checks judge what the code does and not how it is written (tools/quiet.sh).
"""
import re, sys

P = "src/urlstd/parse.py"
G = {}


def group(name, *edits):
    G[name] = edits


group("locks",
("""        uts46 = cls._cache.get(options)
        if uts46 is None:
            cls._cache[options] = uts46 = icu.IDNA.create_uts46_instance(
                options
            )
        return uts46
""", """        uts46 = cls._cache.get(options)
        if uts46 is not None:
            return uts46
        with cls._lock:
            uts46 = cls._cache.get(options)
            if uts46 is None:
                uts46 = icu.IDNA.create_uts46_instance(options)
                cls._cache[options] = uts46
            return uts46
"""),
("    _cache: dict[int, icu.IDNA] = {}\n", "    _cache: dict[int, icu.IDNA] = {}\n\n    _lock = threading.RLock()\n"),
("import gzip\n", "import gzip\nimport threading\n"))

group("params",
("""        for i, name_value in reversed(list(enumerate(self._list))):
            if name_value[0] == name:
                if value is not None and name_value[1] != value:
                    continue
                self._list.pop(i)
        self._update()
""", """        kept = [
            pair
            for pair in self._list
            if pair[0] != name or (value is not None and pair[1] != value)
        ]
        self._replace(kept)
"""),
("""        items = self._list
        found = -1
        for index, name_value in enumerate(items):
            if name_value[0] == name:
                found = index
                items[index] = name, value
                break
        if found == -1:
            items.append((name, value))
        else:
            index = len(items) - 1
            while index > found:
                if items[index][0] == name:
                    del items[index]
                index -= 1
        self._update()
""", """        pairs: list[tuple[str, str]] = []
        placed = False
        for pair in self._list:
            if pair[0] != name:
                pairs.append(pair)
            elif not placed:
                placed = True
                pairs.append((name, value))
        if not placed:
            pairs.append((name, value))
        self._replace(pairs)
"""),
("""    def _serialize_query(self) -> str:
""", """    def _replace(self, pairs: list[tuple[str, str]]) -> None:
        self._list = pairs
        self._update()

    def _serialize_query(self) -> str:
"""),
("""        return iter([name_value[0] for name_value in self._list])
""", """        for name, _ in tuple(self._list):
            yield name
"""),
("""        return iter([name_value[1] for name_value in self._list])
""", """        return (value for _, value in list(self._list))
"""),
("""        self._list.sort(
            key=lambda x: icu.UnicodeString(  # type: ignore
                x[0],
                u16len(x[0]),
            )
        )
        self._update()
""", """        self._replace(
            sorted(
                self._list, key=lambda x: x[0].encode("utf-16-be", "replace")
            )
        )
"""),
("""        name = utf8_decode(utf8_encode(name))
        for name_value in self._list:
            if name_value[0] == name:
                return name_value[1]
        return None
""", """        values = self.get_all(name)
        return values[0] if values else None
"""))

group("rename",
(re.compile(r"\b_list\b"), "_pairs"), (re.compile(r"self\._query\b"), "self._search_params"), (re.compile(r"\b_cache\b"), "_converters"), (re.compile(r"\b_create_instance\b"), "_converter"))

group("setters",
("""        BasicURLParser.parse(
            value, url=self._url, state_override=URLParserState.HOST_STATE
        )
""", """        self._assign(value, URLParserState.HOST_STATE)
"""),
("""        BasicURLParser.parse(
            value, url=self._url, state_override=URLParserState.HOSTNAME_STATE
        )
""", """        self._assign(value, URLParserState.HOSTNAME_STATE)
"""),
("""        BasicURLParser.parse(
            value, url=self._url, state_override=URLParserState.PORT_STATE
        )
""", """        self._assign(value, URLParserState.PORT_STATE)
"""),
("""        self._url = BasicURLParser.parse(value)
        self._query.attach(self._url)
""", """        record = BasicURLParser.parse(value)
        self._query.attach(record)
        self._url = record
"""),
("""        url.fragment = ""
        BasicURLParser.parse(
            value, url=url, state_override=URLParserState.FRAGMENT_STATE
        )
""", """        url.fragment = ""
        self._assign(value, URLParserState.FRAGMENT_STATE)
"""),
("""            if value.startswith("?"):
                value = value[1:]
            url.query = ""
            BasicURLParser.parse(
                value, url=url, state_override=URLParserState.QUERY_STATE
            )
        self._query.attach(url)
""", """            url.query = ""
            self._assign(value.removeprefix("?"), URLParserState.QUERY_STATE)
        self._query.attach(url)
"""),
("""    @property
    def search_params(self) -> URLSearchParams:
""", """    def _assign(self, value: str, state: URLParserState) -> None:
        BasicURLParser.parse(value, url=self._url, state_override=state)

    @property
    def search_params(self) -> URLSearchParams:
"""))

group("record",
("""        output = ""
        for segment in self.path:
            output += f"/{segment}"
        return output
""", """        return "".join("/" + segment for segment in self.path)
"""),
("""        del path[-1]  # type: ignore
""", """        path.pop()
"""),
("""        if isinstance(host, int):
            # IPv4 address
            return IPv4Address.serialize(host)
        elif isinstance(host, (list, tuple)):
            # IPv6 address
            return "[{}]".format(IPv6Address.serialize(host))
        return host  # type: ignore  # domain, opaque host, or empty host
""", """        if isinstance(host, (list, tuple)):
            return f"[{IPv6Address.serialize(host)}]"
        return host if isinstance(host, str) else IPv4Address.serialize(host)
"""),
(re.compile(r"copy\.copy\(base\.path\)"), "(base.path if isinstance(base.path, str) else list(base.path))"))

group("idna",
("""        log = get_logger(cls)
        info = icu.IDNAInfo()
        try:
            options = (
                icu.UIDNA_CHECK_BIDI
                | icu.UIDNA_CHECK_CONTEXTJ
                | icu.UIDNA_NONTRANSITIONAL_TO_ASCII
            )
            allowed_errors = cls._CHECK_HYPHENS_ERRORS
            if be_strict:
                options |= icu.UIDNA_USE_STD3_RULES
            else:
                allowed_errors |= cls._VERIFY_DNS_LENGTH_ERRORS
            uts46 = cls._create_instance(options)
            dest = icu.UnicodeString()
""", """        log = get_logger(cls)
        options = (
            icu.UIDNA_NONTRANSITIONAL_TO_ASCII
            | icu.UIDNA_CHECK_CONTEXTJ
            | icu.UIDNA_CHECK_BIDI
        )
        allowed_errors = cls._CHECK_HYPHENS_ERRORS
        if not be_strict:
            allowed_errors |= cls._VERIFY_DNS_LENGTH_ERRORS
        else:
            options |= icu.UIDNA_USE_STD3_RULES
        info = icu.IDNAInfo()
        try:
            dest = icu.UnicodeString()
            uts46 = cls._create_instance(options)
"""),
("""        if any(c in FORBIDDEN_DOMAIN_CODE_POINT for c in ascii_domain):
""", """        if not set(ascii_domain).isdisjoint(FORBIDDEN_DOMAIN_CODE_POINT):
"""))

group("validity",
("""        self.valid = True
        self.error_types.clear()
        self.descriptions.clear()
        self.validation_errors = 0
""", """        self.valid, self.validation_errors = True, 0
        self.error_types = []
        self.descriptions = []
"""),
("""        old = copy.deepcopy(validity)
        cls.is_valid_url_scheme(url.scheme, **kwargs)
        validity += old
        return validity.validation_errors == 0
""", """        of_scheme = ValidityState(disable_logging=validity.disable_logging)
        registered = cls.is_valid_url_scheme(
            url.scheme, **{**kwargs, "validity": of_scheme}
        )
        if not registered:
            validity.error_types[:0] = of_scheme.error_types
            validity.descriptions[:0] = of_scheme.descriptions
            validity.validation_errors += of_scheme.validation_errors
            validity.valid = False
        return registered and validity.valid
"""))

group("registry",
("""with gzip.open(
    Path(__file__).parent / "data" / "uri-schemes-1.csv.gz",
    "rt",
    encoding="utf-8",
) as f:
    REGISTERED_SCHEMES: list[str] = [
        x["URI Scheme"] for x in csv.DictReader(f.read().split("\\n"))
    ]
del f
REGISTERED_SCHEMES.remove("shttp (OBSOLETE)")
""", """
def _load_schemes() -> list[str]:
    path = Path(__file__).with_name("data") / "uri-schemes-1.csv.gz"
    text = gzip.decompress(path.read_bytes()).decode("utf-8")
    names = []
    for row in csv.DictReader(text.split("\\n")):
        names.append(row["URI Scheme"])
    names.remove("shttp (OBSOLETE)")
    return names


REGISTERED_SCHEMES: list[str] = _load_schemes()
"""))

group("logging",
("""def get_logger(context: Any) -> logging.Logger:
    name = None
    if isinstance(context, str):
        name = context
    elif hasattr(context, "__module__") and hasattr(context, "__name__"):
        name = f"{context.__module__}.{context.__name__}"
    elif hasattr(context, "__module__") and hasattr(context, "__class__"):
        name = f"{context.__module__}.{context.__class__.__name__}"
""", """def _logger_name(context: Any) -> Optional[str]:
    if isinstance(context, str):
        return context
    if hasattr(context, "__module__"):
        if hasattr(context, "__name__"):
            return f"{context.__module__}.{context.__name__}"
        return f"{context.__module__}.{type(context).__name__}"
    return None


def get_logger(context: Any) -> logging.Logger:
    name = _logger_name(context)
"""))

group("codec",
("""    params = []
    for name, value in query:
        name = string_percent_encode(
            name,
            SAFE_URLENCODED_PERCENT_ENCODE_SET,
            encoding=encoding,
            space_as_plus=True,
        )
        value = string_percent_encode(
            value,
            SAFE_URLENCODED_PERCENT_ENCODE_SET,
            encoding=encoding,
            space_as_plus=True,
        )
        params.append(f"{name}={value}")
    return "&".join(params)
""", """    def encode(text: str) -> str:
        return string_percent_encode(
            text,
            SAFE_URLENCODED_PERCENT_ENCODE_SET,
            encoding=encoding,
            space_as_plus=True,
        )

    return "&".join(f"{encode(name)}={encode(value)}" for name, value in query)
"""),
("""        name_value = (sequence.split(b"=", maxsplit=1) + [b""])[:2]
        b = name_value[0].replace(b"+", b" ")
        b = percent_decode(b)
        name = utf8_decode(b)
        b = name_value[1].replace(b"+", b" ")
        b = percent_decode(b)
        value = utf8_decode(b)
        output.append((name, value))
""", """        name, _, value = sequence.partition(b"=")
        output.append(
            (
                utf8_decode(percent_decode(name.replace(b"+", b" "))),
                utf8_decode(percent_decode(value.replace(b"+", b" "))),
            )
        )
"""))

group("parser",
("""        log = get_logger(cls)
        buffer = ""
        index = start
        for c in cpstream(urlstring[index:]):
            index += 1
            if iscp(c, ASCII_DIGITS):
                buffer += c
""", """        log = get_logger(cls)
        buffer = ""
        index = start
        while True:
            c = urlstring[index : index + 1]
            index += 1
            if c and c in ASCII_DIGITS:
                buffer += c
"""),
("""    parsed_base: Optional[URLRecord] = None
    if base is not None:
        if isinstance(base, URLRecord):
            parsed_base = base
        else:
            parsed_base = BasicURLParser.parse(
                base, encoding=encoding, **kwargs
            )
""", """    parsed_base: Optional[URLRecord]
    if base is None or isinstance(base, URLRecord):
        parsed_base = base
    else:
        parsed_base = BasicURLParser.parse(base, encoding=encoding, **kwargs)
"""))


def apply(tree, names):
    p = f"{tree}/{P}"
    s = open(p, encoding="utf-8").read()
    for n in names or [x for x in G if x != "rename"] + ["rename"]:
        for old, new in G[n]:
            if isinstance(old, re.Pattern):
                s, k = old.subn(new, s)
                ok = k > 0
            else:
                ok = s.count(old) == 1
                s = s.replace(old, new)
            if not ok:
                sys.exit(f"{n}: edit does not apply: {old!r:.120}")
    open(p, "w", encoding="utf-8").write(s)


if __name__ == "__main__":
    apply(sys.argv[1], sys.argv[2:])
