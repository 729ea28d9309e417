"""The operations simulated clients choose from."""
from __future__ import annotations

import random

import core
import gen
import lib

# operations chosen by hand: every entry point, error path and option at least once
FIXED = [
    ["URL", "http://example.com/", None], ["URL", "//foo/bar", "https://example.org/baz"], ["URL", "https://bücher.example/ä?ö#ü", None],
    ["URL", "http://faß.ExAmPlE/", None], ["URL", "https://日本語。jp/", None], ["URL", "../x", ["shared", 0]], ["URL", "?new=1", ["shared", 0]],
    ["URL", "#f2", ["shared", 3]], ["URL", "x", ["shared", 3]], ["URL", "y", ["shared", 1]], ["URL", "/z", ["shared", 1]], ["URL", "C|/d", ["shared", 1]],
    ["URL", "http://a b/", None], ["URL", "http://[1:2]/", None], ["URL", "http://1.2.3.4.5/", None], ["URL", "http://300.1.1.1/", None],
    ["URL", "http://xn--a/", None], ["URL", "https://u:p@h:99999/", None], ["URL", "http://user@/www", None], ["URL", "ht tp:x", None],
    ["parse_url", "http://h/?ü=é", None, "windows-1252"], ["parse_url", "http://h/?ü=é", None, "utf-8"], ["parse_url", "http://h/?ü=🌈", None, "windows-1252"],
    ["parse_url", "http://h/?日本", None, "shift_jis"], ["parse_url", "ws://h/?日本", None, "shift_jis"], ["parse_url", "y?é", ["shared", 2], "windows-1251"],
    ["parse_url", "#f", "http://h/p/a?ü=é", "windows-1252"], ["parse_url", "", "http://h/p/a?ü=é", "utf-8"], ["urlparse", "#f", "http://h/p/a;b?ü=é", "windows-1252", False],
    ["uv", "#f", "http://h/p/a?ü=é", "windows-1252", "quiet"],
    ["basic", "a/b/../c", ["shared", 2], "utf-8"], ["basic", "a/b/../c", ["shared", 4], "utf-8"], ["basic", "blob:https://h/x", None, "utf-8"],
    ["urlparse", "http://u:p@h:8080/a;b;c?q#f", None, "utf-8", True], ["urlparse", "http://u:p@h:8080/a;b;c?q#f", None, "utf-8", False],
    ["urlparse", "z;p", "http://h/a/b?q", "utf-8", False],
    ["can_parse", "http://example.com/", None, "quiet"], ["can_parse", " http://exa mple.com/", None, "quiet"], ["can_parse", "//x", None, "quiet"],
    ["can_parse", "http:\\\\h\\p q%", None, "quiet"], ["can_parse", "../%zz", ["shared", 0], "quiet"], ["can_parse", "x", ["shared", 5], "quiet"],
    ["can_parse", "http://bücher/", None, None], ["can_parse", "http://u:p@h/", "http://x/", "quiet"],
    ["uv", "https://bücher.example/", None, "utf-8", "quiet"], ["uv", "foo://x/ y", None, "utf-8", "quiet"], ["uv", "http://h/ä b%", None, "utf-8", "quiet"],
    ["uv", "file:c:\\x", None, "utf-8", "quiet"], ["uv", "unregistered:x", None, "utf-8", "quiet"], ["uv", "http://1.2/", None, "utf-8", "quiet"],
    ["uv", "mailto:a b", None, "utf-8", None], ["scheme", "http", "quiet"], ["scheme", "bogus", "quiet"], ["scheme", "", "quiet"], ["scheme", "view-source", None],
    ["hv", "is_valid", "example.com", "quiet"], ["hv", "is_valid", "a_b.example", "quiet"], ["hv", "is_valid", "1.2.3.4", "quiet"], ["hv", "is_valid", "1.2.3", "quiet"],
    ["hv", "is_valid", "[::1]", "quiet"], ["hv", "is_valid", "[::g]", "quiet"], ["hv", "is_valid_domain", "a\u200cb", "quiet"], ["hv", "is_valid_domain", "bücher.de", "quiet"],
    ["hv", "is_valid_domain", "-a.b-", "quiet"], ["hv", "is_valid_domain", "a..b", "quiet"], ["hv", "is_valid_domain", "xn--bcher-kva.de", None],
    ["hv", "is_valid_ipv4_address", "1.2.3.256", "quiet"], ["hv", "is_valid_ipv4_address", "0x1.2.3.4", "quiet"], ["hv", "is_valid_ipv6_address", "1:2::3::4", "quiet"],
    ["hv", "is_valid_ipv6_address", "::1.2.3.4", "quiet"], ["hv", "is_valid_opaque_host", "a b", "quiet"], ["hv", "is_valid_opaque_host", "a%zz", "quiet"],
    ["hv", "is_valid_opaque_host", "", "quiet"], ["hv", "is_valid_opaque_host", "[::1]", "quiet"],
    ["host", "EX%41MPLE.com", False, "quiet"], ["host", "0x7f.1", False, "quiet"], ["host", "a<b", True, "quiet"], ["host", "a%zzé", True, "quiet"],
    ["host", "[1:0:0:2::3]", False, "quiet"], ["ascii", "bücher.example", False, "quiet"], ["ascii", "bücher.example", True, "quiet"],
    ["ascii", "a_b", False, "quiet"], ["ascii", "a_b", True, "quiet"], ["ascii", "a..b", False, "quiet"], ["ascii", "a..b", True, "quiet"], ["ascii", "", False, "quiet"],
    ["ascii", "xn--a", False, "quiet"], ["unicode", "xn--bcher-kva.example", False, "quiet"], ["unicode", "a_b", True, "quiet"], ["unicode", "xn--a", False, "quiet"],
    ["unicode", "XN--FA-HIA.de", True, "quiet"], ["ascii", "faß.de", False, None], ["unicode", "faß.de", False, None],
    ["qsl", b"a=1&b=%41+c&&=x&y".hex()], ["urlencode", [["a b", "é"], ["x", "~!*"]], "utf-8"], ["urlencode", [["é", "ü🌈"]], "windows-1252"],
    ["pe", "El Niño/", "/", "utf-8", False], ["pe", "El Niño/🌈", "/", "windows-1252", True], ["pd", "%ff%41é%zz"], ["u8e", "x\ud83cy"], ["u8d", "61ff62"], ["u8pe", "a é", "", True],
    ["usp", "?a=1&b=2&a=3", [["append", "c", 4], ["delete", "a", "3"], ["set", "b", "x y"], ["sort"], ["get_all", "a"], ["has", "c", "4"]]],
    ["usp", ["list", [["z", "1"], ["🌈", "2"], ["ﬃ", "3"], ["a", "4"]]], [["sort"], ["get", "z"]]], ["usp", ["dict", [["a", 1], ["b", 2.5]]], [["append", "%41", "%zz"]]],
    ["hist", "http://example.com:8080/a?x=1#f", None, [["set", "port", "0"], ["append", "y", "2"], ["set", "hash", ""], ["set", "protocol", "https"], ["set", "pathname", "/ä/../b"]]],
    ["hist", "data:x  ?a=1#f", None, [["delete", "a"], ["set", "hash", ""], ["set", "search", "?q=z"]]],
    ["hist", "../r?s=t", ["shared", 0], [["set", "host", "bücher.example:81"], ["set", "username", "ü"], ["sort"]]],
    ["hist", "foo://h/p", None, [["set", "hostname", "x y"], ["set", "host", "[::2]"], ["set", "href", "http://new/?k=v"], ["append", "k2", "v2"]]],
    ["hist", "file:///C:/a", None, [["set", "pathname", "/D|/x/../y"], ["set", "host", "server"], ["set", "protocol", "http"]]],
    ["pe", "日🌈本", "~", "iso-2022-jp", False], ["pe", "é日", "", "iso-2022-jp", True], ["urlencode", [["🌈日", "本"], ["é日", "x"]], "iso-2022-jp"],
    ["urlencode", [["名🌈", "日é"]], "iso-2022-jp"], ["parse_url", "http://h/?日🌈本", None, "iso-2022-jp"], ["parse_url", "http://h/?日本", None, "iso-2022-jp"],
    ["parse_url", "http://h/?é日", None, "gb18030"], ["basic", "http://h/?é日🌈", None, "iso-2022-jp"],
    ["origin", "blob:https://h:443/x", "https://h/"], ["origin", "http://h:81/", "http://h/"], ["origin", "file:///x", "http://h/"],
    ["equals", "http://h/#a", "http://h/#b", True], ["equals", "http://H/%7E", "http://h/~", False],
]


def _long(c):
    """Long inputs; those of one kind differ only in the middle."""
    q = "&".join(f"n{i}=v{i}" for i in range(20)) + f"&m={c}&" + "&".join(f"o{i}={i}" for i in range(20))
    p = "/a" * 20 + "/" + c + "/z" * 20
    return [
        ["URL", "http://h" + p + "?" + q + "#" + "f" * 60 + c + "g" * 60, None], ["parse_url", "http://h/?" + "é" * 40 + c + "é" * 40, None, "windows-1252"],
        ["can_parse", "http://h/" + "\\a" * 25 + c + "\\a" * 25, None, "quiet"], ["uv", "http://h/" + " %" * 25 + c + " %" * 25, None, "utf-8", "quiet"],
        ["uv", "foo://h/" + "{" * 12 + c + "{" * 12, None, "utf-8", "quiet"], ["hv", "is_valid_opaque_host", "a%" * 10 + c + "^%" * 10, "quiet"],
        ["hv", "is_valid_domain", "a." * 30 + c + ".b" * 30, "quiet"], ["ascii", "bücher." * 8 + c + ".bücher" * 8, False, "quiet"], ["host", "a%41" * 30 + c + "%41" * 30, True, "quiet"],
        ["qsl", ("a=" + "x" * 150 + c + "x" * 150).encode().hex()], ["qsl", q.encode().hex()], ["urlencode", [["a", "x" * 150 + c + "y" * 150]], "utf-8"],
        ["urlencode", [[f"n{i}", "é"] for i in range(20)] + [["m", c]] + [[f"o{i}", "🌈"] for i in range(20)], "windows-1252"], ["pe", "é" * 100 + c + "é" * 100, "", "utf-8", False],
        ["pd", "%41" * 60 + c + "%42" * 60], ["u8pe", "é " * 60 + c + "é " * 60, "", True],
        ["usp", q, [["get", "m"], ["set", "m", c + c], ["get", "m"], ["sort"], ["delete", "n3"], ["get_all", "o5"]]],
        ["hist", "http://h" + p + "?" + q, None, [["set", "pathname", p.replace("/z", "/y")], ["get", "href"], ["set", "search", "?" + q], ["append", "m", c]]],
    ]


FIXED += _long("1") + _long("2")


def bare(op):
    """The same validation or conversion without a report of the caller's, or None."""
    return op[:-1] + [None] if op[-1] == "quiet" else None


def family(op):
    """Operations of one family run the same code."""
    return (op[0], op[1]) if op[0] == "hv" else (op[0],)


def make(seed, n, log=False, shared=True):
    """FIXED plus n drawn operations (the same for every worker and every run of one VERIF_SEED)."""
    r = random.Random(core.h("pool", seed, n, log, shared))
    out = [op for op in FIXED if shared or '"shared"' not in __import__("json").dumps(op)]
    out += [bare(op) for op in out if bare(op) is not None]
    total = len(out) + n
    while len(out) < total:
        g = gen.Gen(r, largest=24)
        for _ in range(6):
            op = lib.gen_op(g, r, log=log, shared=shared)
            if len(repr(op)) < 1200:
                out.append(op)
    return out
