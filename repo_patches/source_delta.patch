From 4804498a0b05d9743feb06d5ef950ef1239209ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:03 +0000
Subject: [PATCH 01/14] fix: accept only digits of the radix in IPv4 numbers

int() also accepts signs, underscores, radix prefixes and surrounding
spaces, so "1_0.0.0.1", "0x0x5" and "00o7" were parsed as addresses, and a
decimal part of more than 4300 digits raised a plain ValueError or made the
host a domain.
---
 src/urlstd/parse.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index f15a6df..3e05d64 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -1186,11 +1186,14 @@ class IPv4Address:
         if len(address) == 0:
             return 0, True
 
-        try:
-            return int(address, r), validation_error
-        except ValueError:
-            pass
-        return -1, True
+        digits = {8: string.octdigits, 10: ASCII_DIGITS, 16: ASCII_HEX_DIGITS}
+        if any(c not in digits[r] for c in address):
+            return -1, True
+
+        # No part may exceed 2**32 - 1. Avoid the cost and the limitation of
+        # converting a very long string.
+        address = address.lstrip("0")[:16] or "0"
+        return int(address, r), validation_error
 
     @classmethod
     def is_ends_in_a_number(cls, address: str) -> bool:
-- 
2.43.0


From 547bf917bd3e3c02536d4bd645cc38f848c8f157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:10 +0000
Subject: [PATCH 02/14] fix: reject IPv4 addresses with any non-last part above
 255

"300.300" was accepted because the check applied only when the last part
was at most 255.
---
 src/urlstd/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 3e05d64..9c78c7f 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -1268,7 +1268,7 @@ class IPv4Address:
                 numbers,
                 **kwargs,
             )
-        if any(x > 255 for x in numbers[:-1]) and numbers[-1] <= 255:
+        if any(x > 255 for x in numbers[:-1]):
             log.error(
                 "any part but the last part of the IPv4 address is greater than 255: "
                 "%r (%r)",
-- 
2.43.0


From 2e53b54f7be7e6180cb9d15f65d17a680609f2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:49 +0000
Subject: [PATCH 03/14] fix: report very long numbers in hosts and ports as
 URLParseError

A port or an IPv4 part of more than 4300 digits raised a plain ValueError
from int(), also out of URL.can_parse() and the validators.
---
 src/urlstd/parse.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 9c78c7f..311bcae 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -864,7 +864,7 @@ more than one spot: '1::1::1'"],
                     )
                 return False
 
-            if not (0 <= int(part) <= 255):
+            if not (0 <= result[0] <= 255):
                 if validity:
                     validity.prepend(
                         "IPv4-out-of-range-part: "
@@ -1448,7 +1448,7 @@ class IPv6Address:
                     f"IPv4 part contains a leading 0 / "
                     f"there are too many IPv4 parts: {piece!r} in {address!r}"
                 )
-            elif any([int(x) > 255 for x in ipv4_pieces]):
+            elif any([len(x) > 3 or int(x) > 255 for x in ipv4_pieces]):
                 log.error(
                     "IPv4-in-IPv6-out-of-range-part: "
                     "IPv6 address with IPv4 address syntax: "
@@ -3685,17 +3685,18 @@ class BasicURLParser:
                 or state_override
             ):
                 if len(buffer) > 0:
-                    port = int(buffer)
-                    if port > 0xFFFF:
+                    buffer = buffer.lstrip("0") or "0"
+                    if len(buffer) > 5 or int(buffer) > 0xFFFF:
                         log.error(
-                            "port-out-of-range: input’s port is too big: %d in %r",
-                            port,
+                            "port-out-of-range: input’s port is too big: %s in %r",
+                            buffer,
                             urlstring,
                             **kwargs,
                         )
                         raise URLParseError(
-                            f"input’s port is too big: {port} in {urlstring!r}"
+                            f"input’s port is too big: {buffer} in {urlstring!r}"
                         )
+                    port = int(buffer)
                     if SPECIAL_SCHEMES.get(url.scheme) == port:
                         url.port = None
                     else:
-- 
2.43.0


From 11174448d7d992904297b6db7da4af6156209e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:54 +0000
Subject: [PATCH 04/14] fix: parse IPv6 addresses as the URL Standard specifies

"1:2:3:4:5:6:7::" was rejected, while ":::1", "::1.2.3.4:5" and "1.2.3.4::"
were accepted.
---
 src/urlstd/parse.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 311bcae..ac47dd0 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -1335,9 +1335,9 @@ class IPv6Address:
 
         ipv6_address = [0] * 8
         piece = ""
-        previous: Optional[str] = None
+        previous: Optional[str] = None if compress is None else ":"
         for c in cpstream(address[start:]):
-            if piece_index >= 8:
+            if piece_index >= 8 and not iseof(c):
                 log.error(
                     "IPv6-too-many-pieces: "
                     "IPv6 address contains more than 8 pieces: %r",
@@ -1424,13 +1424,17 @@ class IPv6Address:
                     f"IPv6 address has more than 6 pieces: {address!r}"
                 )
             ipv4_pieces = piece.split(".")
-            if len(ipv4_pieces) > 4 or any(
-                [
-                    len(x) == 0
-                    or any(y not in ASCII_DIGITS for y in x)
-                    or (len(x) >= 2 and x[0] == "0")
-                    for x in ipv4_pieces
-                ]
+            if (
+                not iseof(c)
+                or len(ipv4_pieces) > 4
+                or any(
+                    [
+                        len(x) == 0
+                        or any(y not in ASCII_DIGITS for y in x)
+                        or (len(x) >= 2 and x[0] == "0")
+                        for x in ipv4_pieces
+                    ]
+                )
             ):
                 log.error(
                     "IPv4-in-IPv6-invalid-code-point: "
-- 
2.43.0


From cee012558595c1145d3f404583c856bb66893629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:39 +0000
Subject: [PATCH 05/14] fix: keep the path of a file base URL for an empty
 reference

URL("", base="file:///test?test") gave "file:///test/?test".
---
 src/urlstd/parse.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index ac47dd0..3062983 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -3193,6 +3193,7 @@ class BasicURLParser:
                     )
                     url.path = []
                 return URLParserState.PATH_STATE, index - 1
+            return URLParserState.EOF, index - 1
         return URLParserState.PATH_STATE, index - 1
 
     @classmethod
-- 
2.43.0


From 3d7711ca06b112843a821abe0c385dab8941afab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:45 +0000
Subject: [PATCH 06/14] fix: treat port 0 as a port in the protocol and host
 setters

Assigning protocol "file:" to "http://h:0/" gave "file://h:0/", and
assigning an empty host to "foo://h:0/" gave "foo://:0/", which cannot be
parsed again.
---
 src/urlstd/parse.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 3062983..ee5cf21 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -3391,7 +3391,9 @@ class BasicURLParser:
                 elif (
                     state_override
                     and len(buffer) == 0
-                    and (url.includes_credentials() or url.port)
+                    and (
+                        url.includes_credentials() or url.port is not None
+                    )
                 ):
                     return URLParserState.EOF, index
                 url.host = Host.parse(buffer, url.is_not_special(), **kwargs)
@@ -3912,7 +3914,10 @@ class BasicURLParser:
                         (url.is_special() and buffer not in SPECIAL_SCHEMES)
                         or (url.is_not_special() and buffer in SPECIAL_SCHEMES)
                         or (
-                            (url.includes_credentials() or url.port)
+                            (
+                                url.includes_credentials()
+                                or url.port is not None
+                            )
                             and buffer == "file"
                         )
                         or (
-- 
2.43.0


From f4c461c439348cbf2ee396b8c12f2d8a464010e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:51 +0000
Subject: [PATCH 07/14] fix: read the URI scheme registry as UTF-8 in every
 locale

Importing the package failed with UnicodeDecodeError when the locale
encoding was ASCII.
---
 src/urlstd/parse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index ee5cf21..77435e9 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -144,7 +144,9 @@ UTF16LE_CODECS = frozenset(["utf_16_le", "utf-16le", "utf-16-le"])
 ERROR_TYPE_UNDEFINED = "undefined"
 
 with gzip.open(
-    Path(__file__).parent / "data" / "uri-schemes-1.csv.gz", "rt"
+    Path(__file__).parent / "data" / "uri-schemes-1.csv.gz",
+    "rt",
+    encoding="utf-8",
 ) as f:
     REGISTERED_SCHEMES: list[str] = [
         x["URI Scheme"] for x in csv.DictReader(f.read().split("\n"))
-- 
2.43.0


From 613314db54baf1b4a54cda5616ea1dc3ab705cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:56 +0000
Subject: [PATCH 08/14] fix: keep the path when a pathname assignment is
 rejected

The path was cleared before the value was parsed, so assigning a value that
is not a string raised TypeError and left the URL without its path.
---
 src/urlstd/parse.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 77435e9..2373436 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -2687,12 +2687,14 @@ class URL:
     def pathname(self, value: str) -> None:
         if self._url.has_opaque_path():
             return
-        self._url.path = []
+        url = copy.copy(self._url)
+        url.path = []
         BasicURLParser.parse(
             value,
-            url=self._url,
+            url=url,
             state_override=URLParserState.PATH_START_STATE,
         )
+        self._url.path = url.path
 
     @property
     def port(self) -> str:
-- 
2.43.0


From 55a9bb024915b2b6b4490fc9b7125763a37abc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:03 +0000
Subject: [PATCH 09/14] fix: do not percent-decode the arguments of
 URLSearchParams methods

append("p", "%41") stored "A" although the arguments are strings, not
urlencoded text, so that a pair could not be written and read back.
---
 src/urlstd/parse.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 2373436..1f248ba 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -2124,8 +2124,8 @@ class URLSearchParams(Collection):
             >>> list(params)
             [('a', '1'), ('b', '2'), ('a', '3')]
         """
-        name = utf8_decode(string_percent_decode(name))
-        value = utf8_decode(string_percent_decode(str(value)))
+        name = utf8_decode(utf8_encode(name))
+        value = utf8_decode(utf8_encode(str(value)))
         self._list.append((name, value))
         self._update()
 
@@ -2163,7 +2163,7 @@ class URLSearchParams(Collection):
             >>> list(params)
             [('a', '1'), ('b', '2')]
         """
-        name = utf8_decode(string_percent_decode(name))
+        name = utf8_decode(utf8_encode(name))
         for i, name_value in reversed(list(enumerate(self._list))):
             if name_value[0] == name:
                 if value is not None and name_value[1] != value:
@@ -2198,7 +2198,7 @@ class URLSearchParams(Collection):
             '1'
             >>> params.get('c')  # → None
         """
-        name = utf8_decode(string_percent_decode(name))
+        name = utf8_decode(utf8_encode(name))
         for name_value in self._list:
             if name_value[0] == name:
                 return name_value[1]
@@ -2221,7 +2221,7 @@ class URLSearchParams(Collection):
             >>> params.get_all('c')
             ()
         """
-        name = utf8_decode(string_percent_decode(name))
+        name = utf8_decode(utf8_encode(name))
         return tuple(
             [
                 name_value[1]
@@ -2244,7 +2244,7 @@ class URLSearchParams(Collection):
             *True* if a name-value pair with the specified *name* and *value* exists,
             *False* otherwise.
         """
-        name = utf8_decode(string_percent_decode(name))
+        name = utf8_decode(utf8_encode(name))
         for name_value in self._list:
             if name_value[0] == name:
                 if value is not None and name_value[1] != value:
@@ -2277,8 +2277,8 @@ class URLSearchParams(Collection):
             >>> list(params)
             [('a', '4'), ('b', '2')]
         """
-        name = utf8_decode(string_percent_decode(name))
-        value = utf8_decode(string_percent_decode(str(value)))
+        name = utf8_decode(utf8_encode(name))
+        value = utf8_decode(utf8_encode(str(value)))
         items = self._list
         found = -1
         for index, name_value in enumerate(items):
-- 
2.43.0


From b48c3f7c5a3fde3510c66436aadbdd1ef0cf22f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:09 +0000
Subject: [PATCH 10/14] fix: match int and float values in
 URLSearchParams.delete and has

The value was compared with the stored text as it is, so delete("a", 1)
never removed the pair that append("a", 1) had added.
---
 src/urlstd/parse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 1f248ba..59ad48b 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -2164,6 +2164,8 @@ class URLSearchParams(Collection):
             [('a', '1'), ('b', '2')]
         """
         name = utf8_decode(utf8_encode(name))
+        if value is not None:
+            value = utf8_decode(utf8_encode(str(value)))
         for i, name_value in reversed(list(enumerate(self._list))):
             if name_value[0] == name:
                 if value is not None and name_value[1] != value:
@@ -2245,6 +2247,8 @@ class URLSearchParams(Collection):
             *False* otherwise.
         """
         name = utf8_decode(utf8_encode(name))
+        if value is not None:
+            value = utf8_decode(utf8_encode(str(value)))
         for name_value in self._list:
             if name_value[0] == name:
                 if value is not None and name_value[1] != value:
-- 
2.43.0


From 534616901ba3fe5255b7e41fff9c57ee87a0472f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:13 +0000
Subject: [PATCH 11/14] fix: percent-encode "~" where it is not a safe
 character

urllib.parse.quote() leaves "~" alone whatever the safe characters are, but
the application/x-www-form-urlencoded percent-encode set contains it.
---
 src/urlstd/parse.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 59ad48b..3e9f671 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -353,16 +353,17 @@ def string_percent_encode(
     s = s.encode("utf-16", "surrogatepass").decode("utf-16", "replace")
     quote_via = quote_plus if space_as_plus else quote
     try:
-        return quote_via(s, safe=safe, encoding=encoding, errors="strict")
+        output = quote_via(s, safe=safe, encoding=encoding, errors="strict")
     except UnicodeEncodeError:
-        pass
-
-    output = ""
-    for b in codecs.iterencode(s, encoding, errors="xmlcharrefreplace"):
-        if b.startswith(b"&#"):
-            output += quote_via(b)  # "%26%23" ASCII-digits "%3B"
-        else:
-            output += quote_via(b, safe=safe)
+        output = ""
+        for b in codecs.iterencode(s, encoding, errors="xmlcharrefreplace"):
+            if b.startswith(b"&#"):
+                output += quote_via(b)  # "%26%23" ASCII-digits "%3B"
+            else:
+                output += quote_via(b, safe=safe)
+    if "~" not in safe:
+        # quote() never quotes U+007E (~).
+        output = output.replace("~", "%7E")
     return output
 
 
-- 
2.43.0


From fd43dcfe046a20bf016aa630fb4252d7d3228d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:18 +0000
Subject: [PATCH 12/14] fix: encode surrogate pairs in opaque paths as one code
 point

An opaque path was encoded code unit by code unit, so that a surrogate pair
became two U+FFFD there but one code point everywhere else in the URL.
---
 src/urlstd/parse.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 3e9f671..edbeecf 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -3472,19 +3472,26 @@ class BasicURLParser:
         # **opaque path state**
         del base
         log = get_logger(cls)
+        buffer = ""
         index = start
-        # TODO: Use buffer.
         for c in cpstream(urlstring[index:]):
             index += 1
-            if c == "?":
-                url.query = ""
-                return URLParserState.QUERY_STATE, index
-            elif c == "#":
-                url.fragment = ""
-                return URLParserState.FRAGMENT_STATE, index
+            if iseof(c) or iscp(c, "?#"):
+                if len(buffer) > 0:
+                    url.path += utf8_percent_encode(  # type: ignore
+                        buffer, SAFE_C0_CONTROL_PERCENT_ENCODE_SET
+                    )
+                if c == "?":
+                    url.query = ""
+                    return URLParserState.QUERY_STATE, index
+                elif c == "#":
+                    url.fragment = ""
+                    return URLParserState.FRAGMENT_STATE, index
+                # return URLParserState.EOF, index - 1
+                break
             else:
                 valid, _ = is_url_code_points(c)
-                if not iseof(c) and not valid and c != "%":
+                if not valid and c != "%":
                     _c = utf8_encode(c).decode()
                     log.info(
                         "invalid-URL-unit: "
@@ -3511,13 +3518,7 @@ class BasicURLParser:
                         index - 1,
                         **kwargs,
                     )
-                if iseof(c):
-                    # return URLParserState.EOF, index - 1
-                    break
-                else:
-                    url.path += utf8_percent_encode(  # type: ignore
-                        c, SAFE_C0_CONTROL_PERCENT_ENCODE_SET
-                    )
+                buffer += c
         return URLParserState.EOF, index - 1
 
     @classmethod
-- 
2.43.0


From 651e0768ad4095d775b23387b27a0c42cce35835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:25 +0000
Subject: [PATCH 13/14] fix: record validation errors whatever class the
 loggers have

Validation errors reach the ValidityState through the logger, so loggers
created before the package was imported, or after the application installed
another logger class, made every reported error a TypeError.
---
 src/urlstd/parse.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index edbeecf..8c50c6d 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -170,7 +170,11 @@ def get_logger(context: Any) -> logging.Logger:
         name = f"{context.__module__}.{context.__name__}"
     elif hasattr(context, "__module__") and hasattr(context, "__class__"):
         name = f"{context.__module__}.{context.__class__.__name__}"
-    return logging.getLogger(name)
+    log = logging.getLogger(name)
+    if not isinstance(log, _Logger):
+        # The logger was created while another logger class was in effect.
+        return _LoggerAdapter(log, {})  # type: ignore
+    return log
 
 
 def iscp(c: str, target: str) -> bool:
@@ -555,13 +559,13 @@ def utf8_percent_encode(s: str, safe: str, space_as_plus: bool = False) -> str:
     )
 
 
-class _Logger(logging.getLoggerClass()):  # type: ignore [misc]
+class _ValidityLogging:
     def debug(self, msg, *args, **kwargs) -> None:
         kwargs.setdefault("stacklevel", 2)
         validity: ValidityState | None = kwargs.pop("validity", None)
         if validity and validity.disable_logging:
             return
-        super().debug(msg, *args, **kwargs)
+        super().debug(msg, *args, **kwargs)  # type: ignore [misc]
 
     def error(self, msg, *args, **kwargs) -> None:
         kwargs.setdefault("stacklevel", 2)
@@ -570,7 +574,7 @@ class _Logger(logging.getLoggerClass()):  # type: ignore [misc]
             validity.prepend(msg, *args)
             if validity.disable_logging:
                 return
-        super().error(msg, *args, **kwargs)
+        super().error(msg, *args, **kwargs)  # type: ignore [misc]
 
     def info(self, msg, *args, **kwargs) -> None:
         kwargs.setdefault("stacklevel", 2)
@@ -579,7 +583,15 @@ class _Logger(logging.getLoggerClass()):  # type: ignore [misc]
             validity.prepend(msg, *args)
             if validity.disable_logging:
                 return
-        super().info(msg, *args, **kwargs)
+        super().info(msg, *args, **kwargs)  # type: ignore [misc]
+
+
+class _Logger(_ValidityLogging, logging.getLoggerClass()):  # type: ignore [misc]
+    pass
+
+
+class _LoggerAdapter(_ValidityLogging, logging.LoggerAdapter):
+    pass
 
 
 class Host:
-- 
2.43.0


From 27b9d1c668b05bb76eb60d064a30b4b774fa4637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:45 +0000
Subject: [PATCH 14/14] fix: never join lone surrogates when removing tabs and
 newlines

Removing a tab or newline between two lone surrogates turned them into a
surrogate pair, and so into one code point instead of two U+FFFD.
---
 src/urlstd/parse.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 8c50c6d..897e4e1 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -4223,7 +4223,10 @@ class BasicURLParser:
                 urlstring,
                 **kwargs,
             )
-            urlstring = ASCII_TAB_OR_NEWLINE_RE.sub("", urlstring)
+            # Convert first, so that removal never joins two lone surrogates.
+            urlstring = ASCII_TAB_OR_NEWLINE_RE.sub(
+                "", utf8_encode(urlstring).decode()
+            )
 
         state = state_override or URLParserState.SCHEME_START_STATE
         encoding = encoding.lower()
-- 
2.43.0

