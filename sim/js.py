"""JSON that keeps every Python string apart: a code point outside the BMP and the two surrogates that would spell it in
UTF-16 are different strings, which ordinary JSON escapes would merge."""
import json as _json


def dumps(obj, **kw):
    return _json.dumps(obj, ensure_ascii=False, **kw)


def encode(obj, **kw):
    return dumps(obj, **kw).encode("utf-8", "surrogatepass")


def loads(data):
    if isinstance(data, (bytes, bytearray)):
        data = bytes(data).decode("utf-8", "surrogatepass")
    return _json.loads(data)


def save(path, obj):
    with open(path, "wb") as f:
        f.write(encode(obj, indent=1))


def read(path):
    with open(path, "rb") as f:
        return loads(f.read())


def copy(obj):
    return loads(dumps(obj))
