"""json.loads / json.dumps (standard library contract), executed symbolically."""


import json


class Bad(json.JSONDecodeError):
    def __init__(self, msg):
        json.JSONDecodeError.__init__(self, msg, "", 0)


WS = " \t\n\r"
HEX = "0123456789abcdefABCDEF"
ESC = {'"': '"', "\\": "\\", "/": "/", "b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t"}


def number_value(text):
    return float(text)


class Decoder(object):
    def __init__(self, s, pairs_hook=None, hook=None):
        self.s = s
        self.n = len(s)
        self.hook = hook
        self.pairs_hook = pairs_hook

    def ws(self, i):
        s = self.s
        while i < self.n and s[i] in WS:
            i += 1
        return i

    def value(self, i):
        s = self.s
        if i >= self.n:
            raise Bad("Expecting value: (char %d)" % i)
        c = s[i]
        if c == '"':
            return self.string(i + 1)
        if c == "{":
            return self.obj(i + 1)
        if c == "[":
            return self.arr(i + 1)
        if c in "-0123456789":
            return self.number(i)
        for word, val in (("true", True), ("false", False), ("null", None),
                          ("NaN", float("nan")), ("Infinity", float("inf"))):
            if s.startswith(word, i):
                return val, i + len(word)
        raise Bad("Expecting value: (char %d)" % i)

    def number(self, i):
        s, n = self.s, self.n
        j = i
        if s[j] == "-":
            j += 1
            if s.startswith("Infinity", j):
                return float("-inf"), j + 8
        if j >= n or s[j] not in "0123456789":
            raise Bad("Expected digit: (char %d)" % j)
        if s[j] == "0":
            j += 1
        else:
            while j < n and s[j] in "0123456789":
                j += 1
        end = j
        isf = False
        if j < n and s[j] == ".":
            j += 1
            if j >= n or s[j] not in "0123456789":
                raise Bad("Expected digit: (char %d)" % j)
            while j < n and s[j] in "0123456789":
                j += 1
            isf = True
            end = j
        if j < n and s[j] in "eE":
            j += 1
            if j < n and s[j] in "+-":
                j += 1
            if j < n and s[j] in "0123456789":
                while j < n and s[j] in "0123456789":
                    j += 1
                isf = True
                end = j
        text = s[i:end]
        return (number_value(text) if isf else int(text)), end

    def string(self, i):
        s, n = self.s, self.n
        out = []
        while True:
            if i >= n:
                raise Bad("Unterminated string")
            c = s[i]
            if c == '"':
                return "".join(out), i + 1
            if c == "\\":
                i += 1
                if i >= n:
                    raise Bad("Unterminated string")
                c = s[i]
                if c == "u":
                    cp = self.hex4(i + 1)
                    i += 5
                    if 0xd800 <= cp <= 0xdbff and s.startswith("\\u", i):
                        lo = self.hex4(i + 2)
                        if 0xdc00 <= lo <= 0xdfff:
                            cp = 0x10000 + ((cp - 0xd800) * 1024 + (lo - 0xdc00))
                            i += 6
                    out.append(chr(cp))
                    continue
                if c not in '"\\/bfnrt':
                    raise Bad("Invalid \\escape")
                for k in '"\\/bfnrt':
                    if c == k:
                        out.append(ESC[k])
                        break
                i += 1
                continue
            if c < " ":
                raise Bad("Invalid control character at (char %d)" % i)
            out.append(c)
            i += 1

    def hex4(self, i):
        t = self.s[i:i + 4]
        if len(t) < 4:
            raise Bad("Invalid \\uXXXX escape")
        for ch in t:
            if ch not in HEX:
                raise Bad("Invalid \\uXXXX escape")
        return int(t, 16)

    def obj(self, i):
        pairs = []
        i = self.ws(i)
        if i < self.n and self.s[i] == "}":
            return self.make(pairs), i + 1
        while True:
            i = self.ws(i)
            if i >= self.n or self.s[i] != '"':
                raise Bad("Key name must be string at char %d" % i)
            k, i = self.string(i + 1)
            i = self.ws(i)
            if i >= self.n or self.s[i] != ":":
                raise Bad("No ':' found at char %d" % i)
            i = self.ws(i + 1)
            v, i = self.value(i)
            pairs.append((k, v))
            i = self.ws(i)
            if i >= self.n:
                raise Bad("Unterminated object")
            c = self.s[i]
            if c == "}":
                return self.make(pairs), i + 1
            if c != ",":
                raise Bad("Unexpected character when decoding object (char %d)" % i)
            i += 1

    def make(self, pairs):
        if self.pairs_hook is not None:
            return self.pairs_hook(pairs)
        d = {}
        for k, v in pairs:
            d[k] = v
        if self.hook is not None:
            return self.hook(d)
        return d

    def arr(self, i):
        out = []
        i = self.ws(i)
        if i < self.n and self.s[i] == "]":
            return out, i + 1
        while True:
            i = self.ws(i)
            v, i = self.value(i)
            out.append(v)
            i = self.ws(i)
            if i >= self.n:
                raise Bad("Unterminated array")
            c = self.s[i]
            if c == "]":
                return out, i + 1
            if c != ",":
                raise Bad("Unexpected character when decoding array (char %d)" % i)
            i += 1


def loads(s, object_pairs_hook=None, object_hook=None):
    if not isinstance(s, str):
        raise TypeError("the JSON object must be str, bytes or bytearray, not %s"
                        % type(s).__name__)
    if s.startswith("\ufeff"):
        raise Bad("Unexpected UTF-8 BOM (decode using utf-8-sig)")
    d = Decoder(s, object_pairs_hook, object_hook)
    i = d.ws(0)
    v, i = d.value(i)
    i = d.ws(i)
    if i != d.n:
        raise Bad("Extra data (char %d)" % i)
    return v


def quote(s, ascii_):
    out = ['"']
    for c in s:
        if c == '"':
            out.append('\\"')
        elif c == "\\":
            out.append("\\\\")
        elif c < " ":
            if c == "\n":
                out.append("\\n")
            elif c == "\r":
                out.append("\\r")
            elif c == "\t":
                out.append("\\t")
            elif c == "\b":
                out.append("\\b")
            elif c == "\f":
                out.append("\\f")
            else:
                out.append("\\u%04x" % ord(c))
        elif ascii_ and c > "~":
            out.append(uesc(c))
        else:
            out.append(c)
    out.append('"')
    return "".join(out)


def uesc(c):
    n = ord(c)
    if n < 0x10000:
        return "\\u%04x" % n
    n -= 0x10000
    return "\\u%04x\\u%04x" % (0xd800 + n // 1024, 0xdc00 + n % 1024)


def dumps(x, ensure_ascii=True, indent=None, separators=None, sort_keys=False, level=0):
    if x is None:
        return "null"
    if x is True:
        return "true"
    if x is False:
        return "false"
    if isinstance(x, str):
        return quote(x, ensure_ascii)
    if isinstance(x, int):
        return str(x)
    if isinstance(x, float):
        return repr(x)
    isep, ksep = separators if separators is not None else (
        (", ", ": ") if indent is None else (",", ": "))
    if indent is not None and not isinstance(indent, str):
        indent = " " * indent
    if indent is None:
        open_ = close = ""
    else:
        open_ = "\n" + indent * (level + 1)
        isep = isep + open_
        close = "\n" + indent * level
    if isinstance(x, (list, tuple)):
        if not x:
            return "[]"
        return "[" + open_ + isep.join(
            [dumps(y, ensure_ascii, indent, separators, sort_keys, level + 1) for y in x]) \
            + close + "]"
    if isinstance(x, dict):
        if not x:
            return "{}"
        items = list(x.items())
        if sort_keys:
            items = sorted(items)
        parts = []
        for k, v in items:
            if not isinstance(k, str):
                k = dumps(k)
            parts.append(quote(k, ensure_ascii) + ksep + dumps(
                v, ensure_ascii, indent, separators, sort_keys, level + 1))
        return "{" + open_ + isep.join(parts) + close + "}"
    raise TypeError("Object of type %s is not JSON serializable" % type(x).__name__)
