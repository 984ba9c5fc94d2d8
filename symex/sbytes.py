"""Encoded symbolic text (only what encode/decode/md5 need)."""
from . import core, isets
from .core import In, mk_and
from . import sstr
from .sstr import SymStr, char_var, from_items, concretise
from . import sint


class SymBytes(object):
    __slots__ = ("s", "enc")

    def __init__(self, s, enc):
        self.s = s
        self.enc = enc

    @property
    def __class__(self):
        return bytes

    def decode(self, encoding="utf-8", errors="strict"):
        enc = norm(encoding)
        if enc in ("unicodeescape",):
            return unicode_escape(self.s)
        if enc == self.enc or {enc, self.enc} <= {"utf8", "ascii"}:
            return self.s
        return concretise(self.s, "bytes").encode(self.enc).decode(encoding, errors)

    def __len__(self):
        if self.enc in ("ascii", "latin1"):
            return len(self.s)
        return len(self.real())

    def real(self):
        return concretise(self.s, "bytes").encode(_real(self.enc))

    def __add__(self, o):
        if type(o) is SymBytes:
            return SymBytes(self.s + o.s, self.enc)
        if isinstance(o, bytes):
            return SymBytes(self.s + o.decode("utf-8"), self.enc)
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, bytes):
            return SymBytes(o.decode("utf-8") + self.s, self.enc)
        return NotImplemented

    def __eq__(self, o):
        if type(o) is SymBytes:
            return self.s == o.s
        if isinstance(o, bytes):
            try:
                return self.s == o.decode("utf-8")
            except UnicodeDecodeError:
                return False
        return NotImplemented

    def __ne__(self, o):
        from .core import mk_not
        r = self.__eq__(o)
        return r if r is NotImplemented else mk_not(r)

    def __hash__(self):
        core.ENGINE.symkeys = True
        return id(self)

    def __bool__(self):
        return len(self.s) > 0


def norm(enc):
    return enc.lower().replace("-", "").replace("_", "")


def _real(enc):
    return {"utf8": "utf-8", "unicodeescape": "unicode_escape"}.get(enc, enc)


def encode(s, encoding="utf-8", errors="strict"):
    enc = norm(encoding)
    if enc == "utf8":
        if any(not In(v, isets.FULL) for v in s.var) or any(
                0xD800 <= ord(c) <= 0xDFFF for i, c in enumerate(s.base) if i not in s.pos):
            raise UnicodeEncodeError("utf-8", "\udc00", 0, 1, "surrogates not allowed")
        return SymBytes(s, enc)
    if enc == "ascii" and errors == "strict":
        for v in s.var:
            if not In(v, ((0, 127),)):
                raise UnicodeEncodeError("ascii", "\u0100", 0, 1, "ordinal not in range(128)")
        for i, c in enumerate(s.base):
            if ord(c) > 127 and i not in s.pos:
                raise UnicodeEncodeError("ascii", c, 0, 1, "ordinal not in range(128)")
        return SymBytes(s, enc)
    return concretise(s, "encode:" + encoding).encode(encoding, errors)


_SIMPLE = {"\n": "", "\\": "\\", "'": "'", '"': '"', "a": "\a", "b": "\b", "f": "\f",
           "n": "\n", "r": "\r", "t": "\t", "v": "\v"}


def unicode_escape(s):
    """bytes.decode('unicode-escape') of ASCII text."""
    out = []
    i = 0
    n = len(s)
    while i < n:
        if not (s[i] == "\\"):
            out.append(s[i])
            i += 1
            continue
        if i + 1 >= n:
            raise UnicodeDecodeError("unicodeescape", b"\\", 0, 1, "\\ at end of string")
        c = s[i + 1]
        width = 0
        for k, w in (("u", 4), ("U", 8), ("x", 2)):
            if c == k:
                width = w
                break
        if width:
            body = s[i + 2:i + 2 + width]
            terms, const = [], 0
            ok = len(body) == width
            if ok:
                for j in range(width):
                    it = body.item(j) if type(body) is SymStr else body[j]
                    h = sint.hex_digit(it)
                    if h is None or h[1] is None:
                        ok = False
                        break
                    terms = [(v, x * 16) for v, x in terms] + list(h[0])
                    const = const * 16 + h[1]
            if not ok:
                raise UnicodeDecodeError("unicodeescape", b"\\u", 0, 2, "truncated escape")
            val = sint.lin(terms, const)
            if width == 8 and val > isets.MAXCP:
                raise UnicodeDecodeError("unicodeescape", b"\\U", 0, 2, "illegal Unicode character")
            out.append(sint.to_chr(val))
            i += 2 + width
            continue
        done = False
        for k, v in _SIMPLE.items():
            if c == k:
                out.append(v)
                i += 2
                done = True
                break
        if done:
            continue
        if type(c) is SymStr or c in "01234567N":
            if c in "01234567N":
                # octal / named escapes: fixed to concrete text, recorded
                return from_items(out) + concretise(s[i:], "unicode-escape").encode(
                    "ascii").decode("unicode-escape")
        out.append(s[i:i + 2])
        i += 2
    return from_items(out)
