"""Symbolic strings: concrete length per path, each position concrete or a symbolic code point."""
import bisect

from . import core, isets
from .core import In, VV, Lin, mk_and, mk_or, mk_not, SymBool

HOLE = u"\udfff"        # placeholder at symbolic positions; never a legal input character


def E():
    return core.ENGINE


def is_sym(x):
    return type(x) is SymStr


def mkstr(base, pos, var):
    if not pos:
        return base
    return SymStr(base, pos, var)


def from_items(items):
    """items: list of 1-char str or int var ids wrapped as ('v', vid)."""
    base = []
    pos = []
    var = []
    n = 0
    for it in items:
        if type(it) is SymStr:
            for p, v in zip(it.pos, it.var):
                pos.append(p + n)
                var.append(v)
            base.append(it.base)
            n += len(it.base)
        elif isinstance(it, str):
            base.append(it)
            n += len(it)
        else:
            raise TypeError("from_items: %r" % (it,))
    return mkstr("".join(base), tuple(pos), tuple(var))


def char_var(vid):
    return SymStr(HOLE, (0,), (vid,))


def from_wtf8(x):
    return x


def char_eq(a, b):
    """a, b: str of length 1 or var id."""
    if isinstance(a, str):
        if isinstance(b, str):
            return a == b
        a, b = b, a
    if isinstance(b, str):
        c = ord(b)
        return In(a, ((c, c),))
    if a == b:
        return True
    return VV(a, b)


def sstr_eq(x, y):
    """x SymStr; y SymStr or str. Returns bool or SymBool."""
    if len(x.base) != len(y.base if type(y) is SymStr else y):
        return False
    if type(y) is SymStr:
        ps = x.pos if x.pos == y.pos else sorted(set(x.pos) | set(y.pos))
        yb = y.base
        yv = dict(zip(y.pos, y.var))
    else:
        ps = x.pos
        yb = y
        yv = {}
    xv = dict(zip(x.pos, x.var))
    prev = 0
    xb = x.base
    parts = []
    for p in ps:
        if prev < p and xb[prev:p] != yb[prev:p]:
            return False
        prev = p + 1
        c = char_eq(xv.get(p, xb[p]), yv.get(p, yb[p]))
        if c is False:
            return False
        if c is not True:
            r = c.ev(core.ENGINE)
            if r is False:
                # record the pruning so that z3 re-checks it
                return _known(c, False)
            parts.append(c)
    if xb[prev:] != yb[prev:]:
        return False
    return mk_and(parts)


def _known(c, val):
    core.ENGINE.branch(c)
    return val


def match_at(s, needle, i):
    """Formula: needle occurs in s (SymStr or str) at index i (needle SymStr or str)."""
    sub = s[i:i + len(needle)]
    if len(sub) != len(needle):
        return False
    if type(sub) is SymStr:
        return sstr_eq(sub, needle)
    if type(needle) is SymStr:
        return sstr_eq(needle, sub)
    return sub == needle


WS = None


class SymStr(object):
    __slots__ = ("base", "pos", "var")

    def __init__(self, base, pos, var):
        self.base = base
        self.pos = pos
        self.var = var

    # make isinstance(x, str) true for uninstrumented code too
    @property
    def __class__(self):
        return str

    def __hash__(self):
        core.ENGINE.symkeys = True
        return id(self) ^ 0x5bd1e995

    def __len__(self):
        return len(self.base)

    def __bool__(self):
        return len(self.base) > 0

    def __repr__(self):
        return "<SymStr %r>" % (self.base.replace(HOLE, u"\u25a1"),)

    def __str__(self):
        return concretise(self)

    def __format__(self, spec):
        return format(concretise(self), spec)

    def __reduce__(self):
        raise TypeError("SymStr cannot be pickled")

    # -- item access
    def __getitem__(self, k):
        if isinstance(k, slice):
            a, b, st = k.indices(len(self.base))
            if st == 1:
                if b <= a:
                    return ""
                lo = bisect.bisect_left(self.pos, a)
                hi = bisect.bisect_left(self.pos, b)
                if lo == hi:
                    return self.base[a:b]
                return SymStr(self.base[a:b],
                              tuple([p - a for p in self.pos[lo:hi]]) if a else self.pos[lo:hi],
                              self.var[lo:hi])
            return from_items([self[i] for i in range(a, b, st)])
        if not hasattr(k, "__index__"):
            raise TypeError("string indices must be integers")
        n = len(self.base)
        k = k.__index__()
        if k < 0:
            k += n
        if not 0 <= k < n:
            raise IndexError("string index out of range")
        i = bisect.bisect_left(self.pos, k)
        if i < len(self.pos) and self.pos[i] == k:
            return SymStr(HOLE, (0,), (self.var[i],))
        return self.base[k]

    def item(self, k):
        """1-char str or var id."""
        i = bisect.bisect_left(self.pos, k)
        if i < len(self.pos) and self.pos[i] == k:
            return self.var[i]
        return self.base[k]

    def items(self):
        d = dict(zip(self.pos, self.var))
        b = self.base
        return [d.get(i, b[i]) for i in range(len(b))]

    def __iter__(self):
        for i in range(len(self.base)):
            yield self[i]

    # -- concatenation
    def __add__(self, o):
        if type(o) is SymStr:
            n = len(self.base)
            return SymStr(self.base + o.base, self.pos + tuple([p + n for p in o.pos]),
                          self.var + o.var)
        if isinstance(o, str):
            return SymStr(self.base + o, self.pos, self.var)
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            n = len(o)
            return SymStr(o + self.base, tuple([p + n for p in self.pos]), self.var)
        return NotImplemented

    def __mul__(self, n):
        if isinstance(n, int):
            return from_items([self] * max(n, 0))
        return NotImplemented

    __rmul__ = __mul__

    def __mod__(self, args):
        from .fmt import percent
        return percent(self, args)

    # -- comparison
    def __eq__(self, o):
        if self is o:
            return True
        if type(o) is SymStr or type(o) is str:
            return sstr_eq(self, o)
        if isinstance(o, str):
            return sstr_eq(self, str(o))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return mk_not(r)

    def _cmp(self, o):
        """-1/0/1 by forking."""
        n = min(len(self), len(o))
        for i in range(n):
            a = self.item(i)
            b = o.item(i) if type(o) is SymStr else o[i]
            if char_eq(a, b):
                continue
            return -1 if char_lt(a, b) else 1
        return (len(self) > len(o)) - (len(self) < len(o))

    def __lt__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return self._cmp(o) < 0

    def __le__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return self._cmp(o) <= 0

    def __gt__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return self._cmp(o) > 0

    def __ge__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return self._cmp(o) >= 0

    # -- search
    def __contains__(self, needle):
        return bool(self.contains(needle))

    def contains(self, needle):
        m = len(needle)
        if m == 0:
            return True
        parts = []
        for i in self._candidates(needle, 0, len(self.base)):
            f = match_at(self, needle, i)
            if f is True:
                return True
            if f is not False:
                parts.append(f)
        return mk_or(parts)

    def _candidates(self, needle, start, end):
        """Indices where needle may occur, ascending."""
        m = len(needle)
        last = end - m
        if last < start:
            return
        if type(needle) is SymStr:
            for i in range(start, last + 1):
                yield i
            return
        windows = []
        prev = start - 1
        for p in self.pos:
            if p >= end:
                break
            for i in range(max(p - m + 1, prev + 1, start), min(p, last) + 1):
                windows.append(i)
                prev = i
        d = self.base.find(needle, start, end)
        for w in windows:
            while 0 <= d < w:
                yield d
                d = self.base.find(needle, d + 1, end)
            if w != d:
                yield w
        while d >= 0:
            yield d
            d = self.base.find(needle, d + 1, end)

    def _range(self, start, end):
        n = len(self.base)
        a, b, _ = slice(start, end).indices(n)
        if start is not None and start > n:
            a = n + 1
        return a, b

    def find(self, needle, start=None, end=None):
        _need_str(needle)
        a, b = self._range(start, end)
        if len(needle) == 0:
            return a if a <= b and a <= len(self.base) else -1
        for i in self._candidates(needle, a, b):
            f = match_at(self, needle, i)
            if f is True or (f is not False and f):
                return i
        return -1

    def rfind(self, needle, start=None, end=None):
        _need_str(needle)
        a, b = self._range(start, end)
        if len(needle) == 0:
            return b if a <= b else -1
        for i in reversed(list(self._candidates(needle, a, b))):
            f = match_at(self, needle, i)
            if f is True or (f is not False and f):
                return i
        return -1

    def index(self, needle, start=None, end=None):
        r = self.find(needle, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, needle, start=None, end=None):
        r = self.rfind(needle, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, needle, start=None, end=None):
        a, b = self._range(start, end)
        m = len(needle)
        if m == 0:
            return max(0, b - a + 1)
        n = 0
        while True:
            i = self.find(needle, a, b)
            if i < 0:
                return n
            n += 1
            a = i + m

    def startswith(self, prefix, start=None, end=None):
        if isinstance(prefix, tuple):
            return mk_or([self.startswith(p, start, end) for p in prefix])
        _need_str(prefix)
        if start is None and end is None:
            return match_at(self, prefix, 0)
        a, b = self._range(start, end)
        if b - a < len(prefix):
            return False
        return match_at(self, prefix, a)

    def endswith(self, suffix, start=None, end=None):
        if isinstance(suffix, tuple):
            return mk_or([self.endswith(p, start, end) for p in suffix])
        _need_str(suffix)
        a, b = self._range(start, end)
        if b - a < len(suffix):
            return False
        return match_at(self, suffix, b - len(suffix))

    # -- replace / split
    def replace(self, old, new, cnt=-1):
        _need_str(old)
        _need_str(new)
        out = []
        a = 0
        if len(old) == 0:
            n = 0
            for i in range(len(self.base)):
                if cnt >= 0 and n >= cnt:
                    out.append(self[i:])
                    return from_items(out)
                out.append(new)
                out.append(self[i])
                n += 1
            if cnt < 0 or n < cnt:
                out.append(new)
            return from_items(out)
        n = 0
        while cnt < 0 or n < cnt:
            i = self.find(old, a)
            if i < 0:
                break
            out.append(self[a:i])
            out.append(new)
            a = i + len(old)
            n += 1
        if n == 0:
            return self
        out.append(self[a:])
        return from_items(out)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self._split_ws(maxsplit)
        if len(sep) == 0:
            raise ValueError("empty separator")
        out = []
        a = 0
        while maxsplit < 0 or len(out) < maxsplit:
            i = self.find(sep, a)
            if i < 0:
                break
            out.append(self[a:i])
            a = i + len(sep)
        out.append(self[a:])
        return out

    def _split_ws(self, maxsplit):
        out = []
        n = len(self.base)
        i = 0
        while True:
            while i < n and self._is_space(i):
                i += 1
            if i >= n:
                return out
            if maxsplit >= 0 and len(out) >= maxsplit:
                out.append(self[i:].rstrip())
                return out
            j = i
            while j < n and not self._is_space(j):
                j += 1
            out.append(self[i:j])
            i = j

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            # rare: reverse handling
            out = []
            s = self.rstrip()
            while len(out) < maxsplit and len(s):
                j = len(s)
                while j > 0 and not _item_space(s, j - 1):
                    j -= 1
                if j == 0:
                    break
                out.append(s[j:])
                s = s[:j].rstrip()
            if len(s):
                out.append(s)
            return out[::-1]
        out = []
        b = len(self.base)
        while len(out) < maxsplit:
            i = self.rfind(sep, 0, b)
            if i < 0:
                break
            out.append(self[i + len(sep):b])
            b = i
        out.append(self[:b])
        return out[::-1]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, "", "")
        return (self[:i], sep, self[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ("", "", self)
        return (self[:i], sep, self[i + len(sep):])

    LINE = isets.of(u"\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029")

    def splitlines(self, keepends=False):
        out = []
        n = len(self.base)
        i = j = 0
        while i < n:
            while i < n and not _in_set(self.item(i), self.LINE):
                i += 1
            eol = i
            if i < n:
                if i + 1 < n and char_eq(self.item(i), "\r") and char_eq(self.item(i + 1), "\n"):
                    i += 2
                else:
                    i += 1
                if keepends:
                    eol = i
            out.append(self[j:eol])
            j = i
        return out

    def expandtabs(self, tabsize=8):
        out = []
        col = 0
        for i in range(len(self.base)):
            it = self.item(i)
            if _in_set(it, ((9, 9),)):
                if tabsize > 0:
                    k = tabsize - col % tabsize
                    out.append(" " * k)
                    col += k
            else:
                out.append(self[i])
                col = 0 if _in_set(it, ((10, 10), (13, 13))) else col + 1
        return from_items(out)

    # -- strip
    def _is_space(self, i):
        it = self.item(i)
        if isinstance(it, str):
            return it.isspace()
        return bool(In(it, isets.space()))

    def _strip_test(self, chars):
        if chars is None:
            return self._is_space
        if type(chars) is SymStr:
            its = chars.items()
            return lambda i: bool(mk_or([char_eq(self.item(i), c) for c in its]))
        cs = isets.of(chars)
        return lambda i: bool(_in_set(self.item(i), cs))

    def strip(self, chars=None):
        t = self._strip_test(chars)
        n = len(self.base)
        a = 0
        while a < n and t(a):
            a += 1
        b = n
        while b > a and t(b - 1):
            b -= 1
        return self[a:b]

    def lstrip(self, chars=None):
        t = self._strip_test(chars)
        n = len(self.base)
        a = 0
        while a < n and t(a):
            a += 1
        return self[a:]

    def rstrip(self, chars=None):
        t = self._strip_test(chars)
        b = len(self.base)
        while b > 0 and t(b - 1):
            b -= 1
        return self[:b]

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:-len(p)] if len(p) and self.endswith(p) else self

    # -- predicates
    def _all(self, name):
        s = isets.method_set(name)
        parts = []
        for it in self.items():
            f = _in_set(it, s)
            if f is False:
                return False
            parts.append(f)
        return mk_and(parts)

    def isspace(self):
        return self._all("isspace")

    def isdigit(self):
        return self._all("isdigit")

    def isdecimal(self):
        return self._all("isdecimal")

    def isnumeric(self):
        return self._all("isnumeric")

    def isalpha(self):
        return self._all("isalpha")

    def isalnum(self):
        return self._all("isalnum")

    def isprintable(self):
        return self._all("isprintable")

    def isascii(self):
        return mk_and([_in_set(it, ((0, 127),)) for it in self.items()])

    def isidentifier(self):
        return concretise(self).isidentifier()

    def islower(self):
        return concretise(self).islower()

    def isupper(self):
        return concretise(self).isupper()

    def istitle(self):
        return concretise(self).istitle()

    # -- case
    def _case(self, name):
        fixed = isets.by_pred("fix:" + name, lambda c: getattr(c, name)() == c)
        if name in ("lower", "casefold"):
            asc, off = ((65, 90),), 32
        else:
            asc, off = ((97, 122),), -32
        out = []
        for it in self.items():
            if isinstance(it, str):
                out.append(getattr(it, name)())
            elif In(it, fixed):
                out.append(char_var(it))
            elif In(it, asc):
                e = core.ENGINE
                d = tuple((a + off, b + off) for a, b in isets.inter(e.dom[it], asc))
                v = e.new_var(d)
                e.define(Lin(((v, 1), (it, -1)), -off, "=="))
                out.append(char_var(v))
            else:
                # one representative per remaining character is not exhaustive: recorded
                out.append(getattr(concretise(char_var(it)), name)())
        return from_items(out)

    def lower(self):
        return self._case("lower")

    def upper(self):
        return self._case("upper")

    def casefold(self):
        return self._case("casefold")

    def title(self):
        return concretise(self).title()

    def capitalize(self):
        return concretise(self).capitalize()

    def swapcase(self):
        return concretise(self).swapcase()

    # -- padding
    def zfill(self, w):
        n = len(self.base)
        if n >= w:
            return self
        if n and _in_set(self.item(0), isets.of("+-")):
            return self[:1] + "0" * (w - n) + self[1:]
        return "0" * (w - n) + self

    def ljust(self, w, fill=" "):
        return from_items([self, fill * max(0, w - len(self.base))])

    def rjust(self, w, fill=" "):
        return from_items([fill * max(0, w - len(self.base)), self])

    def center(self, w, fill=" "):
        n = len(self.base)
        if n >= w:
            return self
        left = (w - n) // 2 + ((w - n) & w & 1)
        return from_items([fill * left, self, fill * (w - n - left)])

    # -- join / format
    def join(self, seq):
        out = []
        first = True
        for x in seq:
            if not first:
                out.append(self)
            first = False
            if not isinstance(x, str):
                raise TypeError("sequence item: expected str instance, %s found" % type(x).__name__)
            out.append(x)
        return from_items(out)

    def format(self, *a, **k):
        from .fmt import format_
        return format_(self, a, k)

    def format_map(self, m):
        from .fmt import format_
        return format_(self, (), m)

    def encode(self, encoding="utf-8", errors="strict"):
        from .sbytes import encode
        return encode(self, encoding, errors)

    def translate(self, table):
        out = []
        for i in range(len(self.base)):
            it = self.item(i)
            if isinstance(it, str):
                out.append(it.translate(table))
                continue
            if not isinstance(table, dict):
                out.append(concretise(char_var(it)).translate(table))
                continue
            for k, v in table.items():
                if In(it, ((k, k),)):
                    if v is None:
                        v = ""
                    elif isinstance(v, int):
                        v = chr(v)
                    out.append(v)
                    break
            else:
                out.append(char_var(it))
        return from_items(out)


def _need_str(x):
    if not isinstance(x, str):
        raise TypeError("must be str, not %s" % type(x).__name__)


def _item_space(s, i):
    return s._is_space(i) if type(s) is SymStr else s[i].isspace()


def _in_set(it, s):
    if isinstance(it, str):
        return isets.has(s, ord(it))
    return In(it, s)


def char_lt(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a < b
    if isinstance(b, str):
        n = ord(b)
        return In(a, ((0, n - 1),)) if n else False
    if isinstance(a, str):
        n = ord(a)
        return In(b, ((n + 1, isets.MAXCP),)) if n < isets.MAXCP else False
    return Lin(((a, 1), (b, -1)), 1, "<=")


_PREFER = [ord(c) for c in "ab1 "]


def concretise(s, why="str"):
    if type(s) is SymStr and why == "str":
        import sys
        f = sys._getframe(1)
        while f is not None and "/symex/" in f.f_code.co_filename:
            f = f.f_back
        if f is not None:
            why = "str at %s:%d" % (f.f_code.co_filename.split("/")[-1], f.f_lineno)
    """Fix the symbolic characters of s to concrete values. Under-approximates unless the
    domains are already singletons; recorded in the evidence."""
    if type(s) is not SymStr:
        return s
    e = core.ENGINE
    out = list(s.base)
    approx = False
    for p, v in zip(s.pos, s.var):
        d = e.dom[v]
        if len(d) == 1 and d[0][0] == d[0][1]:
            out[p] = chr(d[0][0])
            e.branch(In(v, d))
            continue
        # small domains are enumerated exactly
        n = isets.size(d)
        if n <= 12:
            for lo, hi in d:
                done = False
                for c in range(lo, hi + 1):
                    if In(v, ((c, c),)):
                        out[p] = chr(c)
                        done = True
                        break
                if done:
                    break
            else:
                raise core.PathAbort()
            continue
        approx = True
        cands = [c for c in _PREFER if isets.has(d, c)][:2]
        for c in (d[0][0], d[-1][1]):
            if c not in cands:
                cands.append(c)
        cands = cands[:e.conc_cap]
        k = e.choice(len(cands), "concretise")
        c = cands[k]
        e.assume(In(v, ((c, c),)))
        out[p] = chr(c)
    if approx:
        e.approx(why)
    return "".join(out)
