"""Interval sets of code points: tuples of disjoint, sorted, non-adjacent (lo, hi) pairs."""
import unicodedata

MAXCP = 0x10FFFF
FULL = ((0, 0xD7FF), (0xE000, MAXCP))      # every character except surrogates
# Default alphabet of harness inputs.  U+001C-1F and U+180E are left out: PyPy 7.3.15, the
# interpreter the repository is tested on, strips them differently from the language definition
# (and differently for ASCII and non-ASCII text).
TEXT = ((0, 0x1B), (0x20, 0x180D), (0x180F, 0xD7FF), (0xE000, MAXCP))
ALL = ((0, MAXCP),)
EMPTY = ()

_cache = {}


def norm(pairs):
    out = []
    for lo, hi in sorted(pairs):
        if lo > hi:
            continue
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1] = (out[-1][0], hi)
        else:
            out.append((lo, hi))
    return tuple(out)


def of(chars):
    return norm([(ord(c), ord(c)) for c in chars])


def inter(a, b):
    if a is b:
        return a
    key = (1, a, b)
    r = _cache.get(key)
    if r is None:
        out = []
        i = j = 0
        while i < len(a) and j < len(b):
            lo = max(a[i][0], b[j][0])
            hi = min(a[i][1], b[j][1])
            if lo <= hi:
                out.append((lo, hi))
            if a[i][1] < b[j][1]:
                i += 1
            else:
                j += 1
        r = _cache[key] = tuple(out)
    return r


def compl(a):
    key = (2, a)
    r = _cache.get(key)
    if r is None:
        out = []
        p = 0
        for lo, hi in a:
            if lo > p:
                out.append((p, lo - 1))
            p = hi + 1
        if p <= MAXCP:
            out.append((p, MAXCP))
        r = _cache[key] = tuple(out)
    return r


def minus(a, b):
    return inter(a, compl(b))


def union(*sets):
    pairs = []
    for s in sets:
        pairs.extend(s)
    return norm(pairs)


def has(a, c):
    for lo, hi in a:
        if c < lo:
            return False
        if c <= hi:
            return True
    return False


def size(a):
    return sum(hi - lo + 1 for lo, hi in a)


_pred = {}


def by_pred(name, fn):
    r = _pred.get(name)
    if r is None:
        out = []
        start = None
        for c in range(MAXCP + 1):
            if not 0xD800 <= c <= 0xDFFF and fn(chr(c)):
                if start is None:
                    start = c
            elif start is not None:
                out.append((start, c - 1))
                start = None
        if start is not None:
            out.append((start, MAXCP))
        r = _pred[name] = tuple(out)
    return r


def space():
    return by_pred("space", str.isspace)


def method_set(name):
    return by_pred("m:" + name, lambda c: getattr(c, name)())


def decimal_blocks():
    """List of (start of a block of ten decimal digits)."""
    r = _pred.get("decblocks")
    if r is None:
        r = []
        for lo, hi in by_pred("decimal", str.isdecimal):
            c = lo
            while c <= hi:
                assert unicodedata.decimal(chr(c)) == 0 and c + 9 <= hi, hex(c)
                r.append(c)
                c += 10
        _pred["decblocks"] = r
    return r
