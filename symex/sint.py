"""Symbolic integers: linear expressions over engine variables."""
from . import core, isets
from .core import Lin, In, mk_or, mk_and, mk_not


def is_symint(x):
    return type(x) is SymInt


def lin(terms, k):
    d = {}
    for v, c in terms:
        d[v] = d.get(v, 0) + c
    t = tuple(sorted((v, c) for v, c in d.items() if c))
    if not t:
        return k
    return SymInt(t, k)


def _parts(x):
    if type(x) is SymInt:
        return x.t, x.k
    if isinstance(x, (bool, int)):
        return (), int(x)
    return None


class SymInt(object):
    __slots__ = ("t", "k")

    def __init__(self, t, k):
        self.t = t
        self.k = k

    @property
    def __class__(self):
        return int

    def __repr__(self):
        return "<SymInt %r+%d>" % (self.t, self.k)

    def __hash__(self):
        core.ENGINE.symkeys = True
        return id(self) ^ 0x3bd1e995

    def _bin(self, o, sign_s, sign_o):
        p = _parts(o)
        if p is None:
            return NotImplemented
        return lin([(v, c * sign_s) for v, c in self.t] + [(v, c * sign_o) for v, c in p[0]],
                   self.k * sign_s + p[1] * sign_o)

    def __add__(self, o):
        return self._bin(o, 1, 1)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, 1, -1)

    def __rsub__(self, o):
        return self._bin(o, -1, 1)

    def __neg__(self):
        return lin([(v, -c) for v, c in self.t], -self.k)

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if self < 0 else self

    def __mul__(self, o):
        if type(o) is SymInt:
            return self * concretise_int(o)
        if not isinstance(o, int):
            if isinstance(o, (str, list, tuple)):
                return o * concretise_int(self)
            return NotImplemented
        return lin([(v, c * o) for v, c in self.t], self.k * o)

    __rmul__ = __mul__

    def __divmod__(self, o):
        if type(o) is SymInt or o <= 0:
            a, b = concretise_int(self), concretise_int(o)
            return divmod(a, b)
        e = core.ENGINE
        lo, hi = Lin(self.t, self.k, "<=").bounds(e)
        if lo is None or lo < 0:
            # make the quotient non-negative by an offset multiple of o
            if lo is None:
                return divmod(concretise_int(self), o)
            off = (-lo + o - 1) // o
            q, r = divmod(self + off * o, o)
            return q - off, r
        q = e.new_var(((lo // o, hi // o),), "int")
        r = e.new_var(((0, o - 1),), "int")
        # self - o*q - r == 0
        e.define(Lin(tuple(self.t) + ((q, -o), (r, -1)), self.k, "=="))
        return lin([(q, 1)], 0), lin([(r, 1)], 0)

    def __floordiv__(self, o):
        return divmod(self, o)[0]

    def __mod__(self, o):
        return divmod(self, o)[1]

    def __truediv__(self, o):
        return concretise_int(self) / o

    def __pow__(self, o):
        return concretise_int(self) ** o

    def _rel(self, o, op):
        p = _parts(o)
        if p is None:
            return NotImplemented
        if op == "lt":      # s - o + 1 <= 0
            d = self - o + 1
        elif op == "le":
            d = self - o
        elif op == "gt":
            d = (-self) + o + 1
        elif op == "ge":
            d = (-self) + o
        else:
            d = self - o
            if type(d) is not SymInt:
                return d == 0
            return Lin(d.t, d.k, "==")
        if type(d) is not SymInt:
            return d <= 0
        return Lin(d.t, d.k, "<=")

    def __lt__(self, o):
        return self._rel(o, "lt")

    def __le__(self, o):
        return self._rel(o, "le")

    def __gt__(self, o):
        return self._rel(o, "gt")

    def __ge__(self, o):
        return self._rel(o, "ge")

    def __eq__(self, o):
        return self._rel(o, "eq")

    def __ne__(self, o):
        r = self._rel(o, "eq")
        return r if r is NotImplemented else mk_not(r)

    def __bool__(self):
        return bool(mk_not(self._rel(0, "eq")))

    def __index__(self):
        return concretise_int(self)

    __int__ = __index__

    def __float__(self):
        return float(concretise_int(self))

    def __str__(self):
        return str(concretise_int(self))

    def __format__(self, spec):
        return format(concretise_int(self), spec)


def concretise_int(x):
    if type(x) is not SymInt:
        return x
    e = core.ENGINE
    lo, hi = Lin(x.t, x.k, "<=").bounds(e)
    if lo is not None and hi - lo <= 16:
        for c in range(lo, hi + 1):
            if x == c:
                return c
        raise core.PathAbort()
    base = [e.dom_smt(v) for v in range(len(e.dom))] + [d.smt(e) for d in e.decisions]
    # choose up to conc_cap values deterministically: min, max of the interval reasoning
    cands = []
    for c in (lo, hi, (lo + hi) // 2 if lo is not None else None):
        if c is not None and c not in cands:
            cands.append(c)
    k = e.choice(len(cands), "concretise-int")
    f = (x == cands[k])
    e.assume(f)
    e.approx("int")
    return cands[k]


def to_str(x):
    """Decimal representation of a SymInt as a (symbolic) string, exact."""
    from .sstr import char_var, from_items
    e = core.ENGINE
    neg = False
    if x < 0:
        neg = True
        x = -x
    n = 1
    while not (x < 10 ** n):
        n += 1
        if n > 30:
            return str(concretise_int(x))
    if type(x) is not SymInt:
        return ("-" if neg else "") + str(x)
    digs = [e.new_var(((48 if i else (49 if n > 1 else 48), 57),)) for i in range(n)]
    # x == sum 10^k (d - 48)
    t = list(x.t)
    k = x.k
    for i, d in enumerate(digs):
        w = 10 ** (n - 1 - i)
        t.append((d, -w))
        k += 48 * w
    e.define(Lin(tuple(t), k, "=="))
    return from_items((["-"] if neg else []) + [char_var(d) for d in digs])


def to_hex(x, upper=False):
    """Hexadecimal digits of a non-negative SymInt."""
    from .sstr import char_var, from_items
    e = core.ENGINE
    if x < 0:
        return from_items(["-", to_hex(-x, upper)])
    n = 1
    while not (x < 16 ** n):
        n += 1
    if type(x) is not SymInt:
        return "%X" % x if upper else "%x" % x
    digs = [e.new_var(((1 if n > 1 and not i else 0, 15),), "int") for i in range(n)]
    t = list(x.t)
    for i, d in enumerate(digs):
        t.append((d, -16 ** (n - 1 - i)))
    e.define(Lin(tuple(t), x.k, "=="))
    out = []
    for d in digs:
        small = e.branch(In(d, ((0, 9),)))
        c = e.new_var((((48, 57) if small else (65, 70) if upper else (97, 102)),))
        e.define(Lin(((d, 1), (c, -1)), 48 if small else (55 if upper else 87), "=="))
        out.append(char_var(c))
    return from_items(out)


def parse_int(s, base=10):
    """int(SymStr)."""
    from .sstr import SymStr, concretise
    if base == 16:
        return parse_hex(s)
    if base in (2, 8) and type(s) is SymStr:
        r = parse_small(s, base)
        if r is not None:
            return r
    if base != 10:
        return int(concretise(s), base)
    s = s.strip()
    neg = False
    if len(s) and s[0] in ("+", "-"):
        neg = (s[0] == "-")
        neg = bool(neg)
        s = s[1:]
    if not len(s):
        raise ValueError("invalid literal for int() with base 10")
    terms = []
    const = 0
    prev_us = True
    e = core.ENGINE
    if type(s) is str:
        v = int(s)          # raises ValueError as the builtin would
        return -v if neg else v
    for i in range(len(s)):
        it = s.item(i)
        if isinstance(it, str):
            if it == "_":
                if prev_us:
                    raise ValueError("invalid literal for int()")
                prev_us = True
                continue
            if not it.isdecimal():
                raise ValueError("invalid literal for int()")
            const = const * 10 + int(it)
            terms = [(v, c * 10) for v, c in terms]
            prev_us = False
            continue
        if In(it, ((48, 57),)):
            terms = [(v, c * 10) for v, c in terms] + [(it, 1)]
            const = const * 10 - 48
            prev_us = False
        elif In(it, ((95, 95),)):
            if prev_us:
                raise ValueError("invalid literal for int()")
            prev_us = True
        elif In(it, isets.by_pred("decimal", str.isdecimal)):
            d = e.new_var(((0, 9),), "int")
            cases = []
            for b in isets.decimal_blocks():
                if b == 48:
                    continue
                cases.append(mk_and([In(it, ((b, b + 9),)), Lin(((it, 1), (d, -1)), -b, "==")]))
            e.define(mk_or(cases))
            terms = [(v, c * 10) for v, c in terms] + [(d, 1)]
            const = const * 10
            prev_us = False
        else:
            raise ValueError("invalid literal for int()")
    if prev_us:
        raise ValueError("invalid literal for int()")
    r = lin(terms, const)
    return -r if neg else r


def parse_small(s, base):
    """int(text, 2 or 8) for plain digits, else None."""
    terms = []
    const = 0
    for i in range(len(s)):
        it = s.item(i)
        terms = [(v, c * base) for v, c in terms]
        if isinstance(it, str):
            if it not in "01234567"[:base]:
                return None
            const = const * base + int(it)
        elif In(it, ((48, 47 + base),)):
            terms.append((it, 1))
            const = const * base - 48
        else:
            return None
    return lin(terms, const) if len(s) else None


def hex_digit(it):
    """(terms, const) of a hex digit item, or None; forks."""
    if isinstance(it, str):
        try:
            return (), int(it, 16) if it.isascii() and it.isalnum() else None
        except ValueError:
            return None
    if In(it, ((48, 57),)):
        return ((it, 1),), -48
    if In(it, ((97, 102),)):
        return ((it, 1),), -87
    if In(it, ((65, 70),)):
        return ((it, 1),), -55
    return None


def parse_hex(s):
    terms, const = [], 0
    if not len(s):
        raise ValueError("invalid literal for int() with base 16")
    for i in range(len(s)):
        h = hex_digit(s.item(i))
        if h is None or h[1] is None:
            raise ValueError("invalid literal for int() with base 16")
        terms = [(v, c * 16) for v, c in terms] + list(h[0])
        const = const * 16 + h[1]
    return lin(terms, const)


def to_chr(x):
    """chr(SymInt)."""
    from .sstr import char_var
    if type(x) is not SymInt:
        return chr(x)
    e = core.ENGINE
    if len(x.t) == 1 and x.t[0][1] == 1 and x.k == 0:
        return char_var(x.t[0][0])
    lo, hi = Lin(x.t, x.k, "<=").bounds(e)
    v = e.new_var(((max(lo, 0), min(hi, isets.MAXCP)),))
    e.define(Lin(tuple(x.t) + ((v, -1),), x.k, "=="))
    return char_var(v)


def to_ord(s):
    if type(s) is str:
        return ord(s)
    if len(s) != 1:
        raise TypeError("ord() expected a character")
    return lin([(s.var[0], 1)], 0)
