"""Backtracking regex matcher with the semantics of `re`, over symbolic strings.

The pattern is parsed by the standard sre_parse; every character test on a symbolic character is
a branch of the path engine, so each path sees exactly the match `re` would produce."""
import re
import sre_constants as C
import sre_parse

from . import isets, core
from .core import In, mk_or
from .sstr import SymStr, char_eq, from_items, concretise

MAXREP = C.MAXREPEAT
_compiled = {}
Pattern = type(re.compile(""))

_cat = {}


def category(name, ascii_):
    key = (name, ascii_)
    r = _cat.get(key)
    if r is None:
        probe = {C.CATEGORY_DIGIT: r"\d", C.CATEGORY_NOT_DIGIT: r"\D", C.CATEGORY_SPACE: r"\s",
                 C.CATEGORY_NOT_SPACE: r"\S", C.CATEGORY_WORD: r"\w",
                 C.CATEGORY_NOT_WORD: r"\W"}[name]
        pos = probe.lower()
        p = re.compile(pos, re.A if ascii_ else 0)
        s = isets.by_pred("cat:%s:%s" % (pos, ascii_), lambda c: p.match(c) is not None)
        r = _cat[key] = s if probe == pos else isets.compl(s)
    return r


# code points of a pattern that stand for a variable
PRIVATE = 0xF0000
SYMBOLIC = set()


def private_literals(text, flags):
    def count(x):
        if isinstance(x, tuple) and len(x) == 2 and x[0] is C.LITERAL:
            return 1 if x[1] >= PRIVATE else 0
        if isinstance(x, tuple) and len(x) == 2 and x[0] is C.IN:
            return 0
        if isinstance(x, (list, tuple, sre_parse.SubPattern)):
            return sum(count(y) for y in x)
        return 0
    return count(sre_parse.parse(text, flags))


def private_test(vid):
    def m(st, i, k):
        if i >= st.end:
            return None
        if not char_eq(st.item(i), vid):
            return None
        return k(i + 1)
    return m


def fold(cp, flags):
    if cp >= PRIVATE:
        raise NotImplementedError("variable in a class")
    c = chr(cp)
    if not flags & re.I:
        return ((cp, cp),)
    if flags & re.A and cp > 127:
        return ((cp, cp),)
    cand = {c, c.lower(), c.upper(), c.swapcase(), c.lower().upper(), c.upper().lower()}
    if c in "iI":
        cand |= {"\u0130", "\u0131"}
    if c in "sS":
        cand.add("\u017f")
    if c in "kK":
        cand.add("\u212a")
    p = re.compile(re.escape(c), flags & (re.I | re.A))
    return isets.of([x for x in cand if len(x) == 1 and p.match(x)])


def class_set(av, flags):
    neg = False
    sets = []
    for op, a in av:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            sets.append(fold(a, flags))
        elif op is C.NOT_LITERAL:
            sets.append(isets.compl(fold(a, flags)))
        elif op is C.RANGE:
            lo, hi = a
            if flags & re.I:
                if hi - lo > 2000:
                    sets.append(((lo, hi),))
                else:
                    for cp in range(lo, hi + 1):
                        sets.append(fold(cp, flags))
            else:
                sets.append(((lo, hi),))
        elif op is C.CATEGORY:
            sets.append(category(a, bool(flags & re.A)))
        else:
            raise NotImplementedError(op)
    s = isets.union(*sets)
    return isets.compl(s) if neg else s


NL = ((10, 10),)


class Node(object):
    pass


def compile_pattern(p):
    key = (p.pattern, p.flags)
    r = _compiled.get(key)
    if r is None:
        tree = sre_parse.parse(p.pattern, p.flags & ~re.U if isinstance(p.pattern, bytes)
                               else p.flags)
        r = _compiled[key] = build(list(tree), p.flags)
    return r


def build(items, flags):
    """Compile a list of sre nodes to a matcher m(st, i, k): tries to match at i and calls the
    continuation k(i') -> result or None."""
    ms = [build1(op, av, flags) for op, av in items]
    return seq(ms)


def seq(ms):
    if not ms:
        return lambda st, i, k: k(i)
    if len(ms) == 1:
        return ms[0]

    def run(st, i, k, n=0):
        if n == len(ms) - 1:
            return ms[n](st, i, k)
        return ms[n](st, i, lambda j: run(st, j, k, n + 1))
    return run


def char_test(s):
    def m(st, i, k):
        if i >= st.end:
            return None
        if not st.test(i, s):
            return None
        return k(i + 1)
    m.charset = s
    return m


def build1(op, av, flags):
    if op is C.LITERAL and av >= PRIVATE:
        return private_test(av - PRIVATE)
    if op is C.LITERAL:
        return char_test(fold(av, flags))
    if op is C.NOT_LITERAL:
        return char_test(isets.compl(fold(av, flags)))
    if op is C.ANY:
        return char_test(isets.ALL if flags & re.S else isets.compl(NL))
    if op is C.IN:
        return char_test(class_set(av, flags))
    if op is C.BRANCH:
        alts = [build(list(x), flags) for x in av[1]]

        def m(st, i, k):
            for a in alts:
                r = a(st, i, k)
                if r is not None:
                    return r
            return None
        return m
    if op is C.SUBPATTERN:
        if len(av) == 4:
            group, add, sub, p = av
            flags = (flags | add) & ~sub
        else:
            group, p = av
        body = build(list(p), flags)
        if group is None:
            return body

        def m(st, i, k):
            old = st.groups[group] if group < len(st.groups) else None
            oldi = st.lastindex

            def after(j):
                prev = st.groups[group]
                previ = st.lastindex
                st.groups[group] = (i, j)
                st.lastindex = group
                r = k(j)
                if r is None:
                    st.groups[group] = prev
                    st.lastindex = previ
                return r
            r = body(st, i, after)
            if r is None:
                st.groups[group] = old
                st.lastindex = oldi
            return r
        return m
    if op is C.MAX_REPEAT or op is C.MIN_REPEAT:
        lo, hi, p = av
        body = build(list(p), flags)
        cs = getattr(body, "charset", None)
        hi = None if hi == MAXREP else int(hi)
        lo = int(lo)
        greedy = op is C.MAX_REPEAT
        if cs is not None:
            return rep_char(cs, lo, hi, greedy)
        return rep_general(body, lo, hi, greedy)
    if op is C.AT:
        return build_at(av, flags)
    if op is C.ASSERT or op is C.ASSERT_NOT:
        direction, p = av
        items = list(p)
        body = build(items, flags)
        neg = op is C.ASSERT_NOT
        width = p.getwidth()[0] if direction < 0 else 0

        def m(st, i, k):
            j = i
            if direction < 0:
                j = i - width
                if j < 0:
                    return k(i) if neg else None
            saved = list(st.groups)
            r = body(st, j, (lambda e: True) if direction > 0 else
                     (lambda e: True if e == i else None))
            if neg:
                st.groups[:] = saved
                return k(i) if r is None else None
            if r is None:
                return None
            return k(i)
        return m
    if op is C.GROUPREF:
        def m(st, i, k):
            g = st.groups[av]
            if g is None:
                return None
            a, b = g
            n = b - a
            if i + n > st.end:
                return None
            for d in range(n):
                x, y = st.item(a + d), st.item(i + d)
                if flags & re.I and not (isinstance(x, str) and x == y):
                    x, y = concretise(st.s[a + d]).lower(), concretise(st.s[i + d]).lower()
                if not char_eq(x, y):
                    return None
            return k(i + n)
        return m
    if op is C.GROUPREF_EXISTS:
        g, yes, no = av
        my = build(list(yes), flags)
        mn = build(list(no), flags) if no else (lambda st, i, k: k(i))

        def m(st, i, k):
            return (my if st.groups[g] is not None else mn)(st, i, k)
        return m
    raise NotImplementedError("regex op %s" % op)


def rep_char(cs, lo, hi, greedy):
    if greedy:
        def m(st, i, k):
            n = 0
            limit = st.end - i
            if hi is not None and hi < limit:
                limit = hi
            if limit < lo:
                return None
            while n < limit and st.test(i + n, cs):
                n += 1
            while n >= lo:
                r = k(i + n)
                if r is not None:
                    return r
                n -= 1
            return None
    else:
        def m(st, i, k):
            n = 0
            limit = st.end - i
            if hi is not None and hi < limit:
                limit = hi
            while n < lo:
                if n >= limit or not st.test(i + n, cs):
                    return None
                n += 1
            while True:
                r = k(i + n)
                if r is not None:
                    return r
                if n >= limit or not st.test(i + n, cs):
                    return None
                n += 1
    return m


def rep_general(body, lo, hi, greedy):
    def m(st, i, k):
        def go(n, i, last):
            if n < lo:
                return body(st, i, lambda j: go(n + 1, j, i))
            if hi is not None and n >= hi:
                return k(i)
            if greedy:
                if i != last or n == 0:
                    # an empty iteration ends the loop, as in sre
                    r = body(st, i, lambda j: go(n + 1, j, i) if j != i else None)
                    if r is not None:
                        return r
                return k(i)
            r = k(i)
            if r is not None:
                return r
            return body(st, i, lambda j: go(n + 1, j, i) if j != i else None)
        return go(0, i, -1)
    return m


def build_at(av, flags):
    if av is C.AT_BEGINNING or av is C.AT_BEGINNING_STRING:
        if av is C.AT_BEGINNING and flags & re.M:
            def m(st, i, k):
                if i == 0 or st.test(i - 1, NL):
                    return k(i)
                return None
            return m
        return lambda st, i, k: k(i) if i == 0 else None
    if av is C.AT_END_STRING:
        return lambda st, i, k: k(i) if i == st.end else None
    if av is C.AT_END:
        if flags & re.M:
            def m(st, i, k):
                if i == st.end or st.test(i, NL):
                    return k(i)
                return None
            return m

        def m(st, i, k):
            if i == st.end or (i == st.end - 1 and st.test(i, NL)):
                return k(i)
            return None
        return m
    if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
        w = category(C.CATEGORY_WORD, bool(flags & re.A))
        want = av is C.AT_BOUNDARY

        def m(st, i, k):
            a = i > 0 and bool(st.test(i - 1, w))
            b = i < st.end and bool(st.test(i, w))
            return k(i) if (a != b) == want else None
        return m
    raise NotImplementedError(av)


class State(object):
    __slots__ = ("s", "end", "groups", "lastindex", "sym", "base", "pos", "memo")

    def __init__(self, s, end, ngroups):
        self.s = s
        self.end = end
        self.groups = [None] * (ngroups + 1)
        self.lastindex = None
        self.sym = dict(zip(s.pos, s.var)) if type(s) is SymStr else {}
        self.base = s.base if type(s) is SymStr else s

    def item(self, i):
        v = self.sym.get(i)
        return self.base[i] if v is None else v

    def test(self, i, cs):
        v = self.sym.get(i)
        if v is None:
            return isets.has(cs, ord(self.base[i]))
        return core.ENGINE.branch(In(v, cs))


class Match(object):
    def __init__(self, pat, s, pos, endpos, start, end, groups, lastindex):
        self.re = pat
        self.string = s
        self.pos = pos
        self.endpos = endpos
        self._g = [(start, end)] + list(groups[1:])
        self.lastindex = lastindex

    def _idx(self, g):
        if isinstance(g, str):
            try:
                return self.re.groupindex[g]
            except KeyError:
                raise IndexError("no such group")
        if not 0 <= g < len(self._g):
            raise IndexError("no such group")
        return g

    def _get(self, g, default=None):
        sp = self._g[self._idx(g)]
        return default if sp is None else self.string[sp[0]:sp[1]]

    def group(self, *gs):
        if not gs:
            return self._get(0)
        if len(gs) == 1:
            return self._get(gs[0])
        return tuple(self._get(g) for g in gs)

    __getitem__ = _get

    def groups(self, default=None):
        return tuple(self._get(i, default) for i in range(1, len(self._g)))

    def groupdict(self, default=None):
        return {n: self._get(i, default) for n, i in self.re.groupindex.items()}

    def start(self, g=0):
        sp = self._g[self._idx(g)]
        return -1 if sp is None else sp[0]

    def end(self, g=0):
        sp = self._g[self._idx(g)]
        return -1 if sp is None else sp[1]

    def span(self, g=0):
        sp = self._g[self._idx(g)]
        return (-1, -1) if sp is None else sp

    @property
    def lastgroup(self):
        for n, i in self.re.groupindex.items():
            if i == self.lastindex:
                return n

    def expand(self, template):
        return expand(self, template)

    @property
    def regs(self):
        return tuple((-1, -1) if x is None else x for x in self._g)


def expand(m, template):
    if type(template) is SymStr:
        template = concretise(template, "regex template")
    groups, literals = sre_parse.parse_template(template, m.re)
    out = list(literals)
    for i, g in groups:
        v = m.group(g)
        out[i] = "" if v is None else v
    return from_items([x for x in out if x is not None])


def run(pat, s, pos, endpos, mode):
    n = len(s)
    pos = max(0, min(pos, n))
    endpos = n if endpos is None else max(0, min(endpos, n))
    # `^` and lookbehind see the text before pos, `$` is relative to endpos
    matcher = compile_pattern(pat)
    i = pos
    fast = _prefilter(pat)
    st = State(s, endpos, pat.groups)
    while i <= endpos:
        if fast is not None and mode == "search":
            # skip positions whose character cannot start a match
            while i < endpos and i not in st.sym and not isets.has(fast, ord(st.base[i])):
                i += 1
            if i >= endpos:
                return None
        for g in range(len(st.groups)):
            st.groups[g] = None
        st.lastindex = None
        if mode == "fullmatch":
            r = matcher(st, i, lambda j: (j,) if j == endpos else None)
        else:
            r = matcher(st, i, lambda j: (j,))
        if r is not None:
            return Match(pat, s, pos, endpos, i, r[0], st.groups, st.lastindex)
        if mode != "search":
            return None
        i += 1
    return None


_pre = {}


def _prefilter(pat):
    key = (pat.pattern, pat.flags)
    if key in _pre:
        return _pre[key]
    r = None
    try:
        tree = list(sre_parse.parse(pat.pattern, pat.flags))
        r = _first(tree, pat.flags)
    except Exception:
        r = None
    _pre[key] = r
    return r


def _first(items, flags):
    """Superset of first characters of a non-empty match; None if it may be empty/unknown."""
    acc = ()
    for op, av in items:
        if op is C.LITERAL:
            return isets.union(acc, fold(av, flags))
        if op is C.NOT_LITERAL:
            return isets.union(acc, isets.compl(fold(av, flags)))
        if op is C.ANY:
            return isets.union(acc, isets.ALL)
        if op is C.IN:
            return isets.union(acc, class_set(av, flags))
        if op is C.SUBPATTERN:
            p = av[-1]
            f = flags
            if len(av) == 4:
                f = (flags | av[1]) & ~av[2]
            r = _first(list(p), f)
            if r is None:
                return None
            return isets.union(acc, r)
        if op is C.BRANCH:
            rs = [_first(list(x), flags) for x in av[1]]
            if any(r is None for r in rs):
                return None
            return isets.union(acc, *rs)
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, p = av
            r = _first(list(p), flags)
            if r is None:
                return None
            acc = isets.union(acc, r)
            if lo >= 1:
                return acc
            continue
        return None
    return None


def has_sym(s, pos=0, endpos=None):
    return type(s) is SymStr


def search(pat, s, pos=0, endpos=None):
    return run(pat, s, pos, endpos, "search")


def match(pat, s, pos=0, endpos=None):
    return run(pat, s, pos, endpos, "match")


def fullmatch(pat, s, pos=0, endpos=None):
    return run(pat, s, pos, endpos, "fullmatch")


def finditer(pat, s, pos=0, endpos=None):
    n = len(s) if endpos is None else min(len(s), endpos)
    i = pos
    must_advance = False
    while i <= n:
        m = None
        if must_advance:
            # the previous match was empty and ended here
            m = _nonempty(pat, s, i, endpos)
            if m is None:
                i += 1
                must_advance = False
                continue
        else:
            m = run(pat, s, i, endpos, "search")
            if m is None:
                return
        yield m
        i = m.end()
        must_advance = m.start() == i


def _nonempty(pat, s, i, endpos):
    n = len(s) if endpos is None else min(len(s), endpos)
    matcher = compile_pattern(pat)
    st = State(s, n, pat.groups)
    r = matcher(st, i, lambda j: (j,) if j != i else None)
    if r is None:
        return None
    return Match(pat, s, i, n, i, r[0], st.groups, st.lastindex)


def findall(pat, s, pos=0, endpos=None):
    out = []
    for m in finditer(pat, s, pos, endpos):
        if pat.groups == 0:
            out.append(m.group())
        elif pat.groups == 1:
            out.append(m._get(1, ""))
        else:
            out.append(m.groups(""))
    return out


def subn(pat, repl, s, count=0):
    out = []
    a = 0
    n = 0
    for m in finditer(pat, s):
        if count and n >= count:
            break
        out.append(s[a:m.start()])
        if callable(repl):
            out.append(repl(m))
        elif type(repl) is SymStr:
            out.append(_sub_sym(m, repl))
        elif "\\" in repl:
            out.append(expand(m, repl))
        else:
            out.append(repl)
        a = m.end()
        n += 1
    out.append(s[a:])
    return from_items(out), n


def _sub_sym(m, repl):
    if repl.contains("\\") is False or not bool(repl.contains("\\")):
        return repl
    return expand(m, repl)


def sub(pat, repl, s, count=0):
    return subn(pat, repl, s, count)[0]


def split(pat, s, maxsplit=0):
    out = []
    a = 0
    n = 0
    for m in finditer(pat, s):
        if maxsplit and n >= maxsplit:
            break
        out.append(s[a:m.start()])
        out.extend(m.groups())
        a = m.end()
        n += 1
    out.append(s[a:])
    return out


METHODS = dict(search=search, match=match, fullmatch=fullmatch, finditer=finditer,
               findall=findall, sub=sub, subn=subn, split=split)
