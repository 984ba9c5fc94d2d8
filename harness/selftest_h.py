"""Python features on symbolic text, compared with the interpreter on solver witnesses
(tools: VERIF_SELF=1 check.py SELF)."""
import re
import itertools
import functools
import collections
from collections import OrderedDict, namedtuple, defaultdict, deque

FEATURES = {}


def f(fn):
    FEATURES[fn.__name__] = fn
    return fn


@f
def partition(s):
    a, b, c = s.partition("b")
    return [a, b, c, s.rpartition(":")]


@f
def splits(s):
    return [s.split(), s.split(":"), s.split("a", 1), s.rsplit(":", 1), s.splitlines(), s.splitlines(True)]


@f
def translate(s):
    return s.translate({ord("a"): "xx", ord("b"): None, ord(":"): ord("=")})


@f
def maketrans(s):
    return s.translate(str.maketrans("ab", "ba", ":"))


@f
def comprehension(s):
    return [[c for c in s if c != "a"], {c: i for i, c in enumerate(s)}, sorted({c for c in s}), "".join(c for c in s if c.isalpha())]


@f
def generator(s):
    def gen():
        for c in s:
            if c == ":":
                return
            yield c
    return list(gen())


def _delegate(s):
    yield "start"
    got = yield from _inner(s)
    yield got


def _inner(s):
    for c in s:
        yield c
    return len(s)


@f
def yield_from(s):
    return list(_delegate(s))


@f
def walrus(s):
    out = []
    if (n := s.find("a")) >= 0:
        out.append(n)
    while (k := s.find(":", len(out))) > 0 and len(out) < 3:
        out.append(k)
    return out


@f
def try_finally(s):
    out = []
    try:
        try:
            i = s.index("a")
            out.append(i)
        except ValueError as e:
            out.append("no")
            raise KeyError("x") from e
        else:
            out.append("else")
        finally:
            out.append("finally")
    except KeyError:
        out.append("key")
    return out


@f
def for_else(s):
    for i, c in enumerate(s):
        if c in "ab":
            break
    else:
        return "none"
    return i


@f
def while_else(s):
    i = 0
    while i < len(s):
        if s[i] == ":":
            break
        i += 1
    else:
        i = -1
    return i


@f
def chained(s):
    return [c for c in s if "a" <= c <= "c"], 0 < len(s) < 3


@f
def ternary(s):
    return "x" if s[:1] == "a" else "y" if s.endswith(":") else "z"


@f
def lambdas(s):
    return [(lambda x: x + "1")(s), list(map(lambda c: c.upper(), s)), list(filter(lambda c: c != "a", s)), sorted(s, key=lambda c: (c != ":", c))]


@f
def nested(s):
    count = 0

    def inner(x):
        nonlocal count
        count += 1
        return x * 2
    return [inner(s), count]


@f
def formats(s):
    return ["%s-%s" % (s, 1), "{}{!s}".format(s, s), f"<{s}>", f"{s!r:}"[:0], "{0}{x}".format(s, x=s), "%(a)s" % {"a": s}, "{:>4}".format(s), f"{len(s):03d}"]


@f
def regexes(s):
    out = [re.sub(r"a+", "x", s), re.split(r"[:b]", s), re.findall(r"(a)(b)?", s), [m.span() for m in re.finditer(r"\w", s)]]
    m = re.match(r"(?P<x>a*)(?P<y>.*)$", s, re.S)
    out.append(m.groupdict() if m else None)
    out.append(re.fullmatch(r"[ab]*", s) is not None)
    out.append(re.subn("b", lambda m: m.group() + "!", s))
    p = re.compile("^a", re.M)
    out.append(bool(p.search(s, 1)))
    out.append(re.escape(s) == s)
    return out


@f
def strips(s):
    return [s.strip(), s.lstrip("a"), s.rstrip(":b"), s.strip("ab:")]


@f
def prefixes(s):
    return [s.startswith(("a", "b:")), s.endswith(("a", ":")), s.startswith("a", 1), s.removeprefix("a"), s.removesuffix(":")]


@f
def cases(s):
    return [s.upper(), s.lower(), s.title(), s.capitalize(), s.swapcase(), s.casefold()]


@f
def counts(s):
    return [s.count("a"), s.find("b"), s.rfind("a"), s.find("", 1), len(s)]


@f
def pads(s):
    return [s.zfill(4), s.ljust(4, "."), s.rjust(4), s.center(5, "*"), s.expandtabs(2)]


@f
def predicates(s):
    return [s.isalpha(), s.isdigit(), s.isspace(), s.isupper(), s.islower(), s.isalnum(), s.isidentifier(), s.isnumeric(), s.isdecimal(), s.isprintable(), s.isascii()]


@f
def slices(s):
    return [s[1:], s[:-1], s[::-1], s[::2], s[-2:], s[1:2], s[5:]]


@f
def indexing(s):
    try:
        return [s[0], s[-1]]
    except IndexError:
        return "short"


@f
def dicts(s):
    d = {"a": 1, "b": 2}
    out = [d.get(s), s in d, d.setdefault(s, 5), d.pop(s, None)]
    d[s] = 9
    d.update({"z": s})
    out.append(sorted(d.items(), key=str))
    o = OrderedDict()
    o[s] = 1
    o["a"] = 2
    o.move_to_end(s)
    out.append(list(o.items()))
    dd = defaultdict(list)
    for c in s:
        dd[c].append(1)
    out.append(dict(dd))
    out.append({**d, s: 1} == d)
    return out


@f
def counters(s):
    c = collections.Counter(s)
    return [c["a"], sorted(c.items()), c.most_common(1)]


@f
def deques(s):
    d = deque(s)
    d.appendleft("x")
    d.append(s)
    d.rotate(1)
    return [d.popleft(), list(d)]


@f
def sets(s):
    x = {"a", s}
    y = set(s)
    return [len(x), sorted(x | y), sorted(x & y), sorted(x - y), s in x, frozenset(s) == y, x <= y]


@f
def tuples(s):
    P = namedtuple("P", "x y")
    p = P(s, 1)
    return [p.x, p._replace(y=2), (s, 1) < ("b", 0), (s,) == ("a",), max([s, "a"]), min(s, "b")]


@f
def its(s):
    return [list(itertools.chain(s, "x")), list(itertools.islice(s, 2)), [(k, len(list(g))) for k, g in itertools.groupby(s)],
            list(itertools.takewhile(lambda c: c != ":", s)), list(zip(s, s[1:])), list(itertools.zip_longest(s, "ab")), list(reversed(s)),
            any(c == "a" for c in s), all(c in "ab" for c in s), sum(1 for c in s if c == "a"), list(itertools.accumulate(s)),
            list(itertools.dropwhile(str.isalpha, s))]


@f
def functional(s):
    return [functools.reduce(lambda a, b: b + a, s, ""), functools.partial(str.replace, s, "a")("z"), next(iter(s), None), next((c for c in s if c != "a"), "none")]


@functools.lru_cache(maxsize=None)
def _cached(x):
    return x + "!"


@f
def caches(s):
    return [_cached(s), _cached("a")]


@f
def classes(s):
    class A(object):
        __slots__ = ("x",)

        def __init__(self, x):
            self.x = x

        def __eq__(self, o):
            return self.x == o.x

        def __hash__(self):
            return hash(self.x)

        @property
        def y(self):
            return self.x[1:]

        @staticmethod
        def st(x):
            return x + "s"

        @classmethod
        def cl(cls, x):
            return cls(x)

        def __len__(self):
            return len(self.x)

        def __getitem__(self, k):
            return self.x[k]

        def __contains__(self, c):
            return c in self.x

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return True
    a = A(s)
    with a as b:
        raise ValueError
    return [a.y, A.st(s), A.cl(s).x, a == A("a"), len(a), a[:1], "a" in a, bool(a), list(a), b is a, getattr(a, "x"), hasattr(a, "z"), a in {A("a"), A("b")}]


@f
def unpack(s):
    first, *rest = s + "xy"
    a, b = rest[-2:]
    return [first, rest, a, b, *s, [*s][:1]]


@f
def kwargs(s):
    def g(*a, x=None, **k):
        return [a, x, sorted(k.items())]
    return [g(s, x=s, y=1), g(*s), g(**{"x": s})]


@f
def ints(s):
    try:
        return [int(s), int("1" + s), float(s)]
    except ValueError:
        return "no"


@f
def ords(s):
    return [[ord(c) for c in s], [chr(ord(c) + 1) for c in s], [hex(ord(c)) for c in s], ["%04x" % ord(c) for c in s]]


@f
def encodes(s):
    return [s.encode("utf-8").decode("utf-8"), len(s.encode("utf-8")), s.encode("ascii", "ignore").decode("ascii"), s.encode("ascii", "replace").decode()]


@f
def compares(s):
    return [s == "a", s != "a", s < "b", s >= "a:", "a" in s, s not in ("a", "b"), s is None, not s, bool(s), s or "e", s and "t", s == 1]


@f
def isinst(s):
    return [isinstance(s, str), type(s) is str, type(s).__name__, issubclass(type(s), str), isinstance(s, (bytes, str)), callable(s), str(s) == s]


@f
def joins(s):
    return [",".join(s), s.join(["x", "y"]), "".join([s, s]), ",".join(map(str, [1, 2])), s * 2, 2 * s, s + s]


@f
def globs(s):
    out = ""
    out += s
    out *= 2
    out = out.replace("a", "bb", 1).replace("", "-")
    return out


@f
def matching(s):
    stack = []
    for i, c in enumerate(s, start=1):
        if c == "a":
            stack.append(i)
        elif c == ":":
            if not stack:
                return "unbalanced"
            stack.pop()
    return stack


@f
def recursion(s):
    def go(x):
        return "" if not x else go(x[1:]) + x[0]
    return go(s)


@f
def raising(s):
    class E(Exception):
        def __init__(self, m, k=1):
            super(E, self).__init__(m)
            self.k = k
    try:
        if s.startswith("a"):
            raise E("bad {}".format(s), k=s)
        assert s != "b", "is b"
        return {}[s]
    except E as e:
        return [str(e), e.args, e.k]
    except (KeyError, AssertionError) as e:
        return type(e).__name__


@f
def dels(s):
    xs = list(s)
    if xs:
        del xs[0]
    xs.insert(0, "q")
    xs.extend(s)
    xs.reverse()
    xs[1:2] = ["w", "w"]
    return [xs, xs.count("a"), xs.index("q"), "".join(xs).find(s), sorted(xs), xs == list(s)]


@f
def bools(s):
    a = "a" in s
    b = s.startswith("b")
    return [a and b, a or b, a ^ b, a + b, not a, a == b, a is True, [1, 2][a], {True: 1, False: 2}[b], int(a), sum([a, b])]


@f
def maths(s):
    n = len(s)
    i = s.find("a")
    return [i + 1, i * 2, i // 2, i % 2, -i, abs(i), max(i, 0), min(i, n), divmod(n, 2), i ** 2, i << 1, i & 1, range(n)[-1] if n else None, list(range(i, n)), i == -1, "x" * i, s[i:], s[i + 1:n], str(i), "%d" % i, "{}".format(i), round(i / 2, 1)]


@f
def enums(s):
    it = iter(enumerate(s))
    out = []
    for i, c in it:
        if c == "a":
            next(it, None)
            continue
        out.append((i, c))
    return out


@f
def sio(s):
    import io
    b = io.StringIO(s)
    out = [b.readline(), b.read()]
    w = io.StringIO()
    w.write(s)
    w.write("x")
    out.append(w.getvalue())
    return out


@f
def jsons(s):
    import json
    return [json.dumps(s), json.dumps({"a": s}), json.loads(json.dumps([s]))]


@f
def saxutils(s):
    from xml.sax.saxutils import escape, unescape, quoteattr
    return [escape(s), unescape(s), escape(s, {"a": "&a;"})]


@f
def htmls(s):
    import html
    return [html.escape(s), html.unescape(s)]


@f
def sorting(s):
    xs = [s, "b", "a:"]
    return [sorted(xs), sorted(xs, reverse=True), sorted(xs, key=len), max(xs, key=len), sorted(xs, key=str.lower)]


@f
def strcls(s):
    return [str.upper(s), str.join(",", s), "".join(map(str.lower, s)), list(map(str.strip, [s])), list(map(len, [s])), str.startswith(s, "a"), str.format("{}", s)]


@f
def operators(s):
    import operator
    return [operator.itemgetter(0)([s]), operator.eq(s, "a"), operator.add(s, "x"), operator.contains(s, "a"), operator.attrgetter("real")(len(s)), operator.methodcaller("upper")(s), operator.not_(s)]


@f
def textwraps(s):
    import textwrap
    return [textwrap.dedent(" " + s), textwrap.indent(s, "> ")]


@f
def copies(s):
    import copy
    x = [s, {"k": s}]
    y = copy.deepcopy(x)
    y[1]["k"] = "z"
    return [x, y, copy.copy(s)]


@f
def unicodes(s):
    import unicodedata
    return [[unicodedata.category(c)[0] for c in s], unicodedata.normalize("NFC", s)]


@f
def match_statement_like(s):
    table = {"a": lambda: 1, ":": lambda: 2}
    return [table.get(c, lambda: 0)() for c in s]


@f
def comp_nested(s):
    return [[(a, b) for a in s for b in s if a < b], {a: [b for b in s if b == a] for a in s}, [x for x in (y for y in s) if x]]


@f
def globals_(s):
    global _G
    _G = s
    return _G + ":"


@f
def star_expr(s):
    return [*s, *[1]], {**{"a": s}}, max(*[s, "a"]), print(s, end="", file=_Null())


class _Null(object):
    def write(self, x):
        pass

    def flush(self):
        pass


@f
def inplace(s):
    out = [s]
    out += [1]
    d = {}
    d[s] = d.get(s, 0) + 1
    d[s] += 1
    n = len(s)
    n -= 1
    t = ()
    t += (s,)
    return [out, list(d.values()), n, t]


@f
def bisects(s):
    import bisect
    xs = ["a", "c"]
    return [bisect.bisect(xs, s), bisect.bisect_left([1, 3], len(s))]


@f
def decos(s):
    def deco(fn):
        @functools.wraps(fn)
        def wrapper(*a, **k):
            return fn(*a, **k) + "!"
        return wrapper

    @deco
    def g(x, y="d"):
        return x + y
    return [g(s), g(s, y=s), g.__name__]


@f
def ctxman(s):
    import contextlib

    @contextlib.contextmanager
    def cm(x):
        yield x + "c"
    with cm(s) as y, contextlib.suppress(ValueError):
        int("x")
    return y


@f
def linesep(s):
    lines = s.split("\n")
    return ["\n".join(l.rstrip() for l in lines), len(lines), lines[-1]]


def feature(ctx, names, dom, hi):
    name = ctx.pick("feature", names)
    s = ctx.string("s", 0, hi, dom)
    ctx.observe("r", FEATURES[name](s))
    ctx.check(s == s, "compared")
