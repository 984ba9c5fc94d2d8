"""The harness-facing API, symbolic and concrete."""


class ConcreteCtx(object):
    """Feeds recorded values to a harness running on the real, unmodified code."""
    symbolic = False

    class Skip(BaseException):
        pass

    def __init__(self, inputs, known=()):
        self.inputs = inputs
        self.failed = []
        self.observed = []
        self.known_ids = []

    def string(self, name, lo, hi=None, dom=None):
        return self.inputs[name]

    def choice(self, name, n):
        return self.inputs.get(name, 0) if n > 1 else 0

    def pick(self, name, seq):
        return seq[self.choice(name, len(seq))]

    def flag(self, name):
        return self.choice(name, 2) == 1

    def integer(self, name, lo, hi):
        return self.inputs[name]

    def assume(self, cond):
        if not cond:
            raise ConcreteCtx.Skip()

    def known(self, kid, cond):
        if cond:
            self.known_ids.append(kid)
            return True
        return False

    def eq(self, a, b):
        return a == b

    def every(self, conds):
        return all(conds)

    def some(self, conds):
        return any(conds)

    def no(self, c):
        return not c

    def check(self, cond, label):
        if not cond:
            self.failed.append(label)

    def check_eq(self, a, b, label):
        if not a == b:
            self.failed.append(label)
            self.detail = "%r != %r" % (a, b)

    def fail(self, label):
        self.failed.append(label)

    def reach(self, label):
        pass

    def observe(self, name, value):
        self.observed.append((name, value))


def domain(spec):
    from . import isets
    if spec is None:
        return isets.TEXT
    if isinstance(spec, str):
        return isets.of(spec)
    if isinstance(spec, tuple) and len(spec) == 2 and spec[0] == "not":
        return isets.minus(isets.TEXT, domain(spec[1]))
    if isinstance(spec, tuple) and spec and spec[0] == "or":
        return isets.union(*[domain(s) for s in spec[1:]])
    if isinstance(spec, tuple) and spec and spec[0] == "range":
        return isets.norm([(spec[1], spec[2])])
    return isets.norm(spec)


class SymCtx(object):
    symbolic = True

    def __init__(self, eng):
        self.e = eng
        self.kid = None
        self.observed = []
        self.names = set()
        self.inputs = []

    def _name(self, name):
        if name in self.names:
            raise RuntimeError("harness input %r used twice" % name)
        self.names.add(name)

    def string(self, name, lo, hi=None, dom=None):
        from .sstr import SymStr, HOLE
        self._name(name)
        n = lo
        if hi is not None and hi > lo:
            n = lo + self.e.choice(hi - lo + 1, name + ".len")
        d = domain(dom)
        vs = tuple([self.e.new_var(d) for _ in range(n)])
        s = SymStr(HOLE * n, tuple(range(n)), vs) if n else ""
        self.inputs.append((name, s))
        return s

    def choice(self, name, n):
        if n <= 1:
            return 0
        self._name(name)
        i = self.e.choice(n, name)
        self.inputs.append((name, i))
        return i

    def pick(self, name, seq):
        return seq[self.choice(name, len(seq))]

    def flag(self, name):
        return self.choice(name, 2) == 1

    def integer(self, name, lo, hi):
        from .sint import SymInt
        self._name(name)
        v = self.e.new_var(((lo, hi),), "int")
        x = SymInt(((v, 1),), 0)
        self.inputs.append((name, x))
        return x

    def assume(self, cond):
        self.e.assume(cond)

    def known(self, kid, cond):
        if cond:
            self.kid = kid
            return True
        return False

    def eq(self, a, b):
        """a == b without forking when both are text; containers element by element."""
        from . import core
        from .sstr import SymStr
        ta, tb = type(a), type(b)
        if ta in (list, tuple) and tb in (list, tuple):
            if ta is not tb or len(a) != len(b):
                return False
            return core.mk_and([self.eq(x, y) for x, y in zip(a, b)])
        if ta is dict and tb is dict:
            from . import rt
            if len(a) != len(b):
                return False
            out = []
            for k, v in a.items():
                kk = rt.find_key(b, k)
                if kk is rt.UNDEF:
                    return False
                out.append(self.eq(v, b[kk]))
            return core.mk_and(out)
        r = (a == b)
        return r

    def every(self, conds):
        from . import core
        return core.mk_and(list(conds))

    def some(self, conds):
        from . import core
        return core.mk_or(list(conds))

    def no(self, c):
        from . import core
        return core.mk_not(c)

    def check(self, cond, label):
        self.e.reached.add(label)
        from . import core
        if not isinstance(cond, core.SymBool):
            cond = bool(cond)
        self.e.props.append((label, cond))
        self.e.stats["props"] += 1

    def check_eq(self, a, b, label):
        self.check(self.eq(a, b), label)

    def fail(self, label):
        self.check(False, label)

    def reach(self, label):
        self.e.reached.add(label)

    def observe(self, name, value):
        self.observed.append((name, value))


def evaluate(x, model):
    """Concrete value of a symbolic value under a model."""
    from .sstr import SymStr
    from .sint import SymInt
    t = type(x)
    if t is SymStr:
        b = list(x.base)
        for p, v in zip(x.pos, x.var):
            b[p] = chr(model[v])
        return "".join(b)
    if t is SymInt:
        return x.k + sum(model[v] * c for v, c in x.t)
    if t is list:
        return [evaluate(y, model) for y in x]
    if t is tuple:
        return tuple([evaluate(y, model) for y in x])
    if t is dict:
        return {evaluate(k, model): evaluate(v, model) for k, v in x.items()}
    return x
