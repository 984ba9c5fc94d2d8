"""Path engine: symbolic variables, formulas, branching by re-execution, z3 queries."""
from . import isets
from .z3lib import Z3


class Control(BaseException):
    """Engine control flow; never caught by the code under test (which catches Exception)."""


class PathAbort(Control):
    pass


class PathTimeout(Control):
    pass


class EngineError(Control):
    pass


# ---------------------------------------------------------------- formulas

class SymBool(object):
    __slots__ = ()

    def __bool__(self):
        return ENGINE.branch(self)

    __nonzero__ = __bool__

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, other):
        if isinstance(other, SymBool):
            return bool(self) == bool(other)
        return bool(self) == other

    def __ne__(self, other):
        return not self.__eq__(other)

    def __and__(self, other):
        return mk_and([self, other])

    __rand__ = __and__

    def __or__(self, other):
        return mk_or([self, other])

    __ror__ = __or__

    def __invert__(self):
        return mk_not(self)

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __add__(self, o):
        return int(self) + o

    __radd__ = __add__


class In(SymBool):
    __slots__ = ("v", "s")

    def __init__(self, v, s):
        self.v = v
        self.s = s

    def key(self):
        return ("in", self.v, self.s)

    def neg(self):
        return In(self.v, isets.compl(self.s))

    def vars(self, acc):
        acc.add(self.v)

    def ev(self, e):
        d = e.dom[self.v]
        i = isets.inter(d, self.s)
        if not i:
            return False
        if i == d:
            return True
        return None

    def smt(self, e):
        return e.in_smt(self.v, self.s)


class VV(SymBool):
    __slots__ = ("a", "b")

    def __init__(self, a, b):
        if a > b:
            a, b = b, a
        self.a = a
        self.b = b

    def key(self):
        return ("vv", self.a, self.b)

    def neg(self):
        return Not(self)

    def vars(self, acc):
        acc.add(self.a)
        acc.add(self.b)

    def ev(self, e):
        da, db = e.dom[self.a], e.dom[self.b]
        i = isets.inter(da, db)
        if not i:
            return False
        if len(da) == 1 and da == db and da[0][0] == da[0][1]:
            return True
        return None

    def smt(self, e):
        return "(= c%d c%d)" % (self.a, self.b)


class Lin(SymBool):
    """sum(coef * var) + const  (<= | ==)  0"""
    __slots__ = ("t", "k", "op")

    def __init__(self, t, k, op):
        self.t = t
        self.k = k
        self.op = op

    def key(self):
        return ("lin", self.t, self.k, self.op)

    def neg(self):
        if self.op == "<=":      # s <= 0  ->  s >= 1  ->  -s + 1 <= 0
            return Lin(tuple((v, -c) for v, c in self.t), 1 - self.k, "<=")
        return Not(self)

    def vars(self, acc):
        for v, _ in self.t:
            acc.add(v)

    def bounds(self, e):
        lo = hi = self.k
        for v, c in self.t:
            d = e.dom[v]
            if d is None or not d:
                return None, None
            a, b = c * d[0][0], c * d[-1][1]
            if a > b:
                a, b = b, a
            lo += a
            hi += b
        return lo, hi

    def ev(self, e):
        lo, hi = self.bounds(e)
        if lo is None:
            return None
        if self.op == "<=":
            if hi <= 0:
                return True
            if lo > 0:
                return False
        else:
            if lo == hi == 0:
                return True
            if lo > 0 or hi < 0:
                return False
        return None

    def smt(self, e):
        parts = [num(self.k)] + [
            ("c%d" % v if c == 1 else "(* %s c%d)" % (num(c), v)) for v, c in self.t]
        s = "(+ %s)" % " ".join(parts) if len(parts) > 1 else parts[0]
        return "(%s %s 0)" % ("<=" if self.op == "<=" else "=", s)


class And(SymBool):
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = tuple(p)

    def key(self):
        return ("and",) + tuple(x.key() for x in self.p)

    def neg(self):
        return mk_or([x.neg() for x in self.p])

    def vars(self, acc):
        for x in self.p:
            x.vars(acc)

    def ev(self, e):
        res = True
        for x in self.p:
            r = x.ev(e)
            if r is False:
                return False
            if r is None:
                res = None
        return res

    def smt(self, e):
        return "(and %s)" % " ".join(x.smt(e) for x in self.p)


class Or(SymBool):
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = tuple(p)

    def key(self):
        return ("or",) + tuple(x.key() for x in self.p)

    def neg(self):
        return mk_and([x.neg() for x in self.p])

    def vars(self, acc):
        for x in self.p:
            x.vars(acc)

    def ev(self, e):
        res = False
        for x in self.p:
            r = x.ev(e)
            if r is True:
                return True
            if r is None:
                res = None
        return res

    def smt(self, e):
        return "(or %s)" % " ".join(x.smt(e) for x in self.p)


class Not(SymBool):
    __slots__ = ("x",)

    def __init__(self, x):
        self.x = x

    def key(self):
        return ("not", self.x.key())

    def neg(self):
        return self.x

    def vars(self, acc):
        self.x.vars(acc)

    def ev(self, e):
        r = self.x.ev(e)
        return None if r is None else not r

    def smt(self, e):
        return "(not %s)" % self.x.smt(e)


def num(n):
    return str(n) if n >= 0 else "(- %d)" % -n


def mk_not(x):
    if isinstance(x, SymBool):
        return x.neg()
    return not x


def mk_and(parts):
    out = []
    byvar = {}
    for x in parts:
        if not isinstance(x, SymBool):
            if not x:
                return False
            continue
        if type(x) is And:
            subs = x.p
        else:
            subs = (x,)
        for y in subs:
            if type(y) is In:
                if y.v in byvar:
                    i = byvar[y.v]
                    s = isets.inter(out[i].s, y.s)
                    if not s:
                        return False
                    out[i] = In(y.v, s)
                else:
                    if not y.s:
                        return False
                    byvar[y.v] = len(out)
                    out.append(y)
            else:
                out.append(y)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return And(out)


def mk_or(parts):
    out = []
    byvar = {}
    for x in parts:
        if not isinstance(x, SymBool):
            if x:
                return True
            continue
        if type(x) is Or:
            subs = x.p
        else:
            subs = (x,)
        for y in subs:
            if type(y) is In:
                if y.v in byvar:
                    i = byvar[y.v]
                    out[i] = In(y.v, isets.union(out[i].s, y.s))
                else:
                    byvar[y.v] = len(out)
                    out.append(y)
            else:
                out.append(y)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return Or(out)


# ---------------------------------------------------------------- engine

class Engine(object):
    def __init__(self):
        self.z3 = Z3()
        self.smt_cache = {}
        self.stats = dict(paths=0, branches=0, forks=0, feas_queries=0, vc_queries=0,
                          implied=0, concretised=0, props=0)
        self.notes = {}
        self.conc_cap = 3
        self.reset([])

    # -- per path state
    def reset(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.pending = []
        self.dom = []
        self.dom0 = []
        self.kind = []
        self.decisions = []
        self.implied = {}
        self.props = []
        self.clauses = []           # active relational clauses
        self.relvars = {}           # vid -> number (coarse; recomputed lazily)
        self.inputs = []            # (name, kind, payload)
        self.tokens = []
        self.symkeys = False
        self.incomplete = []
        self.reached = set()
        self.nbranch = 0
        self.choice_log = []

    # -- variables
    def new_var(self, dom, kind="char"):
        self.dom.append(dom)
        self.dom0.append(dom)
        self.kind.append(kind)
        return len(self.dom) - 1

    def in_smt(self, v, s):
        d0 = self.dom0[v]
        key = (s, d0)
        t = self.smt_cache.get(key)
        if t is None:
            if d0 is None:
                t = _set_smt(s)
            else:
                i = isets.inter(s, d0)
                n = isets.minus(d0, s)
                # describe relative to the variable's initial domain
                hull_lo, hull_hi = d0[0][0], d0[-1][1]
                comp = tuple(x for x in isets.inter(isets.compl(i), ((hull_lo, hull_hi),)))
                if not i:
                    t = "false"
                elif not n:
                    t = "true"
                elif len(comp) < len(i):
                    t = "(not %s)" % _set_smt(comp)
                else:
                    t = _set_smt(i)
            self.smt_cache[key] = t
        return t.replace("@", "c%d" % v)

    def dom_smt(self, v):
        d = self.dom0[v]
        if d is None:
            return "true"
        t = self.smt_cache.get(d)
        if t is None:
            t = self.smt_cache[d] = _dom_smt(d)
        return t.replace("@", "c%d" % v)

    # -- relations
    def is_rel(self, v):
        if not self.clauses:
            return False
        for cl, vs in self.clauses:
            if v in vs:
                self._prune()
                for cl2, vs2 in self.clauses:
                    if v in vs2:
                        return True
                return False
        return False

    def _prune(self):
        keep = []
        for cl, vs in self.clauses:
            if type(cl) is Or and cl.ev(self) is True:
                continue
            keep.append((cl, vs))
        self.clauses = keep

    def closure(self, vs):
        vs = set(vs)
        sel = []
        rest = list(self.clauses)
        changed = True
        while changed:
            changed = False
            nxt = []
            for cl, cv in rest:
                if cv & vs:
                    vs |= cv
                    sel.append(cl)
                    changed = True
                else:
                    nxt.append((cl, cv))
            rest = nxt
        return vs, sel

    def feasible(self, f):
        acc = set()
        f.vars(acc)
        vs, sel = self.closure(acc)
        asserts = [self.cur_dom_smt(v) for v in vs]
        asserts += [c.smt(self) for c in sel]
        asserts.append(f.smt(self))
        out, _ = self.z3.check(asserts, len(self.dom))
        self.stats["feas_queries"] += 1
        if out == "unknown":
            self.note("unknown-feasibility")
            return True
        return out == "sat"

    def cur_dom_smt(self, v):
        d = self.dom[v]
        if d is None:
            return "true"
        t = self.smt_cache.get(d)
        if t is None:
            t = self.smt_cache[d] = _dom_smt(d)
        return t.replace("@", "c%d" % v)

    # -- asserting on the current path
    def narrow(self, f):
        """Assert f (already known feasible) into domains/clauses."""
        t = type(f)
        if t is In:
            self.dom[f.v] = isets.inter(self.dom[f.v], f.s) if self.dom[f.v] is not None else f.s
        elif t is And:
            for x in f.p:
                self.narrow(x)
        elif t is VV:
            i = isets.inter(self.dom[f.a], self.dom[f.b])
            self.dom[f.a] = self.dom[f.b] = i
            self.clauses.append((f, {f.a, f.b}))
        elif isinstance(f, SymBool):
            acc = set()
            f.vars(acc)
            self.clauses.append((f, acc))
            if t is Lin:
                self._lin_narrow(f)

    def _lin_narrow(self, f):
        # bound propagation keeps later domain reasoning precise; z3 has the exact constraint
        for v, c in f.t:
            lo = hi = f.k
            ok = True
            for w, cw in f.t:
                if w == v:
                    continue
                d = self.dom[w]
                if not d:
                    ok = False
                    break
                a, b = cw * d[0][0], cw * d[-1][1]
                if a > b:
                    a, b = b, a
                lo += a
                hi += b
            if not ok or self.dom[v] is None:
                continue
            # c*v + [lo,hi] <= 0 or == 0
            if f.op == "==":
                # c*v in [-hi, -lo]
                a, b = -hi, -lo
                if c > 0:
                    nlo, nhi = _cdiv(a, c), b // c
                else:
                    nlo, nhi = _cdiv(b, c), a // c
            else:
                # c*v <= -lo
                if c > 0:
                    nlo, nhi = None, (-lo) // c
                else:
                    nlo, nhi = _cdiv(-lo, c), None
            d = self.dom[v]
            nlo = d[0][0] if nlo is None else nlo
            nhi = d[-1][1] if nhi is None else nhi
            nd = isets.inter(d, ((nlo, nhi),)) if nlo <= nhi else ()
            if nd:
                self.dom[v] = nd

    def branch(self, f):
        self.nbranch += 1
        r = f.ev(self)
        if r is not None:
            g = f if r else f.neg()
            if isinstance(g, SymBool):
                self.implied[g.key()] = g
            return r
        if self.pos < len(self.prefix):
            ent = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(ent)
            if ent[0] == "I":
                g = f if ent[1] else f.neg()
                self.implied[g.key()] = g
                return ent[1]
            if ent[0] != "F":
                raise EngineError("nondeterministic replay")
            val = ent[1]
        else:
            simple = type(f) is In and not self.is_rel(f.v)
            if not simple:
                ok_t = self.feasible(f)
                ok_f = self.feasible(f.neg()) if ok_t else True
                if not (ok_t and ok_f):
                    val = ok_t
                    self.trace.append(("I", val))
                    self.pos += 1
                    g = f if val else f.neg()
                    self.implied[g.key()] = g
                    return val
            val = True
            self.pending.append(self.trace + [("F", False)])
            self.trace.append(("F", True))
            self.pos += 1
            self.stats["forks"] += 1
        g = f if val else f.neg()
        self.decisions.append(g)
        self.narrow(g)
        return val

    def choice(self, n, label=""):
        if n <= 1:
            return 0
        if self.pos < len(self.prefix):
            ent = self.prefix[self.pos]
            if ent[0] != "C" or ent[1] != n:
                raise EngineError("nondeterministic replay (choice)")
        else:
            base = list(self.trace)
            for i in range(n - 1, 0, -1):
                self.pending.append(base + [("C", n, i)])
            ent = ("C", n, 0)
            self.stats["forks"] += n - 1
        self.pos += 1
        self.trace.append(ent)
        self.choice_log.append((label, ent[2]))
        return ent[2]

    def assume(self, f):
        if not isinstance(f, SymBool):
            if not f:
                raise PathAbort()
            return
        r = f.ev(self)
        if r is True:
            return
        if r is False:
            raise PathAbort()
        if self.pos < len(self.prefix):
            ent = self.prefix[self.pos]
            if ent[0] != "A":
                raise EngineError("nondeterministic replay (assume)")
            ok = ent[1]
        else:
            ok = True
            if not (type(f) is In and not self.is_rel(f.v)):
                ok = self.feasible(f)
            ent = ("A", ok)
        self.pos += 1
        self.trace.append(ent)
        if not ok:
            raise PathAbort()
        self.decisions.append(f)
        self.narrow(f)

    def define(self, f):
        """Definitional constraint on a fresh variable (always satisfiable)."""
        self.decisions.append(f)
        self.narrow(f)

    def note(self, what):
        self.notes[what] = self.notes.get(what, 0) + 1

    def approx(self, what):
        """The path explored from here on is an under-approximation."""
        self.incomplete.append(what)
        self.note("concretised: " + what)
        self.stats["concretised"] += 1

    # -- end of path
    def check_path(self):
        """One z3 query: decisions and not(implied and properties). Returns None when the path
        is verified, else (label, model)."""
        base = [self.dom_smt(v) for v in range(len(self.dom))]
        base += [d.smt(self) for d in self.decisions]
        goal = [g.smt(self) for g in self.implied.values()]
        self.stats["implied"] += len(goal)
        bad = [lbl for lbl, p in self.props if p is False]
        allv = list(range(len(self.dom)))
        if bad:
            out, model = self.z3.check(base, len(self.dom), allv)
            self.stats["vc_queries"] += 1
            if out == "sat":
                return bad[0], model
            if out == "unsat":
                return None
            return ("unknown", None)
        goal += [p.smt(self) for lbl, p in self.props if p is not True]
        if not goal:
            # the path took no symbolic branch and every obligation is a concrete fact
            out, _ = self.z3.check(base + ["false"], len(self.dom))
            self.stats["vc_queries"] += 1
            return None
        goal = sorted(set(goal))
        out, model = self.z3.check(base + ["(not (and true %s))" % " ".join(goal)],
                                   len(self.dom), allv)
        self.stats["vc_queries"] += 1
        if out == "unsat":
            return None
        if out == "unknown":
            return ("unknown", None)
        # which obligation fails?
        for g in self.implied.values():
            out, m = self.z3.check(base + [mk_not(g).smt(self)], len(self.dom), allv)
            if out != "unsat":
                raise EngineError("domain reasoning disagrees with z3: %r" % (g.key(),))
        for lbl, p in self.props:
            if p is True:
                continue
            out, m = self.z3.check(base + ["(not %s)" % p.smt(self)], len(self.dom), allv)
            if out == "sat":
                return lbl, m
        return ("unknown", None)

    def witness(self):
        base = [self.dom_smt(v) for v in range(len(self.dom))]
        base += [d.smt(self) for d in self.decisions]
        out, model = self.z3.check(base, len(self.dom), list(range(len(self.dom))))
        self.answer = out
        return model if out == "sat" else None

    def pick_values(self):
        """Concrete values for all variables satisfying the current path, no z3 when possible."""
        return self.witness()


def _cdiv(a, b):
    return -((-a) // b)


def _set_smt(s):
    parts = []
    for lo, hi in s:
        if lo == hi:
            parts.append("(= @ %s)" % num(lo))
        else:
            parts.append("(and (<= %s @) (<= @ %s))" % (num(lo), num(hi)))
    if not parts:
        return "false"
    if len(parts) == 1:
        return parts[0]
    return "(or %s)" % " ".join(parts)


def _dom_smt(d):
    # hull and gaps: cheaper for wide domains with few holes
    comp = isets.inter(isets.compl(d), ((d[0][0], d[-1][1]),)) if d and d[0][0] >= 0 else None
    if comp is not None and len(comp) < len(d) and d[0][0] >= 0:
        hull = "(and (<= %s @) (<= @ %s))" % (num(d[0][0]), num(d[-1][1]))
        if not comp:
            return hull
        return "(and %s (not %s))" % (hull, _set_smt(comp))
    return _set_smt(d)


ENGINE = None


def init():
    global ENGINE
    ENGINE = Engine()
    return ENGINE
