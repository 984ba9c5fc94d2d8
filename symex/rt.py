"""Run-time helpers called by rewritten code, and models of builtins for symbolic values."""
import collections
import copy as _copy
import functools
import hashlib
import io
import itertools
import operator
import re
import sys
import types

from . import core, isets, sre, fmt, sint, sbytes
from .core import SymBool, In, mk_or, mk_and, mk_not
from .sstr import SymStr, concretise, from_items, sstr_eq, match_at
from .sint import SymInt
from .sbytes import SymBytes

FunctionType = types.FunctionType
MethodType = types.MethodType
Pattern = type(re.compile(""))
NativeMatch = type(re.match("", ""))
SYM = frozenset([SymStr, SymInt, SymBytes])
STRICT_MODULES = set()
UNDEF = object()

_dictviews = (type({}.keys()), type({}.values()), type({}.items()))


def E():
    return core.ENGINE


# ------------------------------------------------------------------ detection / concretisation

def has_sym(x, depth=3):
    t = type(x)
    if t in SYM:
        return True
    if t is str or t is int:
        return False
    if depth and (t is list or t is tuple or t is set or t is frozenset):
        for y in x:
            if has_sym(y, depth - 1):
                return True
    elif depth and isinstance(x, dict):
        for k, v in x.items():
            if has_sym(k, depth - 1) or has_sym(v, depth - 1):
                return True
    return False


def any_sym(a, k):
    for x in a:
        t = type(x)
        if t in SYM:
            return True
        if t is not str and has_sym(x):
            return True
    for x in k.values():
        if has_sym(x):
            return True
    return False


def deep_concrete(x, why):
    t = type(x)
    if t is SymStr:
        return concretise(x, why)
    if t is SymInt:
        return sint.concretise_int(x)
    if t is SymBytes:
        return x.real()
    if isinstance(x, SymBool):
        return bool(x)
    if t is list:
        return [deep_concrete(y, why) for y in x]
    if t is tuple:
        return tuple([deep_concrete(y, why) for y in x])
    if t is set:
        return set([deep_concrete(y, why) for y in x])
    if t is dict:
        return dict([(deep_concrete(k, why), deep_concrete(v, why)) for k, v in x.items()])
    return x


# ------------------------------------------------------------------ dict / set with symbolic keys

def symkey(k):
    t = type(k)
    if t in SYM:
        return True
    if t is tuple or t is frozenset:
        for y in k:
            if symkey(y):
                return True
    return False


def keyish(k):
    return isinstance(k, (str, tuple, int, frozenset))


def find_key(d, k):
    """The key of d (dict/set) equal to k on this path, or UNDEF. Forks."""
    if symkey(k):
        if k in d:              # the very same object
            return k
        for kk in list(d):
            if keyish(kk) and _keq(kk, k):
                return kk
        return UNDEF
    if k in d:
        return k
    if core.ENGINE.symkeys and keyish(k):
        for kk in list(d):
            if symkey(kk) and _keq(kk, k):
                return kk
    return UNDEF


def _keq(a, b):
    if isinstance(a, str) and isinstance(b, str):
        if len(a) != len(b):
            return False
        return bool(a == b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return all(_keq(x, y) for x, y in zip(a, b))
    if isinstance(a, (str, tuple)) or isinstance(b, (str, tuple)):
        return False
    return bool(a == b)


def need(d, k):
    return symkey(k) or core.ENGINE.symkeys


def dict_set(d, k, v):
    if need(d, k):
        kk = find_key(d, k)
        if kk is not UNDEF:
            d[kk] = v
            return
    d[k] = v


def make_dict(pairs):
    d = {}
    for k, v in pairs:
        dict_set(d, k, v)
    return d


def set_add(s, x):
    if need(s, x):
        if find_key(s, x) is not UNDEF:
            return
    s.add(x)


def make_set(items, cls=set):
    s = set()
    for x in items:
        set_add(s, x)
    return s if cls is set else cls(s)


def _model_dict_ctor(cls, a, k):
    d = cls()
    if a:
        src = a[0]
        if hasattr(src, "keys"):
            for kk in src.keys():
                dict_set(d, kk, getitem(src, kk))
        else:
            for kk, v in src:
                dict_set(d, kk, v)
    for kk, v in k.items():
        dict_set(d, kk, v)
    return d


def dict_method(d, name, a, k):
    if name == "get":
        kk = find_key(d, a[0])
        if kk is UNDEF:
            return a[1] if len(a) > 1 else k.get("default")
        return d[kk]
    if name == "pop":
        kk = find_key(d, a[0])
        if kk is UNDEF:
            if len(a) > 1:
                return a[1]
            raise KeyError(a[0])
        return type(d).pop(d, kk)
    if name == "setdefault":
        kk = find_key(d, a[0])
        if kk is UNDEF:
            d[a[0]] = a[1] if len(a) > 1 else None
            return d[a[0]]
        return d[kk]
    if name == "update" and type(d) is collections.Counter:
        for src in a + (k,):
            for x in (src.items() if isinstance(src, dict) else [(x, 1) for x in src]):
                kk = find_key(d, x[0])
                dict_set(d, x[0], x[1] + (0 if kk is UNDEF else d[kk]))
        return None
    if name == "update":
        if a:
            src = a[0]
            items = src.items() if hasattr(src, "items") else src
            for kk, v in items:
                dict_set(d, kk, v)
        for kk, v in k.items():
            dict_set(d, kk, v)
        return None
    if name in ("__contains__", "has_key"):
        return find_key(d, a[0]) is not UNDEF
    if name == "__getitem__":
        return getitem(d, a[0])
    if name == "__setitem__":
        return dict_set(d, a[0], a[1])
    if name == "__delitem__":
        return delitem(d, a[0])
    if name == "fromkeys":
        return make_dict([(x, a[1] if len(a) > 1 else None) for x in a[0]])
    return getattr(d, name)(*a, **k)


def set_method(s, name, a, k):
    cls = type(s)
    if name == "add":
        return set_add(s, a[0])
    if name in ("discard", "remove"):
        kk = find_key(s, a[0])
        if kk is UNDEF:
            if name == "remove":
                raise KeyError(a[0])
            return None
        return s.remove(kk)
    if name == "update":
        for o in a:
            for x in list(o):
                set_add(s, x)
        return None
    if name == "union":
        r = make_set(s)
        for o in a:
            for x in o:
                set_add(r, x)
        return cls(r)
    if name == "intersection":
        others = [make_set(o) for o in a]
        return cls([x for x in s if all(find_key(o, x) is not UNDEF for o in others)])
    if name == "difference":
        others = [make_set(o) for o in a]
        return cls([x for x in s if not any(find_key(o, x) is not UNDEF for o in others)])
    if name == "difference_update":
        others = [make_set(o) for o in a]
        for x in list(s):
            if any(find_key(o, x) is not UNDEF for o in others):
                s.remove(x)
        return None
    if name == "intersection_update":
        others = [make_set(o) for o in a]
        for x in list(s):
            if not all(find_key(o, x) is not UNDEF for o in others):
                s.remove(x)
        return None
    if name == "symmetric_difference":
        o = make_set(a[0])
        r = [x for x in s if find_key(o, x) is UNDEF] + [x for x in o if find_key(s, x) is UNDEF]
        return cls(r)
    if name == "issubset":
        o = make_set(a[0])
        return all(find_key(o, x) is not UNDEF for x in s)
    if name == "issuperset":
        return all(find_key(s, x) is not UNDEF for x in a[0])
    if name == "isdisjoint":
        return not any(find_key(s, x) is not UNDEF for x in a[0])
    if name == "__contains__":
        return find_key(s, a[0]) is not UNDEF
    return getattr(s, name)(*a, **k)


# ------------------------------------------------------------------ md5

class SymHash(object):
    """Ideal hash: equal contents give equal tokens, different contents different tokens."""

    def __init__(self, fn, data=b""):
        self.fn = fn
        self.data = data
        self.name = "md5"

    def update(self, d):
        self.data = self.data + d

    def copy(self):
        return SymHash(self.fn, self.data)

    def hexdigest(self):
        return hash_token(self.fn, self.data)

    def digest(self):
        return bytes.fromhex(self.hexdigest())


def hash_token(fn, data):
    e = core.ENGINE
    if type(data) is SymBytes:
        content = data.s
    else:
        try:
            content = data.decode("utf-8")
        except UnicodeDecodeError:
            return fn(data).hexdigest()
    sym = type(content) is SymStr
    for f, c, tok in e.tokens:
        if f is fn and (sym or type(c) is SymStr) and len(c) == len(content) and bool(c == content):
            return tok
        if f is fn and not sym and type(c) is str and c == content:
            return tok
    if sym:
        tok = fn(b"symex-token-%d" % len(e.tokens)).hexdigest()
    else:
        tok = fn(content.encode("utf-8")).hexdigest()
    e.tokens.append((fn, content, tok))
    return tok


# ------------------------------------------------------------------ operators

def eq(a, b):
    ta = type(a)
    if ta is str and type(b) is str:
        return a == b
    if isinstance(a, dict) and isinstance(b, dict) and (
            core.ENGINE.symkeys):
        return dict_eq(a, b)
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)) and core.ENGINE.symkeys:
        return len(a) == len(b) and all(find_key(b, x) is not UNDEF for x in a)
    r = a == b
    return bool(r) if isinstance(r, SymBool) else r


def dict_eq(a, b):
    if len(a) != len(b):
        return False
    for k, v in list(a.items()):
        kk = find_key(b, k)
        if kk is UNDEF or not eq(v, b[kk]):
            return False
    return True


def ne(a, b):
    if (isinstance(a, dict) and isinstance(b, dict)) or isinstance(a, (set, frozenset)):
        return not eq(a, b)
    r = a != b
    return bool(r) if isinstance(r, SymBool) else r


def contains_f(a, b):
    """a in b, as a formula where possible."""
    tb = type(b)
    if tb is SymStr:
        if not isinstance(a, str):
            raise TypeError("'in <string>' requires string as left operand, not %s"
                            % type(a).__name__)
        return b.contains(a)
    if tb is str:
        if type(a) is SymStr:
            if len(a) == 1:
                return In(a.var[0], isets.of(b)) if b else False
            return mk_or([match_at(b, a, i) for i in range(len(b) - len(a) + 1)])
        return a in b
    if isinstance(b, (dict, set, frozenset)) or isinstance(b, _dictviews[0]):
        if tb is dict or tb is set or tb is frozenset or (
                isinstance(b, dict) and type(b).__contains__ is dict.__contains__) or tb is _dictviews[0]:
            return find_key(b, a) is not UNDEF
        return a in b
    if tb is list or tb is tuple:
        if type(a) is SymStr:
            return mk_or([a == x for x in b if isinstance(x, str)])
        if type(a) is str:
            if a in [x for x in b if type(x) is str]:
                return True
            return mk_or([x == a for x in b if type(x) is SymStr])
        return a in b
    return a in b


def contains(a, b):
    if type(b) is str and type(a) is str:
        return a in b
    r = contains_f(a, b)
    return bool(r) if isinstance(r, SymBool) else r


def not_contains(a, b):
    return not contains(a, b)


def getitem(obj, idx):
    if isinstance(obj, dict):
        if need(obj, idx):
            kk = find_key(obj, idx)
            if kk is not UNDEF:
                return obj[kk]
            if symkey(idx) and type(obj) is dict:
                raise KeyError(idx)
        return obj[idx]
    return obj[idx]


def setitem(obj, idx, v):
    if isinstance(obj, dict):
        if need(obj, idx):
            kk = find_key(obj, idx)
            if kk is not UNDEF:
                idx = kk
    obj[idx] = v


def delitem(obj, idx):
    if isinstance(obj, dict) and need(obj, idx):
        kk = find_key(obj, idx)
        if kk is UNDEF:
            raise KeyError(idx)
        idx = kk
    del obj[idx]


def mod(a, b):
    t = type(a)
    if t is str:
        if has_sym(b):
            return fmt.percent(a, b)
        if not isinstance(b, (str, int, float)):
            if type(b) is tuple:
                for x in b:
                    if not isinstance(x, (str, int, float)):
                        return fmt.percent(a, b)
            elif type(b) is not dict:
                return fmt.percent(a, b)
        return a % b
    return a % b


_setops = {"Sub": "difference", "BitAnd": "intersection", "BitOr": "union",
           "BitXor": "symmetric_difference"}
_natops = {"Sub": operator.sub, "BitAnd": operator.and_, "BitOr": operator.or_,
           "BitXor": operator.xor}


def binop(op, a, b):
    if core.ENGINE.symkeys:
        if isinstance(a, _dictviews[0]):
            a = make_set(a)
        if isinstance(b, _dictviews[0]):
            b = make_set(b)
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            return set_method(a, _setops[op], (b,), {})
        if op == "BitOr" and isinstance(a, dict) and isinstance(b, dict):
            d = make_dict(a.items())
            dict_method(d, "update", (b,), {})
            return d
    return _natops[op](a, b)


def fstr(*parts):
    for p in parts:
        if type(p) is SymStr:
            return from_items(list(parts))
    return "".join(parts)


def fval(v, conv, spec):
    if type(spec) is SymStr:
        spec = concretise(spec)
    c = {-1: None, 115: "s", 114: "r", 97: "a"}[conv]
    t = type(v)
    if t is str and not spec and c is None:
        return v
    return fmt.one(v, c, spec)


def to_text(x):
    """str(x)"""
    t = type(x)
    if t is str or t is int:
        return str(x)
    if isinstance(x, BaseException):
        if t.__str__ is BaseException.__str__ or t.__str__ is Exception.__str__:
            if len(x.args) == 1:
                return fmt.text(x.args[0])
            if not x.args:
                return ""
            return fmt._repr(x.args)
        if isinstance(x, KeyError) and len(x.args) == 1:
            return fmt._repr(x.args[0])
    s = t.__str__
    if type(s) is FunctionType and t.__module__ != "builtins":
        r = s(x)
        if isinstance(r, str):
            return r
    if isinstance(x, (list, tuple, dict, set)) and has_sym(x):
        return fmt._repr(x)
    return str(x)


# ------------------------------------------------------------------ calls

def _truth(r):
    return bool(r) if isinstance(r, SymBool) else r


TEXTS = []  # classes whose instances stand for str subclasses


def str_method(s, name, a, k):
    """method of a concrete str with possibly symbolic arguments"""
    if name == "join":
        seq = a[0]
        if type(seq) is not list and type(seq) is not tuple:
            if type(seq) is SymStr:
                seq = list(seq)
            else:
                seq = list(seq)
        if TEXTS:
            seq = [x.data if type(x) in TEXTS else x for x in seq]
        for x in seq:
            if type(x) is SymStr:
                return SymStr(s, (), ()).join(seq)
        return s.join(seq)
    if name == "format":
        if any_sym(a, k) or any(type(x) not in (str, int) for x in a) or any(
                type(x) not in (str, int) for x in k.values()):
            return fmt.format_(s, a, k)
        return s.format(*a, **k)
    for x in a:
        t = type(x)
        if t in SYM or (t is tuple and has_sym(x)):
            if name in ("__contains__",):
                return contains(x, s)
            if name in ("__eq__",):
                return eq(s, x)
            return _truth(getattr(SymStr(s, (), ()), name)(*a, **k))
    return getattr(s, name)(*a, **k)


def mcall(*args, **k):
    obj = args[0]
    name = args[1]
    a = args[2:]
    t = type(obj)
    if t is str:
        return str_method(obj, name, a, k)
    if t is SymStr:
        r = getattr(obj, name)(*a, **k)
        return bool(r) if isinstance(r, SymBool) else r
    if t is list:
        if name == "sort" or name == "extend" and a and type(a[0]) is SymStr:
            return getattr(obj, name)(*a, **k)
        return getattr(obj, name)(*a, **k)
    if t is dict or t is collections.OrderedDict or t is collections.defaultdict or \
            t is collections.Counter:
        if a and (core.ENGINE.symkeys or has_sym(a[0])) or k and has_sym(k):
            return dict_method(obj, name, a, k)
        return getattr(obj, name)(*a, **k)
    if t is set or t is frozenset:
        if core.ENGINE.symkeys or any_sym(a, k):
            return set_method(obj, name, a, k)
        return getattr(obj, name)(*a, **k)
    if t is Pattern:
        return pat_method(obj, name, a, k)
    if t is SymBytes or t is SymInt:
        return _truth(getattr(obj, name)(*a, **k))
    if t is bytes:
        if name == "join":
            seq = list(a[0])
            if any(type(x) is SymBytes for x in seq):
                out = b""
                first = True
                for x in seq:
                    if not first:
                        out = out + obj
                    out = out + x
                    first = False
                return out
            return obj.join(seq)
        if any_sym(a, k):
            return call(getattr(obj, name), *deep_concrete(a, "bytes"), **k)
        return getattr(obj, name)(*a, **k)
    return call(getattr(obj, name), *a, **k)


def pat_method(p, name, a, k):
    if name in sre.METHODS:
        # the subject is the second argument of sub/subn, else the first
        sidx = 1 if name in ("sub", "subn") else 0
        subj = a[sidx] if len(a) > sidx else k.get("string")
        kk = dict(k)
        if "string" in kk:
            kk.pop("string")
            if sidx == 0:
                a = (subj,) + tuple(a)
            else:
                a = tuple(a[:1]) + (subj,) + tuple(a[1:])
        if "repl" in kk:
            a = (kk.pop("repl"),) + tuple(a)
        if type(subj) is SymStr or (sidx and type(a[0]) is SymStr) or (
                p.pattern in sre.SYMBOLIC):
            if type(subj) is str:
                subj = SymStr(subj, (), ())
                a = tuple(a[:sidx]) + (subj,) + tuple(a[sidx + 1:])
            if sidx and callable(a[0]) and type(a[0]) is not SymStr:
                f = a[0]
                a = (lambda m: call(f, m),) + tuple(a[1:])
            return sre.METHODS[name](p, *a, **kk)
        if sidx and callable(a[0]):
            f = a[0]
            outs = []
            # replacement results may be symbolic (e.g. hashes of symbolic text)
            i = 0
            n = 0
            cnt = a[2] if len(a) > 2 else kk.get("count", 0)
            for m in p.finditer(subj):
                if cnt and n >= cnt:
                    break
                outs.append(subj[i:m.start()])
                outs.append(call(f, m))
                i = m.end()
                n += 1
            outs.append(subj[i:])
            if isinstance(subj, bytes):
                r = b"".join(outs)
            else:
                r = from_items(outs)
            return r if name == "sub" else (r, n)
    return getattr(p, name)(*a, **k)


BUILTIN_SELF = {str, list, dict, set, frozenset, Pattern, bytes, collections.OrderedDict,
                collections.defaultdict, collections.Counter, SymStr, SymInt, SymBytes}


def safe_call(f, a, k):
    """f calls the functions it is given"""
    if f in HIGHER:
        a = tuple(through(x) for x in a)
        if k:
            k = {kk: through(v) for kk, v in k.items()}
    return f(*a, **k)


def through(x):
    t = type(x)
    if t is FunctionType:
        if x in STR_UNBOUND or x in MODELS or x in DICT_UNBOUND:
            return functools.partial(call, x)
    elif t is type and x in MODELS or t is MethodType and type(x.__self__) in BUILTIN_SELF:
        return functools.partial(call, x)
    return x


def call(*args, **k):
    f = args[0]
    a = args[1:]
    t = type(f)
    if t is FunctionType:
        g = f.__globals__
        if g is not None and "__sx__" in g:
            return f(*a, **k)
        m = MODELS.get(f)
        if m is not None:
            return m(f, a, k)
        nm = STR_UNBOUND.get(f)
        if nm is not None and a and isinstance(a[0], str):
            return mcall(a[0], nm, *a[1:], **k)
        nm = DICT_UNBOUND.get(f)
        if nm is not None and a and isinstance(a[0], dict):
            return dict_method(a[0], nm, a[1:], k) if (
                core.ENGINE.symkeys or any_sym(a[1:], k)) else f(*a, **k)
        if any_sym(a, k) and not _passthrough(f):
            return _concrete_call(f, a, k)
        return f(*a, **k)
    if t is MethodType:
        s = f.__self__
        if type(s) in BUILTIN_SELF:
            return mcall(s, f.__name__, *a, **k)
        fn = f.__func__
        if type(fn) is FunctionType:
            g = fn.__globals__
            if g is not None and "__sx__" in g:
                return f(*a, **k)
            if isinstance(s, dict) and fn in DICT_UNBOUND:
                return dict_method(s, f.__name__, a, k) if (
                    core.ENGINE.symkeys or any_sym(a, k)) else f(*a, **k)
        m = MODELS.get(fn)
        if m is not None:
            return m(f, a, k)
        if any_sym(a, k) and not _passthrough(f):
            return _concrete_call(f, a, k)
        return f(*a, **k)
    if t is functools.partial:
        kk = dict(f.keywords or {})
        kk.update(k)
        return call(f.func, *(tuple(f.args) + a), **kk)
    try:
        m = MODELS.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(f, a, k)
    if isinstance(f, type):
        if f in SAFE:
            return safe_call(f, a, k)
        if issubclass(f, BaseException):
            return f(*a, **k)
        if f.__module__ != "builtins" and isinstance(f, type):
            if issubclass(f, dict) and f.__init__ is dict.__init__ and any_sym(a, k):
                return _model_dict_ctor(f, a, k)
            if issubclass(f, str) and a and type(a[0]) is SymStr:
                return str_subclass(f, a, k)
            return f(*a, **k)
        if any_sym(a, k):
            return _concrete_call(f, a, k)
        return f(*a, **k)
    if f in SAFE:
        return safe_call(f, a, k)
    if t is BuiltinFunction and any_sym(a, k):
        return _concrete_call(f, a, k)
    return f(*a, **k)


BuiltinFunction = type(len)


def str_subclass(f, a, k):
    """An instance of a str subclass with symbolic text is represented by the text itself; the
    subclass is remembered for isinstance()."""
    hook = STR_SUBCLASS_HOOK.get(f)
    if hook:
        return hook(f, a, k)
    return a[0]


STR_SUBCLASS_HOOK = {}


def _passthrough(f):
    mod_ = getattr(f, "__module__", None) or ""
    return mod_.split(".")[0] in PASS_MODULES or mod_ in PASS_MODULES


PASS_MODULES = {"symex", "collections", "contextlib", "unittest", "itertools", "functools",
                "types", "weakref", "warnings", "logging", "abc", "_weakrefset"}


def _concrete_call(f, a, k):
    name = getattr(f, "__qualname__", None) or getattr(f, "__name__", None) or repr(f)
    why = "call:%s" % name
    a = deep_concrete(tuple(a), why)
    k = {kk: deep_concrete(v, why) for kk, v in k.items()}
    return f(*a, **k)


# ------------------------------------------------------------------ builtin models

MODELS = {}
SAFE = {list, tuple, enumerate, zip, reversed, iter, next, slice, property, super, object, len,
        id, callable, any, all, sum, min, max, sorted, staticmethod, classmethod,
        collections.deque, itertools.count, itertools.chain, itertools.islice, itertools.repeat,
        itertools.cycle, itertools.takewhile, itertools.dropwhile, itertools.groupby,
        itertools.zip_longest, itertools.product, itertools.starmap, itertools.tee, abs, divmod,
        functools.partial, bool, range, print, itertools.accumulate, issubclass,
        getattr, setattr, hasattr, memoryview, dir}


HIGHER = {itertools.takewhile, itertools.dropwhile, itertools.groupby, itertools.starmap,
          itertools.accumulate, sorted, min, max, iter}


def model(*fns):
    def deco(m):
        for f in fns:
            MODELS[f] = m
        return m
    return deco


@model(isinstance)
def m_isinstance(f, a, k):
    x, T = a
    t = type(x)
    if t is SymStr:
        return _sub(str, T)
    if t is SymInt:
        return _sub(int, T)
    if t is SymBytes:
        return _sub(bytes, T)
    if isinstance(x, SymBool):
        return _sub(bool, T)
    if t is sre.Match:
        return _sub(NativeMatch, T)
    return isinstance(x, T)


def _sub(c, T):
    if isinstance(T, tuple):
        return any(_sub(c, x) for x in T)
    return issubclass(c, T)


@model(type)
def m_type(f, a, k):
    if len(a) == 1 and not k:
        t = type(a[0])
        return {SymStr: str, SymInt: int, SymBytes: bytes, sre.Match: NativeMatch}.get(t, t)
    return type(*a, **k)


@model(str)
def m_str(f, a, k):
    if not a:
        return str(*a, **k)
    x = a[0]
    if len(a) == 1 and not k:
        return fmt.text(x) if type(x) is not str else x
    if type(x) is SymBytes:
        return x.decode(*a[1:], **k)
    return str(*a, **k)


@model(repr, ascii)
def m_repr(f, a, k):
    if has_sym(a[0]):
        return fmt._repr(a[0])
    return f(*a, **k)


@model(bytes, bytearray)
def m_bytes(f, a, k):
    if a and type(a[0]) is SymStr:
        return a[0].encode(*a[1:], **k)
    if a and type(a[0]) is SymBytes:
        return a[0]
    return f(*a, **k)


@model(int)
def m_int(f, a, k):
    if a and type(a[0]) is SymStr:
        return sint.parse_int(a[0], *(a[1:] or tuple(k.values())))
    if a and type(a[0]) is SymInt:
        return a[0]
    return int(*a, **k)


FLOATS = []


@model(print)
def m_print(f, a, k):
    if not k.get("file"):
        return None
    return print(*a, **k)


@model(float)
def m_float(f, a, k):
    if a and type(a[0]) is SymStr and FLOATS:
        return FLOATS[0](a[0])
    if a and type(a[0]) in SYM:
        return float(deep_concrete(a[0], "float"))
    return float(*a, **k)


@model(ord)
def m_ord(f, a, k):
    return sint.to_ord(a[0]) if type(a[0]) is SymStr else ord(*a)


@model(chr)
def m_chr(f, a, k):
    return sint.to_chr(a[0]) if type(a[0]) is SymInt else chr(*a)


@model(format)
def m_format(f, a, k):
    if has_sym(a[0]):
        return fmt.one(a[0], None, a[1] if len(a) > 1 else "")
    return format(*a)


@model(hash)
def m_hash(f, a, k):
    fr = sys._getframe(1)
    for _ in range(3):
        if fr is None:
            break
        if fr.f_code.co_name == "__hash__":
            # one bucket, so that __eq__ decides
            return hash(*a) * 0 if not has_sym(a[0]) else 0
        fr = fr.f_back
    if has_sym(a[0]):
        for x in (a[0] if isinstance(a[0], tuple) else a):
            if isinstance(x, (list, dict, set)):
                raise TypeError("unhashable type: %r" % type(x).__name__)
        return sint.SymInt(((E().new_var(((0, 1 << 32),), "int"), 1),), 0)
    return hash(*a)


@model(collections.Counter)
def m_counter(f, a, k):
    c = f()
    dict_method(c, "update", a, k)
    return c


@model(dict, collections.OrderedDict)
def m_dict(f, a, k):
    if core.ENGINE.symkeys or any_sym(a, k) or (a and not isinstance(a[0], (dict, list, tuple))):
        return _model_dict_ctor(f, a, k)
    return f(*a, **k)


@model(set, frozenset)
def m_set(f, a, k):
    return make_set(a[0], f) if a else f()


@model(map)
def m_map(f, a, k):
    fn = a[0]

    def gen():
        for xs in zip(*a[1:]):
            yield call(fn, *xs)
    return gen()


@model(filter)
def m_filter(f, a, k):
    fn = a[0]

    def gen():
        for x in a[1]:
            if (call(fn, x) if fn is not None else x):
                yield x
    return gen()


@model(sorted)
def m_sorted(f, a, k):
    k = dict(k)
    key = k.get("key")
    if key is not None:
        k["key"] = lambda x: call(key, x)
    return sorted(*a, **k)


@model(min, max)
def m_minmax(f, a, k):
    k = dict(k)
    key = k.get("key")
    if key is not None:
        k["key"] = lambda x: call(key, x)
    return f(*a, **k)


@model(functools.reduce)
def m_reduce(f, a, k):
    fn = a[0]
    it = iter(a[1])
    acc = a[2] if len(a) > 2 else next(it)
    for x in it:
        acc = call(fn, acc, x)
    return acc


@model(getattr, hasattr, setattr)
def m_getattr(f, a, k):
    if type(a[1]) is SymStr:
        a = (a[0], concretise(a[1], "attribute name")) + tuple(a[2:])
    return f(*a, **k)


@model(_copy.copy, _copy.deepcopy)
def m_copy(f, a, k):
    if type(a[0]) in SYM:
        return a[0]
    return f(*a, **k)


SymStr.__copy__ = lambda self: self
SymStr.__deepcopy__ = lambda self, memo: self
SymInt.__copy__ = lambda self: self
SymInt.__deepcopy__ = lambda self, memo: self


@model(hashlib.md5, hashlib.sha1, hashlib.sha256)
def m_md5(f, a, k):
    data = a[0] if a else k.get("string", b"")
    if isinstance(data, (bytes, SymBytes)):
        return SymHash(f, data)
    return f(*a, **k)


@model(re.compile)
def m_recompile(f, a, k):
    if a and type(a[0]) is SymStr:
        p = sym_pattern(a[0], a[1] if len(a) > 1 else k.get("flags", 0))
        if isinstance(p, Pattern):
            return p
        a = (p,) + tuple(a[1:])
    return re.compile(*a, **k)


@model(re.escape)
def m_reescape(f, a, k):
    if type(a[0]) is SymStr:
        return a[0].translate({i: "\\" + chr(i) for i in b'()[]{}?*+-|^$\\.&~# \t\n\r\v\f'})
    return re.escape(*a)


@model(re.search, re.match, re.fullmatch, re.finditer, re.findall, re.sub, re.subn, re.split)
def m_re(f, a, k):
    name = f.__name__
    a = list(a)
    k = dict(k)
    if not a:
        a = [k.pop("pattern")]
    pat = a.pop(0)
    flags = k.pop("flags", 0)
    npos = {"search": 1, "match": 1, "fullmatch": 1, "finditer": 1, "findall": 1,
            "sub": 3, "subn": 3, "split": 2}[name]
    if len(a) > npos:
        flags = a.pop()
    if type(pat) is SymStr:
        pat = sym_pattern(pat, flags)
    p = pat if isinstance(pat, Pattern) else re.compile(pat, flags)
    return pat_method(p, name, tuple(a), k)


SPECIALS = isets.of("()[]{}?*+|^$\\.")
ALNUM = ((48, 57), (65, 90), (97, 122))


def sym_pattern(pat, flags=0):
    """A pattern with symbolic characters that stand for themselves: in the compiled pattern they
    are private characters, which the matcher compares with the variables."""
    out = []
    esc = False
    n = 0
    for i in range(len(pat)):
        it = pat.item(i)
        if isinstance(it, str):
            esc = it == "\\" and not esc
            out.append(it)
            continue
        if flags & (re.I | re.X) or In(it, ALNUM if esc else SPECIALS):
            return concretise(pat, "regex pattern")
        esc = False
        out.append(chr(sre.PRIVATE + it))
        n += 1
    text = "".join(out)
    p = re.compile(text, flags)
    if sre.private_literals(text, flags) != n:
        return concretise(pat, "regex pattern")
    sre.SYMBOLIC.add(text)
    return p


@model(io.StringIO)
def m_stringio(f, a, k):
    if a and type(a[0]) is SymStr or True:
        return SymStringIO(*a[:1])
    return f(*a, **k)


class SymStringIO(object):
    def __init__(self, s=""):
        self.buf = s
        self.ptr = 0

    def write(self, x):
        # append-only or overwrite at pointer
        b = self.buf
        if self.ptr == len(b):
            self.buf = from_items([b, x])
        else:
            self.buf = from_items([b[:self.ptr], x, b[self.ptr + len(x):]])
        self.ptr += len(x)
        return len(x)

    def getvalue(self):
        return self.buf

    def read(self, n=-1):
        e = len(self.buf) if n is None or n < 0 else min(len(self.buf), self.ptr + n)
        r = self.buf[self.ptr:e]
        self.ptr = e
        return r

    def readline(self):
        i = self.buf.find("\n", self.ptr)
        e = len(self.buf) if i < 0 else i + 1
        r = self.buf[self.ptr:e]
        self.ptr = e
        return r

    def __iter__(self):
        while True:
            r = self.readline()
            if not len(r):
                return
            yield r

    def __next__(self):
        r = self.readline()
        if not len(r):
            raise StopIteration
        return r

    def readlines(self):
        return list(self)

    def seek(self, n, w=0):
        self.ptr = n if w == 0 else (len(self.buf) if w == 2 else self.ptr + n)
        return self.ptr

    def tell(self):
        return self.ptr

    def close(self):
        pass

    def truncate(self, n=None):
        self.buf = self.buf[:self.ptr if n is None else n]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


STR_UNBOUND = {}
for _n in dir(str):
    _f = getattr(str, _n)
    if type(_f) is FunctionType and not _n.startswith("__"):
        STR_UNBOUND[_f] = _n
DICT_UNBOUND = {}
for _n in ("get", "pop", "setdefault", "update", "__contains__", "__getitem__", "__setitem__",
           "__delitem__"):
    for _c in (dict, collections.OrderedDict, collections.defaultdict, collections.Counter):
        _f = getattr(_c, _n, None)
        if type(_f) is FunctionType:
            DICT_UNBOUND[_f] = _n

HELPERS = {
    "__sx__": True,
    "__sx_c__": call, "__sx_m__": mcall, "__sx_in__": contains, "__sx_nin__": not_contains,
    "__sx_eq__": eq, "__sx_ne__": ne, "__sx_gi__": getitem, "__sx_si__": setitem,
    "__sx_di__": delitem, "__sx_mod__": mod, "__sx_bin__": binop, "__sx_f__": fstr,
    "__sx_fv__": fval, "__sx_dict__": make_dict, "__sx_set__": make_set,
}
