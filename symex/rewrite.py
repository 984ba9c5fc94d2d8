"""Import hook: loads selected modules from source and rewrites operations to run-time helpers."""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import rt

LEAVE = {"super", "locals", "globals", "vars", "eval", "exec", "__import__"}


def name(n):
    return ast.Name(id=n, ctx=ast.Load())


def helper(n, *args):
    return ast.Call(func=name(n), args=list(args), keywords=[])


class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.cls = []

    def visit_ClassDef(self, node):
        node.bases = [self.visit(b) for b in node.bases]
        node.keywords = [self.visit(b) for b in node.keywords]
        node.decorator_list = [self.visit(b) for b in node.decorator_list]
        self.cls.append(node.name)
        node.body = self._body(node.body)
        self.cls.pop()
        return node

    def visit_FunctionDef(self, node):
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None
                                 for d in node.args.kw_defaults]
        node.decorator_list = [self.visit(b) for b in node.decorator_list]
        node.body = self._body(node.body)
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        if isinstance(node.target, ast.Subscript) or isinstance(node.target, ast.Attribute):
            node.target = self._target(node.target)
        return node

    def mangle(self, attr):
        if self.cls and attr.startswith("__") and not attr.endswith("__"):
            return "_%s%s" % (self.cls[-1].lstrip("_"), attr)
        return attr

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in LEAVE:
            return self.generic_visit(node)
        args = [self.visit(x) for x in node.args]
        kws = [self.visit(x) for x in node.keywords]
        if isinstance(f, ast.Attribute):
            obj = self.visit(f.value)
            return ast.Call(func=name("__sx_m__"),
                            args=[obj, ast.Constant(value=self.mangle(f.attr), kind=None)] + args,
                            keywords=kws)
        return ast.Call(func=name("__sx_c__"), args=[self.visit(f)] + args, keywords=kws)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = type(node.ops[0])
            h = {ast.In: "__sx_in__", ast.NotIn: "__sx_nin__", ast.Eq: "__sx_eq__",
                 ast.NotEq: "__sx_ne__"}.get(op)
            if h:
                return helper(h, node.left, node.comparators[0])
            return node
        if any(isinstance(o, (ast.In, ast.NotIn, ast.Eq, ast.NotEq)) for o in node.ops):
            # a op b op c  ->  evaluated left to right, each operand once
            parts = []
            left = node.left
            for i, (o, c) in enumerate(zip(node.ops, node.comparators)):
                if i < len(node.ops) - 1:
                    self.tmp = getattr(self, "tmp", 0) + 1
                    t = "__sx_t%d" % self.tmp
                    if self.cls and not getattr(self, "infunc", True):
                        return node
                    c = ast.NamedExpr(target=ast.Name(id=t, ctx=ast.Store()), value=c)
                    nxt = name(t)
                else:
                    nxt = None
                parts.append(self._cmp1(left, o, c))
                left = nxt
            return ast.BoolOp(op=ast.And(), values=parts)
        return node

    def _cmp1(self, l, o, r):
        h = {ast.In: "__sx_in__", ast.NotIn: "__sx_nin__", ast.Eq: "__sx_eq__",
             ast.NotEq: "__sx_ne__"}.get(type(o))
        if h:
            return helper(h, l, r)
        return ast.Compare(left=l, ops=[o], comparators=[r])

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return helper("__sx_mod__", node.left, node.right)
        if isinstance(node.op, (ast.Sub, ast.BitAnd, ast.BitOr, ast.BitXor)):
            return helper("__sx_bin__", ast.Constant(value=type(node.op).__name__, kind=None),
                          node.left, node.right)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                parts.append(self._fv(v))
            else:
                parts.append(v)
        return helper("__sx_f__", *parts)

    def _fv(self, v):
        spec = self.visit(v.format_spec) if v.format_spec is not None else \
            ast.Constant(value="", kind=None)
        return helper("__sx_fv__", self.visit(v.value),
                      ast.UnaryOp(op=ast.USub(), operand=ast.Constant(value=1, kind=None))
                      if v.conversion == -1 else ast.Constant(value=v.conversion, kind=None), spec)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not _has_slice(node.slice):
            return helper("__sx_gi__", node.value, node.slice)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if all(k is not None and isinstance(k, ast.Constant) for k in node.keys):
            return node
        if any(k is None for k in node.keys):
            # {**a, k: v}: merge in order
            parts = []
            for k, v in zip(node.keys, node.values):
                if k is None:
                    parts.append(ast.Starred(value=ast.Call(
                        func=ast.Attribute(value=v, attr="items", ctx=ast.Load()), args=[],
                        keywords=[]), ctx=ast.Load()))
                else:
                    parts.append(ast.Tuple(elts=[k, v], ctx=ast.Load()))
            return helper("__sx_dict__", ast.List(elts=parts, ctx=ast.Load()))
        return helper("__sx_dict__", ast.List(
            elts=[ast.Tuple(elts=[k, v], ctx=ast.Load())
                  for k, v in zip(node.keys, node.values)], ctx=ast.Load()))

    def visit_Set(self, node):
        self.generic_visit(node)
        return helper("__sx_set__", ast.List(elts=node.elts, ctx=ast.Load()))

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return helper("__sx_dict__", ast.ListComp(
            elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()),
            generators=node.generators))

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return helper("__sx_set__", ast.ListComp(elt=node.elt, generators=node.generators))

    def visit_Assign(self, node):
        node.value = self.visit(node.value)
        if len(node.targets) == 1:
            t = node.targets[0]
            if isinstance(t, ast.Subscript) and not _has_slice(t.slice):
                return ast.Expr(value=helper("__sx_si__", self.visit(t.value),
                                             self.visit(t.slice), node.value))
        node.targets = [self._target(t) for t in node.targets]
        return node

    def _target(self, t):
        if isinstance(t, ast.Subscript):
            t.value = self.visit(t.value)
            t.slice = self.visit(t.slice)
        elif isinstance(t, ast.Attribute):
            t.value = self.visit(t.value)
        elif isinstance(t, (ast.Tuple, ast.List)):
            t.elts = [self._target(x) for x in t.elts]
        elif isinstance(t, ast.Starred):
            t.value = self._target(t.value)
        return t

    def visit_AugAssign(self, node):
        node.value = self.visit(node.value)
        t = node.target
        if isinstance(t, ast.Subscript) and not _has_slice(t.slice) and \
                isinstance(t.value, ast.Name) and isinstance(t.slice, (ast.Name, ast.Constant)):
            load = helper("__sx_gi__", ast.Name(id=t.value.id, ctx=ast.Load()),
                          _as_load(t.slice))
            val = ast.BinOp(left=load, op=node.op, right=node.value)
            return ast.Expr(value=helper("__sx_si__", ast.Name(id=t.value.id, ctx=ast.Load()),
                                         _as_load(t.slice), val))
        if isinstance(node.op, ast.Mod) and isinstance(t, ast.Name):
            return ast.Assign(targets=[ast.Name(id=t.id, ctx=ast.Store())],
                              value=helper("__sx_mod__", name(t.id), node.value))
        node.target = self._target(t)
        return node

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript) and not _has_slice(t.slice):
                out.append(ast.Expr(value=helper("__sx_di__", self.visit(t.value),
                                                 self.visit(t.slice))))
            else:
                out.append(ast.Delete(targets=[self._target(t)]))
        return out if len(out) > 1 else out[0]

    def visit_For(self, node):
        node.target = self._target(node.target)
        node.iter = self.visit(node.iter)
        node.body = self._body(node.body)
        node.orelse = self._body(node.orelse)
        return node

    def _body(self, body):
        out = []
        for b in body:
            r = self.visit(b)
            if isinstance(r, list):
                out.extend(r)
            else:
                out.append(r)
        return out


def _as_load(n):
    if isinstance(n, ast.Name):
        return ast.Name(id=n.id, ctx=ast.Load())
    return n


def _has_slice(n):
    if isinstance(n, ast.Slice):
        return True
    if isinstance(n, ast.Tuple):
        return any(isinstance(x, ast.Slice) for x in n.elts)
    return False


def transform(source, filename, drop=()):
    tree = ast.parse(source, filename)
    if drop:
        tree.body = [n for n in tree.body
                     if not (isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name in drop)]
    tree = Rewriter().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


INSTRUMENT = ["openformats", "testbed", "harness", "polib", "mistune", "pyparsing", "six", "yaml",
              "xml.sax.saxutils", "textwrap", "symmodels", "html"]
LOADED = {}


class Loader(importlib.abc.Loader):
    def __init__(self, path, is_pkg):
        self.path = path
        self.is_pkg = is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, "rb") as f:
            src = f.read()
        module.__dict__.update(rt.HELPERS)
        over = OVERRIDES.get(module.__name__, {})
        module.__dict__.update(over)
        code = transform(src, self.path, set(over))
        LOADED[module.__name__] = self.path
        exec(code, module.__dict__)
        post = POST.get(module.__name__)
        if post:
            post(module)


POST = {}


def _office(module):
    from . import models
    models.install_office()


POST["openformats.formats.office_open_xml.parser"] = _office


def _package(module):
    from . import models
    models.install_package()


POST["openformats.formats.indesign"] = _package


def _django(module):
    from . import models
    models.install_django()


POST["testbed.main.views"] = _django


def _trim_arity(func, maxargs=2):
    """pyparsing finds a parse action's arity by inspecting tracebacks; the rewritten code has
    extra frames, so the arity is read from the signature instead (same calls result)."""
    import inspect
    if func in (sum, len, sorted, reversed, list, tuple, set, any, all, min, max):
        return lambda s, l, t: rt.call(func, t)
    try:
        sig = inspect.signature(func)
        ps = [p for p in sig.parameters.values()
              if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)]
        n = len(ps)
        if any(p.kind == p.VAR_POSITIONAL for p in sig.parameters.values()):
            n = 3
    except (ValueError, TypeError):
        n = 1
    n = min(n, 3)
    return lambda *args: rt.call(func, *args[len(args) - n:])


OVERRIDES = {"pyparsing": {"_trim_arity": _trim_arity}}


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        for p in INSTRUMENT:
            if fullname == p or fullname.startswith(p + "."):
                break
        else:
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path, target)
        if spec is None or not spec.origin or not spec.origin.endswith(".py"):
            return spec
        is_pkg = spec.submodule_search_locations is not None
        loader = Loader(spec.origin, is_pkg)
        ns = importlib.util.spec_from_file_location(
            fullname, spec.origin, loader=loader,
            submodule_search_locations=spec.submodule_search_locations)
        return ns


def install():
    for m in list(sys.modules):
        for p in INSTRUMENT:
            if m == p or m.startswith(p + "."):
                del sys.modules[m]
    sys.meta_path.insert(0, Finder())
