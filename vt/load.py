"""Load /repo's owlrl, unmodified, into the symbolic environment."""
import ast
import builtins
import importlib.abc
import importlib.util
import os
import re
import sys

REPO = os.environ.get("OWLRL_REPO", "/repo")
sys.dont_write_bytecode = True

from . import stub
from . import engine as E


REWRITE = False  # route `in`, string methods and subscripts through vt/symstr (semantics preserving)
STRMETHODS = {m for m in dir(str) if not m.startswith("_")} | {"get"}


class _Rewriter(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = ast.Call(ast.Name("__vt_in__", ast.Load()), [n.left, n.comparators[0]], [])
            return ast.copy_location(ast.UnaryOp(ast.Not(), c) if isinstance(n.ops[0], ast.NotIn) else c, n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in STRMETHODS and isinstance(f.ctx, ast.Load):
            return ast.copy_location(ast.Call(ast.Name("__vt_call__", ast.Load()), [f.value, ast.Constant(f.attr)] + n.args, n.keywords), n)
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and not isinstance(n.slice, (ast.Slice, ast.Constant)):
            return ast.copy_location(ast.Call(ast.Name("__vt_item__", ast.Load()), [n.value, n.slice], []), n)
        return n


class _Handlers(ast.NodeTransformer):
    """What an exception handler of the code catches is looked at first: a gap of the models must not pass for a failure of the code."""

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        call = ast.Expr(ast.Call(ast.Name("__vt_caught__", ast.Load()), [], []))
        n.body.insert(0, ast.copy_location(call, n.body[0]))
        return n


MODEL = re.compile(r"\b(SymStr|SymInt|SymDec|SymBool|SymBytes|TD|DT|Date|Clock|TZ|Fixed|StructTime|Timed|Term|SymMatch|SymPattern|SymChar|Graph|Dataset|Store|Value|Val)\b")


def caught():
    e = sys.exc_info()[1]
    if E.CUR is not None and type(e) in (TypeError, AttributeError, NotImplementedError) and MODEL.search(str(e)) and "not supported between" not in str(e):
        raise E.Unsupported("%s: %s" % (type(e).__name__, e))


class _TypeMeta(type):
    def __call__(cls, *a, **k):
        if len(a) == 1 and builtins.type(a[0]) is E.Term:
            return stub._class_of(a[0])
        return builtins.type(*a, **k)

    def __instancecheck__(cls, o):
        return isinstance(o, builtins.type)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.type)


class _type(metaclass=_TypeMeta):
    """The builtin, which also knows the classes of symbolic terms."""


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Finds owlrl.* in the working tree; gives every module its own builtins."""

    def __init__(self, root, overrides, imports, rewrite):
        self.root, self.overrides, self.imports, self.rewrite = root, overrides, imports, rewrite

    def find_spec(self, name, path=None, target=None):
        if name != "owlrl" and not name.startswith("owlrl."):
            return None
        rel = name.replace(".", "/")
        for f, pkg in ((os.path.join(self.root, rel, "__init__.py"), True), (os.path.join(self.root, rel + ".py"), False)):
            if os.path.exists(f):
                sp = importlib.util.spec_from_loader(name, self, origin=f, is_package=pkg)
                if pkg:
                    sp.submodule_search_locations = [os.path.dirname(f)]
                return sp
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, m):
        src = open(m.__spec__.origin, encoding="utf-8").read()
        b = dict(vars(builtins))
        b["print"] = lambda *a, **k: None
        b.update(self.overrides.get("*", {}))
        b.update(self.overrides.get(m.__name__, {}))
        imports = dict(self.imports.get("*", {}))
        imports.update(self.imports.get(m.__name__, {}))
        if imports:
            real = builtins.__import__

            def imp(name, globals=None, locals=None, fromlist=(), level=0):
                if level == 0 and name in imports:
                    return imports[name]
                return real(name, globals, locals, fromlist, level)

            b["__import__"] = imp
        m.__dict__["__builtins__"] = b
        m.__file__ = m.__spec__.origin
        b["__vt_caught__"] = caught
        if self.rewrite:
            from . import symstr as S
            b["__vt_in__"], b["__vt_call__"], b["__vt_item__"] = S.s_in, S.s_call, S.s_item
        exec(_code(src, m.__spec__.origin, self.rewrite), m.__dict__)


_CODE = {}


def _code(src, origin, rewrite):
    """Compiled once per run of a check."""
    k = (src, origin, rewrite)
    if k not in _CODE:
        tree = ast.parse(src, origin)
        if rewrite:
            # annotations are evaluated too: leave them alone
            tree = _Rewriter().visit(_strip_annotations(tree))
        _CODE[k] = compile(ast.fix_missing_locations(_Handlers().visit(tree)), origin, "exec")
    return _CODE[k]


def _strip_annotations(tree):
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            n.returns = None
            for a in n.args.args + n.args.posonlyargs + n.args.kwonlyargs + [x for x in (n.args.vararg, n.args.kwarg) if x]:
                a.annotation = None
    return tree


def load_strings(extra_imports=None, overrides=None):
    """owlrl with symbolic strings, numbers and regular expressions."""
    from . import symstr as S
    imports = {"re": S.re_module(), "decimal": S.decimal_module(), "binascii": S.binascii_module(), "base64": S.base64_module(),
               "fractions": S.fractions_module()}
    imports.update(extra_imports or {})
    return load({"*": dict(S.OVERRIDES, **(overrides or {}))}, {"*": imports}, rewrite=True)


def load(overrides=None, imports=None, repo=None, rewrite=False):
    """Import a fresh copy of owlrl.  overrides: {module|'*': {builtin: obj}}; imports: {module|'*': {name: module}}"""
    stub.install()
    for k in [k for k in sys.modules if k == "owlrl" or k.startswith("owlrl.")]:
        del sys.modules[k]
    sys.meta_path[:] = [f for f in sys.meta_path if not isinstance(f, _Finder)]
    ov = {"*": {"type": _type}}
    for k, v in (overrides or {}).items():
        ov.setdefault(k, {}).update(v)
    sys.meta_path.insert(0, _Finder(repo or REPO, ov, imports or {}, rewrite))
    import owlrl

    return owlrl
