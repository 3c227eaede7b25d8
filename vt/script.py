"""Run the command-line scripts of /repo/scripts under symbolic arguments: the script and (for the command line) the standard
library's optparse are compiled through the rewriting of load.py, so that symbolic strings flow through them."""
import ast
import builtins
import os
import sys as _sys
import types

from . import engine as E, load, symstr as S


_CODE = {}  # per process: every run of a check compiles anew


def compiled(path, name, imports, printed):
    """The module object and a function executing it."""
    if path not in _CODE:
        src = open(path, encoding="utf-8").read()
        tree = ast.fix_missing_locations(load._Handlers().visit(load._Rewriter().visit(load._strip_annotations(ast.parse(src, path)))))
        _CODE[path] = compile(tree, path, "exec")
    code = _CODE[path]
    b = dict(vars(builtins))
    b.update({k: v for k, v in S.OVERRIDES.items() if k in ("str", "ord")})
    b["type"] = load._type
    b["__vt_caught__"] = load.caught
    b["__vt_in__"], b["__vt_call__"], b["__vt_item__"] = S.s_in, S.s_call, S.s_item

    def pr(*a, **k):
        printed.append((a, k))
    b["print"] = pr
    real = builtins.__import__

    def imp(n, globals=None, locals=None, fromlist=(), level=0):
        if level == 0 and n in imports:
            return imports[n]
        return real(n, globals, locals, fromlist, level)
    b["__import__"] = imp
    m = types.ModuleType(name)
    m.__dict__["__builtins__"] = b
    m.__file__ = path
    return m, lambda: exec(code, m.__dict__)


class Out:
    def __init__(self):
        self.text = []

    def write(self, s):
        self.text.append(s)

    def flush(self):
        pass


def fake_sys(argv):
    m = types.ModuleType("sys")
    m.argv = argv
    m.stdout, m.stderr, m.stdin = Out(), Out(), object()
    m.path = ["/nowhere"]
    m.version_info, m.modules, m.platform, m.maxsize = _sys.version_info, {}, _sys.platform, _sys.maxsize
    m.exc_info = _sys.exc_info

    def exit(code=0):
        raise SystemExit(code)
    m.exit = exit
    return m


class Recorder:
    """Stands for convert_graph."""

    def __init__(self, fail=None):
        self.calls, self.fail = [], fail
        self.result = types.SimpleNamespace(name="the conversion's result")

    def __call__(self, options, closureClass=None):
        self.calls.append((options, closureClass))
        if self.fail is not None:
            raise self.fail
        return self.result


def owlrl_standin(rec):
    """The package as the scripts see it: everything real but convert_graph."""
    import owlrl
    m = types.ModuleType("owlrl")
    m.__dict__.update({k: v for k, v in vars(owlrl).items() if not k.startswith("__")})
    m.convert_graph = rec
    return m


def command_line(args):
    """(outcome, recorder, printed): outcome None or the exception that ended the run"""
    printed = []
    rec = Recorder()
    fs = fake_sys(["owlrl"] + list(args))
    import optparse
    om, runopt = compiled(optparse.__file__, "optparse", {"sys": fs}, printed)
    runopt()
    # the string type of options checks types.StringType etc. nowhere; builtin str is enough
    m, run = compiled(os.path.join(load.REPO, "scripts", "owlrl"), "owlrl_script",
                      {"optparse": om, "sys": fs, "owlrl": owlrl_standin(rec)}, printed)
    out = None
    try:
        run()
        m.main()
    except (E.Steer, E.Inconclusive):
        raise
    except BaseException as e:
        out = e
    return out, rec, printed
