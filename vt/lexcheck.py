"""Lexical-form properties: the registered conversion run on a string of symbolic characters, against the XML Schema rules."""
import sys

import z3

from . import engine as E
from . import load, stub
from . import symstr as S
from .run import Job

X = "http://www.w3.org/2001/XMLSchema#"
R = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
CONV = {}
EXTRA = {}
TEXT = S.inter(S.ALL, S.compl(((0xD800, 0xDFFF),)))  # every character a Python text can properly hold
ASCII = ((0, 127),)


def setup(extra=None):
    load.load_strings(dict(EXTRA, **(extra or {})))
    import owlrl.DatatypeHandling as D
    import rdflib.term as t
    D.use_Alt_lexical_conversions()
    CONV.clear()
    CONV.update((str(k.const), v) for k, v in t._toPythonMapping.items())


def convert(dt, s):
    """('ok', value) | ('reject', None) | ('fail', exception)"""
    try:
        return "ok", CONV[dt](s)
    except ValueError:
        return "reject", None
    except Exception as e:
        return "fail", e


def cand(ctx, dt, strings, why, extra=(), **k):
    m = ctx.model(*extra)
    if m is None:
        raise E.Infeasible()
    d = {"scenario": "lexical", "datatype": dt, "strings": [S.evalstr(s, m) for s in strings], "why": why}
    d.update(k)
    raise E.Candidate(d)


def prove(ctx, cond, dt, strings, why, **k):
    """Decide the assertion cond for every value on this path."""
    E.STATS.obligations += 1
    if isinstance(cond, bool):
        if not cond:
            cand(ctx, dt, strings, why, **k)
        return
    if isinstance(cond, E.SymBool):
        cond = cond.z
    if ctx.sat(z3.Not(cond)):
        cand(ctx, dt, strings, why, (z3.Not(cond),), **k)


def full(pat, s):
    return S._pat(pat).fullmatch(s if isinstance(s, S.SymStr) else S.SymStr([ord(c) for c in s]))


def string(ctx, name, doms):
    """doms: one interval set per character."""
    return S.SymStr([S.newchar(ctx, "ch!%s%d" % (name, i), d) for i, d in enumerate(doms)])


def sample(ctx):
    s = ctx.notes.get("strings")
    if s is None:
        return None
    m = ctx.model()
    if m is None:
        return None
    return {"scenario": "lexical", "datatype": ctx.notes["dt"], "strings": [S.evalstr(x, m) for x in s], "why": "sampled path"}


def note(ctx, dt, *s):
    ctx.notes["dt"], ctx.notes["strings"] = dt, s
    if len(E.STATS.samples) < 8 and ctx.pos == len(ctx.prefix):
        m = None
    E.STATS.witness += 0


def job(name, dt, doms, oracle, bounds, witness=True, setup=setup):
    """oracle(ctx, s, outcome, value) asserts; it must count E.STATS.witness when it sees an accepted form."""

    def path(ctx):
        s = string(ctx, "s", doms)
        x = S.lower_result(s)
        note(ctx, dt, x)
        st, v = convert(dt, x)
        if st == "fail":
            cand(ctx, dt, [x], "the conversion fails with %s: %s" % (type(v).__name__, v))
        oracle(ctx, x, st, v)

    return Job(name, path, bounds, sample, setup=setup, witness=witness)
