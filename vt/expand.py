"""Whole expansions in the symbolic environment: the real closure() of a semantics class on a graph of symbolic triples,
with the rounds switched off (they are R01-R09 and E01) or replaced; concretisation of what the solver finds."""
import re

import z3

from . import engine as E
from . import load, stub
from .engine import Term, mkconst

X = "http://www.w3.org/2001/XMLSchema#"
R = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
S = "http://www.w3.org/2000/01/rdf-schema#"
O = "http://www.w3.org/2002/07/owl#"
RULESFREE = {}


def setup(**k):
    load.load(**k)
    RULESFREE.clear()


def cls(name):
    import sys
    for m in ("owlrl", "owlrl.RDFSClosure", "owlrl.OWLRL", "owlrl.CombinedClosure", "owlrl.OWLRLExtras", "owlrl.Closure"):
        c = getattr(sys.modules.get(m), name, None)
        if c is not None:
            return c
    raise E.Inconclusive("class %s not found" % name)


def norules(name):
    """The class with rounds that add nothing."""
    if name not in RULESFREE:
        RULESFREE[name] = type.__new__(type, name, (cls(name),), {"rules": lambda self, t, n: None})
    return RULESFREE[name]


U = stub.mk_uri


def uri(n):
    return U("http://ex.org/" + n)


# well-formed lexical forms, several per datatype (distinct terms)
LEX = {"boolean": ["true", "false", "1", "0"], "string": ["a", "b", "c", "d"], "hexBinary": ["AB", "CD", "EF", "01"],
       "base64Binary": ["YQ==", "Yg==", "Yw==", "ZA=="], "anyURI": ["http://a/", "http://b/", "http://c/", "http://d/"],
       "dateTime": ["200%d-01-01T00:00:00" % i for i in range(1, 5)], "dateTimeStamp": ["200%d-01-01T00:00:00Z" % i for i in range(1, 5)],
       "time": ["0%d:00:00" % i for i in range(1, 5)], "date": ["200%d-01-01" % i for i in range(1, 5)],
       "negativeInteger": ["-1", "-2", "-3", "-4"], "nonPositiveInteger": ["-1", "-2", "-3", "-4"],
       "language": ["en", "de", "fr", "nl"]}
for _n in ("integer", "decimal", "nonNegativeInteger", "positiveInteger", "long", "int", "short", "byte", "unsignedLong", "unsignedInt",
           "unsignedShort", "unsignedByte", "float", "double"):
    LEX[_n] = ["1", "2", "3", "4"]
BADLEX = ["#bad1#", "#bad2#", "#bad3#", "#bad4#"]


def lexical(dt, i, bad=False):
    if bad:
        return BADLEX[i % 4]
    n = dt.rsplit("#", 1)[-1] if dt else "string"
    if n == "XMLLiteral":
        return "<a>%d</a>" % i
    if n == "PlainLiteral":
        return "%s@en" % "abcd"[i % 4]
    return LEX.get(n, ["a", "b", "c", "d"])[i % 4]


class Concrete:
    """Turns the symbolic terms of a path into concrete ones, by a model."""

    def __init__(self, ctx, m, known, lit=None):
        self.ctx, self.m, self.lit = ctx, m, lit
        self.names = {}
        self.known = {t.tid for t in known} | {t.tid for t in ctx.touched}

    def __call__(self, t):
        if t.const is not None:
            if t.mask == E.LITERAL and t.lit is not None and t.lit[2] is not None and t.lit[2].const is None:
                return stub.mk_literal(t.lit[0], t.lit[1], self(t.lit[2]))
            return t
        m = self.m
        x = m.eval(t.z, model_completion=True).as_long()
        if x in self.known:
            return E.byid(x)
        if x in self.names:
            return self.names[x]
        k = m.eval(E.Kind(t.z), model_completion=True).as_long()
        i = len(self.names) + 1
        if k == E.LITERAL:
            r = self.literal(t, i)
        elif k == E.BNODE:
            r = mkconst("v%d" % i, E.BNODE)
        elif k == E.URI_VOCAB:
            # some vocabulary IRI not compared with anything
            r = U(O + "unknownTerm%d" % i)
        else:
            r = uri(re.sub(r"\W", "_", t.name))
        self.names[x] = r
        return r

    def literal(self, t, i):
        if self.lit is not None:
            r = self.lit(self, t, i)
            if r is not None:
                return r
        a = self.ctx.info[self.ctx.find(t)][3]
        dt = a.get("datatype")
        d = self(dt) if dt is not None else None
        n = sum(1 for v in self.names.values() if v.mask == E.LITERAL)
        return stub.mk_literal(lexical(d.const if d is not None else None, n), None, d)


def ser(t):
    if t.mask == E.LITERAL:
        lex, lang, dt = t.lit[:3]
        return ["L", str(lex), lang, dt.const if dt is not None else None]
    return ["B" if t.mask == E.BNODE else "U", t.const]


def model(ctx, triples, *extra):
    known = {x for t in triples for x in t if x.const is not None} | set(ctx.touched)
    m = ctx.model(*ctx.const_kind_facts(known), *extra)
    return m, known


def scenario(ctx, triples, *extra, lit=None, more=()):
    """(concretiser, serialised graph) or Infeasible"""
    m, known = model(ctx, list(triples) + list(more), *extra)
    if m is None:
        raise E.Infeasible()
    c = Concrete(ctx, m, known, lit)
    return c, [[ser(c(x)) for x in t] for t in triples]


# ------------------------------------------------------------------ queries over decided terms
def same(ctx, a, b):
    """True / False / None"""
    return ctx.decide(a, b)


def teq(ctx, t, u):
    """Condition under which two triples are equal."""
    out = []
    for x, y in zip(t, u):
        d = ctx.decide(x, y)
        if d is False:
            return False
        if d is None:
            out.append(x.z == y.z)
    return True if not out else z3.And(out)


def anyof(conds):
    conds = [c for c in conds if c is not False]
    if any(c is True for c in conds):
        return True
    return z3.Or(conds) if conds else False


def present(ctx, t, pool):
    return anyof(teq(ctx, t, u) for u in pool)
