import decimal
import re

import z3

from vt import engine as E, expand as X, stub
from vt.run import Job
from checks.D01 import SUPPORTED, NODE

ASSUMPTIONS = [
    "rdflib is replaced by the symbolic environment vt/stub.py; sampled paths are replayed on the real rdflib",
    "each registered conversion is an unconstrained symbolic function of the lexical form: it accepts it, rejects it with ValueError, or fails "
    "with another exception (D04-D06 decide the conversions themselves)",
    "the literals of the graph are not the very messages the expansion writes, and its fresh blank nodes are fresh",
    "the rounds are switched off (they may only copy literals, R02)",
]
BOUNDS = {
    "quick": "graphs of 1 and 2 triples whose objects are literals with any supported datatype, any other datatype or none, or nodes; predicates any; two literals with the same lexical form and different datatypes; "
             "each conversion accepts, rejects or fails; OWL 2 RL, combined and extended semantics",
    "thorough": "3 triples",
}
OUTSIDE = "more literals at once; KeyboardInterrupt and the like raised by a conversion"
OUT = [None, ValueError("no"), IndexError("index"), decimal.InvalidOperation(), UnicodeError("unicode"), RecursionError("deep")]
TOK = re.compile("\u27e6(\\d+)\u27e7")
ERRNS = "http://www.daml.org/2002/03/agents/agent-ont#"


class Value:
    """An accepted value nobody may look into."""


def form(t):
    """Literals with the same lexical form have the same name in texts."""
    r = E.CUR.notes.get("forms", {}).get(t.tid) if E.CUR is not None else None
    return r.token() if r is not None else None


def outcome(ctx, t, dt):
    return ctx.attr(t, "outcome", lambda: ctx.choose(len(OUT)))


def convert(dt):
    def conv(v):
        ctx = E.cur()
        m = TOK.search(v) if isinstance(v, str) else None
        if ctx is None or m is None:
            raise E.Unsupported("conversion of something that is not a lexical form")
        t = E.byid(int(m.group(1)))
        for x in [t] + [E.byid(i) for i, r in ctx.notes.get("forms", {}).items() if r is t]:
            d = ctx.attr(x, "datatype", lambda: None)
            if d is not None and ctx.decide(d, dt) is True:
                t = x
                break
        else:
            ctx.notes["wrong"] = (t, dt)
            return Value()
        k = outcome(ctx, t, dt)
        if k:
            raise OUT[k]
        return Value()
    return conv


TABLE = {}


def message(v, lang, dt):
    """The messages the code writes are no literals of the graph."""
    ctx = E.cur()
    if ctx is not None and dt is None and isinstance(v, str) and "triples" in ctx.notes:
        m = stub.mk_literal(v)
        for t in ctx.notes["triples"]:
            if t[2].const is None and (ctx.mask(t[2]) & E.LITERAL) and ctx.decide(m, t[2]) is None:
                ctx.set_ne(m, t[2])
        return m
    return None


def setup():
    stub.LITERAL_HOOK = message
    E.STR_HOOK = form
    X.setup()
    from owlrl import DatatypeHandling as D
    TABLE.clear()
    for k in list(D.AltXSDToPYTHON):
        D.AltXSDToPYTHON[k] = convert(k)
        TABLE[k.const] = k


def rejected(ctx, t):
    """True/False: does the conversion for its datatype reject the literal (forks when not decided yet)"""
    d = ctx.attr(t, "datatype", lambda: None)
    if d is None:
        return False, None
    for n in SUPPORTED:
        if n in TABLE and ctx.eq(d, TABLE[n]):
            return outcome(ctx, t, TABLE[n]) != 0, d
    return False, d


def path_of(cls, build):
    def path(ctx):
        tr = build(ctx)
        ctx.notes.update(triples=tr, cls=cls)
        g = stub.Graph(identifier="urn:g")
        for t in tr:
            g.store.raw(t, g.identifier)
        try:
            core = X.norules(cls)(g, False, False)
            core.closure()
        except (E.Steer, E.Inconclusive, E.Candidate):
            raise
        except Exception as e:
            raise E.Candidate(dict(scen(ctx), why="the expansion fails with %s: %s" % (type(e).__name__, e)))
        msgs = [q[0][2].lit[0] for q in g.store.quads if q[0][1].const == ERRNS + "error"]
        lits = []
        for s, p, o in tr:
            if not (ctx.mask(o) & ~E.LITERAL) and not any(o is x for x in lits):
                lits.append(o)
        E.STATS.obligations += len(lits)
        left = list(msgs)
        for o in lits:
            r, d = rejected(ctx, o)
            E.STATS.witness += r
            hits = [m for m in msgs if d is not None and names(ctx, m, o) and names(ctx, m, d)]
            left = [m for m in left if m not in hits or not r]
            if r and not hits:
                raise E.Candidate(dict(scen(ctx), must_errors=[o], why="a rejected literal is not reported"))
        if left:
            m = left[0]
            about = [E.byid(int(x)) for x in TOK.findall(m)]
            raise E.Candidate(dict(scen(ctx), noerrors=True, why="a report about no rejected literal: %s" % m, about=about))
    return path


def names(ctx, m, t):
    t = ctx.notes.get("forms", {}).get(t.tid, t)
    return any(ctx.decide(E.byid(int(x)), t) is True for x in TOK.findall(m))


def scen(ctx):
    tr = ctx.notes["triples"]

    def lit(c, t, i):
        a = ctx.info[ctx.find(t)][3]
        dt = a.get("datatype")
        d = c(dt) if dt is not None else None
        n = sum(1 for v in c.names.values() if v.mask == E.LITERAL)
        bad = a.get("outcome", 0)
        lex = X.lexical(d.const if d is not None else None, n, bad)
        if ctx.notes.get("forms"):
            # one lexical form for all
            lex = "#same#"
            if d is not None and not bad:
                convs.append([d.const, lex, "accept"])
        if bad:
            convs.append([d.const, lex, type(OUT[bad]).__name__])
        return stub.mk_literal(lex, None, d)
    convs = []
    c, g = X.scenario(ctx, tr, lit=lit)
    ctx.notes["conc"] = c
    return {"scenario": "expand", "class": ctx.notes["cls"], "opts": {}, "graph": g, "convs": convs}


def finish(fn):
    """Turn the terms of a candidate into what the messages must contain."""
    def path(ctx):
        try:
            fn(ctx)
        except E.Candidate as e:
            i = e.info
            c = ctx.notes["conc"]
            if "must_errors" in i:
                # whichever the implementation drops, every rejected literal has to be reported
                i["must_errors"] = [[x[1], x[0]] for x in i["convs"] if x[2] != "accept"]
            if "about" in i:
                # a report is false when it is about a literal that is fine; others may be reported rightly
                i["about"] = [str(c(t).const if c(t).mask != E.LITERAL else c(t).lit[0]) for t in i["about"]]
                bad = {x[1] for x in i["convs"] if x[2] != "accept"}
                if bad:
                    i.pop("noerrors")
                    i["mustnot_errors"] = [i["about"]] if i["about"] else []
            raise
    return path


def sample(ctx):
    tr = ctx.notes.get("triples")
    if tr is None:
        return None
    sc = scen(ctx)
    rej = [x for x in sc["convs"] if x[2] != "accept"]
    good = [t[2] for t in sc["graph"] if t[2][0] == "L" and not any(t[2][1] == x[1] and t[2][3] == x[0] for x in rej)]
    return dict(sc, must_errors=[[x[1], x[0]] for x in rej], mustnot_errors=[["'%s'" % x[1], x[3]] for x in good if x[3]], why="sampled path")


def jobs(tier):
    q = tier == "quick"
    out = []

    def lit(ctx, n, ext=False):
        t = ctx.var(n, E.LITERAL)
        if ext:
            # the datatype the extensions add has a conversion of its own (D04)
            def make():
                if ctx.choose(2):
                    return None
                d = ctx.var("dt" + n, E.URI)
                ctx.set_ne(d, stub.mk_uri(X.O + "rational"))
                return d
            ctx.attr(t, "datatype", make)
        return t

    def triple(ctx, i, preds=True, ext=False):
        s = ctx.var("s%d" % i, NODE)
        p = ctx.var("p%d" % i, E.URI_USER | (E.URI_VOCAB if preds else 0))
        return (s, p, lit(ctx, "o%d" % i, ext) if ctx.choose(2) == 0 else ctx.var("n%d" % i, NODE))

    def second(ctx):
        t = ctx.var("M", E.LITERAL)
        if q:
            k = ctx.choose(5)
            ctx.attr(t, "datatype", lambda: [None, stub.mk_uri(X.X + "integer"), stub.mk_uri(X.X + "dateTime"), stub.mk_uri("http://ex.org/dt"),
                                             stub.mk_uri(X.R + "langString")][k])
        return t
    def same(ctx):
        """Two or three literals that differ in their datatypes only."""
        ds = [None if ctx.choose(2) else ctx.var("D", E.URI)] + [[stub.mk_uri(X.X + "byte"), stub.mk_uri(X.X + "boolean"), None][ctx.choose(3)]]
        ls = []
        for i, d in enumerate(ds):
            if i and (ds[0] is None) + (d is None) == 2:
                raise E.Infeasible()
            if i and d is not None and ds[0] is not None:
                ctx.set_ne(ds[0], d)
            t = ctx.var("L%d" % i, E.LITERAL)
            ctx.attr(t, "datatype", lambda: d)
            ls.append(t)
        ctx.set_ne(*ls)
        ctx.notes["forms"] = {ls[1].tid: ls[0]}
        return [(ctx.var("s%d" % i, NODE), ctx.var("p%d" % i, E.URI_USER), t) for i, t in enumerate(ls)]
    out.append(Job("2 literals with the same lexical form", finish(path_of("OWLRL_Semantics", same)), "2 literals that differ in datatype only", sample, setup=setup))
    for cls in ("OWLRL_Semantics", "RDFS_OWLRL_Semantics", "OWLRL_Extension"):
        ext = cls == "OWLRL_Extension"
        out.append(Job("1 triple, %s" % cls, finish(path_of(cls, lambda ctx, ext=ext: [triple(ctx, 0, ext=ext)])), "1 triple", sample, setup=setup))
        if cls == "OWLRL_Semantics" or not q:
            out.append(Job("2 literals, %s" % cls, finish(path_of(cls, lambda ctx, ext=ext: [
                (ctx.var("s0", NODE), ctx.var("p0", E.URI), lit(ctx, "L", ext)), (ctx.var("s1", NODE), ctx.var("p1", E.URI_USER), second(ctx))])),
                "2 literals", sample, setup=setup))
    if not q:
        out.append(Job("3 triples", finish(path_of("OWLRL_Semantics", lambda ctx: [triple(ctx, 0), triple(ctx, 1, False), (
            ctx.var("s2", NODE), stub.OWL.sameAs, ctx.var("o2", NODE))])), "3 triples", sample, setup=setup))
    return out
