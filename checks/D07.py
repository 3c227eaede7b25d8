import z3

from vt import engine as E, expand as X, stub
from vt.run import Job

ASSUMPTIONS = [
    "a literal of a datatype RDFLib converts has a value made of a kind (truth value, number, text) and a symbolic integer, and one of several spellings; "
    "Python's equality of those values (True == 1 included) is modelled; sampled paths are replayed with real literals",
    "the rounds are switched off (they are R01)",
]
BOUNDS = {
    "quick": "graphs of up to 3 triples with literals of arbitrary values and spellings, of integer, int, decimal, boolean, string, token, an unknown "
             "datatype, none, or with one of two language tags, well-formed or not, subjects and predicates any",
    "thorough": "4 triples; 3 triples with literals and one any triple",
}
OUTSIDE = "float, double, dates, binary and anyURI literals"
TYPES = [("integer", "number"), ("decimal", "number"), ("boolean", "truth"), ("string", "text"), ("token", "text"), ("int", "number"),
         (None, "text"), ("@en", "text"), ("@de", "text"), ("http://ex.org/dt", None)]
NODE = E.URI_USER | E.BNODE


class Val:
    """The value RDFLib gives a literal."""

    def __init__(self, kind, n, cls):
        self.kind, self.n, self.cls = kind, n, cls

    @property
    def __class__(self):
        return self.cls

    def __eq__(self, o):
        if type(o) is not Val:
            if isinstance(o, bool) or isinstance(o, int) and self.kind != "text":
                return E.CUR.branch(self.n == int(o))
            return False
        if (self.kind == "text") != (o.kind == "text"):
            return False
        return E.CUR.branch(self.n == o.n)

    def __ne__(self, o):
        return not self.__eq__(o)

    def __bool__(self):
        return E.CUR.branch(self.n != 0) if self.kind != "text" else True

    def __hash__(self):
        return 7


class Lit:
    def __init__(self, ctx, i, types):
        self.dt, self.kind = types[ctx.choose(len(types))]
        self.lang = self.dt[1:] if self.dt and self.dt[0] == "@" else None
        self.bad = self.kind == "number" and ctx.choose(2) == 1
        self.n, self.sp = z3.Int("n%d" % i), z3.Int("sp%d" % i)
        few = 2 if self.kind == "truth" else 1 if self.kind in ("text", None) or self.bad else 4
        ctx.assume(z3.And(self.sp >= 0, self.sp < few, self.n >= 0, self.n <= (1 if self.kind == "truth" else 30)))
        self.term = None
        self.i = i

    def make(self, ctx, others):
        for o in others:
            if (o.dt, o.bad) == (self.dt, self.bad) and ctx.branch(z3.And(o.n == self.n, o.sp == self.sp)):
                self.term = o.term
                return
        t = self.term = ctx.var("l%d" % self.i, E.LITERAL)
        for o in others:
            if o.term is not t:
                ctx.set_ne(t, o.term)
        dt = None if self.lang or self.dt is None else stub.mk_uri(self.dt if ":" in self.dt else X.X + self.dt)
        import decimal
        v = None
        if self.kind and not self.bad:
            v = Val(self.kind, self.n, {"truth": bool, "text": str, "number": decimal.Decimal if self.dt == "decimal" else int}[self.kind])
        for k, x in (("datatype", dt), ("language", self.lang), ("value", v)):
            ctx.attr(t, k, lambda: x)

    def concrete(self, m):
        n, sp = m.eval(self.n, model_completion=True).as_long(), m.eval(self.sp, model_completion=True).as_long()
        if self.kind == "truth":
            lex = [["false", "0"], ["true", "1"]][n][sp]
        elif self.bad:
            lex = "#bad%d" % n
        elif self.kind == "number":
            lex = ["%d", "+%d", "0%d", "00%d"][sp] % n if self.dt != "decimal" else ["%d.0", "+%d.0", "%d.00", "%d"][sp] % n
        else:
            lex = str(n)  # a text that spells a number
        dt = None if self.lang or self.dt is None else stub.mk_uri(self.dt if ":" in self.dt else X.X + self.dt)
        return stub.mk_literal(lex, self.lang, dt)


def same(a, b):
    """z3 condition (or bool): the two literals have the same value."""
    if a.term is b.term:
        return True
    if a.lang != b.lang or a.kind != b.kind or a.kind is None or a.bad or b.bad:
        return False
    return a.n == b.n


def path_of(k, types, other=False, samep=False):
    def path(ctx):
        lits = []
        for i in range(k):
            x = Lit(ctx, i, types)
            x.make(ctx, lits)
            lits.append(x)
        p0 = ctx.var("p", E.URI)
        trs = [(ctx.var("s%d" % i, NODE), p0 if samep else ctx.var("p%d" % i, E.URI), x.term) for i, x in enumerate(lits)]
        if other:
            trs.append((ctx.var("s", NODE), ctx.var("q", E.URI), ctx.var("o", NODE | E.URI)))
        # different triples
        for i in range(k):
            for j in range(i):
                if trs[i][2] is trs[j][2]:
                    ctx.set_ne(trs[i][0], trs[j][0])
        g = stub.Graph(identifier="urn:g")
        for t in trs:
            g.store.raw(t, g.identifier)

        def scen1(why, extra=(), must=(), mustnot=()):
            m = ctx.model(*extra)
            if m is None:
                raise E.Infeasible()
            by = {x.term.tid: x for x in reversed(lits)}
            m2, known = X.model(ctx, trs, *extra)
            c0 = X.Concrete(ctx, m2, known)
            c = lambda t: by[t.tid].concrete(m2) if t.tid in by else c0(t)
            s = lambda ts: [[X.ser(c(x)) for x in t] for t in ts]
            return {"scenario": "expand", "class": "RDFS_Semantics", "norules": True, "opts": {}, "graph": s(trs), "must": s(must), "mustnot": s(mustnot), "why": why}
        def scen(why, extra=(), must=(), mustnot=()):
            """With, beside one model, models with other orders of the spellings."""
            one = scen1(why, extra, must, mustnot)
            one["others"] = []
            for a in lits:
                for b in lits:
                    if a is not b:
                        try:
                            one["others"].append(scen1(why, list(extra) + [a.n > 0, b.n > 0, a.sp < b.sp], must, mustnot))
                        except E.Infeasible:
                            pass
            return one
        try:
            X.norules("RDFS_Semantics")(g, False, False).closure()
        except (E.Steer, E.Inconclusive, E.Candidate):
            raise
        except Exception as e:
            raise E.Candidate(scen("the expansion fails with %s: %s" % (type(e).__name__, e)))
        final = [t for t, gs in g.store.quads]
        must, mustnot = [], []
        for t, x in zip(trs, lits):
            for y in lits:
                u = (t[0], t[1], y.term)
                c = same(x, y)
                here = X.present(ctx, u, final)
                E.STATS.obligations += 2
                E.STATS.witness += x.term is not y.term and c is not False
                if c is not False and here is not True:
                    extra = [e for e in (c, z3.Not(here) if here is not False else True) if e is not True]
                    if ctx.model(*extra) is not None:
                        raise E.Candidate(scen("missing: %s" % (u,), extra, must=[u]))
        for u in final:
            E.STATS.obligations += 1
            if any(all(a is b for a, b in zip(u, t)) for t in trs):
                continue
            ok = [X.teq(ctx, u, t) for t in trs]
            for t, x in zip(trs, lits):
                for y in lits:
                    c, d = same(x, y), X.teq(ctx, u, (t[0], t[1], y.term))
                    if c is not False and d is not False:
                        ok.append(z3.And([e for e in (c, d) if e is not True] + [z3.BoolVal(True)]))
            bad = z3.Not(z3.Or([z3.BoolVal(o) if isinstance(o, bool) else o for o in ok]))
            if ctx.model(bad) is not None:
                raise E.Candidate(scen("not due: %s" % (u,), [bad], mustnot=[u]))
        ctx.notes["scen"] = lambda: scen1("sampled path", (), [t for t in trs] + [t for t in final])
    return path


def sample(ctx):
    return ctx.notes["scen"]()


def jobs(tier):
    q = tier == "quick"
    out = []

    def job(k, types, what, witness=True, **kw):
        name = "%d literals, %s" % (k, what)
        out.append(Job(name, path_of(k, types, **kw), name, sample, setup=X.setup, witness=witness))
    for a in range(len(TYPES)):
        for b in range(a, len(TYPES)):
            out.append(Job("%s and %s" % (TYPES[a][0], TYPES[b][0]), path_of(2, [TYPES[a], TYPES[b]]), "2 literals", sample, setup=X.setup,
                           witness=TYPES[a][1] == TYPES[b][1] == "number" or "boolean" in (TYPES[a][0], TYPES[b][0]) or "integer" in (TYPES[a][0], TYPES[b][0])
                           or "decimal" in (TYPES[a][0], TYPES[b][0]) or "int" in (TYPES[a][0], TYPES[b][0])))
    job(1, TYPES, "any", witness=False, other=True)
    job(2, TYPES[:4], "and another triple", other=True)
    for ts in (TYPES[:2] + TYPES[2:3], TYPES[3:5] + TYPES[6:7], TYPES[6:9]):
        job(3, ts, " ".join(str(t[0]) for t in ts), samep=True)
    if not q:
        for ts in (TYPES[:3], TYPES[:1] + TYPES[3:5], TYPES[2:4] + TYPES[9:]):
            job(3, ts, " ".join(str(t[0]) for t in ts))
            job(4, ts[:2], " ".join(str(t[0]) for t in ts[:2]), samep=True)
        job(3, TYPES[:2], "and another triple", other=True)
    return out
