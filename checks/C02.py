import z3

from vt import engine as E, expand as X, load, stub, symstr as S
from vt.run import Job

ASSUMPTIONS = [
    "reading a document adds its triples to the graph (the parser is a recorder); the documents' triples are symbolic, what a name denotes is decided "
    "by equality of names; sampled paths are replayed on the real code with the same recorder",
]
BOUNDS = {
    "quick": "up to 3 initial triples and up to 3 documents of up to 2 triples (4 of 1, 1 of 3), with arbitrary subjects, predicates and objects (IRIs, and strings used as "
             "import targets), so every import graph over 3 documents with that fan-out, cycles, self-imports and shared imports included",
    "thorough": "also strings in the larger ones, documents of 2 and 3 triples, 4 documents of up to 2",
}
OUTSIDE = "documents that cannot be read; blank nodes as import targets; the choice of the parser (C01)"
IMPORTS = stub.mk_uri(X.O + "imports")
NODE = E.URI_USER | E.BNODE


class World:
    def __init__(self, ctx, sizes, lits, triples):
        self.ctx, self.sizes, self.lits = ctx, sizes, lits
        self.tokens = []  # [token, members]
        self.reads = []  # tokens
        self.docs = {}  # token -> triples
        self.triples = triples  # all the triples there are

    def name(self, t):
        """The token for the text of a term."""
        ctx = self.ctx
        lit = ctx.is_kind(t, E.LITERAL)
        for tok, ms in self.tokens:
            if any(ctx.decide(m, t) is True for m in ms):
                return tok
        for tok, ms in self.tokens:
            for m in ms:
                if (ctx.mask(m) == E.LITERAL) == lit and ctx.eq(t, m):
                    return tok
            if all(ctx.mask(m) == E.LITERAL for m in ms) if not lit else True:
                # a string may spell an IRI, or another string with a different tag
                if ctx.choose(2) == 0:
                    ms.append(t)
                    return tok
        tok = "http://names.example/%d" % len(self.tokens)
        self.tokens.append([tok, [t]])
        return tok

    def text(self, t):
        if t.const is not None and t.mask != E.LITERAL:
            return t.const
        return self.name(t) if self.ctx.mask(t) & (E.URI | E.LITERAL) else None

    def parse(self, graph, source=None, format=None, data=None, **k):
        tok = source if type(source) is str else self.name(source)
        if tok in self.reads:
            raise E.Candidate({"again": tok})
        self.reads.append(tok)
        if len(self.reads) > 12:
            raise E.Candidate({"endless": True})
        if tok not in self.docs:
            n = self.sizes[len(self.docs)] if len(self.docs) < len(self.sizes) else 0
            self.docs[tok] = [triple(self.ctx, "d%dt%d" % (len(self.docs), i), self.lits) for i in range(n)]
            self.triples += self.docs[tok]
        for t in self.docs[tok]:
            graph.add(t)
        return graph


def triple(ctx, n, lits):
    return (ctx.var("s" + n, NODE), ctx.var("p" + n, E.URI), ctx.var("o" + n, E.URI_USER | (E.LITERAL if lits else 0)))


def path_of(m, sizes, lits=False):
    def path(ctx):
        trs = [triple(ctx, "%d" % i, lits) for i in range(m)]
        g = stub.Graph(identifier="urn:g")
        for t in trs:
            g.add(t)
        all_ = list(trs)
        w = World(ctx, sizes, lits, all_)

        def literal(c, t, i):
            tok = next((x for x in w.tokens if any(ctx.find(u) == ctx.find(t) for u in x[1])), None)
            if tok is None:
                return stub.mk_literal("text%d" % i, None, None)
            u = next((u for u in tok[1] if ctx.mask(u) != E.LITERAL), None)
            n = [u for u in tok[1] if ctx.mask(u) == E.LITERAL]
            k = [ctx.find(u) for u in n].index(ctx.find(t))
            return stub.mk_literal(c(u).const if u is not None else "file-%s.ttl" % tok[0][-1], "x" * (k + 1) if k else None, None)

        def scen(why, extra=()):
            c, gr = X.scenario(ctx, trs, *extra, lit=literal, more=all_)
            docs = {}
            for tok, ms in w.tokens:
                x = c(ms[0])
                docs[str(x.lit[0]) if x.mask == E.LITERAL else x.const] = [[X.ser(c(y)) for y in t] for t in w.docs.get(tok, [])]
            return {"scenario": "imports", "graph": gr, "docs": docs, "why": why}
        ctx.notes["scen"] = lambda: scen("sampled path")
        import owlrl
        hook, stub.PARSE_HOOK, S.STR_OF = stub.PARSE_HOOK, w.parse, w.text
        try:
            owlrl.interpret_owl_imports("turtle", g)
        except E.Candidate as e:
            raise E.Candidate(scen("a document is read again" if "again" in e.info else "reading does not end"))
        except (E.Steer, E.Inconclusive):
            raise
        except Exception as e:
            raise E.Candidate(scen("fails with %s: %s" % (type(e).__name__, e)))
        finally:
            stub.PARSE_HOOK, S.STR_OF = hook, None
        final = [t for t, gs in g.store.quads]
        E.STATS.witness += len(w.reads)
        for t in all_:
            E.STATS.obligations += 2
            d = ctx.decide(t[1], IMPORTS)
            here = X.present(ctx, t, final)
            imp = t[1].z == IMPORTS.z if d is None else d
            for bad, why in ((d is not False and here is not False and z3.And(imp, here), "an import statement is left"),
                             (d is not True and here is not True and z3.And(z3.Not(imp), z3.Not(here)), "%s is lost" % (t,)),
                             (d is not False and w.name(t[2]) not in w.reads and imp, "an imported document is not read")):
                if bad is False:
                    continue
                if ctx.model(*([] if bad is True else [bad])) is not None:
                    raise E.Candidate(scen(why, [] if bad is True else [bad]))
        # nothing else is read, nothing else is added
        wanted = {w.name(t[2]) for t in all_ if ctx.decide(t[1], IMPORTS) is True}
        E.STATS.obligations += len(w.reads) + len(final)
        for tok in w.reads:
            if tok not in wanted:
                raise E.Candidate(scen("something is read that is not imported"))
        for t in final:
            here = X.present(ctx, t, all_)
            if here is not True:
                raise E.Candidate(scen("%s is added" % (t,)))
    return path


def sample(ctx):
    return ctx.notes["scen"]()


def setup():
    load.load_strings()


def jobs(tier):
    q = tier == "quick"
    out = []
    for m, sizes, lits in [(1, (), True), (1, (1,), True), (1, (1, 1), True), (2, (1,), True), (1, (1, 1, 1), False), (1, (2, 1), True), (2, (1, 1), False),
                           (3, (1,), False), (1, (2, 1, 1), False), (2, (1, 1, 1), False), (3, (), True), (1, (2, 2), False), (1, (1, 1, 1, 1), False), (1, (2, 2, 1), False), (1, (3, 1), False), (2, (2, 2), False)] + \
            ([] if q else [(1, (1, 1, 1), True), (2, (2, 1), True), (3, (1, 1), True), (3, (2, 1), False), (1, (3, 2), False), (1, (2, 1, 1, 1), False)]):
        name = "%d initial triples, documents of %s triples, %s" % (m, sizes, "IRIs and strings" if lits else "IRIs")
        out.append(Job(name, path_of(m, sizes, lits), name, sample, setup=setup))
    return out
