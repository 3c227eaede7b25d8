import z3

from vt import engine as E, lexcheck as L, load, stub, symstr as S
from vt.run import Job

ASSUMPTIONS = [
    "the Python string methods are modelled in vt/symstr.py; sampled paths are replayed on the real class with a real rdflib literal",
    "rdflib.Literal holds the lower-cased language tag it is given, as rdflib does",
]
BOUNDS = {
    "quick": "ranges of up to 3 subtags, each a wildcard or 1, 2 or (the second one) 8 letters or digits, first characters in either case; tags of up to 4 subtags "
             "of 1, 2 or (one of them) 8 letters or digits; every choice of the characters; two ranges at once",
    "thorough": "ranges of up to 4 and tags of up to 5 subtags of 1, 2, 3 or 8 characters",
}
OUTSIDE = "more subtags; ranges and tags that are not well-formed; white space around a range"
LOW = S.norm([(97, 122)])
LOWNUM = S.norm([(48, 57), (97, 122)])
ALPHA = S.norm([(65, 90), (97, 122)])
ALNUM = S.norm([(48, 57), (65, 90), (97, 122)])
N = [0]


def setup():
    load.load_strings()


def literal(text, lang):
    N[0] += 1
    return E.mkconst(("literal", N[0]), E.LITERAL, "literal", (text, lang, None))


def subtags(ctx, name, shape, first, rest, head):
    """shape: 0 for a wildcard, else the length"""
    out = []
    for k, n in enumerate(shape):
        if n == 0:
            out.append(S.SymStr([42]))
        else:
            base = first if k == 0 else rest
            low = S.inter(base, LOWNUM)
            out.append(S.SymStr([S.newchar(ctx, "ch!%s%d.%d" % (name, k, i), head if k == 0 and i == 0 else base if i == 0 else low) for i in range(n)]))
    return out


def dashed(parts):
    chars = []
    for k, p in enumerate(parts):
        chars += ([45] if k else []) + list(p.chars)
    return S.mk(chars)


def fold(c):
    z = S.zchar(c)
    return z3.If(z3.And(z >= 65, z <= 90), z + 32, z)


def eq(a, b):
    if len(a.chars) != len(b.chars):
        return z3.BoolVal(False)
    return z3.And([fold(x) == fold(y) for x, y in zip(a.chars, b.chars)])


def matches(rng, tag):
    """RFC 4647, 3.3.2: there is an assignment of the range's subtags to the tag's, in order, skipping no singleton."""
    star = lambda x: list(x.chars) == [42]

    def rest(i, j):
        if i == len(rng):
            return z3.BoolVal(True)
        if star(rng[i]):
            return rest(i + 1, j)
        if j == len(tag):
            return z3.BoolVal(False)
        out = [z3.And(eq(rng[i], tag[j]), rest(i + 1, j + 1))]
        if len(tag[j].chars) > 1:
            out.append(rest(i, j + 1))
        return z3.Or(out)
    return z3.And(star(rng[0]) or eq(rng[0], tag[0]), rest(1, 1))


def path_of(rshapes, tshapes, nranges=1):
    def path(ctx):
        import owlrl.RestrictedDatatype as D
        rs = [rshapes[ctx.choose(len(rshapes))] for i in range(nranges)]
        ts = tshapes[ctx.choose(len(tshapes))]
        tag = subtags(ctx, "t", ts, LOW, LOWNUM, LOW)
        ranges = [subtags(ctx, "r%d" % i, r, ALPHA, ALNUM, ALPHA) for i, r in enumerate(rs)]

        def scen(extra=()):
            m = ctx.model(*extra)
            if m is None:
                raise E.Infeasible()
            return {"scenario": "langrange", "ranges": [S.evalstr(dashed(r), m) for r in ranges], "tag": S.evalstr(dashed(tag), m), "why": "sampled path"}
        ctx.notes["scen"] = scen
        try:
            dt = D.RestrictedDatatype(stub.mk_uri("http://ex.org/d"), stub.RDF.PlainLiteral,
                                      [(stub.mk_uri(L.R + "langRange"), dashed(r)) for r in ranges])
            got = bool(dt.checkValue(literal("text", dashed(tag))))
        except (E.Steer, E.Inconclusive):
            raise
        except Exception as e:
            raise E.Candidate(dict(scen(), why="checkValue fails with %s: %s" % (type(e).__name__, e)))
        want = z3.And([matches(r, tag) for r in ranges])
        E.STATS.obligations += 1
        if got:
            E.STATS.witness += 1
        wrong = z3.Not(want) if got else want
        if ctx.sat(wrong):
            raise E.Candidate(dict(scen((wrong,)), why="a tag that %s match is %s" % ("does not" if got else "does", "accepted" if got else "rejected")))
    return path


def sample(ctx):
    return ctx.notes["scen"]()


def shapes(first, rest, n):
    out = [(f,) for f in first]
    last = out
    for _ in range(n - 1):
        last = [s + (r,) for s in last for r in rest]
        out = out + last
    return out


def jobs(tier):
    q = tier == "quick"
    out = []
    R = shapes([0, 1, 2], [0, 1, 2], 3 if q else 4)
    T = shapes([1, 2], [1, 2], 4)
    if not q:
        T += shapes([2], [1, 2], 5)[-16:]
    for k in range(0, len(R), 3):
        out.append(Job("ranges %s" % (R[k:k + 3],), path_of(R[k:k + 3], T), "tags of up to %d subtags" % (4 if q else 5), sample, setup=setup, witness=False))
    long_ = [(2, 8), (0, 8), (8,), (2, 0, 8)] if q else [s for s in shapes([0, 2, 3, 8], [0, 3, 8], 3) if 8 in s or 3 in s]
    tl = [(2, 8), (8,), (2, 2, 8), (2, 8, 1, 8)] if q else [s for s in shapes([2, 3, 8], [1, 3, 8], 4) if 8 in s or 3 in s]
    for s in long_:
        out.append(Job("range %s, long subtags" % (s,), path_of([s], tl), "long subtags", sample, setup=setup, witness=False))
    S2 = shapes([0, 2], [0, 2], 2)
    out.append(Job("two ranges", path_of(S2, shapes([2], [1, 2], 3), 2), "two ranges", sample, setup=setup))
    return out
