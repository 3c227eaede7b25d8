import z3

from vt import engine as E, lexcheck as L, symstr as S, symtime as T
from vt.run import Job
from checks import D05

X, R = L.X, L.R
ASSUMPTIONS = [
    "strings, `re`, int(), Decimal, time.strptime and datetime are modelled in vt/symstr.py and vt/symtime.py; sampled paths are replayed "
    "on the real conversion functions in every run",
    "the relation of XML Schema 1.1 part 2 (figure 3) is written down in checks/D02.py",
]
BOUNDS = {
    "quick": "all datatypes; every covering pair of the stated relation on every string of up to 4 characters (string types: XML ASCII, up to 6; "
             "Unicode up to 3), numerals of 1 to 21 digits with and without sign, all date-time forms with 0, 1, 3, 6 or 7 fractional digits and any zone; "
             "bounded integers on the same numerals, zero padded ones included",
    "thorough": "strings of up to 5 (string types 8) characters, numerals of up to 40 digits, up to 9 fractional digits",
}
OUTSIDE = "longer lexical forms; the facets rdf:PlainLiteral and rdfs:Literal, above which nothing is stated by the hierarchy"

BASE = {"dateTimeStamp": "dateTime", "integer": "decimal", "long": "integer", "int": "long", "short": "int", "byte": "short",
        "nonNegativeInteger": "integer", "positiveInteger": "nonNegativeInteger", "unsignedLong": "nonNegativeInteger",
        "unsignedInt": "unsignedLong", "unsignedShort": "unsignedInt", "unsignedByte": "unsignedShort", "nonPositiveInteger": "integer",
        "negativeInteger": "nonPositiveInteger", "normalizedString": "string", "token": "normalizedString", "language": "token",
        "Name": "token", "NCName": "Name", "NMTOKEN": "token"}
RANGE = {"byte": (-2**7, 2**7 - 1), "short": (-2**15, 2**15 - 1), "int": (-2**31, 2**31 - 1), "long": (-2**63, 2**63 - 1),
         "unsignedByte": (0, 2**8 - 1), "unsignedShort": (0, 2**16 - 1), "unsignedInt": (0, 2**32 - 1), "unsignedLong": (0, 2**64 - 1),
         "nonNegativeInteger": (0, None), "positiveInteger": (1, None), "nonPositiveInteger": (None, 0), "negativeInteger": (None, -1)}
STR = {"string", "normalizedString", "token", "language", "Name", "NCName", "NMTOKEN"}
TIME = {"dateTime", "dateTimeStamp"}


def reference():
    out = set()
    for x in BASE:
        y = x
        while y in BASE:
            y = BASE[y]
            out.add((X + x, X + y))
    return out


def name(t):
    return str(t.const)


def tables():
    """The stated relations, from the loaded modules."""
    import owlrl.AxiomaticTriples as A
    import owlrl.XsdDatatypes as D
    sub = lambda d: {(name(k), name(v)) for k, vs in d.items() for v in vs}
    ax = lambda ts, p: {(name(s), name(o)) for s, q, o in ts if name(q).endswith(p)}
    ty = {name(t) for t in D.OWL_RL_Datatypes} | {name(t) for t in D.RDFS_Datatypes}
    return {"OWL_Datatype_Subsumptions": sub(D.OWL_Datatype_Subsumptions), "RDFS_Datatype_Subsumptions": sub(D.RDFS_Datatype_Subsumptions),
            "RDFS datatype axioms": ax(A.RDFS_D_Axiomatic_Triples, "#subClassOf"), "OWL datatype axioms": ax(A.OWLRL_D_Axiomatic_Triples, "#subClassOf"),
            "disjoint": ax(A.OWLRL_D_Axiomatic_Triples, "#disjointWith") | ax(A.OWLRL_Datatypes_Disjointness, "#disjointWith"),
            "types": ty}


TOPS = {"http://www.w3.org/2000/01/rdf-schema#Literal", R + "PlainLiteral"}


class Rel:
    def __init__(self, names):
        self.names = sorted(names)
        self.ix = {n: i for i, n in enumerate(self.names)}

    def var(self, n):
        v = z3.Int(n)
        return v, z3.And(v >= 0, v < len(self.names))

    def has(self, rel, x, y):
        return z3.Or([z3.And(x == self.ix[a], y == self.ix[b]) for a, b in sorted(rel)]) if rel else z3.BoolVal(False)


def table_path(which):
    def path(ctx):
        t = tables()
        ref = reference()
        rel = Rel(t["types"] | {a for p in ref for a in p} | {a for k in t if k != "types" for p in t[k] for a in p})
        (x, cx), (y, cy), (z, cz) = rel.var("x"), rel.var("y"), rel.var("z")
        ctx.assume(z3.And(cx, cy, cz))
        has = rel.has

        def decide(bad, kind, why):
            E.STATS.obligations += 1
            E.STATS.witness += 1
            m = ctx.model(bad)
            if m is not None:
                g = lambda v: rel.names[m.eval(v, model_completion=True).as_long()]
                raise E.Candidate({"scenario": "hierarchy", "kind": kind, "table": which, "x": g(x), "y": g(y), "z": g(z), "why": "%s: %s" % (which, why)})

        if which == "disjoint":
            below = t["OWL_Datatype_Subsumptions"] | t["OWL datatype axioms"]
            # z below-or-equal both: one or two steps (the relation is transitive, decided elsewhere)
            le = lambda a, b: z3.Or(a == b, has(below, a, b))
            decide(z3.And(has(t["disjoint"], x, y), le(z, x), le(z, y)), "disjoint", "datatypes with a common subtype are stated to be disjoint")
            return
        rel_ = t[which]
        if "axioms" not in which:
            decide(z3.And(has(rel_, x, y), z3.Not(has(ref, x, y))), "extra", "not a derivation XML Schema defines")
            decide(z3.And(has(ref, x, y), z3.Not(has(rel_, x, y))), "lacking", "a derivation XML Schema defines is not stated")
            decide(z3.And(has(rel_, x, y), has(rel_, y, z), z3.Not(has(rel_, x, z))), "transitive", "not transitive")
            return
        # an axiom within the datatypes is one of the relation, and above them only rdfs:Literal and (for strings) rdf:PlainLiteral
        top = z3.Or([y == rel.ix[n] for n in TOPS if n in rel.ix] or [z3.BoolVal(False)])
        strs = z3.Or([x == rel.ix[X + n] for n in STR])
        plain = y == rel.ix[R + "PlainLiteral"] if R + "PlainLiteral" in rel.ix else z3.BoolVal(False)
        decide(z3.And(has(rel_, x, y), z3.Not(has(ref, x, y)), z3.Not(z3.And(top, z3.Implies(plain, strs)))), "extra", "not a derivation XML Schema defines")
        # (x, y) is missing from the transitive closure iff some transitive relation contains the axioms and not (x, y)
        n = sorted({a for p in ref for a in p})
        b = {(p, q): z3.Bool("r!%s!%s" % (p, q)) for p in n for q in n}
        cons = [b[p] for p in rel_ if p in b]
        cons += [z3.Or(z3.Not(b[p, q]), z3.Not(b[q, r]), b[p, r]) for p in n for q in n for r in n if p != q and q != r]
        miss = z3.Or([z3.And(x == rel.ix[p], y == rel.ix[q], z3.Not(b[p, q])) for p, q in sorted(ref)])
        decide(z3.And(miss, *cons), "lacking", "a derivation XML Schema defines is not stated")

    return path


def setup():
    L.setup(T.modules())


def same(ctx, a, b):
    if S.isstr(a) and S.isstr(b):
        x, y = S.lift(a).chars, S.lift(b).chars
        return len(x) == len(y) and all(S.chareq(p, q) for p, q in zip(x, y))
    if isinstance(a, T.Timed) and isinstance(b, T.Timed):
        o, p = T.offset(a.tzinfo, a), T.offset(b.tzinfo, b)
        if (o is None) != (p is None):
            return False
        return a.local() == b.local() if o is None else a.local() - o == b.local() - p
    if S.isstr(a) or S.isstr(b) or isinstance(a, T.Timed) or isinstance(b, T.Timed):
        return False
    x, y = S.SymDec.of(a), S.SymDec.of(b)
    if x is None or y is None:
        raise E.Unsupported("values %s / %s" % (type(a).__name__, type(b).__name__))
    return "nan" not in (x.kind, y.kind) and x.cmp(y) == 0


def pair(lo, hi, doms, tag, witness):
    def path(ctx):
        s = S.lower_result(L.string(ctx, "s", doms))
        ctx.notes.update(pair=(lo, hi), str=s)
        st, v = L.convert(lo, s)
        if st != "ok":
            if st == "fail":
                bad(ctx, s, "the conversion of %s fails with %s" % (lo, type(v).__name__))
            return
        st2, w = L.convert(hi, s)
        E.STATS.witness += 1
        E.STATS.obligations += 1
        if st2 != "ok":
            bad(ctx, s, "%s does not accept a form of %s" % (hi, lo))
        c = same(ctx, v, w)
        if isinstance(c, E.SymBool):
            c = c.z
        if c is False:
            bad(ctx, s, "%s and %s give a form different values" % (lo, hi))
        if not isinstance(c, bool) and ctx.sat(z3.Not(c)):
            bad(ctx, s, "%s and %s give a form different values" % (lo, hi), (z3.Not(c),))

    def bad(ctx, s, why, extra=()):
        m = ctx.model(*extra)
        if m is None:
            raise E.Infeasible()
        raise E.Candidate({"scenario": "subsumption", "sub": lo, "sup": hi, "string": S.evalstr(s, m), "why": why})

    def sample(ctx):
        m = ctx.model()
        if m is None or "pair" not in ctx.notes:
            return None
        return {"scenario": "subsumption", "sub": lo, "sup": hi, "string": S.evalstr(ctx.notes["str"], m), "why": "sampled path"}

    return Job("%s in %s, %s" % (short(lo), short(hi), tag), path, tag, sample, setup=setup, witness=witness)


def short(t):
    return t.rsplit("#", 1)[-1]


def value(doms, dt, tag):
    def oracle(ctx, s, st, v):
        c = list(S.lift(s).chars)
        neg = False
        if S.isin(c[0], D05.SIGN):
            neg = S.isin(c[0], ((45, 45),))
            c = c[1:]
        n = z3.IntVal(0)
        for x in c:
            n = n * 10 + (z3.IntVal(x) if isinstance(x, int) else x.z) - 48
        n = z3.simplify(-n if neg else n)
        lo, hi = RANGE[dt]
        inside = z3.And(*([n >= lo] if lo is not None else []), *([n <= hi] if hi is not None else []))
        L.prove(ctx, inside if st == "ok" else z3.Not(inside), X + dt, [s], "xsd:%s accepts exactly its range" % dt)
        E.STATS.witness += 1
        if st == "ok":
            d = S.SymDec.of(v)
            L.prove(ctx, d is not None and d.kind == "fin" and d.cmp(S.SymDec(neg, z3.simplify(-n if neg else n), z3.IntVal(0))) == 0,
                    X + dt, [s], "xsd:%s: another value" % dt)
    return L.job("%s, %s" % (dt, tag), X + dt, doms, oracle, tag, setup=setup)


def jobs(tier):
    q = tier == "quick"
    out = []
    L.setup()
    t = tables()
    for w in ("OWL_Datatype_Subsumptions", "RDFS_Datatype_Subsumptions", "RDFS datatype axioms", "OWL datatype axioms", "disjoint"):
        out.append(Job(w, table_path(w), "all triples of datatypes", setup=L.setup))
    rel = {p for p in t["OWL_Datatype_Subsumptions"] | t["RDFS_Datatype_Subsumptions"] if p[0] in L.CONV and p[1] in L.CONV and p[0] != p[1]}
    cover = sorted(p for p in rel if not any((p[0], z) in rel and (z, p[1]) in rel and (z, p[0]) not in rel for z in {a for r in rel for a in r}))
    digits = (1, 2, 3, 5, 10, 19, 20, 21) if q else (1, 2, 3, 4, 5, 6, 9, 10, 11, 18, 19, 20, 21, 22, 30, 40)
    for lo, hi in cover:
        a, b = short(lo), short(hi)
        numeric = a in RANGE or a in ("integer", "decimal")
        if a in STR:
            for n in range(0, 7 if q else 9):
                out.append(pair(lo, hi, [D06CH] * n, "%d characters" % n, False))
            for n in range(1, 4 if q else 5):
                out.append(pair(lo, hi, [L.TEXT] * n, "%d Unicode characters" % n, False))
            continue
        for n in range(0, 5 if q else 6):
            out.append(pair(lo, hi, [L.TEXT] * n, "%d Unicode characters" % n, n > 0 and numeric and a != "negativeInteger"))
        if numeric:
            for n in digits:
                for sg in (0, 1):
                    out.append(pair(lo, hi, [D05.SIGN] * sg + [D05.DIG] * n, "%s%d digits" % ("sign, " * sg, n), bool(sg)))
        elif a in TIME:
            for fr in (0, 1, 3, 6, 7) if q else range(0, 10):
                for zn in ("", "Z", "o"):
                    out.append(pair(lo, hi, D05.form(a, fr, zn), "%d fractional digits, zone %s" % (fr, zn or "none"), bool(zn)))
    for dt in RANGE:
        for n in digits:
            for sg in (0, 1):
                out.append(value([D05.SIGN] * sg + [D05.DIG] * n, dt, "%s%d digits" % ("sign, " * sg, n)))
    return out


D06CH = S.norm([(9, 10), (13, 13), (32, 127)])
