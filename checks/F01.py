import base64
import datetime
from decimal import Decimal
from fractions import Fraction

import z3

from vt import engine as E, lexcheck as L, load, stub, symstr as S
from vt.run import Job

X, R = L.X, L.R
ASSUMPTIONS = [
    "the conversions of the base types are those of D04-D06 and are replaced by ones that give symbolic values: any integer, any multiple of 1/4, any instant, "
    "octet strings and texts of symbolic characters; Python's comparisons of them are the mathematical ones",
    "sampled paths are replayed on the real class, with facet values and candidates converted by the real conversions from lexical forms",
    "regular expressions are modelled in vt/symstr.py; the oracle matches them by its own definition",
]
BOUNDS = {
    "quick": "ordered types: up to 3 bounds (4 types) or 2 (the other 18), facets of other kinds next to one bound, any values; lengths: up to 3 facets, values of up to 4 octets or "
             "characters; patterns: 8 expressions, up to 2 and a length facet; plain literals with and without language, up to 2 language ranges",
    "thorough": "one facet more of every kind, values of up to 6 characters",
}
OUTSIDE = "NaN as a facet; dates without a zone compared with zoned ones; facet values of a wrong kind; other regular expressions (pattern syntax is Python's)"
INTS = {"integer": (None, None), "nonNegativeInteger": (0, None), "nonPositiveInteger": (None, 0), "positiveInteger": (1, None), "negativeInteger": (None, -1),
        "long": (-2**63, 2**63 - 1), "int": (-2**31, 2**31 - 1), "short": (-2**15, 2**15 - 1), "byte": (-128, 127), "unsignedLong": (0, 2**64 - 1),
        "unsignedInt": (0, 2**32 - 1), "unsignedShort": (0, 2**16 - 1), "unsignedByte": (0, 255)}
EPOCH = datetime.datetime(2000, 1, 1)


class Ordered:
    """A value known by its rank only."""

    def __init__(self, z):
        self.z = z

    def _c(self, o, f):
        if isinstance(o, int):
            o = Ordered(z3.IntVal(o))
        if not isinstance(o, (Ordered, E.SymInt)):
            raise TypeError("not comparable")
        return E.SymBool(f(self.z, o.z))

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._c(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._c(o, lambda a, b: a != b)

    __hash__ = None


def lex(base, i):
    """The lexical form with rank i."""
    if base in INTS:
        return str(i)
    if base in ("decimal", "double", "float"):
        return format(Decimal(i) / 4, "f")
    if base in ("dateTime", "dateTimeStamp"):
        return (EPOCH + datetime.timedelta(seconds=i)).isoformat() + "Z"
    if base == "time":
        return (EPOCH + datetime.timedelta(seconds=i)).time().isoformat() + "Z"
    return (EPOCH + datetime.timedelta(days=i)).date().isoformat()


def ranks(base):
    if base in INTS:
        return INTS[base]
    return {"decimal": (None, None), "double": (-2**40, 2**40), "float": (-2**20, 2**20), "dateTime": (-10**9, 10**9), "dateTimeStamp": (-10**9, 10**9),
            "time": (0, 86399), "date": (-10**5, 10**5)}[base]


def bounded(ctx, z, lim):
    for c in ([z >= lim[0]] if lim[0] is not None else []) + ([z <= lim[1]] if lim[1] is not None else []):
        ctx.assume(c)
    return z


SEEN = {}


def setup():
    load.load_strings()
    import owlrl.DatatypeHandling as D
    S.STR_OF = lambda t: t.lit[0] if t.lit is not None else None
    for k in list(D.AltXSDToPYTHON):
        D.AltXSDToPYTHON[k] = lambda v: SEEN[v]


# ---------------------------------------------------------------- patterns, with their meaning
def ch(s):
    return ("c", S.fromchars(s), s)


A, B, C = ch("a"), ch("b"), ch("c")
AB = ("c", S.fromchars("ab"), "[ab]")
NOTA = ("c", S.compl(S.fromchars("a")), "[^a]")
ANY = ("c", S.compl(S.fromchars("\n")), ".")
seq = lambda *x: ("s",) + x
alt = lambda *x: ("a",) + x
star = lambda x: ("*", x)
PATTERNS = [A, seq(A, B), star(AB), alt(A, seq(A, B)), seq(A, alt(B, seq())), star(seq(A, B)), seq(ANY, B), star(NOTA)]


def text(p):
    if p[0] == "c":
        return p[2]
    if p[0] == "s":
        return "".join(text(x) for x in p[1:])
    if p[0] == "a":
        return "(?:" + "|".join(text(x) for x in p[1:]) + ")"
    return "(?:" + text(p[1]) + ")*"


def plaintext(p):
    """Without the group around a top-level alternative: 'a|ab'."""
    return "|".join(text(x) for x in p[1:]) if p[0] == "a" else text(p)


def means(p, cs, i, j):
    """The pattern matches cs[i:j]."""
    if p[0] == "c":
        return S.zin(S.zchar(cs[i]), p[1]) if j == i + 1 else z3.BoolVal(False)
    if p[0] == "s":
        if len(p) == 1:
            return z3.BoolVal(i == j)
        return z3.Or([z3.And(means(p[1], cs, i, k), means(("s",) + p[2:], cs, k, j)) for k in range(i, j + 1)])
    if p[0] == "a":
        return z3.Or([means(x, cs, i, j) for x in p[1:]])
    return z3.Or([z3.BoolVal(i == j)] + [z3.And(means(p[1], cs, i, k), means(p, cs, k, j)) for k in range(i + 1, j + 1)])


# ---------------------------------------------------------------- one facet: (uri, value, meaning or None, concretiser -> (lexical form, datatype))
def facet(ctx, base, kind, i, length=None, chars=None, lang=None):
    n = "f%d" % i
    if kind in ("minInclusive", "minExclusive", "maxInclusive", "maxExclusive"):
        b = base if base in ORDERED else "integer"
        z = z3.Int(n + ctx.notes["id"])
        if b not in INTS:
            bounded(ctx, z, ranks(b))
        v = ctx.notes.get("value")
        mean = None
        if base in ORDERED:
            mean = {"minInclusive": z <= v, "minExclusive": z < v, "maxInclusive": v <= z, "maxExclusive": v < z}[kind]
        val = Ordered(z) if base in ORDERED else E.SymInt(z)
        return X + kind, val, mean, lambda m: (lex("integer" if b in INTS else b, m.eval(z, model_completion=True).as_long()), X + ("integer" if b in INTS else b))
    if kind in ("length", "minLength", "maxLength"):
        z = bounded(ctx, z3.Int(n + ctx.notes["id"]), (0, None))
        mean = None if length is None else {"length": z == length, "minLength": z <= length, "maxLength": z >= length}[kind]
        return X + kind, E.SymInt(z), mean, lambda m: (str(m.eval(z, model_completion=True).as_long()), X + "nonNegativeInteger")
    if kind == "pattern":
        p = PATTERNS[ctx.choose(len(PATTERNS))] if chars is not None else A
        return X + kind, plaintext(p), None if chars is None else means(p, chars, 0, len(chars)), lambda m: (plaintext(p), X + "string")
    if kind == "langRange":
        if lang is None:
            return R + kind, "en", None, lambda m: ("en", X + "string")
        r, f = [("en", lambda l: l[:1] == ["en"]), ("*", lambda l: l != [""]), ("de-at", lambda l: l == ["de", "at"]), ("DE", lambda l: l[:1] == ["de"])][ctx.choose(4)]
        return R + kind, r, z3.BoolVal(f(lang[0].split("-"))), lambda m: (r, X + "string")
    z = z3.Int(n + ctx.notes["id"])
    return "http://ex.org/facet", E.SymInt(z), None, lambda m: (str(m.eval(z, model_completion=True).as_long()), X + "integer")


ORDERED = set(INTS) | {"decimal", "double", "float", "dateTime", "dateTimeStamp", "time", "date"}
BYTES = {"hexBinary", "base64Binary"}


def value(ctx, base, size):
    """(value, length, characters, language, concretiser to a lexical form)"""
    if base in ORDERED:
        z = bounded(ctx, z3.Int("v" + ctx.notes["id"]), ranks(base))
        ctx.notes["value"] = z
        return Ordered(z), None, None, None, lambda m: lex(base, m.eval(z, model_completion=True).as_long())
    n = ctx.choose(size + 1)
    if base in BYTES:
        if base == "base64Binary" and n == 0:
            raise E.Infeasible()
        zs = [bounded(ctx, z3.Int("o%d%s" % (i, ctx.notes["id"])), (0, 255)) for i in range(n)]

        def conc(m):
            b = bytes(m.eval(z, model_completion=True).as_long() for z in zs)
            return b.hex() if base == "hexBinary" else base64.b64encode(b).decode()
        return S.SymBytes(zs), n, None, None, conc
    cs = [S.newchar(ctx, "ch!%d" % i, S.fromchars("abc")) for i in range(n)]
    if n == 0 and base not in ("string", "normalizedString", "token", "anyURI", "PlainLiteral"):
        raise E.Infeasible()
    s = S.SymStr(cs)
    if base != "PlainLiteral":
        return s, n, cs, None, lambda m: S.evalstr(s, m)
    lang = ["", "en", "en-gb", "de-at"][ctx.choose(4)]
    N[0] += 1
    return E.mkconst(("plain", N[0]), E.LITERAL, "literal", (s, lang or None, None)), n, cs, (lang,), lambda m: S.evalstr(s, m) + "@" + lang


N = [0]


def path_of(base, kinds, size=0):
    """kinds: for every facet the kinds to choose from"""
    def path(ctx):
        import owlrl.RestrictedDatatype as D
        SEEN.clear()
        ctx.notes["id"] = ""
        val, n, cs, lang, conc = value(ctx, base, size)
        fs = [facet(ctx, base, ks[ctx.choose(len(ks))], i, n, cs, lang) for i, ks in enumerate(kinds)]
        SEEN["candidate"] = val
        want = z3.And([f[2] for f in fs if f[2] is not None] or [z3.BoolVal(True)])

        def scen(extra=()):
            m = ctx.model(*extra)
            if m is None:
                raise E.Infeasible()
            return {"scenario": "facets", "base": (R if base == "PlainLiteral" else X) + base, "facets": [[f[0]] + list(f[3](m)) for f in fs], "candidate": conc(m),
                    "want": z3.is_true(m.eval(want, model_completion=True)), "why": "sampled path"}
        ctx.notes["scen"] = scen
        why = None
        try:
            dt = D.RestrictedDatatype(stub.mk_uri("http://ex.org/d"), stub.mk_uri((R if base == "PlainLiteral" else X) + base),
                                      [(stub.mk_uri(f[0]), f[1]) for f in fs])
            got = bool(dt.checkValue(val))
            try:
                conv = dt.toPython("candidate") is val
            except ValueError:
                conv = False
        except (E.Steer, E.Inconclusive):
            raise
        except Exception as e:
            raise E.Candidate(dict(scen(), why="a restriction fails with %s: %s" % (type(e).__name__, e)))
        E.STATS.obligations += 2
        E.STATS.witness += got
        wrong = z3.Not(want) if got else want
        if ctx.sat(wrong):
            raise E.Candidate(dict(scen((wrong,)), why="checkValue %s a value that %s" % (("accepts", "violates a facet") if got else ("rejects", "satisfies every facet"))))
        if conv != got:
            raise E.Candidate(dict(scen(), why="the conversion of the restricted datatype %s a value that checkValue %s" % (
                "accepts" if conv else "rejects", "accepts" if got else "rejects")))
    return path


def sample(ctx):
    return ctx.notes["scen"]()


def jobs(tier):
    more = 0 if tier == "quick" else 1
    out = []

    def job(name, base, kinds, size=0):
        out.append(Job("%s: %s" % (base, name), path_of(base, kinds, size), name, sample, setup=setup))
    B = ["minInclusive", "minExclusive", "maxInclusive", "maxExclusive"]
    LEN = ["length", "minLength", "maxLength"]
    for b in sorted(ORDERED):
        n = (3 if b in ("integer", "decimal", "dateTime", "double") else 2) + more
        job("%d bounds" % n, b, [B] * n)
        job("%d bounds and another facet" % (1 + more), b, [LEN + ["pattern", "langRange", "none"]] + [B] * (1 + more))
        job("a bound before another facet", b, [B, LEN + ["pattern", "langRange", "none"]])
        job("no facet", b, [])
    for b in sorted(BYTES):
        job("%d lengths" % (3 + more), b, [LEN] * (3 + more), 4 + more)
        job("a length and another facet", b, [LEN, B + ["pattern", "langRange", "none"]], 3)
        job("another facet", b, [B + ["pattern", "langRange", "none"], LEN], 3)
    for b in ("anyURI", "string", "token", "NMTOKEN", "Name", "NCName", "language", "normalizedString", "PlainLiteral"):
        main = b in ("string", "PlainLiteral")
        job("%d lengths" % ((3 if main else 2) + more), b, [LEN] * ((3 if main else 2) + more), 4 + more)
        job("a pattern", b, [["pattern"]], 4 + 2 * more)
        job("a pattern and a length", b, [["pattern"], LEN], 3)
        job("two patterns", b, [["pattern"]] * 2, 3 if main else 2)
        job("another facet", b, [B + (["none"] if b == "PlainLiteral" else ["langRange", "none"]), LEN], 2)
        if b == "PlainLiteral":
            job("language ranges", b, [["langRange"]] * (2 + more), 1)
            job("language range, length and pattern", b, [["langRange"], LEN, ["pattern"]], 2)
            job("length and language range", b, [LEN + ["pattern"], ["langRange"]], 2)
    return out
