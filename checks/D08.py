from collections.abc import Mapping

import z3

from vt import engine as E, lexcheck as L, symstr as S, symtime as T
from vt.run import Job

X = L.X
OWL = "http://www.w3.org/2002/07/owl#"
ASSUMPTIONS = [
    "`time.strptime` is modelled by the regular expression CPython builds for the format plus the calendar check (vt/symtime.py), "
    "binascii.a2b_base64 by its state machine, Fraction by a pair of integers, strings and `re` as in vt/symstr.py; sampled paths are "
    "replayed on the real conversions",
    "a form of owl:rational without a denominator, as the code accepts it, stands for the integer",
    "gYear and gYearMonth forms with a year before 0001 or after 9999 carry no claim",
]
BOUNDS = {
    "quick": "every Unicode string of up to 6 characters, and of the length of each Gregorian form without zone and with one; all digits and zones symbolic; "
             "base64Binary up to 9 characters; pairs of base64 forms of up to 8 characters; rationals of up to 5 characters and numerals of up to 31 digits; pairs with up to 2 digits each",
    "thorough": "Gregorian forms of every length up to 14; base64Binary up to 12 characters, pairs up to 12; rationals of up to 7 characters",
}
OUTSIDE = "longer strings; equality of the Gregorian forms (the code keeps them as strings); years outside 0001-9999"
DIG = ((48, 57),)
SIGN = S.fromchars("+-")
G = {
    "gYear": (r"(?P<y>[0-9]{4})", "dddd"),
    "gYearMonth": (r"(?P<y>[0-9]{4})-(?:0[1-9]|1[0-2])", "dddd-dd"),
    "gMonthDay": (r"--(?:(?:0[13578]|1[02])-(?:0[1-9]|[12][0-9]|3[01])|(?:0[469]|11)-(?:0[1-9]|[12][0-9]|30)|02-(?:0[1-9]|[12][0-9]))", "--dd-dd"),
    "gDay": (r"---(?:0[1-9]|[12][0-9]|3[01])", "---dd"),
    "gMonth": (r"--(?:0[1-9]|1[0-2])", "--dd"),
}
TZ = r"(?:Z|[+\-](?:(?:0[0-9]|1[0-3]):[0-5][0-9]|14:00))?"
FAR = r"-[0-9]{4,}(?:-.*)?|[0-9]{5,}(?:-.*)?|-?[0-9]{4,}(?:-[0-9]{2})?" + TZ
BASE64 = (r"(?:(?:[A-Za-z0-9+/] ?){4})*(?:(?:[A-Za-z0-9+/] ?){3}[A-Za-z0-9+/]|(?:[A-Za-z0-9+/] ?){2}[AEIMQUYcgkosw048] ?=|"
          r"[A-Za-z0-9+/] ?[AQgw] ?= ?=)")
RATIONAL = r"(?P<s>[+\-]?)(?P<n>[0-9]+)(?:/(?P<d>[0-9]+))?"
ISDIG = lambda c: S.isin(c, DIG)


def setup():
    L.setup(T.modules())


def same(a, b):
    a, b = S.lift(a).chars, S.lift(b).chars
    return len(a) == len(b) and all(S.chareq(x, y) for x, y in zip(a, b))


def gregorian(dt):
    pat = G[dt][0]

    def oracle(ctx, s, st, v):
        m = L.full(pat + TZ, s)
        year = dt.startswith("gYear")
        if m is None:
            if year and L.full(FAR, s) is not None:
                return
            L.prove(ctx, st == "reject", X + dt, [s], "xsd:%s accepts a malformed form" % dt)
            return
        if year and all(S.isin(c, ((48, 48),)) for c in S.lift(m.group("y")).chars):
            return
        L.prove(ctx, st == "ok", X + dt, [s], "xsd:%s rejects a well-formed form" % dt)
        E.STATS.witness += 1
        L.prove(ctx, S.isstr(v) and same(v, s), X + dt, [s], "xsd:%s changes the form" % dt)
    return oracle


def form(dt, zone):
    d = [DIG if c == "d" else ((ord(c), ord(c)),) for c in G[dt][1]]
    return d + {"": [], "Z": [((90, 90),)], "o": [SIGN, DIG, DIG, ((58, 58),), DIG, DIG]}[zone]


# ---- base64
def octets(s):
    """the octets a conforming form denotes"""
    q = [c for c in S.lift(s).chars if not S.isin(c, ((32, 32), (61, 61)))]
    v = [S.b64val(c) for c in q]
    out = []
    for i in range(0, len(v), 4):
        g = v[i:i + 4]
        out += [g[0] * 4 + g[1] / 16] + ([(g[1] % 16) * 16 + g[2] / 4] if len(g) > 2 else []) + ([(g[2] % 4) * 64 + g[3]] if len(g) > 3 else [])
    return out


def value(v):
    return [z3.IntVal(x) for x in v] if isinstance(v, (bytes, bytearray)) else v.o if isinstance(v, S.SymBytes) else None


def base64(ctx, s, st, v):
    dt = X + "base64Binary"
    ok = len(s) == 0 or L.full(BASE64, s) is not None
    L.prove(ctx, (st == "ok") == ok, dt, [s], "xsd:base64Binary %s" % ("rejects a conforming form" if ok else "accepts a malformed form"))
    if ok:
        E.STATS.witness += 1


def pair64(n1, n2):
    dt = X + "base64Binary"
    dom = S.norm(list(S.B64) + [(32, 32), (61, 61)])

    def path(ctx):
        a, b = (S.lower_result(L.string(ctx, k, [dom] * n)) for k, n in (("a", n1), ("b", n2)))
        L.note(ctx, dt, a, b)
        r = []
        for x in (a, b):
            if len(x) and L.full(BASE64, x) is None:
                raise E.Infeasible()
            st, v = L.convert(dt, x)
            if st != "ok":
                L.cand(ctx, dt, [x], "xsd:base64Binary rejects a conforming form")
            r.append(v)
        E.STATS.witness += 1
        o, w = [octets(x) for x in (a, b)], [value(v) for v in r]
        if None in w:
            raise E.Unsupported("the value of a base64Binary form is a %s" % type(r[0]).__name__)
        # the values are equal exactly when the octets are, decided for all values of the path at once
        eq = lambda p, q: z3.BoolVal(False) if len(p) != len(q) else z3.And([x == y for x, y in zip(p, q)] or [z3.BoolVal(True)])
        L.prove(ctx, z3.simplify(eq(*w) == eq(*o)), dt, [a, b], "values are equal exactly when the octets are")
    return Job("base64Binary pair %d/%d" % (n1, n2), path, "two forms of %d and %d characters of the alphabet, spaces and padding" % (n1, n2), L.sample, setup=setup,
               witness=(n1 % 4, n2 % 4) != (1, 1))


# ---- owl:rational
RAT = OWL + "rational"


def setup_rational():
    setup()
    import owlrl.OWLRLExtras as X2
    import rdflib
    ext = X2.OWLRL_Extension(rdflib.Graph(), False, False)
    L.CONV[RAT] = conversion(ext)


def conversion(ext):
    """what the extension registers for owl:rational"""
    import owlrl.DatatypeHandling as D
    import rdflib.term as t
    for d in list(vars(ext).values()) + [D.AltXSDToPYTHON, t._toPythonMapping]:
        if isinstance(d, Mapping):
            for k, v in d.items():
                if (str(k.const) if type(k) is E.Term and k.const is not None else str(k)) == RAT and callable(v):
                    return v
    return lambda v: v  # none: every form passes; the replay asks a whole expansion


def num(chars):
    v = z3.IntVal(0)
    for c in chars:
        v = v * 10 + (z3.IntVal(c) if isinstance(c, int) else c.z) - 48
    return v


def rational(s):
    """(n, d) or None"""
    m = L.full(RATIONAL, s)
    if m is None:
        return None
    n = num(S.lift(m.group("n")).chars)
    if len(m.group("s")) and m.group("s") == "-":
        n = -n
    if m.group("d") is None:
        return n, z3.IntVal(1)
    dc = S.lift(m.group("d")).chars
    if all(S.isin(c, ((48, 48),)) for c in dc):
        return None
    return n, num(dc)


def ratio(ctx, s, st, v):
    o = rational(s)
    if o is None:
        L.prove(ctx, st == "reject", RAT, [s], "owl:rational accepts a malformed form")
        return
    L.prove(ctx, st == "ok", RAT, [s], "owl:rational rejects a well-formed form")
    E.STATS.witness += 1
    p = S.SymFrac.parts(v)
    if p is None:
        raise E.Unsupported("the value of a rational is a %s" % type(v).__name__)
    c = z3.simplify(p[0] * o[1] == o[0] * p[1]) if not (z3.eq(z3.simplify(p[0] - o[0]), z3.IntVal(0)) and z3.eq(z3.simplify(p[1] - o[1]), z3.IntVal(0))) else z3.BoolVal(True)
    L.prove(ctx, c, RAT, [s], "the value is not the number denoted")


def ratpair(shape1, shape2):
    def path(ctx):
        x = [S.lower_result(L.string(ctx, k, sh)) for k, sh in (("a", shape1), ("b", shape2))]
        L.note(ctx, RAT, *x)
        o = [rational(s) for s in x]
        if None in o:
            raise E.Infeasible()
        r = []
        for s in x:
            st, v = L.convert(RAT, s)
            if st != "ok":
                L.cand(ctx, RAT, [s], "owl:rational rejects a well-formed form")
            r.append(v)
        E.STATS.witness += 1
        eq = r[0] == r[1]
        z = eq.z if isinstance(eq, E.SymBool) else z3.BoolVal(bool(eq))
        L.prove(ctx, z == (o[0][0] * o[1][1] == o[1][0] * o[0][1]), RAT, x, "two rationals have equal values exactly when they are the same number")
    return Job("rational pair %d/%d" % (len(shape1), len(shape2)), path, "two forms, all digits symbolic", L.sample, setup=setup_rational)


def jobs(tier):
    q = tier == "quick"
    out = []
    for dt in G:
        base = len(G[dt][1])
        for n in sorted(set(list(range(0, 6)) + [base - 1, base, base + 1] + ([base + 6] if q else list(range(6, 15))))):
            out.append(L.job("%s, %d characters" % (dt, n), X + dt, [L.TEXT] * n, gregorian(dt), "every string of %d characters" % n,
                             witness=n in (base, base + 1, base + 6), setup=setup))
        for zn in ("", "Z", "o"):
            out.append(L.job("%s, zone %s" % (dt, zn or "none"), X + dt, form(dt, zn), gregorian(dt), "all digits symbolic", setup=setup))
    for n in range(0, 10 if q else 13):
        out.append(L.job("base64Binary, %d characters" % n, X + "base64Binary", [L.TEXT] * n, base64, "every string of %d characters" % n,
                         witness=n not in (1, 2, 3), setup=setup))
    for a, b in ((0, 4), (4, 4), (4, 5), (5, 5), (4, 6), (4, 8), (5, 8), (8, 8)) + (() if q else ((8, 12), (6, 6), (8, 9))):
        out.append(pair64(a, b))
    for n in range(0, 6 if q else 8):
        out.append(L.job("rational, %d characters" % n, RAT, [L.TEXT] * n, ratio, "every string of %d characters" % n, witness=n > 0,
                         setup=setup_rational))
    sl = ((47, 47),)
    for a, b in ((1, 1), (3, 2), (12, 0), (10, 10), (31, 1), (1, 31)):
        out.append(L.job("rational, %d over %d digits" % (a, b), RAT, [SIGN] + [DIG] * a + ([sl] + [DIG] * b if b else []), ratio, "all digits symbolic",
                         setup=setup_rational))
    shapes = [[DIG], [SIGN, DIG], [DIG, sl, DIG], [SIGN, DIG, DIG, sl, DIG], [DIG, sl, DIG, DIG]]
    for i, a in enumerate(shapes):
        for b in shapes[i:]:
            out.append(ratpair(a, b))
    return out
