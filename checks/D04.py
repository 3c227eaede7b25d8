import z3

from vt import engine as E, lexcheck as L, symstr as S
from vt.run import Job

X = L.X
ASSUMPTIONS = [
    "the Python string methods, `re`, int(), Decimal and bytes.fromhex are modelled in vt/symstr.py (fixed number of symbolic code points "
    "per path, regular expressions by a symbolic backtracking matcher over Python's own parse tree); every run replays sampled paths "
    "on the real conversion functions",
    "lone surrogates do not occur in lexical forms",
    "numbers outside the range of double / float carry no claim",
]
BOUNDS = {
    "quick": "every string of up to 6 (boolean 7, hexBinary 6) characters, each any Unicode code point; numerals of up to 31 digits, "
             "decimal and exponent forms d{a}.d{b}[eE]sd{c} with a,b <= 4, c <= 3; pairs of hexBinary forms of up to 4 octets",
    "thorough": "strings of up to 8 characters; numerals of up to 40 digits; a,b <= 8, c <= 4",
}
OUTSIDE = "longer forms; numbers outside the range of double/float"
DIG = ((48, 57),)
SIGN = S.fromchars("+-")


def at(c):
    return ((ord(c), ord(c)),)


def number(s, pat):
    """The number a numeral denotes, from the digits (oracle)."""
    m = L.full(pat, s)
    if m is None:
        return None
    g = m.groupdict()
    if g.get("inf") is not None:
        return S.SymDec(len(g["s2"]) > 0 and g["s2"] == "-", None, None, "inf")
    if g.get("nan") is not None:
        return S.SymDec(False, None, None, "nan")
    neg = len(g["s"]) > 0 and g["s"] == "-"
    ip, fp = (g["i"], g.get("f")) if g["i"] is not None else ("", g["g"])
    chars = S.lift(ip).chars + (S.lift(fp).chars if fp is not None else [])
    v = z3.IntVal(0)
    for c in chars:
        v = v * 10 + (z3.IntVal(c) if isinstance(c, int) else c.z) - 48
    ex = z3.IntVal(-(len(fp) if fp is not None else 0))
    if g.get("e") is not None:
        e = S.lift(g["e"]).chars
        neg_e = False
        if S.isin(e[0], SIGN):
            neg_e = S.isin(e[0], at("-"))
            e = e[1:]
        w = z3.IntVal(0)
        for c in e:
            w = w * 10 + (z3.IntVal(c) if isinstance(c, int) else c.z) - 48
        ex = ex - w if neg_e else ex + w
    return S.SymDec(neg, z3.simplify(v), z3.simplify(ex))


INT = r"(?P<s>[+\-]?)(?P<i>[0-9]+)"
DEC = r"(?P<s>[+\-]?)(?:(?P<i>[0-9]+)(?:\.(?P<f>[0-9]*))?|\.(?P<g>[0-9]+))"
DBL = DEC + r"(?:[eE](?P<e>[+\-]?[0-9]+))?|(?P<s2>[+\-]?)(?P<inf>INF)|(?P<nan>NaN)"
RANGE = {"double": ("4.9406564584124654E-324", "1.7976931348623157E+308"), "float": ("1.401298464324817E-45", "3.4028234663852886E+38")}


def numeric(dt, pat, rng=None):
    def oracle(ctx, s, st, v):
        o = number(s, pat)
        if o is None:
            L.prove(ctx, st == "reject", X + dt, [s], "xsd:%s accepts a malformed form" % dt)
            return
        if rng and o.kind == "fin" and not o.zero():
            import decimal
            lo, hi = (S.SymDec.of(decimal.Decimal(x)) for x in rng)
            if o.copy_abs().cmpabs(lo) < 0 or o.copy_abs().cmpabs(hi) > 0:
                return
        L.prove(ctx, st == "ok", X + dt, [s], "xsd:%s rejects a well-formed form" % dt)
        E.STATS.witness += 1
        same(ctx, dt, s, v, o)
    return oracle


def same(ctx, dt, s, v, o):
    why = "xsd:%s: the value is not the number denoted" % dt
    if o.kind == "nan":
        L.prove(ctx, bool(v != v) if not isinstance(v, S.SymDec) else v.kind == "nan", X + dt, [s], why)
        return
    d = S.SymDec.of(v)
    if d is None:
        L.prove(ctx, False, X + dt, [s], "xsd:%s: the value is not a number" % dt)
        return
    if d.binary and dt in ("integer", "decimal") and d.kind == "fin":
        # two numerals that differ in the last of 18 or more digits collapse
        c = S.lift(s).chars
        big = o.coef >= 10 ** 18
        last = c[-1]
        if not isinstance(last, int) and ctx.sat(big, last.z >= 48, last.z <= 56):
            L.cand(ctx, X + dt, [s, S.SymStr(c[:-1] + [last.shifted(1)])], "xsd:%s: different numbers get equal values" % dt, (big, last.z >= 48, last.z <= 56))
        return
    if d.kind == o.kind == "fin" and z3.is_int_value(d.exp) and z3.is_int_value(o.exp) and not ctx.forced():
        # a linear identity
        a, b = d.exp.as_long(), o.exp.as_long()
        lo = min(a, b)
        x = (-d.coef if d.neg else d.coef) * 10 ** (a - lo)
        y = (-o.coef if o.neg else o.coef) * 10 ** (b - lo)
        L.prove(ctx, x == y, X + dt, [s], why)
        return
    L.prove(ctx, d.kind != "nan" and d.cmp(o) == 0, X + dt, [s], why)


def boolean(ctx, s, st, v):
    t = s == "true" or s == "1"
    f = s == "false" or s == "0"
    L.prove(ctx, (st == "ok") == bool(t or f), X + "boolean", [s], "xsd:boolean accepts exactly true, false, 1 and 0")
    if t or f:
        E.STATS.witness += 1
        L.prove(ctx, v == bool(t), X + "boolean", [s], "the truth value is wrong")


def hexa(ctx, s, st, v):
    ok = len(s) % 2 == 0 and all(S.isin(c, S.HEX) for c in S.lift(s).chars)
    L.prove(ctx, (st == "ok") == ok, X + "hexBinary", [s], "xsd:hexBinary accepts exactly pairs of hexadecimal digits")
    E.STATS.witness += ok or len(s) % 2


def hexpair(n1, n2):
    def path(ctx):
        a = S.lower_result(L.string(ctx, "a", [S.HEX] * n1))
        b = S.lower_result(L.string(ctx, "b", [S.HEX] * n2))
        L.note(ctx, X + "hexBinary", a, b)
        r = []
        for x in (a, b):
            st, v = L.convert(X + "hexBinary", x)
            if st != "ok":
                L.cand(ctx, X + "hexBinary", [x], "xsd:hexBinary rejects a well-formed form")
            r.append(v)
        E.STATS.witness += 1
        eq = bool(r[0] == r[1])
        if n1 != n2:
            L.prove(ctx, not eq, X + "hexBinary", [a, b], "octet strings of different length have equal values")
            return
        oct = lambda s: [S.hexval(p) * 16 + S.hexval(q) for p, q in zip(S.lift(s).chars[::2], S.lift(s).chars[1::2])]
        c = z3.And([p == q for p, q in zip(oct(a), oct(b))]) if n1 else z3.BoolVal(True)
        L.prove(ctx, c if eq else z3.Not(c), X + "hexBinary", [a, b], "values are equal exactly when the octets are")
    return Job("hexBinary pair %d/%d" % (n1, n2), path, "two hexBinary forms of %d and %d digits" % (n1, n2), L.sample, setup=L.setup)


def jobs(tier):
    q = tier == "quick"
    out = []
    types = [("integer", INT, None), ("decimal", DEC, None), ("double", DBL, RANGE["double"]), ("float", DBL, RANGE["float"])]
    for dt, pat, rng in types:
        for n in range(0, 7 if q else 9):
            out.append(L.job("%s, %d characters" % (dt, n), X + dt, [L.TEXT] * n, numeric(dt, pat, rng),
                             "every string of %d characters" % n, witness=n > 0))
        for n in (7, 12, 21, 31) if q else (9, 15, 21, 30, 40):
            for sg in (0, 1):
                out.append(L.job("%s, %d digits%s" % (dt, n, ", sign" * sg), X + dt, [SIGN] * sg + [DIG] * n, numeric(dt, pat, rng),
                                 "%d digits" % n))
        if dt != "integer":
            k = 4 if q else 8
            for a in (0, 1, 2, k):
                for b in (0, 1, 3, k):
                    if a + b == 0:
                        continue
                    body = [DIG] * a + [at(".")] + [DIG] * b
                    out.append(L.job("%s, %d.%d digits" % (dt, a, b), X + dt, [SIGN] + body, numeric(dt, pat, rng), "sd{%d}.d{%d}" % (a, b)))
                    if dt == "decimal":
                        continue
                    for c in (1, 2, 3) if q else (1, 2, 3, 4):
                        if q and c == 3 and a + b > 4:
                            continue
                        out.append(L.job("%s, %d.%d e %d digits" % (dt, a, b, c), X + dt, [SIGN] + body + [S.fromchars("eE"), SIGN] + [DIG] * c,
                                         numeric(dt, pat, rng), "sd{%d}.d{%d}esd{%d}" % (a, b, c), witness=False))
    for n in range(0, 8 if q else 10):
        out.append(L.job("boolean, %d characters" % n, X + "boolean", [L.TEXT] * n, boolean, "every string of %d characters" % n, witness=n in (1, 4, 5)))
        if n < 7 or not q:
            out.append(L.job("hexBinary, %d characters" % n, X + "hexBinary", [L.TEXT] * n, hexa, "every string of %d characters" % n))
    for a, b in ((0, 0), (0, 2), (2, 2), (2, 4), (4, 4), (4, 6), (6, 6), (8, 8), (6, 8)):
        out.append(hexpair(a, b))
    return out
