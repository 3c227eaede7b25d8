from vt import engine as E, lexcheck as L, stub, symstr as S
from vt.run import Job

X, R = L.X, L.R
ASSUMPTIONS = [
    "the Python string methods and `re` are modelled in vt/symstr.py; sampled paths are replayed on the real conversion functions in every run",
    "characters are those XML allows; for NMTOKEN, Name and NCName the ASCII ones (which others are name characters depends on the edition of XML)",
    "rdflib.Literal keeps the text and the language tag it is given",
]
BOUNDS = {
    "quick": "every ASCII string of up to 8 characters (language 7, plain literal 7), and for language, token, normalizedString every string of up to 5, plain literal 4, XML characters; language tags made of runs of up to 9 characters in each of up "
             "to three subtags",
    "thorough": "every ASCII string of up to 12 characters (language 11, plain literal 9); 7 and 6 XML characters",
}
OUTSIDE = "longer strings; names with characters outside ASCII"
CH = S.norm([(9, 10), (13, 13), (32, 127)])
UNI = S.norm([(9, 10), (13, 13), (32, 0xD7FF), (0xE000, 0xFFFD), (0x10000, 0x10FFFF)])
ALPHA = S.norm([(65, 90), (97, 122)])
ALNUM = S.norm([(48, 57), (65, 90), (97, 122)])
NAMECH = S.norm(list(ALNUM) + [(ord(c), ord(c)) for c in ":_.-"])
DASH = ((45, 45),)


def every(chars, s):
    return all(S.isin(c, s) for c in chars)


def language(c):
    """subtags of 1 to 8 characters, the first one letters only"""
    parts, cur = [], []
    for x in c:
        if S.isin(x, DASH):
            parts.append(cur)
            cur = []
        else:
            cur.append(x)
    parts.append(cur)
    return all(1 <= len(p) <= 8 for p in parts) and every(parts[0], ALPHA) and all(every(p, ALNUM) for p in parts[1:])


def nmtoken(c):
    return len(c) > 0 and every(c, NAMECH)


NAMESTART = S.inter(NAMECH, S.compl(S.fromchars("0123456789.-")))
NOCOLON = S.compl(S.fromchars(":"))


def name(c):
    return nmtoken(c) and S.isin(c[0], NAMESTART)


def ncname(c):
    return name(c) and every(c, NOCOLON)


def normalized(c):
    return every(c, S.compl(S.fromchars("\t\n\r")))


def token(c):
    sp = ((32, 32),)
    if not normalized(c):
        return False
    if c and (S.isin(c[0], sp) or S.isin(c[-1], sp)):
        return False
    return not any(S.isin(a, sp) and S.isin(b, sp) for a, b in zip(c, c[1:]))


RULES = {"language": language, "NMTOKEN": nmtoken, "Name": name, "NCName": ncname, "token": token, "normalizedString": normalized}


def identical(a, b):
    a, b = S.lift(a).chars, S.lift(b).chars
    return len(a) == len(b) and all(S.chareq(x, y) for x, y in zip(a, b))


def stringtype(dt):
    rule = RULES[dt]

    def oracle(ctx, s, st, v):
        ok = rule(S.lift(s).chars)
        L.prove(ctx, (st == "ok") == ok, X + dt, [s], "xsd:%s %s" % (dt, "rejects a conforming string" if ok else "accepts a non-conforming string"))
        E.STATS.witness += ok
        if ok:
            L.prove(ctx, S.isstr(v) and identical(v, s), X + dt, [s], "xsd:%s changes the string" % dt)
    return oracle


class Plain:
    def __init__(self, text, lang):
        self.text, self.lang = text, lang


def setup():
    L.setup()
    stub.LITERAL_HOOK = lambda v, lang, dt: Plain(v, lang) if S.isstr(v) and dt is None else None


def plain(ctx, s, st, v):
    c = S.lift(s).chars
    at = None
    for i in range(len(c) - 1, -1, -1):
        if S.isin(c[i], ((64, 64),)):
            at = i
            break
    lang = c[at + 1:] if at is not None else None
    ok = at is not None and (not lang or language(lang))
    dt = R + "PlainLiteral"
    L.prove(ctx, (st == "ok") == ok, dt, [s], "rdf:PlainLiteral %s" % ("rejects a conforming form" if ok else "accepts a non-conforming form"))
    if not ok:
        return
    E.STATS.witness += 1
    L.prove(ctx, isinstance(v, Plain) and identical(v.text, S.mk(c[:at])), dt, [s], "the text is not what precedes the last '@'")
    low = [x.shifted(32) if not isinstance(x, int) and S.isin(x, ((65, 90),)) else x for x in lang]
    L.prove(ctx, identical(v.lang or "", S.mk(low)), dt, [s], "the language tag is not the lower-cased tag")


def jobs(tier):
    q = tier == "quick"
    out = []
    for dt in RULES:
        for n in range(0, (8 if dt == "language" else 9) + (0 if q else 4)):
            out.append(L.job("%s, %d characters" % (dt, n), X + dt, [CH] * n, stringtype(dt), "every string of %d characters" % n,
                             witness=n > 0, setup=setup))
    for dt in ("language", "token", "normalizedString"):
        for n in range(1, 6 if q else 8):
            out.append(L.job("%s, %d characters of any kind" % (dt, n), X + dt, [UNI] * n, stringtype(dt),
                             "every string of %d XML characters" % n, setup=setup))
    for n in range(1, 5 if q else 7):
        out.append(L.job("PlainLiteral, %d characters of any kind" % n, R + "PlainLiteral", [UNI] * n, plain,
                         "every string of %d XML characters" % n, setup=setup))
    for n in range(0, 8 if q else 10):
        out.append(L.job("PlainLiteral, %d characters" % n, R + "PlainLiteral", [CH] * n, plain, "every string of %d characters" % n,
                         witness=n > 0, setup=setup))
    # long subtags: one letter class per run, so that the counts are decided
    for runs in ((7,), (8,), (9,), (1, 8), (8, 8), (1, 9), (9, 1), (2, 8, 8), (2, 3, 9), (8, 0), (0, 8)):
        doms = []
        for k, r in enumerate(runs):
            doms += ([DASH] if k else []) + [ALPHA if k == 0 else ALNUM] * r
        out.append(L.job("language, subtags of %s" % (runs,), X + "language", doms, stringtype("language"), "subtags of %s characters" % (runs,),
                         witness=False, setup=setup))
        # the case of every character forks the path: only the first character of each subtag may be a capital
        low = S.norm([(48, 57), (97, 122)])
        doms = [CH, ((64, 64),)]
        for k, r in enumerate(runs):
            doms += ([DASH] if k else []) + ([ALPHA if k == 0 else ALNUM] + [low if k else S.norm([(97, 122)])] * (r - 1) if r else [])
        out.append(L.job("PlainLiteral, subtags of %s" % (runs,), R + "PlainLiteral", doms, plain,
                         "one character and a tag of %s characters" % (runs,), witness=False, setup=setup))
    return out
