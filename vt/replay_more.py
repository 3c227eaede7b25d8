"""Scenario handlers on the real owlrl / rdflib (imported by replay_real.py)."""
import json
import os
import re
from collections.abc import Mapping
import sys
from decimal import Decimal
from fractions import Fraction


class Violated(Exception):
    pass


X = "http://www.w3.org/2001/XMLSchema#"
RDF = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"


def main():
    for m in ("replay_real", "__main__"):
        if m in sys.modules and hasattr(sys.modules[m], "find_class"):
            return sys.modules[m]


# ------------------------------------------------------------------ lexical forms
NUM = {"integer": r"[+\-]?[0-9]+", "decimal": r"[+\-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)",
       "double": r"[+\-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+\-]?[0-9]+)?|[+\-]?INF|NaN"}
NUM["float"] = NUM["double"]
RANGE = {"double": (Decimal("4.9406564584124654E-324"), Decimal("1.7976931348623157E+308")),
         "float": (Decimal("1.401298464324817E-45"), Decimal("3.4028234663852886E+38"))}
INTRANGE = {"integer": (None, None), "nonNegativeInteger": (0, None), "positiveInteger": (1, None), "nonPositiveInteger": (None, 0),
            "negativeInteger": (None, -1), "byte": (-2**7, 2**7 - 1), "short": (-2**15, 2**15 - 1), "int": (-2**31, 2**31 - 1),
            "long": (-2**63, 2**63 - 1), "unsignedByte": (0, 2**8 - 1), "unsignedShort": (0, 2**16 - 1),
            "unsignedInt": (0, 2**32 - 1), "unsignedLong": (0, 2**64 - 1)}
STRINGS = {
    X + "language": r"[a-zA-Z]{1,8}(-[a-zA-Z0-9]{1,8})*",
    X + "NMTOKEN": r"[A-Za-z0-9:_.\-]+",
    X + "Name": r"[A-Za-z:_][A-Za-z0-9:_.\-]*",
    X + "NCName": r"[A-Za-z_][A-Za-z0-9_.\-]*",
    X + "token": r"([^\t\n\r ]+( [^\t\n\r ]+)*)?",
    X + "normalizedString": r"[^\t\n\r]*",
}
ANYVALUE = object()
GREG = {
    "gYear": r"[0-9]{4}",
    "gYearMonth": r"[0-9]{4}-(?:0[1-9]|1[0-2])",
    "gMonthDay": r"--(?:(?:0[13578]|1[02])-(?:0[1-9]|[12][0-9]|3[01])|(?:0[469]|11)-(?:0[1-9]|[12][0-9]|30)|02-(?:0[1-9]|[12][0-9]))",
    "gDay": r"---(?:0[1-9]|[12][0-9]|3[01])",
    "gMonth": r"--(?:0[1-9]|1[0-2])",
}
BASE64 = (r"((([A-Za-z0-9+/] ?){4})*(([A-Za-z0-9+/] ?){3}[A-Za-z0-9+/]|([A-Za-z0-9+/] ?){2}[AEIMQUYcgkosw048] ?=|"
          r"[A-Za-z0-9+/] ?[AQgw] ?= ?=))?")


def days(y, m, d):
    y -= m <= 2
    era = y // 400
    yoe = y - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    return era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + doy


def mdays(y, m):
    return 29 if m == 2 and (y % 4 == 0 and y % 100 != 0 or y % 400 == 0) else [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]


TZ = r"(?P<z>Z|[+\-](?:(?:0[0-9]|1[0-3]):[0-5][0-9]|14:00))?"
TIME = r"(?:(?P<h>[01][0-9]|2[0-3]):(?P<mi>[0-5][0-9]):(?P<s>[0-5][0-9])(?:\.(?P<f>[0-9]+))?|(?P<end>24:00:00(?:\.0+)?))"
DATE = r"(?P<y>[0-9]{4})-(?P<m>0[1-9]|1[0-2])-(?P<d>0[1-9]|[12][0-9]|3[01])"


def instant(name, s):
    """None: malformed; else (instant in microseconds, has a time zone); ANYVALUE: no claim"""
    pat = {"dateTime": DATE + "T" + TIME + TZ, "dateTimeStamp": DATE + "T" + TIME + TZ, "time": TIME + TZ, "date": DATE + TZ}[name]
    m = re.fullmatch(pat, s, re.ASCII)
    if m is None:
        return ANYVALUE if re.match(r"-?[0-9]{5,}-|-[0-9]{4}-", s) else None
    g = m.groupdict()
    if g.get("y"):
        y, mo, d = int(g["y"]), int(g["m"]), int(g["d"])
        if d > mdays(y, mo):
            return None
        if y == 0:
            return ANYVALUE
        n = days(y, mo, d)
    else:
        n, y, mo, d = 0, None, None, None
    us = 0
    if name != "date":
        if g["end"]:
            us = 86400 * 10**6 if name != "time" else 0
            if y == 9999 and mo == 12 and d == 31:
                return ANYVALUE
        else:
            us = (int(g["h"]) * 3600 + int(g["mi"]) * 60 + int(g["s"])) * 10**6 + int((g["f"] or "0")[:6].ljust(6, "0"))
    z = g["z"]
    if name == "dateTimeStamp" and not z:
        return None
    off = 0
    if z and z != "Z":
        off = (int(z[1:3]) * 60 + int(z[4:6])) * (1 if z[0] == "+" else -1)
    return n * 86400 * 10**6 + us - off * 60 * 10**6, bool(z)


def denoted(dt, s):
    """None: rejected; ('v', key): accepted with this value; ('any',): no claim."""
    n = dt.rsplit("#", 1)[-1]
    if dt == X + "boolean":
        return ("v", s in ("true", "1")) if s in ("true", "false", "1", "0") else None
    if n in INTRANGE:
        if re.fullmatch(NUM["integer"], s, re.ASCII) is None:
            return None
        i = int(s)
        lo, hi = INTRANGE[n]
        return ("v", Fraction(i)) if (lo is None or lo <= i) and (hi is None or i <= hi) else None
    if n in NUM:
        if re.fullmatch(NUM[n], s) is None:
            return None
        if s == "NaN":
            return ("v", "nan")
        d = Decimal(s.replace("INF", "Infinity"))
        if d.is_infinite():
            return ("v", "inf" if d > 0 else "-inf")
        if n in RANGE and not d.is_zero() and not RANGE[n][0] <= abs(d) <= RANGE[n][1]:
            return ("any",)
        return ("v", d)
    if n == "hexBinary":
        return ("v", bytes.fromhex(s)) if re.fullmatch("(?:[0-9a-fA-F]{2})*", s) else None
    if dt in STRINGS:
        return ("v", s) if re.fullmatch(STRINGS[dt], s) else None
    if n == "PlainLiteral":
        if "@" not in s:
            return None
        i = s.rindex("@")
        lang = s[i + 1:]
        if lang and not re.fullmatch(STRINGS[X + "language"], lang):
            return None
        return ("v", (s[:i], lang.lower()))
    if n in ("dateTime", "dateTimeStamp", "time", "date"):
        v = instant(n, s)
        return None if v is None else ("any",) if v is ANYVALUE else ("v", v)
    if n == "string":
        return ("v", s)
    if n in GREG:
        m = re.fullmatch(GREG[n] + TZ, s)
        if m is None:
            return ("any",) if n.startswith("gYear") and re.fullmatch(r"-[0-9]{4,}(?:-.*)?|[0-9]{5,}(?:-.*)?", s, re.DOTALL) else None
        return ("any",) if n.startswith("gYear") and s.startswith("0000") else ("v", s)
    if n == "base64Binary":
        if re.fullmatch(BASE64, s) is None:
            return None
        import base64
        return ("v", base64.b64decode(s.replace(" ", "")))
    if n == "rational":
        m = re.fullmatch(r"([+\-]?[0-9]+)(?:/([0-9]+))?", s)
        if m is None or m.group(2) is not None and int(m.group(2)) == 0:
            return None
        return ("v", Fraction(int(m.group(1)), int(m.group(2) or 1)))
    raise RuntimeError("no oracle for " + dt)


def value_key(dt, v):
    n = dt.rsplit("#", 1)[-1]
    if n == "boolean":
        return bool(v) if v == True or v == False else v  # noqa
    if n in INTRANGE or n in NUM:
        if isinstance(v, float):
            v = Decimal(v)
        if isinstance(v, Decimal):
            if v.is_nan():
                return "nan"
            if v.is_infinite():
                return "inf" if v > 0 else "-inf"
        return Fraction(v) if n in INTRANGE else Decimal(v) if not isinstance(v, Fraction) else v
    if n == "PlainLiteral":
        return (str(v), (v.language or ""))
    return v


def rational_conversion(dt):
    """what an expansion with the OWL extensions uses for owl:rational"""
    import rdflib
    import owlrl.DatatypeHandling as D
    from owlrl.OWLRLExtras import OWLRL_Extension
    from rdflib.term import _toPythonMapping
    ext = OWLRL_Extension(rdflib.Graph(), False, False)
    for d in list(vars(ext).values()) + [D.AltXSDToPYTHON, _toPythonMapping]:
        if isinstance(d, Mapping) and callable(d.get(dt)):
            return d[dt]


    def by_expansion(form):
        from fractions import Fraction
        import owlrl
        g = rdflib.Graph()
        g.add((rdflib.URIRef("http://ex.org/a"), rdflib.URIRef("http://ex.org/p"), rdflib.Literal(form, datatype=dt)))
        owlrl.DeductiveClosure(OWLRL_Extension).expand(g)
        if any(form in e for e in errors(list(g))):
            raise ValueError(form)
        try:
            return Fraction(form)
        except (ValueError, ZeroDivisionError):
            return form
    return by_expansion


def lexical(sc):
    import owlrl.DatatypeHandling as D
    from rdflib import URIRef
    from rdflib.term import _toPythonMapping
    dt = sc["datatype"]
    D.use_Alt_lexical_conversions()
    if dt.endswith("#rational"):
        conv = rational_conversion(URIRef(dt))
    else:
        conv = _toPythonMapping[URIRef(dt)]
    got = []
    for s in sc["strings"]:
        want = denoted(dt, s)
        try:
            v = ("v", conv(s))
        except ValueError:
            v = None
        except Exception as e:
            raise Violated("%s(%r) fails with %s: %s" % (dt, s, type(e).__name__, e))
        got.append((s, want, v))
        if want is not None and want[0] == "any":
            continue
        if (want is None) != (v is None):
            raise Violated("%s %s %r" % (dt, "accepts" if v is not None else "rejects", s))
        if want is not None and not dt.endswith(("hexBinary", "dateTime", "dateTimeStamp", "#time", "#date")):
            if value_key(dt, v[1]) != want[1]:
                raise Violated("%s: the value of %r is %r" % (dt, s, v[1]))
        if want is not None and dt.endswith(("dateTime", "dateTimeStamp", "#time")):
            check_instant(dt, s, v[1], want[1])
    for i in range(len(got)):
        for j in range(i):
            (s, w, v), (s2, w2, v2) = got[i], got[j]
            if w and w2 and w[0] == w2[0] == "v" and v and v2:
                if w[1] == "nan":
                    continue
                if dt.endswith(("dateTime", "dateTimeStamp", "#time")) and not (w[1][1] and w2[1][1]):
                    continue
                if (v[1] == v2[1]) != (w[1] == w2[1]):
                    raise Violated("%s: %r and %r have %s values" % (dt, s, s2, "equal" if v[1] == v2[1] else "different"))
    return "agrees"


def check_instant(dt, s, v, want):
    """want = (microseconds, zoned)"""
    import datetime as T
    us, zoned = want
    if dt.endswith("time"):
        base = T.datetime(2000, 1, 1)
        x = T.datetime.combine(base, v)
    else:
        base = T.datetime(1, 1, 1)
        us -= days(1, 1, 1) * 86400 * 10**6
        x = v
    if (x.utcoffset() is not None) != zoned:
        raise Violated("%s: %r %s a time zone" % (dt, s, "loses" if zoned else "gets"))
    d = x.replace(tzinfo=None) - base
    got = (d.days * 86400 + d.seconds) * 10**6 + d.microseconds
    if zoned:
        o = x.utcoffset()
        got -= (o.days * 86400 + o.seconds) * 10**6 + o.microseconds
    if got != us:
        raise Violated("%s: %r is taken for %r" % (dt, s, v))


HANDLERS = {"lexical": lexical}


# ------------------------------------------------------------------ datatype hierarchy
BASE = {"dateTimeStamp": "dateTime", "integer": "decimal", "long": "integer", "int": "long", "short": "int", "byte": "short",
        "nonNegativeInteger": "integer", "positiveInteger": "nonNegativeInteger", "unsignedLong": "nonNegativeInteger",
        "unsignedInt": "unsignedLong", "unsignedShort": "unsignedInt", "unsignedByte": "unsignedShort", "nonPositiveInteger": "integer",
        "negativeInteger": "nonPositiveInteger", "normalizedString": "string", "token": "normalizedString", "language": "token",
        "Name": "token", "NCName": "Name", "NMTOKEN": "token"}


def above(n):
    out = []
    while n in BASE:
        n = BASE[n]
        out.append(n)
    return out


def subsumption(sc):
    import owlrl.DatatypeHandling as D
    from rdflib import URIRef
    from rdflib.term import _toPythonMapping
    D.use_Alt_lexical_conversions()
    a, b, s = _toPythonMapping[URIRef(sc["sub"])], _toPythonMapping[URIRef(sc["sup"])], sc["string"]
    try:
        v = a(s)
    except ValueError:
        return "not accepted"
    except Exception as e:
        raise Violated("%s(%r) fails with %s: %s" % (sc["sub"], s, type(e).__name__, e))
    try:
        w = b(s)
    except Exception as e:
        raise Violated("%s accepts %r, %s does not: %s" % (sc["sub"], s, sc["sup"], e))
    if v != w:
        raise Violated("%r is %r for %s and %r for %s" % (s, v, sc["sub"], w, sc["sup"]))
    return "same value"


def hierarchy(sc):
    import owlrl.AxiomaticTriples as A
    import owlrl.XsdDatatypes as D
    sub = lambda d: {(str(k), str(v)) for k, vs in d.items() for v in vs}
    ax = lambda ts, p: {(str(s), str(o)) for s, q, o in ts if str(q).endswith(p)}

    def trans(r):
        r = set(r)
        while True:
            n = {(a, d) for a, b in r for c, d in r if b == c} - r
            if not n:
                return r
            r |= n
    w, x, y, z, kind = sc["table"], sc["x"], sc["y"], sc["z"], sc["kind"]
    if kind == "disjoint":
        below = trans(sub(D.OWL_Datatype_Subsumptions) | ax(A.OWLRL_D_Axiomatic_Triples, "#subClassOf"))
        dis = ax(A.OWLRL_D_Axiomatic_Triples, "#disjointWith") | ax(A.OWLRL_Datatypes_Disjointness, "#disjointWith")
        le = lambda p, q: p == q or (p, q) in below
        if (x, y) in dis and le(z, x) and le(z, y):
            raise Violated("%s and %s are stated to be disjoint, %s is below both" % (x, y, z))
        return "fine"
    rel = {"OWL_Datatype_Subsumptions": lambda: sub(D.OWL_Datatype_Subsumptions), "RDFS_Datatype_Subsumptions": lambda: sub(D.RDFS_Datatype_Subsumptions),
           "RDFS datatype axioms": lambda: trans(ax(A.RDFS_D_Axiomatic_Triples, "#subClassOf")),
           "OWL datatype axioms": lambda: trans(ax(A.OWLRL_D_Axiomatic_Triples, "#subClassOf"))}[w]()
    isref = x.startswith(X) and y.startswith(X) and y[len(X):] in above(x[len(X):])
    if kind == "extra" and (x, y) in rel and not isref:
        raise Violated("%s: %s is stated to be below %s" % (w, x, y))
    if kind == "lacking" and isref and (x, y) not in rel:
        raise Violated("%s: %s is not stated to be below %s" % (w, x, y))
    if kind == "transitive" and (x, y) in rel and (y, z) in rel and (x, z) not in rel:
        raise Violated("%s: %s below %s below %s" % (w, x, y, z))
    return "fine"


HANDLERS.update(subsumption=subsumption, hierarchy=hierarchy)


# ------------------------------------------------------------------ expansions
def expand(sc):
    """One expansion through the public entry point; what must and must not be in the result."""
    import owlrl
    from rdflib import Graph
    R = main()
    g = Graph()
    for t in sc["graph"]:
        g.add(tuple(R.term(x) for x in t))
    o = sc["opts"]
    patch_conversions(sc.get("convs", ()))
    cls = R.find_class(sc["class"])
    if sc.get("norules"):
        cls = type("Once", (cls,), {"rules": lambda self, t, n: None})
    try:
        owlrl.DeductiveClosure(cls, **o).expand(g)
    except Exception as e:
        raise Violated("the expansion fails with %s: %s" % (type(e).__name__, e))
    return judge(sc, R, list(g))


def patch_conversions(convs):
    """convs: (datatype, lexical form, exception name) that the conversion is to raise, or that it is to accept it"""
    import decimal
    import owlrl.DatatypeHandling as D
    from rdflib import URIRef
    byname = dict(vars(__import__("builtins")), InvalidOperation=decimal.InvalidOperation)
    tab = {}
    for dt, lex, exc in convs:
        tab.setdefault(URIRef(dt), {})[lex] = byname[exc] if exc != "accept" else None
    for dt, t in tab.items():
        if dt not in D.AltXSDToPYTHON:
            continue

        def conv(v, real=D.AltXSDToPYTHON[dt], t=t):
            if v in t:
                if t[v] is None:
                    return v
                raise t[v]("rejected")
            return real(v)
        D.AltXSDToPYTHON[dt] = conv


ERR = "http://www.daml.org/2002/03/agents/agent-ont#error"


def errors(triples):
    return [str(o) for s, p, o in triples if str(p) == ERR]


def judge(sc, R, triples):
    got = {R.tkey(t) for t in triples}
    show = lambda u: " ".join(x.n3() for x in u)
    for t in sc.get("must", ()):
        u = tuple(R.term(x) for x in t)
        if R.tkey(u) not in got:
            raise Violated("not in the result: %s" % show(u))
    for t in sc.get("mustnot", ()):
        u = tuple(R.term(x) for x in t)
        if R.tkey(u) in got:
            raise Violated("in the result: %s" % show(u))
    errs = errors(triples)

    def names(p, e):
        """A part of a message: a text, or a value that must stand alone."""
        if isinstance(p, dict):
            return re.search(r"(?<![\w.+-])%s(?![\w])" % re.escape(p["word"]), e) is not None
        return p in e
    if sc.get("noerrors") and errs:
        raise Violated("error on a consistent graph: %s" % errs[0])
    for parts in sc.get("must_errors", ()):
        if not any(all(names(p, e) for p in parts) for e in errs):
            raise Violated("no error about %s; errors: %s" % (parts, errs[:3]))
    for parts in sc.get("mustnot_errors", ()):
        for e in errs:
            if all(names(p, e) for p in parts):
                raise Violated("false report: %s" % e)
    return "agrees"


HANDLERS.update(expand=expand)


# ------------------------------------------------------------------ the engine with plugged-in rules
def engine(sc):
    """Rules "if a (and b) is in the graph then c / report m" plugged into the real engine; the result is compared with a
    fixpoint computed here."""
    import owlrl
    from owlrl.Closure import Core
    from rdflib import Dataset, Graph, URIRef, RDF
    P, O = URIRef("http://ex.org/p"), URIRef("http://ex.org/o")
    tr = lambda n: (URIRef(n), P, O)
    rules = sc["rules"]
    count = [0]

    def fire(self, base, t=None):
        for bs, a, b, c, m in rules:
            if bs != base:
                continue
            if base in ("axiom", "daxiom", "pre"):
                self.destination.add(tr(c))
                continue
            if (tr(a) != t) if t is not None else (tr(a) not in self.graph):
                continue
            if b is not None and tr(b) not in self.graph:
                continue
            self.add_error(m) if m is not None else self.store_triple(tr(c))

    def rule(self, t, n):
        count[0] += 1
        if count[0] > 40000:
            raise Violated("the expansion does not end")
        fire(self, "round", t)
    cls = type("Plugged", (Core,), {"rules": rule, "one_time_rules": lambda s: fire(s, "once"), "add_axioms": lambda s: fire(s, "axiom"),
                                    "add_d_axioms": lambda s: fire(s, "daxiom"), "pre_process": lambda s: fire(s, "pre"),
                                    "post_process": lambda s: fire(s, "post")})
    g, gr, dest, destname = layout(sc)
    start = {}
    for n, w in zip(sc["init"], sc["places"]):
        gr(w).add(tr(n))
        start.setdefault(w, set()).add(n)
    before = snapshot(g)
    try:
        owlrl.DeductiveClosure(cls, axiomatic_triples=sc["axioms"], datatype_axioms=sc["daxioms"]).expand(g, **({"destination": dest} if dest is not None else {}))
    except Violated:
        raise
    except ValueError as e:
        if sc.get("reject"):
            if snapshot(g) != before:
                raise Violated("the rejected expansion changed the graph")
            return "rejected"
        raise Violated("the expansion fails with ValueError: %s" % e)
    except Exception as e:
        raise Violated("the expansion fails with %s: %s" % (type(e).__name__, e))
    if sc.get("reject"):
        raise Violated("an unusable destination is not rejected")
    # oracle
    union = set().union(*start.values()) if start else set()
    got, direct, errs = set(union), set(), set()
    for bs, a, b, c, m in rules:
        if bs == "pre" or bs == "axiom" and sc["axioms"] or bs == "daxiom" and sc["daxioms"]:
            direct.add(c)
    got |= direct
    for phase in ("once", "round", "post"):
        while True:
            new = set()
            for bs, a, b, c, m in rules:
                if bs == phase and a in got and (b is None or b in got):
                    errs.add(m) if m is not None else new.add(c)
            more = new - got
            got |= new
            if not more or phase != "round":
                break
    want = {w: set(x) for w, x in start.items()}
    want.setdefault(destname, set()).update((got - union) | direct)
    ERRN = "http://www.daml.org/2002/03/agents/agent-ont#"
    have, reports, nodes = {}, [], []
    for (s, p, o), w in quads(g):
        if p == P:
            have.setdefault(w, set()).add(str(s))
        elif str(p) == ERRN + "error":
            reports.append((str(o), w, s))
        elif str(o) == ERRN + "ErrorMessage":
            nodes.append((s, w))
        else:
            raise Violated("unexpected triple %s" % ((s, p, o),))
    clean = lambda d: {k: sorted(v) for k, v in d.items() if v}
    if clean(want) != clean(have):
        raise Violated("graphs %s, expected %s" % (clean(have), clean(want)))
    if sorted(r[0] for r in reports) != sorted(errs) or any(r[1] != destname for r in reports) or sorted(nodes) != sorted((r[2], r[1]) for r in reports):
        raise Violated("reports %s in %s, expected once each: %s" % ([r[0] for r in reports], {r[1] for r in reports}, sorted(errs)))
    return "as expected"


def layout(sc):
    """(graph to expand, name -> graph, destination argument, name of the graph the results belong in)"""
    from rdflib import ConjunctiveGraph, Dataset, Graph, URIRef
    kind = sc["dataset"]
    d = sc.get("dest")
    if not kind:
        g = Graph()
        gr = lambda w: g
        name = "default"
    else:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            g = ConjunctiveGraph() if kind == "conjunctive" else Dataset()
        gr = lambda w: g.default_context if w == "default" else g.get_context(URIRef("http://ex.org/" + w))
        name = "default"
    dest = None
    if d is not None:
        how, w = d
        name = w
        u = URIRef("http://ex.org/" + w)
        dest = {"graph": lambda: gr(w), "uri": lambda: u, "str": lambda: str(u), "foreign": lambda: Graph(), "new": lambda: Graph(store=g.store, identifier=u),
                "self": lambda: g}[how]()
        if how == "self":
            name = "default"
    return g, gr, dest, name


def quads(g):
    from rdflib import ConjunctiveGraph, Dataset
    if isinstance(g, (Dataset, ConjunctiveGraph)):
        out = []
        for c in list(g.contexts()):
            w = str(c.identifier).rsplit("/", 1)[-1] if c.identifier != g.default_context.identifier else "default"
            from rdflib import Graph
            out += [(t, w) for t in Graph(store=g.store, identifier=c.identifier)]
        seen = []
        for x in out:
            if x not in seen:
                seen.append(x)
        if not any(w == "default" for _, w in seen):
            seen += [(t, "default") for t in Graph(store=g.store, identifier=g.default_context.identifier)]
        return seen
    return [(t, "default") for t in g]


def snapshot(g):
    return sorted((t[0].n3(), t[1].n3(), t[2].n3(), w) for t, w in quads(g))


HANDLERS.update(engine=engine)


def placement(sc):
    """Whatever an expansion infers is in the destination, and what was there before stays where it was."""
    import owlrl
    R = main()
    g, gr, dest, name = layout(sc)
    trs = [tuple(R.term(x) for x in t) for t in sc["graph"]]
    for t, w in zip(trs, sc["places"]):
        gr(w).add(t)
    cls = R.find_class(sc["class"])
    cls = type("Once", (cls,), {"rules": lambda self, t, n: None})
    try:
        owlrl.DeductiveClosure(cls, **sc["opts"]).expand(g, **({"destination": dest} if dest is not None else {}))
    except Exception as e:
        raise Violated("the expansion fails with %s: %s" % (type(e).__name__, e))
    start = {(t, w) for t, w in zip(trs, sc["places"])}
    union = {t for t, w in start}
    end = set(quads(g))
    for t, w in start - end:
        raise Violated("%s is no longer in %s" % (t, w))
    for t, w in end - start:
        if w != name:
            raise Violated("inferred %s is in %s, not in %s" % (t, w, name))
        if t in union:
            raise Violated("%s is repeated in %s" % (t, w))
    return "in place"


HANDLERS.update(placement=placement)


def kept(sc):
    """Input triples stay where they are, those with blank predicates go, what follows from them stays."""
    import owlrl
    from rdflib import BNode, RDF, RDFS, OWL
    R = main()
    g, gr, dest, name = layout(sc)
    trs = [tuple(R.term(x) for x in t) for t in sc["graph"]]
    for t, w in zip(trs, sc["places"]):
        gr(w).add(t)
    try:
        owlrl.DeductiveClosure(R.find_class(sc["class"]), **sc["opts"]).expand(g, **({"destination": dest} if dest is not None else {}))
    except Exception as e:
        raise Violated("the expansion fails with %s: %s" % (type(e).__name__, e))
    end = set(quads(g))
    for t, w in zip(trs, sc["places"]):
        if not isinstance(t[1], BNode) and (t, w) not in end:
            raise Violated("%s is no longer in %s" % (t, w))
    for t, w in end:
        if isinstance(t[1], BNode):
            raise Violated("%s has a blank predicate" % (t,))
    have = {t for t, w in end}
    s, p, o = trs[0]
    for m, v, n in trs[1:2]:
        if m != p:
            continue
        want = (s, n, o) if v in (RDFS.subPropertyOf, OWL.equivalentProperty, OWL.sameAs) else (o, n, s) if v == OWL.inverseOf else \
            (s, RDF.type, n) if v == RDFS.domain else None
        if want is not None and not isinstance(want[1], BNode) and want not in have:
            raise Violated("%s is not inferred" % (want,))
    return "kept"


HANDLERS.update(kept=kept)


class Fault(Exception):
    pass


class Stop(BaseException):
    pass


def table(sc):
    """A history of expansions and switches; the host library's conversion table."""
    import owlrl
    import owlrl.DatatypeHandling as D
    from rdflib import Graph, URIRef
    from rdflib.term import _toPythonMapping as tab
    R = main()
    DC = owlrl.DeductiveClosure
    key = URIRef(sc["key"])
    custom = lambda v: ("custom", v)
    if sc["had"]:
        tab[key] = custom
    elif key in tab:
        del tab[key]
    start = dict(tab)

    def same(a, b):
        return a.keys() == b.keys() and all(a[k] is b[k] for k in a)

    def graph():
        g = Graph()
        for t in sc.get("graph") or [[["U", "http://ex.org/a"], ["U", "http://ex.org/p"], ["U", "http://ex.org/b"]]]:
            g.add(tuple(R.term(x) for x in t))
        return g

    def plugged(where, exc, during, nested):
        def at(w):
            def f(self, *a):
                during.append(dict(tab))
                if nested and w == "rules":
                    DC(plugged(None, None, [], False)).expand(graph())
                if where == w:
                    raise exc()
            return f

        def init(self, *a, **k):
            owlrl.Closure.Core.__init__(self, *a, **k)
            at("init")(self)
        return type("Plugged", (owlrl.Closure.Core,), {"__init__": init, "rules": at("rules"), "pre_process": at("pre_process"),
                                                       "post_process": at("post_process"), "add_axioms": lambda s: None, "add_d_axioms": lambda s: None})

    def failing(cls, n, exc):
        """The class on a graph whose n-th operation fails."""
        count = [0]
        g = graph()
        for name in ("add", "remove", "triples", "__contains__", "predicates", "subjects", "objects", "subject_objects", "value", "items"):
            def op(*a, real=getattr(g, name), **k):
                count[0] += 1
                if count[0] == n:
                    raise exc()
                return real(*a, **k)
            if not name.startswith("__"):
                setattr(g, name, op)
        return g
    for op, w, exc in sc["script"]:
        before = dict(tab)
        exc = {"Fault": Fault, "Stop": Stop, None: None}[exc]
        if op == "on":
            DC.use_improved_datatypes_conversions()
            want = dict(before)
            want.update(D.AltXSDToPYTHON)
            if not same(tab, want):
                raise Violated("switching on does not just register the improved conversions")
            continue
        if op == "off":
            DC.use_rdflib_datatypes_conversions()
            if not same(tab, start):
                raise Violated("switching off does not restore the table: %s" % [str(k) for k in set(tab) | set(start) if tab.get(k, 0) is not start.get(k, 0)][:3])
            continue
        improved, during = not op.startswith("plain"), []
        raised = False
        try:
            if sc.get("class"):
                cls = R.find_class(sc["class"])
                DC(cls, **({} if improved else {"improved_datatypes": False})).expand(failing(cls, w, exc) if w else graph())
            else:
                DC(plugged(w, exc, during, op == "nested"), **({} if improved else {"improved_datatypes": False})).expand(graph())
        except (Fault, Stop):
            raised = True
        except Exception as e:
            raise Violated("the expansion fails with %s: %s" % (type(e).__name__, e))
        if w and not raised and not sc.get("class"):
            raise Violated("the failure is swallowed")
        if not same(tab, before):
            raise Violated("the expansion changes the table: %s" % [str(k) for k in set(tab) | set(before) if tab.get(k, 0) is not before.get(k, 0)][:3])
        for d in during:
            if not improved and not same(d, before):
                raise Violated("an expansion without improved conversions changes the table while it runs")
            if improved and any(d.get(k) is not v for k, v in D.AltXSDToPYTHON.items()):
                raise Violated("an expansion runs without the improved conversions")
    return "as it was"


HANDLERS.update(table=table)


def independent(sc):
    """The last expansion, after the others and in a process that ran none."""
    import owlrl
    from rdflib import Graph
    R = main()
    kept = {}

    def run(st):
        g = Graph()
        for t in st["graph"]:
            g.add(tuple(R.term(x) for x in t))
        dc = kept.get(st["class"])
        if dc is None:
            dc = owlrl.DeductiveClosure(R.find_class(st["class"]), **st["opts"])
            if sc.get("reuse"):
                kept[st["class"]] = dc
        dc.expand(g)
        ts = list(g)
        nodes = {s for s, p, o in ts if str(p) == ERR}
        return sorted(repr(R.tkey(t)) for t in ts if t[0] not in nodes), sorted(errors(ts))

    def alone():
        """In a child process."""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                out = json.dumps(run(sc["steps"][-1]))
            except BaseException as e:
                out = json.dumps([["failed %s" % e], []])
            with os.fdopen(w, "w") as f:
                f.write(out)
            os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            out = f.read()
        os.waitpid(pid, 0)
        return tuple(json.loads(out))
    clean = alone()
    try:
        for st in sc["steps"]:
            dirty = run(st)
    except Exception as e:
        raise Violated("an expansion fails with %s: %s" % (type(e).__name__, e))
    if tuple(dirty) != clean:
        raise Violated("only after the other expansions: %s; only without: %s; errors %s and %s" % (
            sorted(set(dirty[0]) - set(clean[0]))[:2], sorted(set(clean[0]) - set(dirty[0]))[:2], dirty[1][:2], clean[1][:2]))
    return "the same"


HANDLERS.update(independent=independent)


# ------------------------------------------------------------------ language ranges
def rfc4647(rng, tag):
    r, t = rng.lower().split("-"), tag.lower().split("-")

    def rest(i, j):
        if i == len(r):
            return True
        if r[i] == "*":
            return rest(i + 1, j)
        if j == len(t):
            return False
        return r[i] == t[j] and rest(i + 1, j + 1) or len(t[j]) > 1 and rest(i, j + 1)
    return (r[0] == "*" or r[0] == t[0]) and rest(1, 1)


def langrange(sc):
    import owlrl.RestrictedDatatype as D
    from rdflib import Literal, URIRef
    rs, tag = sc["ranges"], sc["tag"]
    try:
        dt = D.RestrictedDatatype(URIRef("http://ex.org/d"), URIRef(RDF + "PlainLiteral"), [(URIRef(RDF + "langRange"), r) for r in rs])
        got = bool(dt.checkValue(Literal("text", lang=tag)))
    except Exception as e:
        raise Violated("ranges %s and tag %r: %s: %s" % (rs, tag, type(e).__name__, e))
    if got != all(rfc4647(r, tag) for r in rs):
        raise Violated("tag %r is %s by the ranges %s" % (tag, "accepted" if got else "rejected", rs))
    return "agrees"


HANDLERS.update(langrange=langrange)


# ------------------------------------------------------------------ facets
def facets(sc):
    import owlrl.RestrictedDatatype as D
    from owlrl.DatatypeHandling import AltXSDToPYTHON as conv
    from rdflib import URIRef
    base = URIRef(sc["base"])
    val = conv[base](sc["candidate"])
    what = "%r restricted by %s" % (sc["candidate"], [f[:2] for f in sc["facets"]])
    try:
        dt = D.RestrictedDatatype(URIRef("http://ex.org/d"), base, [(URIRef(f), conv[URIRef(d)](x)) for f, x, d in sc["facets"]])
        got = bool(dt.checkValue(val))
    except Exception as e:
        raise Violated("%s: %s: %s" % (what, type(e).__name__, e))
    if got != sc["want"]:
        raise Violated("%s is %s" % (what, "accepted" if got else "rejected"))
    try:
        dt.toPython(sc["candidate"])
        c = True
    except ValueError:
        c = False
    if c != sc["want"]:
        raise Violated("%s is %s by the conversion of the datatype" % (what, "accepted" if c else "rejected"))
    return "agrees"


HANDLERS.update(facets=facets)


# ------------------------------------------------------------------ trimming
def trimming(sc):
    """The trimmed result against the extended one."""
    import owlrl
    from rdflib import RDF, RDFS, OWL, XSD
    R = main()

    def go(name):
        g, gr, dest, dname = layout(sc)
        trs = [tuple(R.term(x) for x in t) for t in sc["graph"]]
        for t, w in zip(trs, sc["places"]):
            gr(w or "default").add(t)
        cls = R.find_class(name)
        if sc.get("norules"):
            cls = type("Once", (cls,), {"rules": lambda self, t, n: None})
        try:
            owlrl.DeductiveClosure(cls, **sc["opts"]).expand(g, **({"destination": dest} if dest is not None else {}))
        except Exception as e:
            raise Violated("the expansion fails with %s: %s" % (type(e).__name__, e))
        errs.append(sorted(errors(t for t, w in quads(g))))
        qs = [(t, w) for t, w in set(quads(g)) if ERR not in (str(t[1]), str(t[2])) and not str(t[2]).endswith("ErrorMessage")]
        return {t for t, w in qs}, {t for t, w in qs if w == dname}, {(t, w) for t, w in qs if w != dname}
    errs = []
    _, got, other = go("OWLRL_Extension_Trimming")
    full, base, other0 = go("OWLRL_Extension")
    if errs[0] != errs[1]:
        raise Violated("the errors reported differ: %s and %s" % tuple(errs))
    ann = {RDFS.label, RDFS.comment, RDFS.seeAlso, RDFS.isDefinedBy, OWL.deprecated, OWL.versionInfo, OWL.priorVersion,
           OWL.backwardCompatibleWith, OWL.incompatibleWith}
    N, T, C, RES, D, DR = OWL.Nothing, OWL.Thing, OWL.Class, RDFS.Resource, RDFS.Datatype, OWL.DataRange
    E, S = OWL.equivalentClass, RDFS.subClassOf
    fixed = {(N, RDF.type, C), (N, RDF.type, RDFS.Class), (T, RDF.type, C), (T, RDF.type, RDFS.Class), (T, E, RES), (RES, E, T),
             (C, E, RDFS.Class), (RDFS.Class, E, C), (C, S, RDFS.Class), (RDFS.Class, S, C), (D, S, DR), (D, E, DR), (DR, S, D), (DR, E, D)}
    known = {XSD[n] for n in XSDNAMES} | {RDF.XMLLiteral, RDF.PlainLiteral, RDFS.Literal, OWL.rational, RDF.HTML, RDF.langString}
    known |= {s for s, p, o in full if p == OWL.withRestrictions}
    used = {o for s, p, o in full if p == RDF.type}

    def trivial(s, p, o):
        idle = lambda dt: dt in known and dt not in used
        return (s == o and p in (OWL.sameAs, E, S, RDFS.subPropertyOf)) or (p == S and (o in (T, RES) or s == N)) or \
            (p == RDF.type and (o == RES or (o == OWL.AnnotationProperty and s in ann) or (o in (D, DR) and idle(s)))) or \
            (s, p, o) in fixed or (p == OWL.disjointWith and (idle(s) or idle(o)))
    for t in base:
        if trivial(*t) and t in got:
            raise Violated("the trivial %s is not removed" % (t,))
        if not trivial(*t) and t not in got:
            raise Violated("%s is removed" % (t,))
    for t in got - base:
        raise Violated("%s appears" % (t,))
    for t in other ^ other0:
        raise Violated("%s outside the result graph" % (t,))
    return "trimmed"


XSDNAMES = ("anyURI base64Binary boolean byte date dateTime dateTimeStamp decimal double float hexBinary int integer language long Name NCName "
            "negativeInteger NMTOKEN nonNegativeInteger nonPositiveInteger normalizedString positiveInteger short string time token unsignedByte "
            "unsignedInt unsignedLong unsignedShort").split()
HANDLERS.update(trimming=trimming)


# ------------------------------------------------------------------ the command line
def cli(sc):
    """The real script with these arguments; the options it passes on against the documented ones."""
    import contextlib
    import io
    import types
    import owlrl
    calls = []
    result = "⟦result of the conversion⟧"

    def rec(options, closureClass=None):
        calls.append(dict(vars(options), sources=list(options.sources)))
        return result
    real = owlrl.convert_graph
    owlrl.convert_graph = rec
    path = os.path.join(os.environ.get("OWLRL_REPO", "/repo"), "scripts", "owlrl")
    m = types.ModuleType("owlrl_script")
    argv, sys.argv = sys.argv, ["owlrl"] + sc["args"]
    out, end = io.StringIO(), None
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            exec(compile(open(path).read(), path, "exec"), m.__dict__)
            m.main()
    except BaseException as e:
        end = e
    finally:
        sys.argv = argv
        owlrl.convert_graph = real
    want = cli_options(sc["args"])
    if want is None:
        if not isinstance(end, SystemExit) or calls:
            raise Violated("%r is not refused: %r %s" % (sc["args"], end, calls))
        return "refused"
    if end is not None:
        raise Violated("%r ends with %r" % (sc["args"], end))
    if len(calls) != 1:
        raise Violated("%r: convert_graph is called %d times" % (sc["args"], len(calls)))
    o = calls[0]
    on = lambda x: x in (True, "yes", "Yes", "True", "true")
    for k, v in want.items():
        if k in ("maximal", "source"):
            continue
        if k == "sources":
            got = set(o["sources"]) | ({o["source"]} if o.get("source") is not None else set())
            if got != set(v):
                raise Violated("%r: reads %s, not %s" % (sc["args"], sorted(got), v))
        elif k in ("format", "iformat", "text"):
            if o.get(k) != v:
                raise Violated("%r: %s is %r, not %r" % (sc["args"], k, o.get(k), v))
        elif on(o.get(k)) != on(v):
            raise Violated("%r: %s is %r, not %r" % (sc["args"], k, o.get(k), v))
    if out.getvalue() != result + "\n":
        raise Violated("%r prints %r" % (sc["args"], out.getvalue()[:80]))
    return "as documented"


def cli_options(args):
    """None if refused."""
    yn, fm, im = ["yes", "no"], ["turtle", "json", "xml"], ["auto", "turtle", "xml", "rdfa", "json"]
    flags = {"w": "owlClosure", "r": "rdfsClosure", "e": "owlExtras", "a": "axioms", "d": "daxioms", "t": "trimming", "m": "maximal"}
    vals = {"f": ("source", None), "o": ("format", fm), "s": ("format", fm), "i": ("iformat", im)}
    longs = {"file": ("source", None), "owlrl": ("owlClosure", yn), "rdfs": ("rdfsClosure", yn), "extras": ("owlExtras", yn), "axioms": ("axioms", yn),
             "daxioms": ("daxioms", yn), "trimming": ("trimming", yn), "serialization": ("format", fm), "syntax": ("format", fm), "input_syntax": ("iformat", im)}
    v = dict(format="turtle", owlClosure="no", rdfsClosure="no", owlExtras="no", axioms="no", daxioms="no", iformat="auto", trimming="no", maximal="no",
             source=None, text=None)
    rest = list(args)
    while rest and rest[0].startswith("-") and rest[0] != "-":
        t = rest.pop(0)
        if t == "--":
            break
        if t.startswith("--"):
            name, eq, val = t[2:].partition("=")
            if name == "maximal" and not eq:
                v["maximal"] = "yes"
                continue
            if name not in longs or not eq and not rest:
                return None
            opt, ok = longs[name]
            val = val if eq else rest.pop(0)
        else:
            opt = None
            for i, ch in enumerate(t[1:], 2):
                if ch in flags:
                    v[flags[ch]] = "yes"
                elif ch in vals:
                    opt, ok = vals[ch]
                    if i == len(t) and not rest:
                        return None
                    val = t[i:] if i < len(t) else rest.pop(0)
                    break
                else:
                    return None
            if opt is None:
                continue
        if ok is not None and val not in ok:
            return None
        v[opt] = val
    v["sources"] = ([v["source"]] if v["source"] is not None else []) + rest or ["-"]
    if v["maximal"] == "yes":
        v.update(owlClosure="yes", rdfsClosure="yes", owlExtras="yes", trimming="yes")
    return v


HANDLERS.update(cli=cli)


# ------------------------------------------------------------------ convert_graph
def convert(sc):
    """The real convert_graph with recorders for reading, expanding and writing."""
    import types
    import owlrl
    import owlrl.Closure as C
    import owlrl.DatatypeHandling as D
    from rdflib import Graph, URIRef, OWL, XSD
    import rdflib.term as rt
    EX = "http://ex.org/"
    opts = {k: list(v) if isinstance(v, list) else v for k, v in sc["opts"].items()}
    o0 = {k: list(v) if isinstance(v, list) else v for k, v in opts.items()}
    doc = lambda i: (URIRef(EX + "doc%d" % i), URIRef(EX + "read"), URIRef(EX + "once"))
    mark = (URIRef(EX + "inferred"), URIRef(EX + "by"), URIRef(EX + "closure"))
    imp = (URIRef(EX + "onto"), OWL.imports, URIRef(EX + "imported.ttl"))
    parses, closures, outs = [], [], []

    def parse(graph, source=None, publicID=None, format=None, location=None, file=None, data=None, **k):
        parses.append((source if source is not None else file if file is not None else location, format, data))
        graph.add(doc(len(parses)))
        if sc["imports"] and len(parses) == 1:
            graph.add(imp)
        return graph

    def closure(core):
        closures.append((type(core), bool(core.axioms), bool(core.daxioms), bool(core.rdfs), len(parses),
                         rt._toPythonMapping.get(XSD.integer) is D.AltXSDToPYTHON[XSD.integer]))
        core.destination.add(mark)

    def serialize(graph, destination=None, format="turtle", **k):
        outs.append((format, set(graph)))
        return "the document"
    Graph.parse, Graph.serialize, C.Core.closure = parse, serialize, closure
    Custom = type("Custom", (C.Core,), {})
    end = ret = None
    try:
        ret = owlrl.convert_graph(types.SimpleNamespace(**opts), *([Custom] if sc["explicit"] else []))
    except Exception as e:
        end = e
    on = lambda x: x in (True, "yes", "Yes", "True", "true")
    v = {k: on(o0.get(k, False)) for k in ("owlClosure", "rdfsClosure", "owlExtras", "trimming", "axioms", "daxioms")}
    sources = set(o0["sources"]) | ({o0["source"]} if o0.get("source") is not None else set())
    text = o0["text"]
    blank = text is None or not text.strip()
    ifm = o0.get("iformat", "auto")

    def informat(s):
        if ifm != "auto":
            return {"turtle": "turtle", "rdfa": "rdfa", "xml": "xml", "rdfxml": "xml", "json": "json"}.get(ifm)
        for suf, f in ((".ttl", "turtle"), (".n3", "turtle"), (".json", "json"), (".jsonld", "json"), (".html", "rdfa")):
            if s.endswith(suf):
                return f
        return "turtle" if s == "-" else "xml"
    KIND = {"turtle": "turtle", "ttl": "turtle", "n3": "turtle", "text/turtle": "turtle", "xml": "xml", "application/rdf+xml": "xml",
            "pretty-xml": "xml", "json-ld": "json", "application/ld+json": "json", "rdfa1.1": "rdfa", "rdfa": "rdfa", "html": "rdfa"}
    show = {k: o0[k] for k in sorted(o0)}
    if not sources and blank or any(informat(s) is None for s in sources):
        if end is None or outs:
            raise Violated("%s is not refused" % show)
        return "refused"
    if end is not None:
        raise Violated("%s fails with %s: %s" % (show, type(end).__name__, end))
    todo = {s: informat(s) for s in sources}
    if v["owlClosure"] and sc["imports"]:
        todo[EX + "imported.ttl"] = informat(EX + "imported.ttl")
    texts = 0
    for source, format, data in parses:
        if data is not None:
            if data != text or KIND.get(format) != "turtle":
                raise Violated("%s: %r is parsed as %s" % (show, data, format))
            texts += 1
            continue
        name = "-" if source is sys.stdin else str(source)
        if name not in todo or name == "-" and source is not sys.stdin:
            raise Violated("%s: %s is read" % (show, source))
        if KIND.get(format) != todo.pop(name):
            raise Violated("%s: %s is parsed as %s" % (show, name, format))
    if todo:
        raise Violated("%s: %s is not read" % (show, todo))
    if texts != 1 and not blank or texts > 1:
        raise Violated("%s: the text is parsed %d times" % (show, texts))
    if sc["explicit"]:
        cls = "Custom"
    elif v["owlClosure"]:
        cls = ("OWLRL_Extension_Trimming" if v["trimming"] else "OWLRL_Extension") if v["owlExtras"] else \
            "RDFS_OWLRL_Semantics" if v["rdfsClosure"] else "OWLRL_Semantics"
    else:
        cls = "RDFS_Semantics" if v["rdfsClosure"] else None
    if len(closures) != (cls is not None):
        raise Violated("%s: %d expansions" % (show, len(closures)))
    if cls:
        c, ax, dax, rdfs, n, alt = closures[0]
        if c.__name__ != cls or (ax, dax) != (v["axioms"], v["daxioms"]) or (cls.startswith("OWLRL_Ext") or cls == "Custom") and rdfs != v["rdfsClosure"]:
            raise Violated("%s: expands with %s, axioms %s, datatype axioms %s, RDFS %s" % (show, c.__name__, ax, dax, rdfs))
        if n != len(parses) or not alt:
            raise Violated("%s: read after the expansion, or without the improved conversions" % show)
    kind = {"turtle": "turtle", "json": "json", "xml": "xml", "rdfxml": "xml"}.get(o0["format"])
    if len(outs) != 1 or ret != "the document" or kind is not None and KIND.get(outs[0][0]) != kind:
        raise Violated("%s: writes %s, returns %r" % (show, [f for f, g in outs], ret))
    want = {doc(i + 1) for i in range(len(parses))} | ({mark} if cls else set()) | ({imp} if sc["imports"] and not v["owlClosure"] else set())
    if outs[0][1] != want:
        raise Violated("%s: the document written does not hold what was read and inferred" % show)
    return "as documented"


HANDLERS.update(convert=convert)


# ------------------------------------------------------------------ imports
def imports(sc):
    """The real import interpretation; reading a document adds the triples given for its name."""
    import owlrl
    from rdflib import Graph, OWL
    R = main()
    tr = lambda ts: [tuple(R.term(x) for x in t) for t in ts]
    docs = {k: tr(v) for k, v in sc["docs"].items()}
    reads = []

    def parse(graph, source=None, **k):
        n = str(source)
        if n in reads:
            raise Violated("%s is read again" % n)
        reads.append(n)
        for t in docs.get(n, []):
            graph.add(t)
        return graph
    Graph.parse = parse
    g = Graph()
    for t in tr(sc["graph"]):
        g.add(t)
    try:
        owlrl.interpret_owl_imports("turtle", g)
    except Violated:
        raise
    except Exception as e:
        raise Violated("fails with %s: %s" % (type(e).__name__, e))
    pool, todo = set(tr(sc["graph"])), None
    want = set()
    while True:
        new = {str(o) for s, p, o in pool if p == OWL.imports} - want
        if not new:
            break
        want |= new
        for n in new:
            pool |= set(docs.get(n, []))
    if set(reads) != want:
        raise Violated("read %s, not %s" % (sorted(reads), sorted(want)))
    rest = {t for t in pool if t[1] != OWL.imports}
    if set(g) != rest:
        raise Violated("the graph differs in %s" % (sorted(set(g) ^ rest),))
    return "imported"


HANDLERS.update(imports=imports)


# ------------------------------------------------------------------ the conversion service
def cgi(sc):
    """The real service script under the real cgi module."""
    import contextlib
    import io
    import types
    import urllib.parse
    import warnings
    import owlrl
    calls = []
    result = "⟦the result⟧\n@prefix <a&b>"
    err = {"Exception": Exception, "ValueError": ValueError, "KeyError": KeyError}.get(sc["fail"])
    form = sc["form"]

    def rec(options, closureClass=None):
        calls.append(dict(vars(options), sources=list(options.sources)))
        if err is not None:
            raise err("no <input> & \"such\"")
        return result
    real = owlrl.convert_graph
    owlrl.convert_graph = rec
    path = os.path.join(os.environ.get("OWLRL_REPO", "/repo"), "scripts", "RDFConvertService")
    m = types.ModuleType("service_script")
    m.__file__ = path
    out, end = io.StringIO(), None
    hook, argv = sys.excepthook, sys.argv
    sys.argv = ["RDFConvertService"]
    os.environ.update(QUERY_STRING=urllib.parse.urlencode(form), REQUEST_METHOD="GET")
    try:
        with contextlib.redirect_stdout(out), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            exec(compile(open(path, encoding="utf-8").read(), path, "exec"), m.__dict__)
    except BaseException as e:
        end = e
    finally:
        sys.excepthook, sys.argv = hook, argv
        owlrl.convert_graph = real
    if end is not None:
        raise Violated("%r: the service fails with %r" % (form, end))
    if len(calls) != 1:
        raise Violated("%r: convert_graph is called %d times" % (form, len(calls)))
    o = calls[0]
    on = lambda x: x in (True, "yes", "Yes", "True", "true")
    full = form.get("fullClosure") == "yes"
    for k in ("owlClosure", "rdfsClosure", "owlExtras", "axioms", "daxioms", "trimming"):
        want = (k in ("owlClosure", "rdfsClosure")) if full else k != "trimming" and on(form.get(k))
        if on(o.get(k)) != want:
            raise Violated("%r: %s is %r" % (form, k, o.get(k)))
    if o.get("text") != form.get("text"):
        raise Violated("%r: the text is %r" % (form, o.get("text")))
    if o["iformat"] != (form.get("iformat") if form.get("iformat") in ("xml", "turtle") else "auto"):
        raise Violated("%r: the input format is %r" % (form, o["iformat"]))
    if o["format"] != form.get("format", "turtle"):
        raise Violated("%r: the output format is %r" % (form, o["format"]))
    want = {form[k] for k in ("source_1", "source_2", "uri", "source") if k in form}
    if set(o["sources"]) | ({o["source"]} if o.get("source") is not None else set()) != want:
        raise Violated("%r: reads %s" % (form, o["sources"]))
    head, sep, body = out.getvalue().partition("\n\n")
    head = {h.partition(":")[0].strip(): h.partition(":")[2].strip() for h in head.lower().splitlines()}
    ct = head.get("content-type", "").partition(";")[0].strip()
    if err is None:
        t = {"turtle": "text/turtle", "xml": "application/rdf+xml"}.get(o["format"], ct)
        if ct != t or head.get("status", "200").split()[0] != "200" or body.rstrip("\n") != result:
            raise Violated("%r: prints %r" % (form, out.getvalue()[:200]))
        return "as documented"
    if ct != "text/html" or not head.get("status", "").startswith("400") or "⟦" in body or "no &lt;input&gt; &amp; " not in body:
        raise Violated("%r: a failure prints %r" % (form, out.getvalue()[:400]))
    # what the page contains beyond the one for harmless values of the same fields
    if sc.get("inner"):
        return body
    harmless = cgi(dict(sc, form={k: "x" * len(v) for k, v in form.items()}, inner=True))
    for d in "<>":
        lines = sum(v.count("\n") for k, v in form.items() if k == "text")
        if body.count(d) - lines != harmless.count(d):
            raise Violated("%r: %r is not escaped: %r" % (form, d, body[:800]))
    import re
    if "&" in re.sub("&(lt|gt|amp|quot|#x27|#39|apos);", "", body):
        raise Violated("%r: '&' is not escaped: %r" % (form, body[:800]))
    return "as documented"


HANDLERS.update(cgi=cgi)
