"""Jobs for the rule properties: for every rule of a table, its premises with every position symbolic, plus extra triples."""
import z3

from . import engine as E
from . import rulecheck as R
from . import spec, stub
from .run import Job

USER = E.ANY & ~E.URI_VOCAB
NOBN = USER & ~E.BNODE

ASSUME = [
    "rdflib is replaced by the symbolic environment vt/stub.py (terms, graph and dataset pattern matching, rdf:List walking, "
    "Literal.value); sampled paths are replayed on the real rdflib in every run",
    "rdf:first / rdf:rest occur only in the well-formed lists of the harness",
    "one round of the rules over a graph is checked, and two where a premise arrives late (what the first one adds is not fed back); "
    "that the engine runs the rounds to the fixpoint is property E01",
    "the reference is the rule table written from the W3C recommendation in vt/spec.py",
    "z3 and the congruence closure in vt/engine.py are trusted",
]


def sample_of(h):
    def sample(ctx):
        d = ctx.notes.get("graph")
        if d is None:
            return None
        try:
            tr, ls, k, conc = h.concretise(ctx, d, None)
        except E.Infeasible:
            return None
        start, more = h.encoded(d, tr)[0]
        tr = tr + more
        saved, E.CUR = E.CUR, E.Ctx()
        try:
            try:
                ref = spec.closure(tr + h.axioms, ls, h.allowed, R.cval, lambda x: x.mask == E.LITERAL, limit=1500)
            except RuntimeError:
                return None
            if any(t[1] in (stub.RDF.first, stub.RDF.rest) for t in ref.values() if t not in tr):
                return None  # lists that are changed by inference are no longer well-formed
            same = lambda x, y: x.tid == y.tid
            evc = spec.Eval(list(ref.values()), ls, same, R.cval, limit=10 ** 7)
            consistent = not any(i.culprits is not None for i in evc.instances([r for r in h.allowed if r.false is not None or r.dyn is not None]))
            ev = spec.Eval(tr, ls, same, R.cval)
            must, merr = [], []
            refl = {p.tid for p in h.trivial}
            for i in ev.instances(h.own):
                if i.culprits is not None:
                    if i.rule.name in ("eq-diff2", "eq-diff3") and i.culprits[0] is i.culprits[1]:
                        continue
                    if not i.rule.name.endswith("r") and h.errors:
                        merr.append([R.ser(c) for c in i.culprits])
                    continue
                for c in i.concl:
                    if c[1].tid in refl and c[0] is c[2] and h.exempt(i):
                        continue
                    if c[1].mask != E.LITERAL:
                        must.append([R.ser(x) for x in c])
            return {"scenario": "rules", "class": h.cls, "ctor": h.cctor, "cycle": k, "kind": "sample", "rounds": 12,
                    "graph": [[R.ser(x) for x in t] for t in start], "must": must, "must_errors": merr[:20],
                    "allowed": [[R.ser(x) for x in t] for t in ref.values()] if "sound" in h.check else None,
                    "no_errors": consistent and h.errors, "why": "sampled path %s" % h.name}
        finally:
            E.CUR = saved
    return sample


def harness_job(name, cls, ctor, build, own, allowed, bounds, **k):
    h = R.Harness(name, cls, ctor, build, own, allowed, **k)
    return Job(name, h.path, bounds, sample_of(h), setup=R.setup)


def jobs_for(rules, own, allowed, cls, ctor, configs, **k):
    """configs: list of (tag, mask, extra, extramask, cycle, lens)"""
    out = []
    for tag, mask, extra, exm, cyc, lens, *more in configs:
        opts = more[0] if more else {}
        for r in rules:
            haslist = any(p[0] == "LIST" for p in r.prem)
            for n in (lens if haslist else (0,)):
                al = 0
                while True:
                    t = R.template(r, n, al)
                    if t is None:
                        break
                    out.append(harness_job(
                        "%s[n=%d,alt=%d]/%s" % (r.name, n, al, tag) if haslist else "%s/%s" % (r.name, tag),
                        cls, ctor, R.build_template(*t, mask, extra, exm, cyc, **opts), own, allowed,
                        "premises of %s%s + %d arbitrary triples, round %s" % (
                            r.name, " with a list of %d" % n if haslist else "", extra, cyc if cyc else "any"), **k))
                    if haslist and n < (2 if r.name in ("eq-diff2", "eq-diff3", "eq-diff2r", "eq-diff3r", "prp-adp", "cax-adc") else 1):
                        out[-1].witness = False
                    al += 1
                    if not haslist or r.dyn is None:
                        break
    return out


def weakened(rules, own, allowed, cls, ctor, tag, mask, cyc, lens, two=False, **k):
    """Every premise in turn loses its joins with the others (fresh variables): decides soundness when one condition of a
    rule is not met, and completeness when it is met by other means."""
    out = []
    for r in rules:
        haslist = any(p[0] == "LIST" for p in r.prem)
        for n in (lens if haslist else (0,)):
            al = 0
            while True:
                t = R.template(r, n, al)
                if t is None:
                    break
                pats, lists, vals = t
                heads = {h for h, _ in lists}
                idx = [(i,) for i in range(len(pats))]
                if two:
                    idx = [(i, j) for i in range(len(pats)) for j in range(i + 1, len(pats))]
                for ii in idx:
                    new = list(pats)
                    ren = {}
                    for i in ii:
                        others = {q for j, p in enumerate(pats) if j not in ii for q in p} | {m for _, mem in lists for m in mem} | set(vals)
                        others |= {q for j in ii if j != i for q in pats[j]}
                        new[i] = tuple(ren.setdefault((i, q), "%s_w%d" % (q, i)) if type(q) is str and q not in heads and q in others else q
                                       for q in pats[i])
                    if new == pats:
                        continue
                    pv = {p[1] for p in pats if type(p[1]) is str} | {m for _, mem in lists for m in mem}
                    v2 = [v for v in vals if any(v in p for p in new)]
                    j = harness_job(
                        "%s%s/premise %s apart%s" % (r.name, "[n=%d,alt=%d]" % (n, al) if haslist else "", "+".join(str(i + 1) for i in ii), tag),
                        cls, ctor, R.build_template(new, lists, v2, mask, 0, mask, cyc), own, allowed,
                        "premises of %s%s with premise %s free" % (r.name, " with a list of %d" % n if haslist else "", ii), **k)
                    j.witness = False
                    out.append(j)
                al += 1
                if not haslist or r.dyn is None:
                    break
    return out


def late(rules, own, allowed, cls, ctor, mask=USER, lens=(1, 2), **k):
    """Every premise in turn is missing in the first round and present in the second."""
    out = []
    for r in rules:
        haslist = any(p[0] == "LIST" for p in r.prem)
        for n in (lens if haslist else (0,)):
            al = 0
            while True:
                t = R.template(r, n, al)
                if t is None:
                    break
                if len(t[0]) > 1 or haslist:
                    for i in range(len(t[0])):
                        out.append(harness_job(
                            "%s%s/premise %d late" % (r.name, "[n=%d,alt=%d]" % (n, al) if haslist else "", i + 1), cls, ctor,
                            R.build_template(*t, mask, 0, mask, 2, late=i), own, allowed,
                            "premises of %s%s, premise %d arriving after a round" % (r.name, " with a list of %d" % n if haslist else "", i + 1), **k))
                        out[-1].witness = not haslist
                al += 1
                if not haslist or r.dyn is None:
                    break
    return out


def large(rules, own, allowed, cls, ctor, lens=(7,), copies=4, **k):
    """Big instances over pairwise different terms: long lists, complete and with each premise in turn cut loose, and several
    instances of the premises that differ in one variable."""
    out = []

    def add(name, t, text, wit):
        out.append(harness_job(name, cls, ctor, R.build_template(*t, E.URI_USER, 0, E.URI_USER, "late", distinct=True), own, allowed,
                               text + ", all terms different", **k))
        out[-1].witness = wit
    for r in rules:
        haslist = any(p[0] == "LIST" for p in r.prem)
        for n in (lens if haslist else ()):
            al = 0
            while True:
                t = R.template(r, n, al)
                if t is None:
                    break
                pats, lists, vals = t
                add("%s[n=%d,alt=%d]/long list" % (r.name, n, al), t, "premises of %s with a list of %d" % (r.name, n), True)
                heads = {h for h, _ in lists}
                for i, p in enumerate(pats):
                    others = {q for j, o in enumerate(pats) if j != i for q in o} | {m for _, mem in lists for m in mem} | set(vals)
                    new = list(pats)
                    new[i] = tuple(q + "_w" if type(q) is str and q not in heads and q in others else q for q in p)
                    if new[i] != p:
                        add("%s[n=%d,alt=%d]/long list, premise %d apart" % (r.name, n, al, i + 1),
                            (new, lists, [v for v in vals if any(v in o for o in new)]),
                            "premises of %s with a list of %d, premise %d free" % (r.name, n, i + 1), False)
                al += 1
                if r.dyn is None:
                    break
        t = R.template(r, 2, 0)
        if t is None:
            continue
        pats, lists, vals = t
        fixed = {h for h, _ in lists} | {m for _, mem in lists for m in mem} | set(vals)
        for v in sorted({q for p in pats for q in p if type(q) is str and q not in fixed}):
            new = list(pats)
            for c in range(copies):
                new += [tuple("%s_c%d" % (q, c) if type(q) is str and q == v else q for q in p)
                        for p in pats if any(type(q) is str and q == v for q in p)]
            add("%s/%d times in %s" % (r.name, copies + 1, v), (new, lists, vals),
                "premises of %s, %d instances differing in %s" % (r.name, copies + 1, v), False)
    return out


def arbitrary(ks, own, allowed, cls, ctor, mask=E.ANY, lists=(), cyc="late", tag="", **k):
    """K arbitrary triples; with n in lists: K triples plus a list of n arbitrary members the triples may refer to."""
    out = []
    for kk in ks:
        out.append(harness_job("%d arbitrary triples%s" % (kk, tag), cls, ctor, R.build_template([], [], [], mask, kk, mask, cyc),
                               own, allowed, "%d triples, every position any term" % kk, **k))
    for kk, n in lists:
        mem = [(u, ["?m%d" % i for i in range(n)]) for u in ("?l",)]
        out.append(harness_job("%d arbitrary triples + list of %d%s" % (kk, n, tag), cls, ctor,
                               R.build_template([], mem, [], mask, kk, mask, cyc, link=True), own, allowed,
                               "%d arbitrary triples and a list of %d arbitrary members" % (kk, n), **k))
    return out


# configurations -------------------------------------------------------------------------------------------
def quick(lens=(0, 1, 2, 3, 4), xlens=(1, 2)):
    return [
        ("premises, vocabulary allowed", (USER, E.ANY, USER), 0, E.ANY, "late", [n for n in lens if n < 3]),
        ("premises", USER, 0, USER, "late", [n for n in lens if n >= 3]),
        ("premises+1", USER, 1, USER, "late", xlens),
        ("premises+1, reversed", USER, 1, USER, "late", xlens, dict(rev=True)),
        ("first round", NOBN, 0, NOBN, 1, [n for n in lens if n < 3]),
    ]


def thorough(lens=(0, 1, 2, 3, 4), xlens=(1, 2, 3)):
    return [
        ("premises, vocabulary allowed", E.ANY, 0, E.ANY, "late", [n for n in lens if n < 4]),
        ("premises", USER, 0, USER, "late", [n for n in lens if n >= 4]),
        ("first round", NOBN, 0, NOBN, 1, lens),
        ("first round+1", NOBN, 1, NOBN, 1, [1, 2]),
        ("premises+1", USER, 1, USER, "late", xlens),
        ("premises+1, reversed", USER, 1, USER, "late", xlens, dict(rev=True)),
        ("premises+1 any", USER, 1, E.ANY, "late", [1, 2]),
        ("premises+2", USER, 2, USER, "late", [1, 2]),
    ]
