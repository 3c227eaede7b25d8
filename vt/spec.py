"""The W3C rule tables (OWL 2 RL/RDF tables 4,5,6,7,9 and the RDFS entailment patterns), written from the
recommendations, independent of the code.  One rule = (name, premises, dyn) where dyn(bindings) yields
(more premises, conclusions | FALSE(culprit names)).  Evaluated by a join that is generic in how terms are compared."""
from . import stub

RDF, RDFS, OWL, XSD = stub.RDF, stub.RDFS, stub.OWL, stub.XSD
_NS = {"rdf": RDF, "rdfs": RDFS, "owl": OWL, "xsd": XSD}


class False_:
    def __init__(self, *culprits):
        self.culprits = culprits


def _tok(w):
    if w == "a":
        return RDF.type
    if w.startswith("?"):
        return w
    p, n = w.split(":")
    return _NS[p][n]


def pats(text):
    out = []
    for part in text.split("."):
        ws = part.split()
        if not ws:
            continue
        if ws[0] == "LIST":  # LIST ?head ?members
            out.append(("LIST", ws[1], ws[2]))
        elif ws[0] == "VAL":  # VAL ?x n : literal whose value is the integer n
            out.append(("VAL", ws[1], int(ws[2])))
        else:
            out.append(tuple(_tok(w) for w in ws))
    return out


class Rule:
    def __init__(self, name, prem, concl=None, dyn=None, false=None, group=None):
        self.name = name
        self.prem = pats(prem)
        self.concl = pats(concl) if concl else []
        self.false = false
        self.dyn = dyn
        self.group = group


def _r(name, prem, concl=None, **k):
    return Rule(name, prem, concl, **k)


# ---------------------------------------------------------------- table 4: equality
EQ = [
    _r("eq-ref", "?s ?p ?o", "?s owl:sameAs ?s . ?p owl:sameAs ?p . ?o owl:sameAs ?o"),
    _r("eq-sym", "?x owl:sameAs ?y", "?y owl:sameAs ?x"),
    _r("eq-trans", "?x owl:sameAs ?y . ?y owl:sameAs ?z", "?x owl:sameAs ?z"),
    _r("eq-rep-s", "?s owl:sameAs ?t . ?s ?p ?o", "?t ?p ?o"),
    _r("eq-rep-p", "?p owl:sameAs ?q . ?s ?p ?o", "?s ?q ?o"),
    _r("eq-rep-o", "?o owl:sameAs ?t . ?s ?p ?o", "?s ?p ?t"),
    _r("eq-diff1", "?x owl:sameAs ?y . ?x owl:differentFrom ?y", false=False_("?x", "?y")),
]


def _pairs(zs):
    for i in range(len(zs)):
        for j in range(i + 1, len(zs)):
            yield i, j


def _alldiff(b):
    zs = b["?zs"]
    for i, j in _pairs(zs):
        yield [(zs[i], OWL.sameAs, zs[j])], False_(zs[i], zs[j])


def _alldiff_r(b):
    # sameAs is symmetric: the pair may be stated in either direction (one eq-sym step away)
    zs = b["?zs"]
    for i, j in _pairs(zs):
        yield [(zs[j], OWL.sameAs, zs[i])], False_(zs[i], zs[j])


EQ += [
    _r("eq-diff2", "?x a owl:AllDifferent . ?x owl:members ?y . LIST ?y ?zs", dyn=_alldiff),
    _r("eq-diff3", "?x a owl:AllDifferent . ?x owl:distinctMembers ?y . LIST ?y ?zs", dyn=_alldiff),
    _r("eq-diff1r", "?y owl:sameAs ?x . ?x owl:differentFrom ?y", false=False_("?x", "?y")),
    _r("eq-diff2r", "?x a owl:AllDifferent . ?x owl:members ?y . LIST ?y ?zs", dyn=_alldiff_r),
    _r("eq-diff3r", "?x a owl:AllDifferent . ?x owl:distinctMembers ?y . LIST ?y ?zs", dyn=_alldiff_r),
]


# ---------------------------------------------------------------- table 5: property axioms
def _chain(b):
    zs = b["?zs"]
    if zs:
        yield [("?u%d" % i, z, "?u%d" % (i + 1)) for i, z in enumerate(zs)], [("?u0", "?p", "?u%d" % len(zs))]


def _key(b):
    zs = b["?zs"]
    if zs:
        pr = [("?x", RDF.type, "?c"), ("?y", RDF.type, "?c")]
        for i, z in enumerate(zs):
            pr += [("?x", z, "?z%d" % i), ("?y", z, "?z%d" % i)]
        yield pr, [("?x", OWL.sameAs, "?y")]


def _adp(b):
    zs = b["?zs"]
    for i, j in _pairs(zs):
        yield [("?v", zs[i], "?w"), ("?v", zs[j], "?w")], False_(zs[i], zs[j], "?v", "?w")


PRP = [
    _r("prp-dom", "?p rdfs:domain ?c . ?x ?p ?y", "?x a ?c"),
    _r("prp-rng", "?p rdfs:range ?c . ?x ?p ?y", "?y a ?c"),
    _r("prp-fp", "?p a owl:FunctionalProperty . ?x ?p ?y1 . ?x ?p ?y2", "?y1 owl:sameAs ?y2"),
    _r("prp-ifp", "?p a owl:InverseFunctionalProperty . ?x1 ?p ?y . ?x2 ?p ?y", "?x1 owl:sameAs ?x2"),
    _r("prp-irp", "?p a owl:IrreflexiveProperty . ?x ?p ?x", false=False_("?p", "?x")),
    _r("prp-symp", "?p a owl:SymmetricProperty . ?x ?p ?y", "?y ?p ?x"),
    _r("prp-asyp", "?p a owl:AsymmetricProperty . ?x ?p ?y . ?y ?p ?x", false=False_("?p", "?x", "?y")),
    _r("prp-trp", "?p a owl:TransitiveProperty . ?x ?p ?y . ?y ?p ?z", "?x ?p ?z"),
    _r("prp-spo1", "?p1 rdfs:subPropertyOf ?p2 . ?x ?p1 ?y", "?x ?p2 ?y"),
    _r("prp-spo2", "?p owl:propertyChainAxiom ?l . LIST ?l ?zs", dyn=_chain),
    _r("prp-eqp1", "?p1 owl:equivalentProperty ?p2 . ?x ?p1 ?y", "?x ?p2 ?y"),
    _r("prp-eqp2", "?p1 owl:equivalentProperty ?p2 . ?x ?p2 ?y", "?x ?p1 ?y"),
    _r("prp-pdw", "?p1 owl:propertyDisjointWith ?p2 . ?x ?p1 ?y . ?x ?p2 ?y", false=False_("?p1", "?p2", "?x", "?y")),
    _r("prp-adp", "?x a owl:AllDisjointProperties . ?x owl:members ?y . LIST ?y ?zs", dyn=_adp),
    _r("prp-inv1", "?p1 owl:inverseOf ?p2 . ?x ?p1 ?y", "?y ?p2 ?x"),
    _r("prp-inv2", "?p1 owl:inverseOf ?p2 . ?x ?p2 ?y", "?y ?p1 ?x"),
    _r("prp-key", "?c owl:hasKey ?l . LIST ?l ?zs", dyn=_key),
    _r("prp-npa1", "?n owl:sourceIndividual ?i1 . ?n owl:assertionProperty ?p . ?n owl:targetIndividual ?i2 . ?i1 ?p ?i2",
       false=False_("?i1", "?p", "?i2")),
    _r("prp-npa2", "?n owl:sourceIndividual ?i1 . ?n owl:assertionProperty ?p . ?n owl:targetValue ?i2 . ?i1 ?p ?i2",
       false=False_("?i1", "?p", "?i2")),
]


# ---------------------------------------------------------------- table 6: classes
def _int1(b):
    zs = b["?zs"]
    if zs:
        yield [("?y", RDF.type, z) for z in zs], [("?y", RDF.type, "?c")]


def _int2(b):
    for z in b["?zs"]:
        yield [("?y", RDF.type, "?c")], [("?y", RDF.type, z)]


def _uni(b):
    for z in b["?zs"]:
        yield [("?y", RDF.type, z)], [("?y", RDF.type, "?c")]


def _oo(b):
    for z in b["?zs"]:
        yield [], [(z, RDF.type, "?c")]


CLS = [
    _r("cls-nothing2", "?x a owl:Nothing", false=False_("?x")),
    _r("cls-int1", "?c owl:intersectionOf ?l . LIST ?l ?zs", dyn=_int1),
    _r("cls-int2", "?c owl:intersectionOf ?l . LIST ?l ?zs", dyn=_int2),
    _r("cls-uni", "?c owl:unionOf ?l . LIST ?l ?zs", dyn=_uni),
    _r("cls-com", "?c1 owl:complementOf ?c2 . ?x a ?c1 . ?x a ?c2", false=False_("?c1", "?c2", "?x")),
    _r("cls-svf1", "?x owl:someValuesFrom ?y . ?x owl:onProperty ?p . ?u ?p ?v . ?v a ?y", "?u a ?x"),
    _r("cls-svf2", "?x owl:someValuesFrom owl:Thing . ?x owl:onProperty ?p . ?u ?p ?v", "?u a ?x"),
    _r("cls-avf", "?x owl:allValuesFrom ?y . ?x owl:onProperty ?p . ?u a ?x . ?u ?p ?v", "?v a ?y"),
    _r("cls-hv1", "?x owl:hasValue ?y . ?x owl:onProperty ?p . ?u a ?x", "?u ?p ?y"),
    _r("cls-hv2", "?x owl:hasValue ?y . ?x owl:onProperty ?p . ?u ?p ?y", "?u a ?x"),
    _r("cls-maxc1", "?x owl:maxCardinality ?n . VAL ?n 0 . ?x owl:onProperty ?p . ?u a ?x . ?u ?p ?y",
       false=False_("?x", "?y")),
    _r("cls-maxc2", "?x owl:maxCardinality ?n . VAL ?n 1 . ?x owl:onProperty ?p . ?u a ?x . ?u ?p ?y1 . ?u ?p ?y2",
       "?y1 owl:sameAs ?y2"),
    _r("cls-maxqc1", "?x owl:maxQualifiedCardinality ?n . VAL ?n 0 . ?x owl:onProperty ?p . ?x owl:onClass ?c . "
       "?u a ?x . ?u ?p ?y . ?y a ?c", false=False_("?x", "?c", "?y")),
    _r("cls-maxqc2", "?x owl:maxQualifiedCardinality ?n . VAL ?n 0 . ?x owl:onProperty ?p . ?x owl:onClass owl:Thing . "
       "?u a ?x . ?u ?p ?y", false=False_("?x", "?y")),
    _r("cls-maxqc3", "?x owl:maxQualifiedCardinality ?n . VAL ?n 1 . ?x owl:onProperty ?p . ?x owl:onClass ?c . "
       "?u a ?x . ?u ?p ?y1 . ?y1 a ?c . ?u ?p ?y2 . ?y2 a ?c", "?y1 owl:sameAs ?y2"),
    _r("cls-maxqc4", "?x owl:maxQualifiedCardinality ?n . VAL ?n 1 . ?x owl:onProperty ?p . ?x owl:onClass owl:Thing . "
       "?u a ?x . ?u ?p ?y1 . ?u ?p ?y2", "?y1 owl:sameAs ?y2"),
    _r("cls-oo", "?c owl:oneOf ?l . LIST ?l ?zs", dyn=_oo),
]


# ---------------------------------------------------------------- table 7: class axioms
def _adc(b):
    zs = b["?zs"]
    for i, j in _pairs(zs):
        yield [("?z", RDF.type, zs[i]), ("?z", RDF.type, zs[j])], False_(zs[i], zs[j], "?z")


CAX = [
    _r("cax-sco", "?c1 rdfs:subClassOf ?c2 . ?x a ?c1", "?x a ?c2"),
    _r("cax-eqc1", "?c1 owl:equivalentClass ?c2 . ?x a ?c1", "?x a ?c2"),
    _r("cax-eqc2", "?c1 owl:equivalentClass ?c2 . ?x a ?c2", "?x a ?c1"),
    _r("cax-dw", "?c1 owl:disjointWith ?c2 . ?x a ?c1 . ?x a ?c2", false=False_("?c1", "?c2", "?x")),
    _r("cax-adc", "?x a owl:AllDisjointClasses . ?x owl:members ?y . LIST ?y ?zs", dyn=_adc),
]


# ---------------------------------------------------------------- table 9: schema vocabulary
def _scmint(b):
    for z in b["?zs"]:
        yield [], [("?c", RDFS.subClassOf, z)]


def _scmuni(b):
    for z in b["?zs"]:
        yield [], [(z, RDFS.subClassOf, "?c")]


SCM = [
    _r("scm-cls", "?c a owl:Class", "?c rdfs:subClassOf ?c . ?c owl:equivalentClass ?c . ?c rdfs:subClassOf owl:Thing . "
       "owl:Nothing rdfs:subClassOf ?c"),
    _r("scm-sco", "?c1 rdfs:subClassOf ?c2 . ?c2 rdfs:subClassOf ?c3", "?c1 rdfs:subClassOf ?c3"),
    _r("scm-eqc1", "?c1 owl:equivalentClass ?c2", "?c1 rdfs:subClassOf ?c2 . ?c2 rdfs:subClassOf ?c1"),
    _r("scm-eqc2", "?c1 rdfs:subClassOf ?c2 . ?c2 rdfs:subClassOf ?c1", "?c1 owl:equivalentClass ?c2"),
    _r("scm-op", "?p a owl:ObjectProperty", "?p rdfs:subPropertyOf ?p . ?p owl:equivalentProperty ?p"),
    _r("scm-dp", "?p a owl:DatatypeProperty", "?p rdfs:subPropertyOf ?p . ?p owl:equivalentProperty ?p"),
    _r("scm-spo", "?p1 rdfs:subPropertyOf ?p2 . ?p2 rdfs:subPropertyOf ?p3", "?p1 rdfs:subPropertyOf ?p3"),
    _r("scm-eqp1", "?p1 owl:equivalentProperty ?p2", "?p1 rdfs:subPropertyOf ?p2 . ?p2 rdfs:subPropertyOf ?p1"),
    _r("scm-eqp2", "?p1 rdfs:subPropertyOf ?p2 . ?p2 rdfs:subPropertyOf ?p1", "?p1 owl:equivalentProperty ?p2"),
    _r("scm-dom1", "?p rdfs:domain ?c1 . ?c1 rdfs:subClassOf ?c2", "?p rdfs:domain ?c2"),
    _r("scm-dom2", "?p2 rdfs:domain ?c . ?p1 rdfs:subPropertyOf ?p2", "?p1 rdfs:domain ?c"),
    _r("scm-rng1", "?p rdfs:range ?c1 . ?c1 rdfs:subClassOf ?c2", "?p rdfs:range ?c2"),
    _r("scm-rng2", "?p2 rdfs:range ?c . ?p1 rdfs:subPropertyOf ?p2", "?p1 rdfs:range ?c"),
    _r("scm-hv", "?c1 owl:hasValue ?i . ?c1 owl:onProperty ?p1 . ?c2 owl:hasValue ?i . ?c2 owl:onProperty ?p2 . "
       "?p1 rdfs:subPropertyOf ?p2", "?c1 rdfs:subClassOf ?c2"),
    _r("scm-svf1", "?c1 owl:someValuesFrom ?y1 . ?c1 owl:onProperty ?p . ?c2 owl:someValuesFrom ?y2 . ?c2 owl:onProperty ?p . "
       "?y1 rdfs:subClassOf ?y2", "?c1 rdfs:subClassOf ?c2"),
    _r("scm-svf2", "?c1 owl:someValuesFrom ?y . ?c1 owl:onProperty ?p1 . ?c2 owl:someValuesFrom ?y . ?c2 owl:onProperty ?p2 . "
       "?p1 rdfs:subPropertyOf ?p2", "?c1 rdfs:subClassOf ?c2"),
    _r("scm-avf1", "?c1 owl:allValuesFrom ?y1 . ?c1 owl:onProperty ?p . ?c2 owl:allValuesFrom ?y2 . ?c2 owl:onProperty ?p . "
       "?y1 rdfs:subClassOf ?y2", "?c1 rdfs:subClassOf ?c2"),
    _r("scm-avf2", "?c1 owl:allValuesFrom ?y . ?c1 owl:onProperty ?p1 . ?c2 owl:allValuesFrom ?y . ?c2 owl:onProperty ?p2 . "
       "?p1 rdfs:subPropertyOf ?p2", "?c2 rdfs:subClassOf ?c1"),
    _r("scm-int", "?c owl:intersectionOf ?l . LIST ?l ?zs", dyn=_scmint),
    _r("scm-uni", "?c owl:unionOf ?l . LIST ?l ?zs", dyn=_scmuni),
]
# eq-rep-o with the equation read from right to left (eq-sym + eq-rep-o); with eq-sym it is equivalent to eq-rep-o
REP_O_R = _r("eq-rep-o-r", "?t owl:sameAs ?o . ?s ?p ?o", "?s ?p ?t")
# Not in the recommendation, documented in the code as deliberate: rdf:Property treated like the OWL property classes
EXTRA_OK = [_r("scm-prop", "?p a rdf:Property", "?p rdfs:subPropertyOf ?p . ?p owl:equivalentProperty ?p")]

AXIOM_PROPS = ["rdfs:label", "rdfs:comment", "rdfs:seeAlso", "rdfs:isDefinedBy", "owl:deprecated", "owl:versionInfo",
               "owl:priorVersion", "owl:backwardCompatibleWith", "owl:incompatibleWith"]
AP = [_r("prp-ap", "", " . ".join("%s a owl:AnnotationProperty" % p for p in AXIOM_PROPS))]

# ---------------------------------------------------------------- RDFS
RDFS_RULES = [
    _r("rdf1", "?s ?p ?o", "?p a rdf:Property"),
    _r("rdfs2", "?p rdfs:domain ?c . ?x ?p ?y", "?x a ?c"),
    _r("rdfs3", "?p rdfs:range ?c . ?x ?p ?y", "?y a ?c"),
    _r("rdfs4a", "?s ?p ?o", "?s a rdfs:Resource"),
    _r("rdfs4b", "?s ?p ?o", "?o a rdfs:Resource"),
    _r("rdfs5", "?p rdfs:subPropertyOf ?q . ?q rdfs:subPropertyOf ?r", "?p rdfs:subPropertyOf ?r"),
    _r("rdfs6", "?p a rdf:Property", "?p rdfs:subPropertyOf ?p"),
    _r("rdfs7", "?p rdfs:subPropertyOf ?q . ?x ?p ?y", "?x ?q ?y"),
    _r("rdfs8", "?c a rdfs:Class", "?c rdfs:subClassOf rdfs:Resource"),
    _r("rdfs9", "?c rdfs:subClassOf ?d . ?x a ?c", "?x a ?d"),
    _r("rdfs10", "?c a rdfs:Class", "?c rdfs:subClassOf ?c"),
    _r("rdfs11", "?c rdfs:subClassOf ?d . ?d rdfs:subClassOf ?e", "?c rdfs:subClassOf ?e"),
    _r("rdfs12", "?p a rdfs:ContainerMembershipProperty", "?p rdfs:subPropertyOf rdfs:member"),
    _r("rdfs13", "?d a rdfs:Datatype", "?d rdfs:subClassOf rdfs:Literal"),
]

# owl:hasSelf (extensions; OWL 2 has no RL rule for it)
SELF = [
    _r("self1", "?z owl:hasSelf ?v . ?z owl:onProperty ?p . ?x a ?z", "?x ?p ?x"),
    _r("self2", "?z owl:hasSelf ?v . ?z owl:onProperty ?p . ?x ?p ?x", "?x a ?z"),
]

OWLRL = EQ + PRP + CLS + CAX + SCM
ALLOWED = OWLRL + [REP_O_R] + EXTRA_OK + AP

REFLEXIVE = (OWL.sameAs, RDFS.subClassOf, RDFS.subPropertyOf, OWL.equivalentClass, OWL.equivalentProperty)


# ---------------------------------------------------------------- evaluation
class Inst:
    """One rule instance: the equalities it needs beyond the path condition (open atoms), its conclusions or culprits."""
    __slots__ = ("rule", "atoms", "vals", "open", "concl", "culprits", "b")

    def __init__(self, rule, atoms, vals, concl, culprits, b):
        self.rule, self.atoms, self.vals, self.concl, self.culprits, self.b = rule, atoms, vals, concl, culprits, b
        self.open = bool(atoms or vals)


def _vars(pat, out):
    for q in pat:
        if type(q) is str and q.startswith("?"):
            out.add(q)


def _needed(res):
    out = set()
    if isinstance(res, False_):
        _vars(res.culprits, out)
    else:
        for c in res:
            _vars(c, out)
    return out


class Eval:
    """Join of rule premises over `triples`.  decide(x, y) -> True/False/None; val(x, n) -> True/False/None;
    lists: [(head term, members)]; canon(term): representative of the terms known to be equal to it.
    The join is breadth first; partial matches that agree on everything still needed are merged."""

    def __init__(self, triples, lists, decide, val=None, canon=None, limit=400000):
        self.triples = triples
        self.lists = lists
        self.decide = decide
        self.val = val or (lambda x, n: False)
        self.canon = canon or (lambda t: t.tid)
        self.limit = limit
        self.count = 0
        self.bypred = {}
        self.phase1 = {}

    def cands(self, pat, b):
        p = pat[1]
        p = b.get(p) if type(p) is str else p
        if p is None:
            return self.triples
        r = self.bypred.get(p.tid)
        if r is None:
            r = self.bypred[p.tid] = [t for t in self.triples if self.decide(t[1], p) is not False]
        return r

    def step(self, pat, state, closed):
        b, atoms, vals = state
        if pat[0] == "LIST":
            h = b[pat[1]]
            for head, members in self.lists:
                d = self.decide(h, head)
                if d is False or (closed and d is None):
                    continue
                nb = dict(b)
                nb[pat[2]] = members
                yield nb, (atoms if d else atoms + ((h, head),)), vals
            return
        if pat[0] == "VAL":
            x = b[pat[1]]
            d = self.val(x, pat[2])
            if d is False or (closed and d is None):
                return
            yield b, atoms, (vals if d else vals + ((x, pat[2]),))
            return
        for t in self.cands(pat, b):
            r = self.unify(pat, t, state, closed)
            if r is not None:
                yield r

    def unify(self, pat, t, state, closed=False):
        b, atoms, vals = state
        nb = b
        for q, x in zip(pat, t):
            if type(q) is str:
                y = nb.get(q)
                if y is None:
                    if nb is b:
                        nb = dict(b)
                    nb[q] = x
                    continue
            else:
                y = q
            if x is y:
                continue
            d = self.decide(x, y)
            if d is False or (closed and d is None):
                return None
            if d is None:
                atoms = atoms + ((x, y),)
        return nb, atoms, vals

    def join(self, prem, state, need, closed=False):
        """All ways to match the premises from the partial match `state`, projected on the variables `need`."""
        prem = list(prem)
        states = [state]
        while prem:
            bound = states[0][0]
            best = None
            for k, pat in enumerate(prem):
                if pat[0] in ("LIST", "VAL"):
                    if pat[1] not in bound:
                        continue
                    sc = 9
                else:
                    sc = sum(type(q) is not str or q in bound for q in pat) * 2 + (type(pat[1]) is not str)
                if best is None or sc > best[0]:
                    best = (sc, k)
            pat = prem.pop(best[1])
            keep = set(need)
            for q in prem:
                _vars(q, keep)
            seen = {}
            for st in states:
                for nb, na, nv in self.step(pat, st, closed):
                    nb = {k: v for k, v in nb.items() if k in keep}
                    key = (tuple((k, self.canon(v) if type(v) is not list else tuple(self.canon(m) for m in v))
                                 for k, v in sorted(nb.items())),
                           tuple((x.tid, y.tid) for x, y in na), tuple((x.tid, n) for x, n in nv))
                    if key not in seen:
                        self.count += 1
                        if self.count > self.limit:
                            raise RuntimeError("spec evaluation limit")
                        seen[key] = (nb, na, nv)
            states = list(seen.values())
            if not states:
                return []
        return states

    @staticmethod
    def sub(pat, b):
        return tuple(b[q] if type(q) is str else q for q in pat)

    def alternatives(self, r, closed=False):
        """(state, remaining premises, result) of a rule with its list premises resolved."""
        if r.dyn is None:
            return [(({}, (), ()), r.prem, r.false if r.false is not None else r.concl)]
        k = (r.name, closed)
        if k not in self.phase1:
            out = []
            allv = set()
            for p in r.prem:
                _vars(p, allv)
            for st in self.join(r.prem, ({}, (), ()), allv, closed):
                for prem, res in r.dyn(st[0]):
                    out.append((st, prem, res))
            self.phase1[k] = out
        return self.phase1[k]

    def instances(self, rules, closed=False):
        for r in rules:
            yield from self.instances_of(r, closed)

    def instances_of(self, r, closed=False):
        for st, prem, res in self.alternatives(r, closed):
            for b, at, vals in self.join(prem, st, _needed(res), closed):
                yield self._mk(r, b, at, vals, res)

    def _mk(self, r, b, at, vals, res):
        if isinstance(res, False_):
            return Inst(r, at, vals, None, [b[c] if type(c) is str else c for c in res.culprits], b)
        return Inst(r, at, vals, [self.sub(c, b) for c in res], None, b)

    def justify(self, t, rules, closed=False):
        """Goal directed: the conditions (atoms, vals) under which one application of the rules derives triple t."""
        for r in rules:
            if r.false is not None:
                continue
            for st, prem, res in self.alternatives(r, closed):
                if isinstance(res, False_):
                    continue
                for c in res:
                    s2 = self.unify(c, t, st, closed)
                    if s2 is None:
                        continue
                    for b, at, vals in self.join(prem, s2, (), closed):
                        yield at, vals


def closure(triples, lists, rules, val=None, is_literal=lambda t: False, limit=6000):
    """Concrete least fixpoint (terms compared by tid); lists are re-read from `lists` only (well-formed, fixed)."""
    known = {tuple(x.tid for x in t): t for t in triples}
    dec = lambda x, y: x.tid == y.tid
    while True:
        ev = Eval(list(known.values()), lists, dec, val, limit=10**7)
        new = {}
        for inst in ev.instances(rules):
            for t in inst.concl or ():
                k = tuple(x.tid for x in t)
                if k not in known and not is_literal(t[1]):
                    new[k] = t
        if not new:
            return known
        known.update(new)
        if len(known) > limit:
            raise RuntimeError("reference closure too large")
