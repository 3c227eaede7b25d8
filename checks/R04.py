from vt import rulejobs as J, spec

RULES = [r for r in spec.CLS if r.false is None]
ASSUMPTIONS = J.ASSUME
BOUNDS = {
    "quick": "premises of each rule with all positions symbolic (any IRI incl. vocabulary, blank node or literal), lists of 0..3 "
             "members, plus 1 arbitrary user-term triple (lists <= 2); each premise in turn cut loose from the others (lists <= 3); symbolic round number >= 2, and round 1 without blank nodes; each premise in turn arriving only after a first round; lists of 7 and 5 instances of the premises over pairwise different terms, also with each premise cut loose",
    "thorough": "as quick with lists of 0..4, plus 1 arbitrary triple of any vocabulary, plus 2 arbitrary user-term triples, pairs of premises cut loose",
}
OUTSIDE = "graphs needing more further triples than stated at once; malformed or cyclic lists"


def jobs(tier):
    cls, ctor, k = "OWLRL_Semantics", dict(axioms=False, daxioms=False), dict(errors=False, trivial=(spec.OWL.sameAs,))
    out = J.large(RULES, RULES, spec.ALLOWED, cls, ctor, lens=(7,) if tier == "quick" else (7, 12), **k)
    out += J.jobs_for(RULES, RULES, spec.ALLOWED, cls, ctor, J.quick() if tier == "quick" else J.thorough(), **k)
    out += J.weakened(RULES, RULES, spec.ALLOWED, cls, ctor, "", J.USER, "late", (1, 2, 3) if tier == "quick" else (1, 2, 3, 4), **k)
    out += J.late(RULES, RULES, spec.ALLOWED, cls, ctor, lens=(1, 2) if tier == "quick" else (1, 2, 3), **k)
    if tier == "thorough":
        out += J.weakened(RULES, RULES, spec.ALLOWED, cls, ctor, "", J.USER, "late", (1, 2, 3), two=True, **k)
    return out
