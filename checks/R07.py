from vt import rulejobs as J, spec, engine as E

ASSUMPTIONS = J.ASSUME
ALLOWED = spec.ALLOWED + spec.SELF
BOUNDS = {
    "quick": "the premises of both directions of owl:hasSelf with all positions symbolic plus 1 arbitrary triple; premises cut loose one at a time; "
             "rdfs flag symbolic; each premise in turn arriving only after a first round; 5 instances of the premises over pairwise different terms",
    "thorough": "plus 2 arbitrary triples, plus 1 triple of any vocabulary",
}
OUTSIDE = "more further triples at once; malformed lists"


def jobs(tier):
    from vt.rulecheck import SymFlag
    cls, ctor, k = "OWLRL_Extension", dict(axioms=False, daxioms=False, rdfs=SymFlag("rdfs")), dict(errors=False)
    own = lambda f: spec.SELF
    al = lambda f: ALLOWED + (spec.RDFS_RULES if f else [])
    out = J.large(spec.SELF, own, al, cls, ctor, lens=(), **k)
    out += J.jobs_for(spec.SELF, own, al, cls, ctor, J.quick() if tier == "quick" else J.thorough(), **k)
    out += J.weakened(spec.SELF, own, al, cls, ctor, "", J.USER, "late", (), **k)
    out += J.late(spec.SELF, own, al, cls, ctor, lens=(), **k)
    if tier == "thorough":
        out += J.weakened(spec.SELF, own, al, cls, ctor, "", J.USER, "late", (), two=True, **k)
    return out
