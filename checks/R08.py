from vt import rulejobs as J, spec, engine as E

ASSUMPTIONS = J.ASSUME
BOUNDS = {
    "quick": "premises of each RDFS and OWL 2 RL rule (lists of 2) with all positions symbolic, combined class and extension class with the rdfs flag "
             "symbolic; axioms: see E04, all flags",
    "thorough": "plus 1 arbitrary user-term triple, lists of 1..3",
}
OUTSIDE = "more further triples at once; malformed lists"


def jobs(tier):
    from vt.rulecheck import SymFlag
    k = dict(errors=False)
    q = tier == "quick"
    cfg = [("premises", J.USER, 0, J.USER, "late", (2,) if q else (1, 2, 3))]
    if not q:
        cfg.append(("premises+1", J.USER, 1, J.USER, "late", (1, 2)))
    both = spec.RDFS_RULES + [r for r in spec.OWLRL if r.false is None]
    al = spec.ALLOWED + spec.RDFS_RULES
    out = J.jobs_for(both, both, al, "RDFS_OWLRL_Semantics", dict(axioms=False, daxioms=False), cfg, **k)
    own = lambda f: both if f else [r for r in spec.OWLRL if r.false is None]
    alf = lambda f: al + spec.SELF if f else spec.ALLOWED + spec.SELF
    out += J.jobs_for(both, own, alf, "OWLRL_Extension", dict(axioms=False, daxioms=False, rdfs=SymFlag("rdfs")), cfg, **k)
    from checks import E04
    # the axioms, the binding statements and the datatype axioms of the two semantics, for all flags
    out += [j for j in E04.jobs(tier) if "OWLRL_Extension" in j.name or "RDFS_OWLRL" in j.name]
    for j in out:
        if "prp-adp" in j.name or "eq-diff" in j.name or "cax-adc" in j.name:
            j.witness = False
    return out
