from vt import rulejobs as J, spec, engine as E

ASSUMPTIONS = J.ASSUME
BOUNDS = {
    "quick": "premises of each RDFS rule with all positions symbolic plus 1 arbitrary triple of any vocabulary; premises cut loose one at a time; "
             "2 arbitrary triples; any round number; each premise in turn arriving only after a first round; 5 instances of the premises over pairwise different terms",
    "thorough": "premises plus 2 arbitrary triples of any vocabulary; 3 arbitrary triples",
}
OUTSIDE = "more further triples at once; malformed lists"


def jobs(tier):
    cls, ctor, k = "RDFS_Semantics", dict(axioms=False, daxioms=False), dict(errors=False, trivial=())
    rules = spec.RDFS_RULES
    q = tier == "quick"
    cfg = [("premises, vocabulary allowed", E.ANY, 0, E.ANY, None, ()), ("premises+1 any", E.ANY, 1, E.ANY, None, ()),
           ("premises+1 any, reversed", E.ANY, 1, E.ANY, None, (), dict(rev=True))]
    if not q:
        cfg.append(("premises+2 any", E.ANY, 2, E.ANY, None, ()))
    out = J.large(rules, rules, rules, cls, ctor, lens=(), **k)
    out += J.jobs_for(rules, rules, rules, cls, ctor, cfg, **k)
    out += J.weakened(rules, rules, rules, cls, ctor, "", E.ANY, None, (), **k)
    out += J.late(rules, rules, rules, cls, ctor, lens=(), **k)
    out += J.arbitrary((1, 2) if q else (1, 2, 3), rules, rules, cls, ctor, cyc=None, **k)
    return out
