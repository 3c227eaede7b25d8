from vt import rulejobs as J, spec, engine as E

ASSUMPTIONS = J.ASSUME
BOUNDS = {
    "quick": "2 triples with every position any term (any vocabulary IRI, user IRI, blank node or literal); 1 such triple plus a list of 1-2 arbitrary "
             "members; literals with any integer value or none; any round >= 2",
    "thorough": "3 such triples; 2 plus a list of 1-3 members",
}
OUTSIDE = "interactions of more triples than stated (premises + 1 of every rule: R02-R06); malformed lists"


def jobs(tier):
    cls, ctor, k = "OWLRL_Semantics", dict(axioms=False, daxioms=False), dict(check=("sound",), errors=False)
    if tier == "quick":
        out = J.arbitrary((1, 2), [], spec.ALLOWED, cls, ctor, lists=((1, 1), (1, 2)), **k)
        out += J.arbitrary((3,), [], spec.ALLOWED, cls, ctor, mask=J.USER, tag=", no vocabulary", **k)
    else:
        out = J.arbitrary((1, 2, 3), [], spec.ALLOWED, cls, ctor, lists=((1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (2, 3)), **k)
    out += J.arbitrary((1,), [], spec.ALLOWED, cls, ctor, mask=E.ANY & ~E.BNODE, cyc=1, tag=", first round", **k)
    return out
