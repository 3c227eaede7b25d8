"""The engine driven by a rule set made of symbolic terms: a subclass of Core, as a user would write one, whose rules are
   "if <a> is in the graph (and <b> too), then <c>" resp. "... then report <m>" with a, b, c arbitrary terms that may
coincide with each other and with the initial triples in any way."""
import z3

from . import engine as E
from . import expand as X, stub

P, O = "http://ex.org/p", "http://ex.org/o"
MSGS = ("report on x", "report on x1")  # one begins like the other


def tr(s):
    return (s, stub.mk_uri(P), stub.mk_uri(O))


class Rules:
    """kinds: for each rule one of 'round', 'once', 'axiom', 'daxiom', 'pre', 'post', with suffix '2' for a second premise and
    'e' for a report instead of a triple"""

    def __init__(self, ctx, kinds, mask=E.URI_USER, chain=None):
        self.rules = []
        if chain:
            # a chain of so many distinct steps from the initial triple on, then the arbitrary rules
            first, n = chain
            cs = [first] + [stub.mk_uri("http://ex.org/c%d" % i) for i in range(n)]
            for x in cs[1:]:
                ctx.set_ne(first, x)
            self.rules = [("round", x, None, y, None) for x, y in zip(cs, cs[1:])]
        for k, kind in enumerate(kinds):
            base = next(b for b in ("round", "once", "axiom", "daxiom", "pre", "post") if kind.startswith(b))
            two, err = "2" in kind[len(base):], "e" in kind[len(base):]
            a = ctx.var("a%d" % k, mask) if base not in ("axiom", "daxiom", "pre") else None
            b = ctx.var("b%d" % k, mask) if two else None
            c = ctx.var("c%d" % k, mask) if not err else None
            self.rules.append((base, a, b, c, MSGS[k % 2] if err else None))

    def fire(self, core, base, t=None):
        for bs, a, b, c, m in self.rules:
            if bs != base:
                continue
            if base in ("axiom", "daxiom", "pre"):
                core.destination.add(tr(c))
                continue
            if t is not None:
                if not (t[1] == stub.mk_uri(P) and t[0] == a):
                    continue
            elif tr(a) not in core.graph:
                continue
            if b is not None and tr(b) not in core.graph:
                continue
            if m is not None:
                core.add_error(m)
            else:
                core.store_triple(tr(c))


LIMIT = 20000


def subclass(rules, base="Core", calls=None):
    B = X.cls(base)
    n = [0]

    def rule(self, t, cyc):
        n[0] += 1
        if n[0] > LIMIT:
            raise E.Candidate({"endless": True})
        rules.fire(self, "round", t)
    d = {"rules": rule,
         "one_time_rules": lambda self: rules.fire(self, "once"),
         "add_axioms": lambda self: rules.fire(self, "axiom"),
         "add_d_axioms": lambda self: rules.fire(self, "daxiom"),
         "pre_process": lambda self: rules.fire(self, "pre"),
         "post_process": lambda self: rules.fire(self, "post")}
    return type.__new__(type, "Plugged", (B,), d)


# ------------------------------------------------------------------------ oracle, as formulas over the terms
def same(ctx, a, b):
    d = ctx.decide(a, b)
    return a.z == b.z if d is None else z3.BoolVal(d)


def oracle(ctx, init, rules, axioms, daxioms):
    """(fired condition per rule, list of (term, condition that it is in the closure))"""
    n = len(rules.rules)
    fired = [z3.BoolVal(False)] * n
    pres = [(t, z3.BoolVal(True)) for t in init]

    memo = {}

    def inn(x, fs):
        if id(x) not in memo:
            memo[id(x)] = ([same(ctx, x, t) for t in init], [(k, d) for k, r in enumerate(rules.rules) if r[3] is not None
                                                         for d in (same(ctx, x, r[3]),) if not z3.is_false(d)])
        a, b = memo[id(x)]
        return z3.Or(a + [z3.And(fs[k], d) for k, d in b if not z3.is_false(fs[k])])
    for k, (bs, a, b, c, m) in enumerate(rules.rules):
        if bs == "pre" or bs == "axiom" and axioms or bs == "daxiom" and daxioms:
            fired[k] = z3.BoolVal(True)
    # one-time rules see axioms, not each other
    start = list(fired)
    for k, (bs, a, b, c, m) in enumerate(rules.rules):
        if bs == "once":
            fired[k] = z3.simplify(z3.And([inn(a, start)] + ([inn(b, start)] if b is not None else [])))
    for _ in range(n + 1):
        old = fired
        new = list(fired)
        for k, (bs, a, b, c, m) in enumerate(rules.rules):
            if bs == "round":
                new[k] = z3.simplify(z3.And([inn(a, fired)] + ([inn(b, fired)] if b is not None else [])))
        fired = new
        if all(x is y or x.eq(y) for x, y in zip(old, fired)):
            break
    end = list(fired)
    for k, (bs, a, b, c, m) in enumerate(rules.rules):
        if bs == "post":
            fired[k] = z3.simplify(z3.And([inn(a, end)] + ([inn(b, end)] if b is not None else [])))
    for k, (bs, a, b, c, m) in enumerate(rules.rules):
        if c is not None:
            pres.append((c, fired[k]))
    return fired, pres


def check(ctx, init, places, rules, store, dest, axioms, daxioms, scen):
    """Obligations on the final quads.  places: gid per initial triple; dest: gid; scen(model) -> scenario fields."""
    fired, pres = oracle(ctx, init, rules, axioms, daxioms)
    err = "http://www.daml.org/2002/03/agents/agent-ont#"
    obl = []
    final, errs, nodes = [], [], []
    for t, gs in store.quads:
        pc = t[1].const
        if pc == P and t[2].const == O:
            for g in gs:
                final.append((t[0], g))
        elif pc == err + "error" and t[2].const is not None:
            errs.append((t[0], str(t[2].lit[0]), gs))
        elif t[2].const == err + "ErrorMessage":
            nodes.append((t[0], gs))
        else:
            raise E.Candidate(dict(scen(None), why="a triple no rule derives is in the result: %s" % (t,)))
    T, F = z3.BoolVal(True), z3.BoolVal(False)
    # nothing lost
    for t, g in zip(init, places):
        obl.append(("an initial triple is gone", z3.Or([same(ctx, t, x) for x, h in final if h is g] or [F])))
    derived = [(c, f) for c, f in pres[len(init):]]
    for c, f in derived:
        obl.append(("a derivable triple is missing", z3.Implies(f, z3.Or([same(ctx, c, x) for x, h in final] or [F]))))
    noax = [(rules.rules[k][3], fired[k]) for k in range(len(fired)) if rules.rules[k][3] is not None]
    direct = [(r[3], f) for r, f in zip(rules.rules, fired) if r[3] is not None and r[0] in ("pre", "axiom", "daxiom")]
    for x, h in final:
        alts = [same(ctx, x, t) for t, g in zip(init, places) if g is h]
        if h is dest:
            inferred = [z3.And(f, same(ctx, x, c)) for c, f in noax]
            nowhere = z3.Not(z3.Or([same(ctx, x, t) for t in init] or [F]))
            wholesale = [z3.And(f, same(ctx, x, c)) for c, f in direct]
            alts += [z3.And(z3.Or(inferred or [F]), nowhere)] + wholesale
        obl.append(("a triple is where it should not be", z3.Or(alts or [F])))
    for m in MSGS:
        n = [e for e in errs if e[1] == m]
        due = z3.Or([f for r, f in zip(rules.rules, fired) if r[4] == m] or [F])
        ok = len(n) == 1 and n[0][2] == [dest] and any(a is n[0][0] and g == [dest] for a, g in nodes)
        obl.append(("report %s, wanted once iff a rule made it" % (len(n) if len(n) != 1 else "once"), due if ok else z3.Not(due) if not n else F))
    if len(nodes) != len(errs) or any(e[1] not in MSGS for e in errs):
        obl.append(("error nodes do not fit the reports", F))
    E.STATS.obligations += len(obl)
    E.STATS.witness += 1
    live = [(w, z3.simplify(f)) for w, f in obl]
    live = [(w, f) for w, f in live if not z3.is_true(f)]
    if not live:
        return
    m = ctx.model(*ctx.const_kind_facts(set(ctx.touched)), z3.Not(z3.And([f for _, f in live])))
    if m is None:
        return
    why = next(w for w, f in live if not z3.is_true(m.eval(f, model_completion=True)))
    raise E.Candidate(dict(scen(m), why=why))


def concretise(ctx, m, init, rules):
    """Names for the terms under a model (fresh where undetermined)."""
    terms = list(init) + [x for r in rules.rules for x in r[1:4] if x is not None]
    if m is None:
        m = ctx.model(*ctx.const_kind_facts(set(ctx.touched)))
        if m is None:
            raise E.Infeasible()
    names = {t.tid: t.const for t in terms if t.const is not None}
    # keyed by identity: comparing terms would add decisions to the path
    out = {t.tid: t.const for t in terms if t.const is not None}
    for t in terms:
        if t.const is None:
            v = m.eval(t.z, model_completion=True).as_long()
            out[t.tid] = names.setdefault(v, "http://ex.org/t%d" % len(names))
    return out


def ser(nm, init, rules):
    g = lambda x: None if x is None else nm[x.tid]
    return {"init": [nm[t.tid] for t in init], "rules": [[r[0], g(r[1]), g(r[2]), g(r[3]), r[4]] for r in rules.rules]}
