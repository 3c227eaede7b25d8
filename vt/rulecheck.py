"""Harness for the rule properties: one round of the real rules over a graph of symbolic triples."""
import re
import z3

from . import engine as E
from . import stub, spec, load
from .engine import Term, SymInt, mkconst

from .engine import Candidate

OWLRL = None  # the loaded package
TOK = re.compile("\u27e6(\\d+)\u27e7")


def setup():
    global OWLRL
    if OWLRL is None:
        OWLRL = load.load()
    return OWLRL


def find_class(name):
    setup()
    import sys
    for m in ("owlrl", "owlrl.RDFSClosure", "owlrl.OWLRL", "owlrl.CombinedClosure", "owlrl.OWLRLExtras", "owlrl.Closure"):
        c = getattr(sys.modules.get(m), name, None)
        if c is not None:
            return c
    raise E.Inconclusive("class %s not found" % name)


class Recorder:
    """Stands for Core.added_triples / Core.store_triple: keeps everything, asks nothing."""

    def __init__(self):
        self.items = []

    def add(self, t):
        self.items.append(tuple(t))

    append = add

    def update(self, *its):
        for it in its:
            for t in it:
                self.add(t)

    extend = update

    def __ior__(self, o):
        self.update(o)
        return self

    def __iter__(self):
        return iter(list(self.items))

    def __len__(self):
        return len(self.items)

    def __contains__(self, t):
        return any(all(a == b for a, b in zip(t, u)) for u in self.items)


class SymFlag:
    """A constructor flag explored symbolically; own/allowed are then functions of its value."""

    def __init__(self, name):
        self.z = z3.Bool("sw!" + name)


_ORIENT = {}


def oriented(cls, ctor, own):
    """eq-rep-o may be implemented with the equation read in either direction: with eq-sym (always required next to it)
    both give the same closure.  One concrete round tells which one the code applies directly; that one is required."""
    if not any(r.name == "eq-rep-o" for r in own):
        return own
    key = (cls, repr(sorted(ctor.items())))
    if key not in _ORIENT:
        saved, E.CUR = E.CUR, E.Ctx()
        try:
            u = [stub.mk_uri("http://ex.org/or%d" % i) for i in range(4)]
            g = stub.Graph(identifier="urn:o")
            core = find_class(cls)(g, **ctor)
            rec = Recorder()
            core.store_triple = rec.add
            core.added_triples = rec
            tr = [(u[0], stub.OWL.sameAs, u[1]), (u[2], u[3], u[0]), (u[3], u[2], u[1])]
            for t in tr:
                g.add(t)
            for t in tr:
                core.rules(t, 5)
            _ORIENT[key] = (u[2], u[3], u[1]) not in rec and (u[3], u[2], u[0]) in rec
        except (E.Steer, Exception):
            _ORIENT[key] = False
        finally:
            E.CUR = saved
    if not _ORIENT[key]:
        return own
    return [spec.REP_O_R if r.name == "eq-rep-o" else r for r in own]


class Harness:
    """name; cls: class name (+ctor kwargs); build(ctx) -> dict(triples, lists, cycle(SymInt), vars);
    own: rules whose conclusions must be present; allowed: rules that justify triples."""

    def __init__(self, name, cls, ctor, build, own, allowed, axioms=(), check=("sound", "complete"), pre=None, errors=True,
                 required_axioms=(), trivial=None):
        self.name, self.cls, self.ctor, self.build = name, cls, ctor, build
        conc = {k: (v if not isinstance(v, SymFlag) else True) for k, v in ctor.items()}
        if callable(own):
            of, af = own, allowed
            self.table = {b: (oriented(cls, conc, of(b)), af(b)) for b in (True, False)}
            own, allowed = self.table[True]
        else:
            own = oriented(cls, conc, own)
            self.table = None
        self.cctor = conc
        self.own, self.allowed, self.axioms, self.check = own, allowed, list(axioms), check
        self.errors = errors
        self.pre = pre
        self.required_axioms = list(required_axioms)
        self.trivial = spec.REFLEXIVE if trivial is None else trivial

    @staticmethod
    def exempt(i):
        """Reflexive conclusions are trivial except where a rule states them for their own sake."""
        return not i.rule.name.startswith(("eq-", "rdf"))

    # ---- run the real rules once over the symbolic graph
    def run(self, ctx):
        E.TOKENS = True
        d = self.build(ctx)
        triples, lists = d["triples"], d["lists"]
        g = stub.Graph(identifier="urn:g")
        cls = find_class(self.cls)
        core = cls(g, **{k: (E.SymBool(v.z) if isinstance(v, SymFlag) else v) for k, v in self.ctor.items()})
        if self.pre:
            self.pre(core)
        late = d.get("late")
        early = [t for i, t in enumerate(triples) if i != late]
        for t in early:
            g.store.raw(t, g.identifier)
        rec = Recorder()
        core.store_triple = rec.add
        core.added_triples = rec
        n0 = len(triples)
        cycle = d["cycle"]
        if late is not None:
            # a first round without this triple, which then arrives as if inferred
            for t in early:
                core.rules(t, 1)
            g.store.raw(triples[late], g.identifier)
        for t in list(triples):
            core.rules(t, cycle)
        added = list(rec.items) + [q[0] for q in g.store.quads[n0:]]
        return d, added, list(core.error_messages)

    def path(self, ctx):
        try:
            d, added, errs = self.run(ctx)
        except (E.Steer, E.Inconclusive):
            raise
        except Exception as e:  # the rules failed on a legal graph
            self.settle(ctx)
            return self.candidate(ctx, ctx.notes.get("graph"), ("crash", "%s: %s" % (type(e).__name__, e)), None)
        self.settle(ctx)
        self.judge(ctx, d, added, errs)

    def settle(self, ctx):
        """Fix the flags the path left open: the assertion must hold for each value."""
        if self.table is None:
            return
        for k, v in self.ctor.items():
            if isinstance(v, SymFlag):
                b = bool(E.SymBool(v.z))
                self.cctor = dict(self.cctor, **{k: b})
                self.own, self.allowed = self.table[b]

    # ---- the assertion
    def judge(self, ctx, d, added, errs):
        triples, lists = d["triples"], d["lists"]
        dec = ctx.decide
        cache = {}

        def decide(x, y):
            if x is y:
                return True
            if x.const is not None and y.const is not None:
                return x.tid == y.tid
            k = (x.tid, y.tid) if x.tid < y.tid else (y.tid, x.tid)
            r = cache.get(k, 0)
            if r == 0:
                r = cache[k] = dec(x, y)
            return r

        def val(x, n):
            if x.const is not None:
                return x.mask == E.LITERAL and stub.const_value(x) == n and not isinstance(stub.const_value(x), str)
            if not (ctx.mask(x) & E.LITERAL):
                return False
            v = ctx.info[ctx.find(x)][3].get("value", 0)
            if v is None:
                return False
            return None

        ev = spec.Eval(triples, lists, decide, val, canon=ctx.find)
        obligations = []  # (kind, payload, z3)
        consts = set()

        def atom(x, y):
            if x is y:
                return True
            for t in (x, y):
                if t.const is not None:
                    consts.add(t)
            if x.const is not None and y.const is not None:
                return x.tid == y.tid
            return x.z == y.z

        def cond(atoms, vals):
            out = [atom(x, y) for x, y in atoms]
            for x, n in vals:
                out.append(self.valz(ctx, x, n))
            return out

        def conj(inst):
            return cond(inst.atoms, inst.vals)

        def matches(t, u):
            o = False
            for x, y in zip(t, u):
                r = decide(x, y)
                if r is False:
                    return False
                if r is None:
                    o = True
            return None if o else True

        def eqz(t, u):
            return [atom(x, y) for x, y in zip(t, u)]

        if "sound" in self.check:
            seen = set()
            for t in added:
                key = tuple(ctx.find(x) for x in t)
                if key in seen:
                    continue
                seen.add(key)
                if not (ctx.mask(t[1]) & ~E.LITERAL):
                    continue  # never stored
                alts = []
                done = False
                for u in triples + self.axioms:
                    r = matches(t, u)
                    if r is True:
                        done = True
                        break
                    if r is None:
                        alts.append(z3.And(eqz(t, u)))
                if not done:
                    for _ in ev.justify(t, self.allowed, closed=True):
                        done = True
                        break
                if done:
                    obligations.append(("unsound", t, z3.BoolVal(True)))
                    continue
                for at, vals in ev.justify(t, self.allowed):
                    alts.append(z3.And(cond(at, vals)))
                if ctx.mask(t[1]) & E.LITERAL:
                    alts.append(E.Kind(t[1].z) == E.LITERAL)
                obligations.append(("unsound", t, z3.Or(alts) if alts else z3.BoolVal(False)))
        if "sound" in self.check or "esound" in self.check:
            if self.errors and errs:
                falses = [i for r in self.allowed if r.false is not None or r.dyn is not None
                          for i in ev.instances_of(r) if i.culprits is not None]
                for m in set(errs):
                    toks = [E.byid(int(x)) for x in TOK.findall(m)]
                    alts = []
                    for i in falses:
                        z = conj(i)
                        ok = True
                        for c in i.culprits:
                            hits = [tk for tk in toks if decide(tk, c) is not False]
                            if not hits:
                                ok = False
                                break
                            z.append(z3.Or([atom(tk, c) if tk is not c else z3.BoolVal(True) for tk in hits]))
                        if ok:
                            alts.append(z3.And(z))
                    obligations.append(("spurious-error", (m, toks), z3.Or(alts) if alts else z3.BoolVal(False)))
        if "complete" in self.check:
            refl = {p.tid for p in self.trivial}
            pool = added + triples
            for t in self.required_axioms:
                alts = [z3.And(eqz(t, u)) for u in pool if matches(t, u) is not False]
                obligations.append(("missing", (t, None), z3.Or(alts) if alts else z3.BoolVal(False)))
            for i in ev.instances(self.own):
                if i.culprits is not None:
                    if not self.errors:
                        continue
                    if i.rule.name.startswith("eq-diff") and i.rule.name.endswith("r"):
                        continue
                    pre = conj(i)
                    # a list that repeats a member: exempt (see DESIGN)
                    if i.rule.name in ("eq-diff2", "eq-diff3"):
                        a, b = i.culprits
                        if decide(a, b) is True:
                            continue
                        pre.append(z3.Not(atom(a, b)) if a is not b else z3.BoolVal(False))
                    alts = []
                    for m in set(errs):
                        toks = [E.byid(int(x)) for x in TOK.findall(m)]
                        z = []
                        for c in i.culprits:
                            hits = [tk for tk in toks if decide(tk, c) is not False]
                            if not hits:
                                z = None
                                break
                            z.append(z3.Or([atom(tk, c) if tk is not c else z3.BoolVal(True) for tk in hits]))
                        if z is not None:
                            alts.append(z3.And(z))
                    f = z3.Implies(z3.And(pre), z3.Or(alts) if alts else z3.BoolVal(False))
                    obligations.append(("missing-error", i, f))
                    continue
                for c in i.concl:
                    if c[1].tid in refl and self.exempt(i) and decide(c[0], c[2]) is True:
                        continue
                    if not (ctx.mask(c[1]) & ~E.LITERAL):
                        continue
                    pre = conj(i)
                    done = None
                    alts = []
                    for u in pool:
                        r = matches(c, u)
                        if r is True:
                            done = eqz(c, u)
                            break
                        if r is None:
                            alts.append(z3.And(eqz(c, u)))
                    if done is not None:
                        f = z3.And(done)
                        if i.open:
                            f = z3.Implies(z3.And(pre), f)
                    else:
                        if self.exempt(i):
                            for p in self.trivial:
                                if decide(c[1], p) is not False and decide(c[0], c[2]) is not False:
                                    alts.append(z3.And(atom(c[1], p), atom(c[0], c[2])))
                        if ctx.mask(c[1]) & E.LITERAL:
                            alts.append(E.Kind(c[1].z) == E.LITERAL)
                        f = z3.Implies(z3.And(pre), z3.Or(alts) if alts else z3.BoolVal(False))
                    obligations.append(("missing", (c, i), f))
        E.STATS.obligations += len(obligations)
        if any(k in ("missing", "missing-error", "unsound", "spurious-error") for k, _, _ in obligations):
            E.STATS.witness += 1
        if len(E.STATS.samples) < 3:
            E.STATS.samples.append("%s: triples %s -> %d added, %d obligations" % (
                self.name, [tuple(x.name for x in t) for t in triples][:6], len(added), len(obligations)))
        # one query for the whole path
        known = consts | {x for t in triples + added for x in t if x.const is not None} | ctx.touched
        d["known"] = {t.tid for t in known}
        facts = ctx.const_kind_facts(known)
        extra = list(facts)
        conds = [f for _, _, f in obligations if not z3.is_true(f)]
        nref = 0
        while conds:
            m = ctx.model(*extra, z3.Not(z3.And(conds)))
            if m is None:
                break
            # which obligation failed
            bad = None
            for k, p, f in obligations:
                if not z3.is_true(m.eval(f, model_completion=True)):
                    bad = (k, p)
                    break
            r = self.candidate(ctx, d, bad, m)
            extra.append(self.block(d, m))
            nref += 1
            if nref > 400:
                raise E.Inconclusive("too many refinements")

    nblocks = 0

    def valz(self, ctx, x, n):
        if x.const is not None:
            return z3.BoolVal(stub.const_value(x) == n)
        v = ctx.info[ctx.find(x)][3].get("value", 0)
        if v == 0 and not isinstance(v, SymInt):
            # value never looked at: unconstrained; the code did not need it
            vz = z3.Int("val!" + x.name)
        elif v is None:
            return z3.BoolVal(False)
        else:
            vz = v.z
        return z3.And(E.Kind(x.z) == E.LITERAL, vz == n)

    def block(self, d, m):
        """Exclude exactly this partition of the variables."""
        self.nblocks += 1
        vs = [v for v in d["vars"]]
        cs = []
        vals = {}
        for v in vs:
            x = m.eval(v.z, model_completion=True).as_long()
            vals.setdefault(x, []).append(v)
        reps = []
        for x, group in vals.items():
            for w in group[1:]:
                cs.append(group[0].z == w.z)
            isconst = x in d["known"]
            if isconst:
                cs.append(group[0].z == x)
            reps.append(group[0])
        for i in range(len(reps)):
            for j in range(i + 1, len(reps)):
                cs.append(reps[i].z != reps[j].z)
        for r in reps:
            # of the kinds only "literal or not" matters to entailment
            if z3.is_true(m.eval(E.Kind(r.z) == E.LITERAL, model_completion=True)):
                cs.append(E.Kind(r.z) == E.LITERAL)
            else:
                cs.append(E.Kind(r.z) != E.LITERAL)
        for v, zv in d.get("values", {}).items():
            cs.append(zv == m.eval(zv, model_completion=True))
        return z3.Not(z3.And(cs))

    # ---- counterexample handling
    def concretise(self, ctx, d, m):
        if m is None:
            m = ctx.model(*ctx.const_kind_facts([x for t in d["triples"] for x in t] + list(ctx.touched)))
            if m is None:
                raise E.Infeasible()
        if "known" not in d:
            d["known"] = {x.tid for t in d["triples"] for x in t if x.const is not None} | {t.tid for t in ctx.touched}
        names = {}

        def conc(t):
            if t.const is not None:
                return t
            x = m.eval(t.z, model_completion=True).as_long()
            if x in d["known"]:
                return E.byid(x)
            if x in names:
                return names[x]
            k = m.eval(E.Kind(t.z), model_completion=True).as_long()
            i = len(names) + 1
            if k == E.LITERAL:
                v = d.get("values", {}).get(t.tid)
                if v is None:
                    a = ctx.info[ctx.find(t)][3].get("value", 0)
                    v = a.z if isinstance(a, SymInt) else None
                if v is not None:
                    n = m.eval(v, model_completion=True).as_long()
                    r = stub.mk_literal(str(n), None, stub.XSD.integer)
                    # several literals with equal values stay distinct terms
                    if r in names.values():
                        r = stub.mk_literal("0" * i + str(n), None, stub.XSD.integer)
                else:
                    r = stub.mk_literal("lit%d" % i)
            elif k == E.BNODE:
                r = mkconst("v%d" % i, E.BNODE)
            else:
                r = stub.mk_uri("http://ex.org/%s" % re.sub(r"\W", "_", t.name))
            names[x] = r
            return r

        tr = [tuple(conc(x) for x in t) for t in d["triples"]]
        ls = [(conc(h), [conc(x) for x in mm]) for h, mm in d["lists"]]
        cyc = d["cycle"]
        k = m.eval(cyc.z, model_completion=True).as_long() if isinstance(cyc, SymInt) else cyc
        if d.get("late") is not None:
            k = 1
        return tr, ls, k, conc

    def encoded(self, d, tr):
        """[(the graph to expand, what else the reference sees)]: a late triple (s p o) is stated as (s q o) with q below p,
        (o q s) with q the inverse of p, or by a chain of two properties."""
        i = d.get("late")
        if i is None:
            return [(tr, [])]
        s, p, o = tr[i]
        q, r, n = (stub.mk_uri("http://ex.org/late%d" % k) for k in range(3))
        l1, l2 = mkconst("late1", E.BNODE), mkconst("late2", E.BNODE)
        ways = [[(s, q, o), (q, stub.RDFS.subPropertyOf, p)]]
        if self.cls != "RDFS_Semantics":
            if o.mask != E.LITERAL:
                ways.append([(o, q, s), (q, stub.OWL.inverseOf, p)])
            ways.append([(s, q, n), (n, r, o), (p, stub.OWL.propertyChainAxiom, l1), (l1, stub.RDF.first, q), (l1, stub.RDF.rest, l2),
                         (l2, stub.RDF.first, r), (l2, stub.RDF.rest, stub.RDF.nil)])
        return [(tr[:i] + w + tr[i + 1:], w) for w in ways]

    def candidate(self, ctx, d, bad, m):
        kind, payload = bad
        if d is None:
            raise E.Inconclusive("the harness failed to build its graph: %r" % (payload,))
        tr, ls, k, conc = self.concretise(ctx, d, m)
        saved = E.CUR
        E.CUR = E.Ctx()
        try:
            ways = self.encoded(d, tr)
            start = ways[0][0]
            tr = tr + [t for _, w in ways for t in w]
            info = {"scenario": "rules", "harness": self.name, "class": self.cls, "ctor": self.cctor, "cycle": k,
                    "graph": [[ser(x) for x in t] for t in start], "kind": kind, "why": None}
            if kind == "crash":
                info["why"] = payload
                raise Candidate(info)
            if kind == "unsound":
                t = tuple(conc(x) for x in payload)
                ref = spec.closure(tr + self.axioms, ls, self.allowed, cval, lambda x: x.mask == E.LITERAL)
                if tuple(x.tid for x in t) in ref:
                    return None  # derivable in more than one step: sound
                info.update(unexpected=[ser(x) for x in t], why="derived triple is not entailed by the rules")
                raise Candidate(info)
            if kind == "missing":
                t, inst = payload
                t = tuple(conc(x) for x in t)
                for start, _ in ways:
                    info["graph"] = [[ser(x) for x in u] for u in start]
                    got, errs, exc = self.concrete_run(start, k)
                    if exc is not None:
                        info.update(why=exc, kind="crash")
                        raise Candidate(info)
                    if not any(tuple(x.tid for x in u) == tuple(x.tid for x in t) for u in got):
                        break
                else:
                    return None
                info.update(missing=[ser(x) for x in t], rule=inst.rule.name if inst else "axiom",
                            why="consequence of %s never derived" % (inst.rule.name if inst else "axiom"))
                raise Candidate(info)
            if kind == "missing-error":
                inst = payload
                cul = [conc(x) for x in inst.culprits]
                def reported(start):
                    info["graph"] = [[ser(x) for x in u] for u in start]
                    got, errs, exc = self.concrete_run(start, k)
                    if exc is None:
                        for e in errs:
                            toks = {int(x) for x in TOK.findall(e)}
                            if all(c.tid in toks or (c.mask == E.LITERAL and str(c) in e) for c in cul):
                                return True

                if all(reported(start) for start, _ in ways):
                    return None
                info.update(culprits=[ser(x) for x in cul], rule=inst.rule.name,
                            why="inconsistency %s is not reported with its culprits" % inst.rule.name)
                raise Candidate(info)
            if kind == "spurious-error":
                msg, toks = payload
                ref = spec.closure(tr + self.axioms, ls, self.allowed, cval, lambda x: x.mask == E.LITERAL)
                ev = spec.Eval(list(ref.values()), ls, lambda x, y: x.tid == y.tid, cval)
                ct = {conc(x).tid for x in toks}
                for i in ev.instances([r for r in self.allowed]):
                    if i.culprits is not None and all(c.tid in ct for c in i.culprits):
                        return None
                # are the terms named right, or is there no inconsistency at all?
                some = [i for i in ev.instances(self.allowed) if i.culprits is not None]
                info.update(named=[ser(conc(x)) for x in toks], message=TOK.sub(lambda q: str(conc(E.byid(int(q.group(1)))).const), msg),
                            inconsistent=bool(some), why="error reported that names no actual inconsistency",
                            allowed_culprits=[[ser(c) for c in i.culprits] for i in some][:50])
                raise Candidate(info)
            raise E.Inconclusive("candidate kind %s" % kind)
        finally:
            E.CUR = saved

    def concrete_run(self, triples, k, maxrounds=40):
        """The real rules on a concrete graph, round after round to the fixpoint, starting with round k."""
        g = stub.Graph(identifier="urn:g")
        cls = find_class(self.cls)
        try:
            core = cls(g, **self.cctor)
            if self.pre:
                self.pre(core)
            for t in triples:
                g.add(t)
            while maxrounds:
                maxrounds -= 1
                core.empty_stored_triples()
                for t in g.triples((None, None, None)):
                    core.rules(t, k)
                n = len(core.added_triples)
                for t in list(core.added_triples):
                    core.destination.add(t)
                k += 1
                if not n:
                    break
            return [q[0] for q in g.store.quads], list(core.error_messages), None
        except (E.Steer, E.Inconclusive):
            raise
        except Exception as e:
            return [], [], "%s: %s" % (type(e).__name__, e)


def cval(x, n):
    if x.mask != E.LITERAL:
        return False
    v = stub.const_value(x)
    return isinstance(v, int) and v == n


def ser(t):
    """Serialise a concrete term for the replay."""
    if t.mask == E.LITERAL:
        lex, lang, dt = t.lit[:3]
        return ["L", str(lex), lang, dt.const if dt is not None else None]
    if t.mask == E.BNODE:
        return ["B", t.const]
    return ["U", t.const]


# ------------------------------------------------------------------------------ templates
def listcells(base, members):
    """rdf:List with concrete cells."""
    cells = [mkconst("%s_%d" % (base, i), E.BNODE) for i in range(len(members))]
    if not members:
        return stub.RDF.nil, [], [(stub.RDF.nil, [])]
    tr = []
    ls = []
    for i, mem in enumerate(members):
        tr.append((cells[i], stub.RDF.first, mem))
        tr.append((cells[i], stub.RDF.rest, cells[i + 1] if i + 1 < len(cells) else stub.RDF.nil))
        ls.append((cells[i], list(members[i:])))
    return cells[0], tr, ls


def template(rule, n=0, alt=0):
    """Premise patterns of a rule for lists of n members; returns (patterns, list members, vals) or None."""
    pats = []
    lists = []
    vals = []
    b = {}
    for p in rule.prem:
        if p[0] == "LIST":
            lists.append((p[1], ["?m%d" % i for i in range(n)]))
            b[p[2]] = ["?m%d" % i for i in range(n)]
        elif p[0] == "VAL":
            vals.append(p[1])
        else:
            pats.append(p)
    if rule.dyn is not None:
        alts = list(rule.dyn(b))
        if not alts:
            return (pats, lists, vals) if alt == 0 else None
        if alt >= len(alts):
            return None
        pats = pats + alts[alt][0]
    return pats, lists, vals


def build_template(pats, lists, vals, mask, extra=0, extramask=E.ANY, cycle=None, front=False, litmask=None, rev=False, link=False, late=None, distinct=False):
    """A function building the symbolic graph of a template plus `extra` arbitrary triples."""

    preds = {p[1] for p in pats if type(p[1]) is str}
    classes = {p[2] for p in pats if type(p[2]) is str and p[1] in (stub.RDF.type, stub.OWL.onClass)}
    listpreds = set()
    for h, mem in lists:
        if any(p[1] in mem for p in pats):
            listpreds.update(mem)

    def maskof(q):
        if type(mask) is int:
            return mask
        if len(mask) == 3 and len(pats) > 5 and q not in classes:
            return mask[2]
        return mask[0] if q in preds or q in listpreds else mask[1]

    def build(ctx):
        vs = {}
        values = {}
        for p in pats:
            for q in p:
                if type(q) is str and q not in vs:
                    heads = [h for h, _ in lists]
                    if q in heads or q in vals:
                        continue
                    vs[q] = ctx.var(q, maskof(q) & ~E.LITERAL & ~E.BNODE if late is not None and q == pats[late][1] else maskof(q))
        for h, mem in lists:
            for q in mem:
                if q not in vs:
                    vs[q] = ctx.var(q, maskof(q))
        for q in vals:
            t = ctx.var(q, E.LITERAL)
            vz = z3.Int("val!" + q)
            ctx.attr(t, "value", lambda: SymInt(vz))
            vs[q] = t
            values[t.tid] = vz
        cells = []
        ls = []
        for i, (h, mem) in enumerate(lists):
            head, tr, l = listcells("l%d" % i, [vs[q] for q in mem])
            vs[h] = head
            cells += tr
            ls += l
        tr = [tuple(vs[q] if type(q) is str else q for q in p) for p in pats]
        ex = []
        for i in range(extra):
            e = tuple(ctx.var("e%d%s" % (i, c), extramask if isinstance(extramask, int) else extramask[j])
                      for j, c in enumerate("spo"))
            ex.append(e)
        # well-formed lists: cells are cells and nothing else
        for v in {x.tid: x for e in tr + cells + ex for x in e if x.const is None}.values():
            for c in [t[0] for t in cells if t[1] is stub.RDF.first] + ([stub.RDF.nil] if cells else []):
                if link and any(v is e[2] for e in tr + ex) and c in (cells[0][0], stub.RDF.nil):
                    continue  # may be the list
                if ctx.decide(v, c) is None:
                    ctx.set_ne(v, c)
        for e in tr + ex:
            for v in (stub.RDF.first, stub.RDF.rest):
                if ctx.decide(e[1], v) is None:
                    ctx.set_ne(e[1], v)
        if distinct:
            every = list({x.tid: x for e in tr + cells + ex for x in e}.values())
            for i, v in enumerate(every):
                for w in every[:i]:
                    if (v.const is None or w.const is None) and ctx.decide(v, w) is None:
                        ctx.set_ne(v, w)
        if not any(h is stub.RDF.nil for h, _ in ls):
            ls.append((stub.RDF.nil, []))
        allt = ex + cells + tr if front else tr + cells + ex
        if rev:
            allt = allt[::-1]
        if cycle is None:
            cz = z3.Int("cycle")
            ctx.assume(cz >= 1)
            ctx.hard = False  # the cycle number is independent of the terms
            cyc = SymInt(cz)
        elif cycle == "late":
            cz = z3.Int("cycle")
            ctx.assume(cz >= 2)
            ctx.hard = False
            cyc = SymInt(cz)
        else:
            cyc = cycle
        if late is not None:
            cyc = 2
        d = dict(triples=allt, lists=ls, cycle=cyc, values=values, late=None if late is None else next(i for i, t in enumerate(allt) if t is tr[late]),
                 vars=[t for t in {x.tid: x for tt in allt for x in tt if x.const is None}.values()])
        ctx.notes["graph"] = d
        return d

    return build
