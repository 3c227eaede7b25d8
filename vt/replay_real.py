"""Replay scenarios on the real owlrl with the real rdflib.  Run by /opt/venv/bin/python; imports nothing from the
symbolic machinery.  One line per scenario: REPLAY violated|ok|error detail"""
import json
import os
import sys
import traceback

REPO = os.environ.get("OWLRL_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
import warnings
import logging

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)


class Violated(Exception):
    pass


def term(x):
    from rdflib import URIRef, BNode, Literal
    k = x[0]
    if k == "U":
        return URIRef(x[1])
    if k == "B":
        return BNode(x[1])
    return Literal(x[1], lang=x[2] or None, datatype=URIRef(x[3]) if x[3] else None, normalize=False)


def key(t):
    """Strict identity of a term (rdflib compares literals by lexical form, language and datatype)."""
    from rdflib import Literal
    if isinstance(t, Literal):
        return ("L", str(t), (t.language or "").lower(), str(t.datatype or ""))
    return (type(t).__name__[:1], str(t))


def tkey(t):
    return tuple(key(x) for x in t)


def find_class(name):
    import owlrl
    for m in ("owlrl", "owlrl.RDFSClosure", "owlrl.OWLRL", "owlrl.CombinedClosure", "owlrl.OWLRLExtras", "owlrl.Closure"):
        __import__(m)
        c = getattr(sys.modules[m], name, None)
        if c is not None:
            return c
    raise RuntimeError("no class %s" % name)


def run_rules(sc):
    """The rules on a concrete graph, round after round to the fixpoint, starting with the given round number."""
    from rdflib import Graph
    g = Graph()
    core = find_class(sc["class"])(g, **sc["ctor"])
    for t in sc["graph"]:
        g.add(tuple(term(x) for x in t))
    k = sc["cycle"]
    for _ in range(sc.get("rounds", 40)):
        core.empty_stored_triples()
        for t in list(g.triples((None, None, None))):
            core.rules(t, k)
        n = len(core.added_triples)
        for t in list(core.added_triples):
            core.destination.add(t)
        k += 1
        if not n:
            break
    return list(g.triples((None, None, None))), list(core.error_messages)


def named(culprits, errs):
    return [m for m in errs if all(str(term(c)) in m for c in culprits)]


def rules(sc):
    kind = sc["kind"]
    try:
        triples, errs = run_rules(sc)
    except Exception as e:
        if kind in ("crash", "sample", "missing", "missing-error", "unsound"):
            raise Violated("the rules fail with %s: %s" % (type(e).__name__, e))
        raise
    got = {tkey(t) for t in triples}
    start = {tkey(tuple(term(x) for x in t)) for t in sc["graph"]}
    if kind == "unsound":
        u = tuple(term(x) for x in sc["unexpected"])
        if tkey(u) in got:
            raise Violated("derived %s" % " ".join(x.n3() for x in u))
        return "not derived"
    if kind == "missing":
        u = tuple(term(x) for x in sc["missing"])
        if tkey(u) not in got:
            raise Violated("not derived: %s (%s)" % (" ".join(x.n3() for x in u), sc.get("rule")))
        return "derived"
    if kind == "missing-error":
        if not named(sc["culprits"], errs):
            raise Violated("no error names %s (%s); errors: %s" % ([term(c).n3() for c in sc["culprits"]], sc.get("rule"), errs[:3]))
        return "reported"
    if kind == "spurious-error":
        for m in errs:
            if not any(all(str(term(c)) in m for c in cul) for cul in sc["allowed_culprits"]):
                raise Violated("error without an inconsistency behind it: %s" % m)
        return "no spurious error"
    if kind == "sample":
        for t in sc["must"]:
            u = tuple(term(x) for x in t)
            if tkey(u) not in got:
                raise Violated("not derived: %s" % " ".join(x.n3() for x in u))
        if sc.get("allowed") is not None:
            al = {tkey(tuple(term(x) for x in t)) for t in sc["allowed"]}
            for t in triples:
                if tkey(t) not in al and tkey(t) not in start:
                    raise Violated("derived %s, not entailed" % " ".join(x.n3() for x in t))
        for c in sc["must_errors"]:
            if not named(c, errs):
                raise Violated("no error names %s" % [term(x).n3() for x in c])
        if sc["no_errors"] and errs:
            raise Violated("error on a consistent graph: %s" % errs[0])
        return "sample agrees"
    if kind == "crash":
        return "no failure"
    raise RuntimeError("kind %s" % kind)


HANDLERS = {"rules": rules}


def one(f):
    try:
        sc = json.load(open(f))
        h = HANDLERS.get(sc.get("scenario"))
        if h is None:
            import replay_more
            h = replay_more.HANDLERS[sc["scenario"]]
        return "ok", h(sc)
    except Violated as e:
        return "violated", str(e)
    except BaseException as e:
        if type(e).__name__ == "Violated":
            return "violated", str(e)
        return "error", "".join(traceback.format_exception(type(e), e, e.__traceback__))[-1200:]


def main():
    """Each scenario in a process of its own, so that none sees what another left behind."""
    sys.path.insert(0, HERE)
    try:
        import owlrl
        import replay_more
    except Exception:
        pass
    for f in sys.argv[1:]:
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            st, det = one(f)
            print("REPLAY %s %s" % (st, " ".join(str(det).split())[:1500]))
            sys.stdout.flush()
            os._exit(0)
        _, status = os.waitpid(pid, 0)
        if status:
            print("REPLAY error the replay process ended with status %s" % status)


if __name__ == "__main__":
    main()
