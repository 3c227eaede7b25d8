"""Stub `rdflib`: the symbolic model of the environment owlrl runs in.

Contracts modelled (all stated in DESIGN.md): terms with term equality, a triple store as a set of triples with the
query methods of rdflib.Graph, datasets as sets of quads, closed namespaces (read from the installed rdflib), the
literal conversion table."""
import ast
import os
import sys
import types

import z3

from . import engine as E
from .engine import Term, mkconst, Unsupported

RDFLIB = "/opt/venv/lib/python3.12/site-packages/rdflib"


# ------------------------------------------------------------------ term classes
class Node(metaclass=E.KindMeta):
    _kindmask = E.ANY


class Identifier(Node, str):
    _kindmask = E.ANY

    def __new__(cls, value):
        return mk_uri(value)


class IdentifiedNode(Identifier):
    _kindmask = E.URI | E.BNODE


class URIRef(IdentifiedNode):
    _kindmask = E.URI

    def __new__(cls, value, base=None):
        return mk_uri(value)


class BNode(IdentifiedNode):
    _kindmask = E.BNODE

    def __new__(cls, value=None, *a, **k):
        if value is None:
            # bnodes created by the code: fresh per path
            c = E.cur()
            if c is None:
                n = BNode.__dict__["_counter"]
                BNode._counter = n + 1
                return mkconst("_static%d" % n, E.BNODE)
            c.fresh += 1
            n = mkconst("_new%d" % c.fresh, E.BNODE)
            c.find(n)
            for r, i in list(c.info.items()):
                if i[0] is None and i[1] & E.BNODE and c.find(E.byid(r)) == r:
                    c.set_ne(n, E.byid(r))
            return n
        if type(value) is Term:
            return value
        return mkconst(str(value), E.BNODE)

    _counter = 0


VOCAB_PREFIXES = (
    "http://www.w3.org/1999/02/22-rdf-syntax-ns#",
    "http://www.w3.org/2000/01/rdf-schema#",
    "http://www.w3.org/2002/07/owl#",
    "http://www.w3.org/2001/XMLSchema#",
)


def mk_uri(value):
    if type(value) is Term:
        if value.const is not None and value.mask != E.LITERAL:
            value = value.const
        else:
            return value
    v = str(value)
    if v.startswith("\u27e6") and v.endswith("\u27e7"):
        return E.byid(int(v[1:-1]))
    m = E.URI_VOCAB if v.startswith(VOCAB_PREFIXES) else E.URI_USER
    name = v.rsplit("#", 1)[-1] if "#" in v else v
    return mkconst(v, m, name)


LITERAL_HOOK = None  # installed by checks that model the conversion machinery


class Literal(Identifier):
    _kindmask = E.LITERAL

    def __new__(cls, value, lang=None, datatype=None, normalize=None):
        if LITERAL_HOOK is not None:
            r = LITERAL_HOOK(value, lang, datatype)
            if r is not None:
                return r
        return mk_literal(value, lang, datatype)


def mk_literal(value, lang=None, datatype=None):
    if type(value) is Term:
        if value.const is not None and value.mask == E.LITERAL:
            lex, l2, d2 = value.lit[:3]
            return mk_literal(lex, lang or l2, datatype or d2)
        value = str(value)
    if isinstance(value, bool):
        lex, dt = ("true" if value else "false"), XSDNS + "boolean"
    elif isinstance(value, int):
        lex, dt = str(value), XSDNS + "integer"
    elif isinstance(value, str):
        lex, dt = value, None
    else:
        lex, dt = str(value), None
    if datatype is None and dt is not None:
        datatype = mk_uri(dt)
    elif datatype is not None and type(datatype) is not Term:
        datatype = mk_uri(datatype)
    key = (lex if isinstance(lex, str) else id(lex), lang, datatype.tid if datatype is not None else None)
    return mkconst(key, E.LITERAL, '"%s"' % (lex,), (lex, lang, datatype))


XSDNS = "http://www.w3.org/2001/XMLSchema#"


class Variable(Identifier):
    pass


def _class_of(t):
    m = E.cur().mask(t) if E.cur() is not None and t.const is None else t.mask
    if not (m & ~E.URI):
        return URIRef
    if m == E.BNODE:
        return BNode
    if m == E.LITERAL:
        return Literal
    c = E.cur()
    if c.is_kind(t, E.URI):
        return URIRef
    return BNode if c.is_kind(t, E.BNODE) else Literal


E.CLASS_OF = _class_of


# attributes of literals
def _attr_value(t):
    if t.const is not None:
        if t.mask != E.LITERAL:
            raise AttributeError("'URIRef' object has no attribute 'value'")
        return const_value(t)
    c = E.cur()
    if not c.is_kind(t, E.LITERAL):
        raise AttributeError("non-literal term has no attribute 'value'")

    def make():
        if c.choose(2) == 0:
            return E.SymInt(z3.Int("val!" + E.byid(c.find(t)).name))
        return None

    return c.attr(t, "value", make)


def const_value(t):
    if len(t.lit) > 3:
        return t.lit[3]
    lex, lang, dt = t.lit[:3]
    if VALUE_HOOK is not None:
        return VALUE_HOOK(lex, lang, dt)
    if dt is None:
        return lex
    if dt.const is None:
        # a symbolic datatype: find out which of those with a value it is
        for n in ("integer", "int", "long", "short", "byte", "nonNegativeInteger", "boolean", "string"):
            if dt == getattr(XSD, n):
                return const_value_of(lex, n)
        return None
    n = dt.const[len(XSDNS):] if dt.const.startswith(XSDNS) else None
    return const_value_of(lex, n)


def const_value_of(lex, n):
    try:
        if n and ("int" in n.lower() or n in ("long", "short", "byte") or n.startswith("unsigned")):
            return int(lex)
        if n == "boolean":
            return {"true": True, "1": True, "false": False, "0": False}.get(lex)
        if n == "string":
            return lex
    except ValueError:
        return None
    return None


VALUE_HOOK = None


def _attr_datatype(t):
    if t.const is not None:
        if t.mask != E.LITERAL:
            raise AttributeError("'URIRef' object has no attribute 'datatype'")
        return t.lit[2]
    c = E.cur()
    if not c.is_kind(t, E.LITERAL):
        raise AttributeError("non-literal term has no attribute 'datatype'")

    def make():
        if c.choose(2) == 0:
            return c.var("dt(%s)" % E.byid(c.find(t)).name, E.URI)
        return None

    return c.attr(t, "datatype", make)


def _attr_language(t):
    if t.const is not None:
        if t.mask != E.LITERAL:
            raise AttributeError("'URIRef' object has no attribute 'language'")
        return t.lit[1]
    c = E.cur()
    if not c.is_kind(t, E.LITERAL):
        raise AttributeError("non-literal term has no attribute 'language'")
    return c.attr(t, "language", lambda: None)


E.ATTRS.update(value=_attr_value, datatype=_attr_datatype, language=_attr_language)


# ------------------------------------------------------------------ namespaces
class Namespace(str):
    def __new__(cls, v):
        return str.__new__(cls, v)

    def term(self, name):
        return mk_uri(str(self) + name)

    def __getitem__(self, name):
        return self.term(name)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return self.term(name)

    def __contains__(self, ref):
        return str(ref.const if type(ref) is Term else ref).startswith(str(self))


class DefinedMeta(type):
    def __getitem__(cls, name, default=None):
        name = str(name)
        if name in cls._names or (cls._underscore_num and name[:1] == "_" and name[1:].isdigit()):
            return mk_uri(cls._NS + name)
        if cls._fail:
            raise AttributeError("term '%s' not in namespace '%s'" % (name, cls._NS))
        return mk_uri(cls._NS + name)

    def __getattr__(cls, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return cls[name]

    def __contains__(cls, item):
        if type(item) is Term:
            if item.const is None:
                raise Unsupported("symbolic term in namespace")
            item = item.const
        item = str(item)
        if item.startswith(cls._NS):
            item = item[len(cls._NS):]
        return item in cls._names or bool(cls._underscore_num and item[:1] == "_" and item[1:].isdigit())

    def __str__(cls):
        return cls._NS

    def __add__(cls, o):
        return cls[o]


def _read_namespace(fname, cname):
    tree = ast.parse(open(os.path.join(RDFLIB, "namespace", fname), encoding="utf-8").read())
    for n in tree.body:
        if isinstance(n, ast.ClassDef) and n.name == cname:
            d = dict(_names=set(), _fail=False, _underscore_num=False, _NS="")
            for s in n.body:
                if isinstance(s, ast.AnnAssign):
                    d["_names"].add(s.target.id)
                elif isinstance(s, ast.Assign):
                    k = s.targets[0].id
                    if k == "_NS":
                        d["_NS"] = s.value.args[0].value
                    elif k in ("_fail", "_underscore_num"):
                        d[k] = s.value.value
                    elif k == "_extras":
                        d["_names"] |= set(ast.literal_eval(s.value))
            return DefinedMeta(cname, (), d)
    raise RuntimeError("namespace %s not found" % cname)


RDF = _read_namespace("_RDF.py", "RDF")
RDFS = _read_namespace("_RDFS.py", "RDFS")
OWL = _read_namespace("_OWL.py", "OWL")
XSD = _read_namespace("_XSD.py", "XSD")


# ------------------------------------------------------------------ graphs
def match(t, pat, c):
    """Does triple t match the pattern?  Definite mismatches are found before anything is forked."""
    und = []
    for x, y in zip(t, pat):
        if y is None:
            continue
        if type(y) is not Term:
            return False
        d = c.decide(x, y) if c is not None else (x.tid == y.tid)
        if d is False:
            return False
        if d is None:
            und.append((x, y))
    for x, y in und:
        if not c.eq(x, y):
            return False
    return True


class Store:
    context_aware = graph_aware = True

    def __init__(self):
        self.quads = []  # [triple, [graph ids]]
        self.index = {}  # ids of the terms -> quad
        self.sym = []  # quads with a symbolic term
        self.known = []
        self.log = []
        self.namespaces_ = {}

    def _find(self, t):
        c = E.cur()
        q = self.index.get(tuple(x.tid for x in t))
        if q is not None and q[1]:
            return q
        for q in self.sym if all(x.const is not None for x in t) else self.quads:
            if q[1] and match(q[0], t, c):
                return q
        return None

    def _new(self, t, gid):
        q = [tuple(t), [gid]]
        self.quads.append(q)
        self.index[tuple(x.tid for x in t)] = q
        if any(x.const is None for x in t):
            self.sym.append(q)

    def add(self, t, gid):
        for x in t:
            if type(x) is not Term:
                raise AssertionError("%r must be an rdflib term" % (x,))
        q = self._find(t)
        if q is None:
            self._new(t, gid)
        elif gid not in q[1]:
            q[1].append(gid)
        if gid not in self.known:
            self.known.append(gid)

    def raw(self, t, gid):
        """Harness only: install a triple without asking whether an equal one is there."""
        self._new(t, gid)
        if gid not in self.known:
            self.known.append(gid)

    def triples(self, pat, gid):
        c = E.cur()
        order = ORDER(self.quads) if ORDER is not None else list(self.quads)
        for q in order:
            if gid is not None and gid not in q[1]:
                continue
            if not q[1]:
                continue  # removed meanwhile
            if match(q[0], pat, c):
                yield q[0]

    def remove(self, pat, gid):
        c = E.cur()
        for q in list(self.quads):
            if gid is not None and gid not in q[1]:
                continue
            if match(q[0], pat, c):
                if gid is not None:
                    q[1].remove(gid)
                if gid is None:
                    del q[1][:]
                if not q[1]:
                    self.quads = [x for x in self.quads if x is not q]


ORDER = None
GRAPH_HOOK = None  # called as GRAPH_HOOK(op, graph, arg) before every operation (fault injection, recording)


class Graph(Node):
    _kindmask = 0

    def __init__(self, store=None, identifier=None, namespace_manager=None, base=None, bind_namespaces=None):
        self._store = store if isinstance(store, Store) else Store()
        if identifier is None:
            E_ = E.cur()
            self._gid = BNode()
        else:
            self._gid = identifier if type(identifier) is Term else mk_uri(identifier)
        self.base = base
        self.parsed = []

    store = property(lambda s: s._store)
    identifier = property(lambda s: s._gid)
    namespace_manager = property(lambda s: None)
    context_aware = False

    def _h(self, op, arg=None):
        if GRAPH_HOOK is not None:
            GRAPH_HOOK(op, self, arg)

    def _ctx(self):
        return self._gid

    def _addctx(self):
        return self._gid

    def add(self, triple):
        self._h("add", triple)
        s, p, o = triple
        self._store.add((s, p, o), self._addctx())
        return self

    def addN(self, quads):
        for s, p, o, g in quads:
            self._h("add", (s, p, o))
            self._store.add((s, p, o), g._addctx() if isinstance(g, Graph) else g)
        return self

    def remove(self, triple):
        self._h("remove", triple)
        s, p, o = triple
        self._store.remove((s, p, o), self._ctx_remove())
        return self

    def _ctx_remove(self):
        return self._gid

    def triples(self, triple):
        s, p, o = triple[:3]
        self._h("triples", triple)
        yield from self._store.triples((s, p, o), self._ctx())

    def __contains__(self, t):
        s, p, o = t[:3]
        self._h("contains", t)
        if s is not None and p is not None and o is not None:
            return self._has((s, p, o))
        for _ in self.triples((s, p, o)):
            return True
        return False

    def _has(self, t):
        c = E.cur()
        gid = self._ctx()
        und = []
        for q in self._store.quads:
            if gid is not None and gid not in q[1]:
                continue
            r = True
            for x, y in zip(q[0], t):
                if x is y:
                    continue
                if type(y) is not Term:
                    r = False
                    break
                d = c.decide(x, y) if c is not None else x.tid == y.tid
                if d is False:
                    r = False
                    break
                if d is None:
                    r = None
            if r is True:
                return True
            if r is None:
                und.append(q[0])
        for q in und:
            if match(q, t, c):
                return True
        return False

    def __len__(self):
        self._h("len")
        gid = self._ctx()
        ts = [q[0] for q in self._store.quads if gid is None or gid in q[1]]
        c = E.cur()
        n = 0
        for i, t in enumerate(ts):
            if not any(match(t, u, c) for u in ts[:i]):
                n += 1
        return n

    def __bool__(self):
        return len(self) > 0

    def __iter__(self):
        return self.triples((None, None, None))

    def __eq__(self, o):
        return isinstance(o, Graph) and type(o) is not Term and self._gid.tid == o._gid.tid

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 11

    def __iadd__(self, other):
        for t in list(other):
            self.add(t)
        return self

    def __isub__(self, other):
        for t in list(other):
            self.remove(t)
        return self

    def __add__(self, other):
        g = Graph()
        for t in self:
            g.add(t)
        for t in other:
            g.add(t)
        return g

    def __sub__(self, other):
        g = Graph()
        for t in self:
            if t not in other:
                g.add(t)
        return g

    def set(self, triple):
        s, p, o = triple
        self.remove((s, p, None))
        self.add((s, p, o))
        return self

    def _u(self, gen, unique):
        if not unique:
            yield from gen
            return
        seen = []
        for x in gen:
            if x not in seen:
                seen.append(x)
                yield x

    def subjects(self, predicate=None, object=None, unique=False):
        ps = object, predicate
        return self._u((s for s, p, o in self.triples((None, predicate, object))), unique)

    def predicates(self, subject=None, object=None, unique=False):
        return self._u((p for s, p, o in self.triples((subject, None, object))), unique)

    def objects(self, subject=None, predicate=None, unique=False):
        return self._u((o for s, p, o in self.triples((subject, predicate, None))), unique)

    def subject_predicates(self, object=None, unique=False):
        return self._u(((s, p) for s, p, o in self.triples((None, None, object))), unique)

    def subject_objects(self, predicate=None, unique=False):
        return self._u(((s, o) for s, p, o in self.triples((None, predicate, None))), unique)

    def predicate_objects(self, subject=None, unique=False):
        return self._u(((p, o) for s, p, o in self.triples((subject, None, None))), unique)

    def triples_choices(self, triple, context=None):
        s, p, o = triple
        ls = lambda x: x if isinstance(x, list) else [x]
        for a in ls(s):
            for b in ls(p):
                for d in ls(o):
                    yield from self.triples((a, b, d))

    def value(self, subject=None, predicate=RDF.value, object=None, default=None, any=True):
        if (subject is None) + (predicate is None) + (object is None) > 1:
            return None
        if object is None:
            vals = self.objects(subject, predicate)
        if subject is None:
            vals = self.subjects(predicate, object)
        if predicate is None:
            vals = self.predicates(subject, object)
        ret = default
        try:
            ret = next(vals)
        except StopIteration:
            ret = default
        else:
            if any is False:
                try:
                    next(vals)
                    raise UniquenessError("multiple values")
                except StopIteration:
                    pass
        return ret

    def items(self, list):
        chain = [list]
        n = 0
        while list:
            item = self.value(list, RDF.first)
            if item is not None:
                yield item
            list = self.value(list, RDF.rest)
            if list in chain:
                raise ValueError("List contains a recursive rdf:rest reference")
            chain.append(list)
            n += 1
            if n > 40:
                raise E.Limit("list longer than 40")

    def collection(self, identifier):
        return Collection(self, identifier)

    def transitive_objects(self, subject, predicate, remember=None):
        if remember is None:
            remember = []
        if subject in remember:
            return
        remember.append(subject)
        yield subject
        for o in self.objects(subject, predicate):
            yield from self.transitive_objects(o, predicate, remember)

    def transitive_subjects(self, predicate, object, remember=None):
        if remember is None:
            remember = []
        if object in remember:
            return
        remember.append(object)
        yield object
        for s in self.subjects(predicate, object):
            yield from self.transitive_subjects(predicate, s, remember)

    def transitiveClosure(self, func, arg, seen=None):
        if seen is None:
            seen = []
        elif arg in seen:
            return
        seen.append(arg)
        for rt in func(arg, self):
            yield rt
            yield from self.transitiveClosure(func, rt, seen)

    def all_nodes(self):
        r = set()
        for s, p, o in self:
            r.add(s)
            r.add(o)
        return r

    def __getitem__(self, item):
        if isinstance(item, slice):
            s, p, o = item.start, item.stop, item.step
            n = (s is None, p is None, o is None)
            if n == (True, True, True):
                return self.triples((s, p, o))
            if n == (True, True, False):
                return self.subject_predicates(o)
            if n == (True, False, True):
                return self.subject_objects(p)
            if n == (False, True, True):
                return self.predicate_objects(s)
            if n == (True, False, False):
                return self.subjects(p, o)
            if n == (False, True, False):
                return self.predicates(s, o)
            if n == (False, False, True):
                return self.objects(s, p)
            return (s, p, o) in self
        return self.predicate_objects(item)

    def bind(self, prefix, namespace, *a, **k):
        self._h("bind", (prefix, namespace))
        self._store.namespaces_[prefix] = namespace

    def namespaces(self):
        return iter(self._store.namespaces_.items())

    def parse(self, source=None, publicID=None, format=None, location=None, file=None, data=None, **args):
        if PARSE_HOOK is None:
            raise Unsupported("parse")
        return PARSE_HOOK(self, source=source, publicID=publicID, format=format, location=location, file=file, data=data, **args)

    def serialize(self, destination=None, format="turtle", base=None, encoding=None, **args):
        if SERIALIZE_HOOK is None:
            raise Unsupported("serialize")
        return SERIALIZE_HOOK(self, destination=destination, format=format, base=base, encoding=encoding, **args)

    def close(self, *a, **k):
        pass

    def commit(self):
        return self

    def query(self, *a, **k):
        raise Unsupported("SPARQL")

    update = query

    def __str__(self):
        return "graph"


PARSE_HOOK = SERIALIZE_HOOK = None


class UniquenessError(Exception):
    pass


class Collection:
    def __init__(self, graph, uri, seq=()):
        self.graph, self.uri = graph, uri

    def __iter__(self):
        return self.graph.items(self.uri)

    def __len__(self):
        return len(list(self.graph.items(self.uri)))

    def __getitem__(self, i):
        return list(self.graph.items(self.uri))[i]


class ConjunctiveGraph(Graph):
    context_aware = True

    def __init__(self, store=None, identifier=None, default_graph_base=None):
        Graph.__init__(self, store, identifier)
        self.default_union = True
        self._default_context = Graph(store=self._store, identifier=identifier)

    @property
    def default_context(self):
        return self._default_context

    @default_context.setter
    def default_context(self, v):
        self._default_context = v

    default_graph = default_context

    def _ctx(self):
        return None if self.default_union else self._default_context._gid

    def _addctx(self):
        return self._default_context._gid

    def _ctx_remove(self):
        return None

    def _graph(self, c):
        if c is None:
            return None
        if isinstance(c, ConjunctiveGraph):
            return c
        if isinstance(c, Graph):
            return self.get_context(c.identifier)
        return self.get_context(c)

    def _gidof(self, c):
        return (c._default_context._gid if isinstance(c, ConjunctiveGraph) else c._gid)

    def add(self, tq):
        if len(tq) == 4:
            s, p, o, g = tq
            self._h("add", (s, p, o))
            self._store.add((s, p, o), self._gidof(self._graph(g)) if g is not None else None)
            return self
        return Graph.add(self, tq)

    def remove(self, tq):
        self._h("remove", tq)
        if len(tq) == 4 and tq[3] is not None:
            self._store.remove(tq[:3], self._gidof(self._graph(tq[3])))
        else:
            self._store.remove(tq[:3], None)
        return self

    def triples(self, tq, context=None):
        self._h("triples", tq)
        c = context if context is not None else (tq[3] if len(tq) == 4 else None)
        if c is not None and not isinstance(c, ConjunctiveGraph):
            g = self._graph(c)
            gid = g._gid
            if self.default_union and gid.tid == self._default_context._gid.tid:
                gid = None
        else:
            gid = self._ctx()
        yield from self._store.triples(tq[:3], gid)

    def __contains__(self, tq):
        if len(tq) == 4:
            for _ in self.triples(tq):
                return True
            return False
        return Graph.__contains__(self, tq)

    def quads(self, quad=None):
        self._h("triples", quad)
        q = quad or (None, None, None, None)
        gid = self._gidof(self._graph(q[3])) if len(q) == 4 and q[3] is not None else None
        for x in list(self._store.quads):
            if gid is not None and gid not in x[1]:
                continue
            if match(x[0], q[:3], E.cur()):
                for g in list(x[1]):
                    yield x[0] + (self._qid(g),)

    def _qid(self, g):
        return self.get_context(g)

    def get_context(self, identifier, quoted=False, base=None):
        return Graph(store=self._store, identifier=identifier)

    def contexts(self, triple=None):
        for g in list(self._store.known):
            yield self.get_context(g)

    def __len__(self):
        return len(self._store.quads)

    def __bool__(self):
        return len(self) > 0


DEFAULT_ID = mk_uri("urn:x-rdflib:default")


class Dataset(ConjunctiveGraph):
    def __init__(self, store=None, default_union=False, default_graph_base=None):
        Graph.__init__(self, store, None)
        self._default_context = Graph(store=self._store, identifier=DEFAULT_ID)
        self.default_union = default_union

    @property
    def default_graph(self):
        return self._default_context

    @default_graph.setter
    def default_graph(self, v):
        self._default_context = v

    def graph(self, identifier=None, base=None):
        if identifier is None:
            identifier = BNode()
        g = self._graph(identifier)
        if g._gid not in self._store.known:
            self._store.known.append(g._gid)
        return g

    def add_graph(self, g):
        return self.graph(g)

    def graphs(self, triple=None):
        gs = list(self._store.known)
        if DEFAULT_ID not in gs:
            gs.append(DEFAULT_ID)
        for g in gs:
            yield self.get_context(g)

    contexts = graphs

    def remove_graph(self, g):
        g = g if isinstance(g, Graph) else self.get_context(g)
        self._store.remove((None, None, None), g._gid)
        return self

    def _qid(self, g):
        return None if g.tid == DEFAULT_ID.tid else g

    def __iter__(self):
        return self.quads((None, None, None, None))


# ------------------------------------------------------------------ module objects
def install():
    """Put the stub package into sys.modules (fresh module objects; classes are shared)."""
    def mod(name, **k):
        m = types.ModuleType(name)
        m.__dict__.update(k)
        sys.modules[name] = m
        return m

    terms = dict(Node=Node, Identifier=Identifier, IdentifiedNode=IdentifiedNode, URIRef=URIRef, BNode=BNode,
                 Literal=Literal, Variable=Variable)
    table = {}

    def bind(datatype, pythontype, constructor=None, lexicalizer=None, datatype_specific=False):
        table[datatype] = constructor if constructor is not None else pythontype
    term = mod("rdflib.term", **terms, XSDToPython={}, _toPythonMapping=table, bind=bind, _XSD_PFX=XSDNS)
    graph = mod("rdflib.graph", Graph=Graph, ConjunctiveGraph=ConjunctiveGraph, Dataset=Dataset, Collection=Collection,
                DATASET_DEFAULT_GRAPH_ID=DEFAULT_ID, **terms)
    ns = mod("rdflib.namespace", RDF=RDF, RDFS=RDFS, OWL=OWL, XSD=XSD, Namespace=Namespace)
    coll = mod("rdflib.collection", Collection=Collection)
    exc = mod("rdflib.exceptions", UniquenessError=UniquenessError)
    compare = mod("rdflib.compare")
    util = mod("rdflib.util")
    top = mod("rdflib", **terms, Graph=Graph, ConjunctiveGraph=ConjunctiveGraph, Dataset=Dataset, RDF=RDF, RDFS=RDFS,
              OWL=OWL, XSD=XSD, Namespace=Namespace, term=term, graph=graph, namespace=ns, collection=coll,
              exceptions=exc, util=util, compare=compare, __version__="7.6.0")
    top.__path__ = []
    return top
