"""Symbolic execution by re-execution: path exploration, term equality (congruence), z3 for everything else."""
import time
import z3

URI_VOCAB, URI_USER, BNODE, LITERAL = 1, 2, 4, 8
URI = URI_VOCAB | URI_USER
ANY = 15
KINDNAMES = {1: "vocab", 2: "uri", 4: "bnode", 8: "literal"}

Kind = z3.Function("kind", z3.IntSort(), z3.IntSort())


class Steer(BaseException):
    """Control flow of the engine; not an Exception.  A bare `except:` in the code under test cannot hide it: the path
    remembers it (explore)."""

    def __init__(self, *a):
        super().__init__(*a)
        if CUR is not None and CUR.steered is None:
            CUR.steered = self


class Infeasible(Steer):
    pass


class Unsupported(Steer):
    """The code does something the symbolic environment cannot represent: inconclusive, never a pass."""


class Limit(Steer):
    """A stated bound (steps, rounds) was exceeded on this path."""


class Inconclusive(Exception):
    pass


class Candidate(Exception):
    """A concrete counterexample (a scenario for replay_real), to be replayed on the real code."""

    def __init__(self, info):
        super().__init__(info.get("why"))
        self.info = info


CUR = None  # the running path


def cur():
    return CUR


class Stats:
    def __init__(self):
        self.paths = self.queries = self.forks = self.obligations = self.infeasible = 0
        self.solver_s = 0.0
        self.maxdepth = 0
        self.witness = 0
        self.samples = []

    def merge(self, o):
        for k in ("paths", "queries", "forks", "obligations", "solver_s", "witness", "infeasible"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.maxdepth = max(self.maxdepth, o.maxdepth)
        if len(self.samples) < 8:
            self.samples += o.samples[: 8 - len(self.samples)]


STATS = Stats()


class Ctx:
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.pos = 0
        self.pending = []
        self.decisions = []
        self.pc = []  # z3
        self.hard = False  # pc contains conditions outside the equality theory
        self.parent = {}
        self.info = {}  # root tid -> [const term|None, mask, set(neq roots), attrs dict]
        self.terms = {}
        self.solver = None
        self.nsolved = 0
        self.notes = {}
        self.fresh = 0
        self.memo = {}
        self.steered = None
        self.touched = set()  # constants compared with variables on this path

    # ---------------------------------------------------------------- decisions
    def choose(self, n):
        """A decision point with n feasible outcomes."""
        if self.steered is not None:
            raise self.steered
        if n == 1:
            return 0
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
        else:
            v = 0
            base = self.decisions[:]
            for i in range(n - 1, 0, -1):
                self.pending.append(base + [i])
            STATS.forks += 1
        self.pos += 1
        self.decisions.append(v)
        return v

    def forced(self):
        """True while replaying a decision prefix: the next decision is known feasible."""
        return self.pos < len(self.prefix)

    # ---------------------------------------------------------------- solver
    def _solver(self):
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver.set("timeout", 60000)
        while self.nsolved < len(self.pc):
            self.solver.add(self.pc[self.nsolved])
            self.nsolved += 1
        return self.solver

    def sat(self, *extra):
        s = self._solver()
        STATS.queries += 1
        t = time.time()
        r = s.check(*extra)
        STATS.solver_s += time.time() - t
        if r == z3.unknown:
            raise Inconclusive("z3 unknown: " + s.reason_unknown())
        return r == z3.sat

    def model(self, *extra):
        return self._solver().model() if self.sat(*extra) else None

    def assume(self, cond):
        if isinstance(cond, SymBool):
            cond = cond.z
        if isinstance(cond, bool):
            if not cond:
                raise Infeasible()
            return
        self.pc.append(cond)
        if not soft(cond):
            self.hard = True

    def branch(self, cond):
        """Fork on a z3 condition; the solver decides which sides are feasible."""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        key = cond.get_id()
        known = self.memo.get(key)
        if known is not None:
            return known[0]
        if self.forced():
            v = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(v)
        else:
            t = self.sat(cond)
            f = self.sat(z3.Not(cond))
            if not t and not f:
                raise Infeasible()
            if t and f:
                v = self.choose(2)
            else:
                # record forced outcomes as decisions too, so that prefixes replay without solving
                v = 0 if t else 1
                self.pos += 1
                self.decisions.append(v)
        self.pc.append(cond if v == 0 else z3.Not(cond))
        if not self.hard and not soft(cond):
            self.hard = True
        self.memo[key] = (v == 0, cond)  # keeps the expression, and with it its id, alive
        return v == 0

    # ---------------------------------------------------------------- equality of terms
    def find(self, t):
        p = self.parent
        i = t.tid
        if i not in p:
            p[i] = i
            self.terms[i] = t
            self.info[i] = [t if t.const is not None else None, t.mask, set(), {}]
            return i
        while p[i] != i:
            i = p[i]
        return i

    def decide(self, a, b):
        """True / False / None (both possible) for a == b."""
        if a is b:
            return True
        ca, cb = a.const, b.const
        if ca is not None and cb is not None:
            return a.tid == b.tid
        ra, rb = self.find(a), self.find(b)
        if ra == rb:
            return True
        ia, ib = self.info[ra], self.info[rb]
        if ia[0] is not None and ib[0] is not None:
            return False
        if not (ia[1] & ib[1]):
            return False
        if rb in ia[2]:
            return False
        if ia[3] and ib[3]:
            for k in ia[3]:
                if k in ib[3]:
                    x, y = ia[3][k], ib[3][k]
                    if x is None or y is None:
                        if x is not y:
                            return False
                    elif isinstance(x, Term) and isinstance(y, Term):
                        if self.decide(x, y) is False:
                            return False
        return None

    def set_eq(self, a, b):
        ra, rb = self.find(a), self.find(b)
        if ra == rb:
            return
        ia, ib = self.info[ra], self.info[rb]
        if ia[0] is None and ib[0] is not None:
            ra, rb, ia, ib = rb, ra, ib, ia
        self.parent[rb] = ra
        ia[1] &= ib[1]
        ia[2] |= ib[2]
        for n in ib[2]:
            s = self.info[n][2]
            s.discard(rb)
            s.add(ra)
        self.pc.append(a.z == b.z)
        self.touch(a, b)
        for k, y in ib[3].items():
            if k not in ia[3]:
                ia[3][k] = y
            else:
                x = ia[3][k]
                if isinstance(x, Term) and isinstance(y, Term):
                    d = self.decide(x, y)
                    if d is False:
                        raise Infeasible()
                    if d is None:
                        self.set_eq(x, y)
                elif isinstance(x, SymInt) and isinstance(y, SymInt):
                    self.assume(x.z == y.z)
                elif x is not y:
                    raise Infeasible()

    def set_ne(self, a, b):
        ra, rb = self.find(a), self.find(b)
        self.info[ra][2].add(rb)
        self.info[rb][2].add(ra)
        self.pc.append(a.z != b.z)
        self.touch(a, b)

    def touch(self, a, b):
        if a.const is not None:
            self.touched.add(a)
        if b.const is not None:
            self.touched.add(b)

    def eq(self, a, b):
        d = self.decide(a, b)
        if d is not None:
            return d
        shared = self.shared_ints(a, b)
        if (self.hard or shared) and not self.forced():
            # other theories are in play: let the solver confirm both sides
            e = z3.And([a.z == b.z] + shared)
            if shared and not self.hard:
                if not self.sat(e):
                    self.pos += 1
                    self.decisions.append(1)
                    self.set_ne(a, b)
                    return False
            t, f = self.sat(e), self.sat(z3.Not(e))
            if not t and not f:
                raise Infeasible()
            if t and not f:
                v = 0
            elif f and not t:
                v = 1
            else:
                v = self.choose(2)
            if not (t and f):
                self.pos += 1
                self.decisions.append(v)
        else:
            v = self.choose(2)
        # mostly unequal is the cheaper path; 0 = equal
        if v == 0:
            self.set_eq(a, b)
            return True
        self.set_ne(a, b)
        return False

    def mask(self, t):
        if t.const is not None:
            return t.mask
        return self.info[self.find(t)][1]

    def shared_ints(self, a, b):
        """Integer attributes of both classes: equality of the terms equates them."""
        ia, ib = self.info[self.find(a)][3], self.info[self.find(b)][3]
        if not ia or not ib:
            return []
        return [ia[k].z == ib[k].z for k in ia if type(ia[k]) is SymInt and type(ib.get(k)) is SymInt]

    def is_kind(self, t, m):
        cm = self.mask(t)
        if not (cm & m):
            return False
        if not (cm & ~m):
            return True
        v = self.choose(2)
        new = cm & m if v == 0 else cm & ~m
        self.info[self.find(t)][1] = new
        self.pc.append(kindcond(t, new))
        return v == 0

    def attr(self, t, key, make):
        d = self.info[self.find(t)][3]
        if key not in d:
            d[key] = make()
        return d[key]

    def var(self, name, mask=ANY):
        t = mkvar(name, mask)
        r = self.find(t)
        if mask != ANY:
            self.pc.append(kindcond(t, mask))
        else:
            self.pc.append(kindcond(t, ANY))
        return t

    def const_kind_facts(self, terms):
        seen = set()
        out = []
        for t in terms:
            if t.const is not None and t.tid not in seen:
                seen.add(t.tid)
                out.append(Kind(t.z) == t.mask)
        return out


def soft(cond):
    """Conditions over scalars that no term equality depends on (round number, literal values)."""
    todo = [cond]
    while todo:
        e = todo.pop()
        if z3.is_const(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and not e.decl().name().startswith(("cycle", "val!", "sw!")):
                return False
        else:
            todo.extend(e.children())
    return True


def kindcond(t, m):
    return z3.Or([Kind(t.z) == b for b in (1, 2, 4, 8) if m & b])


# -------------------------------------------------------------------- terms
_TERMS = {}
_BYTID = []


class KindMeta(type):
    def __instancecheck__(cls, obj):
        if type(obj) is Term:
            m = cls.__dict__.get("_kindmask")
            if m is None:
                return type.__instancecheck__(cls, obj)
            if m == ANY:
                return True
            if obj.const is not None:
                return bool(obj.mask & m)
            return CUR.is_kind(obj, m)
        return type.__instancecheck__(cls, obj)


class Term:
    __slots__ = ("tid", "z", "const", "name", "mask", "lit")

    def __init__(self, key, const, name, mask):
        self.tid = len(_BYTID)
        _BYTID.append(self)
        self.const = const
        self.name = name
        self.mask = mask
        self.lit = None
        self.z = z3.IntVal(self.tid) if const is not None else z3.Int("t!" + name)

    def __eq__(self, o):
        if type(o) is Term:
            if o is self:
                return True
            if self.const is not None and o.const is not None:
                return self.tid == o.tid
            return CUR.eq(self, o)
        if isinstance(o, str) and not isinstance(o, StrBase):
            # rdflib terms never equal plain strings
            return False
        return False

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return 7

    def __bool__(self):
        if self.const is not None:
            return len(self.const) > 0 if isinstance(self.const, str) else True
        return True

    def _less(self, o):
        """rdflib orders terms by kind and spelling.  Of variables the spelling is open, and one order is taken: that of their
        numbers.  Literals are ordered by value, which is not modelled."""
        if type(o) is not Term:
            return self.const < o if self.const is not None else NotImplemented
        if self.const is not None and o.const is not None and self.mask == o.mask:
            return str(self.const) < str(o.const)
        c = CUR
        if not (c.mask(self) & ~LITERAL) and not (c.mask(o) & ~LITERAL):
            raise Unsupported("ordering of symbolic literals")
        if c.eq(self, o):
            return False
        return c.find(self) < c.find(o)

    def __lt__(self, o):
        return self._less(o)

    def __gt__(self, o):
        return o._less(self) if type(o) is Term else self.const > o

    def __le__(self, o):
        return self == o or self._less(o)

    def __ge__(self, o):
        return self == o or self > o

    def token(self):
        return "\u27e6%d\u27e7" % self.tid

    def __str__(self):
        h = STR_HOOK
        if h is not None:
            r = h(self)
            if r is not None:
                return r
        if self.const is not None:
            if self.mask == LITERAL:
                return self.lit[0] if isinstance(self.lit[0], str) else self.token()
            return self.const if TOKENS is False else self.token()
        return self.token()

    def __format__(self, spec):
        return format(str(self), spec)

    def __repr__(self):
        return "<%s>" % self.name if TOKENS is False else self.token()

    def n3(self, *a, **k):
        return self.token() if (TOKENS or self.const is None) else "<%s>" % self.const

    def toPython(self):
        if CUR is not None and self.const is None:
            return self.value if CUR.is_kind(self, LITERAL) else self
        return self.value if self.mask == LITERAL else self

    def __getattr__(self, k):
        # only reached for attributes not defined above
        f = ATTRS.get(k)
        if f is not None:
            return f(self)
        if k.startswith("__"):
            raise AttributeError(k)
        if self.const is not None and isinstance(self.const, str) and self.mask != LITERAL and hasattr(str, k):
            return getattr(self.const, k)
        if self.mask == LITERAL and self.lit is not None and isinstance(self.lit[0], str) and hasattr(str, k):
            return getattr(self.lit[0], k)
        if hasattr(str, k):
            raise Unsupported("str method %s of a symbolic term" % k)
        raise AttributeError("'Identifier' object has no attribute %r" % k)

    @property
    def __class__(self):
        return CLASS_OF(self)

    def __add__(self, o):
        if self.const is not None and self.mask != LITERAL:
            return self.const + str(o)
        raise Unsupported("str + on symbolic term")

    def __radd__(self, o):
        if isinstance(o, str):
            return o + str(self)
        raise Unsupported("str + on symbolic term")

    def __contains__(self, o):
        if self.const is not None and isinstance(self.const, str):
            return str(o) in self.const
        raise Unsupported("in on symbolic term")

    def __len__(self):
        if self.const is not None and isinstance(self.const, str):
            return len(self.const)
        raise Unsupported("len of symbolic term")


class StrBase:
    pass


TOKENS = True  # str() of any non-literal term is a token that names the term
STR_HOOK = None
ATTRS = {}
CLASS_OF = None


def mkconst(value, mask, name=None, lit=None):
    key = (mask, value)
    t = _TERMS.get(key)
    if t is None:
        t = _TERMS[key] = Term(key, value, name or str(value), mask)
        t.lit = lit
    return t


def mkvar(name, mask):
    key = ("var", name, mask)
    t = _TERMS.get(key)
    if t is None:
        t = _TERMS[key] = Term(key, None, name, mask)
    return t


def byid(i):
    return _BYTID[i]


# -------------------------------------------------------------------- symbolic scalars
class SymBool:
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return CUR.branch(self.z)

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return SymBool(self.z == o.z)
        if isinstance(o, bool):
            return SymBool(self.z if o else z3.Not(self.z))
        return bool(self) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return SymBool(z3.Not(r.z)) if isinstance(r, SymBool) else not r

    def __hash__(self):
        return 7

    def __and__(self, o):
        return SymBool(z3.And(self.z, o.z if isinstance(o, SymBool) else bool(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.z, o.z if isinstance(o, SymBool) else bool(o)))

    __ror__ = __or__

    def __invert__(self):
        return -2 if bool(self) else -1

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __str__(self):
        return str(bool(self))

    __repr__ = __str__


def _zi(o):
    if isinstance(o, SymInt):
        return o.z
    if isinstance(o, SymBool):
        return z3.If(o.z, z3.IntVal(1), z3.IntVal(0))
    if isinstance(o, bool):
        return z3.IntVal(int(o))
    if isinstance(o, int):
        return z3.IntVal(o)
    return None


class SymInt:
    """A mathematical integer, as Python's int."""

    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z if not isinstance(z, int) else z3.IntVal(z)

    def _bin(self, o, f):
        z = _zi(o)
        if z is None:
            return NotImplemented
        return SymInt(f(self.z, z))

    def _cmp(self, o, f):
        z = _zi(o)
        if z is None:
            return NotImplemented
        return SymBool(f(self.z, z))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return SymInt(-self.z)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymInt(z3.If(self.z < 0, -self.z, self.z))

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0:
            return SymInt(self.z / z3.IntVal(o))
        raise Unsupported("division by symbolic")

    def __mod__(self, o):
        if isinstance(o, int) and o > 0:
            return SymInt(self.z % z3.IntVal(o))
        raise Unsupported("mod by symbolic")

    def __truediv__(self, o):
        raise Unsupported("true division of a symbolic integer")

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __hash__(self):
        return 7

    def __bool__(self):
        return CUR.branch(self.z != 0)

    def realise(self, lo, hi):
        """Enumerate the value by forking (bounded)."""
        for v in range(lo, hi + 1):
            if CUR.branch(self.z == v):
                return v
        raise Limit("integer outside the realisation range")

    def __index__(self):
        return self.realise(-2, 64)

    __int__ = __index__

    def __str__(self):
        z = z3.simplify(self.z)
        if z3.is_int_value(z):
            return str(z.as_long())
        return "\u27eaint\u27eb"

    __repr__ = __str__

    def __format__(self, spec):
        return str(self)


# -------------------------------------------------------------------- exploration
def explore(fn, prefixes=((),), seconds=None, on_path=None, max_paths=None):
    """Run fn(ctx) on every feasible path below the given decision prefixes.
    Returns the prefixes that were not explored because the time slice ran out."""
    global CUR
    stack = [list(p) for p in prefixes]
    t0 = time.time()
    n = 0
    while stack:
        if (seconds is not None and time.time() - t0 > seconds) or (max_paths is not None and n >= max_paths):
            return stack
        p = stack.pop()
        ctx = Ctx(p)
        CUR = ctx
        try:
            try:
                fn(ctx)
            except Exception:
                if ctx.steered is None:
                    raise
            if ctx.steered is not None:
                raise ctx.steered
            STATS.paths += 1
            n += 1
        except Infeasible:
            STATS.infeasible += 1
        except Limit as e:
            raise Inconclusive("bound exceeded: %s" % e)
        except Unsupported as e:
            raise Inconclusive("unsupported: %s" % e)
        finally:
            CUR = None
        STATS.maxdepth = max(STATS.maxdepth, len(ctx.decisions))
        stack.extend(ctx.pending)
    return []
