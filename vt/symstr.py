"""Symbolic strings: a fixed number of characters per path, each a symbolic code point with an interval domain.
Character-class tests fork on the domain (exact interval arithmetic); once conditions relating several characters exist
(numbers, equalities), z3 decides feasibility.  Includes a backtracking matcher for the full `re` syntax tree, with Python's
priorities, and models of int(), Decimal and bytes.fromhex."""
import builtins
import re as _re
import sys
import types
import unicodedata
from bisect import bisect_right

import z3

from . import engine as E
from .engine import SymInt, SymBool, Unsupported

_parser = _re._parser
_compiler = _re._compiler
_c = _re._constants

MAXCP = 0x10FFFF
ALL = ((0, MAXCP),)


# ------------------------------------------------------------------ interval sets
def norm(iv):
    out = []
    for a, b in sorted(iv):
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(b, out[-1][1]))
        else:
            out.append((a, b))
    return tuple(out)


def inter(x, y):
    out = []
    i = j = 0
    while i < len(x) and j < len(y):
        a, b = max(x[i][0], y[j][0]), min(x[i][1], y[j][1])
        if a <= b:
            out.append((a, b))
        if x[i][1] < y[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def compl(x):
    out = []
    p = 0
    for a, b in x:
        if p < a:
            out.append((p, a - 1))
        p = b + 1
    if p <= MAXCP:
        out.append((p, MAXCP))
    return tuple(out)


def shift(x, d):
    return inter(tuple((a + d, b + d) for a, b in x), ALL) if d else x


def member(x, v):
    i = bisect_right(x, (v, MAXCP + 1)) - 1
    return i >= 0 and x[i][0] <= v <= x[i][1]


def fromchars(s):
    return norm([(ord(c), ord(c)) for c in s])


def pred_set(f, hi=MAXCP):
    out = []
    st = None
    for c in range(hi + 1):
        if f(chr(c)):
            if st is None:
                st = c
        elif st is not None:
            out.append((st, c - 1))
            st = None
    if st is not None:
        out.append((st, hi))
    return tuple(out)


_SETS = {}


def named(name):
    if name not in _SETS:
        f = {"space": str.isspace, "digit": lambda c: unicodedata.category(c) == "Nd", "alnum": str.isalnum, "alpha": str.isalpha,
             "isdigit": str.isdigit, "numeric": str.isnumeric, "upper": str.isupper, "lower": str.islower,
             "lowerchg": lambda c: c.lower() != c, "upperchg": lambda c: c.upper() != c,
             "casechg": lambda c: c.casefold() != c, "surrogate": lambda c: 0xD800 <= ord(c) <= 0xDFFF}[name]
        _SETS[name] = pred_set(f)
    return _SETS[name]


ASCII_DIGITS = ((48, 57),)


def zin(z, s):
    """z3: code point z lies in interval set s."""
    return z3.Or([z == a if a == b else z3.And(z >= a, z <= b) for a, b in s]) if s else z3.BoolVal(False)


# ------------------------------------------------------------------ characters
class SymChar:
    """A variable code point plus a constant offset."""
    __slots__ = ("name", "v", "off")

    def __init__(self, name, off=0, v=None):
        self.name = name
        self.v = v if v is not None else z3.Int(name)
        self.off = off

    @property
    def z(self):
        return self.v + self.off if self.off else self.v

    def shifted(self, d):
        return SymChar(self.name, self.off + d, self.v)

    def dom(self):
        return shift(E.CUR.notes["cdom"][self.name], self.off)


def newchar(ctx, name, dom=ALL):
    d = ctx.notes.setdefault("cdom", {})
    if name not in d:
        d[name] = dom
        c = zin(z3.Int(name), dom)
        ctx.pc.append(c)
    return SymChar(name)


def isin(ch, s):
    """Branch: the character lies in the interval set."""
    if isinstance(ch, int):
        return member(s, ch)
    ctx = E.CUR
    d = ch.dom()
    y = inter(d, s)
    if not y:
        return False
    n = inter(d, compl(s))
    if not n:
        return True
    zc = zin(ch.z, y)
    if ctx.forced():
        v = ctx.prefix[ctx.pos]
        ctx.pos += 1
        ctx.decisions.append(v)
    elif ctx.hard:
        t, f = ctx.sat(zc), ctx.sat(z3.Not(zc))
        if not t and not f:
            raise E.Infeasible()
        if t and f:
            v = ctx.choose(2)
        else:
            v = 0 if t else 1
            ctx.pos += 1
            ctx.decisions.append(v)
    else:
        v = ctx.choose(2)
    ctx.notes["cdom"][ch.name] = shift(y if v == 0 else n, -ch.off)
    ctx.pc.append(zc if v == 0 else z3.Not(zc))
    return v == 0


def chareq(a, b):
    if isinstance(a, int):
        if isinstance(b, int):
            return a == b
        return isin(b, ((a, a),))
    if isinstance(b, int):
        return isin(a, ((b, b),))
    if a.name == b.name:
        return a.off == b.off
    if not inter(a.dom(), b.dom()):
        return False
    return E.CUR.branch(a.z == b.z)


def zchar(c):
    return z3.IntVal(c) if isinstance(c, int) else c.z


# ------------------------------------------------------------------ strings
class StrBase:
    pass


def lift(x):
    if isinstance(x, SymStr):
        return x
    if builtins.isinstance(x, str):
        return SymStr([ord(c) for c in x])
    raise TypeError("expected str")


def isstr(x):
    return builtins.isinstance(x, (str, SymStr)) and type(x) is not E.Term


def lower_result(s):
    """Plain str when constant."""
    if all(isinstance(c, int) for c in s.chars):
        return "".join(chr(c) for c in s.chars)
    return s


def mk(chars):
    return lower_result(SymStr(chars))


class SymStr(E.StrBase):
    __slots__ = ("chars", "tok")

    def __init__(self, chars):
        self.chars = list(chars)
        self.tok = None

    def __len__(self):
        return len(self.chars)

    def __bool__(self):
        return len(self.chars) > 0

    def __iter__(self):
        for c in self.chars:
            yield mk([c])

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(*[x if x is None else x.__index__() for x in (i.start, i.stop, i.step)])
            return mk(self.chars[i])
        return mk([self.chars[i.__index__()]])

    def __add__(self, o):
        if not isstr(o):
            return NotImplemented
        return mk(self.chars + lift(o).chars)

    def __radd__(self, o):
        if not isstr(o):
            return NotImplemented
        return mk(lift(o).chars + self.chars)

    def __mul__(self, n):
        return mk(self.chars * n)

    __rmul__ = __mul__

    def __eq__(self, o):
        if type(o) is E.Term:
            return False
        if not isstr(o):
            return False
        o = lift(o)
        if len(o.chars) != len(self.chars):
            return False
        return all(chareq(a, b) for a, b in zip(self.chars, o.chars))

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        raise Unsupported("hash of a symbolic string")

    def _order(self, o):
        o = lift(o)
        for a, b in zip(self.chars, o.chars):
            if not chareq(a, b):
                if isinstance(a, int) and isinstance(b, int):
                    return -1 if a < b else 1
                return -1 if E.CUR.branch(zchar(a) < zchar(b)) else 1
        return (len(self.chars) > len(o.chars)) - (len(self.chars) < len(o.chars))

    def __lt__(self, o):
        return self._order(o) < 0

    def __gt__(self, o):
        return self._order(o) > 0

    def __le__(self, o):
        return self._order(o) <= 0

    def __ge__(self, o):
        return self._order(o) >= 0

    def __contains__(self, sub):
        return self.find(sub) >= 0

    def __str__(self):
        if self.tok is None:
            t = E.CUR.notes.setdefault("strtok", [])
            t.append(self)
            self.tok = "\u27ec%d\u27ed" % (len(t) - 1)
        return self.tok

    __repr__ = __str__

    def __format__(self, spec):
        return str(self)

    def __mod__(self, o):
        raise Unsupported("% on a symbolic string")

    # ---- str methods
    def _at(self, sub, i):
        return i + len(sub.chars) <= len(self.chars) and all(chareq(a, b) for a, b in zip(self.chars[i:], sub.chars))

    def _rng(self, start, end):
        n = len(self.chars)
        s, e, _ = slice(start, end).indices(n)
        return s, e

    def find(self, sub, start=None, end=None):
        sub = lift(sub)
        s, e = self._rng(start, end)
        for i in range(s, e - len(sub) + 1):
            if self._at(sub, i):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        sub = lift(sub)
        s, e = self._rng(start, end)
        for i in range(e - len(sub), s - 1, -1):
            if self._at(sub, i):
                return i
        return -1

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rindex(self, sub, *a):
        i = self.rfind(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, sub, start=None, end=None):
        sub = lift(sub)
        s, e = self._rng(start, end)
        if not sub.chars:
            return e - s + 1
        n = 0
        i = s
        while i <= e - len(sub):
            if self._at(sub, i):
                n += 1
                i += len(sub)
            else:
                i += 1
        return n

    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return any(self.startswith(q, start, end) for q in p)
        s, e = self._rng(start, end)
        return SymStr(self.chars[s:e])._at(lift(p), 0)

    def endswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return any(self.endswith(q, start, end) for q in p)
        s, e = self._rng(start, end)
        x = SymStr(self.chars[s:e])
        p = lift(p)
        return len(p) <= len(x) and x._at(p, len(x) - len(p))

    def replace(self, old, new, count=-1):
        old, new = lift(old), lift(new)
        if not old.chars:
            raise Unsupported("replace of the empty string")
        out = []
        i = 0
        while i < len(self.chars):
            if count != 0 and self._at(old, i):
                out += new.chars
                i += len(old)
                count -= 1
            else:
                out.append(self.chars[i])
                i += 1
        return mk(out)

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else mk(self.chars)

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if len(p) and self.endswith(p) else mk(self.chars)

    def _strip(self, chars, left, right):
        s = named("space") if chars is None else None
        if s is None:
            cs = lift(chars).chars
            if all(isinstance(c, int) for c in cs):
                s = norm([(c, c) for c in cs])
            else:
                raise Unsupported("strip with symbolic characters")
        a, b = 0, len(self.chars)
        if left:
            while a < b and isin(self.chars[a], s):
                a += 1
        if right:
            while b > a and isin(self.chars[b - 1], s):
                b -= 1
        return mk(self.chars[a:b])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def split(self, sep=None, maxsplit=-1):
        out = []
        if sep is None:
            cur = []
            sp = named("space")
            i = 0
            n = len(self.chars)
            while i < n:
                if isin(self.chars[i], sp):
                    if cur:
                        out.append(mk(cur))
                        cur = []
                    i += 1
                    continue
                if maxsplit >= 0 and not cur and len(out) >= maxsplit:
                    rest = mk(self.chars[i:])
                    out.append(rest)
                    return out
                cur.append(self.chars[i])
                i += 1
            if cur:
                out.append(mk(cur))
            return out
        sep = lift(sep)
        if not sep.chars:
            raise ValueError("empty separator")
        cur = []
        i = 0
        while i < len(self.chars):
            if maxsplit != 0 and self._at(sep, i):
                out.append(mk(cur))
                cur = []
                i += len(sep)
                maxsplit -= 1
            else:
                cur.append(self.chars[i])
                i += 1
        out.append(mk(cur))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            raise Unsupported("rsplit(None, n)")
        sep = lift(sep)
        out = []
        end = len(self.chars)
        while maxsplit != 0:
            i = SymStr(self.chars[:end]).rfind(sep)
            if i < 0:
                break
            out.insert(0, mk(self.chars[i + len(sep):end]))
            end = i
            maxsplit -= 1
        out.insert(0, mk(self.chars[:end]))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return mk(self.chars), "", ""
        return mk(self.chars[:i]), sep, mk(self.chars[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return "", "", mk(self.chars)
        return mk(self.chars[:i]), sep, mk(self.chars[i + len(sep):])

    def splitlines(self, keepends=False):
        brk = fromchars("\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029")
        out, cur = [], []
        i = 0
        while i < len(self.chars):
            c = self.chars[i]
            if isin(c, brk):
                j = i + 1
                if isin(c, ((13, 13),)) and j < len(self.chars) and isin(self.chars[j], ((10, 10),)):
                    j += 1
                out.append(mk(cur + (self.chars[i:j] if keepends else [])))
                cur = []
                i = j
            else:
                cur.append(c)
                i += 1
        if cur:
            out.append(mk(cur))
        return out

    def _case(self, asc, delta, chg):
        out = []
        for c in self.chars:
            if isinstance(c, int):
                out += [ord(x) for x in (chr(c).lower() if delta > 0 else chr(c).upper())]
            elif isin(c, asc):
                out.append(c.shifted(delta))
            elif isin(c, named(chg)):
                raise Unsupported("case mapping of a non-ASCII letter")
            else:
                out.append(c)
        return mk(out)

    def lower(self):
        return self._case(((65, 90),), 32, "lowerchg")

    def casefold(self):
        return self._case(((65, 90),), 32, "casechg")

    def upper(self):
        return self._case(((97, 122),), -32, "upperchg")

    def _all(self, name):
        return len(self.chars) > 0 and all(isin(c, named(name)) for c in self.chars)

    def isdigit(self):
        return self._all("isdigit")

    def isdecimal(self):
        return self._all("digit")

    def isnumeric(self):
        return self._all("numeric")

    def isalnum(self):
        return self._all("alnum")

    def isalpha(self):
        return self._all("alpha")

    def isspace(self):
        return self._all("space")

    def isascii(self):
        return all(isin(c, ((0, 127),)) for c in self.chars)

    def islower(self):
        cased = False
        for c in self.chars:
            if isin(c, named("upper")):
                return False
            cased = isin(c, named("lower")) or cased
        return cased

    def isupper(self):
        cased = False
        for c in self.chars:
            if isin(c, named("lower")):
                return False
            cased = isin(c, named("upper")) or cased
        return cased

    def ljust(self, n, fill=" "):
        return mk(self.chars + lift(fill).chars * max(0, n - len(self.chars)))

    def rjust(self, n, fill=" "):
        return mk(lift(fill).chars * max(0, n - len(self.chars)) + self.chars)

    def zfill(self, n):
        if self.chars and isin(self.chars[0], fromchars("+-")):
            return mk([self.chars[0]] + [48] * max(0, n - len(self.chars)) + self.chars[1:])
        return mk([48] * max(0, n - len(self.chars)) + self.chars)

    def join(self, it):
        out = []
        for k, x in enumerate(it):
            if k:
                out += self.chars
            if not isstr(x):
                raise TypeError("sequence item: expected str instance")
            out += lift(x).chars
        return mk(out)

    def encode(self, encoding="utf-8", errors="strict"):
        if str(encoding).lower().replace("-", "").replace("_", "") not in ("utf8", "ascii", "latin1", "iso88591"):
            raise Unsupported("encode " + encoding)
        lim = {"utf8": 127, "ascii": 127}.get(str(encoding).lower().replace("-", "").replace("_", ""), 255)
        out = []
        for c in self.chars:
            if not isin(c, ((0, lim),)):
                if lim == 127 and str(encoding).lower().startswith("utf"):
                    raise Unsupported("utf-8 encoding of non-ASCII")
                raise UnicodeEncodeError("ascii", "x", 0, 1, "ordinal not in range")
            out.append(c)
        b = SymBytes(out)
        b.src = self
        return b

    def translate(self, table):
        if not builtins.isinstance(table, dict) or len(table) > 64:
            raise Unsupported("translate")
        out = []
        for c in self.chars:
            for k, v in table.items():
                if isin(c, ((k, k),)):
                    out += [] if v is None else [v] if builtins.isinstance(v, int) else lift(v).chars
                    break
            else:
                out.append(c)
        return mk(out)

    def format(self, *a, **k):
        raise Unsupported("format on symbolic")

    def maketrans(self, *a):
        raise Unsupported("maketrans")


def evalstr(s, m):
    """The concrete string under a model."""
    if builtins.isinstance(s, str):
        return s
    return "".join(chr(c if isinstance(c, int) else m.eval(c.z, model_completion=True).as_long()) for c in s.chars)


# ------------------------------------------------------------------ regular expressions
_ALLCHARS = None
_NODESETS = {}


def allchars():
    global _ALLCHARS
    if _ALLCHARS is None:
        _ALLCHARS = "".join(map(chr, range(MAXCP + 1)))
    return _ALLCHARS


def nodeset(node, flags):
    """The exact set of code points a single-character node matches (by running the real engine over every code point)."""
    flags &= ~_re.DEBUG
    key = (repr(node), flags & (_re.I | _re.A | _re.S | _re.L))
    r = _NODESETS.get(key)
    if r is None:
        st = _parser.State()
        st.flags = flags | (0 if flags & _re.A else _re.U)
        st.str = ""
        sp = _parser.SubPattern(st, [(_c.MAX_REPEAT, (1, _c.MAXREPEAT, _parser.SubPattern(st, [node])))])
        p = _compiler.compile(sp, st.flags)
        r = _NODESETS[key] = norm([(m.start(), m.end() - 1) for m in p.finditer(allchars())])
    return r


INF = float("inf")
_WIDTH = {}


class Matcher:
    def __init__(self, s, tree, flags):
        self.chars = s.chars
        self.n = len(s.chars)
        self.tree = tree
        self.flags = flags
        self.steps = 0
        self.full = False

    def width(self, nodes, i):
        key = (id(nodes), i)
        r = _WIDTH.get(key)
        if r is None:
            lo, hi = _parser.SubPattern(self.tree.state, list(nodes[i:])).getwidth()
            r = _WIDTH[key] = (lo, INF if hi >= _c.MAXREPEAT else hi, nodes)
        return r

    def seq(self, nodes, i, pos, g, fl, k, kw):
        """Match nodes[i:] at pos, then continuation k(pos, groups), which matches between kw[0] and kw[1] characters."""
        self.steps += 1
        if self.steps > 200000:
            raise E.Limit("regex steps")
        if i == len(nodes):
            return k(pos, g)
        lo, hi, _ = self.width(nodes, i)
        # no match can exist when the rest of the pattern is too long or too short for the rest of the string
        if pos + lo + kw[0] > self.n or (self.full and pos + hi + kw[1] < self.n):
            return None
        op, av = nodes[i]
        lo, hi, _ = self.width(nodes, i + 1)
        nw = (lo + kw[0], hi + kw[1])
        fits = lambda p: p + nw[0] <= self.n and (not self.full or p + nw[1] >= self.n)
        nxt = lambda p, gg: self.seq(nodes, i + 1, p, gg, fl, k, kw)
        if op in (_c.LITERAL, _c.NOT_LITERAL, _c.ANY, _c.IN):
            if pos < self.n and isin(self.chars[pos], nodeset((op, av), fl)):
                return nxt(pos + 1, g)
            return None
        if op is _c.BRANCH:
            for alt in av[1]:
                r = self.seq(alt.data, 0, pos, g, fl, nxt, nw)
                if r is not None:
                    return r
            return None
        if op is _c.SUBPATTERN:
            grp, add, dele, p = av
            f2 = (fl | add) & ~dele
            if grp is None:
                return self.seq(p.data, 0, pos, g, f2, nxt, nw)
            return self.seq(p.data, 0, pos, g, f2, lambda e, gg: nxt(e, {**gg, grp: (pos, e)}), nw)
        if op is _c.ATOMIC_GROUP:
            r = self.sub(av.data, pos, g, fl, lambda e, gg: (e, gg))
            return None if r is None else nxt(*r)
        if op in (_c.MAX_REPEAT, _c.MIN_REPEAT, _c.POSSESSIVE_REPEAT):
            lo, hi, p = av
            if op is _c.MAX_REPEAT:
                # iterate single-character bodies, most repeats are of that form
                if len(p.data) == 1 and p.data[0][0] in (_c.LITERAL, _c.NOT_LITERAL, _c.ANY, _c.IN):
                    st = nodeset(p.data[0], fl)
                    e = pos
                    cnt = 0
                    while (hi is _c.MAXREPEAT or cnt < hi) and e < self.n and isin(self.chars[e], st):
                        e += 1
                        cnt += 1
                    while cnt >= lo:
                        r = nxt(e, g) if fits(e) else None
                        if r is not None:
                            return r
                        e -= 1
                        cnt -= 1
                    return None
                return self.rep(p.data, lo, hi, 0, pos, g, fl, nxt, -1, nw)
            if op is _c.POSSESSIVE_REPEAT:
                r = self.sub(p.data, pos, g, fl, lambda e, gg: (e, gg), (lo, hi))
                return None if r is None else nxt(*r)
            return self.minrep(p.data, lo, hi, 0, pos, g, fl, nxt, -1, nw)
        if op is _c.AT:
            if av in (_c.AT_BEGINNING, _c.AT_BEGINNING_STRING):
                ok = pos == 0
                if not ok and av is _c.AT_BEGINNING and fl & _re.M:
                    ok = isin(self.chars[pos - 1], ((10, 10),))
            elif av is _c.AT_END_STRING:
                ok = pos == self.n
            elif av is _c.AT_END:
                ok = pos == self.n or (pos == self.n - 1 and isin(self.chars[pos], ((10, 10),)))
                if not ok and fl & _re.M:
                    ok = isin(self.chars[pos], ((10, 10),))
            elif av in (_c.AT_BOUNDARY, _c.AT_NON_BOUNDARY):
                w = nodeset((_c.IN, [(_c.CATEGORY, _c.CATEGORY_WORD)]), fl)
                a = pos > 0 and isin(self.chars[pos - 1], w)
                b = pos < self.n and isin(self.chars[pos], w)
                ok = (a != b) == (av is _c.AT_BOUNDARY)
            else:
                raise Unsupported("regex anchor %s" % av)
            return nxt(pos, g) if ok else None
        if op in (_c.ASSERT, _c.ASSERT_NOT):
            d, p = av
            if d < 0:
                lo, hi = p.getwidth()
                if lo != hi:
                    raise Unsupported("look-behind width")
                st = pos - lo
                r = None if st < 0 else self.sub(p.data, st, g, fl, lambda e, gg: (e, gg) if e == pos else None)
            else:
                r = self.sub(p.data, pos, g, fl, lambda e, gg: (e, gg))
            if op is _c.ASSERT:
                return None if r is None else nxt(pos, r[1])
            return nxt(pos, g) if r is None else None
        if op is _c.GROUPREF:
            if av not in g:
                return None
            a, b = g[av]
            if fl & _re.I:
                raise Unsupported("case-insensitive back-reference")
            if pos + b - a <= self.n and all(chareq(x, y) for x, y in zip(self.chars[a:b], self.chars[pos:pos + b - a])):
                return nxt(pos + b - a, g)
            return None
        if op is _c.GROUPREF_EXISTS:
            c, yes, no = av
            p = yes if c in g else no
            return self.seq(p.data if p else [], 0, pos, g, fl, nxt, nw)
        raise Unsupported("regex operator %s" % op)

    def sub(self, nodes, pos, g, fl, k, reps=None):
        """A match that need not reach the end of the string (look-around, atomic groups)."""
        full, self.full = self.full, False
        try:
            if reps:
                return self.rep(nodes, reps[0], reps[1], 0, pos, g, fl, k, -1, (0, INF))
            return self.seq(nodes, 0, pos, g, fl, k, (0, INF))
        finally:
            self.full = full

    def inner(self, body, lo, hi, cnt, kw):
        bl, bh, _ = self.width(body, 0)
        return (max(0, lo - cnt - 1) * bl + kw[0], INF if hi is _c.MAXREPEAT or bh == INF else (hi - cnt - 1) * bh + kw[1])

    def rep(self, body, lo, hi, cnt, pos, g, fl, k, last, kw):
        if (hi is _c.MAXREPEAT or cnt < hi) and pos != last:
            r = self.seq(body, 0, pos, g, fl, lambda e, gg: self.rep(body, lo, hi, cnt + 1, e, gg, fl, k, pos if cnt >= lo else -1, kw),
                         self.inner(body, lo, hi, cnt, kw))
            if r is not None:
                return r
        return k(pos, g) if cnt >= lo else None

    def minrep(self, body, lo, hi, cnt, pos, g, fl, k, last, kw):
        if cnt >= lo:
            r = k(pos, g)
            if r is not None:
                return r
        if (hi is _c.MAXREPEAT or cnt < hi) and pos != last:
            return self.seq(body, 0, pos, g, fl, lambda e, gg: self.minrep(body, lo, hi, cnt + 1, e, gg, fl, k, pos if cnt >= lo else -1, kw),
                            self.inner(body, lo, hi, cnt, kw))
        return None

    def run(self, pos, full):
        self.full = full
        end = (lambda e, gg: (e, gg) if e == self.n else None) if full else (lambda e, gg: (e, gg))
        return self.seq(self.tree.data, 0, pos, {}, self.flags, end, (0, 0) if full else (0, INF))


# ---- existence of a match as a formula (no forks), and the match itself by forking on the structure only
_INTERN = {}


class Atom:
    """character in set (hash-consed)"""
    __slots__ = ("ch", "s", "key", "zz")


class Bool:
    __slots__ = ("op", "args", "key", "zz")


def mkatom(ch, s):
    k = (ch.name, ch.off, s)
    x = _INTERN.get(k)
    if x is None:
        x = Atom()
        x.ch, x.s, x.zz = ch, s, None
        x.key = len(_INTERN)
        _INTERN[k] = x
    return x


def mkbool(op, args):
    k = (op,) + tuple(a.key for a in args)
    x = _INTERN.get(k)
    if x is None:
        x = Bool()
        x.op, x.args, x.zz = op, args, None
        x.key = len(_INTERN)
        _INTERN[k] = x
    return x


def f_atom(ch, s):
    if isinstance(ch, int):
        return member(s, ch)
    d = ch.dom()
    y = inter(d, s)
    if not y:
        return False
    if y == d:
        return True
    return mkatom(ch, y)


def f_join(op, xs):
    """and / or with folding; atoms over one character are merged"""
    unit = op == "and"
    out, atoms, seen = [], {}, set()
    todo = list(xs)
    while todo:
        x = todo.pop(0)
        if x is unit:
            continue
        if x is (not unit):
            return not unit
        if isinstance(x, Bool) and x.op == op:
            todo = list(x.args) + todo
            continue
        if isinstance(x, Atom):
            k = (x.ch.name, x.ch.off)
            if k in atoms:
                p = atoms[k]
                atoms[k] = f_atom(x.ch, inter(p.s, x.s) if unit else norm(p.s + x.s))
                if atoms[k] is (not unit):
                    return not unit
                if atoms[k] is unit:
                    del atoms[k]
            else:
                atoms[k] = x
            continue
        if x.key not in seen:
            seen.add(x.key)
            out.append(x)
    out = list(atoms.values()) + out
    if not out:
        return unit
    return out[0] if len(out) == 1 else mkbool(op, out)


def f_not(x):
    if isinstance(x, bool):
        return not x
    if isinstance(x, Atom):
        return f_atom(x.ch, compl(x.s))
    if x.op == "not":
        return x.args[0]
    return mkbool("not", [x])


def f_z3(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if x.zz is None:
        if isinstance(x, Atom):
            x.zz = zin(x.ch.z, x.s)
        elif x.op == "not":
            x.zz = z3.Not(f_z3(x.args[0]))
        else:
            x.zz = (z3.And if x.op == "and" else z3.Or)([f_z3(a) for a in x.args])
    return x.zz


def narrow(x, val):
    """Domains implied by the truth value of x."""
    d = E.CUR.notes["cdom"]
    if isinstance(x, Atom):
        y = inter(x.ch.dom(), x.s if val else compl(x.s))
        if not y:
            raise E.Infeasible()
        d[x.ch.name] = shift(y, -x.ch.off)
    elif isinstance(x, Bool):
        if x.op == "not":
            narrow(x.args[0], not val)
        elif (x.op == "and") == val:
            for a in x.args:
                narrow(a, val)


def decide(x):
    """Branch on a formula."""
    if isinstance(x, bool):
        return x
    if isinstance(x, Atom):
        return isin(x.ch, x.s)
    r = E.CUR.branch(f_z3(x))
    narrow(x, r)
    return r


_SETAT = {}


class Guided:
    """Backtracking order with the outcome of every alternative decided as one formula."""

    def __init__(self, s, tree, flags):
        self.chars, self.n, self.tree, self.flags = s.chars, len(s.chars), tree, flags
        self.memo = {}
        self.keep = []
        self.steps = 0

    @staticmethod
    def able(nodes):
        for op, av in nodes:
            if op in (_c.ATOMIC_GROUP, _c.POSSESSIVE_REPEAT, _c.GROUPREF, _c.GROUPREF_EXISTS):
                return False
            if op is _c.BRANCH and not all(Guided.able(a.data) for a in av[1]):
                return False
            if op is _c.SUBPATTERN and not Guided.able(av[3].data):
                return False
            if op in (_c.MAX_REPEAT, _c.MIN_REPEAT) and not Guided.able(av[2].data):
                return False
            if op in (_c.ASSERT, _c.ASSERT_NOT):
                if not Guided.able(av[1].data) or (op is _c.ASSERT and "SUBPATTERN" in repr(av[1].data) and _grouped(av[1].data)):
                    return False
        return True

    # continuations: ("seq", nodes, i, flags, K) | ("rep", body, lo, hi, cnt, flags, greedy, last, K) | ("grp", g, start, K) | ("end", where)
    def key(self, K):
        if K[0] == "seq":
            return ("s", id(K[1]), K[2], K[3]) + self.key(K[4])
        if K[0] == "rep":
            return ("r", id(K[1])) + K[2:8] + self.key(K[8])
        if K[0] == "grp":
            return self.key(K[3])
        return K

    def f(self, K, pos):
        k = (pos, self.key(K))
        r = self.memo.get(k)
        if r is None:
            self.steps += 1
            if self.steps > 40000:
                raise E.Limit("regex steps")
            r = self.memo[k] = self._f(K, pos)
        return r

    @staticmethod
    def set_at(nodes, i, fl):
        fl = int(fl)
        k = (id(nodes), i, fl)
        r = _SETAT.get(k)
        if r is None:
            r = _SETAT[k] = (nodeset(nodes[i], fl), nodes)
        return r[0]

    def at(self, av, fl, pos):
        nl = ((10, 10),)
        ch = lambda p, s: f_atom(self.chars[p], s) if 0 <= p < self.n else False
        if av in (_c.AT_BEGINNING, _c.AT_BEGINNING_STRING):
            return True if pos == 0 else ch(pos - 1, nl) if av is _c.AT_BEGINNING and fl & _re.M else False
        if av is _c.AT_END_STRING:
            return pos == self.n
        if av is _c.AT_END:
            return True if pos == self.n else ch(pos, nl) if pos == self.n - 1 or fl & _re.M else False
        if av in (_c.AT_BOUNDARY, _c.AT_NON_BOUNDARY):
            w = nodeset((_c.IN, [(_c.CATEGORY, _c.CATEGORY_WORD)]), fl)
            a, b = ch(pos - 1, w), ch(pos, w)
            x = f_join("or", [f_join("and", [a, f_not(b)]), f_join("and", [f_not(a), b])])
            return x if av is _c.AT_BOUNDARY else f_not(x)
        raise Unsupported("regex anchor %s" % av)

    def look(self, op, av, fl, pos):
        d, p = av
        if d < 0:
            lo, hi = p.getwidth()
            if lo != hi:
                raise Unsupported("look-behind width")
            x = self.f(("seq", p.data, 0, fl, ("end", pos)), pos - lo) if pos >= lo else False
        else:
            x = self.f(("seq", p.data, 0, fl, ("end", None)), pos)
        return x if op is _c.ASSERT else f_not(x)

    def _f(self, K, pos):
        t = K[0]
        if t == "end":
            return K[1] is None or pos == K[1]
        if t == "grp":
            return self.f(K[3], pos)
        if t == "rep":
            return f_join("or", [self.f(k, pos) for k in self.options(K, pos)])
        _, nodes, i, fl, K2 = K
        if i == len(nodes):
            return self.f(K2, pos)
        op, av = nodes[i]
        nx = ("seq", nodes, i + 1, fl, K2)
        if op in (_c.LITERAL, _c.NOT_LITERAL, _c.ANY, _c.IN):
            a = f_atom(self.chars[pos], self.set_at(nodes, i, fl)) if pos < self.n else False
            return False if a is False else f_join("and", [a, self.f(nx, pos + 1)])
        if op is _c.AT:
            a = self.at(av, fl, pos)
            return False if a is False else f_join("and", [a, self.f(nx, pos)])
        if op in (_c.ASSERT, _c.ASSERT_NOT):
            a = self.look(op, av, fl, pos)
            return False if a is False else f_join("and", [a, self.f(nx, pos)])
        return f_join("or", [self.f(k, pos) for k in self.expand(op, av, fl, nx, pos)])

    def options(self, K, pos):
        """Continuations of a repeat, in order of priority."""
        _, body, lo, hi, cnt, fl, greedy, last, K2 = K
        more = []
        if (hi is None or cnt < hi) and pos != last:
            c2 = cnt + 1 if hi is not None or cnt < lo else cnt
            more = [("seq", body, 0, fl, ("rep", body, lo, hi, c2, fl, greedy, pos if cnt >= lo else -1, K2))]
        stop = [K2] if cnt >= lo else []
        return more + stop if greedy else stop + more

    def expand(self, op, av, fl, nx, pos):
        if op is _c.BRANCH:
            return [("seq", a.data, 0, fl, nx) for a in av[1]]
        if op is _c.SUBPATTERN:
            grp, add, dele, p = av
            return [("seq", p.data, 0, (fl | add) & ~dele, ("grp", grp, pos, nx))]
        if op in (_c.MAX_REPEAT, _c.MIN_REPEAT):
            lo, hi, p = av
            return self.options(("rep", p.data, lo, None if hi is _c.MAXREPEAT else hi, 0, fl, op is _c.MAX_REPEAT, -1, nx), pos)
        raise Unsupported("regex operator %s" % op)

    def run(self, pos, full):
        K = ("seq", self.tree.data, 0, self.flags, ("end", self.n if full else None))
        if not decide(self.f(K, pos)):
            return None
        g = {}
        while True:
            t = K[0]
            if t == "end":
                return pos, g
            if t == "grp":
                if K[1] is not None:
                    g[K[1]] = (K[2], pos)
                K = K[3]
                continue
            if t == "rep":
                K = self.pick(self.options(K, pos), pos)
                continue
            _, nodes, i, fl, K2 = K
            if i == len(nodes):
                K = K2
                continue
            op, av = nodes[i]
            nx = ("seq", nodes, i + 1, fl, K2)
            if op in (_c.LITERAL, _c.NOT_LITERAL, _c.ANY, _c.IN):
                ch = self.chars[pos]
                if not isinstance(ch, int):
                    # implied by the formula just decided
                    narrow(mkatom(ch, self.set_at(nodes, i, fl)), True)
                pos += 1
                K = nx
            elif op in (_c.AT, _c.ASSERT, _c.ASSERT_NOT):
                K = nx
            else:
                K = self.pick(self.expand(op, av, fl, nx, pos), pos)

    def pick(self, opts, pos):
        for k in opts[:-1]:
            # the domains may be narrower by now
            self.memo = {}
            if decide(self.f(k, pos)):
                return k
        return opts[-1]


def _grouped(nodes):
    for op, av in nodes:
        if op is _c.SUBPATTERN and (av[0] is not None or _grouped(av[3].data)):
            return True
        if op is _c.BRANCH and any(_grouped(a.data) for a in av[1]):
            return True
        if op in (_c.MAX_REPEAT, _c.MIN_REPEAT) and _grouped(av[2].data):
            return True
    return False


class SymMatch:
    def __init__(self, pat, s, pos, end, groups):
        self.re, self.string, self._p, self._e, self._g = pat, s, pos, end, dict(groups)
        self._g[0] = (pos, end)
        self.pos, self.endpos = 0, len(s)
        self.lastindex = max([x for x in groups], default=None)

    def _idx(self, k):
        if isinstance(k, str):
            return self.re.groupindex[k]
        if k < 0 or k > self.re.groups:
            raise IndexError("no such group")
        return k

    def _one(self, k, default=None):
        k = self._idx(k)
        if k not in self._g:
            return default
        a, b = self._g[k]
        return self.string[a:b]

    def group(self, *ks):
        if not ks:
            return self._one(0)
        if len(ks) == 1:
            return self._one(ks[0])
        return tuple(self._one(k) for k in ks)

    __getitem__ = _one

    def groups(self, default=None):
        return tuple(self._one(k, default) for k in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: self._one(i, default) for n, i in self.re.groupindex.items()}

    def span(self, k=0):
        return self._g.get(self._idx(k), (-1, -1))

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]

    def __bool__(self):
        return True


class SymPattern:
    def __init__(self, real):
        self.real = real
        self.pattern, self.flags, self.groups, self.groupindex = real.pattern, real.flags, real.groups, dict(real.groupindex)
        self.tree = None
        self.guided = None

    def _m(self, s, pos, full):
        if self.tree is None:
            self.tree = _parser.parse(self.real.pattern, self.real.flags & ~_re.U | (self.real.flags & _re.U))
        if self.guided is None:
            self.guided = Guided.able(self.tree.data)
        r = (Guided if self.guided else Matcher)(s, self.tree, self.real.flags).run(pos, full)
        return None if r is None else SymMatch(self, s, pos, r[0], r[1])

    def match(self, s, *a):
        if not isinstance(s, SymStr):
            return self.real.match(s, *a)
        return self._m(s, a[0] if a else 0, False)

    def fullmatch(self, s, *a):
        if not isinstance(s, SymStr):
            return self.real.fullmatch(s, *a)
        return self._m(s, a[0] if a else 0, True)

    def search(self, s, *a):
        if not isinstance(s, SymStr):
            return self.real.search(s, *a)
        for i in range(a[0] if a else 0, len(s) + 1):
            m = self._m(s, i, False)
            if m is not None:
                return m
        return None

    def finditer(self, s, *a):
        if not isinstance(s, SymStr):
            yield from self.real.finditer(s, *a)
            return
        i = 0
        while i <= len(s):
            m = self.search(s, i)
            if m is None:
                return
            yield m
            i = m.end() if m.end() > m.start() else m.end() + 1

    def findall(self, s, *a):
        if not isinstance(s, SymStr):
            return self.real.findall(s, *a)
        out = []
        for m in self.finditer(s):
            out.append(m.group() if not self.groups else m.group(1) if self.groups == 1 else m.groups(""))
        return out

    def sub(self, repl, s, count=0):
        if not isinstance(s, SymStr):
            return self.real.sub(repl, s, count)
        out = []
        p = 0
        for m in self.finditer(s):
            out += s.chars[p:m.start()]
            r = repl(m) if callable(repl) else repl
            if builtins.isinstance(r, str) and not callable(repl) and "\\" in r:
                raise Unsupported("replacement template")
            out += lift(r).chars
            p = m.end()
            count -= 1
            if count == 0:
                break
        return mk(out + s.chars[p:])

    def split(self, s, maxsplit=0):
        if not isinstance(s, SymStr):
            return self.real.split(s, maxsplit)
        out = []
        p = 0
        for m in self.finditer(s):
            out.append(s[p:m.start()])
            out += list(m.groups())
            p = m.end()
            maxsplit -= 1
            if maxsplit == 0:
                break
        out.append(s[p:])
        return out


def _pat(p, flags=0):
    if isinstance(p, SymPattern):
        return p
    if isinstance(p, SymStr):
        raise Unsupported("symbolic pattern")
    return SymPattern(_re.compile(p, flags))


def re_module():
    m = types.ModuleType("re")
    for k in dir(_re):
        if not k.startswith("__"):
            setattr(m, k, getattr(_re, k))
    m.compile = _pat
    for f in ("match", "fullmatch", "search", "finditer", "findall"):
        setattr(m, f, lambda p, s, flags=0, f=f: getattr(_pat(p, flags), f)(s))
    m.sub = lambda p, r, s, count=0, flags=0: _pat(p, flags).sub(r, s, count)
    m.split = lambda p, s, maxsplit=0, flags=0: _pat(p, flags).split(s, maxsplit)
    m.escape = _re.escape
    return m


# ------------------------------------------------------------------ numbers from strings
_INT_RE = r"\s*([+\-]?)(\d+(?:_\d+)*)\s*"
_DEC_RE = r"\s*([+\-]?)(?:((?:\d_*)*?)(?:\d_*)*(?:\.(?:\d_*)*)?)\s*"


def digit(c):
    """z3 value of a character known to be a decimal digit."""
    if isinstance(c, int):
        return z3.IntVal(unicodedata.digit(chr(c)))
    if isin(c, ASCII_DIGITS):
        return c.z - 48
    e = z3.IntVal(0)
    for a, b in c.dom():
        for z in range(a - unicodedata.digit(chr(a)), b + 1, 10):
            e = z3.If(z3.And(c.z >= z, c.z <= z + 9), c.z - z, e)
    return e


def digits(chars):
    v = None
    for c in chars:
        d = digit(c)
        v = d if v is None else v * 10 + d
    return v if v is not None else z3.IntVal(0)


def sym_int(s, base=10):
    if base == 16:
        m = _pat(r"\s*([+\-]?)(?:0[xX]_?)?([0-9a-fA-F]+(?:_[0-9a-fA-F]+)*)\s*").fullmatch(s)
        if m is None:
            raise ValueError("invalid literal for int() with base 16")
        v = z3.IntVal(0)
        for c in lift(s_call(m.group(2), "replace", "_", "")).chars:
            v = v * 16 + hexval(c)
        neg = len(m.group(1)) > 0 and m.group(1) == "-"
        return SymInt(z3.simplify(-v if neg else v))
    if base != 10:
        raise Unsupported("int() with base %s" % base)
    m = _pat(_INT_RE).fullmatch(s)
    if m is None:
        raise ValueError("invalid literal for int()")
    body = lift(m.group(2)).replace("_", "") if isinstance(m.group(2), SymStr) else m.group(2).replace("_", "")
    v = digits(lift(body).chars)
    neg = m.group(1)
    if isstr(neg) and len(neg) and neg == "-":
        v = -v
    v = z3.simplify(v)
    return v.as_long() if z3.is_int_value(v) else SymInt(v)


class SymBytes:
    """A byte string of symbolic octets (z3 ints)."""

    src = None  # the text it encodes

    def __init__(self, octets):
        self.o = [z3.IntVal(x) if isinstance(x, int) else x if z3.is_expr(x) else x.z for x in octets]

    def __len__(self):
        return len(self.o)

    def __eq__(self, o):
        if builtins.isinstance(o, (bytes, bytearray)):
            o = SymBytes(list(o))
        if not isinstance(o, SymBytes) or len(o.o) != len(self.o):
            return False
        return all(E.CUR.branch(a == b) for a, b in zip(self.o, o.o))

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        raise Unsupported("hash of symbolic bytes")

    def __iter__(self):
        return (SymInt(x) for x in self.o)

    def __getitem__(self, i):
        return SymBytes(self.o[i]) if isinstance(i, slice) else SymInt(self.o[i])


def hexval(c):
    """z3 value of a character known to be a hexadecimal digit."""
    if isinstance(c, int):
        return z3.IntVal(int(chr(c), 16))
    return z3.If(c.z <= 57, c.z - 48, z3.If(c.z <= 70, c.z - 55, c.z - 87))


HEX = norm([(48, 57), (65, 70), (97, 102)])
BSPACE = fromchars(" \t\n\r\x0b\x0c")


def fromhex(s):
    """bytes.fromhex: ASCII white space between octets is skipped."""
    s = lift(s)
    out = []
    i = 0
    n = len(s)
    while i < n:
        if isin(s.chars[i], BSPACE):
            i += 1
            continue
        if not isin(s.chars[i], HEX) or i + 1 >= n or not isin(s.chars[i + 1], HEX):
            raise ValueError("non-hexadecimal number found in fromhex() arg")
        out.append(hexval(s.chars[i]) * 16 + hexval(s.chars[i + 1]))
        i += 2
    return SymBytes(out)


def unhexlify(s):
    s = lift(s)
    if len(s) % 2 or not all(isin(c, HEX) for c in s.chars):
        import binascii
        raise binascii.Error("Non-hexadecimal digit found")
    return SymBytes([hexval(s.chars[i]) * 16 + hexval(s.chars[i + 1]) for i in range(0, len(s), 2)])


B64 = norm([(48, 57), (65, 90), (97, 122), (43, 43), (47, 47)])
PAD = norm([(61, 61)])


def b64val(c):
    """z3 value of a character known to be of the base64 alphabet."""
    if isinstance(c, int):
        return z3.IntVal("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/".index(chr(c)))
    z = c.z
    return z3.If(z >= 97, z - 71, z3.If(z >= 65, z - 65, z3.If(z >= 48, z + 4, z3.If(z == 43, z3.IntVal(62), z3.IntVal(63)))))


def a2b_base64(s, strict=False):
    """binascii.a2b_base64: without strict_mode, characters outside the alphabet are skipped."""
    import binascii
    out, quad, pads, padded = [], 0, 0, False
    left = None
    cs = lift(s).chars
    for i, c in enumerate(cs):
        if isin(c, PAD):
            padded = True
            if strict and i == 0:
                raise binascii.Error("Leading padding not allowed")
            if quad >= 2:
                pads += 1
                if quad + pads >= 4:
                    if strict and i + 1 < len(cs):
                        raise binascii.Error("Excess data after padding")
                    return SymBytes(out)
            continue
        if not isin(c, B64):
            if strict:
                raise binascii.Error("Only base64 data is allowed")
            continue
        if strict and padded:
            raise binascii.Error("Discontinuous padding not allowed")
        pads = 0
        v = b64val(c)
        if quad == 1:
            out.append(left * 4 + v / 16)
            v = v % 16
        elif quad == 2:
            out.append(left * 16 + v / 4)
            v = v % 4
        elif quad == 3:
            out.append(left * 64 + v)
        left = v
        quad = (quad + 1) % 4
    if quad == 1:
        raise binascii.Error("Invalid base64-encoded string")
    if quad:
        raise binascii.Error("Incorrect padding")
    return SymBytes(out)


# ---- fractions of symbolic integers
class SymFrac:
    """n / d, d > 0; not reduced."""

    def __init__(self, n, d):
        self.n, self.d = n, d

    @staticmethod
    def parts(o):
        """(numerator, denominator) of an exact number, or None"""
        import fractions
        if isinstance(o, SymFrac):
            return o.n, o.d
        if isinstance(o, SymInt):
            return o.z, z3.IntVal(1)
        if builtins.isinstance(o, (int, fractions.Fraction)):
            f = fractions.Fraction(o)
            return z3.IntVal(f.numerator), z3.IntVal(f.denominator)
        return None

    def _cmp(self, o, f):
        if isinstance(o, SymDec) or builtins.isinstance(o, float):
            raise Unsupported("comparison of a fraction with a %s" % type(o).__name__)
        p = SymFrac.parts(o)
        if p is None:
            return NotImplemented
        return E.SymBool(f(self.n * p[1], p[0] * self.d))

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __neg__(self):
        return SymFrac(-self.n, self.d)

    def __truediv__(self, o):
        return vFraction(self, o)

    def __mul__(self, o):
        p = SymFrac.parts(o)
        return NotImplemented if p is None else SymFrac(self.n * p[0], self.d * p[1])

    __rmul__ = __mul__

    def __bool__(self):
        return E.CUR.branch(self.n != 0)

    def __hash__(self):
        raise Unsupported("hash of a symbolic fraction")

    def __getattr__(self, k):
        raise Unsupported("Fraction.%s of a symbolic fraction" % k)


class _FractionMeta(type):
    def __instancecheck__(cls, o):
        import fractions
        return builtins.isinstance(o, (fractions.Fraction, SymFrac))

    def __getattr__(cls, k):
        import fractions
        return getattr(fractions.Fraction, k)


class vFraction(metaclass=_FractionMeta):
    """fractions.Fraction"""

    def __new__(cls, n=0, d=None):
        import fractions
        if isinstance(n, SymStr):
            if d is not None:
                raise TypeError("both arguments should be Rational instances")
            m = SymPattern(fractions._RATIONAL_FORMAT).match(n)
            if m is None:
                raise ValueError("Invalid literal for Fraction")
            if m.group("decimal") is not None or m.group("exp") is not None:
                raise Unsupported("Fraction of a decimal numeral")
            v = sym_int(lift(m.group("num") or "0"))
            dn = m.group("denom")
            neg = m.group("sign") is not None and m.group("sign") == "-"
            return vFraction(-v if neg else v, sym_int(lift(dn)) if dn is not None else 1)
        if builtins.isinstance(d, float) or builtins.isinstance(n, float) and d is not None or isinstance(d, SymDec):
            raise TypeError("both arguments should be Rational instances")
        if isinstance(n, SymDec):
            raise Unsupported("Fraction of a symbolic Decimal")
        if not isinstance(n, (SymInt, SymFrac)) and not isinstance(d, (SymInt, SymFrac)):
            return fractions.Fraction(n, d)
        p, q = SymFrac.parts(n), SymFrac.parts(1 if d is None else d)
        if p is None or q is None:
            raise TypeError("both arguments should be Rational instances")
        x, y = p[0] * q[1], p[1] * q[0]
        if d is not None:
            if E.CUR.branch(y == 0):
                raise ZeroDivisionError("Fraction(%s, 0)")
            if E.CUR.branch(y < 0):
                x, y = -x, -y
        return SymFrac(x, y)


def fractions_module():
    import fractions
    m = types.ModuleType("fractions")
    m.__dict__.update({k: getattr(fractions, k) for k in dir(fractions) if not k.startswith("__")})
    m.Fraction = vFraction
    return m


def binascii_module():
    import binascii
    m = types.ModuleType("binascii")
    m.__dict__.update({k: getattr(binascii, k) for k in dir(binascii) if not k.startswith("__")})
    m.unhexlify = m.a2b_hex = lambda s: unhexlify(s) if isinstance(s, SymStr) else binascii.unhexlify(s)

    def a2b(s, *a, strict_mode=False):
        if isinstance(s, SymBytes) and s.src is not None:
            s = s.src
        if not isinstance(s, SymStr):
            return binascii.a2b_base64(s, *a, strict_mode=strict_mode)
        if any(not isin(c, norm([(0, 127)])) for c in s.chars):
            raise ValueError("string argument should contain only ASCII characters")
        return a2b_base64(s, strict_mode)

    m.a2b_base64 = a2b
    return m


def base64_module():
    import base64
    import binascii
    m = types.ModuleType("base64")

    def wrap(name, real):
        def f(s, *a, **k):
            if not isinstance(s, (SymStr, SymBytes)):
                return real(s, *a, **k)
            if name == "b16decode" and isinstance(s, SymStr):
                fold = a[0] if a else k.get("casefold", False)
                if not fold and any(isin(c, norm([(97, 102)])) for c in s.chars):
                    raise binascii.Error("Non-base16 digit found")
                if any(not isin(c, norm([(0, 127)])) for c in s.chars):
                    raise ValueError("string argument should contain only ASCII characters")
                return unhexlify(s)
            if name in ("b64decode", "standard_b64decode", "urlsafe_b64decode", "decodebytes"):
                if isinstance(s, SymBytes):
                    if s.src is None:
                        raise Unsupported("base64.%s of symbolic octets" % name)
                    s = s.src
                elif name == "decodebytes":
                    raise TypeError("expected bytes-like object, not str")
                alt = a[0] if a else k.get("altchars")
                if name == "urlsafe_b64decode":
                    alt = b"-_"
                if alt is not None:
                    s = lift(s).translate({alt[0]: 43, alt[1]: 47} if builtins.isinstance(alt, bytes) else {ord(alt[0]): 43, ord(alt[1]): 47})
                    s = lift(s)
                if any(not isin(c, norm([(0, 127)])) for c in s.chars):
                    raise ValueError("string argument should contain only ASCII characters")
                return a2b_base64(s, a[1] if len(a) > 1 else k.get("validate", False))
            raise Unsupported("base64.%s of a symbolic string" % name)

        return f

    for k in dir(base64):
        if not k.startswith("__"):
            v = getattr(base64, k)
            setattr(m, k, wrap(k, v) if callable(v) and k[:1] != "_" else v)
    return m


# ---- decimal numbers: sign, coefficient (k significant digits once asked), power of ten
class SymDec:
    """A finite decimal number (-1)^neg * coef * 10^exp, or 'inf'/'nan'."""

    def __init__(self, neg, coef, exp, kind="fin"):
        self.neg, self.coef, self.exp, self.kind = neg, coef, exp, kind
        self._k = None
        self.binary = False  # produced by float(): only about 15 significant digits survive

    @staticmethod
    def of(o):
        import decimal
        if isinstance(o, SymDec):
            return o
        if builtins.isinstance(o, bool):
            o = int(o)
        if builtins.isinstance(o, int):
            o = decimal.Decimal(o)
        if builtins.isinstance(o, float):
            o = decimal.Decimal(o)
        if isinstance(o, SymInt):
            neg = E.CUR.branch(o.z < 0)
            return SymDec(neg, -o.z if neg else o.z, z3.IntVal(0))
        if builtins.isinstance(o, decimal.Decimal):
            if o.is_infinite():
                return SymDec(o < 0, None, None, "inf")
            if o.is_nan():
                return SymDec(False, None, None, "nan")
            sg, dg, ex = o.as_tuple()
            return SymDec(bool(sg), z3.IntVal(int("".join(map(str, dg)) or "0")), z3.IntVal(ex))
        return None

    def zero(self):
        return E.CUR.branch(self.coef == 0)

    def k(self):
        """Number of digits of the coefficient (forks)."""
        if self._k is None:
            for j in range(0, 400):
                if E.CUR.branch(self.coef < z3.IntVal(10 ** j)):
                    self._k = j
                    break
            else:
                raise E.Limit("digits of a decimal")
        return self._k

    def cmpabs(self, o):
        """-1, 0, 1 (forks); both finite."""
        if self.zero():
            return 0 if o.zero() else -1
        if o.zero():
            return 1
        a, b = self.k(), o.k()
        ea, eb = self.exp + a, o.exp + b
        if E.CUR.branch(ea < eb):
            return -1
        if E.CUR.branch(ea > eb):
            return 1
        x, y = self.coef * z3.IntVal(10 ** max(0, b - a)), o.coef * z3.IntVal(10 ** max(0, a - b))
        if E.CUR.branch(x == y):
            return 0
        return -1 if E.CUR.branch(x < y) else 1

    def cmp(self, o):
        if self.kind == "inf" or o.kind == "inf":
            v = lambda d: 0 if d.kind != "inf" else (-1 if d.neg else 1)
            return (v(self) > v(o)) - (v(self) < v(o))
        c = self.cmpabs(o)
        if c == 0 and (self.neg == o.neg or self.zero()):
            return 0
        if self.neg != o.neg:
            return -1 if self.neg else 1
        return -c if self.neg else c

    def _rel(self, o, f, nan):
        o = SymDec.of(o)
        if o is None:
            return NotImplemented
        if self.kind == "nan" or o.kind == "nan":
            if nan is None:
                import decimal
                raise decimal.InvalidOperation("comparison involving NaN")
            return nan
        return f(self.cmp(o))

    def __eq__(self, o):
        r = self._rel(o, lambda c: c == 0, False)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._rel(o, lambda c: c != 0, True)
        return True if r is NotImplemented else r

    def __lt__(self, o):
        return self._rel(o, lambda c: c < 0, None)

    def __le__(self, o):
        return self._rel(o, lambda c: c <= 0, None)

    def __gt__(self, o):
        return self._rel(o, lambda c: c > 0, None)

    def __ge__(self, o):
        return self._rel(o, lambda c: c >= 0, None)

    def __hash__(self):
        raise Unsupported("hash of a symbolic decimal")

    def rounded(self):
        """The result of an operation under the default context: 28 digits, half even."""
        if self.kind != "fin" or E.CUR.branch(self.coef < z3.IntVal(10 ** 28)):
            return self
        drop = self.k() - 28
        p = z3.IntVal(10 ** drop)
        q, r = self.coef / p, self.coef % p
        up = z3.Or(2 * r > p, z3.And(2 * r == p, q % 2 == 1))
        return SymDec(self.neg, z3.simplify(z3.If(up, q + 1, q)), z3.simplify(self.exp + drop))

    def __abs__(self):
        return self.copy_abs().rounded()

    def __neg__(self):
        return SymDec(not self.neg, self.coef, self.exp, self.kind).rounded()

    def __pos__(self):
        return self.rounded()

    def __bool__(self):
        return self.kind != "fin" or not self.zero()

    def is_finite(self):
        return self.kind == "fin"

    def is_infinite(self):
        return self.kind == "inf"

    def is_nan(self):
        return self.kind == "nan"

    def is_zero(self):
        return self.kind == "fin" and self.zero()

    def is_signed(self):
        return self.neg

    def copy_abs(self):
        return SymDec(False, self.coef, self.exp, self.kind)

    def copy_negate(self):
        return SymDec(not self.neg, self.coef, self.exp, self.kind)

    def adjusted(self):
        return SymInt(self.exp + max(self.k(), 1) - 1)

    def normalize(self, *a):
        return self.rounded()

    def __str__(self):
        return "\u27eadec\u27eb"

    __repr__ = __str__

    def __format__(self, s):
        return str(self)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("Decimal.%s" % k)


_DEC = (r"\s*(?P<s>[+\-]?)(?:(?P<i>\d+)(?:\.(?P<f>\d*))?|\.(?P<g>\d+))(?:[eE](?P<e>[+\-]?\d+))?\s*")
_DECSP = r"\s*(?P<s>[+\-]?)(?:(?P<inf>[iI][nN][fF](?:[iI][nN][iI][tT][yY])?)|(?P<nan>[sS]?[nN][aA][nN]\d*))\s*"


def parse_number(s, err):
    """Python's numeric string syntax shared by Decimal() and float() (underscores are modelled by removal)."""
    if any(isin(c, ((95, 95),)) for c in s.chars):
        raise Unsupported("underscore in a number")
    m = _pat(_DEC).fullmatch(s)
    if m is None:
        m = _pat(_DECSP).fullmatch(s)
        if m is None:
            raise err
        neg = len(m.group("s")) > 0 and m.group("s") == "-"
        return SymDec(neg, None, None, "inf" if m.group("inf") is not None else "nan")
    neg = len(m.group("s")) > 0 and m.group("s") == "-"
    ip = m.group("i")
    fp = m.group("f") if ip is not None else m.group("g")
    chars = (lift(ip).chars if ip is not None else []) + (lift(fp).chars if fp is not None else [])
    coef = z3.simplify(digits(chars))
    exp = z3.IntVal(-(len(fp) if fp is not None else 0))
    if m.group("e") is not None:
        e = sym_int(m.group("e")) if isinstance(m.group("e"), SymStr) else int(m.group("e"))
        exp = exp + (e.z if isinstance(e, SymInt) else z3.IntVal(e))
    return SymDec(neg, coef, z3.simplify(exp))


def decimal_module():
    import decimal
    m = types.ModuleType("decimal")
    for k in dir(decimal):
        if not k.startswith("__"):
            setattr(m, k, getattr(decimal, k))

    class Meta(type):
        def __instancecheck__(cls, o):
            return builtins.isinstance(o, (decimal.Decimal, SymDec))

        def __getattr__(cls, k):
            return getattr(decimal.Decimal, k)

    class Decimal(metaclass=Meta):
        def __new__(cls, v="0", context=None):
            if isinstance(v, SymStr):
                return parse_number(v, decimal.InvalidOperation("invalid decimal"))
            if isinstance(v, (SymDec, SymInt)):
                return SymDec.of(v)
            return decimal.Decimal(v)

    m.Decimal = Decimal
    return m


# ------------------------------------------------------------------ builtins that look into strings
class _Meta(type):
    def __instancecheck__(cls, o):
        return cls._check(o)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._real)

    def __getattr__(cls, k):
        return getattr(cls._real, k)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __or__(cls, o):
        return object

    __ror__ = __or__


class vint(metaclass=_Meta):
    _real = int
    _check = staticmethod(lambda o: builtins.isinstance(o, (int, SymInt, SymBool)))

    def __new__(cls, v=0, *a, **k):
        if isinstance(v, SymStr):
            return sym_int(v, *a, **k)
        if isinstance(v, SymInt):
            return v
        if isinstance(v, SymDec):
            raise Unsupported("int(Decimal)")
        return int(v, *a, **k)


class vfloat(metaclass=_Meta):
    _real = float
    _check = staticmethod(lambda o: builtins.isinstance(o, float))

    def __new__(cls, v=0.0):
        if isinstance(v, SymStr):
            r = parse_number(v, ValueError("could not convert string to float"))
        elif isinstance(v, (SymDec, SymInt)):
            r = SymDec.of(v)
            r = SymDec(r.neg, r.coef, r.exp, r.kind)
        else:
            return float(v)
        r.binary = True
        return r


class vstr(metaclass=_Meta):
    _real = str
    _check = staticmethod(lambda o: builtins.isinstance(o, (str, SymStr)))

    def __new__(cls, v="", *a, **k):
        if isinstance(v, SymStr):
            return v
        if type(v) is E.Term:
            r = STR_OF(v) if STR_OF is not None else None
            if r is not None:
                return r
        return str(v, *a, **k)

    @staticmethod
    def join(sep, it):
        return s_call(sep, "join", it)


STR_OF = None


class vbytes(metaclass=_Meta):
    _real = bytes
    _check = staticmethod(lambda o: builtins.isinstance(o, (bytes, SymBytes)))

    def __new__(cls, *a, **k):
        if a and isinstance(a[0], SymStr):
            return a[0].encode(*a[1:])
        if a and isinstance(a[0], SymBytes):
            return a[0]
        if a and not builtins.isinstance(a[0], (int, bytes, bytearray, str)):
            items = list(a[0])
            if any(isinstance(x, SymInt) for x in items):
                if not all(x >= 0 and x <= 255 for x in items):
                    raise ValueError("bytes must be in range(0, 256)")
                return SymBytes(items)
            return bytes(items, *a[1:], **k)
        return bytes(*a, **k)

    @staticmethod
    def fromhex(s):
        return fromhex(s) if isinstance(s, SymStr) else bytes.fromhex(s)


class vbytearray(vbytes):
    _real = bytearray
    _check = staticmethod(lambda o: builtins.isinstance(o, bytearray))

    def __new__(cls, *a, **k):
        r = vbytes(*a, **k)
        return r if isinstance(r, SymBytes) else bytearray(r)

    @staticmethod
    def fromhex(s):
        return fromhex(s) if isinstance(s, SymStr) else bytearray.fromhex(s)


def vord(c):
    if isinstance(c, SymStr):
        if len(c) != 1:
            raise TypeError("ord() expected a character")
        return SymInt(c.chars[0].z)
    return ord(c)


# ---- what the source rewriting in load.py dispatches to
def s_in(x, c):
    """x in c"""
    if isinstance(x, SymStr):
        if builtins.isinstance(c, str):
            return lift(c).find(x) >= 0
        if builtins.isinstance(c, (set, frozenset, dict)):
            return any(x == y for y in c)
    return x in c


def s_call(obj, name, *a, **k):
    """obj.name(*a): str methods on plain strings with symbolic arguments."""
    if type(obj) is str:
        if name == "join":
            items = list(a[0])
            if any(isinstance(x, SymStr) for x in items):
                return lift(obj).join(items)
            return obj.join(items)
        if any(isinstance(x, SymStr) for x in a) and name != "format":
            return getattr(lift(obj), name)(*a, **k)
    elif name == "get" and builtins.isinstance(obj, dict) and a and isinstance(a[0], SymStr):
        for y in obj:
            if a[0] == y:
                return obj[y]
        return a[1] if len(a) > 1 else None
    return getattr(obj, name)(*a, **k)


def s_item(obj, k):
    if isinstance(k, SymStr) and builtins.isinstance(obj, dict):
        for y in obj:
            if k == y:
                return obj[y]
        raise KeyError("symbolic key")
    if isinstance(k, SymInt) and builtins.isinstance(obj, (list, tuple, str, dict)):
        if builtins.isinstance(obj, dict):
            for y in obj:
                if k == y:
                    return obj[y]
            raise KeyError("symbolic key")
        return obj[k.realise(-len(obj), len(obj))]
    return obj[k]


OVERRIDES = {"int": vint, "float": vfloat, "str": vstr, "bytes": vbytes, "bytearray": vbytearray, "ord": vord}
