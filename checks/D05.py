import z3

from vt import engine as E, lexcheck as L, symstr as S, symtime as T
from vt.run import Job

X = L.X
ASSUMPTIONS = [
    "`time.strptime` is modelled by the regular expression CPython builds for the format plus the calendar check, `datetime` by integer "
    "arithmetic on microseconds (vt/symtime.py), strings and `re` as in vt/symstr.py; sampled paths are replayed on the real conversions",
    "forms with a year before 0001 or after 9999, and the end of the last day of 9999, carry no claim (Python has no such instants)",
]
BOUNDS = {
    "quick": "dateTime, dateTimeStamp, time, date: every string of the length of a form without fraction, with and without zone, and one "
             "less, and all short strings, each character any Unicode code point; all forms with 0 to 9 fractional digits, with any zone, all digits symbolic",
    "thorough": "the same for every length from 0 to 29; up to 12 fractional digits",
}
OUTSIDE = "longer strings; years outside 0001-9999; the comparison of dates with time zones"
DIG = ((48, 57),)
SIGN = S.fromchars("+-")
TZ = r"(?P<z>Z|[+\-](?:(?:0[0-9]|1[0-3]):[0-5][0-9]|14:00))?"
TIME = r"(?:(?P<h>[01][0-9]|2[0-3]):(?P<mi>[0-5][0-9]):(?P<s>[0-5][0-9])(?:\.(?P<f>[0-9]+))?|(?P<end>24:00:00(?:\.0+)?))"
DATE = r"(?P<y>[0-9]{4})-(?P<m>0[1-9]|1[0-2])-(?P<d>0[1-9]|[12][0-9]|3[01])"
PAT = {"dateTime": DATE + "T" + TIME + TZ, "dateTimeStamp": DATE + "T" + TIME + TZ, "time": TIME + TZ, "date": DATE + TZ}
FAR = r"-?[0-9]{5,}-.*|-[0-9]{4}-.*"


def setup():
    L.setup(T.modules())


def num(s):
    v = z3.IntVal(0)
    for c in S.lift(s).chars:
        v = v * 10 + (z3.IntVal(c) if isinstance(c, int) else c.z) - 48
    return z3.simplify(v)


def denotes(dt, s):
    """'none' | 'any' | (instant, offset | None)"""
    m = L.full(PAT[dt], s)
    if m is None:
        return "any" if dt != "time" and L.full(FAR, s) is not None else "none"
    g = m.groupdict()
    n = z3.IntVal(0)
    b = E.CUR.branch
    if dt != "time":
        y, mo, d = num(g["y"]), num(g["m"]), num(g["d"])
        if not b(d <= T.mdays(y, mo)):
            return "none"
        if b(y == 0):
            return "any"
        n = T.ordinal(y, mo, d)
    us = z3.IntVal(0)
    if dt != "date":
        if g["end"] is not None:
            if dt != "time":
                us = z3.IntVal(T.DAY)
                if b(z3.And(y == 9999, mo == 12, d == 31)):
                    return "any"
        else:
            f = S.lift(g["f"]).chars[:6] if g["f"] is not None else []
            us = (((num(g["h"]) * 60 + num(g["mi"])) * 60) + num(g["s"])) * 10 ** 6 + num(S.mk(f + [48] * (6 - len(f))))
    zn = g["z"]
    if zn is None:
        return "none" if dt == "dateTimeStamp" else (n * T.DAY + us, None)
    c = S.lift(zn).chars
    off = z3.IntVal(0)
    if len(c) == 6:
        off = (num(S.mk(c[1:3])) * 60 + num(S.mk(c[4:6]))) * 60 * 10 ** 6
        if S.isin(c[0], ((45, 45),)):
            off = -off
    return n * T.DAY + us, off


def oracle(dt):
    def check(ctx, s, st, v):
        o = denotes(dt, s)
        if o == "any":
            return
        if o == "none":
            L.prove(ctx, st == "reject", X + dt, [s], "xsd:%s accepts a malformed form" % dt)
            return
        L.prove(ctx, st == "ok", X + dt, [s], "xsd:%s rejects a well-formed form" % dt)
        E.STATS.witness += 1
        loc, off = o
        if dt == "date":
            if not isinstance(v, T.Date):
                raise E.Unsupported("value of a date")
            if off is None:
                L.prove(ctx, v.days() * T.DAY == loc, X + dt, [s], "another day")
            return
        if not isinstance(v, T.Timed):
            raise E.Unsupported("value of a time is a %s" % type(v).__name__)
        try:
            vo = T.offset(v.tzinfo, v)
        except Exception as e:
            L.cand(ctx, X + dt, [s], "the offset of the value is unusable: %s" % e)
        L.prove(ctx, (vo is None) == (off is None), X + dt, [s], "xsd:%s: the time zone is lost or invented" % dt)
        if off is None:
            L.prove(ctx, v.local() == loc, X + dt, [s], "xsd:%s: not the local time denoted" % dt)
        else:
            L.prove(ctx, v.local() - vo == loc - off, X + dt, [s], "xsd:%s: not the instant denoted" % dt)
    return check


def form(dt, frac, zone):
    d = []
    if dt != "time":
        d += [DIG] * 4 + [45] + [DIG] * 2 + [45] + [DIG] * 2
    if dt in ("dateTime", "dateTimeStamp"):
        d += [84]
    if dt != "date":
        d += [DIG] * 2 + [58] + [DIG] * 2 + [58] + [DIG] * 2
        if frac:
            d += [46] + [DIG] * frac
    d += {"": [], "Z": [90], "o": [SIGN] + [DIG] * 2 + [58] + [DIG] * 2}[zone]
    return [((x, x),) if isinstance(x, int) else x for x in d]


def jobs(tier):
    q = tier == "quick"
    out = []
    for dt in ("dateTime", "dateTimeStamp", "time", "date"):
        base = {"time": 8, "date": 10}.get(dt, 19)
        ns = sorted(set(list(range(0, 4)) + [base + k for k in (-1, 0, 1, 6)])) if q else range(0, base + 11)
        for n in ns:
            out.append(L.job("%s, %d characters" % (dt, n), X + dt, [L.TEXT] * n, oracle(dt), "every string of %d characters" % n,
                             witness=n in (base + 1, base + 6), setup=setup))
        for fr in (range(0, 10) if q else range(0, 13)) if dt != "date" else (0,):
            for zn in ("", "Z", "o"):
                out.append(L.job("%s, %d fractional digits, zone %s" % (dt, fr, zn or "none"), X + dt, form(dt, fr, zn), oracle(dt),
                                 "all digits symbolic", witness=bool(zn) or dt != "dateTimeStamp", setup=setup))
    return out
