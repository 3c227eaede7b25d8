import os
import types

from vt import engine as E, load, script, symstr as S
from vt.run import Job

ASSUMPTIONS = [
    "scripts/RDFConvertService is executed on form fields with symbolic strings; cgi.FieldStorage, cgitb, print, sys and convert_graph are stand-ins that "
    "record; sampled paths are replayed by running the real script under the real cgi module with the same query and a recording convert_graph",
]
BOUNDS = {
    "quick": "one of the six yes/no fields an arbitrary string of up to 4 characters and every combination of absent, yes and no for the other five; every "
             "set of the four source fields and the text, each with an arbitrary string of up to 3 characters; arbitrary input and output formats of up to 6 "
             "characters; failing conversions with one or two fields of up to 2 arbitrary characters",
    "thorough": "two of the yes/no fields arbitrary; failing conversions with up to 3 arbitrary characters in every field",
}
OUTSIDE = "repeated fields, file uploads, output formats other than turtle and xml (their label is not judged); characters outside printable ASCII"
PRINT = ((32, 126),)
TEXT = ((10, 10), (32, 126))
FLAGS = ("owlClosure", "rdfsClosure", "owlExtras", "axioms", "daxioms")
SOURCES = ("source_1", "source_2", "uri", "source")
YES = ("yes", "Yes", "True", "true")
RESULT = "⟦the result⟧\n@prefix <a&b>"


def on(x):
    return x is True or (x is not None and x is not False and any(S.lift(x) == y for y in YES))


class Field:
    def __init__(self, v):
        self.value = v


class Form:
    """What the service sees of cgi.FieldStorage."""

    def __init__(self, d):
        self.d = d

    def keys(self):
        return list(self.d)

    def __iter__(self):
        return iter(list(self.d))

    def __len__(self):
        return len(self.d)

    def __bool__(self):
        return bool(self.d)

    def __contains__(self, k):
        return k in self.d

    def __getitem__(self, k):
        return Field(self.d[k])

    def getvalue(self, k, default=None):
        return self.d.get(k, default)

    getfirst = getvalue

    def getlist(self, k):
        return [self.d[k]] if k in self.d else []


def output(ctx, printed):
    """The text printed, as list of characters (plain or symbolic)."""
    toks = ctx.notes.get("strtok", [])
    out = []

    def put(x):
        if isinstance(x, S.SymStr):
            out.extend(x.chars)
            return
        s = str(x)
        while s:
            i = s.find("⟬")
            if i < 0:
                break
            j = s.index("⟭", i)
            out.extend(map(ord, s[:i]))
            out.extend(toks[int(s[i + 1:j])].chars)
            s = s[j + 1:]
        out.extend(map(ord, s))
    for a, k in printed:
        sep, end = k.get("sep"), k.get("end")
        for i, x in enumerate(a):
            if i:
                put(" " if sep is None else sep)
            put(x)
        put("\n" if end is None else end)
    return out


def path_of(build, failing=False):
    def path(ctx):
        form = build(ctx)
        err = None
        if failing:
            err = [Exception, ValueError, KeyError][ctx.choose(3)]("no <input> & \"such\"")

        def scen():
            m = ctx.model()
            if m is None:
                raise E.Infeasible()
            return {"scenario": "cgi", "form": {k: S.evalstr(v, m) for k, v in form.items()}, "fail": None if err is None else type(err).__name__}
        ctx.notes["scen"] = lambda: dict(scen(), why="sampled path")
        printed = []
        rec = script.Recorder(err)
        rec.result = RESULT
        cgi, cgitb = types.ModuleType("cgi"), types.ModuleType("cgitb")
        cgi.FieldStorage = lambda *a, **k: Form(form)
        cgitb.enable = cgitb.reset = lambda *a, **k: None
        fs = script.fake_sys(["RDFConvertService"])
        m, run = script.compiled(os.path.join(load.REPO, "scripts", "RDFConvertService"), "service_script",
                                 {"cgi": cgi, "cgitb": cgitb, "sys": fs, "owlrl": script.owlrl_standin(rec)}, printed)

        def fail(why):
            raise E.Candidate(dict(scen(), why=why))
        try:
            run()
        except (E.Steer, E.Inconclusive, E.Candidate):
            raise
        except BaseException as e:
            fail("the service fails with %s: %s" % (type(e).__name__, e))
        printed = [((x,), {"end": ""}) for x in fs.stdout.text] + printed
        if len(rec.calls) != 1 or rec.calls[0][1] is not None:
            fail("convert_graph is called %d times" % len(rec.calls))
        o = rec.calls[0][0]
        E.STATS.obligations += 12
        E.STATS.witness += 1
        full = "fullClosure" in form and S.lift(form["fullClosure"]) == "yes"
        for k in FLAGS:
            want = k in FLAGS[:2] if full else on(form.get(k))
            if on(getattr(o, k, None)) != want:
                fail("%s is %r" % (k, getattr(o, k, None)))
        if on(getattr(o, "trimming", None)):
            fail("trimming is on")
        x = getattr(o, "text", None)
        if (x is None) != ("text" not in form) or x is not None and not S.lift(x) == form["text"]:
            fail("the text is %r" % (x,))
        f = form.get("iformat")
        want = next((y for y in ("xml", "turtle") if f is not None and S.lift(f) == y), "auto")
        if not S.lift(o.iformat) == want:
            fail("the input format is %r, not %s" % (o.iformat, want))
        fmt = form.get("format", "turtle")
        if not S.lift(o.format) == fmt:
            fail("the output format is %r" % (o.format,))
        got = list(o.sources) + ([o.source] if getattr(o, "source", None) is not None else [])
        wants = [form[k] for k in SOURCES if k in form]
        for a, b, why in ((got, wants, "%s is read"), (wants, got, "%s is not read")):
            for x in a:
                if not any(S.lift(x) == y for y in b):
                    fail(why % x)
        chars = output(ctx, printed)
        head, i = [], 0
        line = []
        while i < len(chars):
            c = chars[i]
            i += 1
            if not isinstance(c, int):
                fail("a header contains text from the form")
            if c == 10:
                if not line:
                    break
                head.append("".join(line).rstrip("\r").lower())
                line = []
            else:
                line.append(chr(c))
        head = dict((h.partition(":")[0].strip(), h.partition(":")[2].strip()) for h in head)
        body = chars[i:]
        ct = head.get("content-type", "").partition(";")[0].strip()
        plain = "".join(chr(c) if isinstance(c, int) else "�" for c in body)
        if err is None:
            if head.get("status", "200").split()[0] != "200":
                fail("a status %s" % head["status"])
            turtle = bool(S.lift(fmt) == "turtle")
            if turtle and ct != "text/turtle" or not turtle and S.lift(fmt) == "xml" and ct != "application/rdf+xml":
                fail("labelled %s" % ct)
            if plain.rstrip("\n") != RESULT:
                fail("the result is not what is printed: %r" % plain[:60])
            return
        if ct != "text/html" or not head.get("status", "").startswith("400"):
            fail("a failure is labelled %s" % head)
        if "⟦" in plain:
            fail("a failure prints a result")
        if "no &lt;input&gt; &amp; " not in plain:
            fail("the error is not shown, or not escaped")
        E.STATS.obligations += len(body)
        for c in body:
            if not isinstance(c, int):
                for d in "<>&":
                    if S.chareq(c, ord(d)):
                        fail("%r from the form is not escaped" % d)
    return path


def sample(ctx):
    return ctx.notes["scen"]()


def setup():
    load.load_strings()


def sym(ctx, name, n, dom=PRINT):
    return S.SymStr([S.newchar(ctx, "%s!%d" % (name, i), dom) for i in range(n)])


def flags(which, lens):
    def build(ctx):
        d = {}
        for f in ("fullClosure",) + FLAGS:
            if f in which:
                d[f] = sym(ctx, f, lens[ctx.choose(len(lens))])
                continue
            c = ctx.choose(3)
            if c:
                d[f] = ["no", "yes"][c - 1]
        return d
    return build


def sources(lens):
    def build(ctx):
        d = {}
        for f in SOURCES + ("text",):
            if ctx.choose(2):
                d[f] = sym(ctx, f, lens[ctx.choose(len(lens))], TEXT)
        return d
    return build


def formats(which, lens):
    def build(ctx):
        d = {"uri": "x.ttl"}
        for f in ("format", "iformat"):
            if f == which:
                d[f] = sym(ctx, f, lens[ctx.choose(len(lens))])
            elif ctx.choose(2):
                d[f] = "xml" if ctx.choose(2) else "turtle"
        return d
    return build


def broken(which, lens):
    def build(ctx):
        d = {}
        for f in which:
            d[f] = sym(ctx, f, lens[ctx.choose(len(lens))], TEXT)
        return d
    return build


def jobs(tier):
    q = tier == "quick"
    out = []

    def job(name, build, **kw):
        out.append(Job(name, path_of(build, **kw), name, sample, setup=setup))
    allf = ("fullClosure",) + FLAGS
    for f in allf:
        for n in range(1, 5):
            job("%s of %d characters" % (f, n), flags((f,), (n,)))
        if not q:
            for g in allf:
                if f < g:
                    job("%s and %s" % (f, g), flags((f, g), (2, 3, 4)))
    job("sources and text", sources((1, 2)))
    if not q:
        job("sources and text, longer", sources((1, 3)))
    for f in ("format", "iformat"):
        for n in range(1, 7 if q else 9):
            job("%s of %d characters" % (f, n), formats(f, (n,)))
    job("failing: nothing given", broken((), (1,)), failing=True)
    job("failing: all sources", broken(SOURCES, (1,)), failing=True)
    for g in (("source_1", "source_2"), ("source_1", "uri"), ("uri", "source")):
        job("failing: %s and %s" % g, broken(g, (1, 2)), failing=True)
    every = SOURCES + ("text", "format", "iformat", "fullClosure") + FLAGS
    for f in every:
        job("failing: %s" % f, broken((f,), (1, 2) if q else (1, 2, 3)), failing=True)
        for g in (("text",) if q else every):
            if f < g:
                job("failing: %s and %s" % (f, g), broken((f, g), (1,)), failing=True)
    return out
