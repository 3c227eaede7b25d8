"""Run a check: explore all jobs in parallel, replay counterexamples on the real code, write the evidence."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback
import zlib
from collections import deque

from . import engine as E

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REALPY = "/opt/venv/bin/python"


class Job:
    """One symbolic harness.  path(ctx) runs the code once and asserts; it raises E.Candidate with a concrete scenario.
    sample(ctx) -> a scenario in which the property must hold on the real code, taken from the path just finished."""

    def __init__(self, name, path, bounds="", sample=None, setup=None, witness=True):
        self.name, self.path, self.bounds, self.sample, self.setup, self.witness = name, path, bounds, sample, setup, witness


class Profile:
    def __init__(self):
        self.seen = set()

    def __call__(self, frame, event, arg):
        if event == "call":
            c = frame.f_code
            f = c.co_filename
            if "/owlrl/" in f or f.endswith("scripts/owlrl"):
                self.seen.add((os.path.basename(f), getattr(c, "co_qualname", c.co_name)))


def worker(conn, jobs, seed):
    setups = None
    while True:
        msg = conn.recv()
        if msg is None:
            return
        ji, prefixes, seconds, first = msg
        job = jobs[ji]
        E.STATS.__init__()
        prof = Profile()
        out = {"job": ji, "left": [], "cand": None, "err": None, "samples": [], "secs": 0.0}
        t0 = time.time()
        try:
            if setups is not job.setup:
                if job.setup:
                    job.setup()
                setups = job.setup
            n = [0]
            want = {0, 1} if first else set()

            def fn(ctx):
                n[0] += 1
                if first and n[0] <= 4:
                    sys.setprofile(prof)
                    try:
                        job.path(ctx)
                    finally:
                        sys.setprofile(None)
                else:
                    job.path(ctx)
                if job.sample is not None:
                    # the paths with the smallest hashes, however the work was sliced: the same in every run
                    h = zlib.crc32(repr((seed, ji, ctx.decisions)).encode())
                    sm = out["samples"]
                    perjob = 1 if len(jobs) > 60 else 3
                    if len(sm) < perjob or h < sm[-1][1]:
                        keep = list(ctx.decisions), list(ctx.pending)
                        s = job.sample(ctx)
                        ctx.decisions[:], ctx.pending[:] = keep
                        if s is not None:
                            sm.append((ji, h, s))
                            sm.sort(key=lambda x: x[:2])
                            del sm[perjob:]

            out["left"] = E.explore(fn, prefixes, seconds=seconds)
        except E.Candidate as e:
            out["cand"] = e.info
        except E.Inconclusive as e:
            out["err"] = "%s" % e
        except BaseException as e:
            out["err"] = "harness error: %s" % "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
            if isinstance(e, KeyboardInterrupt):
                raise
        out["secs"] = time.time() - t0
        out["stats"] = E.STATS
        out["funcs"] = prof.seen
        conn.send(out)


def replay(paths, timeout=300, hashseed=0):
    """Run scenario files on the real code; list of (status, detail), status 'violated' | 'ok' | 'error'."""
    if not paths:
        return []
    try:
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1")
        r = subprocess.run([REALPY, "-B", os.path.join(VERIF, "vt", "replay_real.py")] + paths, capture_output=True, text=True,
                           timeout=timeout, env=env, cwd="/tmp")
    except subprocess.TimeoutExpired:
        return [("error", "replay timed out")] * len(paths)
    out = []
    for ln in r.stdout.splitlines():
        if ln.startswith("REPLAY "):
            _, st, rest = (ln + " ").split(" ", 2)
            out.append((st, rest.strip()))
    while len(out) < len(paths):
        out.append(("error", (r.stderr or r.stdout)[-800:]))
    return out


def load_known():
    f = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(f):
        return []
    return json.load(open(f)).get("findings", [])


def main(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module("checks." + pid)
    edir = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
    rdir = os.path.join(edir, "replay")
    os.makedirs(rdir, exist_ok=True)
    nproc = min(int(os.environ.get("VERIF_PROCS", "0")) or os.cpu_count() or 4, 16)
    budget = getattr(mod, "BUDGET", {}).get(tier, 300 if tier == "quick" else 780)
    budget = float(os.environ.get("VERIF_BUDGET", budget))
    status, lines = 0, []
    stats = E.Stats()
    funcs = set()
    jobinfo = {}
    samples, cands, errs = [], [], []
    try:
        jobs = mod.jobs(tier)
        only = os.environ.get("VERIF_ONLY")  # development: jobs whose name contains one of the words
        if only:
            jobs = [j for j in jobs if any(w in j.name for w in only.split(","))]
    except Exception:
        traceback.print_exc()
        jobs = []
        errs.append(("setup", traceback.format_exc()[-1500:]))
    known = [k for k in load_known() if k.get("property") == pid]
    seen_known = {}
    violation = None
    q = deque((i, [[]], True) for i in range(len(jobs)))
    dead = set()
    for i, j in enumerate(jobs):
        jobinfo[i] = {"name": j.name, "bounds": j.bounds, "paths": 0, "obligations": 0, "witness": 0, "secs": 0.0, "open": 1}
    ctxm = mp.get_context("fork")
    ws = []
    for _ in range(min(nproc, max(1, len(jobs) * 4))):
        a, b = ctxm.Pipe()
        p = ctxm.Process(target=worker, args=(b, jobs, seed), daemon=True)
        p.start()
        b.close()
        ws.append([p, a, None])
    timed_out = False
    try:
        while violation is None:
            busy = [w for w in ws if w[2] is not None]
            late = time.time() - t0 > budget
            if late:
                timed_out = timed_out or bool(q)
            if not busy and (not q or late):
                break
            for w in ws:
                if w[2] is None and q and not late:
                    ji, pf, first = q.popleft()
                    if ji in dead:
                        continue
                    # spread a job over idle workers when the queue runs dry
                    idle = sum(1 for x in ws if x[2] is None)
                    w[2] = (ji, pf)
                    w[1].send((ji, pf, 2.0 if len(q) < len(ws) else 6.0, first))
            ready = mp.connection.wait([w[1] for w in ws if w[2] is not None] or [], timeout=1.0)
            for w in ws:
                if w[1] not in ready:
                    continue
                try:
                    out = w[1].recv()
                except EOFError:
                    errs.append((jobs[w[2][0]].name, "worker died"))
                    dead.add(w[2][0])
                    w[2] = None
                    p_a, p_b = ctxm.Pipe()
                    w[0] = ctxm.Process(target=worker, args=(p_b, jobs, seed), daemon=True)
                    w[0].start()
                    p_b.close()
                    w[1] = p_a
                    continue
                ji = out["job"]
                w[2] = None
                ji_info = jobinfo[ji]
                stats.merge(out["stats"])
                ji_info["paths"] += out["stats"].paths
                ji_info["obligations"] += out["stats"].obligations
                ji_info["witness"] += out["stats"].witness
                ji_info["secs"] = round(ji_info["secs"] + out["secs"], 2)
                ji_info["open"] -= 1
                funcs |= out["funcs"]
                samples += out["samples"]
                if out["err"]:
                    errs.append((jobs[ji].name, out["err"]))
                    dead.add(ji)
                if out["cand"]:
                    c = out["cand"]
                    c["property"] = pid
                    others = c.pop("others", [])
                    f = write_scenario(rdir, pid, c)
                    st, det = replay([f])[0]
                    for o in others:
                        # the same path with other values
                        if st != "violated":
                            o = dict(o, property=pid)
                            f2 = write_scenario(rdir, pid, o)
                            st2, det2 = replay([f2])[0]
                            if st2 == "violated":
                                c, f, st, det = o, f2, st2, det2
                    for hs in range(1, 9):
                        # the order in which rdflib iterates depends on it
                        if st == "ok":
                            st, det = replay([f], hashseed=hs)[0]
                            if st == "violated":
                                det += " (PYTHONHASHSEED=%d)" % hs
                    k = match_known(known, c)
                    if st == "violated" and k is not None:
                        seen_known[k["id"]] = k
                        dead.add(ji)
                    elif st == "violated":
                        violation = (f, det, c)
                        break
                    else:
                        cands.append((jobs[ji].name, f, st, det, c.get("why")))
                        dead.add(ji)
                elif out["left"] and ji not in dead:
                    left = out["left"]
                    n = max(1, min(len(left), len(ws) - len(q)))
                    chunks = [left[k::n] for k in range(n)]
                    for ch in chunks:
                        q.append((ji, ch, False))
                    ji_info["open"] += len(chunks)
    finally:
        for w in ws:
            try:
                if w[2] is None:
                    w[1].send(None)
            except Exception:
                pass
        for w in ws:
            w[0].join(timeout=0.5)
            if w[0].is_alive():
                w[0].kill()
    # ---- validation of sampled paths on the real code
    validated, disagree = 0, []
    if violation is None and samples:
        import random
        per, kept = {}, []
        for ji, h, x in sorted(samples, key=lambda x: x[:2]):
            per[ji] = per.get(ji, 0) + 1
            if per[ji] <= (1 if len(jobs) > 60 else 3):
                kept.append(x)
        samples = kept
        random.Random(seed).shuffle(samples)
        cap = 60 if tier == "quick" else 300
        fs = []
        for s in samples[:cap]:
            s["property"] = pid
            s["sample"] = True
            f = write_scenario(rdir, pid, s)
            if f not in fs:
                fs.append(f)
        for f, (st, det) in zip(fs, replay(fs, 400)):
            if st == "ok":
                validated += 1
                os.unlink(f)
            elif st == "violated":
                s = json.load(open(f))
                k = match_known(known, s)
                if k is not None:
                    seen_known[k["id"]] = k
                elif violation is None:
                    violation = (f, det, s)
            else:
                disagree.append((f, det))
    vac = []
    incomplete = []
    for i, inf in jobinfo.items():
        if inf["open"] and i not in dead:
            incomplete.append(inf["name"])
        elif i not in dead and jobs[i].witness and not inf["witness"]:
            vac.append(inf["name"])
    nviol = 0
    if violation is not None:
        status, nviol = 1, 1
        f, det, c = violation
        lines.append("VIOLATION property=%s replay=%s" % (pid, f))
        lines.append("  what: %s" % c.get("why"))
        lines.append("  real code: %s" % det)
        lines.append("  replay with: %s -B %s/vt/replay_real.py %s" % (REALPY, VERIF, f))
    else:
        if errs or cands or vac or disagree or not jobs:
            status = 2
            for n, e in errs[:8]:
                lines.append("INCONCLUSIVE %s: %s" % (n, e))
            for n, f, st, det, why in cands[:8]:
                lines.append("INCONCLUSIVE %s: counterexample did not reproduce on the real code (%s: %s) %s [%s]" % (n, st, det, f, why))
            for n in vac[:8]:
                lines.append("INCONCLUSIVE %s: vacuous, the witness was never reached" % n)
            for f, det in disagree[:4]:
                lines.append("INCONCLUSIVE replay failed: %s %s" % (f, det))
        for k in known:
            if k.get("always") or k["id"] in seen_known:
                lines.append("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    wall = time.time() - t0
    exhaustive = not incomplete and status == 0
    cov = {
        "states": stats.paths, "transitions": stats.forks + stats.paths,
        "traces_validated_against_impl": validated,
        "samples": (stats.samples or [j.name for j in jobs[:3]])[:8],
        "exhaustive": exhaustive,
        "explanation": "states = feasible symbolic paths of the real code, transitions = solver/congruence decided branches on them; "
                       "each path ends in one assertion discharged for all values of the symbolic inputs",
        "functions_encoded": sorted("%s:%s" % f for f in funcs),
        "solver": {"queries": stats.queries, "seconds": round(stats.solver_s, 2), "solver": "z3 + congruence closure"},
        "obligations": stats.obligations, "paths_with_witness": stats.witness, "infeasible": stats.infeasible,
        "bounds": getattr(mod, "BOUNDS", {}).get(tier, ""), "outside_bounds": getattr(mod, "OUTSIDE", ""),
        "jobs": [{k: v for k, v in inf.items() if k != "open"} for inf in jobinfo.values()],
        "jobs_not_exhausted": incomplete, "max_decisions": stats.maxdepth,
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(wall, 2), "violations": nviol}
    with open(os.path.join(edir, pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("%s %s: %d jobs, %d paths, %d obligations, %d solver queries (%.1f s), %d traces validated, exhaustive=%s, %.1f s"
          % (pid, tier, len(jobs), stats.paths, stats.obligations, stats.queries, stats.solver_s, validated, exhaustive, wall))
    if incomplete and violation is None:
        print("  not exhausted within the time budget: %s" % ", ".join(incomplete[:20]))
    for ln in lines:
        print(ln)
    sys.stdout.flush()
    return status


def match_known(known, c):
    for k in known:
        if all(c.get(a) == b for a, b in k.get("match", {"_": 1}).items()):
            return k
    return None


def write_scenario(d, pid, c):
    s = json.dumps(c, sort_keys=True, default=str)
    f = os.path.join(d, "%s-%s.json" % (pid, hashlib.sha1(s.encode()).hexdigest()[:12]))
    with open(f, "w") as fh:
        fh.write(json.dumps(c, indent=1, default=str))
    return f
