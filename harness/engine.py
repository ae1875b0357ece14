"""Runs the checks: design models -> walks -> real code -> traces -> verdicts by TLC -> evidence."""
import concurrent.futures as cf
import importlib
import functools
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

import graph
import tlc
from tlc import MachineryError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
CHUNK = 9000  # events per verdict run
PAR = 4

_NULL = open(os.devnull, "w")
_JOBS = []  # (module, cfg, driver), inherited by the forked workers


class Hang(BaseException):
    pass


def _alarm(_s, _f):
    raise Hang()


def _one(idx):
    mod, cfg, labels = _JOBS[idx]
    return execute(mod, cfg, labels)


def execute(mod, cfg, labels):
    """Run one driver against the real code and return its trace.  An error escaping from the code
    under test into the driver becomes an event no specification allows."""
    world = None
    ev = []
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(getattr(mod, "TRACE_LIMIT", 60))
    stdout, sys.stdout = sys.stdout, _NULL  # the code under test may print
    cur = {"op": "setup"}
    try:
        world = mod.WORLD(cfg)
        it = labels(world) if callable(labels) else iter(labels)
        for label in it:
            cur = label
            ev.append(world.step(label))
    except MachineryError:
        raise
    except (Exception, Hang) as exc:  # pylint: disable=broad-except
        tb = traceback.extract_tb(exc.__traceback__)
        where = "%s:%s" % (os.path.basename(tb[-1].filename), tb[-1].lineno) if tb else ""
        obs = [o for o in (world.obs if world else [])]
        ev.append(dict(cur, burst=0, obs=obs + [dict(k="crash", what=type(exc).__name__ + ": " + str(exc)[:200], where=where, at=-1)]))
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
    finally:
        signal.alarm(0)
        if world is not None:
            try:
                world.close()
            except Exception:  # pylint: disable=broad-except
                pass
        sys.stdout = stdout
    return {"cfg": cfg, "ev": ev}


def _init_worker():
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def chained(labels, more, world):
    yield from labels
    yield from more(world)


def run_jobs(jobs):
    """jobs: list of (module, cfg, driver)."""
    global _JOBS
    _JOBS = jobs
    if len(jobs) < 4:
        return [_one(i) for i in range(len(jobs))]
    ctx = mp.get_context("fork")
    with cf.ProcessPoolExecutor(min(8, os.cpu_count() or 4), mp_context=ctx, initializer=_init_worker) as ex:
        try:
            return list(ex.map(_one, range(len(jobs)), chunksize=max(1, min(50, len(jobs) // 32))))
        except cf.process.BrokenProcessPool as exc:
            raise MachineryError("a worker process died: %s" % exc)


def judge_all(spec, traces, heap="3g", timeout=800):
    """Verdicts for all traces, in parallel chunks.  Returns (list of (trace index, bad), states)."""
    chunks, cur, n = [], [], 0
    for i, tr in enumerate(traces):
        cur.append(i)
        n += len(tr["ev"])
        if n >= CHUNK:
            chunks.append(cur)
            cur, n = [], 0
    if cur:
        chunks.append(cur)

    def one(ids):
        try:
            bad, st = tlc.judge(spec, [traces[i] for i in ids], heap=heap, timeout=timeout)
            return [(ids[b["tr"] - 1], b) for b in bad], st
        except MachineryError as exc:
            return isolate(spec, traces, ids, exc)

    with cf.ThreadPoolExecutor(PAR) as ex:
        res = list(ex.map(one, chunks))
    return [b for r in res for b in r[0]], sum(r[1] for r in res)


def isolate(spec, traces, ids, exc):
    """A verdict run failed.  If every trace but some can be judged, those hold values outside the
    specification's types, which only behaviour outside the specification produces."""
    if len(ids) == 1:
        try:
            tlc.judge(spec, [{"cfg": traces[ids[0]]["cfg"], "ev": []}])
        except MachineryError:
            raise exc
        if "timeout" in str(exc)[:200]:
            raise exc
        ev = traces[ids[0]]["ev"]
        lo, hi = 0, len(ev)  # prefix lo judgeable, prefix hi not
        while hi - lo > 1:
            mid = (lo + hi) // 2
            try:
                bad, _ = tlc.judge(spec, [{"cfg": traces[ids[0]]["cfg"], "ev": ev[:mid]}])
                if bad:
                    return [(ids[0], bad[0])], mid
                lo = mid
            except MachineryError:
                hi = mid
        msg = str(exc)
        at = msg.find("Error:")
        return [(ids[0], {"tr": 1, "at": hi, "exp": "outside the specification: " + msg[at:at + 300], "got": ev[hi - 1].get("obs")})], len(ev)
    half = len(ids) // 2
    out, st = [], 0
    errs = 0
    for part in (ids[:half], ids[half:]):
        try:
            bad, n = tlc.judge(spec, [traces[i] for i in part])
            out += [(part[b["tr"] - 1], b) for b in bad]
            st += n
        except MachineryError as sub:
            errs += 1
            if errs == 2:  # both halves fail: one witness is enough
                break
            b, n = isolate(spec, traces, part, sub)
            out += b
            st += n
    return out, st


def load(name):
    return importlib.import_module("m_" + name)


def strip(ev):
    return {k: v for k, v in ev.items() if k != "obs"}


def known_findings():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as fd:
        return json.load(fd)["findings"]


def run_check(prop, tier, seed, plan):
    """plan: list of (module name, options).  Returns the exit status."""
    t0 = time.time()
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    states = transitions = 0
    jobs = []
    modeled = []
    mods = []
    # 1. design models
    runs = []
    for name, opts in plan:
        mod = load(name)
        mods.append(mod)
        for m in mod.models(prop, tier, **opts):
            runs.append((mod, m))
    with cf.ThreadPoolExecutor(PAR) as ex:
        def mc(x):
            m = x[1]
            return tlc.model_check(m["module"], m["cfg"], workers=m.get("workers", 1), timeout=m.get("timeout", 800), want_graph=m.get("graph", True))
        results = list(ex.map(mc, runs))
    for (mod, m), r in zip(runs, results):
        states += r["states"]
        transitions += r["transitions"]
        info = {"model": m["module"], "states": r["states"], "transitions": r["transitions"]}
        if m.get("graph", True):
            if not r["edges"]:
                raise MachineryError("model %s printed no transitions" % m["module"])
            ws, cov = graph.walks(r["edges"], r["edges"][0][0], max_len=m.get("max_len", 25), limit=m.get("limit"))
            info.update(edges=len(r["edges"]), edges_walked=cov, walks=len(ws))
            for w in ws:
                labels = list(m.get("prefix", ())) + w
                if m.get("drain"):  # closing labels that depend on what the system did
                    labels = functools.partial(chained, labels, m["drain"])
                jobs.append((mod, m.get("tcfg", {}), labels if callable(labels) else labels + list(m.get("suffix", ()))))
        modeled.append(info)
    # 2. further drivers
    for (name, opts), mod in zip(plan, mods):
        rng = random.Random("%s/%s/%s" % (prop, name, seed))
        for cfg, labels in mod.drivers(prop, tier, rng, **opts):
            jobs.append((mod, cfg, labels))
    t1 = time.time()
    traces = run_jobs(jobs)
    t2 = time.time()
    # 3. verdicts
    bad = []
    samples = []
    nev = 0
    for mod in dict.fromkeys(j[0] for j in jobs):
        ids = [i for i, j in enumerate(jobs) if j[0] is mod]
        trs = [traces[i] for i in ids]
        nev += sum(len(t["ev"]) for t in trs)
        b, st = judge_all(mod.SPEC, trs, heap=getattr(mod, "HEAP", "3g"))
        states += st
        transitions += st
        bad += [(mod, ids[i], x) for i, x in b]
        if trs:
            tr = trs[len(trs) // 2]
            samples.append({"module": mod.SPEC, "cfg": tr["cfg"], "events": [strip(e) for e in tr["ev"][:12]]})
    # 4. report
    violations = 0
    known_hits = {}
    kn = [k for k in known_findings() if k["property"] == prop]
    for mod, i, x in sorted(bad, key=lambda b: (b[2]["at"], b[1])):
        tr = traces[i]
        k = next((k for k in kn if getattr(mod, "known", lambda *a: None)(prop, tr, x) == k["id"]), None)
        if k:
            known_hits.setdefault(k["id"], k)
            continue
        violations += 1
        if violations <= 3:
            path = os.path.join(EVID, "replays", "%s-%d.json" % (prop, violations))
            with open(path, "w") as fd:
                json.dump({"property": prop, "module": mod.__name__[2:], "cfg": tr["cfg"], "labels": [strip(e) for e in tr["ev"][:x["at"]]],
                           "at": x["at"], "expected": x["exp"], "observed": x["got"]}, fd, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  step %d %s" % (x["at"], json.dumps(strip(tr["ev"][x["at"] - 1]))[:300]))
            print("  expected %s" % json.dumps(x["exp"])[:600])
            print("  observed %s" % json.dumps(x["got"])[:600])
    for k in kn:
        if k["id"] in known_hits or k.get("always"):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {"states": states, "transitions": transitions, "traces_validated_against_impl": len(traces), "samples": samples[:3],
                     "design_models": modeled, "events": nev, "seconds": {"models": round(t1 - t0, 1), "impl": round(t2 - t1, 1), "verdicts": round(time.time() - t2, 1)}},
        "assumptions": sorted({a for mod in mods for a in getattr(mod, "ASSUMPTIONS", [])}),
        "wall_s": round(wall, 2), "violations": violations,
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as fd:
        json.dump(ev, fd, indent=1)
    print("%s %s: %d states, %d traces, %d events, %d violations, %.1f s" % (prop, tier, states, len(traces), nev, violations, wall))
    if not traces or not nev:
        raise MachineryError("nothing was executed")
    return 1 if violations else 0


def replay(path):
    with open(path) as fd:
        rp = json.load(fd)
    mod = load(rp["module"])
    tr = execute(mod, rp["cfg"], rp["labels"])
    for e in tr["ev"]:
        print(json.dumps(strip(e))[:300])
        for o in e["obs"]:
            print("     ", json.dumps(o)[:300])
    bad, _ = judge_all(mod.SPEC, [tr])
    for _i, x in bad:
        print("MISMATCH at step %d\n  expected %s\n  observed %s" % (x["at"], json.dumps(x["exp"]), json.dumps(x["got"])))
        print("VIOLATION property=%s replay=%s" % (rp["property"], path))
    return 1 if bad else 0
