"""Running TLC: labelled state graphs of the design models and verdicts on recorded traces."""
import json
import os
import re
import shutil
import subprocess
import tempfile

JAR = "/opt/veriftools/tla/tla2tools.jar"
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")


class MachineryError(Exception):
    """The checker itself could not do its work (never a verdict about the code)."""


def _jars():
    d = os.path.dirname(JAR)
    return ":".join([JAR] + sorted(os.path.join(d, f) for f in os.listdir(d) if f.startswith("CommunityModules") and f.endswith(".jar")))


def run_tlc(module, cfg_text, workers=2, env=None, heap="3g", timeout=800, extra=()):
    """Run TLC on spec/<module>.tla with the given configuration text.  Returns (rc, output)."""
    tmp = tempfile.mkdtemp(prefix="tlc_")
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(tmp, f))
        cfg = os.path.join(tmp, "run.cfg")
        with open(cfg, "w") as fd:
            fd.write(cfg_text)
        out = os.path.join(tmp, "out.txt")
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + tmp, "-cp", _jars(), "tlc2.TLC", "-workers", str(workers),
               "-metadir", os.path.join(tmp, "md"), "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module + ".tla"]
        with open(out, "w") as fd:
            try:
                rc = subprocess.run(cmd, cwd=tmp, stdout=fd, stderr=subprocess.STDOUT, timeout=timeout, env=e).returncode
            except subprocess.TimeoutExpired:
                rc = -1
        with open(out, errors="replace") as fd:
            text = fd.read()
        return rc, text
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


_STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def stats(text):
    m = _STATES.findall(text)
    if not m:
        return 0, 0
    return int(m[-1][0]), int(m[-1][1])


def unprint(line, tag):
    """Decode one PrintT(tag \\o ToJson(..)) line."""
    s = json.loads(line)
    return json.loads(s[len(tag):])


def model_check(module, cfg_text, workers=4, timeout=800, want_graph=True):
    """Check a design model.  Returns dict(states, transitions, edges, ok, text)."""
    rc, text = run_tlc(module, cfg_text, workers=workers, timeout=timeout)
    edges = []
    if want_graph:
        for line in text.splitlines():
            if line.startswith('"@@E'):
                edges.append(unprint(line, "@@E"))
    gen, dist = stats(text)
    ok = rc == 0 and "No error has been found" in text
    if not ok:
        tail = "\n".join(l for l in text.splitlines() if not l.startswith('"@@E'))[-4000:]
        raise MachineryError("design model %s failed (rc=%s):\n%s" % (module, rc, tail))
    return {"states": dist, "transitions": gen, "edges": edges, "text": text}


def judge(module, traces, opts=None, workers=2, timeout=800, heap="3g"):
    """Validate traces (list of dicts with cfg and ev) against spec/<module>.tla.
    Returns (bad, states): bad is a list of dicts(tr, at, exp, got)."""
    tmp = tempfile.mkdtemp(prefix="traces_")
    try:
        path = os.path.join(tmp, "traces.json")
        with open(path, "w") as fd:
            json.dump([{"cfg": t["cfg"], "ev": t["ev"]} for t in traces], fd)
        rc, text = run_tlc(module, "INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\nCONSTANT InitOp <- Init0\nCONSTANT DoOp <- Do\n", workers=workers,
                           env={"TRACES": path}, timeout=timeout, heap=heap)
        bad = [unprint(l, "@@B") for l in text.splitlines() if l.startswith('"@@B')]
        gen, dist = stats(text)
        if rc != 0 or "No error has been found" not in text:
            raise MachineryError("trace check %s failed (rc=%s):\n%s" % (module, rc, text[-4000:]))
        short = {b["tr"]: b["at"] for b in bad}
        want = sum(short.get(i + 1, len(t["ev"])) + 1 for i, t in enumerate(traces))
        if dist != want:
            raise MachineryError("trace check %s: %d distinct states, expected %d" % (module, dist, want))
        return bad, dist
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
