"""Development aid: turn a description of a planted bug (BUG files) into seeded/<id> after confirming, in a
scratch copy of /repo, that it compiles, passes the stable tests, and that the demonstration tells the two apart.
usage: plant.py FILE..   (a FILE defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO)
       plant.py --check ID.. (run the check of the property against the planted bug)"""
import json
import os
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def stable():
    with open("/opt/vp/BASELINE.json") as fd:
        b = json.load(fd)
    for k in ("passed", "stable", "tests", "pass"):
        if k in b:
            return set(b[k])
    return set(b)


def env(wt):
    e = dict(os.environ, PYTHONPATH=wt, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    return e


def copy(tag):
    wt = "/tmp/plant_" + tag
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", wt], check=True)
    subprocess.run("find . -name __pycache__ -prune -exec rm -rf {} +", shell=True, cwd=wt)
    return wt


def tests(wt):
    r = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--no-cov", "--timeout=300", "tests"], cwd=wt, env=env(wt), capture_output=True, text=True)
    fails = [l for l in r.stdout.splitlines() if l.startswith(("FAILED", "ERROR"))]
    return fails


def demo(d, wt):
    # elsewhere, without the patch
    tmp = wt + "_demo"
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree(d, tmp, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    r = subprocess.run(["bash", os.path.join(tmp, "demo.sh")], cwd=wt, env=dict(os.environ), capture_output=True, text=True, timeout=300)
    shutil.rmtree(tmp, ignore_errors=True)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def foreign(wt, diff):
    """Changed lines that are not lines of the original repository."""
    first = subprocess.run(["git", "rev-list", "--max-parents=0", "HEAD"], cwd=wt, capture_output=True, text=True).stdout.strip()
    out, f, n = [], None, 0
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
        elif l.startswith("@@"):
            n = int(l.split()[1][1:].split(",")[0])
        elif l.startswith("-") and not l.startswith("---"):
            b = subprocess.run(["git", "blame", "-sl", "-L%d,%d" % (n, n), "HEAD", "--", f], cwd=wt, capture_output=True, text=True).stdout
            if first[:30] not in b:
                out.append(l)
            n += 1
        elif l.startswith(" "):
            n += 1
    return out


def plant(path):
    ns = {}
    exec(open(path).read(), ns)  # noqa: S102
    d = os.path.join(ROOT, "seeded", ns["ID"])
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "demo.py"), "w") as fd:
        fd.write(ns["DEMO"].lstrip("\n"))
    if "vloop" in ns["DEMO"]:
        shutil.copy(os.path.join(ROOT, "harness", "vloop.py"), d)
    with open(os.path.join(d, "demo.sh"), "w") as fd:
        fd.write('#!/bin/bash\n# run with cwd = the repository under test\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    with open(os.path.join(d, "meta.json"), "w") as fd:
        json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, fd, indent=1)
    wt = copy(ns["ID"])
    base = demo(d, wt)
    base_fails = None
    for f, a, b in ns["EDITS"]:
        p = os.path.join(wt, f)
        s = open(p).read()
        if s.count(a) != 1:
            print(ns["ID"], "EDIT does not match once:", f, s.count(a), a)
            shutil.rmtree(wt)
            return False
        open(p, "w").write(s.replace(a, b))
    diff = subprocess.run(["git", "diff", "--", "pyzwave"], cwd=wt, capture_output=True, text=True).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    mine = foreign(wt, diff)
    if mine:
        print(ns["ID"], "touches lines of later commits:", mine)
    bug = demo(d, wt)
    fails = tests(wt)
    names = stable()
    bad = [l for l in fails if l.split(" - ")[0].split()[-1].replace("/", ".").replace(".py::", "::") in names]
    ok = base[0] == 0 and bug[0] != 0 and not bad
    print("%s: clean rc=%d bug rc=%d stable failures=%s %s" % (ns["ID"], base[0], bug[0], bad, "OK" if ok else "NOT USABLE"))
    if base[0] != 0:
        print("  clean:", base[1])
    if bug[0] == 0:
        print("  bug:", bug[1])
    else:
        print("  bug says:", bug[1].strip().splitlines()[-1][:200] if bug[1].strip() else "")
    if "--keep" not in sys.argv and not ok:
        shutil.rmtree(d)
    shutil.rmtree(wt)
    return ok


def check(bid):
    d = os.path.join(ROOT, "seeded", bid)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    wt = copy(bid)
    r = subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=wt, capture_output=True, text=True)
    if r.returncode:
        print(bid, "patch does not apply", r.stderr[:300])
        shutil.rmtree(wt)
        return
    r = subprocess.run([PY, "check.py", prop], cwd=ROOT, env=dict(os.environ, VERIF_REPO=wt), capture_output=True, text=True, timeout=900)
    v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
    print("%s %s rc=%d %s" % (bid, prop, r.returncode, "CAUGHT" if r.returncode == 1 and v else "MISSED"))
    for l in r.stdout.splitlines()[:4] + r.stderr.splitlines()[-3:]:
        print("    " + l[:260])
    shutil.rmtree(wt)


if __name__ == "__main__":
    if "--check" in sys.argv:
        for b in [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(os.path.join(ROOT, "seeded"))):
            check(b)
    else:
        for p in [a for a in sys.argv[1:] if not a.startswith("--")]:
            if plant(p):
                check(p.rsplit("/", 1)[-1][:-3])
