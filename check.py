"""check.py <property> [--tier quick|thorough] | check.py --replay <file>"""
import argparse
import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
PYC = tempfile.mkdtemp(prefix="verif_pyc_")
sys.pycache_prefix = PYC  # never use stale byte code of the tree under test
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, "harness"))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default="quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    a = ap.parse_args()
    import engine
    from plans import PLANS

    try:
        if a.replay:
            return engine.replay(a.replay)
        return engine.run_check(a.prop, a.tier, int(os.environ.get("VERIF_SEED", "1")), PLANS[a.prop])
    except engine.MachineryError as exc:
        print("MACHINERY ERROR: %s" % exc, file=sys.stderr)
        return 2


if __name__ == "__main__":
    try:
        rc = main()
    finally:
        shutil.rmtree(PYC, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)
