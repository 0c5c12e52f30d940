"""run_check.py ID [--tier quick|thorough]: decide one property.

Exit 0: held on everything explored.  Exit 1: "VIOLATION property=ID
replay=PATH".  Anything else is a failure of the machinery.
"""
import argparse, hashlib, json, os, shutil, sys, tempfile, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
import checks


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    work = tempfile.mkdtemp(prefix="hrdc-%s-" % a.prop)
    ctx = Ctx(a.prop, a.tier, seed, work)
    t0 = time.time()
    try:
        checks.CHECKS[a.prop](ctx)
        ctx.wall = time.time() - t0
        ctx.write_evidence()
        return ctx.report()
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    try:
        rc = main()
    except MachineryError as e:
        print("MACHINERY ERROR:", e)
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.exit(rc)
