"""runseeds.py [ID...]: run each planted bug's check against a scratch copy of /repo."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(id):
    d = os.path.join(V, "seeded", id)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    tmp = tempfile.mkdtemp(prefix="rs-")
    try:
        r = tmp + "/repo"
        subprocess.check_call(["git", "clone", "-q", "/repo", r])
        subprocess.check_call(["git", "apply", os.path.join(d, "patch.diff")], cwd=r)
        v = tmp + "/verif"
        shutil.copytree(V, v, ignore=shutil.ignore_patterns(".git", "seeded", "replays"))
        p = subprocess.run([sys.executable, "harness/run_check.py", prop], cwd=v, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env=dict(os.environ, HRDC_REPO=r, VERIF_SEED="1", VERIF_TIER="quick"))
        return id, prop, p.returncode, [l for l in p.stdout.split("\n") if "VIOLATION" in l], p.stdout[-600:]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, "seeded")))
with ThreadPoolExecutor(2) as ex:
    for id, prop, rc, viol, tail in ex.map(one, ids):
        print("%-24s %s rc=%d %s" % (id, prop, rc, "caught (%d)" % len(viol) if rc == 1 and viol else "MISSED\n" + tail), flush=True)
