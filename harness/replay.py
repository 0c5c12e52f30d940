"""replay.py FILE: run one recorded violation again against /repo and print
the specification's verdict.  Exit 1 if it is still rejected."""
import json, os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *

with open(sys.argv[1]) as f:
    b = json.load(f)
work = tempfile.mkdtemp(prefix="hrdc-replay-")
try:
    recs = drive(b["driver"], [b["case"]], work)
    bad, info, _ = validate(b["module"], recs, work, env=b["env"])
finally:
    shutil.rmtree(work, ignore_errors=True)
print(json.dumps(recs[0], indent=1))
print("verdict:", bad[0][1] if bad else "accepted")
sys.exit(1 if bad else 0)
