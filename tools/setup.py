"""Offline sanity check of the tools the checks need; builds nothing."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
import tlc, tempfile, shutil
d = tempfile.mkdtemp()
try:
    rc, out, st = tlc.tlc("GenItem", "SPECIFICATION ItemSpec\nINVARIANT CodecOk\nCHECK_DEADLOCK FALSE\n", d,
                          env={"OUT": os.path.join(d, "o")}, args=["-workers", "1"])
    print(out[-300:])
    sys.exit(0 if rc == 0 else 1)
finally:
    shutil.rmtree(d, ignore_errors=True)
