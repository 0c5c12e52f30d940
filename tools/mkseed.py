"""mkseed.py [ID...]: make and confirm planted bugs from seeds.py.

In a scratch copy of /repo: apply the edit, run build and tests, run the demo
with and without the edit; write /verif/seeded/<id>/ when all is as it must be.
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SEEDS = []


def seed(id, prop, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


exec(open(os.path.join(V, "tools", "seeds.py")).read())


def sh(cmd, cwd, **env):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **env), timeout=300)


def make(s):
    tmp = tempfile.mkdtemp(prefix="seed-")
    try:
        r = os.path.join(tmp, "repo")
        subprocess.check_call(["git", "clone", "-q", "/repo", r])
        d = os.path.join(tmp, "demo")
        os.mkdir(d)
        open(os.path.join(d, "demo.py"), "w").write(s["demo"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write(
            '#!/bin/bash\n# cwd: the repository\nhere=$(cd "$(dirname "$0")" && pwd)\n'
            'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec python3 "$here/demo.py"\n')
        ok = sh(["bash", os.path.join(d, "demo.sh")], r)
        if ok.returncode != 0:
            return "demo fails on the unchanged tree:\n" + ok.stdout[-1500:]
        for f, old, new in s["edits"]:
            p = os.path.join(r, f)
            t = open(p).read()
            if t.count(old) != 1:
                return "%d matches in %s of %r" % (t.count(old), f, old)
            open(p, "w").write(t.replace(old, new))
        t = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-o", "python_files=test*.py", "tests"], r)
        if t.returncode != 0 or "7 passed" not in t.stdout:
            return "tests do not pass:\n" + t.stdout[-1500:]
        b = sh([PY, "-c", "import compileall,sys; sys.exit(not compileall.compile_dir('hrdc', quiet=1))"], r, PYTHONPYCACHEPREFIX=tmp + "/pyc")
        if b.returncode != 0:
            return "does not compile"
        bad = sh(["bash", os.path.join(d, "demo.sh")], r)
        if bad.returncode == 0:
            return "demo passes with the change"
        if "Error" not in bad.stdout:
            return "demo fails oddly:\n" + bad.stdout
        diff = subprocess.check_output(["git", "diff"], cwd=r, text=True)
        for f, old, new in s["edits"]:
            base = subprocess.run(["git", "show", "d5826ff:" + f], cwd="/repo", stdout=subprocess.PIPE, text=True).stdout.split("\n")
            name, mine = "", []
            for l in diff.split("\n"):
                if l.startswith("--- a/"):
                    name = l[6:]
                elif l.startswith("-") and name == f and l[1:].strip() and l[1:] not in base:
                    mine.append(l)
            if mine:
                return "changes lines of a fix: %r" % mine
        out = os.path.join(V, "seeded", s["id"])
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        return ""
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


want = sys.argv[1:]
rc = 0
for s in SEEDS:
    if want and s["id"] not in want:
        continue
    e = make(s)
    print("%-28s %s" % (s["id"], "ok" if not e else "FAILED: " + e))
    rc |= bool(e)
sys.exit(rc)
