"""Running TLC: model checking, behaviour generation, trace validation."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = max(2, min(8, os.cpu_count() or 2))


# time limits are multiplied by this
slack = 1


class MachineryError(Exception):
    """The check itself could not run (not a verdict about the code)."""


def tlc(module, cfg, work, env=None, args=(), timeout=600, xmx="2g", tag=""):
    """Run TLC on spec/<module>.tla; returns (rc, output, stats)."""
    d = tempfile.mkdtemp(prefix="tlc-%s-" % (tag or module), dir=work)
    cfgfile = os.path.join(d, module + ".cfg")
    with open(cfgfile, "w") as f:
        f.write(cfg)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ["java", "-Xmx" + xmx, "-Xss64m", "-XX:+UseSerialGC", "-XX:CICompilerCount=2",
           "-Djava.io.tmpdir=" + d, "-DTLA-Library=" + SPEC, "-cp", CP, "tlc2.TLC",
           "-config", cfgfile, "-metadir", os.path.join(d, "meta"), "-nowarning", "-noGenerateSpecTE"]
    cmd += list(args) + [os.path.join(SPEC, module + ".tla")]
    try:
        p = subprocess.run(cmd, env=e, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout * slack, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        raise MachineryError("TLC timed out on %s after %ss" % (module, timeout))
    out = "\n".join(l for l in p.stdout.split("\n") if not l.startswith(("Parsing file", "Semantic processing")))
    shutil.rmtree(d, ignore_errors=True)
    st = {"generated": 0, "distinct": 0}
    m = re.search(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
    if m:
        st["generated"] = int(m.group(1).replace(",", ""))
        st["distinct"] = int(m.group(2).replace(",", ""))
    m = re.search(r"The number of states generated: (\d+)", out)
    if m:
        st["generated"] = int(m.group(1))
    return p.returncode, out, st


def model_check(module, cfg, work, timeout=600, workers=4, env=None, xmx="4g"):
    """Exhaustive check of a model; any error of the model is a machinery error
    (models do not depend on /repo)."""
    rc, out, st = tlc(module, cfg, work, env=env, args=["-workers", str(workers), "-deadlock"],
                      timeout=timeout, xmx=xmx, tag="mc")
    if rc != 0:
        raise MachineryError("model %s does not satisfy its own properties:\n%s" % (module, out[-4000:]))
    return st


def generate_random(module, spec, work, seed, num, depth, env=None, shards=4, timeout=300, prefix="gen"):
    """Random behaviours by simulation; returns (cases, states)."""
    def one(i):
        out = os.path.join(work, "%s-%s-%d.ndjson" % (prefix, module, i))
        e = dict(env or {}, OUT=out)
        rc, txt, st = tlc(module, "SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n" % spec, work, env=e,
                          args=["-simulate", "num=%d" % max(1, num // shards), "-depth", str(depth),
                                "-seed", str(seed * 1000 + i), "-workers", "1"],
                          timeout=timeout, tag="gen")
        if rc != 0 or not os.path.exists(out):
            raise MachineryError("generation with %s failed:\n%s" % (module, txt[-3000:]))
        return out, st["generated"]
    return _collect(one, shards)


def generate_bfs(module, spec, work, envs, timeout=300, prefix="bfs"):
    """Exhaustive behaviours by breadth-first search, one TLC per environment."""
    def one(i):
        out = os.path.join(work, "%s-%s-%d.ndjson" % (prefix, module, i))
        e = dict(envs[i], OUT=out)
        rc, txt, st = tlc(module, "SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n" % spec, work, env=e,
                          args=["-workers", "1"], timeout=timeout, tag="bfs")
        if rc != 0 or not os.path.exists(out):
            raise MachineryError("enumeration with %s failed:\n%s" % (module, txt[-3000:]))
        return out, st["distinct"]
    return _collect(one, len(envs))


def _collect(one, n):
    cases, states, seen = [], 0, set()
    with ThreadPoolExecutor(max_workers=NPROC) as ex:
        for path, st in ex.map(one, range(n)):
            states += st
            with open(path) as f:
                for line in f:
                    line = line.rstrip("\n")
                    if line and line not in seen:
                        seen.add(line)
                        cases.append(json.loads(line))
            os.unlink(path)
    return cases, states


def validate(module, records, work, shards=NPROC, timeout=800, env=None, spec="TraceSpec", xmx="3g"):
    """Check recorded traces against spec/<module>.tla.  Each record must have
    a unique integer "id".  Returns (list of (id, clause), info counters, states)."""
    shards = max(1, min(shards, (len(records) + 19) // 20))
    def one(i):
        part = records[i::shards]
        if not part:
            return [], {}, 0
        tr = os.path.join(work, "trace-%s-%d.ndjson" % (module, i))
        res = os.path.join(work, "verdict-%s-%d.json" % (module, i))
        for f in (tr, res):
            if os.path.exists(f):
                os.unlink(f)
        with open(tr, "w") as f:
            for r in part:
                f.write(json.dumps(r, separators=(",", ":")) + "\n")
        rc, out, st = tlc(module, "SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n" % spec, work,
                          env=dict(env or {}, TRACE=tr, VERDICT=res), args=["-workers", "1"],
                          timeout=timeout, tag="val", xmx=xmx)
        if rc != 0 or not os.path.exists(res):
            keep = os.path.join(work, "failed-%s.txt" % module)
            with open(keep, "w") as f:
                f.write(out)
            raise MachineryError("trace validation with %s failed (%d):\n%s" % (module, rc, out[-3000:]))
        with open(res) as f:
            v = json.loads(f.read())
        if v["n"] != len(part):
            raise MachineryError("trace validation with %s consumed %d of %d records" % (module, v["n"], len(part)))
        os.unlink(tr)
        os.unlink(res)
        return [(b[0], b[1]) for b in v["bad"]], v.get("info", {}), st["distinct"]
    bad, info, states = [], {}, 0
    with ThreadPoolExecutor(max_workers=NPROC) as ex:
        for b, inf, st in ex.map(one, range(shards)):
            bad += b
            states += st
            for k, n in (inf or {}).items():
                info[k] = info.get(k, 0) + n
    bad.sort()
    return bad, info, states
