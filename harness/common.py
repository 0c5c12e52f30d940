"""Shared by the checks: driving the code, collecting coverage, reporting."""
import hashlib, json, os, re, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
import tlc as limits
from tlc import *

PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
REPO = os.environ.get("HRDC_REPO", "/repo")
os.environ["HUT"] = os.path.join(SPEC, "hut.json")
FINDINGS = os.path.join(VERIF, "findings", "known_findings.txt")


def drive(cmd, cases, work, timeout=600, tag=""):
    """Run cases through the real code; numbers them; returns the records."""
    inp = os.path.join(work, "drv-in-%s%s.ndjson" % (cmd, tag))
    outp = os.path.join(work, "drv-out-%s%s.ndjson" % (cmd, tag))
    for i, c in enumerate(cases):
        c["id"] = i
    with open(inp, "w") as f:
        for c in cases:
            f.write(json.dumps(c, separators=(",", ":")) + "\n")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", HRDC_REPO=REPO, PYTHONHASHSEED="0")
    try:
        p = subprocess.run([PY, os.path.join(HERE, "drv.py"), cmd, inp, outp], cwd=work, timeout=timeout * limits.slack,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env)
    except subprocess.TimeoutExpired:
        raise MachineryError("driver %s timed out" % cmd)
    if p.returncode != 0:
        raise MachineryError("driver %s failed:\n%s" % (cmd, p.stdout[-3000:]))
    with open(outp) as f:
        recs = [json.loads(l) for l in f]
    os.unlink(inp)
    os.unlink(outp)
    if len(recs) != len(cases):
        raise MachineryError("driver %s returned %d records for %d cases" % (cmd, len(recs), len(cases)))
    return recs


def case_key(cmd, case):
    c = {k: v for k, v in case.items() if k != "id"}
    return hashlib.sha256((cmd + json.dumps(c, sort_keys=True)).encode()).hexdigest()[:16]


def load_known(prop):
    """known: property=<id> case=<key> <what fails>  (fixed: lines suppress nothing)"""
    res = {}
    if os.path.exists(FINDINGS):
        with open(FINDINGS) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) case=(\S+) (.*)", line)
                if m and m.group(1) == prop:
                    res[m.group(2)] = m.group(3).strip()
    return res


class Ctx:
    def __init__(self, prop, tier, seed, work):
        self.prop, self.tier, self.seed, self.work = prop, tier, seed, work
        self.thorough = tier == "thorough"
        limits.slack = 6 if self.thorough else 1
        self.states = self.transitions = self.traces = 0
        self.samples, self.bad, self.info, self.parts = [], [], {}, []
        self.assumptions, self.exhaustive_parts = [], []
        self.known = load_known(prop)
        self.lock = threading.Lock()
        self.wall = 0.0
        self.n = 0

    # ---- specification side ------------------------------------------------
    def q(self, quick, thorough):
        return thorough if self.thorough else quick

    def mc(self, module, spec="Spec", invs=(), env=None, emit=False, timeout=800, workers=None, props=(), constants=(), xmx="4g"):
        """Exhaustive exploration of a model, checking invs in every state; with
        emit, also returns the behaviours it writes."""
        d = tempfile.mkdtemp(prefix="mc-", dir=self.work)
        out = os.path.join(d, "out.ndjson")
        cfg = "SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n" % spec
        cfg += "".join("INVARIANT %s\n" % i for i in invs) + "".join("PROPERTY %s\n" % p for p in props)
        cfg += "".join("CONSTANT %s\n" % c for c in constants)
        w = 1 if emit else (workers or 4)
        rc, txt, st = tlc(module, cfg, self.work, env=dict(env or {}, OUT=out), args=["-workers", str(w)],
                          timeout=timeout, tag="mc", xmx=xmx)
        if rc != 0:
            raise MachineryError("model %s (%s) does not satisfy its own properties:\n%s" % (module, env, txt[-4000:]))
        with self.lock:
            self.states += st["distinct"]
            self.transitions += st["generated"]
            self.parts.append("%s %s: %d distinct states, all of %s" % (
                module, json.dumps(env or {}, sort_keys=True), st["distinct"], ", ".join(list(invs) + list(props)) or "no invariant"))
        cases = []
        if emit:
            if not os.path.exists(out):
                raise MachineryError("model %s (%s) emitted no behaviour" % (module, env))
            with open(out) as f:
                cases = [json.loads(l) for l in f if l.strip()]
        return cases

    def mc_all(self, jobs):
        """Several mc() calls at once; returns the concatenated behaviours."""
        with ThreadPoolExecutor(max_workers=NPROC) as ex:
            res = list(ex.map(lambda kw: self.mc(**kw), jobs))
        return [c for r in res for c in r]

    def random(self, module, spec="RandSpec", num=1000, depth=40, env=None, shards=4, salt=0):
        cases, st = generate_random(module, spec, self.work, self.seed + 7919 * salt, num, depth, env=env, shards=shards,
                                    prefix="gen%d" % salt)
        with self.lock:
            self.transitions += st
            self.parts.append("%s: %d random behaviours (%d steps)" % (module, len(cases), st))
        return cases

    # ---- code side ---------------------------------------------------------
    def conform(self, cmd, cases, module, env=None, label=None, timeout=600):
        """Replay cases into the code and validate what it did against the spec."""
        if not cases:
            raise MachineryError("no cases for %s" % cmd)
        self.n += 1
        recs = drive(cmd, cases, self.work, timeout=timeout, tag=str(self.n))
        bad, info, st = validate(module, recs, self.work, env=env)
        self.traces += len(recs)
        self.transitions += st
        self.parts.append("%s: %d traces of the code (%s) validated, %d rejected" % (module, len(recs), label or cmd, len(bad)))
        for k, v in info.items():
            self.info[k] = self.info.get(k, 0) + v
        for i in sorted(set([0, len(recs) // 2, len(recs) - 1])):
            if len(self.samples) < 6:
                self.samples.append({"driver": cmd, "case": trunc(cases[i]), "recorded": trunc(recs[i])})
        for i, clause in bad:
            self.bad.append({"driver": cmd, "module": module, "env": env or {}, "clause": clause, "case": cases[i],
                             "recorded": recs[i], "key": case_key(cmd, cases[i])})
        return recs

    # ---- results -----------------------------------------------------------
    def write_evidence(self):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces, "samples": self.samples,
                           "parts": self.parts, "info": self.info},
              "assumptions": self.assumptions or ["TLC, the JVM and the Python driver are correct; bounds as listed in parts"],
              "wall_s": round(self.wall, 2),
              "violations": len([b for b in self.bad if b["key"] not in self.known])}
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def report(self):
        new, old = [], {}
        for b in self.bad:
            if b["key"] in self.known:
                old[b["key"]] = self.known[b["key"]]
            else:
                new.append(b)
        for k, what in sorted(old.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        for p in self.parts:
            print("  " + p)
        if self.info:
            print("  info: %s" % json.dumps(self.info, sort_keys=True))
        if not new:
            print("OK property=%s states=%d transitions=%d traces=%d wall=%.1fs" % (
                self.prop, self.states, self.transitions, self.traces, self.wall))
            return 0
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        shown = set()
        for b in new:
            kind = re.sub(r"\d+", "N", b["clause"])[:60]
            if kind in shown or len(shown) >= 4:
                continue
            shown.add(kind)
            path = os.path.join(d, "%s-%s.json" % (self.prop, b["key"]))
            with open(path, "w") as f:
                json.dump(dict(b, property=self.prop), f, indent=1)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  clause: %s" % b["clause"])
            print("  case: %s" % json.dumps(trunc({k: v for k, v in b["case"].items() if k != "id"})))
        print("%d of %d traces rejected" % (len(new), self.traces))
        return 1


def trunc(x, n=1500):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + "..."
