#!/usr/bin/env python3
"""Decides one property:  check.py PROPERTY [quick|thorough] [--replay FILE]

Builds the driver (and the tools) from /repo's working tree, has it perform
library calls, and has TLC check what it recorded against the specification in
/verif/spec (module Trace), after checking the specification's own models.
See DESIGN.md.
"""
import concurrent.futures, glob, json, os, random, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC, DRIVER = os.path.join(HERE, "spec"), os.path.join(HERE, "driver")
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "tools"))
from plan import PLAN  # noqa: E402

TLA = "/opt/veriftools/tla"
CP = ":".join([os.path.join(TLA, "tla2tools.jar")] + sorted(glob.glob(TLA + "/*.jar")))
GO_ENV = dict(os.environ, GOFLAGS="-mod=mod", GOTOOLCHAIN="local", GOPROXY="off")
CHUNKS = 8


class Broken(Exception):
    """The check itself did not work."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Work:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.dir = tempfile.mkdtemp(prefix="verif-" + prop + "-")
        self.n = 0
        self.bins = {}
        self.syntax = os.path.join(self.dir, "syntax.json")
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.other, self.models = [], {}, []

    def sub(self, name):
        self.n += 1
        d = os.path.join(self.dir, "%02d-%s" % (self.n, name))
        os.mkdir(d)
        return d

    # ---- building

    def build(self, what):
        """what: driver, race (the driver with the race detector) or cli."""
        if what in self.bins:
            return self.bins[what]
        out = os.path.join(self.dir, what)
        if what == "cli":
            cmd, cwd = ["go", "build", "-o", out, "."], REPO
        else:
            src = os.path.join(self.dir, "src-" + what)
            shutil.copytree(DRIVER, src)
            if REPO != "/repo":
                m = os.path.join(src, "go.mod")
                s = open(m).read().replace("=> /repo", "=> " + REPO)
                open(m, "w").write(s)
            cmd, cwd = ["go", "build"] + (["-race"] if what == "race" else []) + ["-o", out, "."], src
        p = subprocess.run(cmd, cwd=cwd, env=GO_ENV, capture_output=True, text=True, timeout=600)
        if p.returncode:
            raise Broken("cannot build %s:\n%s" % (what, p.stderr))
        self.bins[what] = out
        return out

    # ---- TLC

    def tlc(self, module, cfg=None, env=None, timeout=800, workers=8, heap="8g", extra=(), name=None):
        d = self.sub("tlc-" + module)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-cp", CP, "tlc2.TLC",
               "-noGenerateSpecTE", "-metadir", os.path.join(d, "md"), "-workers", str(workers),
               "-config", (cfg or module) + ".cfg", *extra, module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), capture_output=True,
                               text=True, timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired:
            raise Broken("TLC did not finish %s within %d s" % (module, timeout))
        finally:
            shutil.rmtree(os.path.join(d, "md"), ignore_errors=True)
        open(os.path.join(d, "out"), "w").write(p.stdout + p.stderr)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", p.stdout)
        gen, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        return p.returncode, p.stdout + p.stderr, gen, dist

    def export(self):
        if not os.path.exists(self.syntax):
            rc, out, _, _ = self.tlc("Export", env={"SYNTAX_OUT": self.syntax}, workers=1, timeout=120)
            if not os.path.exists(self.syntax):
                raise Broken("TLC cannot export the syntax:\n" + out[-2000:])

    def model(self, m):
        """Checks one of the specification's own models."""
        d = self.sub("model-" + m["module"])
        env = {"OUT_DIR": d, "VERIF_SEED": str(self.seed)}
        env.update(m.get("env", {}))
        rc, out, gen, dist = self.tlc(m["module"], m.get("cfg"), env=env, timeout=m.get("timeout", 700),
                                      extra=m.get("extra", ()), heap=m.get("heap", "8g"))
        self.states += dist
        self.transitions += gen
        expect = m.get("violates")
        bad = re.findall(r"Invariant (\w+) is violated|Action property (\w+) is violated|property (\w+) (?:is|was) violated", out)
        names = {x for t in bad for x in t if x}
        if expect:  # a deliberately broken design, to show that the property is not vacuous
            if expect not in names:
                raise Broken("model %s should violate %s:\n%s" % (m.get("cfg", m["module"]), expect, out[-2000:]))
        elif "No error has been found" not in out:
            raise Broken("model %s:\n%s" % (m.get("cfg", m["module"]), out[-3000:]))
        self.models.append({"model": m.get("cfg", m["module"]), "states": dist, "transitions": gen,
                            "name": m.get("name", ""), "result": ("violates " + expect + " as it must") if expect else "holds"})
        return d, out

    # ---- recording and validating

    def record(self, run, seed):
        """Runs the driver.  Returns (directory, crash or None)."""
        d = self.sub("run")
        race = run.get("par", 0) > 0
        exe = self.build("race" if race else "driver")
        cmd = [exe, "-seed", str(seed), "-out", d, "-syntax", self.syntax, "-chunks", str(CHUNKS)]
        if "script" in run:
            cmd += ["-script", run["script"]]
        elif "hammer" in run:
            cmd += ["-hammer", str(run["hammer"])]
        else:
            cmd += ["-mix", run["mix"], "-n", str(run["n"])]
        if race:
            cmd += ["-par", str(run["par"])]
        if run.get("cli"):
            cmd += ["-cli", self.build("cli")]
        if run.get("zone"):
            cmd += ["-zone", str(run["zone"])]
        env = dict(os.environ, GOTRACEBACK="all", GORACE="halt_on_error=1 exitcode=66", GOMAXPROCS="8")
        try:
            p = subprocess.run(cmd, env=env, capture_output=True, text=True, timeout=run.get("timeout", 600), errors="replace")
        except subprocess.TimeoutExpired:
            raise Broken("the driver did not finish within its time")
        if p.returncode == 0:
            return d, None
        err = p.stderr
        if p.returncode == 3 and os.path.exists(os.path.join(d, "hang.txt")):
            return d, ("hang", open(os.path.join(d, "hang.txt")).read())
        if p.returncode == 66 or "WARNING: DATA RACE" in err:
            i = err.find("WARNING: DATA RACE")
            return d, ("race", err[i:i + 6000])
        if "pkg/scte35" in err and ("fatal error:" in err or "panic:" in err or "goroutine stack exceeds" in err):
            return d, ("crash", err[:6000])
        raise Broken("the driver failed (%d):\n%s" % (p.returncode, err[-3000:]))

    def validate(self, d, zone=0):
        """Checks the traces of directory d.  Returns a list of (chain, pos, step, labels)."""
        counts = []
        for i in range(CHUNKS):
            with open(os.path.join(d, "trace%d.ndjson" % i), "rb") as f:
                counts.append(sum(1 for _ in f))
        for i in range(CHUNKS):  # TLC cannot read an empty file
            if counts[i] == 0:
                open(os.path.join(d, "trace%d.ndjson" % i), "w").write(
                    json.dumps({"n": 1, "sigs": [], "bufs": [], "docs": [],
                                "evs": [{"op": "look", "s": 1, "panic": "", "obs": [0]}]}) + "\n")
                counts[i] = 1
        rc, out, gen, dist = self.tlc("Trace", env={"TRACE_DIR": d, "ZONE": str(zone)}, timeout=850)
        self.states += dist
        self.transitions += gen
        bad = []
        for m in re.finditer(r'<<\s*"BAD",\s*(\d+),\s*(\d+),\s*(\d+),\s*\{([^}]*)\}', out):
            bad.append((int(m[1]), int(m[2]), int(m[3]), sorted(re.findall(r'"([^"]+)"', m[4]))))
        ends = dict((int(a), int(b)) for a, b in re.findall(r'<<"END", (\d+), (\d+)>>', out))
        if ends != {i + 1: c for i, c in enumerate(counts)} or "No error has been found" not in out:
            # a record that the specification cannot even make sense of
            st = re.findall(r"/\\ chain = (\d+)", out), re.findall(r"/\\ pos = (\d+)", out), re.findall(r"/\\ step = (\d+)", out)
            if re.search(r"Attempted to|evaluating|evaluated|overridden", out) and all(st) and "OutOfMemory" not in out and "StackOverflow" not in out:
                i = out.find("Error: ")
                bad.append((int(st[0][-1]), int(st[1][-1]), int(st[2][-1]), ["senseless"]))
                log(out[i:i + 3000])
            else:
                raise Broken("TLC did not validate all traces:\n" + out[-3000:])
        self.traces += sum(counts)
        return bad, counts

    def trace(self, d, chain, pos):
        with open(os.path.join(d, "trace%d.ndjson" % (chain - 1))) as f:
            for i, l in enumerate(f):
                if i == pos - 1:
                    return json.loads(l)

    def sample(self, d):
        for i in range(2):
            t = self.trace(d, 1 + (self.seed + i) % CHUNKS, 1)
            if t and len(self.samples) < 4:
                self.samples.append(shorten(t))


def text_of(b):
    return bytes(b).hex() if any(x > 126 or x < 32 for x in b) else bytes(b).decode()


def shorten(t, step=None):
    """A trace as something to read."""
    evs = []
    for i, e in enumerate(t["evs"]):
        x = {"op": e["op"], "slot": e["s"]}
        for k, v in e.items():
            if k in ("op", "s", "obs") or v in ("", None):
                continue
            if k in ("in", "out", "errs") and isinstance(v, int):
                x[k] = text_of(t["bufs"][v - 1])[:400] if v else None
            elif k not in ("rows", "hex", "b64", "json", "xml"):
                x[k] = v
        if step is not None and i == step - 1:
            x["holds"] = t["sigs"][e["obs"][e["s"] - 1] - 1] if e["obs"][e["s"] - 1] else None
        evs.append(x)
    if step is not None:
        evs = evs[:step]
    return {"events": evs[-12:]}


def matches(label, patterns):
    return any(re.fullmatch(p, label) for p in patterns)


def known_findings(prop):
    """Lines `finding: property=<id> label=<label> call=<op> input=<hex or text> <what fails>`."""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"finding: property=(\S+) label=(\S+) op=(\S+) input=(\S+) (.*)", l)
        if m and m[1] == prop:
            out.append(m.groups()[1:])
    return out


def event_input(t, e):
    if "in" in e and e["in"]:
        return text_of(t["bufs"][e["in"] - 1])
    return "-"


def violation(w, kind, data):
    d = os.path.join(HERE, "build", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%d.json" % (w.prop, kind, w.seed))
    json.dump(data, open(path, "w"), indent=1)
    print("VIOLATION property=%s replay=%s" % (w.prop, path), flush=True)


def run_check(prop, tier, seed, replay=None):
    plan = PLAN[prop]
    t0 = time.time()
    w = Work(prop, tier, seed)
    violations = 0
    try:
        runs = []
        models = [m for m in plan.get("models", []) if tier in m.get("tiers", ("quick", "thorough"))]
        pool = concurrent.futures.ThreadPoolExecutor(3)
        builds = [pool.submit(w.build, "race" if any(r.get("par") for r in plan["runs"]) else "driver")]
        if any(r.get("cli") for r in plan["runs"]):
            builds.append(pool.submit(w.build, "cli"))
        builds.append(pool.submit(w.export))
        for f in builds:
            f.result()
        for m in models:
            d, out = w.model(m)
            # the sessions that the model wrote down
            files = sorted(glob.glob(os.path.join(d, "*.ndjson")))
            if files and not m.get("silent"):
                script = os.path.join(d, "script")
                with open(script, "wb") as f:
                    for x in files:
                        f.write(open(x, "rb").read())
                        os.remove(x)
                runs.append({"script": script, "model": m.get("name", m["module"]), "cli": m.get("cli", False), "par": m.get("par", 0)})
        for r in plan["runs"]:
            if tier in r.get("tiers", ("quick", "thorough")):
                reps = 1 if tier == "quick" else plan.get("rounds", 12)
                for k in range(reps):
                    runs.append(dict(r, seed=seed * 1000 + k))
        if replay:
            j = json.load(open(replay))
            runs = [j["run"]]
        known = known_findings(prop)
        said = set()
        budget = 780 if tier == "quick" else plan.get("budget", 3600)
        done = 0
        for r in runs:
            if time.time() - t0 > budget:
                break
            s = r.get("seed", seed)
            d, crash = w.record(r, s)
            done += 1
            if crash:
                what, text = crash
                if what == "race" and prop != "C11":
                    raise Broken("data race:\n" + text)
                violations += 1
                violation(w, what, {"run": r, "seed": s, "what": what, "text": text})
                log(what, text[:3000])
                break
            bad, counts = w.validate(d, r.get("zone", 0))
            w.sample(d)
            w.events += sum(1 for _ in range(0))
            for chain, pos, step, labels in sorted(bad):
                t = w.trace(d, chain, pos)
                e = t["evs"][step - 1]
                hit = [l for l in labels if matches(l, plan["focus"])]
                for l in labels:
                    if l not in hit:
                        w.other[l] = w.other.get(l, 0) + 1
                new = []
                for l in hit:
                    k = [f for f in known if f[0] == l and f[1] == e["op"] and f[2] == event_input(t, e)]
                    if k:
                        said.add(k[0])
                    else:
                        new.append(l)
                if new:
                    violations += 1
                    if violations <= 3:
                        violation(w, "%d" % violations, {
                            "run": r, "seed": s, "labels": new, "all_labels": labels,
                            "chain": chain, "pos": pos, "step": step, "event": e,
                            "history": shorten(t, step), "trace": t})
                        log("deviation", new, json.dumps(shorten(t, step))[:2500])
            if violations:
                break
            shutil.rmtree(d, ignore_errors=True)
        for k in sorted(said):
            print("KNOWN-FINDING: property=%s %s" % (prop, k[3]))
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
              "coverage": {"states": w.states, "transitions": w.transitions,
                           "traces_validated_against_impl": w.traces,
                           "runs": done, "models": w.models, "samples": w.samples or ["none: ended by a violation"],
                           "deviations_of_other_properties": w.other,
                           "exhaustive": False},
              "assumptions": plan.get("assumptions", []),
              "wall_s": round(time.time() - t0, 1), "violations": violations}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
        log("%s: %d traces, %d states, %d violations, %.1f s" % (prop, w.traces, w.states, violations, time.time() - t0))
        return 1 if violations else 0
    finally:
        if os.environ.get("VERIF_KEEP"):
            log("kept", w.dir)
        else:
            shutil.rmtree(w.dir, ignore_errors=True)


def setup():
    """Shows that everything the checks need is there."""
    w = Work("setup", "quick", 1)
    try:
        w.export()
        w.build("driver")
        w.build("cli")
        w.build("race")
        for m in sorted(glob.glob(os.path.join(SPEC, "*.tla"))):
            p = subprocess.run(["java", "-cp", CP, "tla2sany.SANY", os.path.basename(m)], cwd=SPEC, capture_output=True, text=True)
            if p.returncode or re.search(r"Semantic errors|Parse Error|Could not parse", p.stdout):
                raise Broken(p.stdout)
    finally:
        shutil.rmtree(w.dir, ignore_errors=True)
    return 0


def main():
    a = sys.argv[1:]
    try:
        if a == ["--setup"]:
            return setup()
        replay = None
        if "--replay" in a:
            i = a.index("--replay")
            replay = a[i + 1]
            del a[i:i + 2]
        prop = a[0]
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        return run_check(prop, tier, int(os.environ.get("VERIF_SEED", "1")), replay)
    except Broken as e:
        log("ERROR:", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
