#!/usr/bin/env python3
"""Small mechanical changes of the library, each judged by one run of all profiles.

  mutants.py run PART PARTS [N]   takes every PARTS-th change, sampled down to one in N
A change that compiles and passes the tests and is not noticed is printed as MISSED;
what to make of it (equivalent, left open, a gap) is for a human.
"""
import json, os, random, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import check  # noqa: E402

ENV = dict(os.environ, GOFLAGS="-mod=mod", GOTOOLCHAIN="local", GOPROXY="off")
MIX = ("decode:2,legacy:1,encode:3,round:3,damage:2,burst:1,partial:2,noise:1,schedule:2,text:1,json:3,both:1,unjson:3,unxml:3,xml:3,"
       "peers:1,pure:1,history:2,table:2,derived:1,names:2,upid:3,upids:2,time:2,limits:3,range:2,private:2")


def listing():
    fs = sorted(f for f in os.listdir("/repo/pkg/scte35") if f.endswith(".go") and not f.endswith("_test.go"))
    out = subprocess.run(["go", "run", "."] + ["/repo/pkg/scte35/" + f for f in fs], cwd=os.path.join(HERE, "mutate"), env=ENV,
                         capture_output=True, text=True, check=True).stdout
    return [m for m in map(json.loads, out.splitlines()) if "crc_32.go" not in m["file"] or not m["New"].isdigit()]  # not the table


def main():
    part, parts, every = int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]) if len(sys.argv) > 4 else 1
    ms = listing()
    if os.environ.get("NAMES"):  # only wrong names and tags
        ms = [m for m in ms if re.search(r": [A-Za-z]\w* -> [A-Za-z]\w*$|`", m["Where"])]
    print(len(ms), "changes", flush=True)
    random.Random(int(os.environ.get("VERIF_SEED", "1"))).shuffle(ms)
    ms = ms[:len(ms) // every][part::parts]
    repo = tempfile.mkdtemp(prefix="mutant-")
    shutil.rmtree(repo)
    shutil.copytree("/repo", repo)
    check.REPO = repo
    count = {"build": 0, "tests": 0, "seen": 0, "missed": 0}
    base = check.Work("mut", "quick", 1)
    base.export()
    for i, m in enumerate(ms):
        f = repo + m["file"][len("/repo"):]
        old = open(f, "rb").read()
        open(f, "wb").write(old[:m["From"]] + m["New"].encode() + old[m["To"]:])
        name = os.path.basename(f) + ":" + m["Where"].replace("\n", " ")[:150]
        try:
            if subprocess.run(["go", "build", "./..."], cwd=repo, env=ENV, capture_output=True).returncode:
                count["build"] += 1
                continue
            try:
                t = subprocess.run(["go", "test", "-vet=off", "-count=1", "./..."], cwd=repo, env=ENV, capture_output=True, timeout=60).returncode
            except subprocess.TimeoutExpired:
                t = 1
            if t:
                count["tests"] += 1
                continue
            w = check.Work("mut", "quick", 1)
            try:
                w.syntax = base.syntax
                d, crash = w.record({"mix": MIX, "n": 500, "timeout": 200}, 1)
                if crash:
                    labels = {crash[0]}
                else:
                    labels = {x for b in w.validate(d)[0] for x in b[3]}
            except check.Broken as e:
                labels = {"broken " + str(e)[:80]}
            finally:
                shutil.rmtree(w.dir, ignore_errors=True)
            count["seen" if labels else "missed"] += 1
            print("%-6s %s %s" % ("seen" if labels else "MISSED", name, " ".join(sorted(labels))[:80]), flush=True)
        finally:
            open(f, "wb").write(old)
    print("part", part, count, flush=True)
    shutil.rmtree(repo, ignore_errors=True)


if __name__ == "__main__":
    main()
