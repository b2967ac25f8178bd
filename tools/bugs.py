#!/usr/bin/env python3
"""Writes /verif/seeded from the list below, and measures what catches what.

  bugs.py write [ID...]     make patches, demonstrations and meta.json in a scratch copy,
                            after confirming that the change compiles, that the tests pass,
                            and that the demonstration fails with it and passes without
  bugs.py matrix [ID...]    run the check of each bug's property against it

No check uses this file or /verif/seeded.
"""
import json, os, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
ENV = dict(os.environ, GOFLAGS="-mod=mod", GOTOOLCHAIN="local", GOPROXY="off")
P = "pkg/scte35/"
BUGS = []

DEMO_SH = '''#!/bin/sh
# exits 0 iff the demonstration beside this file passes on the tree in the current directory
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off
tmp=$(mktemp -d) || exit 2
printf '{"Replace": {"%s/@DIR@/zz_demo_test.go": "%s/demo_test.go.txt"}}' "$PWD" "$here" > "$tmp/overlay.json"
go test @FLAGS@ -overlay "$tmp/overlay.json" -vet=off -count=1 -run '^TestDemo$' ./@DIR@
rc=$?
rm -f "$tmp/overlay.json"
rmdir "$tmp"
exit $rc
'''

HEAD = '''package %s

import (
%s)

'''


def bug(id, prop, needs, breaks, edits, demo, flags="", dir="pkg/scte35"):
    BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, flags=flags, dir=dir))


STD = {"bytes": "bytes.", "encoding/json": "json.", "encoding/xml": "xml.", "encoding/hex": "hex.", "strings": "strings.",
       "encoding/base64": "base64.", "sync": "sync.", "errors": "errors.", "time": "time.", "reflect": "reflect.", "fmt": "fmt.",
       "os": "os.", "os/exec": "exec.", "encoding/binary": "binary.", "io": "io.", "log": "log.", "path/filepath": "filepath."}

HELP = {
    "sec": '''
// sec makes a section of a command and descriptors, with a correct CRC_32.
func sec(typ byte, cmd []byte, descs []byte) []byte {
	b := []byte{0xFC, 0x30, 0, 0, 0, 0, 0, 0, 0, 0, 0xFF, 0xF0, byte(len(cmd)), typ}
	b[11] |= byte(len(cmd) >> 8)
	b = append(b, cmd...)
	b = append(b, byte(len(descs)>>8), byte(len(descs)))
	b = append(b, descs...)
	return seal(b)
}

func seal(b []byte) []byte {
	n := len(b) + 4 - 3
	b[1], b[2] = b[1]&0xF0|byte(n>>8), byte(n)
	crc := uint32(0xFFFFFFFF)
	for _, x := range b {
		crc ^= uint32(x) << 24
		for i := 0; i < 8; i++ {
			if crc&0x80000000 != 0 {
				crc = crc<<1 ^ 0x04C11DB7
			} else {
				crc <<= 1
			}
		}
	}
	return append(b, byte(crc>>24), byte(crc>>16), byte(crc>>8), byte(crc))
}
''',
    "p32": '''
func p32(v uint32) *uint32 { return &v }
''',
    "p64": '''
func p64(v uint64) *uint64 { return &v }
''',
    "again": '''
// again encodes and decodes a signal.
func again(t *testing.T, s *scte35.SpliceInfoSection) *scte35.SpliceInfoSection {
	t.Helper()
	b, err := s.Encode()
	if err != nil {
		t.Fatal(err)
	}
	r := &scte35.SpliceInfoSection{}
	if err := r.Decode(b); err != nil {
		t.Fatalf("%x: %v", b, err)
	}
	return r
}
''',
    "sig": '''
func sig(c scte35.SpliceCommand, ds ...scte35.SpliceDescriptor) *scte35.SpliceInfoSection {
	return &scte35.SpliceInfoSection{SAPType: 3, Tier: 0xFFF, SpliceCommand: c, SpliceDescriptors: ds}
}
''',
}


def demo_source(b):
    body = b["demo"]
    for name in ("again", "sec", "sig", "p32", "p64"):
        if re.search(r"\b%s\(" % name, body):
            body += HELP[name]
    imports = sorted(k for k, v in STD.items() if re.search(r"(?<![\w.])" + re.escape(v), body)) + ["testing"]
    s = "".join('\t"%s"\n' % i for i in sorted(imports))
    if "scte35." in body:
        s += '\n\t"github.com/Comcast/scte35-go/pkg/scte35"\n'
    pk = {"pkg/scte35": "scte35_test", "cmd": "cmd_test"}[b["dir"]]
    return HEAD % (pk, s) + body.strip() + "\n"


def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **kw)


def clone(d):
    p = run(["git", "clone", "-q", "/repo", d], "/")
    if p.returncode:
        raise SystemExit(p.stderr)


def stable():
    j = json.load(open("/opt/vp/BASELINE.json"))
    return j


def tests_pass(d):
    p = run("go build ./... && go test -vet=off -count=1 ./...", d, shell=True)
    return p.returncode == 0, p.stdout[-3000:] + p.stderr[-3000:]


def original_lines_only(d):
    """Every removed line, or the neighbourhood of an insertion, is the original repository's."""
    base = run(["git", "rev-list", "--max-parents=0", "HEAD"], d).stdout.strip()
    diff = run(["git", "diff", "-U0"], d).stdout
    cur, bad = None, []
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            cur = l[6:]
        m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
        if m:
            a, n = int(m[1]), int(m[2] or 1)
            lo, hi = (a, a + n - 1) if n else (a, a)
            bl = run(["git", "blame", "-l", "-s", "-L", "%d,%d" % (lo, hi), "HEAD", "--", cur], d).stdout
            for x in bl.splitlines():
                if not x.lstrip("^").startswith(base[:38]):
                    bad.append(x)
    return bad


def write(ids):
    d = tempfile.mkdtemp(prefix="bugs-")
    repo = os.path.join(d, "repo")
    clone(repo)
    ok = True
    try:
        for b in BUGS:
            if ids and b["id"] not in ids:
                continue
            out = os.path.join(SEEDED, b["id"])
            stage = os.path.join(d, "stage-" + b["id"])
            os.makedirs(stage)
            open(os.path.join(stage, "demo_test.go.txt"), "w").write(demo_source(b))
            open(os.path.join(stage, "demo.sh"), "w").write(DEMO_SH.replace("@FLAGS@", b["flags"]).replace("@DIR@", b["dir"]))
            os.chmod(os.path.join(stage, "demo.sh"), 0o755)
            why = []
            p = run(["gofmt", "-l", os.path.join(stage, "demo_test.go.txt")], d)
            p = run(["sh", os.path.join(stage, "demo.sh")], repo)
            if p.returncode:
                why.append("demo fails on the unchanged tree:\n" + p.stdout[-2500:] + p.stderr[-1500:])
            for f, old, new in b["edits"]:
                path = os.path.join(repo, f)
                s = open(path).read()
                if s.count(old) != 1:
                    why.append("%s: %d matches of %r" % (f, s.count(old), old))
                    continue
                open(path, "w").write(s.replace(old, new))
            p = run(["gofmt", "-w", "pkg", "cmd"], repo)
            if not why:
                good, text = tests_pass(repo)
                if not good:
                    why.append("tests: " + text)
                p = run(["sh", os.path.join(stage, "demo.sh")], repo)
                if p.returncode == 0:
                    why.append("demo passes with the change")
                elif "[build failed]" in p.stdout or "[setup failed]" in p.stdout:
                    why.append("demo does not build: " + p.stdout + p.stderr)
                bad = original_lines_only(repo)
                if bad:
                    why.append("touches lines of fixes: " + "\n".join(bad))
            diff = run(["git", "diff"], repo).stdout
            run(["git", "checkout", "-q", "--", "."], repo)
            run(["git", "clean", "-fdq"], repo)
            if why:
                ok = False
                print("BAD %s: %s" % (b["id"], "; ".join(why)))
                continue
            open(os.path.join(stage, "patch.diff"), "w").write(diff)
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                      open(os.path.join(stage, "meta.json"), "w"), indent=1)
            os.makedirs(out, exist_ok=True)
            for f in os.listdir(stage):
                shutil.copy(os.path.join(stage, f), os.path.join(out, f))
            print("ok  " + b["id"], flush=True)
    finally:
        shutil.rmtree(d)
    return ok


def matrix(ids, props=None, tier="quick"):
    d = tempfile.mkdtemp(prefix="bugs-")
    repo = os.path.join(d, "repo")
    clone(repo)
    res = {}
    try:
        for id in sorted(os.listdir(SEEDED)):
            if ids and id not in ids:
                continue
            meta = json.load(open(os.path.join(SEEDED, id, "meta.json")))
            p = run(["git", "apply", os.path.join(SEEDED, id, "patch.diff")], repo)
            if p.returncode:
                print(id, "does not apply", p.stderr)
                continue
            for prop in (props or [meta["property"]]):
                p = subprocess.run([sys.executable, os.path.join(HERE, "tools", "check.py"), prop, tier],
                                   env=dict(os.environ, VERIF_REPO=repo), capture_output=True, text=True)
                lab = re.findall(r"^deviation (\[.*?\])", p.stderr, re.M)
                print("%-22s %s rc=%d %s" % (id, prop, p.returncode, lab[:1] or p.stderr.strip().splitlines()[-1:]), flush=True)
                res[id, prop] = p.returncode
            run(["git", "checkout", "-q", "--", "."], repo)
    finally:
        shutil.rmtree(d)
    return res


def load():
    g = dict(bug=bug, P=P)
    here = os.path.join(HERE, "tools", "bugs")
    for f in sorted(os.listdir(here)):
        if f.endswith(".py"):
            exec(compile(open(os.path.join(here, f)).read(), f, "exec"), g)


if __name__ == "__main__":
    load()
    if sys.argv[1] == "write":
        sys.exit(0 if write(sys.argv[2:]) else 1)
    if sys.argv[1] == "matrix":
        ids = [a for a in sys.argv[2:] if not re.fullmatch(r"C\d\d", a)]
        matrix(ids, [a for a in sys.argv[2:] if re.fullmatch(r"C\d\d", a)])
