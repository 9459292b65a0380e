#!/usr/bin/env python3
"""Makes seeded/<id>/ from tools/seeds/<id>.txt and confirms each in a scratch copy of /repo.

A seed file: lines "property: X", "needs: ...", "breaks: ...", then blocks
    @@ file
    <<<<
    old text
    ====
    new text
    >>>>
and after a line "@@ demo" the body of demo_test.go.
usage: mkseeds.py [id ...]
"""
import json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.path.join(HERE, "tools", "seeds")
OUT = os.path.join(HERE, "seeded")
W = "/tmp/seedwork"


def sh(cmd, cwd=None):
    return subprocess.run(cmd, cwd=cwd, shell=True, text=True, capture_output=True, errors="replace")


def make(i):
    txt = open(os.path.join(SRC, i + ".txt")).read()
    head, demo = txt.split("@@ demo\n", 1)
    meta = dict(property=re.search(r"property: (.*)", head)[1], needs=re.search(r"needs: (.*)", head)[1], what_it_breaks=re.search(r"breaks: (.*)", head)[1])
    shutil.rmtree(W, ignore_errors=True)
    sh("git clone -q /repo %s" % W)
    for f, body in re.findall(r"@@ (\S+)\n((?:<<<<\n.*?>>>>\n)+)", head, re.S):
        p = os.path.join(W, f)
        s = open(p).read()
        for old, new in re.findall(r"<<<<\n(.*?)\n====\n(.*?)\n>>>>\n", body, re.S):
            assert s.count(old) == 1, (i, f, s.count(old), old)
            s = s.replace(old, new)
        open(p, "w").write(s)
    d = os.path.join(OUT, i)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(os.path.join(d, "patch.diff"), "w").write(sh("git diff", W).stdout)
    for f in ("util_test.go", "demo.sh"):
        shutil.copy(os.path.join(SRC, f), d)
    if "\nrace: yes" in head:
        p = os.path.join(d, "demo.sh")
        t = open(p).read().replace("go test ", "CGO_ENABLED=1 go test -race ")
        open(p, "w").write(t)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo_test.go"), "w").write(demo)
    json.dump(meta, open(os.path.join(d, "meta.json"), "w"), indent=1)
    env = "cd %s/protocol && export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod; " % W
    t = sh(env + "go build ./... && go test -vet=off -count=1 ./... 2>&1 | grep -v 'no test files'")
    bad = [l for l in t.stdout.split("\n") if l.startswith(("FAIL", "---"))] or t.stderr[-500:]
    r1 = sh("bash %s/demo.sh" % d, W)
    sh("git checkout -q -- .", W)
    r0 = sh("bash %s/demo.sh" % d, W)
    ok = not bad and r0.returncode == 0 and r1.returncode != 0
    print(i, meta["property"], "ok" if ok else "BAD", "" if ok else (bad, r0.returncode, r0.stdout[-700:] + r0.stderr[-300:], r1.returncode), "|", re.sub(r"\s+", " ", " ".join(re.findall(r"demo_test.go:.*", r1.stdout)))[:150] or r1.stdout[:200].replace("\n", " "))
    shutil.rmtree(W, ignore_errors=True)


for i in sys.argv[1:] or sorted(f[:-4] for f in os.listdir(SRC) if f.endswith(".txt")):
    make(i)
