#!/usr/bin/env python3
"""Author/verify planted bugs.  seed.py new <id> <specfile.py>   |  seed.py verify [id...] |  seed.py catch <id> [check...]
spec: PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], PKG='./database/dservice', TEST='''go test source''' (or DEMO= script text, FILES={})"""
import sys, os, json, subprocess, shutil, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(HERE, "seeded")
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", TZ="UTC")
DEMO = '''#!/bin/bash
# run with cwd = the repository: exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
mkdir -p client/dist/assets; [ -e client/dist/assets/.dummy ] || touch client/dist/assets/.dummy
printf '{"Replace": {"%%s/%(pkg)s/zz_demo_test.go": "%%s/demo_test.go"}}' "$PWD" "$here" >"$W/o.json"
go test -count=1 -timeout 120s -overlay "$W/o.json" -run 'TestDemo' ./%(pkg)s
'''
def sh(cmd, cwd=None, env=ENV, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout
def copy():
    d = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    sh(f"cp -a /repo {d}/repo")
    return d, d + "/repo"
def new(id, spec):
    g = {}; exec(open(spec).read(), g)
    d, r = copy()
    try:
        for f, old, nw in g["EDITS"]:
            s = open(f"{r}/{f}").read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(f"{r}/{f}", "w").write(s.replace(old, nw))
        o = f"{S}/{id}"; os.makedirs(o, exist_ok=True)
        rc, diff = sh("git diff", r)
        open(o + "/patch.diff", "w").write(diff)
        if "TEST" in g:
            pkg = g["PKG"].strip("./")
            open(o + "/demo.sh", "w").write(DEMO % dict(pkg=pkg))
            open(o + "/demo_test.go", "w").write(g["TEST"].lstrip())
        else:
            open(o + "/demo.sh", "w").write(g["DEMO"])
            for k, v in g.get("FILES", {}).items(): open(f"{o}/{k}", "w").write(v)
        os.chmod(o + "/demo.sh", 0o755)
        json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(o + "/meta.json", "w"), indent=1)
    finally: shutil.rmtree(d)
    verify(id)
def verify(id):
    d, r = copy()
    tmp = tempfile.mkdtemp(prefix="demo.", dir="/tmp")
    try:
        shutil.copytree(f"{S}/{id}", tmp + "/x"); 
        for f in os.listdir(tmp + "/x"):
            if f.endswith(".diff") or f == "meta.json": os.remove(tmp + "/x/" + f)
        rc0, o0 = sh(f"bash {tmp}/x/demo.sh", r)
        rca, oa = sh(f"git apply {S}/{id}/patch.diff", r)
        rcb, ob = sh("go build ./...", r)
        rct, ot = sh("go test -vet=off -count=1 ./... 2>&1 | grep -v 'no test files' | grep -v ^ok", r)
        rc1, o1 = sh(f"bash {tmp}/x/demo.sh", r)
        ok = rc0 == 0 and rca == 0 and rcb == 0 and ot.strip() == "" and rc1 != 0
        print(id, "OK" if ok else "BAD", dict(clean=rc0, apply=rca, build=rcb, tests=ot.strip()[:3000], patched=rc1))
        if not ok: print(o0[-2500:], oa, ob[-1500:])
        elif "-v" in sys.argv: print(o1[-1500:])
        return ok
    finally: shutil.rmtree(d); shutil.rmtree(tmp)
def catch(id, checks):
    prop = json.load(open(f"{S}/{id}/meta.json"))["property"]
    d, r = copy()
    try:
        rca, oa = sh(f"git apply {S}/{id}/patch.diff", r); assert rca == 0, oa
        for c in checks or [prop]:
            t = time.time()
            rc, o = sh(f"bash {HERE}/run.sh {c}", HERE, dict(os.environ, VERIF_REPO=r, VERIF_EVIDENCE_DIR=d + "/ev"))
            print(id, c, "CAUGHT" if rc == 1 and f"VIOLATION property={c}" in o else f"missed rc={rc}", f"{time.time()-t:.0f}s", flush=True)
            if rc == 1: print("   ", [l for l in o.splitlines() if l.strip()][:3])
            elif rc != 0: print(o[-1500:])
    finally: shutil.rmtree(d)
a = [x for x in sys.argv[1:] if x != "-v"]
if a[0] == "new": new(a[1], a[2])
elif a[0] == "verify": sys.exit(not all([verify(i) for i in (a[1:] or sorted(os.listdir(S)))]))
elif a[0] == "catch": catch(a[1], a[2:])
elif a[0] == "catchall":
    for i in sorted(os.listdir(S)): catch(i, [])
