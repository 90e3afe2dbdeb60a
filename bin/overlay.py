#!/usr/bin/env python3
"""Write the go build overlay that lays the harness into the repository's module.

harness/<pkg>/*.go            -> <repo>/zz_verif/<pkg>/*.go
harness/shim/<dir>/*.go       -> <repo>/<dir>/zz_verif_*.go   (in-package export shims)
harness/goroot/<path>.patch   -> edits of the standard library, only for checks that need them
"""
import json, os, sys, subprocess

here, repo, pid, w = sys.argv[1:5]
table = json.load(open(os.path.join(here, "bin", "checks.json")))
chk = table[pid]
rep = {}
h = os.path.join(here, "harness")
need = set(chk.get("shims", []))
for root, _, files in os.walk(h):
    rel = os.path.relpath(root, h)
    if rel.split(os.sep)[0] in ("shim", "goroot", "ts"):
        continue
    for f in files:
        if f.endswith(".go"):
            rep[os.path.join(repo, "zz_verif", rel, f)] = os.path.join(root, f)
for s in need:
    d = os.path.join(h, "shim", s)
    for f in [f for f in os.listdir(d) if f.endswith(".go")]:
        rep[os.path.join(repo, s, "zz_verif_" + f)] = os.path.join(d, f)
extra = ""
if chk.get("maphook"):
    goroot = subprocess.check_output(["go", "env", "GOROOT"], text=True).strip()
    src = os.path.join(goroot, "src/internal/runtime/maps/table.go")
    txt = open(src).read()
    old = "it.entryOffset = rand()\n\tit.dirOffset = rand()\n"
    if txt.count(old) != 1:
        sys.stderr.write("map iterator source has an unexpected shape\n"); sys.exit(3)
    txt = txt.replace(old, "it.entryOffset = verifRand(m, 0)\n\tit.dirOffset = verifRand(m, 1)\n")
    txt += """

// VerifHook decides where a map iteration starts (verification harness only).
var VerifHook func(m *Map, used uint64, which int) (uint64, bool)

func verifRand(m *Map, which int) uint64 {
	if VerifHook != nil {
		if v, ok := VerifHook(m, m.Used(), which); ok {
			return v
		}
	}
	return rand()
}
"""
    out = os.path.join(w, "table.go")
    open(out, "w").write(txt)
    rep[src] = out
if chk.get("maphook") or chk.get("linkname"):
    extra = "-ldflags=-checklinkname=0"
json.dump({"Replace": rep}, open(os.path.join(w, "overlay.json"), "w"))
print(f'DIR={chk["dir"]}\nEXTRA_FLAGS={extra}')
