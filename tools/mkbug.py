#!/usr/bin/env python3
"""mkbug.py <id> <bugfile.py>: plant a bug described in bugfile (PROPERTY, EDITS=[(file, old, new[, nth])], NEEDS, BREAKS, DEMO = rust main.rs,
   DEPS = extra Cargo deps or BINDEMO), confirm it (builds, stable tests pass, demo 0 -> nonzero), store it in seeded/<id>, and report
   whether the property's quick check catches it. Always restores /repo."""
import json, os, subprocess, sys, shutil
bid, bf = sys.argv[1], sys.argv[2]
ns = {}; exec(open(bf).read(), ns)
D = f"/verif/seeded/{bid}"; 
assert not subprocess.run(["git","-C","/repo","status","--porcelain"],capture_output=True,text=True).stdout.strip(), "repo dirty"
shutil.rmtree(D, ignore_errors=True); os.makedirs(D + "/src")
DEPS = {"pak":'unreal_pak = { path = "/repo/unreal_pak" }', "asset":'unreal_asset = { path = "/repo/unreal_asset" }',
 "helpers":'unreal_helpers = { path = "/repo/unreal_helpers", features = ["serde","guid","path","bitvec","read_write"] }',
 "meta":'unreal_mod_metadata = { path = "/repo/unreal_mod_metadata" }', "json":'serde_json = "1"', "bitvec":'bitvec = "1"', "semver":'semver = "1"'}
if "DEMO" in ns:
    open(D+"/src/main.rs","w").write(ns["DEMO"])
    open(D+"/Cargo.toml","w").write('[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\n' +
      "\n".join(DEPS.get(x, x) for x in ns["DEPS"]) + "\n" + ns.get("BINS",""))
    shutil.copy("/verif/harness/Cargo.lock", D+"/Cargo.lock")
    open(D+"/demo.sh","w").write('''#!/bin/bash
# exit 0: behaves as the property says; nonzero: broken
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
cp -r "$here/src" "$here/Cargo.toml" "$here/Cargo.lock" "$w/" || exit 3
cd "$w" || exit 3
export CARGO_TARGET_DIR="$w/t" CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings
cargo build --offline -q || exit 3
''' + ns.get("RUN", 'timeout 60 "$w/t/debug/demo"\n'))
else:
    shutil.rmtree(D+"/src"); open(D+"/demo.sh","w").write(ns["SH"])
for fn, txt in ns.get("FILES", {}).items(): open(D+"/"+fn,"w").write(txt)
json.dump({"property":ns["PROPERTY"],"needs":ns["NEEDS"],"what_it_breaks":ns["BREAKS"]}, open(D+"/meta.json","w"), indent=1)
def demo(): return subprocess.run(["bash", D+"/demo.sh"], cwd="/repo", capture_output=True, text=True)
r = demo(); print("demo clean rc", r.returncode, r.stderr[-800:] if r.returncode else "")
ok = r.returncode == 0
try:
    for e in ns["EDITS"]:
        p = "/repo/"+e[0]; s = open(p).read(); n = e[3] if len(e) > 3 else 0
        parts = s.split(e[1]); assert len(parts) > 1 + n and (len(e) > 3 or len(parts) == 2), (e[0], "matches", len(parts)-1, e[1])
        s = e[1].join(parts[:n+1]) + e[2] + e[1].join(parts[n+1:]); open(p,"w").write(s)
    open(D+"/patch.diff","w").write(subprocess.run(["git","-C","/repo","diff"],capture_output=True,text=True).stdout)
    b = subprocess.run("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/o.json", shell=True, capture_output=True, text=True)
    base = json.load(open("/opt/vp/BASELINE.json")); res = json.load(open("/tmp/o.json")) if b.returncode in (0,) else None
    if res is None: print("BUILD FAILED", b.stderr[-2000:]); ok = False
    else: print("failed tests:", res["failed"], "passed", len(res["passed"])); ok = ok and not res["failed"]
    r = demo(); print("demo patched rc", r.returncode, (r.stdout + r.stderr)[-600:]); ok = ok and r.returncode not in (0, 3)
    c = subprocess.run(["python3","/verif/run.py",ns["PROPERTY"],"quick"],capture_output=True,text=True,cwd="/verif")
    print("CHECK rc", c.returncode, "CAUGHT" if c.returncode == 1 else "MISSED"); print(c.stdout[:900])
finally:
    subprocess.run(["git","-C","/repo","checkout","--","."])
print("KEPT" if ok else "NOT VALID", bid)
if not ok: shutil.rmtree(D, ignore_errors=True)
