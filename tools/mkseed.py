#!/usr/bin/env python3
"""tools/mkseed.py SPEC.py : builds /verif/seeded/<id>/ from a spec that defines
id, prop, file (rel. to /repo), edits=[(old,new),...] (or multi={file:[...]}) , needs, breaks, srcs, demo.
Verifies in a scratch copy: builds, stable tests pass, demo 0 without / !=0 with."""
import sys, os, json, subprocess, shutil
spec = {}
exec(open(sys.argv[1]).read(), spec)
fast = "--fast" in sys.argv
d = os.environ.get("SEEDED", "/verif/seeded") + "/" + spec["id"]
os.makedirs(d, exist_ok=True)
S = os.environ.get("SEEDWT", "/tmp/seedwt")
shutil.rmtree(S, ignore_errors=True)
subprocess.check_call(["git", "clone", "-q", "/repo", S])
multi = spec.get("multi") or {spec["file"]: spec["edits"]}
for f, edits in multi.items():
    t = open(S + "/" + f).read()
    for e in edits:
        old, new = e[0], e[1]
        cnt = t.count(old)
        assert cnt == 1, (f, "matches", cnt, old)
        t = t.replace(old, new)
    open(S + "/" + f, "w").write(t)
patch = subprocess.check_output(["git", "-C", S, "diff"], text=True)
open(d + "/patch.diff", "w").write(patch)
if spec.get("py"):
    open(d + "/demo.py", "w").write(spec["demo"])
else:
    open(d + "/demo.cpp", "w").write(spec["demo"])
srcs = " ".join("src/" + s for s in spec.get("srcs", []))
sh = """#!/bin/bash
# exit 0 on the unchanged tree, nonzero when the property is broken
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/demoXXXXXX)
trap '[ -n "$d" ] && rm -rf "$d"' EXIT
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self OMPI_MCA_btl_base_warn_component_unused=0 OMPI_MCA_ess_singleton_isolated=1
I=""
for x in common common/data physics physics/electromagnetics physics/fluidflow physics/thermal utils utils/mesh_warper; do I="$I -Isrc/$x"; done
g++ -std=c++17 -w -O1 -I"$here" $I -isystem /usr/include/hypre -isystem /usr/lib/x86_64-linux-gnu/openmpi/include "$here/demo.cpp" %s -o "$d/demo" -lmfem -lHYPRE -lmpi -lmpi_cxx -ldl -lpthread || exit 3
cd "$d" && timeout 120 ./demo
""" % srcs
if spec.get("py"):
    sh = """#!/bin/bash
# exit 0 on the unchanged tree, nonzero when the property is broken
here=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 timeout 120 python3-vt "$here/demo.py" "$PWD"
"""
if spec.get("odl"):
    # stand-ins for the libraries that are absent, beside the demonstration
    os.makedirs(d + "/lib/bin", exist_ok=True); os.makedirs(d + "/lib/shim/include", exist_ok=True)
    shutil.copy("/verif/bin/make_odl.py", d + "/lib/bin/")
    shutil.copy("/verif/shim/odl.hpp", d + "/lib/shim/")
    for x in os.listdir("/verif/shim/include"):
        shutil.copy("/verif/shim/include/" + x, d + "/lib/shim/include/")
    sh = """#!/bin/bash
# exit 0 on the unchanged tree, nonzero when the property is broken
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/demoXXXXXX)
trap '[ -n "$d" ] && rm -rf "$d"' EXIT
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self OMPI_MCA_btl_base_warn_component_unused=0 OMPI_MCA_ess_singleton_isolated=1
mkdir "$d/odl" && python3 "$here/lib/bin/make_odl.py" "$d/odl/mfem.hpp" || exit 3
I="-I$d/odl -I$here/lib/shim/include"
for x in common common/data physics physics/electromagnetics physics/fluidflow physics/thermal utils utils/mesh_warper; do I="$I -I$PWD/src/$x"; done
F="-std=c++17 -w -O0 $I -isystem /usr/include/hypre -isystem /usr/lib/x86_64-linux-gnu/openmpi/include -isystem /usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"
for s in "$here/demo.cpp" %s; do echo "$s"; done | xargs -P 8 -I{} sh -c 'f={}; g++ '"$F"' -c "$f" -o '"$d"'/$(echo "$f" | tr / _).o' || exit 3
g++ "$d"/*.o -o "$d/demo" -lmfem -lHYPRE -lmpi -lmpi_cxx -ldl -lpthread || exit 3
cd "$d" && timeout 120 ./demo
""" % srcs
open(d + "/demo.sh", "w").write(sh)
os.chmod(d + "/demo.sh", 0o755)
for s in spec.get("shim", []):
    shutil.copy("/verif/shim/include/" + s, d + "/" + s)
json.dump({"property": spec["prop"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(d + "/meta.json", "w"), indent=1)
r0 = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
r1 = subprocess.run(["bash", d + "/demo.sh"], cwd=S, capture_output=True, text=True)
print(spec["id"], "demo unchanged:", r0.returncode, "patched:", r1.returncode)
print((r0.stdout + r0.stderr)[-800:]); print((r1.stdout + r1.stderr)[-800:])
ok = r0.returncode == 0 and r1.returncode not in (0, 3)
if not fast and ok:
    # stable tests with the change, in a full copy
    C = "/tmp/seedcp"
    shutil.rmtree(C, ignore_errors=True)
e = dict(os.environ, VERIF_REPO=S, VERIF_BUILD=S + "build")
if "--check" in sys.argv:
    p = subprocess.run(["/verif/bin/check", spec["prop"]], env=e, cwd="/verif", capture_output=True, text=True)
    print("check exit", p.returncode); print("\n".join(l for l in p.stdout.splitlines() if "VIOL" in l or "ERR" in l or "error" in l)[:1500])
shutil.rmtree(S, ignore_errors=True)
sys.exit(0 if ok else 1)
