#!/usr/bin/env python3
"""mkbug.py ID: takes the edit made in /tmp/wt (a worktree of /repo), writes seeded/ID/{patch.diff,demo.sh,sim/...}
(demo.cpp and meta.json must be there already), runs the demo on both trees and the property's quick check on the changed tree."""
import os, sys, subprocess, shutil, json
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = os.path.join(H, "seeded", sys.argv[1])
WT = "/tmp/wt"
DEMO = """#!/bin/bash
# exit 0: behaviour as documented, nonzero: broken.  Everything it writes stays in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d) || exit 3; trap 'rm -rf "$W"' EXIT
g++ -std=c++20 -O1 -fPIC -shared -I"$D/sim/include" "$D/sim/src/sim.cpp" -o "$W/libsim.so" -ldl || exit 3
g++ -std=c++20 -O1 -w -DNDEBUG -fPIC -pie -I"$D/sim/include" -I"$PWD/include" -I"$D/sim/harness" "$D/demo.cpp" -o "$W/demo" -Wl,-z,relro,-z,now -L"$W" -lsim -Wl,-rpath,"$W" || exit 3
timeout 200 "$W/demo" --prop %s --from %s --count ${COUNT:-%s} --scratch "$W" --out "$W/out" >/dev/null 2>&1; rc=$?
grep -m1 -o '"msg":.*' "$W/out" | cut -c1-300
exit $rc
"""
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
d = sh("git -C %s diff" % WT).stdout
if d.strip(): open(S + "/patch.diff", "w").write(d)
meta = json.load(open(S + "/meta.json")); count = meta.get("demo_runs", 1); hs = meta.get("demo_harness")
if hs:
    shutil.copy(H + "/sim/harness/" + hs + ".cpp", S + "/demo.cpp")
open(S + "/demo.sh", "w").write(DEMO % (meta["property"] if hs else "DEMO", meta.get("demo_from", 1), count)); os.chmod(S + "/demo.sh", 0o755)
for sub in ("include", "src"):
    shutil.rmtree(S + "/sim/" + sub, ignore_errors=True); shutil.copytree(H + "/sim/" + sub, S + "/sim/" + sub)
os.makedirs(S + "/sim/harness", exist_ok=True)
for f in ("common.h", "models.h", "obs.h") + (("opt.h", "vmc.h", "meas.h", "peps_dense.h") if hs else ()): shutil.copy(H + "/sim/harness/" + f, S + "/sim/harness/" + f)
a = sh("timeout 280 bash %s/demo.sh" % S, cwd="/repo"); print("demo on /repo: rc %d %s" % (a.returncode, (a.stdout + a.stderr)[-600:]))
sh("git -C %s checkout -- . && git -C %s apply %s/patch.diff" % (WT, WT, S))
b = sh("timeout 280 bash %s/demo.sh" % S, cwd=WT); print("demo with patch: rc %d %s" % (b.returncode, (b.stdout + b.stderr)[-600:]))
if "nocheck" not in sys.argv:
    prop = json.load(open(S + "/meta.json"))["property"]
    c = sh("VERIF_REPO=%s timeout 900 python3 %s/run.py check %s quick" % (WT, H, prop)); print("check %s: rc %d %s" % (prop, c.returncode, (c.stdout + c.stderr)[-700:]))
sh("git -C %s checkout -- ." % WT)
print("OK" if a.returncode == 0 and b.returncode not in (0, 3, 124) else "BAD DEMO")
