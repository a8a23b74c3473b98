#!/usr/bin/env python3
"""Confirm planted bugs: seed.py ID... (patch.diff taken from the changes in the scratch copy /tmp/sw if missing).
For each: applies the patch to the scratch copy, builds, runs the stable tests, runs demo.sh with and without."""
import json, os, shutil, subprocess, sys
S, V = "/tmp/sw", "/verif/seeded"
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, cwd=S, **k)
def build():
    r = sh("ninja -C _build")
    if r.returncode: print(r.stdout[-3000:]); return False
    return True
def tests():
    out = "/tmp/sw_res"; shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    r = sh("python3 /opt/vp/run_gtests.py _build/tests/hydrobricks-tests %s" % out)
    r = sh("python3 /opt/vp/results.py /tmp/sw_out.json 'junit:%s/*.xml' 'lines:%s/crashed.txt'" % (out, out))
    o = json.load(open("/tmp/sw_out.json")); b = json.load(open("/opt/vp/BASELINE.json"))
    get = lambda x: set(next((x[k] for k in ("passed", "pass", "stable", "stable_tests", "tests") if k in x), []))
    return sorted(get(b) - get(o))
def demo(i): 
    r = sh("bash %s/%s/demo.sh" % (V, i), timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-400:]
for i in sys.argv[1:]:
    d = "%s/%s" % (V, i); p = d + "/patch.diff"
    for f in ("kit.h", "demo.sh"):
        if not os.path.exists(d + "/" + f): shutil.copy("/verif/tools/seedkit/" + f, d)
    if not os.path.exists(p):
        x = sh("git diff").stdout
        if not x: print(i, "no change in the scratch copy"); continue
        open(p, "w").write(x)
    sh("git checkout -- .")
    sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD")
    if not build(): continue
    ok0 = demo(i)
    a = sh("git apply %s" % p)
    if a.returncode: print(i, "patch does not apply", a.stderr); continue
    if not build(): print(i, "BUILD FAILS"); sh("git checkout -- ."); continue
    t = tests(); ok1 = demo(i)
    sh("git checkout -- .")
    good = ok0[0] == 0 and ok1[0] == 1 and not t
    print(i, "CONFIRMED" if good else "NOT OK", "| unchanged:", ok0, "| patched:", ok1, "| failing tests:", t[:6])
