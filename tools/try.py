#!/usr/bin/env python3
"""Candidate bugs (own experiments): try.py FILE [SCALE] [ID...]; FILE defines BUGS = [(id, property, file, old, new), ...].
Uses the scratch copy of mutate.py. Reports whether the tests notice, whether the check of the property does, and else which does."""
import sys, os, re, shutil, subprocess, tempfile, concurrent.futures as cf
sys.path.insert(0, "/verif/tools")
import mutate as m
ns = {}; exec(open(sys.argv[1]).read(), ns)
scale = sys.argv[2] if len(sys.argv) > 2 else "1"
ids = sys.argv[3:]
def one(b):
    i, prop, f, old, new = b
    s = open(m.SRC + "/" + f).read()
    if s.count(old) < 1: return i, prop, "NOT FOUND", ""
    d = tempfile.mkdtemp(prefix="t.", dir=m.M)
    try:
        p = d + "/" + os.path.basename(f); o = d + "/m.o"
        open(p, "w").write(s.replace(old, new, 1))
        r = m.cc(p, o, ("-I" + os.path.dirname(m.SRC + "/" + f),))
        if r.returncode: return i, prop, "NO BUILD", r.stderr[:300]
        m.link_so([o if x == f else m.obj(x) for x in m.cpps()], d + "/libcore.so")
        env = dict(os.environ, LD_LIBRARY_PATH=d, TMPDIR=d)
        w = d + "/t"; os.makedirs(w + "/core/tests")
        os.symlink(m.M + "/repo/core/tests/files", w + "/core/tests/files"); os.symlink(m.M + "/repo/tests", w + "/tests")
        r = m.sh([m.M + "/tests"], cwd=w, env=env, timeout=120)
        fl = re.findall(r"\[  FAILED  \] (\S+)", r.stdout)
        if r.returncode: return i, prop, "tests", str(fl[:2])
        got = []
        for p in [prop] + [x for x in m.order(f) if x != prop]:
            if p == "C25": continue
            sd = d + "/s"; os.makedirs(sd)
            r = m.sh([m.M + "/" + p, "run", "--scan", "1", "--jobs", "2", "--seed", "1", "--scale", scale if p == prop else "0.05", "--scratch", sd, "--cpu-limit", "20", "--tier", "quick"], env=env, timeout=900, errors="replace")
            shutil.rmtree(sd)
            if r.returncode: got.append((p, r.stdout[:110].strip()))
            if got and got[0][0] == prop: break
        if not got: return i, prop, "***** MISSED", ""
        return i, prop, "caught" if got[0][0] == prop else "***** MISSED by its own check", str(got)[:300]
    finally:
        shutil.rmtree(d, ignore_errors=True)
todo = [b for b in ns["BUGS"] if not ids or b[0] in ids]
with cf.ThreadPoolExecutor(4) as p:
    for x in cf.as_completed([p.submit(one, b) for b in todo]): print(*x.result(), flush=True)
