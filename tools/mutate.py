#!/usr/bin/env python3
"""Mutation sweep (own experiments, not a check): random small changes of core/src, one at a time, in a scratch copy.
For each mutant that still passes the tests, runs the checks at a small scale and records which one notices it first.

  mutate.py setup                    scratch copy /tmp/mu from /repo HEAD, objects, test and check executables
  mutate.py run N SEED SCALE JOBS    N random mutants -> /tmp/mu/log.jsonl (appends; skips mutants already there)
  mutate.py again SCALE JOBS         the survivors again at another scale -> /tmp/mu/again.jsonl
"""
import concurrent.futures as cf, glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile
V, M = "/verif", "/tmp/mu"
SRC = M + "/repo/core/src"
sys.path.insert(0, V)
import check
check.REPO = M + "/repo"; check.SRC = SRC
FL = ["-O1", "-DNDEBUG", "-fPIC", "-fno-semantic-interposition"] + check.DEFS

def sh(c, **k): return subprocess.run(c, shell=isinstance(c, str), text=True, capture_output=True, **k)
def cpps():
    return sorted(os.path.relpath(f, SRC) for f in glob.glob(SRC + "/**/*.cpp", recursive=True) if "/app/" not in f)
def obj(f): return M + "/o/" + f.replace("/", "_") + ".o"
def cc(src, o, extra=()): return sh([check.CXX, "-std=c++23", "-w", *FL, *extra, *check.incs(), "-c", src, "-o", o])
def link_so(objs, out): return sh([check.CXX, "-shared", "-o", out, *objs, "-lnetcdf", "-lyaml-cpp"])

def setup():
    shutil.rmtree(M, ignore_errors=True); os.makedirs(M + "/o"); os.makedirs(M + "/base"); os.makedirs(M + "/x")
    print(sh("git clone -q /repo %s/repo" % M).stderr)
    H = V + "/harness"
    jobs = [(SRC + "/" + f, obj(f), ()) for f in cpps()]
    tests = sorted(glob.glob(M + "/repo/core/tests/src/*.cpp"))
    jobs += [(t, M + "/x/t_" + os.path.basename(t) + ".o", ()) for t in tests]
    props = sorted(glob.glob(H + "/props/C*.cpp"))
    jobs += [(t, M + "/x/p_" + os.path.basename(t) + ".o", ("-I" + H,)) for t in props]
    com = sorted(glob.glob(H + "/*.cpp"))
    jobs += [(t, M + "/x/h_" + os.path.basename(t) + ".o", ("-I" + H,)) for t in com]
    with cf.ThreadPoolExecutor(8) as p:
        for j, r in zip(jobs, p.map(lambda a: cc(*a), jobs)):
            if r.returncode: print(j[0], r.stderr[:500])
        print(link_so([obj(f) for f in cpps()], M + "/base/libcore.so").stderr[:500])
        ch = [M + "/x/h_" + os.path.basename(t) + ".o" for t in com]
        L = ["-L" + M + "/base", "-lcore", "-lnetcdf", "-lyaml-cpp", "-lgtest", "-lpthread"]
        to = [M + "/x/t_" + os.path.basename(t) + ".o" for t in tests]
        ls = [[check.CXX, *to, "-o", M + "/tests", *L]]
        for t in props:
            b = os.path.basename(t)
            ls.append([check.CXX, M + "/x/p_" + b + ".o", *ch, "-o", M + "/" + b[:-4], *L])
        for r in p.map(sh, ls):
            if r.returncode: print(r.stderr[:800])

def mutants(f):
    """(line number, new line, operator) for the lines inside function bodies."""
    out = []
    src = open(SRC + "/" + f).read().split("\n")
    for n, l in enumerate(src):
        s = l.strip()
        if not l.startswith("    ") or not s or s.startswith(("//", "*", "#", "Log", "throw", "assert", "wxASSERT", "\"", "return error")): continue
        if "Log" in l or "throw" in l or "static_assert" in l: continue
        code = l.split("//")[0]
        def sub(pat, rep, op):
            for m in re.finditer(pat, code):
                if code[:m.start()].count('"') % 2: continue
                new = code[:m.start()] + (rep(m) if callable(rep) else rep) + code[m.end():]
                if new != code: out.append((n, new, op))
        sub(r" \+ ", " - ", "arith"); sub(r" - ", " + ", "arith"); sub(r" \* ", " / ", "arith"); sub(r" / ", " * ", "arith")
        sub(r" \+= ", " -= ", "arith"); sub(r" -= ", " += ", "arith")
        if "for (" not in code:
            sub(r" < ", " <= ", "rel"); sub(r" <= ", " < ", "rel"); sub(r" > ", " >= ", "rel"); sub(r" >= ", " > ", "rel")
        sub(r" < ", " > ", "rel2"); sub(r" > ", " < ", "rel2"); sub(r" <= ", " >= ", "rel2"); sub(r" >= ", " <= ", "rel2")
        sub(r" == ", " != ", "rel2"); sub(r" != ", " == ", "rel2")
        sub(r" && ", " || ", "logic"); sub(r" \|\| ", " && ", "logic"); sub(r"(?<=[( ])!(?=[a-zA-Z_(])", "", "logic")
        sub(r"\bstd::min\b", "std::max", "minmax"); sub(r"\bstd::max\b", "std::min", "minmax")
        sub(r"(?<![\w.\"])(\d+\.\d+)(?![\w.])", lambda m: repr(float(m.group(1)) * 1.1 + (0.1 if float(m.group(1)) == 0 else 0)), "const")
        sub(r"(?<![\w.\"\[])(\d+)(?![\w.\"\]])", lambda m: str(int(m.group(1)) + 1), "const")
        sub(r"\breturn true;", "return false;", "ret"); sub(r"\breturn false;", "return true;", "ret")
        sub(r"\bcontinue;", "break;", "flow"); sub(r"\bbreak;", "continue;" , "flow") if "for" in "".join(src[max(0, n - 8):n]) else None
        m = re.match(r"^(\s*)(\}? ?(?:else )?if )\((.*)\) \{$", code)
        if m:
            out.append((n, m.group(1) + m.group(2) + "(true || (" + m.group(3) + ")) {", "cond"))
            out.append((n, m.group(1) + m.group(2) + "(false && (" + m.group(3) + ")) {", "cond"))
        if re.match(r"^\s+[\w:>.\-\[\]()*]+(\(.*\)| [+\-*/]?= .*);$", code) and not re.match(r"^\s+(auto|const|int|double|float|bool|string|vector|std::|return|delete|static)\b", code) and "return" not in code:
            out.append((n, re.match(r"^\s*", code).group(0) + ";", "del"))
    return out

AFF = json.load(open(V + "/tools/affinity.json")) if os.path.exists(V + "/tools/affinity.json") else {}
PROPS = ["C%02d" % i for i in range(1, 29) if i != 25]
def order(f):
    first = [p for k, v in AFF.items() if k in f for p in v]
    return list(dict.fromkeys(first + ["C01", "C12", "C27", "C24"] + PROPS))

def one(f, n, new, op, scale, seed=1, tests=True):
    mid = hashlib.sha256(("%s:%d:%s" % (f, n, new)).encode()).hexdigest()[:10]
    lines = open(SRC + "/" + f).read().split("\n")
    rec = {"id": mid, "file": f, "line": n + 1, "old": lines[n].strip(), "new": new.strip(), "op": op}
    d = tempfile.mkdtemp(prefix="m.", dir=M)
    try:
        lines[n] = new
        p = d + "/" + os.path.basename(f)
        open(p, "w").write("\n".join(lines))
        o = d + "/m.o"
        if cc(p, o, ("-I" + os.path.dirname(SRC + "/" + f),)).returncode: return dict(rec, result="no build")
        if link_so([o if x == f else obj(x) for x in cpps()], d + "/libcore.so").returncode: return dict(rec, result="no link")
        if sh(["cmp", o, obj(f)]).returncode == 0: return dict(rec, result="same object")
        env = dict(os.environ, LD_LIBRARY_PATH=d, TMPDIR=d)
        if tests:
            w = d + "/t"; os.makedirs(w + "/core/tests")
            os.symlink(M + "/repo/core/tests/files", w + "/core/tests/files"); os.symlink(M + "/repo/tests", w + "/tests")
            try: r = sh([M + "/tests"], cwd=w, env=env, timeout=120)
            except subprocess.TimeoutExpired: return dict(rec, result="tests", what="timeout")
            if r.returncode:
                fl = re.findall(r"\[  FAILED  \] (\S+)", r.stdout)
                if set(fl) - BASEFAIL or not fl: return dict(rec, result="tests", what=(fl or ["crash"])[0])
        for p in order(f):
            s = d + "/s"; os.makedirs(s)
            try: r = sh([M + "/" + p, "run", "--scan", "1", "--jobs", "1", "--seed", str(seed), "--scale", str(scale), "--scratch", s, "--cpu-limit", "20", "--tier", "quick"], env=env, timeout=600, errors="replace")
            except subprocess.TimeoutExpired: return dict(rec, result="caught", by=p, what="timeout")
            shutil.rmtree(s)
            if r.returncode: return dict(rec, result="caught", by=p, what=r.stdout[:200])
        return dict(rec, result="SURVIVED")
    finally:
        shutil.rmtree(d, ignore_errors=True)

BASEFAIL = set()
def basefail():
    global BASEFAIL
    d = tempfile.mkdtemp(prefix="b.", dir=M); os.makedirs(d + "/core/tests"); os.symlink(M + "/repo/core/tests/files", d + "/core/tests/files"); os.symlink(M + "/repo/tests", d + "/tests")
    r = sh([M + "/tests"], cwd=d, env=dict(os.environ, LD_LIBRARY_PATH=M + "/base"))
    BASEFAIL = set(re.findall(r"\[  FAILED  \] (\S+)", r.stdout))
    print("baseline failing:", BASEFAIL, r.stdout[-200:])

if __name__ == "__main__":
    if sys.argv[1] == "base": basefail(); sys.exit()
    if sys.argv[1] == "setup": setup(); basefail(); sys.exit()
    basefail()
    if sys.argv[1] == "run":
        N, seed, scale, jobs = int(sys.argv[2]), int(sys.argv[3]), float(sys.argv[4]), int(sys.argv[5])
        only = sys.argv[6] if len(sys.argv) > 6 else ""
        out = M + "/log.jsonl"
        done = {json.loads(l)["id"] for l in open(out)} if os.path.exists(out) else set()
        rnd = random.Random(seed)
        per = {f: mutants(f) for f in cpps() if re.search(only, f)}
        print("mutants:", sum(map(len, per.values())))
        for v in per.values(): rnd.shuffle(v)
        allm = []   # at most one fifth of a file's mutants first, round robin weighted by size
        pool = [(f, m) for f, v in per.items() for m in v]
        rnd.shuffle(pool)
        todo = []
        for f, m in pool:
            mid = hashlib.sha256(("%s:%d:%s" % (f, m[0], m[1])).encode()).hexdigest()[:10]
            if mid not in done: todo.append((f, *m))
        todo = todo[:N]
    else:
        scale, jobs = float(sys.argv[2]), int(sys.argv[3])
        out = M + "/again.jsonl"
        todo = []
        done = {json.loads(l)["id"] for l in open(out)} if os.path.exists(out) else set()
        for l in open(M + "/log.jsonl"):
            r = json.loads(l)
            if r["result"] == "SURVIVED" and r["id"] not in done:
                for m in mutants(r["file"]):
                    if m[0] == r["line"] - 1 and m[1].strip() == r["new"]: todo.append((r["file"], *m)); break
    with cf.ThreadPoolExecutor(jobs) as p, open(out, "a") as o:
        fs = [p.submit(one, *t, scale) if sys.argv[1] == "run" else p.submit(one, *t, scale, 1, False) for t in todo]
        for x in cf.as_completed(fs):
            o.write(json.dumps(x.result()) + "\n"); o.flush()
