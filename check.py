#!/usr/bin/env python3
"""Build one property's check from /repo's working tree and run it.

  check.py C03                 run with VERIF_SEED / VERIF_TIER from the environment
  check.py C03 --replay FILE   re-run one recorded failing case
  check.py --setup             build everything (warms the object cache; optional)
Exit status: 0 held, 1 violated (VIOLATION line printed), 2 the check could not run.
"""
import argparse, fcntl, hashlib, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("HB_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
H = os.path.join(VERIF, "harness")
SRC = os.path.join(REPO, "core", "src")
JOBS = 8
CXX = "g++"
PY = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python3"
UNITY = 8


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def tree(root, exts):
    out = []
    for d, dn, fn in os.walk(root):
        dn.sort()
        for f in sorted(fn):
            if f.endswith(exts):
                p = os.path.join(d, f)
                out.append((os.path.relpath(p, root), open(p, "rb").read()))
    return out


class Flavour:
    def __init__(self, name, flags, link):
        self.name, self.flags, self.link = name, flags, link


NORMAL = Flavour("opt", ["-O1", "-DNDEBUG"], [])
SAN = Flavour("san", ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
                      "-fno-sanitize=vptr", "-D_GLIBCXX_ASSERTIONS", "-DNDEBUG", "-fno-omit-frame-pointer",
                      "-include", os.path.join(H, "san_assert.h")],
              ["-fsanitize=address,undefined"])


def incs():
    sub = ["app", "base", "actions", "bricks", "containers", "fluxes", "processes", "processes/helpers", "spatial"]
    extra = []
    for d in sorted(os.listdir(SRC)):
        if os.path.isdir(os.path.join(SRC, d)) and d not in sub:
            extra.append(d)
    r = []
    for s in sub + extra:
        r.append("-I" + os.path.join(SRC, s))
    return r + ["-I/usr/include/eigen3"]


DEFS = ["-DHYDROBRICKS_MAJOR_VERSION=0", "-DHYDROBRICKS_MINOR_VERSION=0", "-DHYDROBRICKS_PATCH_VERSION=0"]


def run_cc(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


class BuildError(Exception):
    pass


def compile_obj(src, obj, flags):
    if os.path.exists(obj):
        return 0, ""
    tmp = obj + ".%d.o" % os.getpid()
    rc, out = run_cc([CXX, "-std=c++23", "-w", *flags, "-c", src, "-o", tmp])
    if rc == 0:
        os.replace(tmp, obj)
    return rc, out


def build(props, flavour):
    """Returns {prop: executable}. Everything is keyed by content, never by mtime."""
    os.makedirs(BUILD, exist_ok=True)
    core = tree(SRC, (".cpp", ".h", ".hpp", ".inl"))
    core = [(p, b) for p, b in core if not p.startswith("app" + os.sep) or p.endswith(".h")]
    flags = flavour.flags + DEFS + incs()
    core_key = sha(flavour.name, " ".join(flags), *[x for pb in core for x in pb])
    hdr = [pb for pb in core if pb[0].endswith((".h", ".hpp", ".inl"))]
    hdr_key = sha(flavour.name, " ".join(flags), *[x for pb in hdr for x in pb])
    harness_h = tree(H, (".h",))
    hh_key = sha(hdr_key, *[x for pb in harness_h for x in pb])
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        cdir = os.path.join(BUILD, "core-" + core_key)
        os.makedirs(cdir, exist_ok=True)
        odir = os.path.join(BUILD, "obj")
        os.makedirs(odir, exist_ok=True)
        jobs, objs = [], {}
        cpps = [p for p, _ in core if p.endswith(".cpp")]
        have_lib = os.path.exists(os.path.join(cdir, "objects.txt"))
        pool = ThreadPoolExecutor(JOBS)

        def hobj(path):
            key = sha(hh_key, open(path, "rb").read())
            o = os.path.join(odir, os.path.basename(path).replace(".cpp", "") + "-" + key + ".o")
            jobs.append(("h", path, pool.submit(compile_obj, path, o, flags + ["-I" + H])))
            return o

        for p in props:
            objs[p] = [hobj(os.path.join(H, "props", p + ".cpp"))]
        common = [hobj(os.path.join(H, f)) for f in sorted(os.listdir(H)) if f.endswith(".cpp")]
        if not have_lib:
            groups = [[] for _ in range(UNITY)]
            for i, p in enumerate(cpps):
                groups[i % UNITY].append(p)
            uj = []
            for k, gfiles in enumerate(groups):
                u = os.path.join(cdir, "u%d.cpp" % k)
                with open(u, "w") as f:
                    for p in gfiles:
                        f.write('#include "%s"\n' % os.path.join(SRC, p))
                uj.append((u, gfiles, pool.submit(compile_obj, u, u.replace(".cpp", ".o"), flags)))
            core_objs, retry = [], []
            for u, gfiles, fu in uj:
                rc, out = fu.result()
                if rc == 0:
                    core_objs.append(u.replace(".cpp", ".o"))
                else:
                    retry += gfiles  # name clashes between files of one unity unit: compile them separately
            rj = []
            for p in retry:
                o = os.path.join(cdir, p.replace(os.sep, "_") + ".o")
                rj.append((p, o, pool.submit(compile_obj, os.path.join(SRC, p), o, flags)))
            for p, o, fu in rj:
                rc, out = fu.result()
                if rc:
                    raise BuildError("compiling %s failed:\n%s" % (p, out[:3000]))
                core_objs.append(o)
        errs = []
        for kind, path, fu in jobs:
            rc, out = fu.result()
            if rc:
                errs.append("compiling %s failed:\n%s" % (path, out[:3000]))
        if errs:
            raise BuildError("\n".join(errs))
        if not have_lib:
            with open(os.path.join(cdir, "objects.txt"), "w") as f:
                f.write("\n".join(core_objs))
        core_objs = open(os.path.join(cdir, "objects.txt")).read().split("\n")
        exes, links = {}, []
        for p in props:
            exe = os.path.join(cdir, "hb_%s-%s" % (p, sha(*objs[p], *common)))
            exes[p] = exe
            if not os.path.exists(exe):
                links.append(pool.submit(run_cc, [CXX, *objs[p], *common, *core_objs, "-o", exe, *flavour.link,
                                                  "-lnetcdf", "-lyaml-cpp"]))
        for l in links:
            rc, out = l.result()
            if rc:
                raise BuildError("link failed:\n" + out[:3000])
        # keep the cache small
        dirs = sorted((d for d in os.listdir(BUILD) if d.startswith("core-")),
                      key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
        os.utime(cdir)
        for d in dirs[:-10]:
            if d != os.path.basename(cdir):
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        ob = sorted((os.path.join(odir, f) for f in os.listdir(odir)), key=os.path.getmtime)
        for f in ob[:-150]:
            if f not in common and not any(f in v for v in objs.values()):
                os.remove(f)
        return exes
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


ASSUME = ["g++ 13 build of /repo/core/src without the GUI application, NDEBUG, -O1",
          "reference computations in /verif/harness are independent of the code under test",
          "single process, local file system"]


ASSUME_PY = ["CPython 3.12 with numpy; pandas, netCDF4, pyet and the compiled extension are stand-ins",
             "reference computations in /verif/pyside are independent of the code under test"]


def san_env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:abort_on_error=1"
    return e


def python_side(scratch, env):
    """Run the Python package of the working tree; what it did is written to a file read by the driver."""
    out = os.path.join(scratch, "pymodels.txt")
    e = dict(env, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    p = subprocess.run([PY, os.path.join(VERIF, "pyside", "pymodels.py"), REPO, out], env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=400)
    if p.returncode or not os.path.exists(out):
        return "the Python package could not be driven:\n" + p.stdout[-2000:]
    env["HB_PYMODELS"] = out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--only", default="")
    ap.add_argument("--scale", default="1")
    ap.add_argument("--tier")
    ap.add_argument("--seed")
    a = ap.parse_args()
    allprops = sorted(f[:-4] for f in os.listdir(os.path.join(H, "props")) if f.endswith(".cpp"))
    pyprops = sorted(f[:-3] for f in os.listdir(os.path.join(VERIF, "pyside", "props")) if f.endswith(".py"))
    meta = json.load(open(os.path.join(H, "meta.json"))) if os.path.exists(os.path.join(H, "meta.json")) else {}
    flav = lambda p: SAN if meta.get(p, {}).get("flavour") == "san" else NORMAL
    if a.setup:
        try:
            build([p for p in allprops if flav(p) is NORMAL], NORMAL)
            sp = [p for p in allprops if flav(p) is SAN]
            if sp:
                build(sp, SAN)
        except BuildError as e:
            print(e)
            return 2
        return 0
    prop = a.prop
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(a.seed or os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
    t0 = time.time()
    fl = flav(prop)
    purepy = prop in pyprops
    try:
        # A property of the Python package is driven by pyside/engine.py, which imports it from the working tree.
        exe = [PY, os.path.join(VERIF, "pyside", "engine.py"), prop] if purepy else [build([prop], fl)[prop]]
    except BuildError as e:
        print("BUILD ERROR: the check of %s could not be built against %s\n%s" % (prop, REPO, e))
        return 2
    tb = time.time() - t0
    scratch = tempfile.mkdtemp(prefix="hbcheck.")
    env = san_env() if fl is SAN else dict(os.environ)
    env["TMPDIR"] = scratch
    if purepy:
        env.update(HB_REPO=REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1",
                   OPENBLAS_NUM_THREADS="1")
    try:
        if meta.get(prop, {}).get("python") and not purepy:
            err = python_side(scratch, env)
            if err:
                print("ERROR: " + err)
                return 2
        if a.replay:
            return subprocess.run([*exe, "replay", "--file", a.replay, "--scratch", scratch], env=env).returncode
        replays = os.path.join(VERIF, "replays")
        os.makedirs(replays, exist_ok=True)
        out = os.path.join(scratch, "out.json")
        cmd = [*exe, "run", "--seed", str(seed), "--tier", tier, "--out", out, "--replays", replays, "--scratch", scratch,
               "--scale", a.scale, "--cpu-limit", "60" if fl is SAN else "30"]
        if a.only:
            cmd += ["--only", a.only]
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0 or not os.path.exists(out):
            print("ERROR: driver ended with status %d\n%s" % (p.returncode, p.stdout[:3000]))
            return 2
        r = json.load(open(out))
        # Known findings: each is a pinned case (a replay file); it is re-run, reported, never extended.
        known = [k for k in load_known() if k["property"] == prop]
        for k in known:
            kp = os.path.join(VERIF, k["replay"])
            rc = subprocess.run([*exe, "replay", "--file", kp, "--scratch", scratch], env=env,
                                stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
            if rc == 1:
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
            else:
                print("note: the known finding '%s' no longer fails" % k["what"])
        ev = sum(s["evaluations"] for s in r["subs"])
        nt = sum(s["distinct_nontrivial"] for s in r["subs"])
        samples = []
        for s in r["subs"]:
            for x in s["samples"]:
                samples.append("[%s] %s" % (s["name"], x))
        evidence = {
            "property": prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": ev, "distinct_nontrivial": nt,
                "rule": "Each case is built from a random choice sequence (seeded by VERIF_SEED, sub-check and case "
                        "number). Distinct = distinct choice sequences. " +
                        " | ".join("%s: %s" % (s["name"], s["rule"]) for s in r["subs"]),
                "samples": samples or ["none"],
                "sub_checks": [{k: s[k] for k in ("name", "evaluations", "discarded", "distinct_nontrivial", "tags")}
                               for s in r["subs"]],
            },
            "assumptions": (ASSUME_PY if purepy else ASSUME) + meta.get(prop, {}).get("assumptions", []),
            "wall_s": round(time.time() - t0, 2),
            "violations": len(r["failures"]),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
        for s in r["subs"]:
            print("%s/%s: %d cases, %d non-trivial distinct, %d discarded  %s" % (
                prop, s["name"], s["evaluations"], s["distinct_nontrivial"], s["discarded"],
                " ".join("%s=%d" % kv for kv in sorted(s["tags"].items()))))
        print("%s: build %.1f s, generation %.1f s, tier %s, seed %d" % (prop, tb, r["run_s"], tier, seed))
        for f in r["failures"]:
            print("%s/%s fails (case %d, confirmed %d/3): %s" % (prop, f["sub"], f["idx"], f["confirmed"], f["msg"]))
        for f in r["failures"]:
            print("VIOLATION property=%s replay=%s" % (prop, f["replay"]))
        if r["failures"]:
            return 1
        if r["unconfirmed"]:
            print("ERROR: %d failing case(s) could not be reproduced: %s" % (r["unconfirmed"], r["unconfirmed_msg"]))
            return 2
        if nt == 0 and (purepy or meta.get(prop, {}).get("python")):
            print("note: the Python package uses what the stand-ins of its libraries do not provide: nothing was explored")
            return 0
        if nt == 0 and not a.only:
            print("ERROR: no non-trivial case was generated")
            return 2
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
