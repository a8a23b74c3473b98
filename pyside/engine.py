"""Driver of the properties of the Python package: generates cases, checks them, shrinks and confirms what fails.

  engine.py PROP run --seed N --tier T --out OUT.json --replays DIR --scratch DIR [--scale X] [--only SUB]
  engine.py PROP replay --file FILE --scratch DIR         exit 0 held, 1 failed

A case is a JSON value built from random.Random("seed|property|sub-check|number"). The package is imported from the
working tree (HB_REPO) with stand-ins for the libraries that are not installed (stubs.py). An exception of the package
is a failure unless the property expects it; one of the stand-ins or of the harness discards the case.
"""
import copy
import hashlib
import importlib
import json
import math
import os
import random
import re
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("HB_REPO", "/repo")
SRC = os.path.join(REPO, "python", "src")
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "props"))
sys.dont_write_bytecode = True
import stubs  # noqa: E402

WORKERS = 8
CASE_LIMIT = 20


class Fail(Exception):
    """The property does not hold for the case."""


class Discard(Exception):
    """The case says nothing about the property."""


class Timeout(BaseException):
    pass


class Ctx:
    """What a case reports while it is checked."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.tags = {}
        self.interesting = False

    def tag(self, name, n=1):
        self.tags[name] = self.tags.get(name, 0) + n

    def nontrivial(self, cond=True):
        if cond:
            self.interesting = True


def check(cond, msg, *a):
    if not cond:
        raise Fail(msg % a if a else msg)


def refused(f, *a, **k):
    """Whether the package refuses a call (whatever the error it raises)."""
    try:
        f(*a, **k)
    except Exception as e:
        if isinstance(e, (Fail, Discard)) or blame(e) == "harness":
            raise
        return True
    return False


def blame(e):
    """Who raised an exception: "code" (the package) or "harness" (the stand-ins, this driver)."""
    if getattr(e, "as_pandas", False):
        return "code"
    if stubs.ours(e):
        return "harness"
    for fr in reversed(traceback.extract_tb(e.__traceback__)):
        f = os.path.abspath(fr.filename)
        if f.startswith(os.path.abspath(SRC) + os.sep):
            return "code"
        if f.startswith(HERE + os.sep):
            return "harness"
    return "harness"


def on_alarm(*_):
    raise Timeout()


def evaluate(sub, case, scratch):
    """(verdict, message, ctx): verdict is "ok", "fail" or "discard"."""
    ctx = Ctx(scratch)
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(CASE_LIMIT)
    try:
        sub.check(copy.deepcopy(case), ctx)
        return "ok", "", ctx
    except Fail as e:
        return "fail", str(e), ctx
    except Discard as e:
        return "discard", str(e), ctx
    except Timeout:
        return "fail", "does not return within %d s" % CASE_LIMIT, ctx
    except RecursionError as e:
        return "fail", "endless recursion: %s" % e, ctx
    except Exception as e:
        text = "".join(traceback.format_exception(e))
        if blame(e) == "code":
            fr = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(SRC)][-1]
            return "fail", "raises %s: %s (%s, line %d)" % (type(e).__name__, str(e)[:300],
                                                            os.path.basename(fr.filename), fr.lineno), ctx
        return "discard", "harness: " + text[-700:], ctx
    finally:
        signal.alarm(0)


def rng_of(seed, prop, sub, i):
    return random.Random("%s|%s|%s|%d" % (seed, prop, sub, i))


def worker(mod, prop, plan, seed, w, path, scratch):
    os.makedirs(scratch, exist_ok=True)
    out = []
    for sub, n in plan:
        r = dict(name=sub.name, evaluations=0, discarded=0, hashes=[], tags={}, samples=[], fails=[], why={})
        for i in range(w, n, WORKERS):
            if len(r["fails"]) >= 3:
                break
            case = sub.gen(rng_of(seed, prop, sub.name, i), min(1.0, 0.2 + i / max(1, n) * 1.6))
            verdict, msg, ctx = evaluate(sub, case, scratch)
            if verdict == "discard":
                r["discarded"] += 1
                k = msg[-300:]
                r["why"][k] = r["why"].get(k, 0) + 1
                continue
            r["evaluations"] += 1
            for t, c in ctx.tags.items():
                r["tags"][t] = r["tags"].get(t, 0) + c
            text = json.dumps(case, sort_keys=True)
            if verdict == "fail":
                r["fails"].append([i, case, msg])
            elif ctx.interesting:
                r["hashes"].append(hashlib.sha256(text.encode()).hexdigest()[:16])
                if len(r["samples"]) < 2 and w == 0:
                    r["samples"].append(text[:600])
        out.append(r)
    with open(path, "w") as f:
        json.dump(out, f)


# ---- shrinking -------------------------------------------------------------------------------------------------------

def nodes(v, path=()):
    yield path, v
    if isinstance(v, dict):
        for k in v:
            yield from nodes(v[k], path + (k,))
    elif isinstance(v, list):
        for k, x in enumerate(v):
            yield from nodes(x, path + (k,))


def put(v, path, x):
    if not path:
        return x
    v = copy.deepcopy(v)
    p = v
    for k in path[:-1]:
        p = p[k]
    p[path[-1]] = x
    return v


def smaller(case):
    for path, v in list(nodes(case)):
        if isinstance(v, list):
            n = len(v)
            size = n
            while size >= 1:
                for a in range(0, n, size):
                    yield put(case, path, v[:a] + v[a + size:])
                size //= 2
    for path, v in list(nodes(case)):
        if isinstance(v, bool):
            if v:
                yield put(case, path, False)
        elif isinstance(v, (int, float)) and v and math.isfinite(v):
            for x in (0, 1, -1, int(v), round(v, 1)) + ((v / 2,) if abs(v) > 1e-3 else ()):
                if type(x)(x) != v and abs(x) <= abs(v):
                    yield put(case, path, type(v)(x))


def kind(msg):
    """What a message says, without its values."""
    return re.sub(r"[-+]?[0-9][-+.0-9e]*|\[.*?\]|'.*?'", "#", msg)[:60]


def shrink(sub, case, msg, scratch, limit=float(os.environ.get("HB_SHRINK", "20"))):
    k = kind(msg)
    end = time.time() + limit
    again = True
    while again and time.time() < end:
        again = False
        for c in smaller(case):
            if time.time() > end:
                break
            try:
                verdict, m, _ = evaluate(sub, c, scratch)
            except BaseException:
                continue
            if verdict == "fail" and kind(m) == k:
                case, msg, again = c, m, True
                break
    return case, msg


# ---- commands --------------------------------------------------------------------------------------------------------

def arg(name, default=None):
    return sys.argv[sys.argv.index(name) + 1] if name in sys.argv else default


def load(prop):
    stubs.install_base(REPO)
    return importlib.import_module(prop)


def fork(f, *a):
    pid = os.fork()
    if pid == 0:
        try:
            f(*a)
            os._exit(0)
        except BaseException:
            traceback.print_exc()
            os._exit(3)
    return pid


def run(prop):
    t0 = time.time()
    seed, tier, scale = arg("--seed", "1"), arg("--tier", "quick"), float(arg("--scale", "1"))
    scratch, replays, only = arg("--scratch"), arg("--replays"), arg("--only", "")
    try:
        mod = load(prop)
    except Exception:  # nothing can be said
        print(traceback.format_exc())
        with open(arg("--out"), "w") as f:
            json.dump(dict(subs=[], failures=[], run_s=0, unconfirmed=0, unconfirmed_msg=""), f)
        return 0
    plan = [(s, max(1, int((s.quick if tier == "quick" else s.thorough) * scale))) for s in mod.SUBS
            if not only or s.name == only]
    files, pids = [], []
    for w in range(WORKERS):
        p = os.path.join(scratch, "w%d.json" % w)
        files.append(p)
        pids.append(fork(worker, mod, prop, plan, seed, w, p, os.path.join(scratch, "d%d" % w)))
    bad = [pid for pid in pids if os.waitpid(pid, 0)[1] != 0]
    if bad:
        print("a worker ended abnormally")
        return 2
    parts = [json.load(open(p)) for p in files]
    subs, failures, unconfirmed, unmsg = [], [], 0, ""
    for k, (sub, n) in enumerate(plan):
        rs = [p[k] for p in parts]
        tags, why = {}, {}
        for r in rs:
            for t, c in r["tags"].items():
                tags[t] = tags.get(t, 0) + c
            for t, c in r["why"].items():
                why[t] = why.get(t, 0) + c
        hashes = {h for r in rs for h in r["hashes"]}
        subs.append(dict(name=sub.name, evaluations=sum(r["evaluations"] for r in rs),
                         discarded=sum(r["discarded"] for r in rs), distinct_nontrivial=len(hashes), tags=tags,
                         samples=[s for r in rs for s in r["samples"]][:2], rule=sub.rule))
        if why and os.environ.get("HB_VERBOSE"):
            for t, c in sorted(why.items(), key=lambda x: -x[1])[:3]:
                print("discarded %d: %s" % (c, t))
        fails = sorted((f for r in rs for f in r["fails"]), key=lambda f: f[0])
        if fails:
            i, case, msg = fails[0]
            d = os.path.join(scratch, "shrink")
            os.makedirs(d, exist_ok=True)
            res = os.path.join(scratch, "shrunk.json")

            def job():
                c, m = shrink(sub, case, msg, d)
                with open(res, "w") as f:
                    json.dump([c, m], f)

            os.waitpid(fork(job), 0)
            small, smsg = json.load(open(res)) if os.path.exists(res) else (case, msg)
            for c, m in ((small, smsg), (case, msg)):
                path = os.path.join(replays, "%s-%s-%s-%d.json" % (prop, sub.name, seed, i))
                with open(path, "w") as f:
                    json.dump({"property": prop, "sub": sub.name, "case": c, "message": m}, f, indent=1)
                ok = 0
                for _ in range(3):
                    rc = subprocess.run([sys.executable, os.path.join(HERE, "engine.py"), prop, "replay", "--file", path,
                                         "--scratch", scratch], stdout=subprocess.DEVNULL,
                                        stderr=subprocess.DEVNULL).returncode
                    ok += rc == 1
                if ok == 3:
                    failures.append(dict(sub=sub.name, idx=i, confirmed=ok, msg=m, replay=path))
                    break
            else:
                os.remove(path)
                unconfirmed += 1
                unmsg = msg
    with open(arg("--out"), "w") as f:
        json.dump(dict(subs=subs, failures=failures, run_s=round(time.time() - t0, 2), unconfirmed=unconfirmed,
                       unconfirmed_msg=unmsg), f)
    return 0


def replay(prop):
    mod = load(prop)
    r = json.load(open(arg("--file")))
    sub = [s for s in mod.SUBS if s.name == r["sub"]][0]
    verdict, msg, ctx = evaluate(sub, r["case"], arg("--scratch", "/tmp"))
    print("%s/%s: %s %s" % (prop, sub.name, verdict, msg))
    return 1 if verdict == "fail" else 0


class Sub:
    def __init__(self, name, gen, check, quick, thorough, rule):
        self.name, self.gen, self.check = name, gen, check
        self.quick, self.thorough, self.rule = quick, thorough, rule


if __name__ == "__main__":
    sys.modules["engine"] = sys.modules["__main__"]
    sys.exit({"run": run, "replay": replay}[sys.argv[2]](sys.argv[1]))
