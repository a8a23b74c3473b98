"""A parameter set is a table of named values with ranges, transforms and constraints."""
import json
import math
import os

import yaml

from engine import Discard, Sub, check, refused
import minipandas as pd

try:
    import hydrobricks  # noqa: F401
    import hydrobricks.parameters as mod
    from hydrobricks.parameters import ParameterSet
    READY = ""
except Exception as e:
    READY = "import: %r" % (e,)

COMPONENTS = ["snowpack", "glacier", "slow_reservoir", "Soil", "type:linear"]
NAMES = ["degree_day_factor", "capacity", "k", "Beta", "response_factor", "threshold"]
ALIASES = ["A", "a_snow", "agl", "kq", "Kq2", "PERC", "beta", "x1", "X2", "lp", "tmelt", "b", "fc"]
DATA = ["precip_corr", "Grad_T", "k", "lp", "months", "x9"]
OPS = [">", ">=", "<", "<=", "gt", "ge", "lt", "le"]
TRANSFORMS = {
    "log": (math.log, math.exp),
    "scale": (lambda x: 3.0 * x, lambda y: y / 3.0),
    "neg": (lambda x: -x, lambda y: -y),
    "inv": (lambda x: 1.0 / x, lambda y: 1.0 / y),
    "shift": (lambda x: x + 2.5, lambda y: y - 2.5),
}


# ---- cases -----------------------------------------------------------------------------------------------------------

def num(r):
    return r.choice([0, 1, 2.5, 5, 10, round(r.uniform(0.01, 12), 2), round(r.uniform(-5, 20), 1)])


def case_of(r, s):
    return r.choice([s, s, s.lower(), s.upper(), s.swapcase()])


def gen_range(r):
    k = r.random()
    if k < 0.2:
        n = r.choice([2, 3, 12])
        lo = [num(r) for _ in range(n)]
        return lo, [x + abs(num(r)) for x in lo]
    lo = num(r)
    hi = lo + r.choice([0, 1, 0.5, abs(num(r)), 10])
    if r.random() < 0.08:
        lo, hi = hi + 1, lo
    return (lo if r.random() < 0.9 else None), (hi if r.random() < 0.9 else None)


def pick_aliases(r):
    k = r.random()
    if k < 0.2:
        return None
    if k < 0.35:
        return case_of(r, r.choice(ALIASES))
    return [case_of(r, a) for a in r.sample(ALIASES, r.choice([0, 1, 1, 2]))]


def gen(r, size):
    ops, keys = [], []

    def key():
        if not keys or r.random() < 0.06:
            return r.choice(["nothing", "snowpack:nothing", "A", "k", "snowpack"])
        return case_of(r, r.choice(keys))

    def define():
        if r.random() < 0.25:
            lo, hi = gen_range(r)
            v = None if r.random() < 0.3 else [num(r) for _ in lo] if isinstance(lo, list) else num(r)
            n = r.choice(DATA)
            keys.append(n)
            return ["data", n, v, lo, hi]
        c, n, a = r.choice(COMPONENTS), r.choice(NAMES), pick_aliases(r)
        lo, hi = gen_range(r)
        d = None if r.random() < 0.5 else [num(r) for _ in lo] if isinstance(lo, list) else num(r)
        keys.append(c + ":" + n)
        keys.extend([a] if isinstance(a, str) else a or [])
        return ["define", c, n, a, lo, hi, d, r.random() < 0.6]

    def value():
        return num(r) if r.random() < 0.85 else [num(r) for _ in range(r.choice([2, 3, 12]))]

    for _ in range(r.randint(1, 4)):
        ops.append(define())
    for _ in range(r.randint(2, 4 + int(26 * size))):
        k = r.random()
        if k < 0.14:
            ops.append(define())
        elif k < 0.19:
            a = pick_aliases(r) or ["zz"]
            keys.extend([a] if isinstance(a, str) else a)
            ops.append(["aliases", key(), a])
        elif k < 0.26:
            ops.append(["range", key(), r.choice([None, num(r)]), r.choice([None, num(r) + 5])])
        elif k < 0.33:
            ops.append(["transform", key(), r.choice(list(TRANSFORMS))])
        elif k < 0.63:
            ops.append(["set", [[key(), value()] for _ in range(r.choice([1, 1, 2, 3]))], r.random() < 0.7,
                        r.random() < 0.3, r.random() < 0.3])
        elif k < 0.72:
            last = [o for o in ops if o[0] == "constraint"]
            if last and r.random() < 0.4:  # the same parameter and operator with another one
                ops.append(last[-1][:3] + [key()])
            else:
                ops.append(["constraint", key(), r.choice(OPS), key()])
        elif k < 0.76:
            ops.append(["unconstrain", r.randrange(5), r.random() < 0.2])
        elif k < 0.82:
            ops.append(["random", [key() for _ in range(r.choice([1, 1, 2, 3]))], r.randrange(10 ** 6)])
        elif k < 0.90:
            ops.append(["changing", [key() for _ in range(r.choice([0, 1, 2, 3]))]])
        elif k < 0.93:
            ops.append(["prior", key()])
        elif k < 0.96:
            ops.append(["save", r.choice(["json", "yaml", "both"])])
        else:
            ops.append(["fill"])
    if r.random() < 0.7:
        ops.append(["fill"])
        ops.append(r.choice([["random", [key()], r.randrange(10 ** 6)], ["set", [[key(), value()]], True, True, False]]))
    return dict(ops=ops)


# ---- the reference ---------------------------------------------------------------------------------------------------

class Model:
    def __init__(self):
        self.rows, self.constraints, self.changing = [], [], []

    def find(self, key):
        k = key.lower()
        for row in self.rows:
            if k in [a.lower() for a in row["aliases"] or []] or k == (row["component"] + ":" + row["name"]).lower():
                return row
        return None

    def taken(self, aliases):
        have = {a.lower() for row in self.rows for a in row["aliases"] or []}
        return any(a.lower() in have for a in aliases or [])

    def holds(self):
        """Whether the constraints hold; None if it cannot be told (undefined or list values)."""
        out = True
        for a, op, b in self.constraints:
            x, y = self.find(a), self.find(b)
            if x is None or y is None:
                continue
            x, y = x["value"], y["value"]
            if x is None or y is None or isinstance(x, list) or isinstance(y, list):
                return None
            ok = {">": x > y, "gt": x > y, ">=": x >= y, "ge": x >= y, "<": x < y, "lt": x < y, "<=": x <= y,
                  "le": x <= y}[op]
            out = out and ok
        return out

    def in_range(self):
        for row in self.rows:
            v = row["value"]
            if v is None:
                return False
            if isinstance(row["min"], list) != isinstance(v, list):
                return None
            lo, hi = row["min"], row["max"]
            if not isinstance(v, list):
                v, lo, hi = [v], [lo], [hi]
            if len(v) != len(lo):
                return None
            for x, a, b in zip(v, lo, hi):
                if a is not None and x < a or b is not None and x > b:
                    return False
        return True


def bad_range(lo, hi):
    if lo is None or hi is None:
        return False
    if isinstance(lo, list) != isinstance(hi, list):
        return True
    if isinstance(lo, list):
        return len(lo) != len(hi) or any(b < a for a, b in zip(lo, hi))
    return hi < lo


def near(a, b):
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    if a is None or b is None:
        return a is b
    return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


class Uniform:
    def __init__(self, name=None, low=None, high=None, **k):
        if k:
            raise pd_missing(k)
        self.name, self.low, self.high = name, low, high


def pd_missing(x):
    return NotImplementedError(str(x))


class Spot:
    class parameter:
        Uniform = Uniform


# ---- the history -----------------------------------------------------------------------------------------------------

def check_history(c, ctx):
    if READY:
        raise Discard(READY)
    mod.spotpy, mod.HAS_SPOTPY = Spot, True
    p, m = ParameterSet(), Model()
    done = set()
    for n, op in enumerate(c["ops"]):
        done.add(step(p, m, op, ctx, n))
        compare(p, m, n, op)
    for d in done:
        if d:
            ctx.tag(d)
    ctx.nontrivial(len(m.rows) >= 2 and len(done - {None}) >= 3)


def step(p, m, op, ctx, n):
    what = op[0]
    if what == "define":
        _, comp, name, aliases, lo, hi, default, mandatory = op
        al = [aliases] if isinstance(aliases, str) else aliases
        if isinstance(lo, list) and default is not None and (not isinstance(default, list) or len(default) != len(lo)):
            return None
        if m.find(comp + ":" + name) or al and len({a.lower() for a in al}) != len(al):
            return None
        bad = m.taken(al) or bad_range(lo, hi)
        r = refused(p.define_parameter, component=comp, name=name, unit="mm", aliases=aliases, min_val=lo, max_val=hi,
                    default=default, mandatory=mandatory)
        check(r == bad, "step %d: a definition %s is %s", n, "with a taken alias or a wrong range" if bad else
              "that is valid", "refused" if r else "accepted")
        if bad:
            return "refused_definition"
        m.rows.append(dict(component=comp, name=name, aliases=al, min=lo, max=hi, default=default,
                           mandatory=mandatory, transform=None, prior=None,
                           value=None if mandatory else default))
        return "alias_string" if isinstance(aliases, str) else "define"
    if what == "data":
        _, name, value, lo, hi = op
        if m.find("data:" + name) or isinstance(lo, list) and value is not None and (
                not isinstance(value, list) or len(value) != len(lo)):
            return None
        bad = m.taken([name]) or bad_range(lo, hi)
        r = refused(p.add_data_parameter, name, value, min_val=lo, max_val=hi)
        check(r == bad, "step %d: a data parameter is %s", n, "refused" if r else "accepted")
        if bad:
            return "refused_definition"
        m.rows.append(dict(component="data", name=name, aliases=[name], min=lo, max=hi, default=value, mandatory=False,
                           transform=None, prior=None, value=value))
        return "data"
    if what == "aliases":
        _, key, aliases = op
        al = [aliases] if isinstance(aliases, str) else aliases
        row = m.find(key)
        if len({a.lower() for a in al}) != len(al) or row and any(a.lower() in [b.lower() for b in row["aliases"] or []]
                                                                  for a in al):
            return None
        bad = row is None or m.taken(al)
        r = refused(p.add_aliases, key, aliases)
        check(r == bad, "step %d: aliases %s of %s are %s", n, al, key, "refused" if r else "accepted")
        if bad:
            return "refused_alias"
        row["aliases"] = (row["aliases"] or []) + al
        return "aliases"
    if what == "range":
        _, key, lo, hi = op
        row = m.find(key)
        if row is None:
            check(refused(p.change_range, key, lo, hi), "step %d: the range of an unknown parameter is changed", n)
            return "unknown"
        if isinstance(row["min"], list):
            return None
        if bad_range(row["min"] if lo is None else lo, row["max"] if hi is None else hi):
            return None
        p.change_range(key, lo, hi)
        if lo is not None:
            row["min"] = lo
        if hi is not None:
            row["max"] = hi
        return "range"
    if what == "transform":
        _, key, kind = op
        row = m.find(key)
        lists = row is not None and (isinstance(row["min"], list) or isinstance(row["value"], list))
        r = refused(p.set_transform, key, *TRANSFORMS[kind])
        check(r == (row is None or lists), "step %d: a transform of %s is %s", n, key, "refused" if r else "accepted")
        if not r:
            row["transform"] = kind
            return "transform"
        return "refused_transform"
    if what == "set":
        return step_set(p, m, op, n)
    if what == "constraint":
        _, a, o, b = op
        for x in (a, b):
            row = m.find(x)
            if row and isinstance(row["min"], list):
                return None
        p.define_constraint(a, o, b)
        m.constraints.append([a, o, b])
        return "constraint"
    if what == "unconstrain":
        if not m.constraints:
            return None
        k = m.constraints[op[1] % len(m.constraints)]
        if op[2]:
            p.remove_constraint(k[2], k[1], k[0])  # the opposite one: nothing to remove, unless it is there as well
            if [k[2], k[1], k[0]] in m.constraints:
                m.constraints.remove([k[2], k[1], k[0]])
            return "unconstrain"
        p.remove_constraint(*k)
        m.constraints.remove(k)
        return "unconstrain"
    if what == "random":
        return step_random(p, m, op, n)
    if what == "changing":
        return step_changing(p, m, op, n)
    if what == "prior":
        row = m.find(op[1])
        u = Uniform("other", 0, 1)
        if row is None:
            check(refused(p.set_prior, op[1], u), "step %d: a prior of an unknown parameter is accepted", n)
            return "unknown"
        p.set_prior(op[1], u)
        row["prior"] = u
        return "prior"
    if what == "save":
        return step_save(p, m, op, ctx, n)
    if what == "fill":
        for row in m.rows:
            if row["value"] is None:
                v = row["min"] if row["min"] is not None else row["max"] if row["max"] is not None else 1.5
                p.set_values({row["component"] + ":" + row["name"]: v})
                row["value"] = list(v) if isinstance(v, list) else v
        return "fill"
    raise Discard("operation")


def step_set(p, m, op, n):
    _, items, ranged, adapt, transformed = op
    d, plan, bad, seen = {}, [], False, set()
    for key, v in items:
        row = m.find(key)
        if key in d or row is not None and id(row) in seen:
            return None
        if row is not None:
            seen.add(id(row))
            if isinstance(row["min"], list) != isinstance(v, list) or isinstance(v, list) and len(v) != len(row["min"]):
                if not isinstance(row["min"], list) or ranged:
                    return None
        d[key] = v
    before = {k: list(v) if isinstance(v, list) else v for k, v in d.items()}
    for key, v in d.items():
        row = m.find(key)
        if row is None:
            bad = True
            break
        if transformed and row["transform"]:
            try:
                v = TRANSFORMS[row["transform"]][1](v)
            except (ValueError, ZeroDivisionError, OverflowError):
                return None
            if not math.isfinite(v):
                return None
        if ranged:
            lo, hi = row["min"], row["max"]
            many = isinstance(v, list)
            vs, los, his = (v, lo, hi) if many else ([v], [lo], [hi])
            out = []
            for x, a, b in zip(vs, los, his):
                tol = 1e-9 * max(1, abs(x)) if transformed else 0
                for edge in (a, b):
                    if edge is not None and transformed and abs(x - edge) <= tol and x != edge:
                        return None
                if b is not None and x > b:
                    bad, x = bad or not adapt, b
                elif a is not None and x < a:
                    bad, x = bad or not adapt, a
                out.append(x)
            v = out if many else out[0]
        if bad:
            break
        plan.append((row, v))
    r = refused(p.set_values, d, check_range=ranged, allow_adapt=adapt, transformed=transformed)
    check(r == bad, "step %d: setting %s is %s", n, before, "refused" if r else "accepted")
    check(d == before, "step %d: the values of the caller are altered: %s instead of %s", n, d, before)
    if bad and len(items) > 1:  # how much of it is applied is not specified: only valid values may be there
        for row, v in plan:
            x = p.get(row["component"] + ":" + row["name"])
            check(near(x, v) or near(x, row["value"]), "step %d: %s after a refused setting", n, x)
            row["value"] = x
    elif not bad:
        for row, v in plan:
            row["value"] = list(v) if isinstance(v, list) else v
    return "refused_value" if bad else "adapted" if adapt and ranged else "set_transformed" if transformed else "set"


def step_random(p, m, op, n):
    import random
    keys = op[1]
    rows = [m.find(k) for k in keys]
    if len({id(r) for r in rows}) != len(rows) or len(set(keys)) != len(keys):
        return None
    if any(r is None for r in rows):
        if any(r is not None for r in rows):
            return None
        check(refused(p.set_random_values, list(keys)), "step %d: random values of an unknown parameter", n)
        return "unknown"
    if any(r["min"] is None or r["max"] is None or bad_range(r["min"], r["max"]) for r in rows):
        return None
    used = {id(m.find(x)) for a, _, b in m.constraints for x in (a, b) if m.find(a) and m.find(b)}
    for row in m.rows:
        if id(row) in used and (isinstance(row["min"], list) or isinstance(row["value"], list) or
                                row["value"] is None and row not in rows):
            return None
    old = [r["value"] for r in rows]
    kept = [list(v) if isinstance(v, list) else v for v in old]
    random.seed(op[2])
    try:
        df = p.set_random_values(list(keys))
    except Exception as e:
        if "constraints" not in str(e):
            raise
        # It may only give up when the constraints are hard to satisfy.
        r, good = random.Random(op[2]), 0
        for _ in range(200):
            for row in rows:
                lo, hi = row["min"], row["max"]
                row["value"] = list(lo) if isinstance(lo, list) else r.uniform(lo, hi)
            good += m.holds() is not False
        check(good < 10, "step %d: gives up although the constraints hold for %d of 200 draws", n, good)
        for row in rows:
            row["value"] = p.get(row["component"] + ":" + row["name"])
        return "gave_up"
    for k, row in zip(keys, rows):
        v = p.get(k)
        a = df.loc[0, k]
        check(near(a, v), "step %d: the assigned value of %s is returned as %s but is %s", n, k, a, v)
        row["value"] = list(v) if isinstance(v, list) else v
        vs, lo, hi = (v, row["min"], row["max"]) if isinstance(row["min"], list) else ([v], [row["min"]], [row["max"]])
        check(len(vs) == len(lo) and all(x <= y <= z for x, y, z in zip(lo, vs, hi)),
              "step %d: the random value %s of %s is out of its range [%s, %s]", n, v, k, row["min"], row["max"])
        if all(x < z for x, z in zip(lo, hi)):
            check(not near(v, kept[keys.index(k)]) or len(m.constraints) > 0, "step %d: %s is not changed", n, k)
    check(old == kept, "step %d: values handed over earlier are altered", n)
    h = m.holds()
    check(h is None or h, "step %d: the random values do not satisfy the constraints", n)
    return "random_constrained" if used & {id(r) for r in rows} else "random"


def step_changing(p, m, op, n):
    keys = op[1]
    p.allow_changing = list(keys)
    check(list(p.allow_changing) == list(keys), "step %d: allow_changing is not kept", n)
    rows = [m.find(k) for k in keys]
    if any(r is None for r in rows):
        # refused, unless a parameter of the forcing comes first
        first = next((i for i, r in enumerate(rows) if r is None or r["component"] == "data"))
        if rows[first] is None:
            check(refused(p.needs_random_forcing), "step %d: an unknown parameter to calibrate is accepted", n)
        check(refused(p.get_for_spotpy), "step %d: an unknown parameter to calibrate is accepted", n)
        return "unknown"
    check(bool(p.needs_random_forcing()) == any(r["component"] == "data" for r in rows),
          "step %d: needs_random_forcing() for %s", n, keys)
    if any(isinstance(r["min"], list) or r["min"] is None or r["max"] is None for r in rows if not r["prior"]):
        return "changing"
    want = []
    for k, r in zip(keys, rows):
        lo, hi = r["min"], r["max"]
        if not r["prior"] and r["transform"]:
            try:
                lo, hi = sorted([TRANSFORMS[r["transform"]][0](lo), TRANSFORMS[r["transform"]][0](hi)])
            except (ValueError, ZeroDivisionError):
                return "changing"
        want.append((k, lo, hi))
    out = p.get_for_spotpy()
    check(len(out) == len(keys), "step %d: %d parameters for spotpy instead of %d", n, len(out), len(keys))
    for (k, lo, hi), r, u in zip(want, rows, out):
        if r["prior"]:
            check(u is r["prior"] and m.find(u.name) is r, "step %d: the prior of %s is not used", n, k)
        else:
            check(isinstance(u, Uniform) and u.name == k and near(u.low, lo) and near(u.high, hi),
                  "step %d: %s in [%s, %s] for spotpy instead of [%s, %s]", n, u.name, u.low, u.high, lo, hi)
    return "spotpy" if keys else "changing"


def step_save(p, m, op, ctx, n):
    want = {}
    for row in m.rows:
        want.setdefault(row["component"], {})[row["name"]] = row["value"]
    for ext in ("json", "yaml"):
        path = os.path.join(ctx.scratch, "par." + ext)
        if os.path.exists(path):
            os.remove(path)
    p.save_as(ctx.scratch, "par", op[1])
    for ext, load in (("json", json.load), ("yaml", yaml.safe_load)):
        path = os.path.join(ctx.scratch, "par." + ext)
        check(os.path.exists(path) == (op[1] in (ext, "both")), "step %d: file type %s: %s", n, op[1], ext)
        if os.path.exists(path):
            with open(path) as f:
                got = load(f)
            check(set(got) == set(want) and all(
                set(got[k]) == set(want[k]) and all(near(got[k][x], want[k][x]) for x in want[k]) for k in want),
                "step %d: the %s file holds %s instead of %s", n, ext, got, want)
    return "save"


def compare(p, m, n, op):
    for row in m.rows:
        full = row["component"] + ":" + row["name"]
        names = [full, full.upper()] + [a for x in row["aliases"] or [] for a in (x, x.swapcase())]
        for k in names:
            if m.find(k) is not row:
                continue
            check(p.has(k), "step %d (%s): %s is not found", n, op[0], k)
            v = p.get(k)
            check(near(v, row["value"]), "step %d (%s): %s is %s instead of %s", n, op[0], k, v, row["value"])
        check(bool(p.is_for_forcing(full)) == (row["component"] == "data"), "step %d: is_for_forcing(%s)", n, full)
        t = p.get_transform(full)
        check((t is None) == (row["transform"] is None), "step %d: the transform of %s", n, full)
        if row["transform"] and row["value"] is not None and not isinstance(row["value"], list):
            try:
                want = TRANSFORMS[row["transform"]][0](row["value"])
            except (ValueError, ZeroDivisionError):
                want = None
            if want is not None:
                check(near(p.get_transformed(full), want), "step %d: transformed %s is %s instead of %s", n, full,
                      p.get_transformed(full), want)
        elif not row["transform"]:
            check(near(p.get_transformed(full), row["value"]), "step %d: %s has no transform", n, full)
    for k in ("nothing", "snowpack:nothing", "snowpack", "degree_day_factor", ""):
        if m.find(k) is None:
            check(not p.has(k) and refused(p.get, k), "step %d: the unknown parameter '%s' is found", n, k)
            check(p.get_transform(k) is None, "step %d: the unknown parameter '%s' has a transform", n, k)
    undefined = [row["name"] for row in m.rows if row["value"] is None]
    check(list(p.get_undefined()) == undefined, "step %d: undefined: %s instead of %s", n, p.get_undefined(), undefined)
    check(bool(p.is_valid()) == (not undefined) and bool(p.are_valid()) == (not undefined), "step %d: is_valid()", n)
    got = [(r["component"], r["name"], r["value"]) for _, r in p.get_model_parameters().iterrows()]
    want = [(r["component"], r["name"], r["value"]) for r in m.rows if r["component"] != "data"]
    check(len(got) == len(want) and all(a[:2] == b[:2] and near(a[2], b[2]) for a, b in zip(got, want)),
          "step %d: the model parameters are %s instead of %s", n, got, want)
    h = m.holds()
    if h is not None:
        check(bool(p.constraints_satisfied()) == h, "step %d (%s): constraints_satisfied() is %s", n, op[0], not h)
    r = m.in_range()
    if r is not None:
        check(bool(p.range_satisfied()) == r, "step %d (%s): range_satisfied() is %s", n, op[0], not r)


SUBS = [
    Sub("history", gen, check_history, 7000, 110000, "at least two parameters and three kinds of operations"),
]
