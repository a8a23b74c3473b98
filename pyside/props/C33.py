"""Simulations are evaluated on the right days, and the calibration seeks the best of them."""
import datetime as dt
import logging
import math
import sys
import types
import warnings

import numpy as np

from engine import Discard, Fail, Sub, check, refused
import calendars
from calendars import Dates, Stamp

try:
    import hydrobricks  # noqa: F401
    import hydrobricks.trainer as trainer
    import hydrobricks.periods as periods_mod
    import hydrobricks.models.model as model_mod
    from hydrobricks.evaluation.base import AuxiliaryObservation, RecordingRequest
    READY = ""
except Exception as e:
    READY = "import: %r" % (e,)
    AuxiliaryObservation = object

logging.disable(logging.CRITICAL)
PD = calendars.pandas()
DAY = dt.timedelta(days=1)
# Metrics of HydroErr: an error to be reduced or a skill to be increased.
ERRORS = ["rmse", "mae", "mse", "nrmse_range", "nrmse_mean", "rmsle", "mape", "male", "msle", "mdse", "mdae", "maape", "sa",
          "sid", "h1_mahe", "h10_rmshe", "ed", "smape1"]
SKILLS = ["nse", "kge_2009", "kge_2012", "r_squared", "d", "ve", "lm_index", "acc"]


def close(a, b):
    if not (math.isfinite(a) and math.isfinite(b)):
        return a == b
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def arr(v):
    return [float(x) for x in np.asarray(v, dtype=float)]


# ---- the libraries that are not installed ----------------------------------------------------------------------------

CALLS = []


def score(metric, sim, obs):
    """What the stand-in of HydroErr gives: 0 or 1 for a perfect simulation, different for each metric and argument."""
    s, o = arr(sim), arr(obs)
    if len(s) != len(o) or not s:
        raise Fail("series of %d and %d values are compared" % (len(s), len(o)))
    k = 1 + 0.1 * (sum(map(ord, metric)) % 17)
    d = [abs(x - y) for x, y in zip(s, o)]
    if metric in ERRORS:
        return k * math.fsum(d) / len(d) + 0.3 * d[0] / (1 + abs(o[0])) + 0.2 * max(d)
    return 1 - k * math.fsum(x * x for x in d) / (1 + math.fsum(abs(y) for y in o)) - 0.1 * d[-1] / (1 + abs(o[-1]))


class HydroErr(types.ModuleType):
    def __getattr__(self, n):
        if n not in ERRORS and n not in SKILLS:
            raise AttributeError(n)

        def f(simulated_array, observed_array, **k):
            CALLS.append((n, arr(simulated_array), arr(observed_array)))
            return score(n, simulated_array, observed_array)
        return f


class X:
    """Values of the parameters as spotpy gives them."""

    def __init__(self, names, values):
        self.name, self.random = list(names), list(values)

    def __iter__(self):
        return iter(zip(self.random, self.name))

    def __len__(self):
        return len(self.name)


class Algorithm:
    """A spotpy algorithm: the runs are those of the case."""

    def __init__(self, setup, dbname=None, dbformat="ram", parallel="seq", save_sim=True, **k):
        self.setup, self.k = setup, k
        self.evaluation = setup.evaluation()
        self.optimization_direction = DIRECTION[0]
        if DIRECTION[0] is None:
            del self.optimization_direction

    def sample(self, repetitions, **k):
        rows = []
        self.sims = []
        for v in RUNS[:repetitions]:
            x = X(NAMES, v)
            sim = self.setup.simulation(x)
            self.sims.append(sim)
            like = self.setup.objectivefunction(sim, self.evaluation, x)
            like = list(like) if isinstance(like, (list, tuple, np.ndarray)) and np.ndim(like) else [float(like)]
            rows.append([float(y) for y in like] + [float(y) for y in v])
        if len({len(r) for r in rows}) > 1:
            raise Fail("scores of different lengths: %s" % rows)
        n = len(rows[0]) - len(NAMES)
        names = ["like%d" % (i + 1) for i in range(n)] + ["par" + x for x in NAMES]
        self.rows = [r[:n] for r in rows]
        self.data = np.array([tuple(r) for r in rows], dtype=[(x, float) for x in names])

    def getdata(self):
        return self.data


class Algorithms:
    def __getattr__(self, n):
        return Algorithm


def kge_np(evaluation, simulation, **_):
    return score("kge_np", simulation, evaluation)


SPOTPY = types.SimpleNamespace(
    algorithms=Algorithms(), objectivefunctions=types.SimpleNamespace(kge_non_parametric=kge_np),
    parameter=types.SimpleNamespace(generate=lambda p: list(zip(RUNS[0], NAMES))))
NAMES = ["a", "b"]
RUNS, DIRECTION = [], [None]


def setup():
    if READY:
        raise Discard(READY)
    sys.modules["pandas"] = PD
    sys.modules["HydroErr"] = HydroErr("HydroErr")
    sys.modules["spotpy"] = SPOTPY
    for m in (periods_mod, model_mod, trainer):
        if hasattr(m, "pd"):
            m.pd = PD
    trainer.spotpy = SPOTPY
    trainer.HAS_PATHOS = True
    calendars.LACKS.clear()
    CALLS.clear()


def guarded(f):
    def g(c, ctx):
        setup()
        try:
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                ctx.warnings = w
                f(c, ctx)
        except (Discard, Fail):
            if calendars.LACKS:
                raise Discard("stand-in: %s" % calendars.LACKS[0])
            raise
        except Exception:
            if calendars.LACKS:
                raise Discard("stand-in: %s" % calendars.LACKS[0])
            raise
    return g


class Stub:
    def __getattr__(self, n):
        if not n.startswith("__"):
            calendars.LACKS.append("%s.%s" % (type(self).__name__, n))
        raise AttributeError(n)


# ---- dates -----------------------------------------------------------------------------------------------------------

def day(n):
    return dt.date(2000, 1, 1) + dt.timedelta(days=n)


def given(form, n):
    """A day as a text, a datetime or a Timestamp."""
    d = day(n)
    return [d.isoformat(), dt.datetime(d.year, d.month, d.day), Stamp(d)][form % 3]


def gen_span(r, size, near=None):
    a = r.choice([59, 0, -1, 366, 1520, r.randint(-800, 2500)]) if near is None else near + r.randint(-40, 40)
    return [a, a + r.choice([0, 1, r.randint(0, 40), r.randint(0, int(30 + 2000 * size))])]


def same_day(t, n):
    return t is not None and (t.year, t.month, t.day) == (day(n).year, day(n).month, day(n).day)


def spin_of(spec, start):
    """Days of a spin-up, None when invalid (own reading)."""
    if isinstance(spec, bool) or not isinstance(spec, (int, str)):
        return None
    if isinstance(spec, int):
        return spec if spec >= 0 else None
    t = spec.strip().lower()
    unit = t[-1:] if t[-1:] in ("y", "d") else ""
    num = t[:-1] if unit else t
    if not num.lstrip("-").isdigit() or num.startswith("--"):
        return None
    n = int(num)
    if unit != "y":
        return n if n >= 0 else None
    a = day(start)
    try:
        b = a.replace(year=a.year + n)
    except ValueError:
        b = a.replace(year=a.year + n, day=28)
    return (b - a).days if n >= 0 else None


def gen_periods(r, size):
    cal = gen_span(r, size)
    val = gen_span(r, size, r.choice([cal[1], cal[1] + 41, cal[0] - 300, r.randint(-500, 2500)]))
    if r.random() < 0.2:  # side by side, or one day in common
        val = r.choice([[cal[1], cal[1] + 9], [cal[1] + 1, cal[1] + 9], [cal[0] - 9, cal[0]], [cal[0] - 9, cal[0] - 1]])
    k = r.random()
    lo, hi = min(cal[0], val[0]), max(cal[1], val[1])
    sim = None if k < 0.5 else [lo - r.randint(0, 20), hi + r.randint(0, 20)]
    if k > 0.85:
        sim = [lo + r.choice([0, 1]), hi - r.choice([0, 1])]
    if r.random() < 0.06:
        cal = cal[::-1]
    spec = r.choice([r.randint(0, 900), "%dy" % r.randint(0, 6), "%dd" % r.randint(0, 900), str(r.randint(0, 99)), "4Y", " 2y ",
                     "0y", "365D ", "", "y", "4 years", "two", "-1y", -1, "-3d", 2.5, True, None, "1y6d"][:r.choice([4, 8, 19])])
    return dict(cal=cal if r.random() < 0.85 else None, val=val if r.random() < 0.75 else None, sim=sim, spin=spec,
                form=r.randrange(9), wrap=r.randrange(3), axis=gen_span(r, 0.1, cal[0]))


@guarded
def check_periods(c, ctx):
    P, Ps = periods_mod.Period, periods_mod.Periods

    def make(v):
        if v is None:
            return None
        a, b = given(c["form"], v[0]), given(c["form"] // 3, v[1])
        return [lambda: (a, b), lambda: [a, b], lambda: P(a, b)][c["wrap"] % 3]

    spans = {"calibration": c["cal"], "validation": c["val"], "simulation": c["sim"]}
    defined = [v for v in (c["cal"], c["val"]) if v is not None]
    bad = not any(spans.values()) or any(v is not None and v[0] > v[1] for v in spans.values())
    if not bad:
        if c["sim"] is None:
            spans["simulation"] = [min(v[0] for v in defined), max(v[1] for v in defined)]
        s = spans["simulation"]
        bad = any(v[0] < s[0] or v[1] > s[1] for v in defined)
        bad = bad or spin_of(c["spin"], s[0]) is None
    args = {k: make(v) for k, v in (("calibration", c["cal"]), ("validation", c["val"]), ("simulation", c["sim"]))}

    def build():
        return Ps(spinup=c["spin"], **{k: v() for k, v in args.items() if v is not None})

    if bad:
        check(refused(build), "inconsistent periods are accepted: %s, spin-up %r", spans, c["spin"])
        ctx.tag("refused")
        ctx.nontrivial()
        return
    p = build()
    over = c["cal"] is not None and c["val"] is not None and c["cal"][0] <= c["val"][1] and c["val"][0] <= c["cal"][1]
    check(any("overlap" in str(w.message) for w in ctx.warnings) == over, "overlap of %s and %s: %s", c["cal"], c["val"],
          "no warning" if over else "a warning")
    got = p.defined_periods()
    check(set(got) == {k for k, v in spans.items() if v is not None}, "periods %s", sorted(got))
    for k, v in spans.items():
        if v is None:
            check(getattr(p, k) is None, "%s is set", k)
            continue
        q = got[k]
        check(q == getattr(p, k) and q.name == k, "name %s of the %s period", q.name, k)
        check(same_day(q.start, v[0]) and same_day(q.end, v[1]), "%s: %s..%s instead of %s..%s", k, q.start, q.end, day(v[0]),
              day(v[1]))
        check(tuple(q.bounds) == (day(v[0]).isoformat(), day(v[1]).isoformat()), "bounds %s", q.bounds)
        check(q.n_days == v[1] - v[0] + 1, "%d days in %s..%s", q.n_days, day(v[0]), day(v[1]))
        r = q.date_range()
        check(len(r) == q.n_days and same_day(r[0], v[0]) and same_day(r[-1], v[1]), "date axis of %d days", len(r))
        a = PD.date_range(Stamp(day(c["axis"][0])), Stamp(day(c["axis"][1])))
        want = [v[0] <= n <= v[1] for n in range(c["axis"][0], c["axis"][1] + 1)]
        for form in (a, PD.Series(a)):
            check(list(np.asarray(q.mask(form))) == want, "days of %s..%s in %s..%s", day(v[0]), day(v[1]), day(c["axis"][0]),
                  day(c["axis"][1]))
        w = spin_of(c["spin"], v[0])
        check(periods_mod.spinup_to_days(c["spin"], given(c["form"], v[0])) == w, "spin-up %r from %s: not %d days", c["spin"],
              day(v[0]), w)
        check(p.spinup_days_for(q) == min(w, q.n_days), "spin-up %r of %s..%s: %s days", c["spin"], day(v[0]), day(v[1]),
              p.spinup_days_for(q))
        q2 = P(given(c["form"] + 1, v[0]), given(c["form"] + 2, v[1]), "other")
        check(q == q2 and hash(q) == hash(q2), "equal periods differ")
        check(not q == P(given(0, v[0]), given(0, v[1] + 1)), "different periods are equal")
    check(p.full_span == p.simulation, "full span")
    ctx.tag("spin_" + type(c["spin"]).__name__)
    ctx.nontrivial(len(defined) == 2 or c["sim"] is not None)


# ---- evaluation of a simulation --------------------------------------------------------------------------------------

if not READY:
    class Ran(model_mod.Model):
        """A model that has run."""
        _create_structure = _define_structure = _set_options = lambda self, *a, **k: None

        def __init__(self, start, end, sim):
            self.start_date, self.end_date, self.sim = start, end, sim
            self._is_initialized = True
            self.spinup_days, self.name, self.period = 0, "m", None

        def get_outlet_discharge(self):
            return self.sim

    Ran.__abstractmethods__ = frozenset()


class Observed(Stub):
    """Observations with their own dates."""

    def __init__(self, days, values):
        self.time = Dates([Stamp(day(n)) for n in days])
        self.data = [np.array(values, dtype=float)]


def values(r, n):
    return [round(r.uniform(0, 20), 2) for _ in range(n)]


def gen_eval(r, size):
    a = r.choice([50, 0, 360, r.randint(-500, 2500)])
    n = r.randint(1, 6 + int(50 * size))
    sim = values(r, n)
    lo = a - r.choice([0, 0, 3, r.randint(0, 20)]) + r.choice([0, 0, 0, 0, 1, 5])
    hi = a + n - 1 + r.choice([0, 0, 3, r.randint(0, 20)]) - r.choice([0, 0, 0, 0, 1, 5])
    days = list(range(lo, hi + 1))
    if days and r.random() < 0.15:
        days.remove(r.choice(days))
    obs = "dated" if r.random() < 0.6 else "array"
    whole = r.random() < 0.25
    if whole:
        days = list(range(a, a + n))
    p = sorted([a + r.randrange(n), a + r.randrange(n)])
    if r.random() < 0.15:
        p = [p[0] - r.choice([1, n]), p[1]] if r.random() < 0.5 else [p[0], p[1] + r.choice([1, n])]
    q = sorted([a + r.randrange(n), a + r.randrange(n)])
    return dict(start=a, sim=sim, days=days, obs=values(r, len(days)), arr=values(r, n if whole or r.random() < 0.9 else n + 1),
                how=obs, period=None if whole else p, warmup=r.choice([0, 0, 1, r.randrange(n)]) % n, other=q,
                form=r.randrange(9), wrap=r.randrange(3), metrics=r.sample(ERRORS + SKILLS, 2), table=r.random() < 0.5)


@guarded
def check_eval(c, ctx):
    P, n, a = periods_mod.Period, len(c["sim"]), c["start"]
    if not n or len(c["obs"]) != len(c["days"]) or len(set(c["days"])) != len(c["days"]) or not c["metrics"]:
        raise Discard("case")
    m = Ran(given(c["form"], a), given(c["form"], a + n - 1), np.array(c["sim"]))
    dated = c["how"] == "dated"
    by_day = dict(zip(c["days"], c["obs"])) if dated else {a + i: x for i, x in enumerate(c["arr"][:n])}
    obs = Observed(c["days"], c["obs"]) if dated else np.array(c["arr"])

    def slices(p):
        """What is compared on a period, None when it must be refused."""
        if p[0] < a or p[1] > a + n - 1 or (not dated and len(c["arr"]) != n):
            return None
        if any(x not in by_day for x in range(p[0], p[1] + 1)):
            return None
        return c["sim"][p[0] - a:p[1] - a + 1], [by_day[x] for x in range(p[0], p[1] + 1)]

    if c["table"] and c["period"]:
        spans = [c["period"], c["other"]]
        sp = [min(x[0] for x in spans), max(x[1] for x in spans)]
        ps = periods_mod.Periods(*[(given(c["form"], x[0]), given(c["form"], x[1])) for x in spans])
        want = {k: slices(v) for k, v in (("calibration", spans[0]), ("validation", spans[1]), ("simulation", sp))}
        if any(v is None for v in want.values()):
            check(refused(periods_mod.evaluate_periods, m, obs, ps, metrics=c["metrics"]),
                  "periods %s are evaluated although not covered", spans)
            ctx.tag("table_refused")
        else:
            t = periods_mod.evaluate_periods(m, obs, ps, metrics=c["metrics"])
            rows = getattr(t, "rows", None)
            if rows is None:
                raise Discard("table")
            check(set(rows) == set(want), "rows %s", sorted(rows))
            for k, v in want.items():
                for x in c["metrics"]:
                    check(close(rows[k][x], score(x, *v)), "%s of the %s period: %r instead of %r", x, k, rows[k][x],
                          score(x, *v))
            ctx.tag("table")
        ctx.nontrivial()
        return
    x = c["metrics"][0]
    if c["period"]:
        p = [lambda u, v: (u, v), lambda u, v: [u, v], P][c["wrap"]](given(c["form"], c["period"][0]),
                                                                   given(c["form"] // 3, c["period"][1]))
        want = slices(c["period"])
        if c["warmup"] or want is None:
            check(refused(m.eval, x, obs, c["warmup"], p), "evaluated on %s with warmup %d, the run being %s, observed: %s",
                  c["period"], c["warmup"], [a, a + n - 1], c["how"])
            ctx.tag("refused")
        else:
            check(close(m.eval(x, obs, period=p), score(x, *want)), "%s on %s is %r instead of %r", x, c["period"],
                  m.eval(x, obs, period=p), score(x, *want))
            ctx.tag("period")
        ctx.nontrivial()
        return
    if c["warmup"] >= n or (dated and c["days"] != list(range(a, a + n))) or (not dated and len(c["arr"]) != n):
        raise Discard("lengths")
    w = c["warmup"]
    o = [by_day[a + i] for i in range(n)]
    check(close(m.eval(x, obs, warmup=w), score(x, c["sim"][w:], o[w:])), "%s after %d days: %r", x, w,
          m.eval(x, obs, warmup=w))
    ctx.tag("warmup")
    ctx.nontrivial(w > 0)


# ---- calibration -----------------------------------------------------------------------------------------------------

class Params(Stub):
    """Two parameters, the second one being transformed."""

    def __init__(self, c):
        self.c, self.now = c, None

    def get_for_spotpy(self):
        return ["prior"]

    def needs_random_forcing(self):
        return self.c["random"]

    def set_values(self, values, check_range=True, allow_adapt=False, transformed=False):
        v = dict(values)
        if transformed:
            v["b"] = math.exp(v["b"])
        if check_range and not self._ok(v)[1]:
            raise ValueError("out of range")
        self.now = v

    def _ok(self, v):
        return v["a"] + v["b"] < 12, v["a"] < 8

    def constraints_satisfied(self):
        return self._ok(self.now)[0]

    def range_satisfied(self):
        return self._ok(self.now)[1]

    def get_transform(self, name):
        if name == "b":
            return types.SimpleNamespace(to_real=math.exp, to_transformed=math.log)
        return None


class Force(Stub):
    def __init__(self, k):
        self.k, self.ops, self.now = k, [], None

    def apply_operations(self, parameters=None, apply_to_all=True):
        self.ops.append(apply_to_all)
        self.now = dict(parameters.now) if parameters.now else None


class Run(Stub):
    def __init__(self, c, k):
        self.c, self.k, m = c, k, c["models"][k]
        self.start_date, self.end_date = given(m["form"], m["start"]), given(m["form"], m["start"] + c["n"] - 1)
        self.name, self.spinup_days, self.record_all = "model %d" % k, m["spin"], c["record"]
        self.forcing, self.q = None, None

    def set_forcing(self, forcing=None):
        self.forcing = forcing

    def run(self, parameters=None, forcing=None, **_):
        v = parameters.now
        if self.c["random"]:
            check(forcing is not None and forcing.k == self.k, "the forcing is not given to the model")
            check(forcing.now == v, "the forcing is not recomputed with the values of the run")
        else:
            check(self.forcing is not None and self.forcing.k == self.k, "the forcing is not that of the model")
        self.q = np.zeros(0) if v["a"] < 0.2 else q_of(self.c, self.k, v)
        if 7.5 < v["a"] < 8:
            raise RuntimeError("does not run")

    def get_outlet_discharge(self):
        return self.q

    def get_recorded_labels(self):
        return self.c["labels"]


def q_of(c, k, v):
    return np.array([v["a"] * x + 0.1 * v["b"] for x in c["models"][k]["q"]])


class Aux(AuxiliaryObservation):
    def __init__(self, c, e):
        self.e, self.metric, self.weight, self.mode = e, e["metric"], e["weight"], e["mode"]
        self.tolerance, self.relative_tolerance = e["tol"], e["rel"]
        self.requires_recording = e["needs"]
        self.t = list(e["targets"])
        self.asked = None

    def observed(self):
        return np.array([np.nan if x[1] is None else x[1] for x in self.t], dtype=float)

    def simulated(self, model):
        v = model.c["_values"][0]
        return np.array(aux_of(self.t, v), dtype=float)

    def required_recordings(self, model):
        return RecordingRequest(brick_states=[("snowpack", "snow_content")], process_outputs=[("glacier", "melt", "output")])

    def restrict_to_period(self, start, end):
        self.asked = (Stamp(start), Stamp(end))
        self.t = [x for x in self.t if self.asked[0] <= Stamp(day(x[0])) <= self.asked[1]]


def aux_of(targets, v):
    return [np.nan if x[2] is None else x[2] * v["a"] + 0.05 * v["b"] for x in targets]


def gen_runs(r, size):
    out = []
    for _ in range(r.randint(1, 2 + int(6 * size))):
        a = r.choice([1, 0.5, round(r.uniform(0.2, 7.4), 2), round(r.uniform(0.2, 7.4), 2), 0.1, 7.7, 8.5])
        out.append([a, round(r.uniform(-2, 2.2), 2)])
    return out


def gen_calib(r, size, extra=False):
    n = r.randint(2, 5 + int(40 * size))
    k = 1 if extra or r.random() < 0.5 else r.randint(2, 3)
    warm = r.choice([0, 1, None, r.randint(0, n - 1), r.randint(0, n - 1)]) if r.random() < 0.95 else n + r.choice([0, 3])
    if warm is None:
        n += 365
    models = []
    for _ in range(k):
        s = r.choice([50, 0, 360, r.randint(-500, 2500)])
        lo, hi = s - r.choice([0, 0, 1, r.randint(0, 30)]), s + n - 1 + r.choice([0, 0, 1, r.randint(0, 30)])
        d = list(range(lo, hi + 1))
        kind = r.choice(["same"] * 6 + ["shuffled", "repeated", "hole", "short", "away"])
        v = values(r, len(d))
        models.append(dict(start=s, form=r.randrange(3), spin=r.choice([0, 365]), q=values(r, n), days=d, obs=v, kind=kind,
                           pick=r.random(), time=r.randrange(4)))
    c = dict(n=n, models=models, runs=gen_runs(r, size), warmup=warm, periods=False,
             obj=r.choice([None, "callable", r.choice(ERRORS), r.choice(ERRORS), r.choice(SKILLS)]),
             direction=r.choice(["minimize", "maximize", "grid", None]), random=r.random() < 0.3, factory=r.random() < 0.3,
             listed=r.random() < 0.5, pickled=r.random() < 0.5, record=r.random() < 0.7, labels=[], extras=[],
             combine="weighted", dweight=1.0, normalize=True)
    if k == 1 and r.random() < 0.3:
        c["periods"], c["warmup"] = True, None
        c["val"] = gen_span(r, 0.1, models[0]["start"] + n + 50)
    if extra:
        c["combine"] = r.choice(["weighted", "weighted", "pareto"])
        c["dweight"] = r.choice([1.0, 0, 0.5, 2.0])
        c["normalize"] = r.random() < 0.6
        c["labels"] = r.choice([["outlet", "snowpack:snow_content", "glacier:melt:output"], ["snowpack:snow_content"],
                                ["snowpack:snow_content", "glacier:melt:output", "x"]])
        for _ in range(r.randint(1, 3)):
            s = models[0]["start"]
            t = [[r.randint(s - 3, s + n + 2), round(r.uniform(0.5, 9), 2) if r.random() < 0.9 else None,
                  round(r.uniform(0.5, 3), 2) if r.random() < 0.9 else None] for _ in range(r.randint(1, 8))]
            if r.random() < 0.1:
                t = [[x[0], 4.0, x[2]] for x in t]
            mode = r.choice(["objective", "objective", "objective", "constraint"])
            tol = r.choice([1.0, 4.0, 8.0, 0.0, 20.0])
            rel = mode == "constraint" and r.random() < 0.5
            c["extras"].append(dict(targets=t, mode=mode, metric=r.choice(ERRORS[:8] + SKILLS[:4]),
                                    weight=r.choice([1.0, 0.5, 2.0, 0.0]), needs=r.random() < 0.8,
                                    tol=tol if mode == "constraint" and not rel else None, rel=tol / 5 if rel else None))
    return c


def observations(m):
    """The days and values of an observed series."""
    d, v = list(m["days"]), list(m["obs"])
    i = int(m["pick"] * len(d))
    if m["kind"] == "shuffled":
        d, v = d[i:] + d[:i], v[i:] + v[:i]
    elif m["kind"] == "repeated":  # the last one counts
        d, v = d + [d[i]], v + [v[i] + 3.5]
    elif m["kind"] == "hole":
        del d[i], v[i]
    elif m["kind"] == "short":
        d, v = d[i:], v[i:]
    elif m["kind"] == "away":
        d = [x + 5000 for x in d]
    return d, v


def obs_object(m):
    d, v = observations(m)
    o = Observed(d, v)
    o.time = [o.time, PD.Series(o.time), list(o.time), o.time.to_numpy()][m["time"]]
    return o


def custom(obs, sim):
    return score("custom", sim, obs)


def skill(obj, sim, obs):
    if obj is None:
        return score("kge_np", sim, obs)
    if obj == "callable":
        return score("custom", sim, obs)
    return -score(obj, sim, obs) if obj in ERRORS else score(obj, sim, obs)


def bench(metric, sim, obs):
    """1 for a perfect simulation, 0 for the mean of the observations."""
    if metric not in ERRORS:
        return score(metric, sim, obs)
    mean = math.fsum(obs) / len(obs)
    ref = score(metric, [mean] * len(obs), obs)
    if ref < 1e-12:
        return -score(metric, sim, obs)
    return 1 - score(metric, sim, obs) / ref


def valid(c):
    if not c["models"] or not c["runs"] or c["n"] < 1 or any(len(r) != 2 for r in c["runs"]):
        raise Discard("case")
    for m in c["models"]:
        if len(m["q"]) != c["n"] or len(m["days"]) != len(m["obs"]) or len(set(m["days"])) != len(m["days"]) or not m["days"]:
            raise Discard("case")
        if m["days"] != list(range(m["days"][0], m["days"][0] + len(m["days"]))):
            raise Discard("case")
    if any(not e["targets"] or any(len(t) != 3 or t[0] is None for t in e["targets"]) for e in c["extras"]):
        raise Discard("case")
    if any(e["mode"] == "constraint" and (e["tol"] is None) == (e["rel"] is None) for e in c["extras"]):
        raise Discard("case")


def spotpy_setup(c, params, models, forces, obs, extras):
    k = dict(params=params, obj_func=custom if c["obj"] == "callable" else c["obj"])
    if c["warmup"] is not None:
        k["warmup"] = c["warmup"]
    if c["periods"]:
        m = c["models"][0]
        k["periods"] = periods_mod.Periods(calibration=(given(m["form"], m["start"]), given(0, m["start"] + c["n"] - 1)),
                                           validation=(given(0, c["val"][0]), given(0, c["val"][1])), spinup=10)
    if extras:
        k.update(extra_observations=extras, combine=c["combine"], discharge_weight=c["dweight"], normalize=c["normalize"])
    if c["listed"] or len(models) > 1:
        m, f, o = models, forces, obs
    else:
        m, f, o = models[0], forces[0], obs[0]
    if c["factory"]:
        made = []

        def build():
            made.append(1)
            return (m, f, o) if c["listed"] else (m, "ignored", f, o)
        s = trainer.SpotpySetup.from_factory(build, **k)
        check(not made, "the models are built too early")
        s.evaluation()
        s.evaluation()
        check(len(made) == 1, "the models are built %d times", len(made))
        if c["pickled"]:  # as a worker receives it
            state = s.__getstate__()
            check(not any(isinstance(x, (Run, Force)) or x is models for x in state.values()), "the models are pickled")
            s = trainer.SpotpySetup.__new__(trainer.SpotpySetup)
            s.__setstate__(dict(state))
            s.evaluation()
            check(len(made) == 1, "a worker builds the models %d times", len(made))
        return s
    return trainer.SpotpySetup(model=m, forcing=f, discharge=o, **k)


@guarded
def check_calib(c, ctx):
    valid(c)
    n, w = c["n"], 0 if c["periods"] else 365 if c["warmup"] is None else c["warmup"]
    RUNS[:] = c["runs"]
    DIRECTION[0] = c["direction"]
    c["_values"] = [None]
    params, models = Params(c), [Run(c, k) for k in range(len(c["models"]))]
    forces = [Force(k) for k in range(len(models))]
    obs = [obs_object(m) for m in c["models"]]
    extras = [Aux(c, e) for e in c["extras"]]
    plain_set = params.set_values

    def remember(*a, **k):
        plain_set(*a, **k)
        c["_values"][0] = params.now
    params.set_values = remember

    def make():
        return spotpy_setup(c, params, models, forces, obs, extras)

    bad = w >= n
    seen = []  # the observed values of the days evaluated
    for m in c["models"]:
        by = dict(zip(*observations(m)))
        span = range(m["start"], m["start"] + n)
        bad = bad or any(x not in by for x in span)
        seen.append([by.get(x) for x in span][w:])
    need = {"snowpack:snow_content", "glacier:melt:output"}
    s0 = c["models"][0]["start"]
    inside = [[t for t in e["targets"] if s0 + w <= t[0] <= s0 + n - 1] for e in c["extras"]]
    if c["extras"]:
        bad = bad or not any(inside)
        bad = bad or not c["record"] and any(e["needs"] for e in c["extras"]) and not need <= set(c["labels"])
    if bad:
        check(refused(make), "a calibration that cannot be evaluated is accepted: %d days, warmup %d, observations %s", n, w,
              [m["kind"] for m in c["models"]])
        ctx.tag("refused")
        ctx.nontrivial()
        return
    s = make()
    for a, e in zip(extras, inside):
        check(a.t == e, "an auxiliary observation is restricted to %s instead of %s", a.t, e)
    sampler = trainer.calibrate(s, "sceua", repetitions=len(c["runs"]))
    aux_obs = [np.nan if t[1] is None else t[1] for e in inside for t in e]
    ev = sampler.evaluation
    check(len(ev) == len(models), "%d observed series", len(ev))
    for k in range(len(models)):
        want = seen[k] + (aux_obs if c["extras"] else [])
        check(np.array_equal(np.asarray(ev[k], dtype=float), np.array(want, dtype=float), equal_nan=True),
              "the observed series %s is not that of the days evaluated %s", arr(ev[k])[:8], want[:8])
    scores = []
    low = c["direction"] == "minimize"
    multi = c["extras"] and c["combine"] == "pareto"
    count = 1 + sum(e["mode"] == "objective" for e in c["extras"]) if multi else 1
    for i, x in enumerate(c["runs"]):
        v = {"a": x[0], "b": math.exp(x[1])}
        ok = all(params._ok(v)) and 0.2 <= v["a"] <= 7.5
        got = [(-y if low else y) for y in sampler.rows[i]]
        check(len(got) == count, "%d scores instead of %d", len(got), count)
        want = None
        if ok:
            sims = [arr(q_of(c, k, v))[w:] for k in range(len(models))]
            check(sampler.sims[i] is not None and len(sampler.sims[i]) == len(models), "a valid run gives no simulation")
            for k in range(len(models)):
                full = sims[k] + ([float(y) for e in inside for y in aux_of(e, v)] if c["extras"] else [])
                check(np.allclose(np.asarray(sampler.sims[i][k], dtype=float), full, rtol=1e-12, equal_nan=True),
                      "the simulated series is not that of the days evaluated")
            q = [skill(c["obj"], sims[k], seen[k]) for k in range(len(models))]
            want = [math.fsum(q) / len(q)]
            terms = []
            for e, t in zip(c["extras"], inside):
                both = [(y, z[1]) for y, z in zip(aux_of(t, v), t) if z[1] is not None and not math.isnan(y)]
                if not both:
                    ok = False
                    break
                a, b = [y[0] for y in both], [y[1] for y in both]
                if e["mode"] == "constraint":
                    err = math.fsum(abs(y - z) for y, z in both) / len(both)
                    lim = e["tol"] if e["rel"] is None else e["rel"] * math.fsum(map(abs, b)) / len(b)
                    if abs(err - lim) < 1e-9:
                        raise Discard("at the tolerance")
                    ok = ok and err <= lim
                else:
                    terms.append((e["weight"], bench(e["metric"], a, b) if c["normalize"] else
                                  skill(e["metric"], a, b)))
            if ok and multi:
                want = want + [t for _, t in terms]
            elif ok and c["extras"]:
                main = bench(c["obj"], sims[0], seen[0]) if c["normalize"] and c["obj"] in ERRORS else want[0]
                want = [c["dweight"] * main + math.fsum(a * b for a, b in terms)]
        if ok:
            for g, x2 in zip(got, want):
                check(close(g, x2), "a run is scored %r instead of %r (%s, %s)", g, x2, c["obj"], c["direction"])
        else:
            check(all(math.isfinite(g) and g < -1e9 for g in got), "a run that must be rejected is scored %s", got)
        scores.append(want if ok else None)
        ctx.tag("scored" if ok else "rejected")
    good = [i for i, x in enumerate(scores) if x is not None]
    if multi and count > 1:
        check(refused(trainer.get_best, sampler), "one best run among %d objectives", count)
        ctx.tag("pareto")
    elif good:
        best = trainer.get_best(sampler)
        top = max(scores[i][0] for i in good)
        check(close(best["score"], top), "the best score is %r instead of %r", best["score"], top)
        i = best["index"]
        check(scores[i] is not None and close(scores[i][0], top), "the best run is not run %d", i)
        check(close(best["parameters"]["a"], c["runs"][i][0]) and close(best["parameters"]["b"], math.exp(c["runs"][i][1])),
              "the best parameters are %s instead of those of run %d", best["parameters"], i)
    t = getattr(trainer.get_results(sampler), "cols", None)
    if t is None:
        raise Discard("table")
    names = ["score"] if count == 1 else ["score%d" % (k + 1) for k in range(count)]
    check(set(t) == set(names) | {"a", "b"}, "columns %s", sorted(t))
    for i, x in enumerate(c["runs"]):
        check(close(t["a"][i], x[0]) and close(t["b"][i], math.exp(x[1])), "the parameters of run %d are not given back", i)
        for k, g in enumerate(names):
            check(scores[i] is None and t[g][i] < -1e9 or scores[i] is not None and close(t[g][i], scores[i][k]),
                  "the score of run %d is %r", i, t[g][i])
    ctx.tag("factory" if c["factory"] else "objects")
    ctx.tag("low" if low else "high")
    ctx.nontrivial(len(good) > 1)


# ---- refusals --------------------------------------------------------------------------------------------------------

BAD = ["both", "no_calibration", "other_period", "warmup", "sizes", "no_model", "no_forcing", "no_obs", "empty_obs", "combine",
       "mode", "no_tolerance", "two_tolerances", "ensemble", "obj", "workers", "parallel", "pickle", "factory", "no_params"]


def gen_bad(r, size):
    c = gen_calib(r, 0.2 * size, extra=True)
    c.update(bad=r.choice(BAD), factory=False, periods=False, record=True, pick=r.random(), warmup=r.randint(0, 1), obj="rmse")
    for m in c["models"]:
        m["kind"] = "same"
    c["n"] = max(c["n"], 2)
    for e in c["extras"]:
        e["targets"].append([c["models"][0]["start"] + c["n"] - 1, 3.0, 1.0])
    return c


@guarded
def check_bad(c, ctx):
    valid(c)
    bad, pick = c["bad"], c["pick"]
    c["_values"] = [None]
    m, n = c["models"][0], c["n"]
    if m["kind"] != "same" or not c["extras"] or not c["record"] or c["warmup"] is None or c["warmup"] >= n or c["obj"] != "rmse":
        raise Discard("case")
    params, f, o = Params(c), Force(0), obs_object(m)
    span = (given(0, m["start"]), given(0, m["start"] + n - 1))
    extras = [Aux(c, e) for e in c["extras"]]
    k = dict(model=Run(c, 0), forcing=f, discharge=o, params=params, warmup=c["warmup"], extra_observations=extras,
             combine=c["combine"], obj_func=c["obj"])
    P = periods_mod.Periods
    trainer.SpotpySetup(**dict(k, extra_observations=[Aux(c, e) for e in c["extras"]]))  # valid without the fault
    if bad == "both":
        k["periods"] = P(calibration=span)
    elif bad == "no_calibration":
        k.update(periods=P(validation=span), warmup=None)
    elif bad == "other_period":
        d = [(-1, 0), (1, 0), (0, 1), (0, -1)][int(pick * 4)]
        if n < 3:
            raise Discard("short")
        k.update(periods=P(calibration=(given(0, m["start"] + d[0]), given(0, m["start"] + n - 1 + d[1]))), warmup=None)
    elif bad == "warmup":
        k["warmup"] = [-1, 1.5, "10", n, n + 5][int(pick * 5)]
    elif bad == "sizes":
        k.pop("extra_observations")
        two = ["model", "forcing", "discharge"][int(pick * 3)]
        k[two] = [k[two], {"model": Run(c, 0), "forcing": Force(0), "discharge": obs_object(m)}[two]]
    elif bad in ("no_model", "no_forcing", "no_obs"):
        k[{"no_model": "model", "no_forcing": "forcing", "no_obs": "discharge"}[bad]] = None if pick < 0.5 else []
    elif bad == "empty_obs":
        o.data = None if pick < 0.5 else []
    elif bad == "combine":
        k["combine"] = "sum"
    elif bad == "mode":
        extras[-1].mode = "filter"
    elif bad == "no_tolerance":
        extras[0].mode, extras[0].tolerance, extras[0].relative_tolerance = "constraint", None, None
    elif bad == "two_tolerances":
        extras[0].mode, extras[0].tolerance, extras[0].relative_tolerance = "constraint", 1.0, 0.1
    elif bad == "ensemble":
        k.update(model=[Run(c, 0), Run(c, 0)], forcing=[Force(0), Force(0)], discharge=[obs_object(m), obs_object(m)])
    elif bad == "obj":
        k["obj_func"] = 12
    elif bad == "no_params":
        k["params"] = None
    elif bad == "factory":
        k = dict(params=params, warmup=c["warmup"], setup_factory=[lambda: (Run(c, 0), f), lambda: [Run(c, 0), f, o]][int(pick * 2)])
        check(refused(lambda: trainer.SpotpySetup(**k).evaluation()), "an invalid factory is accepted")
        ctx.nontrivial()
        return
    else:
        s = trainer.SpotpySetup(**k)
        RUNS[:] = c["runs"]
        DIRECTION[0] = c["direction"]
        if bad == "pickle":
            check(refused(s.__getstate__), "a calibration with its models is pickled")
        elif bad == "parallel":
            check(refused(trainer.calibrate, s, "sceua", 1, parallel="mpc"), "models are shared between processes")
        else:
            check(refused(trainer.calibrate, s, "sceua", 1, n_workers=[0, -1, 1.5][int(pick * 3)]), "invalid worker count")
        ctx.nontrivial()
        ctx.tag(bad)
        return
    check(refused(trainer.SpotpySetup, **k), "an invalid calibration is accepted (%s)", bad)
    ctx.tag(bad)
    ctx.nontrivial()


SUBS = [
    Sub("periods", gen_periods, check_periods, 10000, 160000, "two periods, a simulation span or a refusal"),
    Sub("evaluation", gen_eval, check_eval, 8000, 140000, "a period or a warmup"),
    Sub("calibration", gen_calib, check_calib, 6000, 110000, "two runs scored, or a refusal"),
    Sub("auxiliary", lambda r, s: gen_calib(r, s, True), check_calib, 6000, 110000, "two runs scored, or a refusal"),
    Sub("refusals", gen_bad, check_bad, 3000, 50000, "every case: one fault in a valid calibration"),
]
