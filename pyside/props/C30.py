"""The forcing handed to the core is the station data, corrected and spatialised as declared."""
import datetime as dt
import math
import os
import random
import sys
import zlib

import numpy as np

import frames
from engine import Discard, Fail, Sub, check, refused
import minipandas as pd
from unittest.mock import MagicMock

pd.Timestamp = frames.Timestamp
pd.DatetimeIndex = frames.DatetimeIndex
pd.read_csv = frames.read_csv
pd.to_datetime = frames.to_datetime

try:
    import hydrobricks  # noqa: F401
    import hydrobricks.forcing as forcing_mod
    import hydrobricks.time_series as ts_mod
    import hydrobricks.models.model as model_mod
    from hydrobricks.hydro_units import HydroUnits
    from hydrobricks.parameters import ParameterSet
    READY = ""
except Exception as e:  # the stand-ins do not provide what the package imports
    READY = "import: %r" % (e,)

# Documented names of the variables (docstrings and enumeration), the names of the arguments of pyet, the sign.
VARS = {
    "p": (["P", "precipitation", "precip", "p"], None, False),
    "t": (["T", "temperature", "temp", "t"], "tmean", True),
    "t_min": (["T_MIN", "temperature_min", "min_temperature", "t_min", "tmin"], "tmin", True),
    "t_max": (["T_MAX", "temperature_max", "max_temperature", "t_max", "tmax"], "tmax", True),
    "t_dew_point": (["T_DEW_POINT", "t_dew_point"], "tdew", True),
    "pet": (["PET", "pet"], None, False),
    "rh": (["RH", "relative_humidity", "rh"], "rh", False),
    "rh_min": (["RH_MIN", "relative_humidity_min", "min_relative_humidity", "rh_min", "rhmin"], "rhmin", False),
    "rh_max": (["RH_MAX", "relative_humidity_max", "max_relative_humidity", "rh_max", "rhmax"], "rhmax", False),
    "r_net": (["R_NET", "net_radiation", "r_net", "r_n", "rn"], "rn", False),
    "r_solar": (["R_SOLAR", "solar_radiation", "r_solar", "r_s", "rs"], "rs", False),
    "sd": (["SD", "sunshine_duration", "sd"], "n", False),
    "wind": (["WIND", "wind_speed", "wind"], "wind", False),
    "pressure": (["PRESSURE", "pressure"], "pressure", False),
}
OF = {a: v for v, x in VARS.items() for a in x[0]}
CORE = ["p", "t", "t_min", "t_max", "pet", "r_solar"]
PET = {
    "Penman": "penman", "Penman-Monteith": "pm", "ASCE-PM": "pm_asce", "FAO-56": "pm_fao56",
    "Priestley-Taylor": "priestley_taylor", "Kimberly-Penman": "kimberly_penman", "Thom-Oliver": "thom_oliver",
    "Blaney-Criddle": "blaney_criddle", "Hamon": "hamon", "Romanenko": "romanenko", "Linacre": "linacre",
    "Haude": "haude", "Turc": "turc", "Jensen-Haise": "jensen_haise", "McGuinness-Bordne": "mcguinness_bordne",
    "Hargreaves": "hargreaves", "FAO-24 radiation": "fao_24", "Abtew": "abtew", "Makkink": "makkink", "Oudin": "oudin",
}
PET.update({v: v for v in list(PET.values())})
METHODS = ["default", "constant", "additive_elevation_gradient", "multiplicative_elevation_gradient",
           "multiplicative_elevation_threshold_gradients"]


# ---- the stand-in of pyet --------------------------------------------------------------------------------------------

def weight(name):
    return 1 + zlib.crc32(name.encode()) % 97 / 10


def pyet_value(fn, args):
    """An arbitrary function of the method and of every named argument."""
    out = weight(fn)
    for k in sorted(args):
        out = out + weight(k) * np.asarray(args[k], float) * (1 + 0.01 * weight(fn + k))
    return out


PYET_INDEX = []


class Pyet:
    def __getattr__(self, fn):
        if fn.startswith("__"):
            raise AttributeError(fn)

        def f(*a, **k):
            if a:
                raise frames.Missing("positional arguments of pyet")
            for v in k.values():
                if isinstance(v, pd.Series):
                    PYET_INDEX.append(list(v.index))
            return pyet_value(fn, {n: (np.array(list(v)) if isinstance(v, (pd.Series, frames.NSeries)) else v)
                                   for n, v in k.items()})
        return f


# ---- the stand-in of netCDF4 -----------------------------------------------------------------------------------------

FILES = {}


class NcVar:
    def __init__(self, name, kind, shape, dims):
        self.name, self.dtype, self.dimensions = name, kind, dims
        self._a = np.zeros(shape, {"int": int, "i4": int, "float64": float, "f8": float}.get(kind, np.float32))

    def __setitem__(self, k, v):
        v = np.asarray(v)
        if self._a.ndim == 1 and v.ndim == 2 and v.shape[1] == 1:
            v = v[:, 0]
        self._a[k] = v

    def __getitem__(self, k):
        return self._a[k].copy()

    @property
    def shape(self):
        return self._a.shape


class Nc:
    def __init__(self, path, mode="r", *a, **k):
        self._path, self._w = str(path), mode == "w"
        if self._w:
            self.dims, self.variables = {}, {}
        else:
            if self._path not in FILES:
                raise FileNotFoundError(self._path)
            self.dims, self.variables = FILES[self._path]

    def createDimension(self, n, size):
        self.dims[n] = size

    def createVariable(self, name, kind, dims=(), **k):
        v = NcVar(str(name), kind, tuple(self.dims[d] for d in dims), dims)
        self.variables[str(name)] = v
        return v

    def close(self):
        if self._w:
            FILES[self._path] = (self.dims, self.variables)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def num2date(v, units=None, **k):
    word, _, ref = units.partition(" since ")
    if word != "days":
        raise frames.Missing("num2date in " + units)
    t0 = dt.datetime.fromisoformat(ref.strip())
    return np.array([t0 + dt.timedelta(seconds=round(float(x) * 86400)) for x in v], dtype=object)


# ---- cases -----------------------------------------------------------------------------------------------------------

def num(r, lo, hi, digits=2):
    return round(r.uniform(lo, hi), digits)


def gen_data(r, v, n):
    if v in ("t", "t_min", "t_max", "t_dew_point"):
        a = [num(r, -15, 20, 1) for _ in range(n)]
    elif v == "p":
        a = [r.choice([0.0, 0.0, num(r, 0, 40, 1)]) for _ in range(n)]
    else:
        a = [num(r, 0, 30, 1) for _ in range(n)]
    if r.random() < 0.08:
        a[r.randrange(n)] = None
    if r.random() < 0.1:
        a = [None if x is None else float(round(x)) for x in a]
    return a


def gen(r, size):
    nu = r.randint(1, 2 + int(4 * size))
    zs = [float(r.randrange(300, 3500, 50)) for _ in range(nu)]
    ids = r.sample(range(1, 60), nu)
    units = [dict(id=i, z=z, area=float(r.choice([10, 500, 12500, r.randrange(1, 10 ** 6)])), lat=num(r, -60, 70, 1))
             for i, z in zip(ids, zs)]
    n = r.randint(1, 3 + int(20 * size))
    start = dt.date(r.choice([1970, 1999, 2000, 2019, 2024]), r.randint(1, 12), r.randint(1, 28))
    step = r.choice([24, 24, 24, 1, 6, 240, 24 * 31])
    data = {}
    for v in ["p", "t"] + r.sample(list(VARS), r.randint(0, 5)):
        if v in ("p", "t") and r.random() < 0.1:
            continue
        data[v] = [r.choice(VARS[v][0]), gen_data(r, v, n)]
    if not data:
        data["p"] = ["precip", gen_data(r, "p", n)]
    params, ops = {}, []
    refs = [float(z) for z in zs] + [float(r.randrange(300, 3500, 50))]

    def opt(x):
        if r.random() < 0.3:
            name = "%s_%d" % (r.choice(["Corr", "grad", "x"]), len(params))
            params[name] = x
            return "param:" + name
        return x

    def gradient(lo, hi):
        k = r.random()
        if k < 0.25:
            return [num(r, lo, hi, 3) for _ in range(12)]
        if k < 0.35:
            return [num(r, lo, hi, 3)]
        if k < 0.45:
            return r.choice([0, 1, -1])
        return num(r, lo, hi, 3)

    def correction(v):
        return dict(op="correct", var=r.choice(VARS[v][0]), method=r.choice(["multiplicative", "additive"]),
                    factor=opt(r.choice([num(r, 0.5, 2), num(r, -3, 3), 1, 2, 0.0])))

    def spat(v):
        m = r.choice(METHODS if v in ("p", "t", "pet") else METHODS[1:])
        o = dict(op="spat", var=r.choice(VARS[v][0]), method=m, opts={})
        eff = {"t": METHODS[2], "p": METHODS[3], "pet": "constant"}.get(v) if m == "default" else m
        if eff != "constant" or r.random() < 0.2:
            o["opts"]["ref_elevation"] = opt(r.choice(refs))
            g = gradient(-1.5, 1.5) if eff == METHODS[2] else gradient(-0.1, 0.15)
            if eff == METHODS[4] and isinstance(g, list):
                g = g[0]
            o["opts"][r.choice(["gradient", "gradient", "gradient_1"])] = opt(g)
        if eff == METHODS[4]:
            o["opts"]["gradient_2"] = opt(num(r, -0.1, 0.15, 3))
            o["opts"]["elevation_threshold"] = opt(r.choice(refs))
        return o

    for v in data:
        for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
            ops.append(correction(v))
        if r.random() < 0.9:
            ops.append(spat(v))
            if r.random() < 0.1:
                ops.append(spat(v))
    if r.random() < 0.15:
        v = r.choice(list(VARS))
        ops.append(dict(op="grid", var=r.choice(VARS[v][0]), name="nc_" + v, seed=r.randrange(1000)))
    have = sorted({OF[o["var"]] for o in ops if o["op"] != "correct"})
    if have and r.random() < 0.45:
        use = r.sample([v for v in have if VARS[v][1]], r.randint(0, len([v for v in have if VARS[v][1]])))
        use = [r.choice(VARS[v][0]) for v in use] + r.sample(["lat", "latitude", "elevation"], r.randint(0, 2))
        r.shuffle(use)
        o = dict(op="pet", method=r.choice(list(PET)), use=use)
        if r.random() < 0.5:
            o["lat"] = opt(num(r, -60, 70, 1))
            o["key"] = r.choice(["lat", "latitude"])
        if r.random() < 0.3:
            o["extra"] = {k: opt(num(r, 0, 2)) for k in r.sample(["albedo", "k", "a_s", "alpha"], r.randint(1, 2))}
        ops.append(o)
    r.shuffle(ops)
    ops.sort(key=lambda o: 0 if r.random() < 0.5 else 1)
    names = list(params)
    rounds = [dict(all=True, set={}, add=[])]
    for _ in range(r.choice([0, 0, 1, 2, 3])):
        if r.random() < 0.6 and names:
            rounds.append(dict(all=False, add=[], set={k: None for k in r.sample(names, r.randint(1, len(names)))}))
        else:
            rounds.append(dict(all=True, add=[], set={k: None for k in r.sample(names, r.randint(0, len(names)))}))
            if r.random() < 0.4:
                v = r.choice(list(data))
                rounds[-1]["add"] = [r.choice([correction, spat])(v)]
    for q in rounds[1:]:
        for k in q["set"]:
            x = params[k]
            q["set"][k] = [num(r, -0.2, 0.2, 3) for _ in x] if isinstance(x, list) else \
                r.choice(refs) if abs(x) > 200 else num(r, -1, 2)
    case = dict(units=units, start=start.isoformat(), step=step, n=n, data=data, params=params, ops=ops, rounds=rounds,
                fmt=r.choice(["%Y-%m-%d %H:%M", "%d/%m/%Y %H:%M", "%Y%m%d%H%M"]))
    return case


# ---- the reference ---------------------------------------------------------------------------------------------------

def times(c):
    t0 = dt.datetime.fromisoformat(c["start"])
    return [t0 + dt.timedelta(hours=c["step"] * i) for i in range(c["n"])]


def resolve(x, params):
    return params[x[6:]] if isinstance(x, str) and x.startswith("param:") else x


def grid_values(o, c):
    g = np.random.default_rng(o["seed"])
    return g.uniform(-5, 20, (c["n"], len(c["units"])))


def reference(c, ops, params, data):
    """The spatialised data {variable: (steps, units)} in the order in which they first appear."""
    months = [t.month for t in times(c)]
    one = {v: np.array([np.nan if x is None else x for x in d], float) for v, d in data.items()}
    for o in ops:
        if o["op"] == "correct":
            v, f = OF[o["var"]], resolve(o["factor"], params)
            one[v] = one[v] * f if o["method"] == "multiplicative" else one[v] + f
    two = {}
    for o in ops:
        if o["op"] != "spat":
            continue
        v, q = OF[o["var"]], {k: resolve(x, params) for k, x in o["opts"].items()}
        m = o["method"]
        if m == "default":
            m = {"t": METHODS[2], "p": METHODS[3], "pet": "constant"}[v]
        g = q.get("gradient", q.get("gradient_1"))
        if isinstance(g, list):
            g = np.array([g[0]] * c["n"] if len(g) == 1 else [g[k - 1] for k in months])
        out = np.zeros((c["n"], len(c["units"])))
        for u, unit in enumerate(c["units"]):
            z, d = unit["z"], one[v]
            if m == "constant":
                out[:, u] = d
                continue
            ref = q["ref_elevation"]
            if m == METHODS[2]:
                out[:, u] = d + g * (z - ref) / 100
            elif m == METHODS[3]:
                out[:, u] = d * (1 + g * (z - ref) / 100)
            else:
                thr, g2 = q["elevation_threshold"], q["gradient_2"]
                if z < thr:
                    out[:, u] = d * (1 + g * (z - ref) / 100)
                elif ref > thr:
                    out[:, u] = d * (1 + g2 * (z - ref) / 100)
                else:
                    out[:, u] = d * (1 + g * (thr - ref) / 100) * (1 + g2 * (z - thr) / 100)
        if not VARS[v][2]:
            out = np.where(out < 0, 0, out)
        two[v] = out
    for o in ops:
        if o["op"] == "grid":
            two[OF[o["var"]]] = grid_values(o, c)
    for o in ops:
        if o["op"] == "pet":
            out = np.zeros((c["n"], len(c["units"])))
            for u, unit in enumerate(c["units"]):
                args = {k: resolve(x, params) for k, x in o.get("extra", {}).items()}
                if "lat" in o["use"] or "latitude" in o["use"]:
                    args["lat"] = math.radians(resolve(o["lat"], params) if "lat" in o else unit["lat"])
                for k in o["use"]:
                    if k == "elevation":
                        args["elevation"] = unit["z"]
                    elif k not in ("lat", "latitude"):
                        args[VARS[OF[k]][1]] = two[OF[k]][:, u]
                out[:, u] = pyet_value(PET[o["method"]], args)
            two["pet"] = out
    return two, one


# ---- running the package ---------------------------------------------------------------------------------------------

def make_units(c):
    h = HydroUnits.__new__(HydroUnits)
    us = c["units"]
    h.hydro_units = frames.Units({("id", "-"): [u["id"] for u in us], ("elevation", "m"): [u["z"] for u in us],
                                  ("area", "m2"): [u["area"] for u in us],
                                  ("latitude", "degrees"): [u["lat"] for u in us]})
    return h


def make_forcing(c, ctx):
    f = forcing_mod.Forcing(make_units(c))
    path = os.path.join(ctx.scratch, "meteo.csv")
    fmt = c.get("fmt", "%Y-%m-%d %H:%M")
    cols = list(c["data"])
    with open(path, "w") as out:
        out.write("junk,when," + ",".join("col %s" % v for v in cols) + "\n")
        for i, t in enumerate(times(c)):
            out.write("%d,%s," % (i, t.strftime(fmt)) +
                      ",".join("" if c["data"][v][1][i] is None else repr(c["data"][v][1][i]) for v in cols) + "\n")
    f.load_station_data_from_csv(path, column_time="when", time_format=fmt,
                                 content={c["data"][v][0]: "col %s" % v for v in cols})
    return f


def declare(f, o):
    if o["op"] == "correct":
        f.correct_station_data(variable=o["var"], method=o["method"], correction_factor=o["factor"])
    elif o["op"] == "spat":
        f.spatialize_from_station_data(variable=o["var"], method=o["method"], **o["opts"])
    elif o["op"] == "grid":
        f.spatialize_from_gridded_data(variable=o["var"], path="grid.nc", var_name=o["name"], dim_x="east",
                                       apply_data_gradient=False)
    else:
        k = dict(o.get("extra", {}))
        if "lat" in o:
            k[o.get("key", "lat")] = o["lat"]
        f.compute_pet(method=o["method"], use=list(o["use"]), **k)


def setup(c):
    if READY:
        raise Discard(READY)
    forcing_mod.pyet = Pyet()
    forcing_mod.Dataset = Nc
    forcing_mod.num2date = num2date
    for n in ("HAS_PYET", "HAS_NETCDF"):
        setattr(forcing_mod, n, True)

    def regrid(self, path, **k):
        o = [o for o in c.get("ops", []) if o["op"] == "grid" and o["name"] == k.get("var_name")][0]
        check(path == "grid.nc" and k.get("dim_x") == "east" and k.get("dim_y") == "y" and k.get("dim_time") == "time"
              and k.get("apply_data_gradient") is False, "gridded data: wrong options %s %s", path, k)
        if len(self.time) == 0:
            self.time = frames.NSeries(np.array(times(c), dtype="datetime64[ns]"))
        self.data.append(grid_values(o, c))

    ts_mod.TimeSeries2D.regrid_from_netcdf = regrid
    FILES.clear()
    PYET_INDEX.clear()


def valid(c):
    """Whether a (shrunk) case still makes sense."""
    us = c["units"]
    if not us or c["n"] < 1 or len({u["id"] for u in us}) != len(us) or not c["data"] or not c["rounds"]:
        raise Discard("case")
    if any(len(d[1]) != c["n"] or d[0] not in VARS[v][0] for v, d in c["data"].items()):
        raise Discard("case")
    if min(u["area"] for u in us) <= 0 or not c["rounds"][0]["all"]:
        raise Discard("case")
    ops = list(c["ops"]) + [o for q in c["rounds"] for o in q["add"]]
    done = {OF[o["var"]] for o in ops if o["op"] in ("spat", "grid")}
    first = {OF[o["var"]] for o in c["ops"] if o["op"] in ("spat", "grid")}
    for o in ops:
        if o["op"] in ("spat", "correct") and OF[o["var"]] not in c["data"]:
            raise Discard("case")
        if o["op"] == "pet" and any(OF[k] not in first for k in o["use"] if k not in ("lat", "latitude", "elevation")):
            raise Discard("case")
        if o["op"] == "spat" and any(isinstance(x, list) and len(x) not in (1, 12)
                                     for x in [resolve(y, c["params"]) for y in o["opts"].values()]):
            raise Discard("case")
    if sum(o["op"] == "grid" for o in ops) > 1:
        raise Discard("case")
    return done


def same(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.isclose(a, b, rtol=1e-9, atol=1e-9, equal_nan=True)))


def diff(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return "shape %s instead of %s" % (a.shape, b.shape)
    i = np.argwhere(~np.isclose(a, b, rtol=1e-9, atol=1e-9, equal_nan=True))[0]
    return "%r instead of %r at %s" % (float(a[tuple(i)]), float(b[tuple(i)]), i.tolist())


def prepare(c, ctx, after):
    valid(c)
    setup(c)
    f = make_forcing(c, ctx)
    data = {v: d[1] for v, d in c["data"].items()}
    for v in data:
        names = [str(x) for x in f.data1D.data_name]
        check(v in names, "the column of %s is not loaded (%s)", v, names)
        raw = np.array([np.nan if x is None else x for x in data[v]], float)
        check(same(f.data1D.data[names.index(v)], raw), "station data of %s: wrong values loaded", v)
    p = ParameterSet()
    params = dict(c["params"])
    for k, x in params.items():
        p.add_data_parameter(k, x)
    ops = list(c["ops"])
    for o in ops:
        declare(f, o)
    check(not f.is_initialized(), "the forcing counts as prepared before any operation is applied")
    for k, q in enumerate(c["rounds"]):
        for name, x in q["set"].items():
            params[name] = x
            p.set_values({name: x}, check_range=False)
        p.allow_changing = list(q["set"])
        for o in q["add"]:
            declare(f, o)
            ops.append(o)
        PYET_INDEX.clear()
        f.apply_operations(p if params else None, apply_to_all=q["all"])
        check(f.is_initialized(), "the forcing does not count as prepared after its operations are applied")
        two, one = reference(c, ops, params, data)
        names = [str(x) for x in f.data2D.data_name]
        check(sorted(names) == sorted(two), "round %d: the spatialised variables are %s instead of %s", k,
              sorted(names), sorted(two))
        check(len(f.data2D.data) == len(names), "round %d: %d arrays for %d variables", k, len(f.data2D.data), len(names))
        for v in two:
            a = f.data2D.data[names.index(v)]
            check(same(a, two[v]), "round %d: %s of the hydro units: %s", k, v, "" if same(a, two[v]) else diff(a, two[v]))
        if two:
            t = [frames.stamp(x) for x in np.asarray(f.data2D.time)]
            check(t == times(c), "round %d: the dates of the spatialised data are %s", k, t[:3])
        check(all(x == times(c) for x in PYET_INDEX), "PET computed on other dates")
        after(f, two, k)
    kinds = {o["op"] for o in ops}
    for o in ops:
        ctx.tag(o["op"] if o["op"] != "spat" else o["method"].replace("_elevation", ""))
    if any(isinstance(resolve(x, params), list) and len(resolve(x, params)) == 12 for o in ops if o["op"] == "spat"
           for x in o["opts"].values()):
        ctx.tag("monthly")
    if len(c["rounds"]) > 1:
        ctx.tag("reapplied")
    if any(not q["all"] for q in c["rounds"]):
        ctx.tag("only_changing")
    ctx.nontrivial("spat" in kinds and len(kinds) > 1 or len(ops) > 2)
    return f, p, two


def check_prepare(c, ctx):
    def after(f, two, k):
        if "p" in two and not np.isnan(two["p"]).any():
            areas = np.array([u["area"] for u in c["units"]])
            want = float((two["p"].sum(axis=0) * areas).sum() / areas.sum())
            got = float(f.get_total_precipitation())
            check(abs(got - want) <= 1e-9 * max(1, abs(want)), "total precipitation %r instead of %r", got, want)
            ctx.tag("total")

    prepare(c, ctx, after)


class Core:
    """The compiled model: what it is given. It refuses the variables it does not know, as the core does."""

    def __init__(self):
        self.log = []

    def clear_time_series(self):
        self.log.clear()

    def create_time_series(self, name, time, ids, data):
        if name not in ("precipitation", "p", "temperature", "t", "temperature_min", "t_min", "temperature_max", "t_max",
                        "solar_radiation", "r_solar", "r", "pet", "etp", "custom_1", "custom_2", "custom_3"):
            return False
        self.log.append((name, np.array(time, float), np.array(ids), np.array(data, float)))
        return True

    def attach_time_series_to_hydro_units(self):
        self.log.append("attach")
        return True


NAMES = {"precipitation": "p", "temperature": "t", "temperature_min": "t_min", "temperature_max": "t_max",
         "solar_radiation": "r_solar", "r": "r_solar", "etp": "pet"}


def check_handover(c, ctx):
    core = Core()
    if READY:
        raise Discard(READY)

    class M(model_mod.Model):
        __abstractmethods__ = frozenset()

        def __init__(self):
            pass

        def __del__(self):
            pass

    M.__abstractmethods__ = frozenset()
    m = M()
    m._is_initialized = True
    m.model = core
    m.spatial_structure = make_units(c)

    def after(f, two, k):
        if not two:
            return
        m.set_forcing(f)
        sent = [x for x in core.log if x != "attach"]
        check(core.log and core.log[-1] == "attach" and core.log.count("attach") == 1,
              "round %d: the series are not attached once, after they are all created", k)
        got = [NAMES.get(x[0], x[0]) for x in sent]
        want = [v for v in two if v in CORE]
        check(sorted(got) == sorted(want), "round %d: the core is given %s instead of %s", k, sorted(got), sorted(want))
        mjd = [(t - dt.datetime(1858, 11, 17)).total_seconds() / 86400 for t in times(c)]
        for v, (_, time, ids, data) in zip(got, sent):
            check(time.shape == (c["n"],) and bool(np.all(np.abs(time - mjd) < 1e-6)), "dates of %s given to the core", v)
            check(ids.tolist() == [u["id"] for u in c["units"]], "ids of %s given to the core: %s", v, ids.tolist())
            check(same(data, two[v]), "round %d: values of %s given to the core differ", k, v)
        ctx.tag("handed_over", len(got))

    prepare(c, ctx, after)


def gen_file(r, size):
    c = gen(r, size)
    c["compress"] = r.random() < 0.3
    c["auto"] = r.random() < 0.3 and not c["params"]
    c["swap"] = r.randrange(8) if r.random() < 0.25 else None
    return c


def check_file(c, ctx):
    if c["auto"] and not c["params"]:  # save_as() applies the operations itself
        valid(c)
        setup(c)
        f = make_forcing(c, ctx)
        for o in c["ops"]:
            declare(f, o)
        two, _ = reference(c, c["ops"], {}, {v: d[1] for v, d in c["data"].items()})
        ctx.tag("applied_by_save")
        ctx.nontrivial(len(two) > 1)
        if not two:
            raise Discard("nothing to save")
    else:
        f, p, two = prepare(c, ctx, lambda *a: None)
        if not two:
            raise Discard("nothing to save")
    f.save_as("memory.nc", max_compression=c["compress"])
    g = forcing_mod.Forcing(make_units(c))
    g.load_from("memory.nc")
    names = [str(x) for x in g.data2D.data_name]
    check(sorted(names) == sorted(two), "the file gives back %s instead of %s", sorted(names), sorted(two))
    for v in two:
        a = np.asarray(g.data2D.data[names.index(v)], float)
        check(a.shape == two[v].shape and bool(np.all(np.isclose(a, two[v], rtol=2e-7, atol=1e-30, equal_nan=True))),
              "%s read back from the file differs", v)
    t = [frames.stamp(x) for x in g.data2D.time]
    check(t == times(c), "the dates read back are %s", t[:3])
    if c["swap"] is not None:  # the units of another catchment
        d = dict(c, units=[dict(u) for u in c["units"]])
        k = c["swap"] % len(d["units"])
        if c["swap"] < 4 or len(d["units"]) < 2:
            d["units"][k]["id"] += 1000
        else:
            d["units"] = d["units"][1:] + d["units"][:1]
        h = forcing_mod.Forcing(make_units(d))
        check(refused(h.load_from, "memory.nc"), "a forcing file of other hydro units is accepted")
        ctx.tag("other_units")


# ---- refusals --------------------------------------------------------------------------------------------------------

BAD = ["unknown_variable", "unknown_method", "no_factor", "no_parameters", "unknown_parameter", "not_loaded",
       "no_reference", "bad_gradient", "pet_method", "pet_missing", "no_default", "empty_units", "pet_unknown",
       "grid_method"]


def gen_bad(r, size):
    c = gen(r, size * 0.5)
    c["ops"] = [o for o in c["ops"] if o["op"] in ("correct", "spat")]
    c["rounds"] = c["rounds"][:1]
    c["bad"] = r.choice(BAD)
    c["pick"] = r.random()
    c["word"] = r.choice(["precipitations", "", "rain", "tt", "Temp ", "pluie", "rhmax_"])
    c["len"] = r.choice([0, 2, 3, 11, 13, 24])
    return c


def check_bad(c, ctx):
    valid(c)
    setup(c)
    f = make_forcing(c, ctx)
    p = ParameterSet()
    for k, x in c["params"].items():
        p.add_data_parameter(k, x)
    for o in c["ops"]:
        declare(f, o)
    n = len(f._operations) if hasattr(f, "_operations") else None
    bad, pick = c["bad"], c["pick"]
    some = list(c["data"])[int(pick * len(c["data"]))]
    alias = c["data"][some][0]
    missing = [v for v in VARS if v not in c["data"]]
    other = missing[int(pick * len(missing))]
    late = False
    z = 1000.0
    if bad == "unknown_variable":
        k = int(pick * 3)
        ok = refused((f.correct_station_data, f.spatialize_from_station_data, f.spatialize_from_gridded_data)[k],
                     c["word"], **([{"correction_factor": 1.1}, {}, {}][k]))
    elif bad == "unknown_method":
        ok = refused(f.correct_station_data, alias, "additif", 1.0) if pick < 0.4 else \
            refused(f.spatialize_from_station_data, alias, "additive")
    elif bad == "grid_method":
        ok = refused(f.spatialize_from_gridded_data, alias, "regrid")
    elif bad == "no_factor":
        ok = refused(f.correct_station_data, alias)
    elif bad == "pet_method":
        ok = refused(f.compute_pet, "Penmann", ["t"])
    elif bad == "empty_units":
        ok = refused(forcing_mod.Forcing, make_units(dict(c, units=[])))
        f = None
    else:
        late = True
        if bad == "no_parameters":
            f.correct_station_data(alias, "additive", "param:" + (list(c["params"]) or ["x"])[0])
            p = None
        elif bad == "unknown_parameter":
            f.correct_station_data(alias, "additive", "param:nothing_like_it")
        elif bad == "not_loaded":
            if pick < 0.5:
                f.correct_station_data(VARS[other][0][0], "additive", 1.0)
            else:
                f.spatialize_from_station_data(VARS[other][0][0], "constant")
        elif bad == "no_reference":
            f.spatialize_from_station_data(alias, METHODS[2 + int(pick * 3)], gradient=0.1,
                                           **({"gradient_2": 0.1, "elevation_threshold": z} if pick >= 2 / 3 else {}))
        elif bad == "bad_gradient":
            f.spatialize_from_station_data(alias, METHODS[2 + int(pick * 2)], ref_elevation=z,
                                           gradient=None if pick > 0.9 else [0.1] * c["len"])
        elif bad == "pet_missing":
            v = [v for v in VARS if v not in {OF[o["var"]] for o in c["ops"] if o["op"] == "spat"} and v != "p"]
            f.compute_pet("Hamon", [VARS[v[int(pick * len(v))]][0][0]])
        elif bad == "pet_unknown":
            f.compute_pet("Hamon", [c["word"] or "x"])
        elif bad == "no_default":
            v = [v for v in c["data"] if v not in ("p", "t", "pet")]
            if not v:
                raise Discard("no such variable")
            f.spatialize_from_station_data(c["data"][v[0]][0])
        ok = refused(f.apply_operations, p)
    check(ok, "%s is accepted", bad)
    if f is not None and not late:
        f.apply_operations(p)  # what was refused when declared leaves no trace
        two, _ = reference(c, c["ops"], c["params"], {v: d[1] for v, d in c["data"].items()})
        names = [str(x) for x in f.data2D.data_name]
        check(sorted(names) == sorted(two), "after a refused declaration: %s instead of %s", sorted(names), sorted(two))
        for v in two:
            check(same(f.data2D.data[names.index(v)], two[v]), "after a refused declaration: %s differs", v)
    ctx.tag(bad)
    ctx.nontrivial()


# ---- gridded data ----------------------------------------------------------------------------------------------------

class Grid:
    """A variable of (time, y, x)."""

    def __init__(self, a):
        self._a = a

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise frames.Missing("DataArray.%s" % n)

    shape = property(lambda s: s._a.shape)
    values = property(lambda s: s._a)
    ndim = property(lambda s: 3)
    isel = None

    def __len__(self):
        return len(self._a)

    def __getitem__(self, k):
        return Grid(self._a[k])

    def to_numpy(self):
        return self._a.copy()


def gen_weights(r, size):
    n, y, x, units = r.randint(1, 4 + int(60 * size)), r.randint(1, 5), r.randint(1, 5), r.randint(1, 5)
    return dict(n=n, shape=[y, x], seed=r.randrange(10 ** 6), block=r.choice([1, 2, 7, 100, n]), units=units,
                short=r.choice([0, 0, 0, 1, 3]), order=r.randrange(10 ** 6))


def check_weights(c, ctx):
    """Each unit gets the weighted mean of its cells, whatever the blocks of time steps and their order."""
    setup({"n": 1})
    g = np.random.default_rng(c["seed"])
    n = max(1, c["n"] - c["short"])
    data = np.round(g.uniform(-20, 60, (n, *c["shape"])), 2)
    w = []
    for _ in range(c["units"]):
        a = g.random(c["shape"]) * (g.random(c["shape"]) < 0.6)
        a.flat[g.integers(a.size)] += 0.1
        w.append(a / a.sum())
    t = ts_mod.TimeSeries2D()
    if not hasattr(t, "_extract_time_step_data_weights"):
        raise Discard("no such method")
    t.time = frames.NSeries(np.datetime64("2000-01-01", "ns") + np.arange(c["n"]) * np.timedelta64(86400 * 10 ** 9, "ns"))
    t.data.append(np.zeros((c["n"], len(w))))
    blocks = list(range(1 + -(-c["n"] // c["block"])))
    random.Random(c["order"]).shuffle(blocks)
    for b in blocks:
        t._extract_time_step_data_weights(Grid(data), w, b, c["block"])
    want = np.array([[float((data[i] * a).sum()) for a in w] for i in range(n)] + [[0.0] * len(w)] * (c["n"] - n))
    got = np.asarray(t.data[-1])
    check(got.shape == want.shape and np.allclose(got, want, rtol=1e-9, atol=1e-9), "%d steps by %d: %s instead of %s",
          c["n"], c["block"], got.tolist()[:3], want.tolist()[:3])
    ctx.nontrivial(c["n"] > c["block"] and c["units"] > 1)


SUBS = [
    Sub("weights", gen_weights, check_weights, 3000, 40000, "several blocks of time steps and several units"),
    Sub("prepare", gen, check_prepare, 9000, 120000,
        "at least one spatialisation with another operation, or three operations"),
    Sub("handover", gen, check_handover, 5000, 60000,
        "at least one spatialisation with another operation, or three operations"),
    Sub("file", gen_file, check_file, 4000, 50000, "at least one spatialisation with another operation"),
    Sub("refusals", gen_bad, check_bad, 4000, 40000, "every case: one invalid declaration or application"),
]
