"""The basin and the scheduled changes read by the Python package reach the core as written."""
import datetime as dt
import math
import os
import random

import numpy as np

import frames
import tables
from engine import Discard, Fail, Sub, check
import minipandas as pd

pd.DataFrame, pd.Series, pd.MultiIndex, pd.Index = tables.Frame, tables.Ser, tables.Cols, tables.Cols
pd.concat, pd.read_csv = tables.concat, tables.read_csv
pd.Timestamp, pd.DatetimeIndex, pd.to_datetime = frames.Timestamp, frames.DatetimeIndex, frames.to_datetime

try:
    import hydrobricks  # noqa: F401
    import hydrobricks._units as units_mod
    import hydrobricks.hydro_units as hu_mod
    import hydrobricks.actions.action_land_cover_change as lc_mod
    import hydrobricks.actions.action_glacier_evolution_delta_h as dh_mod
    import hydrobricks.actions.action_glacier_evolution_area_scaling as as_mod
    import hydrobricks.actions.action_glacier_snow_to_ice_transformation as si_mod
    READY = ""
except Exception as e:  # the stand-ins do not provide what the package imports
    READY = "import: %r" % (e,)


def is_int(x):
    return isinstance(x, (int, np.integer)) and not isinstance(x, bool)


def is_num(x):
    return isinstance(x, (int, float, np.integer, np.floating))


def bad_call():
    raise TypeError("incompatible function arguments")


# ---- the compiled classes, as recorders ------------------------------------------------------------------------------

class Basin:
    """The SettingsBasin."""

    def __init__(self):
        self.units, self.links = [], []

    def clear(self):
        self.units, self.links = [], []

    def add_hydro_unit(self, id, area, elevation=-9999):
        if not (is_int(id) and is_num(area) and is_num(elevation)):
            bad_call()
        self.units.append(dict(id=int(id), area=float(area), z=float(elevation), covers=[], props={}))

    def add_land_cover(self, name, kind, fraction):
        if not (isinstance(name, str) and isinstance(kind, str) and is_num(fraction)):
            bad_call()
        self.units[-1]["covers"].append([name, kind, float(fraction)])

    def add_hydro_unit_property_double(self, name, value, unit):
        if not (isinstance(name, str) and is_num(value) and isinstance(unit, str)):
            bad_call()
        self.units[-1]["props"][name] = [float(value), str(unit)]

    def add_hydro_unit_property_str(self, name, value):
        if not (isinstance(name, str) and isinstance(value, str)):
            bad_call()
        self.units[-1]["props"][name] = value

    def add_lateral_connection(self, giver_hydro_unit_id, receiver_hydro_unit_id, fraction, type=""):
        if not (is_int(giver_hydro_unit_id) and is_int(receiver_hydro_unit_id) and is_num(fraction)):
            bad_call()
        self.links.append([int(giver_hydro_unit_id), int(receiver_hydro_unit_id), float(fraction)])

    def get_lateral_connection_count(self):
        return len(self.links)


class Changes:
    def __init__(self):
        self.changes = []

    def add_change(self, date, hydro_unit_id, land_cover, area):
        if not (is_num(date) and is_int(hydro_unit_id) and isinstance(land_cover, str) and is_num(area)):
            bad_call()
        self.changes.append([float(date), int(hydro_unit_id), land_cover, float(area)])

    def get_change_count(self):
        return len(self.changes)

    def get_land_cover_count(self):
        return len({c[2] for c in self.changes})


class Lookup:
    def __init__(self):
        self.args = None

    def add_lookup_tables(self, month_num, land_cover, hu_ids, areas, volumes):
        hu_ids = np.asarray(hu_ids)
        if not (is_int(month_num) and isinstance(land_cover, str)) or hu_ids.ndim != 1 or hu_ids.dtype.kind not in "iu":
            bad_call()
        self.args = [int(month_num), land_cover, hu_ids, np.asarray(areas, float), np.asarray(volumes, float)]

    def get_land_cover_name(self):
        return self.args[1]

    def get_hydro_unit_ids(self):
        return self.args[2]

    def get_lookup_table_area(self):
        return self.args[3]

    def get_lookup_table_volume(self):
        return self.args[4]


class SnowToIce:
    def __init__(self, month, day, land_cover):
        if not (is_int(month) and is_int(day) and isinstance(land_cover, str)):
            bad_call()
        self.args = [int(month), int(day), land_cover]

    def get_land_cover_name(self):
        return self.args[2]


FILES = {}


class NcVar:
    def __init__(self, shape):
        self.__dict__["a"] = np.zeros(shape)

    def __setitem__(self, k, v):
        v = np.asarray(v, dtype=float)
        if v.ndim == 2 and v.shape[1] == 1:
            v = v[:, 0]
        self.a[k] = v


class Nc:
    """A NetCDF file opened for writing."""

    def __init__(self, path, mode="r", *a, **k):
        if mode != "w":
            raise frames.Missing("reading")
        self.__dict__.update(_path=str(path), dims={}, variables={})

    def createDimension(self, n, size):
        self.dims[n] = size

    def createVariable(self, name, kind, dims=(), **k):
        self.variables[str(name)] = NcVar(tuple(self.dims[d] for d in dims))
        return self.variables[str(name)]

    def close(self):
        FILES[self._path] = self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def setup():
    if READY:
        raise Discard(READY)
    hu_mod.SettingsBasin = Basin
    hu_mod.Dataset, hu_mod.HAS_NETCDF = Nc, True
    lc_mod._ActionLandCoverChange = Changes
    dh_mod._ActionGlacierEvolutionDeltaH = Lookup
    as_mod._ActionGlacierEvolutionAreaScaling = Lookup
    si_mod._ActionGlacierSnowToIceTransformation = SnowToIce
    FILES.clear()


def refused(f, *a, **k):
    try:
        f(*a, **k)
    except Exception as e:
        if isinstance(e, (Fail, Discard, frames.Missing)):
            raise
        return True
    return False


def close(a, b, rel=1e-9, ab=1e-12):
    return abs(a - b) <= ab + rel * max(abs(a), abs(b))


# ---- units -----------------------------------------------------------------------------------------------------------

# Documented texts: quantity, factor to the reference unit (None: not a mere factor).
TEXTS = {
    "length": {"mm": 1e-3, "millimeter": 1e-3, "m": 1, "meter": 1, "km": 1e3, "kilometer": 1e3, "MM": 1e-3, "KM": 1e3},
    "area": {"m2": 1, "m^2": 1, "m**2": 1, "square meter": 1, "km2": 1e6, "km^2": 1e6, "km**2": 1e6,
             "square kilometer": 1e6, "M2": 1, "KM2": 1e6},
    "time": {"day": 86400, "days": 86400, "h": 3600, "hour": 3600, "hours": 3600, "s": 1, "second": 1, "seconds": 1},
    "rate": {"mm/d": 1, "mm/day": 1, "mm_d": 1, "mm_day": 1, "millimeter per day": 1, "mm/h": 24, "mm/hour": 24,
             "mm_h": 24, "mm_hour": 24, "millimeter per hour": 24, "MM_D": 1, "MM_H": 24},
    "angle": {"deg": 1, "degree": 1, "degrees": 1, "DEG": 1},
    "share": {"%": 1, "percent": 1, "PC": 1},
    "fraction": {"frac": 1, "fraction": 1},
    "celsius": {"°C": 1, "C": 1, "celsius": 1},
    "kelvin": {"K": 1, "°K": 1, "kelvin": 1},
    "year": {"year": 1, "years": 1},
    "month": {"month": 1, "months": 1},
    "speed": {"m/s": 1, "m/second": 1, "m_s": 1, "m_second": 1, "meter per second": 1},
    "energy": {"MJ/m2/d": 1, "MJ/m2/day": 1, "MJ_m2_d": 1, "MJ_m2_day": 1},
    "flux": {"W/m2": 1, "W_m2": 1, "W/m^2": 1, "W/m**2": 1, "Watt per square meter": 1},
    "pressure": {"kPa": 1, "kilopascal": 1},
    "none": {"-": 1, "": 1},
}
# Conversions the docstrings and the code of the package claim to make.
CLAIMED = {("mm", "m"), ("m", "mm"), ("m", "km"), ("km", "m"), ("m2", "km2"), ("km2", "m2"), ("day", "h"), ("day", "s"),
           ("h", "day"), ("h", "s"), ("s", "day"), ("s", "h"), ("mm/d", "mm/h"), ("mm/h", "mm/d")}
BRACKETS = ["%s", "[%s]", "(%s)", " %s ", "<%s>", "{%s}"]


def gen_unit(r, size):
    q = r.choice(list(TEXTS))
    p = q if r.random() < 0.7 else r.choice(list(TEXTS))
    return dict(a=r.choice(list(TEXTS[q])), b=r.choice(list(TEXTS[p])), qa=q, qb=p, deco=[r.choice(BRACKETS) for _ in "ab"],
                x=round(r.uniform(-5000, 5000), 3), form=r.choice(["text", "text", "enum", "mixed", "table"]),
                junk=r.choice(["mmm", "meters per", "m3", "acres", "m/m", "??", "km h", "Mm"]))


def check_unit(c, ctx):
    setup()
    # A bracketed member name is not documented.
    da, db = ["%s" if c[x] in units_mod.Unit.__members__ else c["deco"][i] for i, x in enumerate("ab")]
    a, b = da % c["a"], db % c["b"]
    ua, ub = units_mod.get_unit_enum(a), units_mod.get_unit_enum(b)
    check(isinstance(ua, units_mod.Unit), "get_unit_enum(%r) gives %r", a, ua)
    fa, fb = TEXTS[c["qa"]][c["a"]], TEXTS[c["qb"]][c["b"]]
    same = c["qa"] == c["qb"] and fa == fb
    check((ua == ub) == same, "%r and %r are the units %s and %s", a, b, ua, ub)
    check(units_mod.get_unit_enum(ua) == ua, "get_unit_enum(%r) gives %r", ua, units_mod.get_unit_enum(ua))
    if c["form"] in ("enum", "mixed"):
        a = ua
    if c["form"] == "enum":
        b = ub
    try:
        if c["form"] == "table":
            t = tables.Frame({("q", da % c["a"]): [c["x"], 2 * c["x"]]})["q"]
            y = units_mod.convert_unit_df(t, ub if c["x"] > 0 else b)
            y = np.asarray(y).ravel()
            check(close(y[1], 2 * y[0]), "convert_unit_df: second value %s, first %s", y[1], y[0])
            y = y[0]
        else:
            y = units_mod.convert_unit(c["x"], a, b)
    except Exception as e:
        if isinstance(e, (Fail, frames.Missing)):
            raise
        check(not same, "converting from %r to %r is refused: %s", a, b, e)
        names = {k: u for u in [x for p in CLAIMED for x in p] for k in [units_mod.get_unit_enum(u)]}
        check((names.get(ua), names.get(ub)) not in CLAIMED, "converting from %r to %r is refused: %s", a, b, e)
        ctx.tag("refused")
    else:
        check(c["qa"] == c["qb"], "%s %r converted to %r: %s", c["x"], a, b, y)
        check(close(float(y), c["x"] * fa / fb), "%s %r converted to %r: %s", c["x"], a, b, y)
        ctx.tag("converted" if not same else "same")
    check(refused(units_mod.get_unit_enum, c["junk"]), "the unit %r is accepted", c["junk"])
    ctx.tag(c["form"])
    ctx.nontrivial(not same or a != b)


# ---- hydro units -----------------------------------------------------------------------------------------------------

AREA_UNITS = {"m2": 1, "m^2": 1, "(m2)": 1, "km2": 1e6, "[km2]": 1e6, "km^2": 1e6, "m**2": 1, "km**2": 1e6}
Z_UNITS = ["m", "meter", "[m]", " m"]
COVERS = [("open", "open"), ("ground", "ground"), ("forest", "forest"), ("ice", "glacier"), ("debris", "glacier"),
          ("lake", "lake"), ("soil", "generic_land_cover"), ("glacier", "glacier")]
GENERIC = ("open", "ground", "generic", "generic_land_cover")
PROPS = {"slope": ["deg", "degrees", "%", "percent"], "aspect": ["deg", "-", "TEXT"], "radiation": ["W/m2", "W_m2"],
         "rank": ["-", ""], "class": ["TEXT"], "latitude": ["degrees"], "glacier_area": ["m2"]}
AS_DEG = {"deg", "degree", "degrees", "°"}
AS_PC = {"percent", "%"}


def gen_units(r, size):
    n = r.randint(1, 2 + int(8 * size))
    covers = r.sample(COVERS, r.choice([1, 1, 2, 3]))
    if sum(c[0] in GENERIC or c[1] in GENERIC for c in covers) > 1:
        covers = [c for i, c in enumerate(covers) if i == 0 or not (c[0] in GENERIC or c[1] in GENERIC)]
    ids = r.sample(range(1, 200), n)
    zs = [float(z) if r.random() < 0.8 else z + 0.5 for z in r.sample(range(300, 4500), n)]
    per = r.random() < (0.8 if len(covers) > 1 else 0.3)
    if not per:  # the whole area is given to the first cover, meant to be the generic one
        covers.sort(key=lambda c: not (c[0] in GENERIC or c[1] in GENERIC))
    us = []
    for i, z in zip(ids, zs):
        parts = [float(r.choice([0, r.randrange(1, 5000) * 100, r.randrange(1, 500) * 1000, round(r.uniform(1, 99), 2)]))
                 for _ in covers]
        if sum(parts) == 0:
            parts[0] = 12500.0
        us.append(dict(id=i, z=z, parts=parts if per else [sum(parts)] + [0.0] * (len(covers) - 1), props={}))
    props = {}
    for p in r.sample(list(PROPS), r.choice([0, 0, 1, 2, 3])):
        u = r.choice(PROPS[p])
        props[p] = [r.choice([p, p.capitalize() + " x", "col " + p]), u]
        for x in us:
            x["props"][p] = r.choice(["N", "S", "low", "a b"]) if u == "TEXT" else round(r.uniform(0, 60), 2) \
                if p != "rank" else r.randrange(9)
    return dict(covers=[list(c) for c in covers], units=us, props=props, per=per,
                area_unit=r.choice(list(AREA_UNITS)), z_unit=r.choice(Z_UNITS),
                z_col=r.choice([None, None, "Elevation Bands"]), a_col=r.choice([None, None, "Surface"]),
                junk=r.choice([0, 0, 1, 2]), order=r.randrange(10 ** 6), default=r.random() < 0.5)


def valid(c):
    us = c["units"]
    if not us or not c["covers"] or len({u["id"] for u in us}) != len(us) or len({u["z"] for u in us}) != len(us):
        raise Discard("no units")
    if any(len(u["parts"]) != len(c["covers"]) or sum(u["parts"]) <= 0 or min(u["parts"]) < 0 for u in us):
        raise Discard("areas")
    if len(c["covers"]) > 1 and not c["per"] and any(sum(u["parts"][1:]) for u in us):
        raise Discard("areas per cover")
    if any(set(u["props"]) != set(c["props"]) for u in us) or c["area_unit"] not in AREA_UNITS:
        raise Discard("properties")
    if any(u["z"] <= 0 or u["id"] < 1 for u in us) or len({x[0] for x in c["covers"]}) != len(c["covers"]):
        raise Discard("values")


def text(x):
    return x if isinstance(x, str) else ("%d" % x if float(x).is_integer() and abs(x) < 1e15 else repr(float(x)))


def write_units(c, path):
    """The file of the hydro units, and the options to read it."""
    f = AREA_UNITS[c["area_unit"]]
    cols = [("id", "-", [str(u["id"]) for u in c["units"]]),
            (c["z_col"] or "elevation", c["z_unit"], [text(u["z"]) for u in c["units"]])]
    k = dict(column_elevation=c["z_col"])
    if c["per"]:
        k["columns_areas"] = {}
        for n, (name, _) in enumerate(c["covers"]):
            cols.append(("Sum of " + name, c["area_unit"], [repr(u["parts"][n] / f) for u in c["units"]]))
            k["columns_areas"][name] = "Sum of " + name
    else:
        cols.append((c["a_col"] or "area", c["area_unit"], [repr(sum(u["parts"]) / f) for u in c["units"]]))
        k["column_area"] = c["a_col"]
    if c["props"]:
        k["other_columns"] = {p: col for p, (col, _) in c["props"].items()}
    for p, (col, unit) in c["props"].items():
        cols.append((col, "-" if unit == "TEXT" else unit, [text(u["props"][p]) for u in c["units"]]))
    for n in range(c["junk"]):
        cols.append((["", "notes"][n], ["", "-"][n], ["x%d" % i for i in range(len(c["units"]))]))
    random.Random(c["order"]).shuffle(cols)
    if c["per"]:
        some = list(k["columns_areas"].items())
        random.Random(c["order"]).shuffle(some)
        k["columns_areas"] = dict(some)
    with open(path, "w") as out:
        out.write(",".join(x[0] for x in cols) + "\n" + ",".join(x[1] for x in cols) + "\n")
        for i in range(len(c["units"])):
            out.write(",".join(x[2][i] for x in cols) + "\n")
    return k


def new_units(c, names=None, types=None):
    if c["covers"] == [["open", "open"]] and c["default"]:
        return hu_mod.HydroUnits()
    return hu_mod.HydroUnits(types if types is not None else [x[1] for x in c["covers"]],
                             names if names is not None else [x[0] for x in c["covers"]])


def read_units(c, ctx, **kw):
    path = os.path.join(ctx.scratch, "units.csv")
    k = write_units(c, path)
    h = new_units(c, **kw)
    h.load_from_csv(path, **k)
    return h


def expected(c):
    out = {}
    for u in c["units"]:
        a = sum(u["parts"])
        out[u["id"]] = dict(area=a, z=u["z"], props=dict(u["props"]),
                            covers={name: [kind, p / a] for (name, kind), p in zip(c["covers"], u["parts"])})
    return out


def in_deg(x, unit):
    return x if unit in AS_DEG else math.degrees(math.atan(x / 100)) if unit in AS_PC else None


def compare(settings, want, props, links, when):
    got = settings.units
    check(sorted(u["id"] for u in got) == sorted(want), "%s: units %s instead of %s", when, [u["id"] for u in got],
          sorted(want))
    zs = [u["z"] for u in got]
    check(all(a >= b for a, b in zip(zs, zs[1:])), "%s: the units are not given by decreasing elevation: %s", when, zs)
    for u in got:
        w = want[u["id"]]
        check(close(u["area"], w["area"]), "%s: area of %d: %s instead of %s", when, u["id"], u["area"], w["area"])
        check(close(u["z"], w["z"]), "%s: elevation of %d: %s instead of %s", when, u["id"], u["z"], w["z"])
        check(sorted(x[0] for x in u["covers"]) == sorted(w["covers"]), "%s: land covers of %d: %s instead of %s", when,
              u["id"], [x[0] for x in u["covers"]], sorted(w["covers"]))
        for name, kind, fraction in u["covers"]:
            k, f = w["covers"][name]
            check(kind == k, "%s: the land cover %s is of type %s instead of %s", when, name, kind, k)
            check(close(fraction, f, ab=1e-9) and 0 <= fraction <= 1, "%s: fraction of %s in %d: %s instead of %s", when,
                  name, u["id"], fraction, f)
        check(set(u["props"]) == set(w["props"]), "%s: properties of %d: %s instead of %s", when, u["id"],
              sorted(u["props"]), sorted(w["props"]))
        for p, v in u["props"].items():
            x = w["props"][p]
            if isinstance(x, str):
                check(v == x, "%s: %s of %d: %r instead of %r", when, p, u["id"], v, x)
                continue
            check(not isinstance(v, str) and close(v[0], x) or p == "slope", "%s: %s of %d: %s instead of %s", when, p,
                  u["id"], v, x)
            if p == "slope":  # the core reads it in degrees or m/m
                a, b = in_deg(v[0], v[1]), in_deg(x, props[p][1])
                check(a is not None, "%s: slope of %d in %r (file: %r), a unit the core does not know", when, u["id"],
                      v[1], props[p][1])
                check(close(a, b), "%s: slope of %d: %s %s instead of %s %s", when, u["id"], v[0], v[1], x, props[p][1])
    a, b = sorted(settings.links), sorted(links)
    check(len(a) == len(b) and all(x[:2] == y[:2] and close(x[2], y[2]) for x, y in zip(a, b)),
          "%s: connections %s instead of %s", when, a, b)


def shares(r, n):
    cut = sorted(r.randrange(1, 1000) for _ in range(n - 1))
    return [round((b - a) / 1000, 6) for a, b in zip([0] + cut, cut + [1000])]


def gen_links(r, c):
    ids = [u["id"] for u in c["units"]]
    out = []
    for i in r.sample(ids, r.randint(0, len(ids))):
        others = [j for j in ids if j != i]
        if not others or r.random() < 0.15:
            out.append([i, []])
            continue
        to = r.sample(others, min(len(others), r.choice([1, 1, 2, 3])))
        out.append([i, [list(x) for x in zip(to, shares(r, len(to)))]])
    return out


def gen_basin(r, size):
    c = gen_units(r, size)
    names = [x[0] for x in c["covers"]]
    ops = []
    for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
        k = r.random()
        if k < 0.35:
            ops.append(dict(op="connect", links=gen_links(r, c), form=r.choice(["file", "table", "plain"])))
        elif k < 0.65:
            ids = [u["id"] for u in c["units"]]
            some = r.sample(ids, r.randint(1, len(ids)))
            ops.append(dict(op="init", cover=r.random(), fit=r.random() < 0.8, rows=[[i, round(r.choice([0, r.random() * 0.5]), 4)]
                                                               for i in some]))
        elif k < 0.75:
            new = [x for x in COVERS if x[0] not in names and not (x[0] in GENERIC or x[1] in GENERIC)]
            if new:
                x = r.choice(new)
                names.append(x[0])
                ops.append(dict(op="cover", name=x[0], kind=x[1]))
        elif k < 0.85:
            ops.append(dict(op="reset"))
        elif k < 0.95:
            ops.append(dict(op="prop", name=r.choice(["tilt", "depth"]), vals=round(r.uniform(0, 30), 1)))
        else:
            ops.append(dict(op="populate"))
    c["ops"] = ops
    c["bad"] = r.choice([None, None, "sum", "self", "negative", "unknown_giver", "unknown_receiver", "columns"])
    c["pick"] = r.random()
    return c


def generic_of(covers):
    for name, kind in covers:
        if name in GENERIC or kind in GENERIC:
            return name
    return covers[0][0]


def set_links(h, links, form, path):
    cells = ["{%s}" % ", ".join("%d: %r" % (j, w) for j, w in to) for _, to in links]
    if form == "file":
        with open(path, "w") as out:
            out.write("id,connectivity\n-,-\n")
            for (i, _), s in zip(links, cells):
                out.write('%d,"%s"\n' % (i, s))
        h.set_connectivity(path)
        return
    ids = np.array([i for i, _ in links], np.int64)
    col = np.empty(len(links), object)
    for n, (_, to) in enumerate(links):
        col[n] = {j: w for j, w in to}
    if form == "plain":
        h.set_connectivity(tables.Frame({"id": ids, "connectivity": col}))
    else:
        h.set_connectivity(tables.Frame({("id", "-"): ids, ("connectivity", "-"): col}))


def check_basin(c, ctx):
    valid(c)
    setup()
    names, types = [x[0] for x in c["covers"]], [x[1] for x in c["covers"]]
    kept = list(names), list(types)
    h = read_units(c, ctx, names=names, types=types)
    want, links = expected(c), []
    covers = [tuple(x) for x in c["covers"]]
    props = dict(c["props"])
    compare(h.settings, want, props, links, "loaded")
    if c["per"] or len(covers) == 1:
        h.check_land_cover_fractions_not_empty()
    else:
        check(refused(h.check_land_cover_fractions_not_empty), "missing extents are not noticed")
    check(h.get_hydro_unit_count() == len(want), "get_hydro_unit_count() is %s", h.get_hydro_unit_count())
    done = 0
    for n, o in enumerate(c["ops"]):
        when = "step %d (%s)" % (n, o["op"])
        if o["op"] == "connect":
            if any(i not in want or any(j not in want or j == i for j, _ in to) for i, to in o["links"]) or \
                    not o["links"]:
                continue
            if any(to and not math.isclose(sum(w for _, w in to), 1, rel_tol=1e-9) for _, to in o["links"]):
                continue
            if len({i for i, _ in o["links"]}) != len(o["links"]) or \
                    any(len({j for j, _ in to}) != len(to) or any(w <= 0 for _, w in to) for _, to in o["links"]):
                continue
            set_links(h, o["links"], o["form"], os.path.join(ctx.scratch, "links.csv"))
            links = [[i, j, w] for i, to in o["links"] for j, w in to]
            ctx.tag("links")
        elif o["op"] == "init":
            gen = generic_of(covers)
            others = [x[0] for x in covers if x[0] != gen]
            if not others or len({i for i, _ in o["rows"]}) != len(o["rows"]) or any(i not in want for i, _ in o["rows"]):
                continue
            name = others[int(o["cover"] * len(others)) % len(others)]
            rows = [(i, f) for i, f in o["rows"] if not o["fit"] or
                    (want[i]["covers"][name][1] == 0 and want[i]["covers"][gen][1] > f)]
            if not rows:
                continue
            t = tables.Frame({"hydro_unit": np.array([i for i, _ in rows], np.int64),
                              "area": np.array([f * want[i]["area"] for i, f in rows])})
            if n % 2:
                t["2040-01-01"] = np.array([0.5 * f * want[i]["area"] for i, f in rows])
            again = any(want[i]["covers"][name][1] > 0 for i, f in rows)
            short = any(want[i]["covers"][gen][1] - f < -1e-9 for i, f in rows)
            if short or again:
                # Refused, or taken as the new extent of the cover: the fractions must not lose any area.
                try:
                    h.initialize_from_land_cover_change(name, t)
                except Exception as e:
                    if isinstance(e, frames.Missing):
                        raise
                    ctx.tag("refused_extent")
                    return
                check(not short or again, "%s: %s takes more area than %s has", when, name, gen)
                for i, f in rows:
                    total = sum(x[1] for x in want[i]["covers"].values())
                    got = [sum(x[2] for x in u["covers"]) for u in h.settings.units if u["id"] == i]
                    check(got and close(got[0], total, ab=1e-7), "%s: the fractions of %d add up to %s instead of %s",
                          when, i, got, total)
                ctx.tag("extent_again")
                return
            h.initialize_from_land_cover_change(name, t)
            for i, f in rows:
                want[i]["covers"][name][1] = f
                want[i]["covers"][gen][1] -= f
            ctx.tag("extent")
        elif o["op"] == "cover":
            if any(x[0] == o["name"] for x in covers):
                check(refused(h.add_land_cover, o["name"], o["kind"]), "%s: the cover %s is added twice", when, o["name"])
                continue
            h.add_land_cover(o["name"], o["kind"])
            h.populate_bounded_instance()
            covers.append((o["name"], o["kind"]))
            for w in want.values():
                w["covers"][o["name"]] = [o["kind"], 0.0]
            ctx.tag("cover")
        elif o["op"] == "reset":
            h.initialize_land_cover_fractions()
            h.populate_bounded_instance()
            gen = generic_of(covers)
            for w in want.values():
                for name in w["covers"]:
                    w["covers"][name][1] = 1.0 if name == gen else 0.0
            ctx.tag("reset")
        elif o["op"] == "prop":
            if h.has(o["name"]):
                continue
            ids = [int(x) for x in np.asarray(h.get_ids()).ravel()]
            vals = {i: o["vals"] + n for n, i in enumerate(ids)}
            h.add_property((o["name"], "mm"), np.array([vals[i] for i in ids]))
            h.populate_bounded_instance()
            for i, w in want.items():
                w["props"][o["name"]] = vals[i]
            ctx.tag("property")
        else:
            h.populate_bounded_instance()
        done += 1
        compare(h.settings, want, props, links, when)
    check((names, types) == kept, "the lists of land covers of the caller became %s %s", names, types)
    if c["bad"]:
        bad_links(c, h, want, ctx)
    else:
        save(c, h, want, props, covers, ctx)
    ctx.nontrivial(len(want) > 1 and (done > 0 or len(covers) > 1 or bool(props)))


def bad_links(c, h, want, ctx):
    ids = sorted(want)
    i = ids[int(c["pick"] * len(ids))]
    others = [j for j in ids if j != i]
    new = max(ids) + 1 + int(c["pick"] * 50)
    bad = c["bad"]
    if bad in ("sum", "negative", "unknown_giver") and len(others) < 2:
        return
    t = {"sum": [i, [[j, 0.4] for j in others[:2]]], "self": [i, [[i, 1.0]]],
         "negative": [i, [[others[0], 1.5], [others[1], -0.5]]] if len(others) > 1 else None,
         "unknown_giver": [new, [[i, 1.0]]], "unknown_receiver": [i, [[new, 1.0]]], "columns": None}[bad]
    if bad == "columns":
        ok = refused(h.set_connectivity, tables.Frame({"id": [i], "links": [0]}))
    else:
        ok = refused(set_links, h, [t], ["file", "table", "plain"][int(c["pick"] * 3)],
                     os.path.join(ctx.scratch, "bad.csv"))
    check(ok, "invalid connectivity accepted (%s): %s", bad, t)
    ctx.tag("bad_links")


def save(c, h, want, props, covers, ctx):
    h.save_as("units.nc")
    nc = FILES.get("units.nc")
    check(nc is not None, "save_as: no file")
    order = [int(x) for x in nc.variables["id"].a]
    check(sorted(order) == sorted(want), "save_as: units %s", order)
    check(list(nc.land_cover_names) == [x[0] for x in covers], "save_as: land covers %s", nc.land_cover_names)
    for n, i in enumerate(order):
        w = want[i]
        for name, x in [("area", w["area"]), ("elevation", w["z"])] + [(k, v[1]) for k, v in w["covers"].items()]:
            y = nc.variables[name].a[n]
            # the extent of covers never given is not set
            check(close(y, x, 1e-6, 1e-7) or (x == 0 and y != y), "save_as: %s of %d is %s instead of %s", name, i, y, x)
    for name, kind in covers:
        check(nc.variables[name].type == kind, "save_as: type of %s", name)
    path = os.path.join(ctx.scratch, "saved.csv")
    h.save_to_csv(path)
    g = hu_mod.HydroUnits()
    extra = {p: p for p in next(iter(want.values()))["props"]}
    g.load_from_csv(path, other_columns=extra or None)
    again = {i: dict(w, covers={"open": ["open", 1.0]}) for i, w in want.items()}
    compare(g.settings, again, props, [], "saved and loaded")
    ctx.tag("saved")


def gen_data(r, size):
    c = gen_units(r, size)
    c["per"] = True
    c["given"] = [r.random() < 0.4 for _ in c["covers"]]
    c["ids"] = r.random() < 0.6
    c["lost"] = r.choice([None, None, None, None, "area", "elevation", "table"])
    return c


def check_data(c, ctx):
    """A basin given as a table."""
    valid(c)
    setup()
    gen, f = generic_of([tuple(x) for x in c["covers"]]), AREA_UNITS[c["area_unit"]]
    want = expected(c)
    cols = [(("elevation", "m"), [u["z"] for u in c["units"]]),
            (("area", "m2" if f == 1 else "km2"), [sum(u["parts"]) / f for u in c["units"]])]
    if c["ids"]:
        cols.append((("id", "-"), [u["id"] for u in c["units"]]))
    else:
        want = {n + 1: want[u["id"]] for n, u in enumerate(c["units"])}
    for n, (name, _) in enumerate(c["covers"]):
        if c["given"][n]:
            cols.append((("fraction-" + name, "fraction"), [u["parts"][n] / sum(u["parts"]) for u in c["units"]]))
    for p, (_, unit) in c["props"].items():
        cols.append(((p, "-" if unit == "TEXT" else unit), [u["props"][p] for u in c["units"]]))
    lack = {name for (name, _), g in zip(c["covers"], c["given"]) if not g}
    for w in want.values():
        for name, x in w["covers"].items():
            if name in lack and name != gen:
                x[1] = 0.0
        if gen in lack:
            w["covers"][gen][1] = 1 - sum(x[1] for name, x in w["covers"].items() if name != gen)
    if c["lost"] in ("area", "elevation"):
        cols = [x for x in cols if x[0][0] != c["lost"]]
    t = tables.Frame({k: np.array(v) if not isinstance(v[0], str) else v for k, v in cols})
    args = ([x[1] for x in c["covers"]], [x[0] for x in c["covers"]])
    if c["lost"]:
        check(refused(hu_mod.HydroUnits, *args, "units.csv" if c["lost"] == "table" else t), "accepted without %s",
              c["lost"])
        ctx.tag("lost")
        ctx.nontrivial()
        return
    h = hu_mod.HydroUnits(*args, t)
    compare(h.settings, want, c["props"], [], "given as a table")
    others = [name for name in lack if name != gen]
    if others and len({round(u["z"], 9) for u in c["units"]}) == len(want):
        room = {i: w["covers"][gen][1] for i, w in want.items()}
        i = sorted(want)[c["order"] % len(want)]
        h.initialize_from_land_cover_change(others[0], tables.Frame({
            "hydro_unit": np.array([i]), "area": np.array([0.5 * room[i] * want[i]["area"]])}))
        want[i]["covers"][others[0]][1] = 0.5 * room[i]
        want[i]["covers"][gen][1] -= 0.5 * room[i]
        compare(h.settings, want, c["props"], [], "given as a table, with an extent")
        ctx.tag("extent")
    ctx.tag("fractions" if any(c["given"]) else "no_fraction")
    ctx.nontrivial(len(want) > 1 and (len(c["covers"]) > 1 or bool(c["props"])))


# ---- scheduled changes -----------------------------------------------------------------------------------------------

def gen_changes(r, size):
    c = gen_units(r, size)
    files = []
    for name in r.sample(["glacier", "ice", "debris", "forest"], r.choice([1, 1, 2])):
        nd = r.randint(1, 2 + int(6 * size))
        d0 = dt.date(r.choice([1950, 1999, 2000, 2020]), r.randint(1, 12), r.randint(1, 28))
        days = sorted(r.sample(range(0, 20000), nd))
        dates = [(d0 + dt.timedelta(d)).isoformat() for d in days]
        rows = []
        for u in r.sample(c["units"], r.randint(1, len(c["units"]))):
            area, vals = sum(u["parts"]), []
            x = round(area * r.random() / 1e6, 4)
            for _ in dates:
                k = r.random()
                if k < 0.08:
                    vals.append(None)
                    continue
                if k < 0.5:
                    x = round(x * r.choice([0, 0.5, 0.9, 1.1]), 4) or r.choice([0, round(area * r.random() / 1e6, 4)])
                vals.append(x)
            rows.append([u["id"], vals])
        files.append(dict(cover=name, dates=dates, rows=rows, unit=r.choice(["m2", "km2", "km^2", "m2"]),
                          match=r.choice(["elevation", "elevation", "id"]), whole=r.random() < 0.3))
    c["files"] = files
    c["bad"] = r.choice([None, None, None, "match", "elevation", "id", "unit"])
    c["pick"] = r.random()
    return c


def mjd(s):
    return (dt.date.fromisoformat(s) - dt.date(1858, 11, 17)).days


def write_changes(c, f, path):
    z = {u["id"]: u["z"] for u in c["units"]}
    with open(path, "w") as out:
        out.write(("bands" if f["match"] == "elevation" else "id") + "," + ",".join(f["dates"]) + "\n")
        for i, vals in f["rows"]:
            k = ("%d" % z[i] if f["whole"] else text(z[i])) if f["match"] == "elevation" else str(i)
            out.write(k + "," + ",".join("" if v is None else text(v) for v in vals) + "\n")


def check_changes(c, ctx):
    valid(c)
    setup()
    us = {u["id"]: u for u in c["units"]}
    if len({int(u["z"]) for u in c["units"]}) != len(us):
        raise Discard("units of the same elevation")
    covers = [f["cover"] for f in c["files"]]
    if not c["files"] or len(set(covers)) != len(covers):
        raise Discard("files")
    for f in c["files"]:
        if not f["rows"] or not f["dates"] or f["dates"] != sorted(set(f["dates"])) or f["unit"] not in AREA_UNITS or \
                any(i not in us or len(v) != len(f["dates"]) for i, v in f["rows"]) or \
                len({i for i, _ in f["rows"]}) != len(f["rows"]):
            raise Discard("rows")
    h = read_units(c, ctx)
    a = lc_mod.ActionLandCoverChange()
    check(not a.is_initialized, "an action with no change is given as initialised")
    for n, f in enumerate(c["files"]):
        path = os.path.join(ctx.scratch, "changes%d.csv" % n)
        write_changes(c, f, path)
        a.load_from_csv(path, h, f["cover"], f["unit"], **({} if f["match"] == "elevation" and f["whole"] else
                                                           dict(match_with=f["match"])))
    got = a.action.changes
    known = set()
    for f in c["files"]:
        k = AREA_UNITS[f["unit"]]
        for i, vals in f["rows"]:
            mine = sorted((x for x in got if x[1] == i and x[2] == f["cover"]), key=lambda x: x[0])
            known |= {tuple(x) for x in mine}
            dates = {float(mjd(d)) for d in f["dates"]}
            extra = [x for x in mine if x[0] not in dates]
            check(not extra, "%s: a change of unit %d on a day which is not in the file: %s", f["cover"], i, extra)
            now = None
            for d, v in zip(f["dates"], vals):
                now = now if v is None else v * k
                on = [x[3] for x in mine if x[0] <= mjd(d)]
                check((not on and now is None) or (on and now is not None and close(on[-1], now)),
                      "%s of unit %d on %s: %s instead of %s m2", f["cover"], i, d, on[-1:] or None, now)
    other = [x for x in got if tuple(x) not in known]
    check(not other, "changes which are not in the file: %s", other[:3])
    check(a.get_change_count() == len(got) and a.get_land_cover_count() == len({x[2] for x in got}), "counts")
    check(bool(a.is_initialized), "the action is not initialised")
    if c["bad"]:
        bad_changes(c, h, us, ctx)
    ctx.tag("files", len(c["files"]))
    ctx.nontrivial(len(got) > 2)


def bad_changes(c, h, us, ctx):
    f = dict(c["files"][0])
    a = lc_mod.ActionLandCoverChange()
    path = os.path.join(ctx.scratch, "bad.csv")
    match, unit = f["match"], f["unit"]
    write_changes(c, f, path)
    bad = c["bad"]
    if bad == "match":
        match = "area"
    elif bad == "unit":
        if all(v is None for _, vals in f["rows"] for v in vals):
            return
        unit = ["acres", "m", "mm/d"][int(c["pick"] * 3)]
    else:
        match = bad
        if bad == "elevation":
            key = max(int(u["z"]) for u in us.values()) + 1 + int(c["pick"] * 100)
        else:
            ids = sorted(us)
            between = [x for x in range(ids[0], ids[-1]) if x not in us]
            key = between[int(c["pick"] * len(between))] if between and c["pick"] < 0.5 else ids[-1] + 3
            if c["pick"] < 0.5:
                return  # the core refuses it
        with open(path, "a") as out:
            out.write("%d,%s\n" % (key, ",".join("0.001" for _ in f["dates"])))
    check(refused(a.load_from_csv, path, h, f["cover"], unit, match), "invalid changes are accepted (%s)", bad)
    ctx.tag("bad_" + bad)


# ---- glacier tables --------------------------------------------------------------------------------------------------

MONTHS = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November",
          "December"]


def gen_tables(r, size):
    n, m = r.randint(1, 2 + int(5 * size)), r.randint(1, 3 + int(10 * size))
    ids = r.sample(range(1, 300), n)
    tab = [[[round(r.choice([0, r.uniform(0, 1e5)]), r.choice([0, 1])) for _ in ids] for _ in range(m)] for _ in "av"]
    k = r.random()
    return dict(kind=r.choice(["delta", "scaling"]), ids=ids, area=tab[0], volume=tab[1],
                month=r.randint(1, 12), named=r.random() < 0.5, default=r.random() < 0.2,
                cover=r.choice([None, "glacier", "ice", "glacier_debris"]), names=r.random() < 0.4,
                form=r.choice(["file", "file", "object"]), day=r.randint(1, 28),
                bad=None if k < 0.6 else r.choice(["month", "name", "type", "ids", "rows", "object", "day"]),
                word=r.choice(["Octobre", "oct", "", "13", "Sept"]), num=r.choice([0, -1, 100, 32]))


def check_tables(c, ctx):
    setup()
    ids, area, volume = c["ids"], c["area"], c["volume"]
    if not ids or len(set(ids)) != len(ids) or not area or len(area) != len(volume) or \
            any(len(x) != len(ids) for x in area + volume):
        raise Discard("tables")
    mod = dh_mod if c["kind"] == "delta" else as_mod
    cls = mod.ActionGlacierEvolutionDeltaH if c["kind"] == "delta" else mod.ActionGlacierEvolutionAreaScaling
    month = MONTHS[c["month"] - 1] if c["named"] else c["month"]
    bad = c["bad"]
    vids, volume2 = ids, volume
    if bad == "month":
        month = c["num"]
    elif bad == "name":
        month = c["word"]
    elif bad == "type":
        month = 4.5
    elif bad == "ids":
        vids = [x + 1 for x in ids]
    elif bad == "rows":
        volume2 = volume + [volume[-1]]
    elif bad == "day":
        if 1 <= c["num"] <= 31:
            raise Discard("a valid day")
        ok = refused(si_mod.ActionGlacierSnowToIceTransformation, c["month"], c["num"])
        check(ok, "the day %d of a month is accepted", c["num"])
        ctx.tag("bad_day")
        ctx.nontrivial()
        return
    a = cls()
    k = {} if c["cover"] is None else dict(land_cover=c["cover"])
    if not c["default"] or bad:
        k["update_month"] = month
    names = ["a.csv", "v.csv"] if c["names"] else ["glacier_evolution_lookup_table_area.csv",
                                                   "glacier_evolution_lookup_table_volume.csv"]
    if c["form"] == "file" and bad != "object":
        for name, i, t in zip(names, [ids, vids], [area, volume2]):
            with open(os.path.join(ctx.scratch, name), "w") as out:
                out.write(",".join(map(str, i)) + "\n")
                for row in t:
                    out.write(",".join(text(x) for x in row) + "\n")
        if c["names"]:
            k.update(filename_area="a.csv", filename_volume="v.csv")
        f, args = a.load_from_csv, (ctx.scratch,)
    else:
        src = mod.GlacierEvolutionDeltaH if c["kind"] == "delta" else mod.GlacierEvolutionAreaScaling
        if bad == "object":
            src = type("Other", (), {})
        obj = src.__new__(src)
        obj.get_lookup_table_area = lambda: tables.Frame(np.array(area, float), columns=ids)
        obj.get_lookup_table_volume = lambda: tables.Frame(np.array(volume2, float), columns=vids)
        f, args = a.load_from, (obj,)
    if bad:
        check(refused(f, *args, **k), "invalid glacier tables are accepted (%s)", bad)
        ctx.tag("bad_" + bad)
        ctx.nontrivial()
        return
    f(*args, **k)
    want = [10 if c["default"] else c["month"], c["cover"] or "glacier"]
    got = a.action.args
    check(got is not None, "no tables are handed over")
    check(got[:2] == want, "month and land cover %s instead of %s", got[:2], want)
    for g, w, what in ((got[2], ids, "units"), (got[3], area, "areas"), (got[4], volume, "volumes")):
        check(np.shape(g) == np.shape(w) and np.allclose(g, w, rtol=1e-12, atol=0), "%s: %s instead of %s", what,
              np.asarray(g).tolist(), w)
    check(a.get_month() == want[0], "get_month() is %s instead of %s", a.get_month(), want[0])
    check(a.get_land_cover_name() == want[1], "get_land_cover_name() is %s", a.get_land_cover_name())
    check(list(a.get_hydro_unit_ids()) == ids and np.allclose(a.get_lookup_table_area(), area) and
          np.allclose(a.get_lookup_table_volume(), volume), "the tables given back differ")
    s = si_mod.ActionGlacierSnowToIceTransformation(month, c["day"], **({} if c["cover"] is None else
                                                                      dict(land_cover=c["cover"])))
    check(s.action.args == [c["month"], c["day"], want[1]], "snow to ice: %s instead of %s", s.action.args,
          [c["month"], c["day"], want[1]])
    check((s.get_month(), s.get_day(), s.get_land_cover_name()) == (c["month"], c["day"], want[1]),
          "snow to ice: gives back %s", (s.get_month(), s.get_day(), s.get_land_cover_name()))
    ctx.tag(c["form"])
    ctx.nontrivial(len(ids) > 1)


# ---- refusals --------------------------------------------------------------------------------------------------------

BAD = ["both", "no_id", "no_elevation", "no_area", "area_unit", "cover_count", "cover_name", "mixed_units", "unit",
       "no_column", "no_types", "lengths", "unknown_cover", "too_large"]


def gen_bad(r, size):
    c = gen_units(r, size)
    c["bad"] = r.choice(BAD)
    c["pick"] = r.random()
    c["junk_unit"] = r.choice(["acres", "sq", "??", "m3"])
    return c


def check_bad(c, ctx):
    valid(c)
    setup()
    path = os.path.join(ctx.scratch, "units.csv")
    k = write_units(c, path)
    with open(path) as f:
        rows = [x.split(",") for x in f.read().splitlines()]
    head, bad = rows[0], c["bad"]

    def put(f, a=None, b=None):
        for n, h in enumerate(head):
            if f(h, n):
                if a is not None:
                    rows[0][n] = a
                if b is not None:
                    rows[1][n] = b

    area_col = lambda h, n: h in ("area", c["a_col"]) or h.startswith("Sum of")  # noqa: E731
    h = None
    if bad == "both":
        k.update(column_area="area", columns_areas={x[0]: "area" for x in c["covers"]})
    elif bad == "no_id":
        put(lambda h, n: h == "id", a="number")
    elif bad == "no_elevation":
        put(lambda h, n: h == (c["z_col"] or "elevation"), a="height")
    elif bad == "no_area":
        if c["per"]:
            k["columns_areas"] = {x: y + " bis" for x, y in k["columns_areas"].items()}
        else:
            put(area_col, a="surf")
    elif bad == "area_unit":
        put(area_col, b=["m", "mm/d", "deg", "-"][int(c["pick"] * 4)])
    elif bad == "unit":
        put(lambda h, n: n == int(c["pick"] * len(head)), b=c["junk_unit"])
    elif bad == "cover_count":
        if not c["per"]:
            raise Discard("one area")
        k["columns_areas"]["other"] = "Sum of " + c["covers"][0][0]
    elif bad == "cover_name":
        if not c["per"]:
            raise Discard("one area")
        k["columns_areas"] = {("other" if i == 0 else x): y for i, (x, y) in enumerate(k["columns_areas"].items())}
    elif bad == "mixed_units":
        if not c["per"] or len(c["covers"]) < 2:
            raise Discard("one area")
        first = [n for n, x in enumerate(head) if x.startswith("Sum of")][0]
        put(lambda h, n: n == first, b="km2" if AREA_UNITS[c["area_unit"]] == 1 else "m2")
    elif bad == "no_column":
        k["other_columns"] = {"slope": "nothing"}
    elif bad in ("no_types", "lengths"):
        names, types = [x[0] for x in c["covers"]], [x[1] for x in c["covers"]]
        args = (types + ["open"], names) if bad == "lengths" else ((types, None) if c["pick"] < 0.5 else (None, names))
        check(refused(hu_mod.HydroUnits, *args), "land covers accepted: %s", args)
        h = True
    else:
        h = new_units(c)
        h.load_from_csv(path, **k)
        u = c["units"][int(c["pick"] * len(c["units"]))]
        a = sum(u["parts"])
        name = "none" if bad == "unknown_cover" else c["covers"][-1][0]
        x = 0.1 * a if bad == "unknown_cover" else a * (1.01 + c["pick"])
        t = tables.Frame({"hydro_unit": np.array([u["id"]]), "area": np.array([x])})
        check(refused(h.initialize_from_land_cover_change, name, t), "%s: an extent of %s of %s in %s is accepted", bad,
              x, a, name)
    if h is None:
        with open(path, "w") as out:
            out.write("\n".join(",".join(x) for x in rows) + "\n")
        check(refused(new_units(c).load_from_csv, path, **k), "an invalid file is accepted (%s)", bad)
    ctx.tag(bad)
    ctx.nontrivial()


SUBS = [
    Sub("units", gen_unit, check_unit, 12000, 60000, "two different texts"),
    Sub("basin", gen_basin, check_basin, 20000, 160000, "two units with a step, a second land cover or a property"),
    Sub("data", gen_data, check_data, 6000, 60000, "two units with a second land cover or a property, or a column missing"),
    Sub("changes", gen_changes, check_changes, 10000, 80000, "three changes or more"),
    Sub("tables", gen_tables, check_tables, 9000, 60000, "two units, or an invalid table"),
    Sub("refusals", gen_bad, check_bad, 6000, 40000, "every case: one invalid file, definition or extent"),
]
