"""Builds the ready-made models of the Python package with generated options and writes down, for every option set,
what the documentation promises and what the package did: the calls made on the compiled SettingsModel, the parameters
offered, and the effect of setting parameters by their documented names.

  pymodels.py REPO OUTFILE
The option sets are drawn from a fixed generator, so that a replay finds the same set under the same number.
"""
import math
import os
import random
import sys
import tempfile

import stubs

OUT = []
CUSTOM_DIR = None


def w(*a):
    OUT.append("\t".join(str(x) for x in a))


def num(v):
    if isinstance(v, bool):
        return "1" if v else "0"
    return repr(float(v)) if isinstance(v, (int, float)) else str(v)


# ----------------------------------------------------------------------------------------------------------------
# What the documentation promises: the structure (CFG lines) and the parameter names (literature aliases).
# ----------------------------------------------------------------------------------------------------------------
GENERIC = ["open", "ground", "generic", "generic_land_cover"]
SOLVERS = ["crank_nicolson", "trapezoidal", "heun_explicit", "euler_explicit", "runge_kutta", "rk4", "analytic_linear",
           "analytic", "implicit_euler", "euler_implicit", "exponential_euler"]
REDIST = ["transport:snow_slide", "transport:snow_redistribution_frey", "transport:snow_redistribution_frey_dynamic"]


class Doc:
    def __init__(self, family):
        self.family = family
        self.snow = False
        self.splitter = "snow_rain:linear"
        self.melt = "melt:degree_day"
        self.retention = self.rain_to_snow = self.refreeze = False
        self.sublimation = self.redistribution = self.transform = None
        self.soil, self.canopy, self.glaciers, self.lakes = [], [], [], []
        self.shared = True
        self.infinite = True
        self.soils = 1
        self.quick = True
        self.gr6 = False
        self.discrete = True
        self.record_all = False
        self.solver = "crank_nicolson"
        self.covers = []

    def emit(self):
        for c in self.covers:
            w("COVER", *c)
        for k in ("family", "snow", "splitter", "melt", "retention", "rain_to_snow", "refreeze", "shared", "infinite",
                  "soils", "quick", "gr6", "discrete", "record_all", "solver"):
            w("CFG", k, num(getattr(self, k)) if not isinstance(getattr(self, k), str) else getattr(self, k))
        for k in ("sublimation", "redistribution", "transform"):
            if getattr(self, k):
                w("CFG", k, getattr(self, k))
        for k in ("soil", "canopy", "glaciers", "lakes"):
            for n in getattr(self, k):
                w("CFG", k, n)

    # Documented parameters: (aliases, [(component, name)], low, high, transform)
    def parameters(self):
        p = []

        def add(aliases, targets, lo, hi, tr=None):
            p.append((aliases, targets, lo, hi, tr))

        covers = self.soil + self.glaciers
        packs = [c + "_snowpack" for c in covers]

        def snow(aliases, name, lo, hi):
            add(aliases, [(s, name) for s in packs], lo, hi)

        rcf = ["rain_correction_factor", "rain_corr_factor", "rfcf", "rcf"]
        if self.snow:
            add(rcf, [("snow_rain_transition", "rain_correction_factor")], 0.6, 1.8)
            add(["snow_correction_factor", "snow_corr_factor", "sfcf", "scf"],
                [("snow_rain_transition", "snow_correction_factor")], 0.6, 1.8)
            if self.splitter == "snow_rain:threshold":
                add(["prec_t"], [("snow_rain_transition", "threshold")], -3, 3)
            elif self.splitter == "snow_rain:linear" and self.melt != "melt:cemaneige":
                add(["prec_t_start"], [("snow_rain_transition", "transition_start")], -1.5, 0)
                add(["prec_t_end"], [("snow_rain_transition", "transition_end")], 0.5, 3.5)
            hbv = self.family == "hbv"
            if self.melt == "melt:cemaneige":
                snow(["Kf"], "degree_day_factor", 2, 9)
                snow(["CTG"], "cold_content_factor", 0, 1)
                snow(["Tmelt"] + (["tt"] if hbv else []), "melting_temperature", 0, 2)
                snow(["Cn"], "mean_annual_snow", 50, 800)
            else:
                snow(["melt_t_snow"] + (["tt"] if hbv else []), "melting_temperature", 0, 2)
                if self.melt == "melt:degree_day":
                    snow(["a_snow"] + (["cfmax"] if hbv else []), "degree_day_factor", 2.5, 9)
                elif self.melt == "melt:degree_day_aspect":
                    for d in ("n", "s", "ew"):
                        snow(["a_snow_" + d], "degree_day_factor_" + d, 1.5, 9)
                else:
                    add(["melt_factor", "mf"], [(s, "melt_factor") for s in packs] + [(g, "melt_factor") for g in self.glaciers],
                        0.5, 9)
                    snow(["r_snow"], "radiation_coefficient", 0, 0.02)
            if self.retention:
                snow(["cwh", "whc"], "water_holding_capacity", 0, 0.2)
            if self.refreeze:
                snow(["cfr"], "refreezing_factor", 0, 0.1)
            if self.sublimation == "sublimation:constant":
                snow(["sublimation_rate"], "sublimation_rate", 0, 1.9)
            if self.sublimation == "sublimation:pet":
                snow(["sublimation_pet_factor", "sublimation_factor"], "sublimation_pet_factor", 0, 0.9)
            many = len(self.covers) > 1
            if self.redistribution == REDIST[0]:
                for a, n, lo, hi in (("coeff", "coeff", 100, 5000), ("exp", "exp", -2.5, -1.2), ("min_slope", "min_slope", 0, 20),
                                     ("max_slope", "max_slope", 50, 85), ("min_snow_depth", "min_snow_holding_depth", 5, 200),
                                     ("max_snow_depth", "max_snow_depth", 500, 20000)):
                    snow(["snow_slide_" + a], n, lo, hi)
            elif self.redistribution:
                pre = "snow_redist_frey_dyn_" if self.redistribution == REDIST[2] else "snow_redist_frey_"
                for c in covers:
                    name = pre + "holding_capacity" + ("_" + c if many else "")
                    add([c + "_snowpack:snow_holding_capacity"] if self.lakes else [name], [(c + "_snowpack", "snow_holding_capacity")],
                        10, 400)
                l = [("c", "correction", 0.2, 1), ("rho_max", "rho_max", 310, 590), ("max_snow_depth", "max_snow_depth", 500, 20000)]
                if self.redistribution == REDIST[1]:
                    l += [("snow_density", "snow_density", 100, 500)]
                else:
                    l += [("rho_min", "rho_min", 60, 150), ("rho_fresh_max", "rho_fresh_max", 200, 300),
                          ("rho_settling", "rho_settling", 0, 1), ("rho_scale", "rho_scale", 0.5, 3), ("t_scale", "t_scale", -2, 3)]
                for a, n, lo, hi in l:
                    snow([pre + a], n, lo, hi)
            for i, g in enumerate(self.glaciers):
                sfx = [""] if len(self.glaciers) == 1 else ["_" + g.replace("-", "_"), "_%d" % i]
                if self.transform == "transform:snow_ice_constant":
                    add(["snow_ice_rate" + x for x in sfx], [(g + "_snowpack", "snow_ice_transformation_rate")], 0, 5)
                elif self.transform:
                    add(["snow_ice_basal_acc_coeff" + x for x in sfx],
                        [(g + "_snowpack", "snow_ice_transformation_basal_acc_coeff")], 0.001, 0.006)
                ice = self.melt
                add(["melt_t_ice" + x for x in sfx], [(g, "melting_temperature")], 0, 2)
                if ice == "melt:degree_day":
                    add(["a_ice" + x for x in sfx], [(g, "degree_day_factor")], 2.5, 15)
                elif ice == "melt:degree_day_aspect":
                    for d in ("n", "s", "ew"):
                        add(["a_ice_" + d + x for x in sfx], [(g, "degree_day_factor_" + d)], 1.5, 15)
                else:
                    add(["r_ice" + x for x in sfx], [(g, "radiation_coefficient")], 0, 0.02)
        else:
            add(rcf, [("rain", "rain_correction_factor")], 0.6, 1.8)
        if self.glaciers:
            add(["k_snow"], [("glacier_area_rain_snowmelt_storage", "response_factor")], 0.01, 0.9)
            add(["k_ice"], [("glacier_area_icemelt_storage", "response_factor")], 0.01, 0.9)
        lk = (lambda k: math.log(k / 24), lambda t: 24 * math.exp(t))
        ln = (math.log, math.exp)
        sh = (math.asinh, math.sinh)
        if self.family == "socont":
            add(["A"], [("slow_reservoir", "capacity")], 20, 1500)
            add(["k_slow", "k_slow_1", "k_slow1"], [("slow_reservoir", "response_factor")], 0.001, 0.5, lk)
            if self.soils == 2:
                add(["percol"], [("slow_reservoir", "percolation_rate")], 0, 5)
                add(["k_slow_2", "k_slow2"], [("slow_reservoir_2", "response_factor")], 0.001, 0.3, lk)
            if self.quick:
                add(["beta"], [("surface_runoff", "beta")], 150, 5000)
            else:
                add(["k_quick"], [("surface_runoff", "response_factor")], 0.05, 0.95)
        elif self.family == "hbv":
            multi = len(self.soil) > 1
            for c in self.soil:
                add(["beta" + ("_" + c if multi else "")], [(c, "beta")], 1, 6)
            for c in (self.soil if not self.shared else [None]):
                so = "soil_moisture" if c is None else c + "_soil_moisture"
                sfx = "" if c is None else "_" + c
                add(["fc" + sfx], [(so, "capacity")], 30, 700)
                add(["lp" + sfx], [(so, "lp")], 0.35, 1)
                add([a + sfx for a in ("et_correction_factor", "et_corr_factor", "cevpf", "etcf")], [(so, "et_correction_factor")],
                    0.6, 1.5)
            add(["cflux"], [("upper_zone", "max_capillary_flux")], 0, 2.5)
            add(["perc", "percol"], [("upper_zone", "percolation_rate")], 0, 6)
            add(["k_uz"], [("upper_zone", "response_factor")], 0.005, 0.5)
            add(["alpha", "alfa"], [("upper_zone", "alpha")], 0, 1.2)
            add(["k_lz", "k4"], [("lower_zone", "response_factor")], 0.001, 0.3)
            add(["maxbas"], [("routing", "maxbas")], 1, 7)
            for c in self.canopy:
                add(["ic" + ("_" + c if len(self.canopy) > 1 else "")], [(c + "_canopy", "capacity")], 0, 6)
            for c in self.lakes:
                add(["k_lake" + ("_" + c if len(self.lakes) > 1 else "")], [(c + "_storage", "response_factor")], 0.005, 0.8)
        elif self.family == "gr":
            add(["X1"], [("production_store", "capacity")], 20, 1500, ln)
            x3 = (20, 400)
            add(["X3"], [("uh_input", "routing_capacity")], *x3, ln)
            x2 = 0 if not self.discrete else 1 if self.gr6 else 2
            add(["X2"], [("uh_input", "exchange_factor")], -x2, x2, sh)
            add(["X4"], [("uh_input", "uh_base_time")], 0.6, 3.9, (lambda x: math.log(x - 0.5), lambda t: math.exp(t) + 0.5))
            if self.gr6:
                add(["X5"], [("uh_input", "exchange_threshold")], -1, 1.5, sh)
                add(["X6"], [("uh_input", "exp_store_coeff")], 0.5, 19, ln)
        return p

    # Documented constraints between the parameters, on the aliases (ignored when a parameter is not in use).
    def constraints(self):
        c = []
        if self.snow:
            c.append(("rfcf", "<=", "sfcf"))
        for i, g in enumerate(self.glaciers):
            sfx = "" if len(self.glaciers) == 1 else "_" + g.replace("-", "_")
            if self.melt == "melt:degree_day":
                c.append(("a_snow", "<", "a_ice" + sfx))
            elif self.melt == "melt:degree_day_aspect":
                for d in ("n", "s", "ew"):
                    c.append(("a_snow_" + d, "<", "a_ice_" + d + sfx))
            else:
                c.append(("r_snow", "<", "r_ice" + sfx))
        if "glacier_debris" in self.glaciers and "glacier_ice" in self.glaciers:  # debris slows the melt down
            pre = {"melt:degree_day": ["a_ice_"], "melt:temperature_index": ["r_ice_"]}.get(
                self.melt, ["a_ice_n_", "a_ice_s_", "a_ice_ew_"])
            c += [(p + "glacier_debris", "<", p + "glacier_ice") for p in pre]
        if self.family == "socont":
            c += [("k_slow", "<", "k_quick"), ("k_slow_2", "<", "k_quick"), ("k_slow_2", "<", "k_slow")]
        if self.family == "hbv":
            c.append(("k_lz", "<", "k_uz"))
        return c


# ----------------------------------------------------------------------------------------------------------------
# Option sets
# ----------------------------------------------------------------------------------------------------------------
def maybe(r, opts, key, value, default):
    """Defaults are given explicitly only half of the time."""
    if value != default or r.random() < 0.5:
        opts[key] = value


def common(r, d, o):
    if r.random() < 0.6:
        d.solver = o["solver"] = r.choice(SOLVERS)
    d.record_all = r.random() < 0.85
    maybe(r, o, "record_all", d.record_all, False)


def covers(r, d, o, default):
    """Gives the covers as options, in a random order unless they are the default ones."""
    if [c for c in d.covers] == default and r.random() < 0.7:
        return
    if r.random() < 0.3 and len(d.soil) < 2:
        order = d.covers[:]
        r.shuffle(order)
        d.covers = order
        d.glaciers = [n for n, t in order if t == "glacier"]
    o["land_cover_names"] = [n for n, t in d.covers]
    o["land_cover_types"] = [t for n, t in d.covers]


def snow_extra(r, d, o):
    d.redistribution = r.choice(REDIST) if r.random() < 0.35 else None
    maybe(r, o, "snow_redistribution", d.redistribution, None)
    d.sublimation = r.choice(["sublimation:constant", "sublimation:pet"]) if r.random() < 0.3 else None
    maybe(r, o, "snow_sublimation_process", d.sublimation, None)


def glaciers(r, d):
    x = r.random()
    if x < 0.5:
        return
    d.glaciers = r.choice([["glacier"], ["ice"]]) if x < 0.75 else r.choice(
        [["glacier_ice", "glacier_debris"], ["glacier", "glacier_debris"], ["ice-a", "ice-b"]])
    d.covers += [(g, "glacier") for g in d.glaciers]


def socont(r):
    d, o = Doc("socont"), {}
    d.snow = True
    soil = r.choice([("open", "open"), ("ground", "ground"), ("open", "open"), ("meadow", "generic"), ("ground", "generic_land_cover")])
    d.soil = [soil[0]]
    d.covers = [soil]
    glaciers(r, d)
    covers(r, d, o, [("open", "open")])
    common(r, d, o)
    d.soils = r.choice([1, 2])
    maybe(r, o, "soil_storage_nb", d.soils, 1)
    d.quick = r.random() < 0.5
    maybe(r, o, "surface_runoff", "socont_runoff" if d.quick else "linear_storage", "socont_runoff")
    d.melt = r.choice(["melt:degree_day", "melt:degree_day_aspect", "melt:temperature_index"] + ([] if d.glaciers else ["melt:cemaneige"]))
    maybe(r, o, "snow_melt_process", d.melt, "melt:degree_day")
    if d.melt == "melt:cemaneige":
        d.splitter = "snow_rain:cemaneige"
    if d.glaciers and r.random() < 0.5:
        d.transform = r.choice(["transform:snow_ice_constant", "transform:snow_ice_swat"])
    maybe(r, o, "snow_ice_transformation", d.transform, None)
    snow_extra(r, d, o)
    d.infinite = not d.glaciers or r.random() < 0.5
    maybe(r, o, "glacier_infinite_storage", d.infinite, True)
    if r.random() < 0.3:
        o["glacier_module"] = "gsm"
    return d, o


def hbv(r):
    d, o = Doc("hbv"), {}
    d.snow = True
    kinds = [r.choice([("open", "open"), ("open", "open"), ("ground", "ground"), ("meadow", "generic")])]
    x = r.random()
    if x < 0.35:
        kinds.append(("forest", "forest"))
    elif x < 0.5:
        kinds += [("forest_low", "forest"), ("forest_high", "forest")]
    elif x < 0.6:
        kinds = [("forest", "forest")]
    d.covers = kinds[:]
    d.soil = [n for n, t in kinds]
    glaciers(r, d)
    if r.random() < 0.3:
        d.lakes = r.choice([["lake"], ["lake_a", "lake_b"], ["pond"]])
        if len(d.lakes) == 2 and r.random() < 0.7:
            d.lakes = d.lakes[:1]
        d.covers += [(n, "lake") for n in d.lakes]
    covers(r, d, o, [("open", "open")])
    common(r, d, o)
    d.shared = r.random() < 0.4
    maybe(r, o, "share_soil", d.shared, False)
    d.shared = d.shared or len(d.soil) == 1
    if any(t == "forest" for n, t in kinds) and r.random() < 0.6:
        o["forest_interception"] = True
        d.canopy = [n for n, t in kinds if t == "forest"]
    elif r.random() < 0.3:
        o["forest_interception"] = False
    d.retention = r.random() < 0.75
    maybe(r, o, "snow_water_retention_process", "outflow:snow_holding" if d.retention else None, "outflow:snow_holding")
    d.refreeze = d.retention and r.random() < 0.6
    maybe(r, o, "snow_refreezing_process", "refreeze:degree_day" if d.refreeze else None, "refreeze:degree_day")
    d.rain_to_snow = d.retention and r.random() < 0.6
    maybe(r, o, "rain_to_snowpack", d.rain_to_snow, True)
    melts = ["melt:degree_day"] if d.refreeze else ["melt:degree_day", "melt:degree_day_aspect", "melt:temperature_index"] + (
        [] if d.glaciers else ["melt:cemaneige"])
    d.melt = r.choice(melts)
    maybe(r, o, "snow_melt_process", d.melt, "melt:degree_day")
    srp = r.choice([None, None, "snow_rain:linear", "snow_rain:threshold", "snow_rain:cemaneige"])
    maybe(r, o, "snow_rain_process", srp, None)
    d.splitter = srp or ("snow_rain:cemaneige" if d.melt == "melt:cemaneige" else "snow_rain:linear")
    snow_extra(r, d, o)
    d.infinite = not d.glaciers or r.random() < 0.5
    maybe(r, o, "glacier_infinite_storage", d.infinite, True)
    return d, o


def gr(r, six):
    d, o = Doc("gr"), {}
    d.gr6 = six
    soil = r.choice([("open", "open"), ("ground", "ground"), ("ground", "generic_land_cover"), ("meadow", "open")])
    d.soil, d.covers = [soil[0]], [soil]
    covers(r, d, o, [("open", "open")])
    common(r, d, o)
    d.discrete = r.random() < 0.6
    maybe(r, o, "discrete", d.discrete, True)
    if not d.discrete and "solver" not in o:
        d.solver = "heun_explicit"
    if r.random() < 0.6:
        d.snow = True
        d.melt = o["snow_melt_process"] = r.choice(["melt:degree_day", "melt:degree_day_aspect", "melt:temperature_index", "melt:cemaneige"])
        srp = r.choice([None, None, "snow_rain:linear", "snow_rain:threshold", "snow_rain:cemaneige"])
        maybe(r, o, "snow_rain_process", srp, None)
        d.splitter = srp or ("snow_rain:cemaneige" if d.melt == "melt:cemaneige" else "snow_rain:linear")
        snow_extra(r, d, o)
    elif r.random() < 0.4:
        o["snow_melt_process"] = None
    return d, o


# A model declared as data: the documented SOCONT and HBV-96 structures written out as brick definitions.
def custom(r):
    d, o = (socont(r) if r.random() < 0.5 else hbv(r))
    d.splitter = "snow_rain:cemaneige" if d.melt == "melt:cemaneige" else "snow_rain:linear"
    d.covers = [c for c in d.covers if c[0] not in d.lakes]
    d.lakes = []
    d.covers = [(n, "open" if t == "generic" else t) for n, t in d.covers]
    aliases, bricks, cons = {}, {}, []

    def proc(kind, *targets, **k):
        p = {"kind": kind}
        if len(targets) == 1:
            p["target"] = targets[0]
        elif targets:
            p["targets"] = list(targets)
        p.update(k)
        return p

    def brick(processes, kind="storage", **k):
        b = {"kind": kind, "processes": processes}
        b.update(k)
        if kind == "storage" and "attach_to" not in b and r.random() < 0.3:
            b["attach_to"] = "hydro_unit"
        return b

    for g in d.glaciers:
        bricks[g] = brick({"outflow": proc("outflow:direct", "glacier_area_rain_snowmelt_storage", instantaneous=True),
                           "melt": proc(d.melt, "glacier_area_icemelt_storage", instantaneous=True)}, "land_cover",
                          parameters={"no_melt_when_snow_cover": 1, "infinite_storage": 1 if d.infinite else 0})
    if d.family == "socont":
        bricks[d.soil[0]] = brick({"infiltration": proc("infiltration:socont", "slow_reservoir"),
                                   "runoff": proc("outflow:rest", "surface_runoff")}, "land_cover")
        pr = {"et": proc("et:socont"), "outflow": proc("outflow:linear", "outlet")}
        if d.soils == 2:
            pr["percolation"] = proc("percolation:constant", "slow_reservoir_2")
        pr["overflow"] = proc("overflow", "outlet")
        bricks["slow_reservoir"] = brick(pr, parameters={"capacity": 200})
        if d.soils == 2:
            bricks["slow_reservoir_2"] = brick({"outflow": proc("outflow:linear", "outlet")})
        bricks["surface_runoff"] = brick({"runoff": proc("runoff:socont" if d.quick else "outflow:linear", "outlet")})
        aliases = {"slow_reservoir:capacity": "A", "slow_reservoir:response_factor": ["k_slow", "k_slow_1", "k_slow1"],
                   "slow_reservoir_2:response_factor": ["k_slow_2", "k_slow2"], "surface_runoff:response_factor": "k_quick"}
        if d.soils == 1:
            aliases.pop("slow_reservoir_2:response_factor")
        cons = [["k_slow", "<", "k_quick"], ["k_slow_2", "<", "k_quick"], ("k_slow_2", "<", "k_slow")]
        cons = [list(c) for c in cons]
    else:
        if not d.shared or len(d.soil) > 1:
            # The aliases of repeated processes must stay unique: a single soil cover.
            keep = d.soil[0]
            d.covers = [c for c in d.covers if c[0] == keep or c[1] == "glacier"]
            d.soil, d.canopy, d.shared = [keep], [c for c in d.canopy if c == keep], True
        bricks[d.soil[0]] = brick({"infiltration": proc("infiltration:hbv", "soil_moisture"),
                                   "recharge": proc("outflow:rest", "upper_zone")}, "land_cover")
        bricks["upper_zone"] = brick({"capillary": proc("capillary:hbv", "soil_moisture"),
                                      "percolation": proc("percolation:constant", "lower_zone"),
                                      "runoff": proc("runoff:hbv", "routing")})
        bricks["lower_zone"] = brick({"outflow": proc("outflow:linear", "routing")})
        bricks["soil_moisture"] = brick({"et": proc("et:hbv"), "overflow": proc("overflow", "routing")}, parameters={"capacity": 250})
        bricks["routing"] = brick({"routing": proc("routing:hbv", "outlet")})
        aliases = {"soil_moisture:capacity": "fc", "upper_zone:percolation_rate": ["perc"], "lower_zone:response_factor": ["k_lz", "k4"],
                   "type:snowpack:melting_temperature": "tt"}
        if d.melt == "melt:degree_day":
            aliases["type:snowpack:degree_day_factor"] = ["cfmax"]
        cons = [["k_lz", "<", "k_uz"]]
    if d.glaciers:
        for n, a in (("rain_snowmelt", "k_snow"), ("icemelt", "k_ice")):
            bricks["glacier_area_%s_storage" % n] = brick({"outflow": proc("outflow:linear", "outlet")}, attach_to="sub_basin")
            aliases["glacier_area_%s_storage:response_factor" % n] = a
    options, kw = {}, {}
    for k in ("snow_melt_process", "snow_redistribution", "snow_sublimation_process", "snow_ice_transformation"):
        if k in o:
            (options if r.random() < 0.6 else kw)[k] = o[k]
    if d.family == "hbv":
        options["snow_water_retention_process"] = "outflow:snow_holding" if d.retention else None
        options["snow_refreezing_process"] = "refreeze:degree_day" if d.refreeze else None
        options["rain_to_snowpack"] = d.rain_to_snow
        options["forest_interception"] = bool(d.canopy)
    # A keyword argument overrides the option of the definition.
    if "snow_melt_process" in kw and r.random() < 0.5:
        options["snow_melt_process"] = "melt:degree_day_aspect" if d.melt == "melt:degree_day" else "melt:degree_day"
    for k in ("solver", "record_all"):
        if k in o:
            kw[k] = o[k]
    kw["land_cover_names"] = [n for n, t in d.covers]
    kw["land_cover_types"] = [t for n, t in d.covers]
    spec = {"name": "mine", "bricks": bricks, "aliases": aliases, "constraints": cons}
    if options or r.random() < 0.5:
        spec["options"] = options
    if r.random() < 0.3:
        spec["allowed_land_cover_types"] = sorted({t for n, t in d.covers})
    return d, kw, spec


# Option sets that must be refused, and definitions that must be refused.
def refusals(r):
    L = []

    def add(model, why, **o):
        L.append((model, why, o))

    for m in ("Socont", "HBV96", "GR4J", "GR6J"):
        add(m, "unknown option", **{r.choice(["snow_melt", "soil_nb", "melt_process", "Solver", "land_covers"]): 1})
        add(m, "unsupported cover type", land_cover_names=["open", "x"], land_cover_types=["open", r.choice(["urban", "rock", "water"])])
        add(m, "names and types of different lengths", land_cover_names=["open", "glacier"], land_cover_types=["open"])
        add(m, "unknown option next to valid ones", record_all=True, solver="heun_explicit", snow_refreeze=None)
    for v in (0, 3, -1, 12):
        add("Socont", "number of soil stores", soil_storage_nb=v)
    for v in ("socont", "linear", "", None, "runoff:socont"):
        add("Socont", "surface runoff", surface_runoff=v)
    add("Socont", "forest cover", land_cover_names=["open", "forest"], land_cover_types=["open", "forest"])
    add("Socont", "lake cover", land_cover_names=["open", "lake"], land_cover_types=["open", "lake"])
    for v in ("gsm2", "", "socont"):
        add("Socont", "glacier module", glacier_module=v, land_cover_names=["open", "glacier"], land_cover_types=["open", "glacier"])
        add("HBV96", "glacier module", glacier_module=v, land_cover_names=["open", "glacier"], land_cover_types=["open", "glacier"])
    for m in ("GR4J", "GR6J"):
        for v in (1, 0, "True", None, 1.0):
            add(m, "discrete is not a boolean", discrete=v)
        for v in ("melt:degree-day", "degree_day", "melt:unknown", "", True):
            add(m, "snow melt process", snow_melt_process=v)
        add(m, "glacier cover", land_cover_names=["open", "glacier"], land_cover_types=["open", "glacier"])
    add("HBV96", "refreezing without retention", snow_water_retention_process=None, rain_to_snowpack=False)
    add("HBV96", "rain to the snowpack without retention", snow_water_retention_process=None, snow_refreezing_process=None)
    add("HBV96", "rain to the snowpack without retention", snow_water_retention_process=None, snow_refreezing_process=None, rain_to_snowpack=True)
    for v in ("melt:degree_day_aspect", "melt:temperature_index", "melt:cemaneige"):
        add("HBV96", "refreezing with another melt process", snow_melt_process=v)
    add("HBV96", "only lakes", land_cover_names=["lake"], land_cover_types=["lake"])
    add("HBV96", "only lakes and glaciers", land_cover_names=["lake", "glacier"], land_cover_types=["lake", "glacier"])
    add("HBV96", "only glaciers", land_cover_names=["glacier"], land_cover_types=["glacier"])

    def spec():
        return {"bricks": {"open": {"kind": "land_cover", "processes": {"outflow": {"kind": "outflow:direct", "target": "store"}}},
                           "store": {"kind": "storage", "parameters": {"capacity": 100},
                                     "processes": {"et": {"kind": "et:linear"}, "outflow": {"kind": "outflow:linear", "target": "outlet"},
                                                   "overflow": {"kind": "overflow", "target": "outlet"}}}},
                "aliases": {"store:response_factor": "k"}, "constraints": []}

    def bad(why, f):
        s = spec()
        s = f(s) or s
        L.append(("CustomModel", why, {"__spec": s}))

    def put(path, v):
        def f(s):
            x = s
            for k in path[:-1]:
                x = x[k]
            x[path[-1]] = v
        return f

    def drop(path):
        def f(s):
            x = s
            for k in path[:-1]:
                x = x[k]
            del x[path[-1]]
        return f

    def keep(s):
        return s

    B, P = ("bricks", "store"), ("bricks", "store", "processes", "outflow")
    bad("no bricks", drop(("bricks",)))
    bad("empty bricks", put(("bricks",), {}))
    bad("bricks is a list", put(("bricks",), ["store"]))
    bad("unknown key", put(("brick",), {}))
    bad("unknown brick key", put(B + ("process",), {}))
    bad("unknown process key", put(P + ("to",), "outlet"))
    bad("brick without kind", drop(B + ("kind",)))
    bad("brick is not a mapping", put(B, "storage"))
    bad("process without kind", drop(P + ("kind",)))
    bad("process is not a mapping", put(P, "outflow:linear"))
    bad("process without target", drop(P + ("target",)))
    bad("target and targets", put(P + ("targets",), ["outlet"]))
    bad("targets is not a list", lambda s: (put(P + ("targets",), "outlet")(s), drop(P + ("target",))(s)) and None)
    bad("target is not a text", put(P + ("target",), 3))
    bad("log is not a boolean", put(P + ("log",), "yes"))
    bad("instantaneous is not a boolean", put(P + ("instantaneous",), 1))
    bad("computed_directly is not a boolean", put(B + ("computed_directly",), "no"))
    bad("parameter is not a number", put(B + ("parameters", "capacity"), "big"))
    bad("parameter is a boolean", put(B + ("parameters", "capacity"), True))
    bad("parameters is a list", put(B + ("parameters",), [1]))
    bad("unknown place", put(B + ("attach_to",), "catchment"))
    bad("unknown option", put(("options",), {"snow_melt": "melt:degree_day"}))
    bad("options is a list", put(("options",), ["with_snow"]))
    bad("alias is a number", put(("aliases", "store:response_factor"), 3))
    bad("aliases is a list", put(("aliases",), ["k"]))
    bad("constraint of two", put(("constraints",), [["k", "<"]]))
    bad("constraint with an unknown operator", put(("constraints",), [["k", "!=", "k"]]))
    bad("constraints is a mapping", put(("constraints",), {"k": 1}))
    bad("name is a number", put(("name",), 3))
    bad("cover types is a text", put(("allowed_land_cover_types",), "open"))
    bad("cover that the model does not have", put(("bricks", "forest"), {"kind": "land_cover", "processes": {}}))
    bad("refreezing without retention", put(("options",), {"snow_refreezing_process": "refreeze:degree_day"}))
    bad("rain to the snowpack without retention", put(("options",), {"rain_to_snowpack": True}))
    for why, v in (("not a mapping", [1]), ("a number", 4)):
        L.append(("CustomModel", "definition is " + why, {"__spec": v}))
    L.append(("CustomModel", "missing file", {"__spec": "/nonexistent/structure.yaml"}))
    L.append(("CustomModel", "YAML that is not a mapping", {"__yaml": "- a\n- b\n"}))
    L.append(("CustomModel", "broken YAML", {"__yaml": "bricks: {open: [\n"}))
    L.append(("CustomModel", "unknown option", {"__spec": spec(), "snow_melt": 1}))
    L.append(("CustomModel", "cover type not allowed", {"__spec": dict(spec(), allowed_land_cover_types=["open"]),
                                                       "land_cover_names": ["open", "forest"], "land_cover_types": ["open", "forest"]}))
    return L


# ----------------------------------------------------------------------------------------------------------------
def build(models, name, o, spec=None, yaml_text=None):
    del stubs.LOG[:]
    cls = getattr(models, name)
    if name != "CustomModel":
        return cls(**o)
    if yaml_text is not None:
        path = os.path.join(CUSTOM_DIR, "s.yaml")
        with open(path, "w") as f:
            f.write(yaml_text)
        return cls(path, **o)
    return cls(spec, **o)


def calls(tag):
    for n, vals in stubs.LOG:
        w(tag, n, *[num(v) for v in vals])
    del stubs.LOG[:]


def error(e):
    if stubs.ours(e):
        w("SKIP", type(e).__name__, str(e).replace("\n", " ").replace("\t", " ")[:200])
    else:
        w("ERR", type(e).__name__, str(e).replace("\n", " ").replace("\t", " ")[:300])


def sample(r, d, model, ps, k, transforms=True):
    w("SAMPLE", k)
    try:
        params = d.parameters()
        r.shuffle(params)
        values = {}
        plain, trans = {}, {}
        for aliases, targets, lo, hi, tr in params:
            # Half of the values are drawn within the range, others are simple numbers.
            v = lo + (hi - lo) * r.random() if r.random() < 0.8 else min(hi, max(lo, round(lo + (hi - lo) * r.random())))
            key = r.choice(aliases)
            if r.random() < 0.1:
                key = key.upper()
            if len(targets) == 1 and not targets[0][0].endswith("_snowpack") and r.random() < 0.2:
                key = ":".join(targets[0])
            if tr and transforms and r.random() < 0.5:
                t = tr[0](v)
                v = tr[1](t)
                trans[key] = t
            else:
                plain[key] = v
            for a in aliases:
                values[a] = v
            for comp, name in targets:
                w("DOCPAR", comp, name, num(v))
            w("IN", key, num(v))
        ps.set_values(plain)
        if trans:
            ps.set_values(trans, transformed=True)
        w("VALID", num(bool(ps.is_valid())))
        want = True
        for a, op, b in d.constraints():
            if a in values and b in values:
                want = want and (values[a] <= values[b] if op == "<=" else values[a] < values[b])
        # An alias of a parameter of the documentation which is in no constraint of the documentation.
        w("CONSTRAINTS", num(want), num(bool(ps.constraints_satisfied())))
        w("RANGES", num(bool(ps.range_satisfied())))
        for key, v in plain.items():
            w("GET", key, num(v), num(ps.get(key)))
        for key, t in trans.items():
            w("GET", key, num(t), num(ps.get_transformed(key)))
        del stubs.LOG[:]
        if hasattr(model, "_set_parameter_values"):
            model._set_parameter_values(ps)
        else:
            for _, row in ps.get_model_parameters().iterrows():
                model.settings.set_parameter_value(row["component"], row["name"], row["value"])
        calls("SETPAR")
    except Exception as e:  # noqa
        error(e)
    w("ENDSAMPLE")


def accepted(models, idx, name, d, o, spec, r, text):
    w("SET", idx, "build", name)
    w("LABEL", text)
    d.emit()
    try:
        if spec is not None and r.random() < 0.4:
            import yaml
            m = build(models, name, dict(o), yaml_text=yaml.safe_dump(spec, sort_keys=False))
        else:
            m = build(models, name, dict(o), spec)
        calls("CALL")
        w("BUILT")
        for k in range(4):
            try:
                ps = m.generate_parameters()
            except Exception as e:  # noqa
                w("SAMPLE", k)
                error(e)
                w("ENDSAMPLE")
                break
            sample(r, d, m, ps, k, name != "CustomModel")
    except Exception as e:  # noqa
        error(e)
    w("END")


def main():
    global CUSTOM_DIR
    repo, out = sys.argv[1], sys.argv[2]
    try:
        models = stubs.install(repo)
    except Exception as e:  # noqa
        w("UNAVAILABLE", type(e).__name__, str(e).replace("\n", " "))
        models = None
    if models is not None:
        import logging
        logging.disable(logging.CRITICAL)
        CUSTOM_DIR = tempfile.mkdtemp(prefix="hbpy.")
        idx = 0
        for name, f, n in (("Socont", socont, 140), ("HBV96", hbv, 160), ("GR4J", lambda r: gr(r, False), 50),
                           ("GR6J", lambda r: gr(r, True), 50)):
            for i in range(n):
                r = random.Random("%s %d" % (name, i))
                d, o = f(r)
                accepted(models, idx, name, d, o, None, r, "%s(%s)" % (name, ", ".join("%s=%r" % kv for kv in o.items())))
                idx += 1
        for i in range(100):
            r = random.Random("custom %d" % i)
            d, o, spec = custom(r)
            accepted(models, idx, "CustomModel", d, o, spec, r, "CustomModel(%r, %s)" % (spec, ", ".join("%s=%r" % kv for kv in o.items())))
            idx += 1
        for i, (name, why, o) in enumerate(refusals(random.Random("refused"))):
            w("SET", idx, "refuse", name)
            idx += 1
            shown = dict(o)
            w("LABEL", ("%s: %s %r" % (name, why, shown)).replace("\n", "\\n").replace("\t", " "))
            try:
                spec, text = o.pop("__spec", None), o.pop("__yaml", None)
                build(models, name, o, spec, text)
                w("BUILT")
            except Exception as e:  # noqa
                error(e)
            w("END")
        import shutil
        shutil.rmtree(CUSTOM_DIR, ignore_errors=True)
    with open(out, "w") as f:
        f.write("\n".join(OUT) + "\n")


if __name__ == "__main__":
    main()
