// Random models: structures of every documented family (GSM-SOCONT, HBV-96 with its options, GR4J/GR6J with and
// without snow, free storage networks), parameters, basins, forcings and initial contents.
#pragma once
#include <array>

#include "Brick.h"
#include "HydroUnit.h"
#include "LandCover.h"
#include "hb.h"

namespace rm {
using namespace hb;
using std::pair;

inline double f32(double v) {
    return static_cast<double>(static_cast<float>(v));
}

struct NetProc {
    string name, type, target;
};
struct NetStore {
    string name;
    double capacity = -1;
    vector<NetProc> procs;
    bool basin = false;
    bool direct = false;  // computed directly, not by the solver
};

struct Cfg {
    string family;
    bool snow = false;
    string splitter = "snow_rain:linear";
    string melt = "melt:degree_day";
    bool retention = false, rainToSnow = false, refreeze = false;
    string sublimation, redistribution, transform;
    bool skipGlaciers = false;
    vector<string> soilCovers;   // soil-bearing covers; the first is the generic one
    vector<bool> canopy;         // per soil cover
    bool sharedSoil = true;
    vector<string> glaciers;
    bool infiniteIce = true, noMelt = true;
    bool asPackage = false;      // flux kinds (instantaneous, static) as given by the Python package
    string iceMelt = "melt:degree_day";
    int soils = 1;
    bool quickSocont = true;
    bool gr6 = false, discrete = true;
    vector<NetStore> net;
    vector<vector<NetProc>> coverProcs;  // processes of the soil covers of a network
};

struct Init {
    int unit;  // index; -1: sub-basin brick
    string brick;
    ContentType type;
    double value;
};

struct RM {
    Cfg c;
    Spec s;
    vector<Init> init;
    double rcf = 1, scf = 1;           // precipitation corrections
    bool sameCf = true;
    bool exchange = false;             // water is exchanged with the outside
    vector<pair<string, string>> et;   // (component, process) of atmosphere fluxes
    vector<pair<string, double>> capacity;  // (store, capacity)
    vector<string> anyNegative;        // stores allowed to be negative
    vector<string> notes;
};

inline void build(SettingsModel& m, const Cfg& c) {
    m.GeneratePrecipitationSplitters(c.snow, c.splitter);
    auto glacierBricks = [&] {
        for (const auto& g : c.glaciers) {
            m.SelectHydroUnitBrick(g);
            m.AddBrickProcess("outflow_rain_snowmelt", "outflow:direct", "glacier_area_rain_snowmelt_storage");
            if (c.asPackage) m.SetProcessOutputsAsInstantaneous();
            m.AddBrickParameter("no_melt_when_snow_cover", c.noMelt ? 1.0f : 0.0f);
            if (c.infiniteIce) m.AddBrickParameter("infinite_storage", 1.0f);
            m.AddBrickProcess("melt", c.iceMelt, "glacier_area_icemelt_storage");
            m.SetProcessOutputsAsInstantaneous();
        }
        if (!c.glaciers.empty()) {
            m.AddSubBasinBrick("glacier_area_rain_snowmelt_storage", "storage");
            m.AddBrickProcess("outflow", "outflow:linear", "outlet");
            m.AddSubBasinBrick("glacier_area_icemelt_storage", "storage");
            m.AddBrickProcess("outflow", "outflow:linear", "outlet");
        }
    };
    for (const auto& n : c.soilCovers) m.AddLandCoverBrick(n, "generic_land_cover");
    for (const auto& n : c.glaciers) m.AddLandCoverBrick(n, "glacier");
    for (size_t i = 0; i < c.canopy.size(); ++i)
        if (c.canopy[i])
            m.GenerateCanopyInterception(c.soilCovers[i], c.snow && c.retention && c.rainToSnow
                                                              ? c.soilCovers[i] + "_snowpack"
                                                              : c.soilCovers[i]);
    if (c.snow) {
        if (c.retention)
            m.GenerateSnowpacksWithWaterRetention(c.melt, "outflow:snow_holding", c.rainToSnow);
        else
            m.GenerateSnowpacks(c.melt);
        if (c.retention && c.refreeze) m.AddSnowpackRefreezing("refreeze:degree_day");
        if (!c.transform.empty()) m.AddSnowIceTransformation(c.transform);
        if (!c.redistribution.empty()) m.AddSnowRedistribution(c.redistribution, c.skipGlaciers);
        if (!c.sublimation.empty()) m.AddSnowpackSublimation(c.sublimation);
    }
    if (c.family == "socont") {
        glacierBricks();
        for (const auto& n : c.soilCovers) {
            m.SelectHydroUnitBrick(n);
            m.AddBrickProcess("infiltration", "infiltration:socont", "slow_reservoir");
            m.AddBrickProcess("runoff", "outflow:rest", "surface_runoff");
            m.SetProcessOutputsAsStatic();
        }
        m.AddHydroUnitBrick("slow_reservoir", "storage");
        m.AddBrickParameter("capacity", 200.0f);
        m.AddBrickProcess("et", "et:socont");
        m.AddBrickProcess("outflow", "outflow:linear", "outlet");
        if (c.soils == 2) m.AddBrickProcess("percolation", "percolation:constant", "slow_reservoir_2");
        m.AddBrickProcess("overflow", "overflow", "outlet");
        if (c.soils == 2) {
            m.AddHydroUnitBrick("slow_reservoir_2", "storage");
            m.AddBrickProcess("outflow", "outflow:linear", "outlet");
        }
        m.AddHydroUnitBrick("surface_runoff", "storage");
        if (c.quickSocont)
            m.AddBrickProcess("runoff", "runoff:socont", "outlet");
        else
            m.AddBrickProcess("outflow", "outflow:linear", "outlet");
    } else if (c.family == "hbv") {
        auto soil = [&](size_t i) { return c.sharedSoil ? string("soil_moisture") : c.soilCovers[i] + "_soil_moisture"; };
        for (size_t i = 0; i < c.soilCovers.size(); ++i) {
            m.SelectHydroUnitBrick(c.soilCovers[i]);
            m.AddBrickProcess("infiltration", "infiltration:hbv", soil(i));
            m.AddBrickProcess("recharge", "outflow:rest", "upper_zone");
            m.SetProcessOutputsAsStatic();
        }
        glacierBricks();
        m.AddHydroUnitBrick("upper_zone", "storage");
        m.AddBrickProcess("capillary", "capillary:hbv", soil(0));
        if (!c.sharedSoil)
            for (size_t i = 1; i < c.soilCovers.size(); ++i) m.AddProcessOutput(soil(i));
        m.AddBrickProcess("percolation", "percolation:constant", "lower_zone");
        m.AddBrickProcess("runoff", "runoff:hbv", "routing");
        m.AddHydroUnitBrick("lower_zone", "storage");
        m.AddBrickProcess("outflow", "outflow:linear", "routing");
        for (size_t i = 0; i < (c.sharedSoil ? 1 : c.soilCovers.size()); ++i) {
            m.AddHydroUnitBrick(soil(i), "storage");
            m.AddBrickParameter("capacity", 250.0f);
            m.AddBrickProcess("et", "et:hbv");
            m.AddBrickProcess("overflow", "overflow", "routing");
        }
        m.AddHydroUnitBrick("routing", "storage");
        m.AddBrickProcess("routing", "routing:hbv", "outlet");
    } else if (c.family == "gr") {
        m.SelectHydroUnitBrick(c.soilCovers[0]);
        m.AddBrickProcess("interception", "interception:gr4j");
        m.AddBrickProcess("throughfall", "outflow:rest", c.discrete ? "production_store" : c.soilCovers[0] + "_soil");
        m.SetProcessOutputsAsInstantaneous();
        if (!c.discrete) {
            m.AddHydroUnitBrick(c.soilCovers[0] + "_soil", "storage");
            m.AddBrickProcess("production", "infiltration:gr4j", "production_store");
            m.AddBrickProcess("runoff", "outflow:rest", "uh_input");
            if (c.asPackage) m.SetProcessOutputsAsStatic();
        }
        m.AddHydroUnitBrick("production_store", "storage");
        m.AddBrickParameter("capacity", 350.0f);
        if (c.discrete)
            m.AddBrickProcess("production", "production:gr4j", "uh_input");
        else
            m.AddBrickProcess("percolation", "percolation:gr4j", "uh_input");
        m.AddBrickProcess("et", "et:gr4j");
        if (c.discrete) m.SetCurrentBrickComputedDirectly();
        m.AddHydroUnitBrick("uh_input", "storage");
        m.AddBrickProcess("routing", c.gr6 ? "routing:gr6j" : "routing:gr4j", "outlet");
        if (c.discrete) m.SetCurrentBrickComputedDirectly();
    } else if (c.family == "net") {
        for (size_t i = 0; i < c.soilCovers.size(); ++i) {
            m.SelectHydroUnitBrick(c.soilCovers[i]);
            for (const auto& p : c.coverProcs[i]) m.AddBrickProcess(p.name, p.type, p.target);
        }
        glacierBricks();
        for (const auto& st : c.net) {
            if (st.basin)
                m.AddSubBasinBrick(st.name, "storage");
            else
                m.AddHydroUnitBrick(st.name, "storage");
            if (st.capacity >= 0) m.AddBrickParameter("capacity", static_cast<float>(st.capacity));
            for (const auto& p : st.procs) m.AddBrickProcess(p.name, p.type, p.target);
            if (st.direct) m.SetCurrentBrickComputedDirectly();
        }
    }
    m.AddLoggingToItem("outlet");
}

struct Opt {
    vector<string> families{"socont", "hbv", "gr", "net"};
    vector<string> solvers{"euler_explicit", "heun_explicit", "rk4",
                           "analytic_linear", "implicit_euler", "crank_nicolson", "exponential_euler"};
    int maxUnits = 3;
    int minSteps = 3, maxSteps = 40;
    bool lateral = true, transform = true, glacier = true, canopy = true;
    bool finiteIceOnly = false;
    bool exchange = true;         // allow X2 != 0
    bool solverGR = true;
    bool subDaily = true;         // allow steps other than one day (free networks only)
    bool initial = true;
    bool extreme = false;         // stiff / degenerate parameters
    bool zeroFractions = true;    // some covers with a zero fraction
    bool netBasin = true;         // sub-basin stores in free networks
    bool multiDay = true;
    bool cemaneigeMelt = true;
    bool spinup = false;
    bool allMeasures = true;
    bool correction = true;
    int snow4 = 3, glacier4 = 2, lateral12 = 4, transform12 = 4, canopy12 = 4, sublimation4 = 1, retention4 = 2;  // odds
    int direct4 = 1;              // directly computed stores in free networks
    vector<string> splitters{"snow_rain:linear", "snow_rain:threshold", "snow_rain:cemaneige"};
    vector<string> melts{"melt:degree_day", "melt:degree_day_aspect", "melt:temperature_index", "melt:cemaneige"};
    vector<string> iceMelts{"melt:degree_day", "melt:degree_day_aspect", "melt:temperature_index"};
    bool coverMix = true;         // several processes per cover in free networks
    bool quickSocont = true;      // allow the runoff on an inclined plane, which depends on the area of the unit
    bool lateralAny = true;       // lateral connections in any direction (units in any order)
};

inline vector<double> fractions(Gen& g, int n, bool zeros) {
    vector<double> w(n);
    double sum = 0;
    for (auto& x : w) {
        x = zeros && g.chance(1, 6) ? 0 : g.in(1, 20);
        sum += x;
    }
    if (sum == 0) {
        w[0] = 1;
        sum = 1;
    }
    for (auto& x : w) x /= sum;
    return w;
}

inline vector<double> genP(Gen& g, int n, bool extreme) {
    vector<double> p(n);
    int mode = g.in(0, 3);
    for (int i = 0; i < n; ++i) {
        bool wet = g.chance(1, 2);
        p[i] = !wet ? 0.0 : mode == 3 ? g.logreal(0.001, extreme ? 900 : 150, 400) : g.real(0, mode == 0 ? 10 : 50, 500);
    }
    return p;
}
inline vector<double> genT(Gen& g, int n) {
    double base = g.real(-12, 18, 60), amp = g.real(0, 15, 30);
    vector<double> t(n);
    // Off the grid of the threshold parameters, which are single-precision numbers, or exactly on it.
    for (int i = 0; i < n; ++i) {
        double v = base + amp * g.real(-1, 1, 80);
        t[i] = g.chance(1, 12) ? std::round(2 * v) / 2 : std::round(100 * v) / 100 + 0.00437;
    }
    return t;
}
inline vector<double> genE(Gen& g, int n, bool extreme) {
    double base = g.real(0, extreme ? 20 : 7, 70);
    vector<double> e(n);
    for (int i = 0; i < n; ++i) e[i] = g.chance(1, 8) ? 0.0 : std::max(0.0, base + g.real(-2, 3, 50));
    return e;
}
inline vector<double> genR(Gen& g, int n) {
    vector<double> e(n);
    for (int i = 0; i < n; ++i) e[i] = g.real(0, 400, 100);
    return e;
}

inline RM genModel(Gen& g, const Opt& o) {
    RM r;
    Cfg& c = r.c;
    Spec& s = r.s;
    c.family = g.pick(o.families);
    s.solver = g.pick(o.solvers);
    bool X = o.extreme && g.flip();
    int U = g.in(1, o.maxUnits);
    s.steps = g.in(o.minSteps, o.maxSteps);
    s.y = g.in(1996, 2023);
    s.m = g.in(1, 12);
    s.d = g.in(1, 28);
    auto par = [&](const string& comp, const string& name, double v) { s.params.push_back({comp, name, f32(v)}); };

    // --- Structure ---
    if (c.family == "gr") {
        c.snow = g.chance(1, 3);
        c.soilCovers = {"ground"};
        c.gr6 = g.flip();
        c.discrete = !o.solverGR || g.chance(3, 4);
    } else {
        c.snow = g.chance(o.snow4, 4);
        int n = c.family == "socont" ? 1 : g.in(1, 3);
        c.soilCovers = {c.family == "socont" ? "ground" : g.pick<string>({"ground", "open"})};
        if (n > 1) c.soilCovers.push_back("forest");
        if (n > 2) c.soilCovers.push_back("meadow");
        c.sharedSoil = n == 1 || g.flip();
        if (o.glacier && g.chance(o.glacier4, 4)) {
            c.glaciers.push_back("glacier");
            if (g.chance(1, 3)) c.glaciers.push_back("glacier_debris");
        }
        c.infiniteIce = !o.finiteIceOnly && g.chance(1, 3);
        c.noMelt = c.snow && g.chance(3, 4);
        c.iceMelt = g.pick(o.iceMelts);
        if (c.family != "socont" && o.canopy)
            for (int i = 0; i < n; ++i) c.canopy.push_back(g.chance(o.canopy12, 12));
    }
    if (c.snow) {
        c.splitter = g.pick(o.splitters);
        c.melt = g.pick(o.melts);
        if (!o.cemaneigeMelt && c.melt == "melt:cemaneige") c.melt = "melt:degree_day";
        if (g.chance(o.retention4, 4)) {
            c.retention = true;
            c.rainToSnow = g.flip();
            if (c.melt == "melt:degree_day") c.refreeze = g.flip();
        }
        if (g.chance(o.sublimation4, 4)) c.sublimation = g.flip() ? "sublimation:constant" : "sublimation:pet";
        if (o.lateral && g.chance(o.lateral12, 12)) {
            c.redistribution = g.pick<string>({"transport:snow_slide", "transport:snow_redistribution_frey",
                                               "transport:snow_redistribution_frey_dynamic"});
            c.skipGlaciers = g.flip();
        }
        if (o.transform && !c.glaciers.empty() && g.chance(o.transform12, 12))
            c.transform = g.flip() ? "transform:snow_ice_constant" : "transform:snow_ice_swat";
    }
    c.soils = g.in(1, 2);
    c.quickSocont = g.flip() && o.quickSocont;

    // --- Basin ---
    vector<string> all = c.soilCovers;
    for (auto& x : c.glaciers) all.push_back(x);
    for (int u = 0; u < U; ++u) {
        Unit un;
        un.id = U == 1 ? 1 : 7 + 4 * u;
        un.area = g.logreal(1e4, 1e8);
        un.elev = g.real(200, 3500, 330);
        un.slope = g.chance(1, 10) ? 0.005 : g.chance(1, 12) ? 5 : g.real(0.01, 1.5, 149);
        un.aspect = g.pick<string>({"N", "S", "E", "W"});
        auto f = fractions(g, static_cast<int>(all.size()), o.zeroFractions);
        for (size_t i = 0; i < all.size(); ++i)
            un.covers.push_back({all[i], i < c.soilCovers.size() ? "generic_land_cover" : "glacier", f[i]});
        s.units.push_back(un);
    }
    if (!c.redistribution.empty() && U > 1) {
        // Snow moves down a random order of the units, which need not be the order in which they are computed.
        vector<int> order;
        for (int u = 0; u < U; ++u) order.push_back(u);
        if (o.lateralAny && g.flip()) g.shuffle(order);
        for (int u = 0; u + 1 < U; ++u) {
            if (g.chance(1, 4)) continue;
            auto id = [&](int k) { return s.units[order[k]].id; };
            if (u + 2 < U && g.flip()) {
                double f = g.real(0.1, 0.9, 8);
                s.laterals.push_back({id(u), id(u + 1), f, "gravity"});
                s.laterals.push_back({id(u), id(u + 2), 1 - f, "gravity"});
            } else {
                s.laterals.push_back({id(u), id(u + 1), 1.0, "gravity"});
            }
        }
    }

    // --- Free network ---
    double dtMax = 1;
    if (c.family == "net") {
        if (o.subDaily && g.chance(1, 4)) {
            if (o.multiDay && g.flip()) {
                s.dt = g.in(2, 3);
                s.dtUnit = "day";
            } else {
                s.dt = g.pick<int>({1, 3, 6, 12});
                s.dtUnit = "hour";
            }
        }
        dtMax = s.dtDays();
        int n = g.in(1, 4);
        int nb = o.netBasin && g.chance(1, 3) ? 1 : 0;
        vector<string> names;
        for (int i = 0; i < n; ++i) names.push_back(string("store_") + static_cast<char>('a' + i));
        for (int i = 0; i < nb; ++i) names.push_back("basin_store");
        int nd = n > 1 && g.chance(o.direct4, 4) ? g.in(1, n - 1) : 0;  // the first stores are computed directly
        // Stores of limited capacity without an overflow hold back what the other stores send them (coupled solvers).
        bool coupled = s.solver == "euler_explicit" || s.solver == "heun_explicit" || s.solver == "rk4";
        vector<bool> closed(n + nb, false);
        for (int i = std::max(1, nd + 1); i < n; ++i) closed[i] = coupled && g.chance(1, 5);
        for (auto& cov : c.soilCovers) {
            vector<NetProc> ps;
            auto target = [&]() -> string {
                size_t k = g.chance(2, 3) ? 0 : g.below(names.size());
                return names[closed[k] ? 0 : k];
            };
            if (o.coverMix && g.chance(1, 8)) {
                ps.push_back({"et", "et:open_water", ""});
                r.et.push_back({cov, "et"});
            }
            if (o.coverMix && g.chance(1, 6)) {
                ps.push_back({"partial", "outflow:linear", target()});
                par(cov, "response_factor", g.logreal(0.01, 0.95));
            }
            if (o.coverMix && g.chance(1, 8)) {
                ps.push_back({"excess", "outflow:threshold", target()});
                par(cov, "capacity", g.real(0, 30, 60));
            }
            if (ps.empty() || g.chance(5, 6)) ps.push_back({"outflow", !ps.empty() || g.chance(1, 4) ? "outflow:rest" : "outflow:direct", target()});
            c.coverProcs.push_back(ps);
        }
        for (int i = 0; i < n + nb; ++i) {
            NetStore st;
            st.name = names[i];
            st.basin = i >= n;
            st.direct = i < nd;
            auto target = [&]() -> string {
                if (i + 1 < n + nb && g.chance(2, 3)) {
                    size_t k = i + 1 + g.below(n + nb - i - 1);
                    if (!closed[k] || !st.direct) return names[k];
                }
                return "outlet";
            };
            bool cap = closed[i] || (g.chance(1, 2) && !st.basin);
            if (cap) st.capacity = g.logreal(X ? 0.5 : 5, 800);
            if (cap) {
                string e = g.pick<string>({"", "et:socont", "et:linear", "et:power_law", "et:exponential", "et:hbv",
                                           "et:open_water"});
                if (!e.empty()) st.procs.push_back({"et", e, ""});
            } else if (!st.basin && g.chance(1, 4)) {
                st.procs.push_back({"et", "et:open_water", ""});
            }
            st.procs.push_back({"outflow", "outflow:linear", target()});
            if (g.chance(1, 3)) st.procs.push_back({"percolation", "percolation:constant", target()});
            if (g.chance(1, 4)) st.procs.push_back({"threshold", "outflow:threshold", target()});
            if (g.chance(1, 5)) st.procs.push_back({"power", "runoff:hbv", target()});
            if (cap && !closed[i]) {
                string to = target();  // the overflow of a store cannot be held back
                for (int k = 0; k < n; ++k)
                    if (closed[k] && to == names[k]) to = "outlet";
                st.procs.push_back({"overflow", "overflow", to});
            }
            if (!cap && (st.direct || s.solver == "euler_explicit") && s.dtDays() == 1 && g.chance(1, 4))
                st.procs.push_back({"rest", "outflow:rest", target()});
            c.net.push_back(st);
            for (auto& p : st.procs) {
                if (p.type == "outflow:linear") par(st.name, "response_factor", X ? g.logreal(0.001, 8) : g.logreal(0.001, 0.95));
                if (p.type == "percolation:constant") par(st.name, "percolation_rate", g.logreal(0.01, X ? 200 : 20));
                if (p.type == "runoff:hbv") {
                    // the response factor is shared by name with the linear outflow of the same store
                    par(st.name, "alpha", g.real(0, 1.5, 30));
                }
                if (p.type == "et:power_law") par(st.name, "exponent", g.real(0.2, 3, 28));
                if (p.type == "et:exponential") par(st.name, "alpha", g.real(0.2, 5, 48));
                if (p.type == "et:hbv") {
                    par(st.name, "lp", g.real(0.1, 1, 90));
                    par(st.name, "et_correction_factor", g.chance(1, 3) ? g.real(0.5, 1.5, 20) : 1.0);
                }
                if (p.name == "et") r.et.push_back({st.name, "et"});
            }
            if (st.capacity >= 0 && g.flip()) par(st.name, "capacity", st.capacity);
        }
    }

    // --- Parameters ---
    if (c.snow) {
        if (o.correction && g.chance(1, 3)) {
            r.rcf = f32(g.real(0.6, 1.6, 100));
            r.scf = g.flip() ? r.rcf : f32(g.real(0.6, 1.6, 100));
            par("snow_rain_transition", "rain_correction_factor", r.rcf);
            par("snow_rain_transition", "snow_correction_factor", r.scf);
        }
        if (c.splitter == "snow_rain:linear") {
            double a = g.real(-3, 2, 50);
            par("snow_rain_transition", "transition_start", a);
            par("snow_rain_transition", "transition_end", a + g.real(0.1, 4, 39));
        } else if (c.splitter == "snow_rain:threshold") {
            par("snow_rain_transition", "threshold", g.real(-2, 3, 50));
        }
        for (auto& cov : all) {
            string sp = cov + "_snowpack";
            bool dflt = g.chance(1, 6);
            if (dflt) continue;
            double tm = g.real(-1, 1.5, 25);
            if (c.melt == "melt:degree_day") {
                par(sp, "degree_day_factor", g.real(0.5, 12, 115));
                par(sp, "melting_temperature", tm);
            } else if (c.melt == "melt:degree_day_aspect") {
                par(sp, "degree_day_factor_n", g.real(0.5, 8, 75));
                par(sp, "degree_day_factor_s", g.real(0.5, 12, 115));
                par(sp, "degree_day_factor_ew", g.real(0.5, 10, 95));
                par(sp, "melting_temperature", tm);
            } else if (c.melt == "melt:temperature_index") {
                par(sp, "melt_factor", g.real(0.5, 10, 95));
                par(sp, "radiation_coefficient", g.real(0, 0.02, 40));
                par(sp, "melting_temperature", tm);
            } else {
                par(sp, "degree_day_factor", g.real(0.5, 10, 95));
                par(sp, "cold_content_factor", g.real(0, 1, 50));
                par(sp, "melting_temperature", tm);
                par(sp, "mean_annual_snow", g.chance(1, 10) ? 0 : g.real(5, 500, 99));
            }
            if (c.retention) par(sp, "water_holding_capacity", g.real(0, 0.3, 30));
            if (c.refreeze) par(sp, "refreezing_factor", g.real(0, 0.8, 40));
            if (c.sublimation == "sublimation:constant") par(sp, "sublimation_rate", g.real(0, 2, 40));
            if (c.sublimation == "sublimation:pet") par(sp, "sublimation_pet_factor", g.real(0, 0.9, 45));
            bool gl = cov.starts_with("glacier");
            if (!c.redistribution.empty() && !(gl && c.skipGlaciers)) {
                if (c.redistribution == "transport:snow_slide") {
                    par(sp, "coeff", g.logreal(50, 4000));
                    par(sp, "min_slope", g.real(0, 20, 20));
                    par(sp, "min_snow_holding_depth", g.real(1, 200, 100));
                    if (g.chance(1, 3)) par(sp, "exp", g.real(-2.5, -1, 30));
                    if (g.chance(1, 3)) par(sp, "max_slope", g.real(15, 80, 65));
                } else {
                    par(sp, "snow_holding_capacity", g.real(0, 200, 100));
                    par(sp, "correction", g.real(0.2, 1, 8));
                    if (g.chance(1, 3)) par(sp, "rho_max", g.real(260, 600, 34));
                    if (c.redistribution.ends_with("frey") && g.chance(1, 3)) par(sp, "snow_density", g.real(100, 500, 40));
                    if (c.redistribution.ends_with("dynamic") && g.chance(1, 3)) {
                        par(sp, "rho_min", g.real(50, 150, 20));
                        par(sp, "rho_fresh_max", g.real(160, 400, 24));
                        par(sp, "rho_settling", g.real(0, 1, 20));
                        par(sp, "rho_scale", g.real(0.5, 3, 25));
                        par(sp, "t_scale", g.real(-2, 3, 25));
                    }
                }
                if (g.chance(1, 3)) par(sp, "max_snow_depth", g.logreal(50, 5000));
            }
            if (gl && c.transform == "transform:snow_ice_constant") par(sp, "snow_ice_transformation_rate", g.real(0, 5, 50));
            if (gl && c.transform == "transform:snow_ice_swat")
                par(sp, "snow_ice_transformation_basal_acc_coeff", g.logreal(0.0001, 0.05));
            if (gl && c.transform == "transform:snow_ice_swat" && g.chance(1, 3)) par(sp, "north_hemisphere", 0);
        }
        if (!c.sublimation.empty())
            for (auto& cov : all) r.et.push_back({cov + "_snowpack", "sublimation"});
    } else if (o.correction && g.chance(1, 4)) {
        r.rcf = r.scf = f32(g.real(0.6, 1.6, 100));
        par("rain", "rain_correction_factor", r.rcf);
    }
    r.sameCf = r.rcf == r.scf;
    for (size_t i = 0; i < c.canopy.size(); ++i)
        if (c.canopy[i]) {
            par(c.soilCovers[i] + "_canopy", "capacity", g.real(0, 6, 60));
            r.et.push_back({c.soilCovers[i] + "_canopy", "interception_et"});
        }
    for (auto& gl : c.glaciers) {
        if (c.iceMelt == "melt:degree_day") {
            par(gl, "degree_day_factor", g.real(0.5, 15, 145));
            par(gl, "melting_temperature", g.real(-1, 1, 20));
        } else if (c.iceMelt == "melt:degree_day_aspect") {
            par(gl, "degree_day_factor_n", g.real(0.5, 12, 115));
            par(gl, "degree_day_factor_s", g.real(0.5, 15, 145));
            par(gl, "degree_day_factor_ew", g.real(0.5, 13, 125));
        } else {
            par(gl, "melt_factor", g.real(0.5, 12, 115));
            par(gl, "radiation_coefficient", g.real(0, 0.02, 40));
        }
    }
    if (!c.glaciers.empty()) {
        par("glacier_area_rain_snowmelt_storage", "response_factor", X ? g.logreal(0.01, 3) : g.logreal(0.01, 0.9));
        par("glacier_area_icemelt_storage", "response_factor", X ? g.logreal(0.01, 3) : g.logreal(0.01, 0.9));
    }
    if (c.family == "socont") {
        double A = g.logreal(X ? 1 : 20, 1500);
        par("slow_reservoir", "capacity", A);
        r.capacity.push_back({"slow_reservoir", f32(A)});
        par("slow_reservoir", "response_factor", X ? g.logreal(0.001, 3) : g.logreal(0.0005, 0.5));
        if (c.soils == 2) {
            par("slow_reservoir", "percolation_rate", g.real(0, 5, 50));
            par("slow_reservoir_2", "response_factor", g.logreal(0.0005, X ? 3 : 0.3));
        }
        if (c.quickSocont)
            par("surface_runoff", "beta", X ? g.logreal(100, 30000) : g.logreal(100, 5000));
        else
            par("surface_runoff", "response_factor", X ? g.logreal(0.01, 5) : g.logreal(0.05, 0.99));
        r.et.push_back({"slow_reservoir", "et"});
    } else if (c.family == "hbv") {
        for (size_t i = 0; i < c.soilCovers.size(); ++i) {
            par(c.soilCovers[i], "beta", X ? g.real(0.1, 10, 99) : g.real(0.5, 6, 55));
            if (c.sharedSoil && i > 0) continue;
            string so = c.sharedSoil ? string("soil_moisture") : c.soilCovers[i] + "_soil_moisture";
            double fc = g.logreal(X ? 1 : 30, 700);
            par(so, "capacity", fc);
            par(so, "lp", g.real(0.2, 1, 80));
            if (g.chance(1, 4)) par(so, "et_correction_factor", g.real(0.5, 1.5, 20));
            r.et.push_back({so, "et"});
            r.capacity.push_back({so, f32(fc)});
        }
        par("upper_zone", "max_capillary_flux", g.chance(1, 4) ? 0.0 : g.real(0, X ? 10 : 3, 60));
        par("upper_zone", "percolation_rate", g.real(0, X ? 50 : 6, 60));
        par("upper_zone", "response_factor", X ? g.logreal(0.001, 1) : g.logreal(0.005, 0.5));
        par("upper_zone", "alpha", g.real(0, X ? 3 : 1.2, 60));
        par("lower_zone", "response_factor", X ? g.logreal(0.001, 3) : g.logreal(0.001, 0.3));
        par("routing", "maxbas", g.chance(1, 5) ? g.in(1, 7) : g.real(0.5, 9, 170));
    } else if (c.family == "gr") {
        double X1 = f32(g.logreal(X ? 1 : 20, 2000)), X3 = f32(g.logreal(X ? 2 : 10, 500));
        double X2 = 0;
        if (o.exchange && c.discrete && g.flip()) X2 = std::min(6.0, (c.gr6 ? 0.1 : 0.25) * X3) * g.real(-1, 1, 100);
        r.exchange = X2 != 0;
        par("production_store", "capacity", X1);
        r.capacity.push_back({"production_store", X1});
        par("uh_input", "exchange_factor", X2);
        par("uh_input", "routing_capacity", X3);
        par("uh_input", "uh_base_time", g.chance(1, 5) ? g.in(1, 5) : g.real(0.5, 7, 130));
        if (c.gr6) {
            par("uh_input", "exchange_threshold", g.real(-1, 1.5, 50));
            par("uh_input", "exp_store_coeff", g.logreal(0.5, 50));
            r.anyNegative.push_back("uh_input");
        }
        r.et.push_back({"ground", "interception"});
        r.et.push_back({"production_store", "et"});
    }
    for (const auto& st : c.net)
        if (st.capacity >= 0) r.capacity.push_back({st.name, f32(st.capacity)});

    // --- Forcing ---
    bool needT = c.snow || !c.glaciers.empty();
    auto forc = [&](const string& name, auto&& make) {
        Forcing1 f{name, {}};
        bool uni = U == 1 || g.chance(1, 3);
        for (int u = 0; u < (uni ? 1 : U); ++u) f.v.push_back(make());
        s.forcing.push_back(f);
    };
    forc("precipitation", [&] { return genP(g, s.steps, X); });
    forc("pet", [&] { return genE(g, s.steps, X); });
    if (needT) forc("temperature", [&] { return genT(g, s.steps); });
    if (c.snow && c.splitter == "snow_rain:cemaneige") {
        Forcing1 lo{"temperature_min", {}}, hi{"temperature_max", {}};
        for (auto& row : s.forcing.back().v) {
            vector<double> a(row), b(row);
            for (size_t t = 0; t < row.size(); ++t) {
                double d = g.real(0, 8, 32);
                a[t] -= d;
                b[t] += d * g.real(0.2, 1, 8) + 0.01;
            }
            lo.v.push_back(a);
            hi.v.push_back(b);
        }
        s.forcing.push_back(lo);
        s.forcing.push_back(hi);
    }
    if ((c.snow && c.melt == "melt:temperature_index") || (!c.glaciers.empty() && c.iceMelt == "melt:temperature_index"))
        forc("solar_radiation", [&] { return genR(g, s.steps); });

    // --- Initial contents ---
    if (o.initial) {
        for (int u = 0; u < U; ++u) {
            for (auto& gl : c.glaciers)
                if (!c.infiniteIce && g.chance(4, 5)) r.init.push_back({u, gl, ContentType::Ice, g.logreal(1, 20000)});
            if (c.snow)
                for (auto& cov : all)
                    if (g.chance(1, 2)) r.init.push_back({u, cov + "_snowpack", ContentType::Snow, g.logreal(0.5, X ? 3000 : 500)});
            for (auto& [st, cap] : r.capacity)
                if (g.chance(1, 2) && st != "uh_input") {
                    bool basin = false;
                    for (auto& n : c.net) basin |= n.name == st && n.basin;
                    if (!basin) r.init.push_back({u, st, ContentType::Water, cap * g.real(0, 1, 50)});
                }
            if (c.family == "hbv" && g.flip()) r.init.push_back({u, "lower_zone", ContentType::Water, g.real(0, 60, 60)});
            if (c.family == "hbv" && g.flip()) r.init.push_back({u, "upper_zone", ContentType::Water, g.real(0, 60, 60)});
        }
        if (!c.glaciers.empty() && g.chance(1, 3))
            r.init.push_back({-1, "glacier_area_icemelt_storage", ContentType::Water, g.real(0, 50, 50)});
    }
    if (o.spinup && g.chance(1, 3)) s.spinupDays = g.in(1, s.steps - 1);

    Cfg cc = c;
    s.structure = [cc](SettingsModel& m) { build(m, cc); };
    vector<Init> in = r.init;
    s.beforeRun = [in](ModelHydro& m) {
        for (const auto& i : in) {
            Brick* b = i.unit < 0 ? m.GetSubBasin()->GetBrick(i.brick) : m.GetSubBasin()->GetHydroUnit(i.unit)->GetBrick(i.brick);
            b->UpdateContent(i.value, i.type);
        }
        if (!in.empty()) m.SaveAsInitialState();
    };
    return r;
}

inline string showRM(const RM& r) {
    string t = format("family {} snow={} splitter={} melt={} retention={} rainToSnow={} refreeze={} subl={} redis={} skipG={} transf={} "
                      "covers={} shared={} glaciers={} infinite={} noMelt={} iceMelt={} soils={} quickSocont={} gr6={} discrete={}\n",
                      r.c.family, r.c.snow, r.c.splitter, r.c.melt, r.c.retention, r.c.rainToSnow, r.c.refreeze,
                      r.c.sublimation, r.c.redistribution, r.c.skipGlaciers, r.c.transform, r.c.soilCovers.size(),
                      r.c.sharedSoil, r.c.glaciers.size(), r.c.infiniteIce, r.c.noMelt, r.c.iceMelt, r.c.soils,
                      r.c.quickSocont, r.c.gr6, r.c.discrete);
    for (size_t i = 0; i < r.c.canopy.size(); ++i)
        if (r.c.canopy[i]) t += "canopy on " + r.c.soilCovers[i] + "\n";
    for (auto& st : r.c.net) {
        t += format("store {} capacity={:.6g}{}{}:", st.name, st.capacity, st.basin ? " basin" : "", st.direct ? " direct" : "");
        for (auto& p : st.procs) t += format(" {}[{}]->{}", p.name, p.type, p.target);
        t += "\n";
    }
    for (size_t i = 0; i < r.c.coverProcs.size(); ++i) {
        t += "cover " + r.c.soilCovers[i] + ":";
        for (auto& p : r.c.coverProcs[i]) t += format(" {}[{}]->{}", p.name, p.type, p.target);
        t += "\n";
    }
    for (auto& i : r.init)
        t += format("init unit#{} {} {} = {:.6g}\n", i.unit, i.brick,
                    i.type == ContentType::Ice ? "ice" : i.type == ContentType::Snow ? "snow" : "water", i.value);
    return t + showSpec(r.s);
}

inline void tags(Case& cs, const RM& r) {
    cs.tag(r.c.family);
    cs.tag(r.s.solver);
    if (r.c.snow) cs.tag("snow");
    if (!r.c.glaciers.empty()) cs.tag("glacier");
    if (r.s.units.size() > 1) cs.tag("multi-unit");
    if (r.c.retention) cs.tag("retention");
    if (!r.c.redistribution.empty()) cs.tag("redistribution");
    if (!r.c.transform.empty()) cs.tag("snow-ice");
    if (!r.c.sublimation.empty()) cs.tag("sublimation");
    for (bool b : r.c.canopy)
        if (b) cs.tag("canopy");
    if (r.s.dtUnit != "day" || r.s.dt != 1) cs.tag("step!=1day");
}

// Reference rain/snow partition (fraction of snow).
inline double snowFraction(const RM& r, int u, int t) {
    if (!r.c.snow) return 0;
    auto val = [&](const string& n) {
        for (auto& f : r.s.forcing)
            if (f.var == n) return f.v.size() == 1 ? f.v[0][t] : f.v[u][t];
        return 0.0;
    };
    auto p = [&](const string& n, double d) {
        for (auto& q : r.s.params)
            if (q.comp == "snow_rain_transition" && q.name == n) d = q.value;
        return static_cast<double>(static_cast<float>(d));
    };
    double T = val("temperature");
    if (r.c.splitter == "snow_rain:threshold") return T <= p("threshold", 0) ? 1 : 0;
    if (r.c.splitter == "snow_rain:linear") {
        double a = p("transition_start", 0), b = p("transition_end", 2);
        return T <= a ? 1 : T >= b ? 0 : (b - T) / (b - a);
    }
    if (r.s.units[u].elev >= 1500) return T <= -1 ? 1 : T >= 3 ? 0 : (3 - T) / 4;
    double lo = val("temperature_min"), hi = val("temperature_max");
    if (hi <= 0) return 1;
    if (lo > 0) return 0;
    return 1 - hi / (hi - lo);
}
// Corrected precipitation (mm per step) of a unit.
inline double precip(const RM& r, int u, int t) {
    for (auto& f : r.s.forcing)
        if (f.var == "precipitation") {
            double P = f.v.size() == 1 ? f.v[0][t] : f.v[u][t];
            double sf = snowFraction(r, u, t);
            return P * ((1 - sf) * r.rcf + sf * r.scf);
        }
    return 0;
}

// Fraction by which a recorded label of a unit must be weighted to represent the unit.
inline double labelWeight(const Out& o, const string& label, int u, int t) {
    for (auto& [f, v] : o.frac)
        if (label.starts_with(f + ":") || label.starts_with(f + "_snowpack:") || label.starts_with(f + "_canopy:")) {
            double w = v[u][t];
            return std::isnan(w) ? 0 : w;
        }
    return 1;
}
inline bool isContent(const string& l) {
    return l.ends_with(":water_content") || l.ends_with(":snow_content") || l.ends_with(":ice_content");
}
// Total stored water over the basin at a recorded step.
inline double stored(const Out& o, int t, bool ice) {
    double area = 0, sum = 0;
    for (double a : o.areas) area += a;
    for (auto& [l, v] : o.hu) {
        if (!isContent(l) || (!ice && l.ends_with(":ice_content"))) continue;
        for (int u = 0; u < o.U; ++u) {
            double x = v[u][t];
            if (std::isnan(x)) continue;
            sum += x * labelWeight(o, l, u, t) * o.areas[u] / area;
        }
    }
    for (auto& [l, v] : o.sub)
        if (isContent(l)) sum += v[t];
    return sum;
}
inline double evap(const RM& r, const Out& o, int t) {
    double area = 0, sum = 0;
    for (double a : o.areas) area += a;
    for (auto& [comp, proc] : r.et) {
        string l = comp + ":" + proc + ":output";
        if (o.hasS(l)) {
            sum += o.s(l)[t];
            continue;
        }
        if (!o.hasH(l)) fail("missing output item " + l);
        for (int u = 0; u < o.U; ++u) {
            double x = o.h(l, u)[t];
            if (!std::isnan(x)) sum += x * labelWeight(o, l, u, t) * o.areas[u] / area;
        }
    }
    return sum;
}
}  // namespace rm
