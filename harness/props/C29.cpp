// The ready-made models of the Python package: pyside/pymodels.py builds them with generated options and writes the
// calls made on the compiled SettingsModel; these are replayed here against the documented structures.
#include <fstream>
#include <set>
#include <sstream>

#include "../gen.h"
using namespace rm;
const char* pbt::propertyId() {
    return "C29";
}

struct Call {
    string name;
    vector<string> a;
};
struct Sample {
    vector<Param> doc;                       // documented component, parameter, value
    vector<pair<string, double>> in;         // as given by the user
    vector<std::array<string, 3>> get;       // key, expected, got
    int valid = -1, ranges = -1, wantCons = -1, gotCons = -1;
    vector<Call> set;
    string err;
    bool skip = false;
};
struct Set {
    int idx = 0;
    string kind, cls, label, err;
    vector<pair<string, string>> covers;
    map<string, vector<string>> cfg;
    vector<Call> calls;
    vector<Sample> samples;
    bool built = false, skip = false;
    string one(const string& k) const {
        auto it = cfg.find(k);
        return it == cfg.end() ? "" : it->second[0];
    }
    bool on(const string& k) const {
        return one(k) == "1";
    }
    vector<string> all(const string& k) const {
        auto it = cfg.find(k);
        return it == cfg.end() ? vector<string>{} : it->second;
    }
};

static const vector<Set>& sets() {
    static vector<Set> r;
    static bool read = false;
    if (read) return r;
    read = true;
    const char* path = getenv("HB_PYMODELS");
    if (!path) return r;
    std::ifstream f(path);
    string line;
    bool inSample = false;
    while (std::getline(f, line)) {
        vector<string> w;
        size_t p = 0;
        while (true) {
            size_t q = line.find('\t', p);
            w.push_back(line.substr(p, q == string::npos ? string::npos : q - p));
            if (q == string::npos) break;
            p = q + 1;
        }
        const string& k = w[0];
        if (k == "SET") {
            r.emplace_back();
            r.back().idx = std::stoi(w[1]);
            r.back().kind = w[2];
            r.back().cls = w[3];
            inSample = false;
        }
        if (r.empty()) continue;
        Set& s = r.back();
        if (k == "LABEL") s.label = w[1];
        if (k == "COVER") s.covers.push_back({w[1], w[2]});
        if (k == "CFG") s.cfg[w[1]].push_back(w[2]);
        if (k == "CALL") s.calls.push_back({w[1], vector<string>(w.begin() + 2, w.end())});
        if (k == "BUILT") s.built = true;
        if (k == "SAMPLE") {
            s.samples.emplace_back();
            inSample = true;
        }
        if (k == "ENDSAMPLE") inSample = false;
        if (k == "ERR") (inSample ? s.samples.back().err : s.err) = w[1] + ": " + (w.size() > 2 ? w[2] : "");
        if (k == "SKIP") (inSample ? s.samples.back().skip : s.skip) = true;
        if (!inSample) continue;
        Sample& m = s.samples.back();
        if (k == "DOCPAR") m.doc.push_back({w[1], w[2], std::stod(w[3])});
        if (k == "IN") m.in.push_back({w[1], std::stod(w[2])});
        if (k == "GET") m.get.push_back({w[1], w[2], w[3]});
        if (k == "VALID") m.valid = w[1] == "1";
        if (k == "RANGES") m.ranges = w[1] == "1";
        if (k == "CONSTRAINTS") m.wantCons = w[1] == "1", m.gotCons = w[2] == "1";
        if (k == "SETPAR") m.set.push_back({w[1], vector<string>(w.begin() + 2, w.end())});
    }
    return r;
}

// One call on the compiled settings; false when the call is not known here.
static bool apply(SettingsModel& m, const Call& c) {
    auto s = [&](size_t i) { return i < c.a.size() ? c.a[i] : string(); };
    auto b = [&](size_t i) { return s(i) == "1" || s(i) == "1.0"; };
    auto f = [&](size_t i) { return static_cast<float>(std::stod(s(i))); };
    const string& n = c.name;
    if (n == "log_all") m.SetLogAll(b(0));
    else if (n == "record_fractions") m.SetRecordFractions(b(0));
    else if (n == "add_logging_to") m.AddLoggingToItem(s(0));
    else if (n == "add_brick_logging") m.AddBrickLogging(s(0));
    else if (n == "select_process") m.SelectProcess(s(0));
    else if (n == "add_process_logging") m.AddProcessLogging(s(0));
    else if (n == "add_structure") m.AddStructure();
    else if (n == "set_solver") m.SetSolver(s(0));
    else if (n == "add_land_cover_brick") m.AddLandCoverBrick(s(0), s(1));
    else if (n == "add_hydro_unit_brick") m.AddHydroUnitBrick(s(0), s(1));
    else if (n == "add_sub_basin_brick") m.AddSubBasinBrick(s(0), s(1));
    else if (n == "select_hydro_unit_brick") m.SelectHydroUnitBrickByName(s(0));
    else if (n == "add_brick_process") m.AddBrickProcess(s(0), s(1), s(2), b(3));
    else if (n == "add_process_output") m.AddProcessOutput(s(0));
    else if (n == "add_process_parameter") m.AddProcessParameter(s(0), f(1), s(2));
    else if (n == "add_process_forcing") m.AddProcessForcing(s(0));
    else if (n == "add_brick_parameter") m.AddBrickParameter(s(0), f(1), s(2));
    else if (n == "set_current_brick_computed_directly") m.SetCurrentBrickComputedDirectly();
    else if (n == "set_parameter_value") {
        if (!m.SetParameterValue(s(0), s(1), f(2))) fail("the parameter " + s(0) + ":" + s(1) + " offered by the model was refused");
    } else if (n == "generate_precipitation_splitters") m.GeneratePrecipitationSplitters(b(0), s(1));
    else if (n == "generate_snowpacks") m.GenerateSnowpacks(s(0));
    else if (n == "generate_snowpacks_with_water_retention") m.GenerateSnowpacksWithWaterRetention(s(0), s(1), b(2));
    else if (n == "generate_canopy_interception") m.GenerateCanopyInterception(s(0), s(1));
    else if (n == "add_snowpack_refreezing") m.AddSnowpackRefreezing(s(0));
    else if (n == "add_snowpack_sublimation") m.AddSnowpackSublimation(s(0));
    else if (n == "add_snow_ice_transformation") m.AddSnowIceTransformation(s(0));
    else if (n == "add_snow_redistribution") m.AddSnowRedistribution(s(0), b(1));
    else if (n == "set_process_outputs_as_instantaneous") m.SetProcessOutputsAsInstantaneous();
    else if (n == "set_process_outputs_as_static") m.SetProcessOutputsAsStatic();
    else return false;
    return true;
}

static Cfg documented(const Set& s) {
    Cfg c;
    c.family = s.one("family");
    c.snow = s.on("snow");
    c.splitter = s.one("splitter");
    c.melt = c.iceMelt = s.one("melt");
    c.retention = s.on("retention");
    c.rainToSnow = s.on("rain_to_snow");
    c.refreeze = s.on("refreeze");
    c.sublimation = s.one("sublimation");
    c.redistribution = s.one("redistribution");
    c.transform = s.one("transform");
    c.soilCovers = s.all("soil");
    auto can = s.all("canopy");
    for (auto& n : c.soilCovers) c.canopy.push_back(std::find(can.begin(), can.end(), n) != can.end());
    c.sharedSoil = s.on("shared");
    c.glaciers = s.all("glaciers");
    c.asPackage = true;
    c.infiniteIce = s.on("infinite");
    c.soils = std::stod(s.one("soils")) == 2 ? 2 : 1;
    c.quickSocont = s.on("quick");
    c.gr6 = s.on("gr6");
    c.discrete = s.on("discrete");
    return c;
}
static void lakes(SettingsModel& m, const vector<string>& names) {
    m.AddStructure();
    m.GeneratePrecipitationSplitters(false);
    for (auto& n : names) m.AddLandCoverBrick(n, "generic_land_cover");
    for (auto& n : names) {
        m.SelectHydroUnitBrick(n);
        m.AddBrickProcess("outflow", "outflow:direct", n + "_storage");
        m.SetProcessOutputsAsInstantaneous();
        m.AddHydroUnitBrick(n + "_storage", "storage");
        m.AddBrickProcess("et", "et:open_water");
        m.AddBrickProcess("outflow", "outflow:linear", "outlet");
    }
    m.AddLoggingToItem("outlet");
}

static const Set& pickSet(Gen& g, Case& c, const string& kind, bool custom) {
    static map<string, vector<const Set*>> by;
    auto& l = by[kind + (custom ? "c" : "m")];
    if (l.empty())
        for (auto& s : sets())
            if (s.kind == kind && (kind == "refuse" || (s.cls == "CustomModel") == custom)) l.push_back(&s);
    if (l.empty()) throw Discard{};
    const Set& s = *l[g.below(l.size())];
    c.desc << format("set {}: {}", s.idx, s.label.substr(0, 2500));
    c.tag(s.cls);
    if (s.skip) throw Discard{};
    return s;
}
static void usable(const Set& s) {
    if (!s.err.empty()) fail("options of the documentation are refused (" + s.err + ")");
    check(s.built, "the model was not built");
}

// The model built by the package against the documented structure with the documented parameters.
static void against(Gen& g, Case& c, bool custom) {
    const Set& s = pickSet(g, c, "build", custom);
    usable(s);
    if (s.samples.empty()) throw Discard{};
    const Sample& m = s.samples[g.below(s.samples.size())];
    if (m.skip) throw Discard{};
    if (!m.err.empty()) fail("setting documented parameters failed (" + m.err + ")");
    Cfg cfg = documented(s);
    vector<string> lk = s.all("lakes");

    Spec doc;
    int U = g.in(1, 4);
    doc.steps = g.in(5, 40);
    doc.y = g.in(1996, 2023);
    doc.m = g.in(1, 12);
    doc.d = g.in(1, 28);
    doc.solver = s.one("solver");
    vector<string> land = cfg.soilCovers;
    for (auto& x : cfg.glaciers) land.push_back(x);
    double elev = g.real(2000, 3600, 160);
    vector<bool> lake;
    for (int u = 0; u < U; ++u) {
        Unit un;
        un.id = U == 1 ? 1 : 7 + 4 * u;
        un.area = g.logreal(1e4, 1e8);
        un.elev = elev;
        elev -= g.real(0, 600, 60);
        un.slope = g.real(0.01, 1.5, 149);
        un.aspect = g.pick<string>({"N", "S", "E", "W"});
        lake.push_back(!lk.empty() && u > 0 && g.flip());
        const auto& names = lake[u] ? lk : land;
        // A unit may have only a part of the covers of the model.
        auto f = fractions(g, static_cast<int>(names.size()), true);
        for (size_t i = 0; i < names.size(); ++i)
            un.covers.push_back({names[i], !lake[u] && i >= cfg.soilCovers.size() ? "glacier" : "generic_land_cover", f[i]});
        un.structure = lake[u] ? 2 : 1;
        doc.units.push_back(un);
    }
    if (!cfg.redistribution.empty())
        for (int u = 0; u + 1 < U; ++u)
            if (!lake[u] && !lake[u + 1] && g.chance(3, 4))
                doc.laterals.push_back({doc.units[u].id, doc.units[u + 1].id, 1.0, "gravity"});
    auto forc = [&](const string& name, auto&& make) {
        Forcing1 f{name, {}};
        bool uni = U == 1 || g.chance(1, 3);
        for (int u = 0; u < (uni ? 1 : U); ++u) f.v.push_back(make());
        doc.forcing.push_back(f);
    };
    forc("precipitation", [&] { return genP(g, doc.steps, false); });
    forc("pet", [&] { return genE(g, doc.steps, false); });
    if (cfg.snow || !cfg.glaciers.empty()) {
        forc("temperature", [&] { return genT(g, doc.steps); });
        Forcing1 lo{"temperature_min", {}}, hi{"temperature_max", {}};
        for (auto& row : doc.forcing.back().v) {
            vector<double> a(row), b(row);
            for (size_t t = 0; t < row.size(); ++t) {
                double d = g.real(0, 8, 32);
                a[t] -= d;
                b[t] += d * g.real(0.2, 1, 8) + 0.01;
            }
            lo.v.push_back(a);
            hi.v.push_back(b);
        }
        if (cfg.splitter == "snow_rain:cemaneige") {
            doc.forcing.push_back(lo);
            doc.forcing.push_back(hi);
        }
        if (cfg.melt == "melt:temperature_index") forc("solar_radiation", [&] { return genR(g, doc.steps); });
    }
    vector<Init> in;
    for (int u = 0; u < U; ++u) {
        if (lake[u]) continue;
        for (size_t i = 0; i < land.size(); ++i) {
            if (doc.units[u].covers[i].frac <= 0) continue;
            if (cfg.snow && g.flip()) in.push_back({u, land[i] + "_snowpack", ContentType::Snow, g.logreal(0.5, 500)});
            if (i >= cfg.soilCovers.size() && !cfg.infiniteIce && g.chance(3, 4))
                in.push_back({u, land[i], ContentType::Ice, g.logreal(1, 20000)});
        }
    }
    doc.beforeRun = [in](ModelHydro& m) {
        for (auto& i : in) m.GetSubBasin()->GetHydroUnit(i.unit)->GetBrick(i.brick)->UpdateContent(i.value, i.type);
        if (!in.empty()) m.SaveAsInitialState();
    };

    Spec py = doc;
    doc.params = m.doc;
    for (auto& p : doc.params) p.value = f32(p.value);
    doc.structure = [&](SettingsModel& sm) {
        build(sm, cfg);
        if (!lk.empty()) lakes(sm, lk);
    };
    py.withBasin = true;
    py.structure = [&](SettingsModel& sm) {
        for (auto& k : s.calls)
            if (!apply(sm, k)) throw Discard{};
        for (auto& k : m.set)
            if (!apply(sm, k)) throw Discard{};
    };
    for (auto& u : py.units) {
        vector<Cover> all;
        for (auto& [n, t] : s.covers) {
            double f = 0;
            for (auto& x : u.covers)
                if (x.name == n) f = x.frac;
            all.push_back({n, t, f});
        }
        u.covers = all;
        u.structure = 1;
    }
    for (auto& [k, v] : m.in) c.desc << format(" {}={:.9g}", k, v);
    c.desc << "\n" << showSpec(doc);
    Out want = simulate(doc);
    Out got = simulate(py);

    double big = 1;
    for (auto& [l, v] : want.sub)
        for (double x : v) big = std::max(big, std::abs(x));
    auto same = [&](const vector<double>& a, const vector<double>& b, const string& what, double scale) {
        check(a.size() == b.size(), what + ": another number of values");
        for (size_t t = 0; t < a.size(); ++t) {
            if (std::isnan(a[t]) || std::isnan(b[t])) continue;
            near(a[t], b[t], 1e-6, 1e-6 + 1e-7 * scale, format("{} at step {}", what, t));
        }
    };
    int common = 0;
    for (auto& [l, v] : got.hu)
        if (want.hasH(l) && isContent(l)) {
            double mx = 1;
            for (int u = 0; u < U; ++u)
                for (double x : want.hu[l][u])
                    if (!std::isnan(x)) mx = std::max(mx, std::abs(x));
            for (int u = 0; u < U; ++u) same(v[u], want.h(l, u), format("{} (unit #{})", l, u), mx);
            ++common;
        }
    for (auto& [l, v] : got.sub)
        if (want.hasS(l) && (isContent(l) || l == "outlet")) same(v, want.s(l), l, big);
    check(got.hasS("outlet"), "the discharge is not recorded");
    if (s.on("record_all"))
        check(common >= 2, "record_all does not record the stores");
    else
        check(got.hu.empty(), "items of the hydro units are recorded without being asked for");
    double q = 0;
    for (double x : want.s("outlet")) q += x;
    c.tag(s.one("melt"));
    if (!cfg.glaciers.empty()) c.tag("glaciers");
    if (!lk.empty()) c.tag("lakes");
    if (!cfg.redistribution.empty()) c.tag("redistribution");
    if (cfg.retention) c.tag("retention");
    c.nontrivial = q > 0;
}
static void models(Gen& g, Case& c) {
    against(g, c, false);
}
static void customs(Gen& g, Case& c) {
    against(g, c, true);
}

// The parameters offered by a model: their names, ranges, constraints and transformations.
static void parameters(Gen& g, Case& c) {
    const Set& s = pickSet(g, c, "build", g.chance(1, 4));
    usable(s);
    for (auto& m : s.samples) {
        if (m.skip) throw Discard{};
        string in;
        for (auto& [k, v] : m.in) in += format(" {}={:.9g}", k, v);
        auto must = [&](bool ok, const string& what) {
            if (!ok) fail(what + " (values:" + in + ")");
        };
        must(m.err.empty(), "setting documented parameters failed: " + m.err);
        must(m.valid == 1, "a set with all documented parameters given is not valid");
        must(m.ranges == 1, "values within the documented ranges are reported out of range");
        must(m.wantCons == m.gotCons, format("the constraints are reported as {} instead of {}", m.gotCons ? "satisfied" : "not satisfied",
                                             m.wantCons ? "satisfied" : "not satisfied"));
        for (auto& [k, want, got] : m.get) {
            double a = std::stod(want), b = 0;
            try {
                b = std::stod(got);
            } catch (const std::exception&) {
                fail(k + " is returned as " + got);
            }
            must(pbt::close(b, a, 1e-9, 1e-9), format("{} is returned as {} instead of {}", k, got, want));
        }
        c.nontrivial |= m.set.size() > 2;
    }
    c.tag(s.samples.empty() ? "no sample" : "samples");
}
static void refused(Gen& g, Case& c) {
    const Set& s = pickSet(g, c, "refuse", false);
    check(!s.built && !s.err.empty(), "accepted instead of refused");
    c.nontrivial = true;
}

const vector<pbt::Sub>& pbt::subs() {
    static const vector<Sub> s = {{"models", models, 50000, 400000, "a ready-made model with generated options, covers, parameter names and values, replayed on a generated basin and forcing, whose discharge is positive"},
            {"custom", customs, 8000, 100000, "a model declared as data, with the same generation"},
            {"parameters", parameters, 3000, 10000, "an option set whose parameters were set by documented names"},
            {"refused", refused, 1000, 4000, "an option set or definition that must be refused"}};
    return s;
}
