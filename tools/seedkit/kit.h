// Helper of the demonstrations: builds and runs a model through the public API of hydrobricks.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <format>
#include <stdexcept>
#include <string>
#include <vector>
namespace pbt {
struct Fail { std::string msg; };
struct Discard {};
struct Gen {};
struct Case {};
[[noreturn]] inline void fail(const std::string& m) { throw Fail{m}; }
inline void check(bool c, const std::string& m) { if (!c) throw Fail{m}; }
inline bool close(double a, double b, double rel, double abs_) {
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (a == b) return true;
    return std::fabs(a - b) <= abs_ + rel * std::max(std::fabs(a), std::fabs(b));
}
inline void near(double got, double want, double rel, double abs_, const std::string& what) {
    if (!close(got, want, rel, abs_)) throw Fail{std::format("{}: got {:.12g}, expected {:.12g}", what, got, want)};
}
}  // namespace pbt
// Helpers to build, run and read hydrobricks models through its public API.
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "Includes.h"
#include "Logger.h"
#include "ModelHydro.h"
#include "SettingsBasin.h"
#include "SettingsModel.h"
#include "SubBasin.h"
#include "TimeSeries.h"
#include "TimeSeriesDistributed.h"
#include "TimeSeriesUniform.h"
#include "UtilsDateTime.h"

namespace hb {

using pbt::Case;
using pbt::check;
using pbt::Discard;
using pbt::Fail;
using pbt::fail;
using pbt::Gen;
using pbt::near;
using std::map;
using std::string;
using std::vector;
using std::format;

void globalInit();
string scratchDir();

struct Cover {
    string name;
    string type;
    double frac;
};
struct Unit {
    int id = 1;
    double area = 1e6;
    double elev = 1000;
    double slope = 0.1;        // m/m
    string aspect = "N";
    vector<Cover> covers;      // fractions sum to 1
    int structure = 1;
};
struct Lateral {
    int from, to;
    double frac;
    string type;
};
struct Forcing1 {
    string var;                        // name accepted by the time series factory
    vector<vector<double>> v;          // [unit][t]; a single row = uniform
    int lead = 0;                      // steps of data before the model start
    int trail = 0;                     // steps after the model end
};
struct Param {
    string comp, name;
    double value;
};

struct Spec {
    vector<Unit> units;
    vector<Lateral> laterals;
    std::function<void(SettingsModel&)> structure;
    vector<Param> params;              // applied with SetParameterValue after the structure is built
    vector<Forcing1> forcing;
    string solver = "heun_explicit";
    int y = 2020, m = 1, d = 1;        // start date
    int steps = 10;                    // number of simulated steps
    int dt = 1;
    string dtUnit = "day";
    int spinupDays = 0;
    bool logAll = true;
    std::function<void(SettingsBasin&)> extraBasin;
    std::function<void(ModelHydro&)> beforeRun;

    double dtDays() const {
        return dtUnit == "day" ? dt : dtUnit == "hour" ? dt / 24.0 : dt / 1440.0;
    }
};

struct Sim {
    SettingsModel settings;
    SettingsBasin basin;
    std::unique_ptr<SubBasin> sub;
    std::unique_ptr<ModelHydro> model;
    Spec spec;

    explicit Sim(const Spec& s)
        : spec(s) {}
    // Each returns normally or throws Fail: the inputs built here are all valid ones.
    void build();
    void attach();
    void run();
    void all() {
        build();
        attach();
        run();
    }
    int unitIndex(int id) const;
};

struct Out {
    int T = 0, U = 0;
    vector<double> time;
    map<string, vector<double>> sub;            // [t]
    map<string, vector<vector<double>>> hu;     // [unit][t]
    map<string, vector<vector<double>>> frac;   // [unit][t]
    vector<double> areas;
    vector<int> ids;
    double totalOutlet = 0, totalEt = 0, dWater = 0, dSnow = 0, dIce = 0;
    const vector<double>& s(const string& l) const;
    const vector<double>& h(const string& l, int u) const;
    bool hasH(const string& l) const {
        return hu.count(l) > 0;
    }
    bool hasS(const string& l) const {
        return sub.count(l) > 0;
    }
};
Out read(Sim& s);
void dump(const Out& o);
Out simulate(const Spec& s);

// Date helpers independent of the code under test.
long civilDays(int y, int m, int d);             // days since 1970-01-01
void civilFrom(long z, int& y, int& m, int& d);
double mjdOf(int y, int m, int d, int h = 0, int mi = 0, int s = 0);
string dateStr(double mjd, bool withTime);

// Compare two outputs over every label/unit/time.
void compareOut(const Out& a, const Out& b, double rel, double abs_, const string& what);
string show(const vector<double>& v, int max = 40);
string showSpec(const Spec& s);

// Structures (mirroring the documented model definitions).
void buildGR(SettingsModel& s, bool gr6, bool discrete);

}  // namespace hb

#include <cstdlib>

#include "Log.h"

namespace hb {

void globalInit() {
}

long civilDays(int y, int m, int d) {
    y -= m <= 2;
    const long era = (y >= 0 ? y : y - 399) / 400;
    const unsigned yoe = static_cast<unsigned>(y - era * 400);
    const unsigned doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
    const unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + static_cast<long>(doe) - 719468;
}
void civilFrom(long z, int& y, int& m, int& d) {
    z += 719468;
    const long era = (z >= 0 ? z : z - 146096) / 146097;
    const unsigned doe = static_cast<unsigned>(z - era * 146097);
    const unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    y = static_cast<int>(yoe + era * 400);
    const unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    const unsigned mp = (5 * doy + 2) / 153;
    d = static_cast<int>(doy - (153 * mp + 2) / 5 + 1);
    m = static_cast<int>(mp < 10 ? mp + 3 : mp - 9);
    y += m <= 2;
}
double mjdOf(int y, int m, int d, int h, int mi, int s) {
    return static_cast<double>(civilDays(y, m, d) + 40587) + (h * 3600 + mi * 60 + s) / 86400.0;
}
string dateStr(double mjd, bool withTime) {
    long day = static_cast<long>(std::floor(mjd + 0.5 / 86400));
    long sec = std::lround((mjd - day) * 86400);
    if (sec < 0) sec = 0;
    int y, m, d;
    civilFrom(day - 40587, y, m, d);
    if (!withTime) return format("{:04d}-{:02d}-{:02d}", y, m, d);
    return format("{:04d}-{:02d}-{:02d} {:02d}:{:02d}", y, m, d, sec / 3600, (sec / 60) % 60);
}

void Sim::build() {
    settings.SetLogAll(spec.logAll);
    settings.SetSolver(spec.solver);
    double start = mjdOf(spec.y, spec.m, spec.d);
    double end = start + (spec.steps - 1) * spec.dtDays();
    bool withTime = spec.dtUnit != "day";
    settings.SetTimer(dateStr(start, withTime), dateStr(end, withTime), spec.dt, spec.dtUnit);
    if (spec.spinupDays > 0) settings.SetSpinupDays(spec.spinupDays);
    spec.structure(settings);
    for (const auto& p : spec.params) {
        if (!settings.SetParameterValue(p.comp, p.name, static_cast<float>(p.value)))
            fail(format("setting the declared parameter {}:{} was refused", p.comp, p.name));
    }
    for (const auto& u : spec.units) {
        basin.AddHydroUnit(u.id, u.area, u.elev);
        basin.AddHydroUnitPropertyDouble("slope", u.slope, "m/m");
        basin.AddHydroUnitPropertyDouble("elevation", u.elev, "m");
        basin.AddHydroUnitPropertyString("aspect_class", u.aspect);
        for (const auto& c : u.covers) basin.AddLandCover(c.name, c.type, c.frac);
    }
    for (const auto& l : spec.laterals) basin.AddLateralConnection(l.from, l.to, l.frac, l.type);
    if (spec.extraBasin) spec.extraBasin(basin);
    sub = std::make_unique<SubBasin>();
    auto r = sub->Initialize(basin);
    if (!r) fail(format("valid basin refused: {}", r.error()));
    for (size_t i = 0; i < spec.units.size(); ++i)
        if (spec.units[i].structure != 1) sub->GetHydroUnit(i)->SetStructureId(spec.units[i].structure);
    model = std::make_unique<ModelHydro>(sub.get());
    auto r2 = model->Initialize(settings, basin);
    if (!r2) fail(format("valid model refused: {}", r2.error()));
}

void Sim::attach() {
    double start = mjdOf(spec.y, spec.m, spec.d);
    double dt = spec.dtDays();
    for (const auto& f : spec.forcing) {
        int n = spec.steps + f.lead + f.trail;
        axd time(n);
        for (int t = 0; t < n; ++t) time[t] = start + (t - f.lead) * dt;
        int U = static_cast<int>(spec.units.size());
        axi ids(U);
        axxd data(n, U);
        for (int u = 0; u < U; ++u) {
            ids[u] = spec.units[u].id;
            const auto& row = f.v.size() == 1 ? f.v[0] : f.v[u];
            for (int t = 0; t < n; ++t) data(t, u) = row[t];
        }
        if (!model->CreateTimeSeries(f.var, time, ids, data)) fail("valid forcing refused: " + f.var);
    }
    if (!model->AttachTimeSeriesToHydroUnits()) fail("attaching valid forcing failed");
    if (!model->IsValid()) fail("valid model reported as invalid");
}

void Sim::run() {
    if (spec.beforeRun) spec.beforeRun(*model);
    std::expected<void, string> r;
    try {
        r = model->Run();
    } catch (const std::exception& e) {
        if (string(e.what()).find("is too high") != string::npos) throw Discard{};
        throw;
    }
    if (!r) fail(format("run failed: {}", r.error()));
}

int Sim::unitIndex(int id) const {
    for (size_t i = 0; i < spec.units.size(); ++i)
        if (spec.units[i].id == id) return static_cast<int>(i);
    return -1;
}

const vector<double>& Out::s(const string& l) const {
    auto it = sub.find(l);
    if (it == sub.end()) fail("output item missing: " + l);
    return it->second;
}
const vector<double>& Out::h(const string& l, int u) const {
    auto it = hu.find(l);
    if (it == hu.end()) fail("output item missing: " + l);
    return it->second[u];
}

Out read(Sim& s) {
    Out o;
    Logger* lg = s.model->GetLogger();
    const axd& t = lg->GetTime();
    o.T = static_cast<int>(t.size());
    o.time.assign(t.data(), t.data() + t.size());
    const auto& sl = lg->GetSubBasinLabels();
    const auto& sv = lg->GetSubBasinValues();
    for (size_t i = 0; i < sl.size(); ++i) o.sub[sl[i]].assign(sv[i].data(), sv[i].data() + sv[i].size());
    const auto& hl = lg->GetHydroUnitLabels();
    const auto& hv = lg->GetHydroUnitValues();
    o.ids.assign(lg->GetHydroUnitIds().begin(), lg->GetHydroUnitIds().end());
    o.U = static_cast<int>(o.ids.size());
    const axd& ar = lg->GetHydroUnitAreas();
    o.areas.assign(ar.data(), ar.data() + ar.size());
    auto conv = [&](const axxd& m) {
        vector<vector<double>> r(m.cols(), vector<double>(m.rows()));
        for (int c = 0; c < m.cols(); ++c)
            for (int k = 0; k < m.rows(); ++k) r[c][k] = m(k, c);
        return r;
    };
    for (size_t i = 0; i < hl.size(); ++i) o.hu[hl[i]] = conv(hv[i]);
    const auto& fl = lg->GetHydroUnitFractionLabels();
    const auto& fv = lg->GetHydroUnitFractions();
    for (size_t i = 0; i < fl.size() && i < fv.size(); ++i) o.frac[fl[i]] = conv(fv[i]);
    o.totalOutlet = s.model->GetTotalOutletDischarge();
    o.totalEt = s.model->GetTotalET();
    o.dWater = s.model->GetTotalWaterStorageChanges();
    o.dSnow = s.model->GetTotalSnowStorageChanges();
    o.dIce = s.model->GetTotalGlacierStorageChanges();
    return o;
}

void dump(const Out& o) {
    for (auto& [k, v] : o.sub) fprintf(stderr, "%s %s\n", k.c_str(), show(v, 100).c_str());
    for (auto& [k, v] : o.hu)
        for (size_t u = 0; u < v.size(); ++u)
            if (std::any_of(v[u].begin(), v[u].end(), [](double x) { return x != 0; })) fprintf(stderr, "%s[%zu] %s\n", k.c_str(), u, show(v[u], 100).c_str());
    for (auto& [k, v] : o.frac)
        for (size_t u = 0; u < v.size(); ++u) fprintf(stderr, "F %s[%zu] %s\n", k.c_str(), u, show(v[u], 100).c_str());
    fprintf(stderr, "tot Q %.12g ET %.12g dW %.12g dS %.12g dI %.12g\n", o.totalOutlet, o.totalEt, o.dWater, o.dSnow, o.dIce);
}

Out simulate(const Spec& sp) {
    Sim s(sp);
    s.all();
    Out o = read(s);
    if (getenv("HB_DUMP")) dump(o);
    return o;
}

static void cmpVec(const vector<double>& a, const vector<double>& b, double rel, double ab, const string& w) {
    if (a.size() != b.size()) fail(format("{}: lengths differ ({} vs {})", w, a.size(), b.size()));
    for (size_t i = 0; i < a.size(); ++i)
        if (!pbt::close(a[i], b[i], rel, ab))
            fail(format("{} at step {}: {:.15g} vs {:.15g}", w, i, a[i], b[i]));
}

void compareOut(const Out& a, const Out& b, double rel, double ab, const string& what) {
    cmpVec(a.time, b.time, 0, 1e-9, what + " [time]");
    if (a.sub.size() != b.sub.size() || a.hu.size() != b.hu.size()) fail(what + ": different sets of output items");
    for (auto& [k, v] : a.sub) cmpVec(v, b.s(k), rel, ab, format("{} [{}]", what, k));
    for (auto& [k, v] : a.hu)
        for (size_t u = 0; u < v.size(); ++u) cmpVec(v[u], b.h(k, u), rel, ab, format("{} [{} unit {}]", what, k, u));
    for (auto& [k, v] : a.frac) {
        auto it = b.frac.find(k);
        if (it == b.frac.end()) fail(what + ": fraction item missing " + k);
        for (size_t u = 0; u < v.size(); ++u)
            cmpVec(v[u], it->second[u], rel, ab, format("{} [fraction {} unit {}]", what, k, u));
    }
}

string show(const vector<double>& v, int max) {
    string r = "[";
    for (size_t i = 0; i < v.size() && static_cast<int>(i) < max; ++i) r += format("{}{:.6g}", i ? " " : "", v[i]);
    if (static_cast<int>(v.size()) > max) r += " ...";
    return r + "]";
}

string showSpec(const Spec& s) {
    string r = format("start {}-{}-{} steps {} dt {} {} solver {} spinup {}\n", s.y, s.m, s.d, s.steps, s.dt, s.dtUnit,
                      s.solver, s.spinupDays);
    for (const auto& u : s.units) {
        r += format("unit id={} area={:.6g} elev={:.6g} slope={:.6g} aspect={} structure={}:", u.id, u.area, u.elev,
                    u.slope, u.aspect, u.structure);
        for (const auto& c : u.covers) r += format(" {}({})={:.6g}", c.name, c.type, c.frac);
        r += "\n";
    }
    for (const auto& l : s.laterals) r += format("lateral {}->{} {:.4g} {}\n", l.from, l.to, l.frac, l.type);
    for (const auto& p : s.params) r += format("param {}:{}={:.6g}\n", p.comp, p.name, p.value);
    for (const auto& f : s.forcing) {
        r += format("forcing {} lead={} trail={}\n", f.var, f.lead, f.trail);
        for (const auto& v : f.v) r += "  " + show(v) + "\n";
    }
    return r;
}

void buildGR(SettingsModel& s, bool gr6, bool discrete) {
    s.GeneratePrecipitationSplitters(false);
    s.AddLandCoverBrick("ground", "generic_land_cover");
    s.SelectHydroUnitBrick("ground");
    s.AddBrickProcess("interception", "interception:gr4j");
    s.AddBrickProcess("throughfall", "outflow:rest", discrete ? "production_store" : "ground_soil");
    s.SetProcessOutputsAsInstantaneous();
    if (!discrete) {
        s.AddHydroUnitBrick("ground_soil", "storage");
        s.AddBrickProcess("production", "infiltration:gr4j", "production_store");
        s.AddBrickProcess("runoff", "outflow:rest", "uh_input");
    }
    s.AddHydroUnitBrick("production_store", "storage");
    s.AddBrickParameter("capacity", 350.0f);
    if (discrete)
        s.AddBrickProcess("production", "production:gr4j", "uh_input");
    else
        s.AddBrickProcess("percolation", "percolation:gr4j", "uh_input");
    s.AddBrickProcess("et", "et:gr4j");
    if (discrete) s.SetCurrentBrickComputedDirectly();
    s.AddHydroUnitBrick("uh_input", "storage");
    s.AddBrickProcess("routing", gr6 ? "routing:gr6j" : "routing:gr4j", "outlet");
    if (discrete) s.SetCurrentBrickComputedDirectly();
    s.AddLoggingToItem("outlet");
}

}  // namespace hb

#include <netcdf.h>
inline int run(void (*f)()) {
    try { f(); }
    catch (const pbt::Fail& e) { fprintf(stderr, "FAILED: %s\n", e.msg.c_str()); return 1; }
    catch (const pbt::Discard&) { fprintf(stderr, "FAILED: the simulation was refused\n"); return 1; }
    catch (const std::exception& e) { fprintf(stderr, "FAILED: %s\n", e.what()); return 1; }
    puts("ok");
    return 0;
}
