// The results file and the accessors give what was simulated; what is recorded does not change the simulation.
#include <sys/stat.h>

#include <fstream>
#include <set>

#include "../actions.h"
#include "../deliver.h"
#include "ResultWriter.h"
using namespace act;
using deliver::ok;
const char* pbt::propertyId() {
    return "C21";
}

struct Dir {
    string path;
    Dir() {
        static int n = 0;
        path = scratchDir() + format("/out-{}-{}", static_cast<int>(getpid()), ++n);
        if (mkdir(path.c_str(), 0755) != 0) fail("harness: mkdir");
    }
    ~Dir() {
        unlink((path + "/results.nc").c_str());
        unlink((path + "/results.csv").c_str());
        rmdir(path.c_str());
    }
};
struct Contents {
    map<string, vector<double>> v;
    map<string, vector<size_t>> shape;
    map<string, vector<string>> labels;
    map<string, string> units;
};
static Contents readFile(const string& path) {
    Contents c;
    int nc;
    ok(nc_open(path.c_str(), NC_NOWRITE, &nc), "open");
    int n;
    ok(nc_inq_nvars(nc, &n), "nvars");
    for (int i = 0; i < n; ++i) {
        char name[NC_MAX_NAME + 1];
        int nd, dims[8];
        ok(nc_inq_var(nc, i, name, nullptr, &nd, dims, nullptr), "var");
        size_t total = 1;
        vector<size_t> sh;
        for (int d = 0; d < nd; ++d) {
            size_t len;
            ok(nc_inq_dimlen(nc, dims[d], &len), "dim");
            sh.push_back(len);
            total *= len;
        }
        vector<double> v(total);
        if (total) ok(nc_get_var_double(nc, i, v.data()), "get");
        c.v[name] = v;
        c.shape[name] = sh;
        size_t len;
        if (nc_inq_attlen(nc, i, "units", &len) == NC_NOERR) {
            nc_type t;
            ok(nc_inq_atttype(nc, i, "units", &t), "att");
            if (t == NC_CHAR) {
                string s(len, ' ');
                ok(nc_get_att_text(nc, i, "units", s.data()), "att");
                c.units[name] = s;
            }
        }
    }
    for (string a : {"labels_aggregated", "labels_distributed", "labels_land_covers"}) {
        size_t len;
        if (nc_inq_attlen(nc, NC_GLOBAL, a.c_str(), &len) != NC_NOERR) continue;
        vector<char*> s(len);
        if (len) ok(nc_get_att_string(nc, NC_GLOBAL, a.c_str(), s.data()), "att");
        for (auto x : s) c.labels[a].push_back(x);
        if (len) nc_free_string(len, s.data());
    }
    ok(nc_close(nc), "close");
    return c;
}
static bool same(double a, double b) {
    return a == b || (std::isnan(a) && std::isnan(b));
}
static void equal(const Contents& f, const string& var, const vector<size_t>& shape, const std::function<double(size_t)>& want) {
    if (!f.v.count(var)) fail("the file has no variable " + var);
    check(f.shape.at(var) == shape, "shape of " + var);
    auto& v = f.v.at(var);
    for (size_t i = 0; i < v.size(); ++i)
        if (!same(v[i], want(i))) fail(format("{} at {}: {:.17g} in the file, {:.17g} in memory", var, i, v[i], want(i)));
}
static void compareFile(const Contents& f, Sim& sim, const Out& o) {
    Logger* lg = sim.model->GetLogger();
    const auto& sl = lg->GetSubBasinLabels();
    const auto& hl = lg->GetHydroUnitLabels();
    const auto& fl = lg->GetHydroUnitFractionLabels();
    size_t T = o.T, U = o.U;
    check(o.T == sim.spec.steps && U == sim.spec.units.size(), "size of the record");
    auto labels = [&](const string& a, const vector<string>& want) {
        auto it = f.labels.find(a);
        vector<string> got = it == f.labels.end() ? vector<string>{} : it->second;
        check(got == want, "labels of the file: " + a);
        std::set<string> u(got.begin(), got.end());
        check(u.size() == got.size(), "a label is repeated: " + a);
    };
    labels("labels_aggregated", sl);
    labels("labels_distributed", hl);
    labels("labels_land_covers", fl);
    double start = mjdOf(sim.spec.y, sim.spec.m, sim.spec.d);
    equal(f, "time", {T}, [&](size_t i) { return o.time[i]; });
    for (size_t i = 0; i < T; ++i) near(f.v.at("time")[i], start + i * sim.spec.dtDays(), 0, 1e-8, "date in the file");
    check(f.units.at("time").starts_with("days since 1858-11-17 00:00:00"), "unit of the time");
    equal(f, "hydro_units_ids", {U}, [&](size_t i) { return sim.spec.units[i].id; });
    equal(f, "hydro_units_areas", {U}, [&](size_t i) { return sim.spec.units[i].area; });
    equal(f, "hydro_units_structure_ids", {U}, [&](size_t i) { return sim.spec.units[i].structure; });
    equal(f, "sub_basin_values", {sl.size(), T}, [&](size_t i) { return o.sub.at(sl[i / T])[i % T]; });
    // An empty dimension is an unlimited one: nothing to read.
    if (!hl.empty()) equal(f, "hydro_units_values", {hl.size(), U, T}, [&](size_t i) { return o.hu.at(hl[i / (U * T)])[i / T % U][i % T]; });
    check(f.v.count("land_cover_fractions") == (o.frac.empty() ? 0u : 1u), "land cover fractions in the file");
    if (!o.frac.empty()) equal(f, "land_cover_fractions", {fl.size(), U, T}, [&](size_t i) { return o.frac.at(fl[i / (U * T)])[i / T % U][i % T]; });
}

static Opt options() {
    Opt o;
    o.maxSteps = 25;
    o.maxUnits = 4;
    o.spinup = true;
    return o;
}
static void twoStructures(Gen& g, Spec& s) {
    auto first = s.structure;
    s.structure = [first](SettingsModel& m) {
        first(m);
        m.AddStructure();
        first(m);
        m.AddHydroUnitBrick("extra_store", "storage");
        m.AddBrickProcess("outflow", "outflow:linear", "outlet");
    };
    for (auto& u : s.units) u.structure = g.in(1, 2);
}

static void file(Gen& g, Case& c) {
    RM r = genModel(g, options());
    bool two = r.c.family != "gr" && g.chance(1, 4);
    if (two) twoStructures(g, r.s);
    Plan plan;
    if (g.flip()) plan = genPlan(g, r);
    bool all = g.chance(3, 4);
    r.s.logAll = all;
    bool fractions = !all && g.flip();
    auto inner = r.s.structure;
    if (fractions)
        r.s.structure = [inner](SettingsModel& m) {
            inner(m);
            m.SetRecordFractions(true);
        };
    c.desc << showRM(r) << plan.show() << format("logAll {} fractions {} structures {}\n", all, fractions, two ? 2 : 1);
    Owned keep;
    Sim sim(r.s);
    sim.build();
    sim.attach();
    if (r.s.beforeRun) r.s.beforeRun(*sim.model);
    sim.spec.beforeRun = nullptr;
    if (!install(plan, r.s, *sim.model, keep)) fail("a valid action is refused");
    sim.run();
    Out o = read(sim);
    Dir d;
    check(!sim.model->DumpOutputs(d.path + "/missing"), "writing to a missing directory succeeded");
    check(sim.model->DumpOutputs(d.path), "writing the results failed");
    compareFile(readFile(d.path + "/results.nc"), sim, o);
    check(all || o.hu.empty(), "items recorded without having been asked for");
    check(!o.frac.empty() == (all || fractions), "record of the fractions");
    if (g.chance(1, 3)) {
        // Another run over the same file.
        sim.model->Reset();
        sim.run();
        Out o2 = read(sim);
        check(sim.model->DumpOutputs(d.path), "writing the results again failed");
        compareFile(readFile(d.path + "/results.nc"), sim, o2);
        c.tag("written again");
    }
    if (two) c.tag("two structures");
    if (!plan.changes.empty() || !plan.evo.empty()) c.tag("changing fractions");
    if (!all) c.tag("outlet only");
    c.nontrivial = o.totalOutlet > 0;
}

// Accessors against the record and totals recomputed from the record.
static void accessors(Gen& g, Case& c) {
    Opt opt = options();
    opt.zeroFractions = g.chance(1, 3);
    RM r = genModel(g, opt);
    Plan plan;
    if (g.flip()) plan = genPlan(g, r);
    c.desc << showRM(r) << plan.show();
    Owned keep;
    Sim sim(r.s);
    runPlan(sim, plan, keep);
    Out o = read(sim);
    if (!plan.changes.empty() || !plan.evo.empty()) c.tag("changing fractions");
    ModelHydro& m = *sim.model;
    auto throws = [](auto f) {
        try {
            f();
        } catch (const std::exception&) {
            return true;
        }
        return false;
    };
    auto labels = m.GetRecordedHydroUnitLabels();
    check(labels.size() == o.hu.size(), "number of labels");
    for (auto& l : labels) {
        axxd v = m.GetHydroUnitValues(l);
        check(v.rows() == o.T && v.cols() == o.U, "shape of " + l);
        for (int t = 0; t < o.T; ++t)
            for (int u = 0; u < o.U; ++u)
                if (!same(v(t, u), o.h(l, u)[t])) fail(format("{} unit {} step {}", l, u, t));
    }
    for (auto& l : m.GetRecordedHydroUnitFractionLabels()) {
        axxd v = m.GetHydroUnitFractions(l);
        for (int t = 0; t < o.T; ++t)
            for (int u = 0; u < o.U; ++u)
                if (!same(v(t, u), o.frac.at(l)[u][t])) fail(format("fraction of {} unit {} step {}", l, u, t));
    }
    check(throws([&] { m.GetHydroUnitValues("ground:nothing"); }), "values of an unknown label");
    check(throws([&] { m.GetHydroUnitValues(labels[0].substr(1)); }), "values of a truncated label");
    check(throws([&] { m.GetHydroUnitFractions("nothing"); }), "fractions of an unknown label");
    auto ids = m.GetHydroUnitIds();
    axd areas = m.GetHydroUnitAreas();
    for (size_t u = 0; u < r.s.units.size(); ++u) check(ids[u] == r.s.units[u].id && areas[u] == r.s.units[u].area, "identifiers and areas");
    axd q = m.GetOutletDischarge();
    double sum = 0, scale = 1;
    for (int t = 0; t < o.T; ++t) {
        check(same(q[t], o.s("outlet")[t]), "discharge at the outlet");
        sum += q[t];
    }
    near(o.totalOutlet, sum, 1e-9, 1e-9, "total discharge");
    double et = 0;
    for (int t = 0; t < o.T; ++t) et += evap(r, o, t);
    near(o.totalEt, et, 1e-9, 1e-9, "total evapotranspiration");
    // Storage changes: from the initial values to the last ones.
    Logger* lg = m.GetLogger();
    double area = 0;
    for (double a : o.areas) area += a;
    for (string what : {"water", "snow", "ice"}) {
        double want = 0;
        string suffix = ":" + what + "_content";
        auto initial = what;
        for (auto& [l, v] : o.hu) {
            if (!l.ends_with(suffix)) continue;
            for (int u = 0; u < o.U; ++u) {
                if (std::isnan(v[u][o.T - 1])) continue;
                want += v[u][o.T - 1] * labelWeight(o, l, u, o.T - 1) * o.areas[u] / area;
                scale = std::max(scale, std::abs(v[u][o.T - 1]));
            }
        }
        for (auto& [l, v] : o.sub)
            if (l.ends_with(suffix)) want += v[o.T - 1];
        near(lg->GetHydroUnitsFinalStorageState(suffix) + lg->GetSubBasinFinalStorageState(suffix), want, 1e-9, 1e-9, "final storage " + what);
        double change = what == "water" ? o.dWater : what == "snow" ? o.dSnow : o.dIce;
        near(change, want - lg->GetHydroUnitsInitialStorageState(suffix) - lg->GetSubBasinInitialStorageState(suffix), 1e-9, 1e-9 * scale, "storage change " + what);
    }
    // The initial storage: the declared one, or that at the end of the spin-up.
    if (plan.evo.empty() || r.s.spinupDays == 0) {  // the tables of an evolution set the ice
        int n = std::min(r.s.steps, static_cast<int>(r.s.spinupDays / r.s.dtDays() + 1e-6));
        map<string, double> want;
        if (n == 0) {
            for (auto& i : r.init) {
                string suffix = i.type == ContentType::Water ? ":water_content" : i.type == ContentType::Snow ? ":snow_content" : ":ice_content";
                want[suffix] += i.unit < 0 ? i.value : i.value * labelWeight(o, i.brick + ":", i.unit, 0) * o.areas[i.unit] / area;
            }
        } else {
            Spec s = r.s;
            s.spinupDays = 0;
            Out warm = simulate(s);
            for (string suffix : {":water_content", ":snow_content", ":ice_content"}) {
                for (auto& [l, v] : warm.hu)
                    for (int u = 0; u < o.U && l.ends_with(suffix); ++u)
                        if (!std::isnan(v[u][n - 1])) want[suffix] += v[u][n - 1] * labelWeight(o, l, u, 0) * o.areas[u] / area;
                for (auto& [l, v] : warm.sub)
                    if (l.ends_with(suffix)) want[suffix] += v[n - 1];
            }
        }
        for (string suffix : {":water_content", ":snow_content", ":ice_content"}) {
            if (suffix == ":ice_content" && (!plan.evo.empty() || r.c.infiniteIce)) continue;
            near(lg->GetHydroUnitsInitialStorageState(suffix) + lg->GetSubBasinInitialStorageState(suffix), want[suffix], 1e-9, 1e-7,
                 "initial storage " + suffix);
        }
        if (n > 0) c.tag("spin-up");
    }
    c.nontrivial = o.totalOutlet > 0;
    tags(c, r);
}

// Recording part of the items gives the same values for these.
static void choice(Gen& g, Case& c) {
    RM r = genModel(g, options());
    bool two = r.c.family != "gr" && g.chance(1, 4);
    if (two) twoStructures(g, r.s);
    Plan plan;
    if (g.flip()) plan = genPlan(g, r);
    c.desc << showRM(r) << plan.show();
    auto run = [&](const Spec& s, double& totalQ) {
        Owned keep;
        Sim sim(s);
        sim.build();
        sim.attach();
        if (s.beforeRun) s.beforeRun(*sim.model);
        sim.spec.beforeRun = nullptr;
        if (!install(plan, s, *sim.model, keep)) fail("a valid action is refused");
        sim.run();
        totalQ = sim.model->GetTotalOutletDischarge();
        return read(sim);
    };
    double q1, q2;
    Out a = run(r.s, q1);
    // A random part of the items.
    vector<string> hu, sub;
    int odds = g.in(1, 4);
    for (auto& [l, v] : a.hu)
        if (g.chance(1, odds)) hu.push_back(l);
    for (auto& [l, v] : a.sub)
        if (l != "outlet" && g.chance(1, odds)) sub.push_back(l);
    g.shuffle(hu);
    g.shuffle(sub);
    bool fractions = g.flip();
    Spec s = r.s;
    s.logAll = false;
    auto inner = r.s.structure;
    s.structure = [inner, hu, sub, fractions, two](SettingsModel& m) {
        inner(m);
        for (int k = 1; k <= (two ? 2 : 1); ++k) {
            m.SelectStructure(k);
            for (int basin = 0; basin < 2; ++basin)
                for (auto& l : basin ? sub : hu) {
                    size_t p = l.find(':'), q = l.rfind(':');
                    string brick = l.substr(0, p), item = l.substr(q + 1);
                    bool found = basin ? m.SelectSubBasinBrickIfFound(brick) : m.SelectHydroUnitBrickIfFound(brick);
                    if (found && p == q) {
                        m.AddBrickLogging(item);
                    } else if (found) {
                        m.SelectProcess(l.substr(p + 1, q - p - 1));
                        m.AddProcessLogging(item);
                    } else if (basin ? m.SelectSubBasinSplitterIfFound(brick) : m.SelectHydroUnitSplitterIfFound(brick)) {
                        m.AddSplitterLogging(item);
                    } else if (!two) {
                        fail("harness: item " + l);
                    }
                }
        }
        if (fractions) m.SetRecordFractions(true);
    };
    c.desc << "items:";
    for (auto& l : hu) c.desc << " " << l;
    for (auto& l : sub) c.desc << " " << l;
    c.desc << (fractions ? " and the fractions\n" : "\n");
    Out b = run(s, q2);
    check(b.hu.size() == hu.size() && b.sub.size() == sub.size() + 1, format("{} and {} items recorded instead of {} and {}", b.hu.size(), b.sub.size(), hu.size(), sub.size() + 1));
    auto cmp = [&](const vector<double>& x, const vector<double>& y, const string& what) {
        check(x.size() == y.size(), "length of " + what);
        for (size_t i = 0; i < x.size(); ++i)
            if (!same(x[i], y[i])) fail(format("{} at step {}: {:.17g} instead of {:.17g}", what, i, x[i], y[i]));
    };
    cmp(b.time, a.time, "time");
    for (auto& [l, v] : b.sub) cmp(v, a.s(l), l);
    for (auto& [l, v] : b.hu)
        for (int u = 0; u < b.U; ++u) cmp(v[u], a.h(l, u), format("{} unit {}", l, u));
    check(fractions ? b.frac.size() == a.frac.size() : b.frac.empty(), "record of the fractions");
    for (auto& [l, v] : b.frac)
        for (int u = 0; u < b.U; ++u) cmp(v[u], a.frac.at(l)[u], format("fraction of {} unit {}", l, u));
    if (two) c.tag("two structures");
    c.tag(hu.empty() && sub.empty() ? "outlet only" : "several items");
    c.nontrivial = a.totalOutlet > 0;
}

// The text file: the same numbers again.
static void csv(Gen& g, Case& c) {
    int T = g.in(0, 30), n = g.in(0, 6);
    axd time(T);
    double start = g.in(20000, 80000) + g.in(0, 1439) / 1440.0, dt = g.pick<double>({1.0, 1 / 24.0, 1 / 1440.0, 0.125, 3.0});
    for (int t = 0; t < T; ++t) time[t] = start + t * dt;
    vecStr labels;
    vecAxd values;
    for (int i = 0; i < n; ++i) {
        labels.push_back(g.pick<string>({"outlet", "slow-reservoir:outflow:output", "a b", "x"}) + format("{}", i));
        axd v(T);
        for (int t = 0; t < T; ++t)
            v[t] = g.chance(1, 8) ? g.pick<double>({0.0, -1.0, 1e-300, 1e300, std::nan(""), HUGE_VAL, -HUGE_VAL, 123456789.25}) : (g.flip() ? -1 : 1) * g.logreal(1e-9, 1e9, 1000000);
        values.push_back(v);
    }
    c.desc << format("{} steps of {} days from {:.17g}, {} series\n", T, dt, start, n);
    for (auto& v : values) c.desc << show(vector<double>(v.data(), v.data() + v.size()), 6) << "\n";
    Dir d;
    ResultWriter w;
    check(w.WriteCSV(d.path, time, labels, values), "the file is not written");
    check(!w.WriteCSV(d.path + "/missing", time, labels, values), "written in a missing directory");
    std::ifstream in(d.path + "/results.csv");
    auto cells = [](const string& line) {
        vector<string> r{""};
        for (char x : line)
            if (x == ',')
                r.emplace_back();
            else
                r.back() += x;
        return r;
    };
    string line;
    check(static_cast<bool>(std::getline(in, line)), "no header");
    auto head = cells(line);
    check(static_cast<int>(head.size()) == n + 1 && head[0] == "time", "header: " + line);
    for (int i = 0; i < n; ++i) check(head[i + 1] == labels[i], "label in the header: " + line);
    auto same = [&](const string& s, double want) {
        char* end;
        double got = strtod(s.c_str(), &end);
        check(!s.empty() && *end == 0, "not a number: " + s);
        if (!(got == want || (std::isnan(got) && std::isnan(want)))) fail(format("{} written for {:.17g}", s, want));
    };
    for (int t = 0; t < T; ++t) {
        check(static_cast<bool>(std::getline(in, line)), "missing line");
        auto row = cells(line);
        check(static_cast<int>(row.size()) == n + 1, "cells in a line: " + line);
        same(row[0], time[t]);
        for (int i = 0; i < n; ++i) same(row[i + 1], values[i][t]);
    }
    check(!std::getline(in, line), "additional lines");
    c.nontrivial = T > 0 && n > 0;
}

const std::vector<pbt::Sub>& pbt::subs() {
    static const std::vector<Sub> s = {
        {"file", file, 12000, 250000, "results files of random models read back with the NetCDF library; non-trivial: some discharge"},
        {"accessors", accessors, 40000, 800000, "accessors and totals against the record; non-trivial: some discharge"},
        {"choice", choice, 40000, 800000, "a random part of the items recorded, against all of them; non-trivial: some discharge"},
        {"csv", csv, 20000, 400000, "series written as text and parsed back; non-trivial: at least one value"}};
    return s;
}
