// Configurations and inputs that cannot be simulated: one fault in a valid configuration.
#pragma once
#include "ActionGlacierSnowToIceTransformation.h"
#include "ActionLandCoverChange.h"
#include "actions.h"

namespace faults {
using namespace act;

struct Given {
    string var;
    vector<double> time;
    vector<int> ids;
    vector<vector<double>> v;  // [time][unit]
    int lead = 0, trail = 0;
};
struct Attempt {
    Spec s;
    string start, end;
    vector<std::function<void(SettingsModel&)>> before, after;
    vector<std::function<void(SettingsBasin&)>> basin;
    vector<std::function<void(ModelHydro&)>> model;
    vector<Given> forcing;
    bool refused = false;  // set by a fault that checks a refusal itself
    vector<std::shared_ptr<Action>> actions;
    RM r;

    explicit Attempt(const RM& given)
        : s(given.s),
          r(given) {
        double a = mjdOf(s.y, s.m, s.d);
        bool withTime = s.dtUnit != "day";
        start = dateStr(a, withTime);
        end = dateStr(a + (s.steps - 1) * s.dtDays(), withTime);
        for (auto& f : s.forcing) {
            Given x{f.var, {}, {}, {}, f.lead, f.trail};
            int n = s.steps + f.lead + f.trail;
            for (auto& u : s.units) x.ids.push_back(u.id);
            for (int t = 0; t < n; ++t) {
                x.time.push_back(a + (t - f.lead) * s.dtDays());
                vector<double> row;
                for (size_t u = 0; u < s.units.size(); ++u) row.push_back(f.v[f.v.size() == 1 ? 0 : u][t]);
                x.v.push_back(row);
            }
            forcing.push_back(x);
        }
    }
    static bool giveTo(ModelHydro& model, const Given& f) {
        axd time(f.time.size());
        axi ids(f.ids.size());
        for (size_t t = 0; t < f.time.size(); ++t) time[t] = f.time[t];
        for (size_t u = 0; u < f.ids.size(); ++u) ids[u] = f.ids[u];
        size_t cols = f.v.empty() ? 0 : f.v[0].size();
        axxd data(f.v.size(), cols);
        for (size_t t = 0; t < f.v.size(); ++t)
            for (size_t u = 0; u < cols; ++u) data(t, u) = f.v[t][u];
        return model.CreateTimeSeries(f.var, time, ids, data);
    }
    // Where it was refused; empty when it ran to the end.
    string run() {
        try {
            SettingsModel m;
            SettingsBasin b;
            m.SetLogAll(s.logAll);
            m.SetSolver(s.solver);
            m.SetTimer(start, end, s.dt, s.dtUnit);
            if (s.spinupDays != 0) m.SetSpinupDays(s.spinupDays);
            for (auto& f : before) f(m);
            s.structure(m);
            for (auto& p : s.params)
                if (!m.SetParameterValue(p.comp, p.name, static_cast<float>(p.value))) return "parameter";
            for (auto& f : after) f(m);
            for (auto& u : s.units) {
                b.AddHydroUnit(u.id, u.area, u.elev);
                b.AddHydroUnitPropertyDouble("slope", u.slope, "m/m");
                b.AddHydroUnitPropertyDouble("elevation", u.elev, "m");
                b.AddHydroUnitPropertyString("aspect_class", u.aspect);
                for (auto& x : u.covers) b.AddLandCover(x.name, x.type, x.frac);
            }
            for (auto& l : s.laterals) b.AddLateralConnection(l.from, l.to, l.frac, l.type);
            if (s.extraBasin) s.extraBasin(b);
            for (auto& f : basin) f(b);
            ModelHydro model;
            auto r = model.InitializeWithBasin(m, b);
            if (!r) return "initialization: " + r.error();
            for (auto& f : forcing) {
                if (!giveTo(model, f)) return "forcing " + f.var;
            }
            if (!model.AttachTimeSeriesToHydroUnits()) return "attachment";
            for (auto& f : this->model) f(model);
            if (refused) return "fault refused";
            if (!model.ForcingLoaded()) return "no forcing";
            if (!model.IsValid()) return "validity";
            auto q = model.Run();
            if (!q) return "run: " + q.error();
            return "";
        } catch (const Fail&) {
            throw;
        } catch (const std::exception& e) {
            return string("exception: ") + e.what();
        }
    }
};

struct Fault {
    string name;
    std::function<bool(Gen&, Attempt&)> apply;  // false when it does not apply to this configuration
};
inline vector<Fault> list() {
    vector<Fault> l;
    auto add = [&](const string& n, std::function<bool(Gen&, Attempt&)> f) { l.push_back({n, std::move(f)}); };
    auto after = [&](const string& n, std::function<void(Gen&, SettingsModel&)> f) {
        l.push_back({n, [f](Gen& g, Attempt& a) {
                         a.after.push_back([f, &g](SettingsModel& m) { f(g, m); });
                         return true;
                     }});
    };
    // --- settings
    add("unknown solver", [](Gen& g, Attempt& a) { return a.s.solver = g.pick<string>({"", "euler", "rk5", "heun explicit", "none"}), true; });
    add("end before the start", [](Gen& g, Attempt& a) {
        double z = mjdOf(a.s.y, a.s.m, a.s.d);
        a.end = dateStr(z - g.in(1, 400), a.s.dtUnit != "day");
        return true;
    });
    add("date that is none", [](Gen& g, Attempt& a) {
        (g.flip() ? a.start : a.end) = g.pick<string>({"", "yesterday", "2020-13-01", "2020-02-30", "2020-00-10", "2020-01", "2020-01-01-01", "20x0-01-01"});
        return true;
    });
    add("time step of zero or less", [](Gen& g, Attempt& a) { return a.s.dt = -g.in(0, 3), true; });
    add("unknown unit of time", [](Gen& g, Attempt& a) { return a.s.dtUnit = g.pick<string>({"", "week", "days?", "second", "month"}), true; });
    add("negative spin-up", [](Gen& g, Attempt& a) { return a.s.spinupDays = -g.in(1, 100), true; });
    after("unknown brick", [](Gen& g, SettingsModel& m) {
        string t = g.pick<string>({"", "lake", "storage2", "Snowpack", "glacier?"});
        g.flip() ? m.AddHydroUnitBrick("extra", t) : m.AddSubBasinBrick("extra", t);
    });
    after("unknown process", [](Gen& g, SettingsModel& m) {
        m.AddHydroUnitBrick("extra", "storage");
        m.AddBrickProcess("p", g.pick<string>({"", "outflow", "outflow:quadratic", "melt", "et:", "outflow:lineer"}), "outlet");
    });
    after("unknown target", [](Gen& g, SettingsModel& m) {
        g.flip() ? m.AddHydroUnitBrick("extra", "storage") : m.AddSubBasinBrick("extra", "storage");
        m.AddBrickProcess("p", g.pick<string>({"outflow:linear", "outflow:direct", "percolation:constant"}), g.pick<string>({"nowhere", "extra2", "Outlet", "ground "}));
    });
    after("process without a target", [](Gen& g, SettingsModel& m) {
        g.flip() ? m.AddHydroUnitBrick("extra", "storage") : m.AddSubBasinBrick("extra", "storage");
        m.AddBrickProcess("p", g.pick<string>({"outflow:linear", "outflow:direct"}));
    });
    after("component defined twice", [](Gen& g, SettingsModel& m) {
        bool unit = g.flip();
        for (int i = 0; i < 2; ++i) {
            unit ? m.AddHydroUnitBrick("extra", "storage") : m.AddSubBasinBrick("extra", "storage");
            m.AddBrickProcess("p", "outflow:linear", "outlet");
            m.AddProcessParameter("response_factor", 0.1f);
        }
    });
    after("process defined twice", [](Gen& g, SettingsModel& m) {
        g.flip() ? m.AddHydroUnitBrick("extra", "storage") : m.AddSubBasinBrick("extra", "storage");
        for (int i = 0; i < 2; ++i) {
            m.AddBrickProcess("p", "outflow:linear", "outlet");
            m.AddProcessParameter("response_factor", 0.1f);
        }
    });
    after("splitter defined twice", [](Gen&, SettingsModel& m) {
        for (int i = 0; i < 2; ++i) {
            m.AddHydroUnitSplitter("extra", "rain");
            m.AddSplitterForcing("precipitation");
            m.AddSplitterOutput("outlet");
        }
    });
    after("unknown splitter", [](Gen& g, SettingsModel& m) {
        string t = g.pick<string>({"", "snow_rain", "snow_rain:x", "multi_fluxes2"});
        g.flip() ? m.AddHydroUnitSplitter("extra", t) : m.AddSubBasinSplitter("extra", t);
        m.AddSplitterOutput("outlet");
    });
    after("splitter to an unknown target", [](Gen& g, SettingsModel& m) {
        bool both = g.flip();
        m.AddHydroUnitSplitter("extra", both ? "snow_rain:linear" : "rain");
        m.AddSplitterForcing("precipitation");
        if (both) {
            m.AddSplitterForcing("temperature");
            m.AddSplitterParameter("transition_start", 0.0f);
            m.AddSplitterParameter("transition_end", 2.0f);
            if (g.flip()) m.AddSplitterOutput("outlet");
        }
        m.AddSplitterOutput(g.pick<string>({"nowhere", "", "Outlet"}));
        if (both) m.AddSplitterOutput("outlet");
    });
    after("splitter without a target", [](Gen& g, SettingsModel& m) {
        bool both = g.flip();
        m.AddHydroUnitSplitter("extra", both ? "snow_rain:linear" : "rain");
        m.AddSplitterForcing("precipitation");
        if (both) {
            m.AddSplitterForcing("temperature");
            m.AddSplitterParameter("transition_start", 0.0f);
            m.AddSplitterParameter("transition_end", 2.0f);
            if (g.flip()) m.AddSplitterOutput("outlet");  // the snow has nowhere to go
        }
    });
    after("unknown forcing", [](Gen& g, SettingsModel& m) {
        m.AddHydroUnitBrick("extra", "storage");
        string f = g.pick<string>({"", "humidity", "precip", "Temperature "});
        if (g.flip()) {
            m.AddBrickForcing(f);
        } else {
            m.AddBrickProcess("p", "outflow:linear", "outlet");
            m.AddProcessForcing(f);
        }
    });
    add("parameter of an unknown component", [](Gen& g, Attempt& a) {
        a.s.params.push_back({g.pick<string>({"nobody", "", "Ground", "ground,nobody", "nobody, ground"}), "response_factor", 0.1});
        return true;
    });
    add("unknown parameter", [](Gen& g, Attempt& a) {
        if (a.s.params.empty()) return false;
        string comp = g.pick(a.s.params).comp;
        a.s.params.push_back({comp, g.pick<string>({"", "responsefactor", "k?", "degree_day_factor2"}), 0.1});
        return true;
    });
    after("unknown item to record", [](Gen& g, SettingsModel& m) {
        bool unit = g.flip();
        unit ? m.AddHydroUnitBrick("extra", "storage") : m.AddSubBasinBrick("extra", "storage");
        switch (g.below(3)) {
            case 0:
                m.AddBrickLogging(g.pick<string>({"contents", "level"}));
                m.AddBrickProcess("p", "outflow:linear", "outlet");
                m.AddProcessParameter("response_factor", 0.1f);
                return;
            case 1:
                m.AddBrickProcess("p", "outflow:linear", "outlet");
                m.AddProcessParameter("response_factor", 0.1f);
                return m.AddProcessLogging(g.pick<string>({"flux", "outputs"}));
            default:
                m.AddBrickProcess("p", "outflow:linear", "outlet");
                m.AddProcessParameter("response_factor", 0.1f);
                return m.AddLoggingToItem(g.pick<string>({"inlet", "outlet2"}));
        }
    });
    // --- basin
    add("no unit", [](Gen&, Attempt& a) {
        a.basin.push_back([](SettingsBasin& b) { b.Clear(); });
        return true;
    });
    add("area of zero or less", [](Gen& g, Attempt& a) { return a.s.units[g.below(a.s.units.size())].area = g.pick<double>({0.0, -1.0, -1e6, std::nan("")}), true; });
    add("fractions that do not sum to one", [](Gen& g, Attempt& a) {
        auto& u = a.s.units[g.below(a.s.units.size())];
        if (u.covers.empty()) return false;
        auto& x = u.covers[g.below(u.covers.size())];
        x.frac = g.chance(1, 6) ? std::nan("") : x.frac + g.pick<double>({0.01, 0.5, 1, -0.01, -0.5, 0.0005, 10});
        return true;
    });
    add("fraction out of range", [](Gen& g, Attempt& a) {
        auto& u = a.s.units[g.below(a.s.units.size())];
        if (u.covers.size() < 2) return false;
        double d = g.real(1.01, 3, 100);
        u.covers[0].frac += d;
        u.covers[1].frac -= d;
        return true;
    });
    add("unknown cover", [](Gen& g, Attempt& a) {
        auto& u = a.s.units[g.below(a.s.units.size())];
        bool any = false;
        for (auto& x : u.covers)
            if (x.frac > 0.001 && !any) {
                any = true;
                x.name = g.pick<string>({"city", "", "Ground", "groundwater"});
            }
        return any;
    });
    add("cover that is another component", [](Gen& g, Attempt& a) {
        auto& u = a.s.units[g.below(a.s.units.size())];
        a.after.push_back([](SettingsModel& m) {
            m.AddHydroUnitBrick("extra", "storage");
            m.AddBrickProcess("p", "outflow:linear", "outlet");
        });
        u.covers.push_back({"extra", "generic_land_cover", g.real(0, 1, 4)});
        return true;
    });
    add("connection with an unknown unit", [](Gen& g, Attempt& a) {
        int id = a.s.units[0].id, other = g.pick<int>({-1, 0, 5000});
        a.s.laterals.push_back(g.flip() ? Lateral{id, other, 1, "gravity"} : Lateral{other, id, 1, "gravity"});
        return true;
    });
    add("connection with a fraction out of range", [](Gen& g, Attempt& a) {
        if (a.s.units.size() < 2) return false;
        a.s.laterals.push_back({a.s.units[0].id, a.s.units[1].id, g.pick<double>({0.0, -0.5, 1.5, std::nan("")}), "gravity"});
        return true;
    });
    add("missing or unusable slope", [](Gen& g, Attempt& a) {
        if (a.s.laterals.empty()) return false;
        int mode = g.in(0, 1);
        Spec s = a.s;
        a.basin.push_back([s, mode](SettingsBasin& b) {
            b.Clear();
            for (auto& u : s.units) {
                b.AddHydroUnit(u.id, u.area, u.elev);
                b.AddHydroUnitPropertyString("aspect_class", u.aspect);
                b.AddHydroUnitPropertyDouble("elevation", u.elev, "m");
                if (mode == 1) b.AddHydroUnitPropertyDouble("slope", u.slope, "gradians");
                for (auto& v : u.covers) b.AddLandCover(v.name, v.type, v.frac);
            }
            for (auto& l : s.laterals) b.AddLateralConnection(l.from, l.to, l.frac, l.type);
        });
        return true;
    });
    // --- forcing
    add("missing variable", [](Gen& g, Attempt& a) {
        // Precipitation is always used.
        for (size_t i = 0; i < a.forcing.size(); ++i)
            if (a.forcing[i].var == "precipitation") return a.forcing.erase(a.forcing.begin() + static_cast<long>(i)), true;
        (void)g;
        return false;
    });
    add("no forcing", [](Gen&, Attempt& a) { return a.forcing.clear(), true; });
    auto series = [&](const string& n, std::function<bool(Gen&, Given&, Attempt&)> f) {
        l.push_back({n, [f](Gen& g, Attempt& a) { return f(g, a.forcing[g.below(a.forcing.size())], a); }});
    };
    series("unit without data", [](Gen& g, Given& f, Attempt&) {
        if (f.var != "precipitation") return false;
        size_t k = g.below(f.ids.size());
        if (f.ids.size() > 1) {
            f.ids.erase(f.ids.begin() + static_cast<long>(k));
            for (auto& r : f.v)
                if (k < r.size()) r.erase(r.begin() + static_cast<long>(k));
        } else {
            f.ids[0] += 1000;
        }
        return true;
    });
    series("data starting late", [](Gen& g, Given& f, Attempt&) {
        int n = static_cast<int>(f.time.size());
        if (n < 4) return false;
        int k = f.lead + g.in(1, 2);
        if (n - k < 2) return false;
        f.time.erase(f.time.begin(), f.time.begin() + k);
        f.v.erase(f.v.begin(), f.v.begin() + k);
        return true;
    });
    series("data ending early", [](Gen& g, Given& f, Attempt&) {
        int n = static_cast<int>(f.time.size());
        int k = f.trail + g.in(1, 2);
        if (n - k < 2) return false;
        f.time.resize(n - k);
        f.v.resize(n - k);
        return true;
    });
    series("dates and data of different lengths", [](Gen& g, Given& f, Attempt&) {
        if (g.flip())
            f.v.push_back(f.v.back());
        else
            f.v.pop_back();
        return true;
    });
    series("units and data of different numbers", [](Gen& g, Given& f, Attempt&) {
        if (g.flip())
            for (auto& r : f.v) r.push_back(1);
        else
            f.ids.push_back(999);
        return true;
    });
    series("another time step", [](Gen& g, Given& f, Attempt& a) {
        double factor = g.pick<double>({2.0, 3.0});
        double t0 = f.time[0];
        for (auto& t : f.time) t = t0 + (t - t0) * factor;
        (void)a;
        return true;
    });
    series("gap in the dates", [](Gen& g, Given& f, Attempt& a) {
        size_t k = 1 + g.below(f.time.size() - 1);
        for (size_t i = k; i < f.time.size(); ++i) f.time[i] += a.s.dtDays();
        return f.time.size() > 2;
    });
    series("repeated variable", [](Gen&, Given& f, Attempt& a) { return a.forcing.push_back(Given(f)), true; });
    series("unknown variable", [](Gen& g, Given& f, Attempt&) { return f.var = g.pick<string>({"", "precip", "humidity", "t_mean"}), true; });
    series("repeated unit", [](Gen&, Given& f, Attempt&) {
        if (f.ids.size() < 2) return false;
        f.ids[1] = f.ids[0];
        return true;
    });
    // --- actions
    auto change = [&](const string& n, std::function<bool(Gen&, Attempt&, int&, string&, double&)> f) {
        l.push_back({n, [f](Gen& g, Attempt& a) {
                         if (a.s.steps < 3 || a.s.units[0].covers.size() < 2) return false;
                         int id = a.s.units[0].id;
                         string cover = a.s.units[0].covers[1].name;
                         double area = a.s.units[0].covers[1].frac * a.s.units[0].area;
                         if (!f(g, a, id, cover, area)) return false;
                         auto c = std::make_shared<ActionLandCoverChange>();
                         c->AddChange(mjdOf(a.s.y, a.s.m, a.s.d) + a.s.dtDays(), id, cover, area);
                         a.actions.push_back(c);
                         a.model.push_back([&a, c](ModelHydro& m) {
                             if (!m.AddAction(c.get())) a.refused = true;
                         });
                         return true;
                     }});
    };
    change("change of an unknown unit", [](Gen& g, Attempt&, int& id, string&, double&) { return id = g.pick<int>({-1, 0, 9999}), true; });
    change("change of an unknown cover", [](Gen& g, Attempt&, int&, string& c, double&) { return c = g.pick<string>({"", "lake", "Glacier"}), true; });
    change("change to an area out of range", [](Gen& g, Attempt& a, int&, string&, double& v) { return v = a.s.units[0].area * g.pick<double>({-0.5, 1.5, 100.0, std::nan("")}), true; });
    auto evolution = [&](const string& n, std::function<bool(Gen&, Attempt&, Evolution&)> f) {
        l.push_back({n, [f](Gen& g, Attempt& a) {
                         if (a.r.c.glaciers.empty() || a.r.c.infiniteIce || a.s.steps < 3) return false;
                         Evolution e = genEvolution(g, a.r, g.pick(a.r.c.glaciers), g.flip());
                         int y, d;
                         civilFrom(static_cast<long>(startOf(a.s)) - 40587 + 1, y, e.month, d);
                         if (!f(g, a, e)) return false;
                         int n = static_cast<int>(e.units.size()), R = e.rows();
                         axi ids(n);
                         for (int i = 0; i < n; ++i) ids[i] = e.units[i] < 0 ? 9999 : a.s.units[e.units[i]].id;
                         axxd A(R, e.area[0].size()), V(static_cast<int>(e.volume.size()), static_cast<int>(e.volume[0].size()));
                         for (int q = 0; q < A.rows(); ++q)
                             for (int i = 0; i < A.cols(); ++i) A(q, i) = e.area[q][i];
                         for (int q = 0; q < V.rows(); ++q)
                             for (int i = 0; i < V.cols(); ++i) V(q, i) = e.volume[q][i];
                         a.model.push_back([&a, e, ids, A, V](ModelHydro& m) {
                             auto give = [&](auto x) {
                                 a.actions.push_back(x);
                                 x->AddLookupTables(e.month, e.cover, ids, A, V);
                                 if (!m.AddAction(x.get())) a.refused = true;
                             };
                             if (e.deltaH)
                                 give(std::make_shared<ActionGlacierEvolutionDeltaH>());
                             else
                                 give(std::make_shared<ActionGlacierEvolutionAreaScaling>());
                         });
                         return true;
                     }});
    };
    evolution("evolution of an unknown unit", [](Gen& g, Attempt&, Evolution& e) { return e.units[g.below(e.units.size())] = -1, true; });
    evolution("evolution of an unknown cover", [](Gen& g, Attempt&, Evolution& e) { return e.cover = g.pick<string>({"", "icefield", "Glacier"}), true; });
    evolution("lookup tables of other dimensions", [](Gen& g, Attempt&, Evolution& e) {
        switch (g.below(5)) {
            case 0: return e.volume.pop_back(), !e.volume.empty();
            case 1: return e.volume.push_back(e.volume.back()), true;
            case 2:
                for (auto& r : e.volume) r.push_back(0);
                return true;
            case 3:
                for (auto& r : e.area) r.push_back(0);
                for (auto& r : e.volume) r.push_back(0);
                return true;
            default: return e.units.push_back(e.units[0]), true;
        }
    });
    evolution("lookup tables with invalid values", [](Gen& g, Attempt&, Evolution& e) {
        auto& t = g.flip() ? e.area : e.volume;
        size_t i = g.below(e.units.size()), q = g.below(t.size());
        t[q][i] = g.pick<double>({-1.0, -1e-3, std::nan(""), INFINITY});
        return true;
    });
    evolution("ice volume without area", [](Gen& g, Attempt&, Evolution& e) {
        size_t i = g.below(e.units.size()), q = g.below(static_cast<uint64_t>(e.rows()));
        e.area[q][i] = 0;
        e.volume[q][i] = g.logreal(1, 1e6);
        return true;
    });
    evolution("lookup tables of another initial area", [](Gen& g, Attempt& a, Evolution& e) {
        size_t i = g.below(e.units.size());
        double unit = a.s.units[e.units[i]].area, have = e.area[0][i];
        if (have > 0)
            e.area[0][i] = have * (g.flip() ? 1 - g.logreal(1e-4, 0.9) : 1 + g.logreal(1e-4, 10));
        else
            e.area[0][i] = unit * g.real(1.001, 5, 99);
        return true;
    });
    auto snowIce = [&](const string& n, std::function<string(Gen&, Attempt&)> cover) {
        l.push_back({n, [cover](Gen& g, Attempt& a) {
                         string name = cover(g, a);
                         int y, mo, d;
                         civilFrom(static_cast<long>(startOf(a.s)) - 40587 + 1, y, mo, d);
                         a.model.push_back([&a, name, mo, d](ModelHydro& m) {
                             auto x = std::make_shared<ActionGlacierSnowToIceTransformation>(mo, d, name);
                             a.actions.push_back(x);
                             if (!m.AddAction(x.get())) a.refused = true;
                         });
                         return true;
                     }});
    };
    snowIce("snow to ice of a cover without ice", [](Gen&, Attempt& a) { return a.s.units[0].covers.empty() ? string("soil") : a.s.units[0].covers[0].name; });
    return l;
}

inline const vector<Fault>& allFaults() {
    static const vector<Fault> all = list();
    return all;
}
}  // namespace faults
