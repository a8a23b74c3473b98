// Several model structures in one model: each unit behaves as in a model holding only its structure.
#include <set>

#include "../actions.h"
#include "LandCover.h"
using namespace act;
const char* pbt::propertyId() {
    return "C23";
}

// Give the parameters to one structure only.
static void setHere(SettingsModel& m, int structure, const vector<Param>& params) {
    m.SelectStructure(structure);
    for (auto& p : params) {
        float v = static_cast<float>(p.value);
        if (m.SelectHydroUnitBrickIfFound(p.comp) || m.SelectSubBasinBrickIfFound(p.comp)) {
            if (m.BrickHasParameter(p.name)) {
                m.SetBrickParameterValue(p.name, v);
            } else {
                m.SelectProcessWithParameter(p.name);
                m.SetProcessParameterValue(p.name, v);
            }
        } else if (m.SelectHydroUnitSplitterIfFound(p.comp) || m.SelectSubBasinSplitterIfFound(p.comp)) {
            m.SetSplitterParameterValue(p.name, v);
        } else {
            fail("parameter of an unknown component " + p.comp);
        }
    }
}
static bool allNaN(const vector<double>& v) {
    return std::all_of(v.begin(), v.end(), [](double x) { return std::isnan(x); });
}
static void same(const vector<double>& got, const vector<double>& want, double rel, double abs_, const string& what) {
    check(got.size() == want.size(), what + ": another number of values");
    for (size_t t = 0; t < got.size(); ++t) {
        if (std::isnan(got[t]) && std::isnan(want[t])) continue;
        near(got[t], want[t], rel, abs_, format("{} at step {}", what, t));
    }
}

// Structures of any kind side by side, each unit against a model with its structure only.
static void separate(Gen& g, Case& c) {
    Opt o;
    o.maxUnits = 2;
    o.maxSteps = 30;
    o.glacier = false;
    o.netBasin = false;
    o.subDaily = false;
    int n = g.in(2, 3);
    vector<RM> rs;
    for (int k = 0; k < n; ++k) {
        if (k) {
            o.solvers = {rs[0].s.solver};
            o.minSteps = o.maxSteps = rs[0].s.steps;
        }
        rs.push_back(genModel(g, o));
        tags(c, rs[k]);
    }
    int spin = g.chance(1, 5) ? g.in(1, rs[0].s.steps) : 0;
    for (auto& r : rs) {
        r.s.y = rs[0].s.y;
        r.s.m = rs[0].s.m;
        r.s.d = rs[0].s.d;
        r.s.spinupDays = spin;
    }
    // All the units together, in any order.
    struct Place {
        int k, u;
    };
    vector<Place> order;
    for (int k = 0; k < n; ++k)
        for (size_t u = 0; u < rs[k].s.units.size(); ++u) order.push_back({k, static_cast<int>(u)});
    g.shuffle(order);
    // Snow slides in the order of the units: keep it within a structure.
    for (int k = 0; k < n; ++k) {
        int next = 0;
        for (auto& p : order)
            if (p.k == k && !rs[k].s.laterals.empty()) p.u = next++;
    }
    Spec all = rs[0].s;
    all.units.clear();
    all.laterals.clear();
    all.params.clear();
    all.forcing.clear();
    auto newId = [&](int k, int u) { return 1 + 10 * k + u; };
    for (auto& p : order) {
        Unit un = rs[p.k].s.units[p.u];
        un.id = newId(p.k, p.u);
        un.structure = p.k + 1;
        all.units.push_back(un);
    }
    for (int k = 0; k < n; ++k)
        for (auto& l : rs[k].s.laterals) {
            auto at = [&](int id) {
                for (size_t u = 0; u < rs[k].s.units.size(); ++u)
                    if (rs[k].s.units[u].id == id) return newId(k, static_cast<int>(u));
                return -1;
            };
            all.laterals.push_back({at(l.from), at(l.to), l.frac, l.type});
        }
    std::set<string> vars;
    for (auto& r : rs)
        for (auto& f : r.s.forcing) vars.insert(f.var);
    for (auto& v : vars) {
        Forcing1 f{v, {}};
        for (auto& p : order) {
            vector<double> row(all.steps, 1.0);
            for (auto& q : rs[p.k].s.forcing)
                if (q.var == v) row = q.v.size() == 1 ? q.v[0] : q.v[p.u];
            f.v.push_back(row);
        }
        all.forcing.push_back(f);
    }
    vector<Cfg> cfgs;
    vector<vector<Param>> params;
    for (auto& r : rs) {
        cfgs.push_back(r.c);
        params.push_back(r.s.params);
        c.desc << showRM(r);
    }
    all.structure = [cfgs, params](SettingsModel& m) {
        for (size_t k = 0; k < cfgs.size(); ++k) {
            if (k) check(m.AddStructure() == static_cast<int>(k) + 1, "identifier of an added structure");
            rm::build(m, cfgs[k]);
        }
        for (size_t k = 0; k < cfgs.size(); ++k) setHere(m, static_cast<int>(k) + 1, params[k]);
    };
    all.beforeRun = [&](ModelHydro& m) {
        for (size_t i = 0; i < order.size(); ++i)
            for (auto& in : rs[order[i].k].init)
                if (in.unit == order[i].u) m.GetSubBasin()->GetHydroUnit(static_cast<int>(i))->GetBrick(in.brick)->UpdateContent(in.value, in.type);
        m.SaveAsInitialState();
    };
    for (size_t i = 0; i < order.size(); ++i) c.desc << format("unit id={}: structure {} unit#{}\n", all.units[i].id, order[i].k + 1, order[i].u);
    Out got = simulate(all);
    double A = 0;
    for (auto& u : all.units) A += u.area;
    vector<double> outlet(all.steps, 0.0), big(1, 0.0);
    double q = 0, et = 0, w = 0, s = 0, scale = 0;
    bool water = false, absent = false;
    std::set<string> seen, seenFrac;
    for (int k = 0; k < n; ++k) {
        Out one = simulate(rs[k].s);
        // Fluxes to the outlet are recorded for the basin: weighted by the share of the unit.
        std::set<string> toOutlet;
        SettingsModel m;
        rm::build(m, rs[k].c);
        for (int i = 0; i < m.GetHydroUnitBrickCount(); ++i)
            for (auto& p : m.GetHydroUnitBrickSettings(i).processes)
                for (auto& x : p.outputs)
                    if (x.target == "outlet") toOutlet.insert(m.GetHydroUnitBrickSettings(i).name + ":" + p.name + ":output");
        double Ak = 0;
        for (auto& u : rs[k].s.units) Ak += u.area;
        for (int t = 0; t < all.steps; ++t) outlet[t] += one.s("outlet")[t] * Ak / A;
        q += one.totalOutlet * Ak / A;
        et += one.totalEt * Ak / A;
        w += one.dWater * Ak / A;
        s += one.dSnow * Ak / A;
        scale += (std::fabs(one.totalOutlet) + std::fabs(one.totalEt) + std::fabs(one.dWater) + std::fabs(one.dSnow)) * Ak / A;
        for (size_t i = 0; i < order.size(); ++i) {
            if (order[i].k != k) continue;
            string where = format(" of unit {} (structure {})", all.units[i].id, k + 1);
            for (auto& [l, v] : one.hu) {
                check(got.hasH(l), "missing item " + l);
                seen.insert(l);
                auto expected = v[order[i].u];
                if (toOutlet.count(l))
                    for (double& x : expected) x *= Ak / A;
                same(got.h(l, static_cast<int>(i)), expected, 1e-9, 1e-9, l + where);
                for (double x : v[order[i].u]) water |= x > 0;
            }
            for (auto& [l, v] : got.hu)
                if (!one.hasH(l)) {
                    absent = true;
                    check(allNaN(v[i]), format("{}{} has values although its structure does not have this item", l, where));
                }
            for (auto& [l, v] : one.frac) {
                check(got.frac.count(l) > 0, "missing fraction of " + l);
                seenFrac.insert(l);
                same(got.frac.at(l)[i], v[order[i].u], 1e-12, 0, "fraction of " + l + where);
            }
            for (auto& [l, v] : got.frac)
                if (!one.frac.count(l)) check(allNaN(v[i]), format("fraction of {}{} has values although its structure does not have this cover", l, where));
        }
    }
    for (auto& [l, v] : got.hu) check(seen.count(l) > 0, "item of no structure " + l);
    double top = 0;
    for (double x : outlet) top = std::max(top, std::fabs(x));
    same(got.s("outlet"), outlet, 1e-9, 1e-9 * (1 + top), "outlet");
    double tol = 1e-9 * (1 + scale);
    near(got.totalOutlet, q, 1e-9, tol, "total outlet discharge");
    near(got.totalEt, et, 1e-9, tol, "total evapotranspiration");
    near(got.dWater, w, 1e-9, tol, "total water storage change");
    near(got.dSnow, s, 1e-9, tol, "total snow storage change");
    near(got.dIce, 0, 0, 1e-9, "total glacier storage change");
    c.nontrivial = water && absent;
}

// Structures lacking some covers, chosen for each unit from its covers, against a model with every cover in every unit.
static void lacking(Gen& g, Case& c) {
    Opt o;
    o.families = {"socont", "hbv", "net"};
    o.maxUnits = 4;
    o.maxSteps = 40;
    o.glacier4 = 3;
    o.spinup = true;
    RM r = genModel(g, o);
    for (int i = 0; i < 6 && (r.c.glaciers.empty() && r.c.soilCovers.size() < 2); ++i) r = genModel(g, o);
    Spec& s = r.s;
    int U = static_cast<int>(s.units.size());
    vector<string> soil = r.c.soilCovers, gl = r.c.glaciers;
    bool dropSoil = r.c.family == "net" || (r.c.family == "hbv" && r.c.sharedSoil);
    vector<string> optional = gl;
    if (dropSoil)
        for (size_t i = 1; i < soil.size(); ++i) optional.push_back(soil[i]);
    if (optional.empty()) throw Discard{};
    // Units lack some of the covers.
    for (int u = 0; u < U; ++u)
        for (auto& cov : optional) {
            Cover* x = coverOf(s, u, cov);
            Cover* base = coverOf(s, u, soil[0]);
            if (g.flip()) {
                base->frac += x->frac;
                x->frac = 0;
            }
        }
    // Structures: all the covers, and some subsets.
    vector<std::set<string>> dropped{{}};
    int n = g.in(1, 3);
    for (int i = 0; i < n; ++i) {
        std::set<string> d;
        for (auto& cov : optional)
            if (g.flip()) d.insert(cov);
        bool known = false;
        for (auto& e : dropped) known |= e == d;
        if (!known) dropped.push_back(d);
    }
    g.shuffle(dropped);
    auto covers = [&](size_t k) {
        std::set<string> cs(soil.begin(), soil.end());
        cs.insert(gl.begin(), gl.end());
        for (auto& d : dropped[k]) cs.erase(d);
        return cs;
    };
    tags(c, r);
    // Expected structure of each unit: its covers exactly, or the smallest set with all of them.
    vector<int> expect(U);
    for (int u = 0; u < U; ++u) {
        std::set<string> present;
        for (auto& x : s.units[u].covers)
            if (x.frac > 0) present.insert(x.name);
        int best = -1;
        for (size_t k = 0; k < dropped.size(); ++k) {
            auto cs = covers(k);
            if (!std::includes(cs.begin(), cs.end(), present.begin(), present.end())) continue;
            if (best < 0 || cs.size() < covers(best).size()) best = static_cast<int>(k);
        }
        expect[u] = best;
    }
    // Scheduled actions on covers that the unit has.
    RM rp = r;
    bool acting = g.chance(1, 3);
    Plan plan;
    if (acting) {
        plan = genPlan(g, r);
        rp.s.y = s.y;
        rp.s.m = s.m;
        rp.s.d = s.d;
        for (auto& list : plan.changes) std::erase_if(list, [&](auto& x) { return dropped[expect[x.unit]].count(x.cover) > 0; });
        std::erase_if(plan.changes, [](auto& l) { return l.empty(); });
        for (auto& e : plan.evo)
            for (size_t i = 0; i < e.units.size();) {
                if (dropped[expect[e.units[i]]].count(e.cover) == 0) {
                    ++i;
                    continue;
                }
                e.units.erase(e.units.begin() + static_cast<long>(i));
                for (auto& row : e.area) row.erase(row.begin() + static_cast<long>(i));
                for (auto& row : e.volume) row.erase(row.begin() + static_cast<long>(i));
            }
        std::erase_if(plan.evo, [](auto& e) { return e.units.empty(); });
        // A delta-h table needs ice up to its last row.
        for (auto& e : plan.evo) {
            double last = 0;
            for (double v : e.volume.back()) last += v;
            double first = 0;
            for (double v : e.volume.front()) first += v;
            if (first <= 0) throw Discard{};
        }
        if (!plan.empty()) c.tag("actions");
    }
    c.desc << showRM(r) << plan.show();
    Spec multi = s;
    multi.withBasin = true;
    bool needBasin = !gl.empty();
    Cfg full = r.c;
    vector<Cfg> cfgs;
    vector<vector<Param>> params;
    for (size_t k = 0; k < dropped.size(); ++k) {
        Cfg v = full;
        auto gone = [&](const string& x) { return dropped[k].count(x) > 0; };
        for (size_t i = v.soilCovers.size(); i-- > 0;)
            if (gone(v.soilCovers[i])) {
                v.soilCovers.erase(v.soilCovers.begin() + static_cast<long>(i));
                if (i < v.canopy.size()) v.canopy.erase(v.canopy.begin() + static_cast<long>(i));
                if (i < v.coverProcs.size()) v.coverProcs.erase(v.coverProcs.begin() + static_cast<long>(i));
            }
        std::erase_if(v.glaciers, gone);
        cfgs.push_back(v);
        vector<Param> ps;
        for (auto& p : s.params) {
            bool out = false;
            for (auto& d : dropped[k]) out |= p.comp == d || p.comp == d + "_snowpack" || p.comp == d + "_canopy";
            if (!out) ps.push_back(p);
        }
        params.push_back(ps);
        c.desc << format("structure {} without", k + 1);
        for (auto& d : dropped[k]) c.desc << " " << d;
        c.desc << "\n";
    }
    bool global = g.flip();         // parameters set over all the structures, or structure by structure
    bool late = g.chance(1, 3);     // parameters given to the built model
    multi.params.clear();
    multi.structure = [&](SettingsModel& m) {
        for (size_t k = 0; k < cfgs.size(); ++k) {
            if (k) m.AddStructure();
            rm::build(m, cfgs[k]);
            if (needBasin && cfgs[k].glaciers.empty()) {
                for (string b : {"glacier_area_rain_snowmelt_storage", "glacier_area_icemelt_storage"}) {
                    m.AddSubBasinBrick(b, "storage");
                    m.AddBrickProcess("outflow", "outflow:linear", "outlet");
                }
            }
        }
        if (late) return;
        if (global) {
            for (auto& p : s.params) check(m.SetParameterValue(p.comp, p.name, static_cast<float>(p.value)), format("setting {} of {} over the structures refused", p.name, p.comp));
        } else {
            for (size_t k = 0; k < cfgs.size(); ++k) setHere(m, static_cast<int>(k) + 1, params[k]);
        }
    };
    // Absent covers are declared with a zero fraction or not at all.
    for (int u = 0; u < U; ++u)
        std::erase_if(multi.units[u].covers, [&](auto& x) { return dropped[expect[u]].count(x.name) > 0 && x.frac == 0 && g.flip(); });
    vector<Init> in = r.init;
    auto present = [&](int u, const string& brick) {
        for (auto& d : dropped[expect[u]])
            if (brick == d || brick == d + "_snowpack" || brick == d + "_canopy") return false;
        return true;
    };
    std::erase_if(in, [&](auto& i) { return i.unit >= 0 && !present(i.unit, i.brick); });
    Owned keep;
    auto before = [&](ModelHydro& m) {
        for (auto& i : in) {
            Brick* b = i.unit < 0 ? m.GetSubBasin()->GetBrick(i.brick) : m.GetSubBasin()->GetHydroUnit(i.unit)->GetBrick(i.brick);
            b->UpdateContent(i.value, i.type);
        }
        if (!in.empty()) m.SaveAsInitialState();
        if (!install(plan, s, m, keep)) fail("a valid action is refused");
    };
    multi.beforeRun = [&](ModelHydro& m) {
        for (int u = 0; u < U; ++u) {
            check(m.GetSubBasin()->GetHydroUnit(u)->GetStructureId() == expect[u] + 1,
                  format("unit#{} has structure {} instead of {}", u, m.GetSubBasin()->GetHydroUnit(u)->GetStructureId(), expect[u] + 1));
            for (auto& x : optional)
                check(m.GetSubBasin()->GetHydroUnit(u)->HasBrick(x) == (dropped[expect[u]].count(x) == 0), format("presence of {} in unit#{}", x, u));
        }
        before(m);
    };
    Spec single = s;
    single.beforeRun = before;
    Out want = simulate(single);
    Sim sim(multi);
    sim.build();
    sim.attach();
    if (late) {
        c.tag("parameters updated");
        if (global) {
            for (auto& p : s.params) check(sim.settings.SetParameterValue(p.comp, p.name, static_cast<float>(p.value)), format("setting {} of {} over the structures refused", p.name, p.comp));
        } else {
            for (size_t k = 0; k < cfgs.size(); ++k) setHere(sim.settings, static_cast<int>(k) + 1, params[k]);
        }
        sim.model->UpdateParameters(sim.settings);
    }
    sim.run();
    Out got = read(sim);
    if (getenv("HB_DUMP")) dump(got);
    bool water = false, absent = false;
    check(got.hu.size() == want.hu.size() && got.sub.size() == want.sub.size() && got.frac.size() == want.frac.size(), "another set of items");
    double top = 0;
    for (auto& [l, v] : want.sub)
        for (double x : v) top = std::max(top, std::fabs(x));
    for (auto& [l, v] : want.hu)
        for (auto& row : v)
            for (double x : row)
                if (!l.starts_with("glacier") && std::isfinite(x)) top = std::max(top, std::fabs(x));
    for (auto& [l, v] : want.sub) same(got.s(l), v, 1e-9, 1e-9 * (1 + top), l);
    for (auto& [l, v] : want.hu)
        for (int u = 0; u < U; ++u) {
            bool out = !present(u, l.substr(0, l.find(':')));
            string what = format("{} of unit#{} (structure {})", l, u, expect[u] + 1);
            if (out) {
                absent = true;
                check(allNaN(got.h(l, u)), what + " has values although its structure does not have this item");
            } else {
                same(got.h(l, u), v[u], 1e-9, 1e-9 * (1 + top), what);
                for (double x : v[u]) water |= x > 0;
            }
        }
    for (auto& [l, v] : want.frac)
        for (int u = 0; u < U; ++u) {
            if (present(u, l))
                same(got.frac.at(l)[u], v[u], 1e-12, 0, format("fraction of {} in unit#{}", l, u));
            else
                check(allNaN(got.frac.at(l)[u]), format("fraction of the absent cover {} in unit#{}", l, u));
        }
    double tol = 1e-9 * (1 + top * s.steps);
    near(got.totalOutlet, want.totalOutlet, 1e-9, tol, "total outlet discharge");
    near(got.totalEt, want.totalEt, 1e-9, tol, "total evapotranspiration");
    near(got.dWater, want.dWater, 1e-9, tol, "total water storage change");
    near(got.dSnow, want.dSnow, 1e-9, tol, "total snow storage change");
    near(got.dIce, want.dIce, 1e-9, 1e-7 * (1 + std::fabs(want.dIce)), "total glacier storage change");
    c.nontrivial = water && absent;
}

// The choice of the structure, and the refusal of units that no structure can hold.
static void assign(Gen& g, Case& c) {
    vector<string> names{"open", "forest", "meadow", "lake", "rock", "bog"};
    int nc = g.in(1, 6), K = g.in(1, 5), U = g.in(1, 6);
    vector<vector<string>> structs(K);
    for (auto& v : structs) {
        for (int i = 0; i < nc; ++i)
            if (g.flip()) v.push_back(names[i]);
        if (v.empty()) v.push_back(names[g.below(nc)]);
        g.shuffle(v);
    }
    SettingsModel m;
    m.SetLogAll(g.flip());
    m.SetSolver("heun_explicit");
    m.SetTimer("2020-01-01", "2020-01-05", 1, "day");
    for (int k = 0; k < K; ++k) {
        if (k) m.AddStructure();
        m.GeneratePrecipitationSplitters(false);
        for (auto& x : structs[k]) m.AddLandCoverBrick(x, "generic_land_cover");
        for (auto& x : structs[k]) {
            m.SelectHydroUnitBrick(x);
            m.AddBrickProcess("outflow", "outflow:direct", "outlet");
        }
        m.AddLoggingToItem("outlet");
        c.desc << format("structure {}:", k + 1);
        for (auto& x : structs[k]) c.desc << " " << x;
        c.desc << "\n";
    }
    SettingsBasin b;
    vector<std::set<string>> present(U);
    for (int u = 0; u < U; ++u) {
        b.AddHydroUnit(u + 1, g.in(1, 100) * 1000.0, 500);
        vector<string> cov;
        const auto& from = g.chance(4, 5) ? structs[g.below(K)] : names;
        for (auto& x : from)
            if (g.chance(2, 3)) cov.push_back(x);
        if (cov.empty()) cov.push_back(from[0]);
        double left = 1;
        c.desc << format("unit {}:", u + 1);
        for (size_t i = 0; i < cov.size(); ++i) {
            double f = i + 1 == cov.size() ? left : g.chance(1, 4) ? 0 : left * g.in(1, 3) / 4;
            left -= f;
            if (f > 0) present[u].insert(cov[i]);
            b.AddLandCover(cov[i], "generic_land_cover", f);
            c.desc << format(" {} {:.4g}", cov[i], f);
        }
        for (auto& x : names)
            if (std::find(cov.begin(), cov.end(), x) == cov.end() && (g.flip() || std::find_if(structs.begin(), structs.end(), [&](auto& s) { return std::find(s.begin(), s.end(), x) != s.end(); }) != structs.end()))
                b.AddLandCover(x, "generic_land_cover", 0.0);
        c.desc << "\n";
    }
    bool impossible = false;
    vector<int> expect(U, -1);
    for (int u = 0; u < U; ++u) {
        for (int k = 0; k < K; ++k) {
            std::set<string> cs(structs[k].begin(), structs[k].end());
            if (!std::includes(cs.begin(), cs.end(), present[u].begin(), present[u].end())) continue;
            if (expect[u] < 0 || structs[k].size() < structs[expect[u]].size()) expect[u] = k;
        }
        impossible |= expect[u] < 0;
    }
    ModelHydro model;
    auto r = model.InitializeWithBasin(m, b);
    if (impossible) {
        c.tag("impossible");
        check(!r.has_value() || !model.IsValid(), "a unit with a cover that its structure lacks is accepted");
        c.nontrivial = true;
        return;
    }
    if (!r) fail("valid model refused: " + r.error());
    std::set<int> used;
    for (int u = 0; u < U; ++u) {
        HydroUnit* unit = model.GetSubBasin()->GetHydroUnit(u);
        used.insert(expect[u]);
        check(unit->GetStructureId() == expect[u] + 1, format("unit {} has structure {} instead of {}", u + 1, unit->GetStructureId(), expect[u] + 1));
        for (auto& x : names) {
            bool has = std::find(structs[expect[u]].begin(), structs[expect[u]].end(), x) != structs[expect[u]].end();
            check(unit->HasBrick(x) == has, format("presence of {} in unit {}", x, u + 1));
        }
    }
    c.nontrivial = used.size() > 1;
}
const std::vector<pbt::Sub>& pbt::subs() {
    static const std::vector<Sub> s = {
        {"separate", separate, 40000, 700000, "units of different structures against models holding one structure; non-trivial: water moves and some items are absent"},
        {"lacking", lacking, 40000, 700000, "units without some covers in structures without them against one structure with all the covers; non-trivial: water moves and some items are absent"},
        {"assign", assign, 40000, 500000, "structure chosen from the covers; non-trivial: several structures are used or the basin is refused"}};
    return s;
}
