// Glacier evolution: rows of the lookup tables, extents and ice of every unit, conservation, restart.
#include "../actions.h"
#include "Glacier.h"
using namespace act;
const char* pbt::propertyId() {
    return "C14";
}

struct Exp {
    vector<double> area;  // glacier area per column
    vector<double> ice;   // depth per column (mm w.e.)
};
static double rowPos(double w0, double w, int rows) {
    return std::max(0.0, (w0 - w) / w0) * (rows - 1);
}
// Rows that the loss may select (two when it is on the limit between rows).
static vector<int> rowsFor(double w0, double w, int rows) {
    double p = rowPos(w0, w, rows);
    vector<int> r{std::min(rows - 1, static_cast<int>(p))};
    double q = std::floor(p + 1e-7);
    if (static_cast<int>(q) != r[0] && q <= rows - 1) r.push_back(static_cast<int>(q));
    if (p > 1e-7) {
        int b = static_cast<int>(std::floor(p - 1e-7));
        if (b < r[0]) r.push_back(b);
    }
    return r;
}
struct State {
    vector<double> frac, ice;  // per column
};
// Expected states after the evolution (several when a loss is on the limit between two rows).
static vector<vector<Exp>> expected(const Evolution& e, const vector<double>& unitArea, double density, const State& s) {
    int n = static_cast<int>(e.units.size()), R = e.rows();
    vector<vector<Exp>> out;  // per column: alternatives
    vector<double> area(n), w(n);
    double W = 0, W0 = 0;
    for (int i = 0; i < n; ++i) {
        area[i] = s.frac[i] * unitArea[i];
        w[i] = s.frac[i] > 1e-8 ? area[i] * s.ice[i] : 0;
        W += w[i];
        W0 += e.volume[0][i] * density;
    }
    if (e.deltaH) {
        vector<Exp> alt;
        for (int r : rowsFor(W0, W, R)) {
            Exp x;
            double V = 0;
            for (int i = 0; i < n; ++i) V += e.volume[r][i];
            for (int i = 0; i < n; ++i) {
                x.area.push_back(e.area[r][i]);
                x.ice.push_back(e.area[r][i] > 1e-8 ? W * e.volume[r][i] / V / e.area[r][i] : 0);
            }
            alt.push_back(x);
        }
        out.push_back(alt);
    } else {
        for (int i = 0; i < n; ++i) {
            vector<Exp> alt;
            if (s.frac[i] <= 1e-8) {
                alt.push_back({{area[i]}, {s.ice[i]}});
            } else if (w[i] <= 1e-8) {
                alt.push_back({{0.0}, {0.0}});
            } else {
                for (int r : rowsFor(e.volume[0][i] * density, w[i], R)) {
                    double a = e.area[r][i];
                    alt.push_back({{a}, {a > 0 ? w[i] / a : 0}});
                }
            }
            out.push_back(alt);
        }
    }
    return out;
}
static bool same(double got, double want, double rel, double abs_) {
    return std::fabs(got - want) <= abs_ + rel * std::max(std::fabs(got), std::fabs(want));
}
// Compare the extents and ice with the alternatives.
static void compareState(const Evolution& e, const vector<vector<Exp>>& want, const vector<double>& unitArea, const State& s, double relIce, double absIce, const string& what) {
    size_t col = 0;
    for (auto& alts : want) {
        string why;
        size_t n = alts[0].area.size();
        bool ok = false;
        for (auto& a : alts) {
            bool good = true;
            for (size_t i = 0; i < n; ++i) {
                size_t k = col + i;
                if (!same(s.frac[k] * unitArea[k], a.area[i], 1e-9, 2e-8 * unitArea[k])) {
                    good = false;
                    why += format("; unit#{}: area {:.9g}, table {:.9g}", e.units[k], s.frac[k] * unitArea[k], a.area[i]);
                } else if (a.area[i] > 1e-6 * unitArea[k] && !same(s.ice[k], a.ice[i], relIce, absIce)) {
                    good = false;
                    why += format("; unit#{}: ice {:.9g}, expected {:.9g}", e.units[k], s.ice[k], a.ice[i]);
                }
            }
            ok |= good;
        }
        if (!ok) fail(what + why);
        col += n;
    }
}

// A model with a glacier governed by lookup tables.
struct Setup {
    RM r;
    Plan plan;
    vector<double> area;  // unit areas by column
    Evolution& evo() {
        return plan.evo[0];
    }
};
static Setup setup(Gen& g, Opt o, bool zero) {
    o.families = {"socont", "net"};
    o.glacier4 = 4;
    o.finiteIceOnly = true;
    Setup s;
    s.r = genModel(g, o);
    RM& r = s.r;
    if (r.c.glaciers.empty() || r.c.infiniteIce) throw Discard{};
    // Large units as well.
    if (g.chance(1, 4)) {
        double factor = g.logreal(2, 1000);
        for (auto& u : r.s.units) u.area *= factor;
    }
    string cov = g.pick(r.c.glaciers);
    // Any glacier may be absent from the settings: its extent then comes from the tables.
    vector<std::pair<int, double>> grow;
    if (zero && r.init.empty())
        for (size_t u = 0; u < r.s.units.size(); ++u) {
            Cover* gl = coverOf(r.s, u, cov);
            Cover* ge = coverOf(r.s, u, r.c.soilCovers[0]);
            if (gl->frac > 0 && g.flip()) {
                grow.push_back({static_cast<int>(u), gl->frac});
                (void)ge;
            }
        }
    int month = genMonth(g, r);
    s.plan.evo.push_back(genEvolution(g, r, cov, g.flip()));
    s.evo().month = month;
    for (auto& [u, f] : grow) {
        coverOf(r.s, u, r.c.soilCovers[0])->frac += f;
        coverOf(r.s, u, cov)->frac = 0;
    }
    for (int u : s.evo().units) s.area.push_back(r.s.units[u].area);
    return s;
}
static State stateOf(Sim& sim, const Evolution& e) {
    State s;
    for (int u : e.units) {
        LandCover* lc = sim.sub->GetHydroUnit(u)->GetLandCover(e.cover);
        s.frac.push_back(lc->GetAreaFraction());
        s.ice.push_back(lc->GetContent(ContentType::Ice));
    }
    return s;
}

// The action on arbitrary states.
static void states(Gen& g, Case& c) {
    Opt o;
    o.minSteps = 2;
    o.maxSteps = 4;
    o.initial = false;
    Setup st = setup(g, o, true);
    RM& r = st.r;
    Evolution& e = st.evo();
    c.tag(e.deltaH ? "delta-h" : "area scaling");
    c.desc << showRM(r) << st.plan.show();
    Owned keep;
    Sim sim(r.s);
    sim.build();
    sim.attach();
    check(install(st.plan, r.s, *sim.model, keep), "valid lookup tables are refused");
    if (g.flip()) sim.model->Reset();
    // Initial extents and ice.
    State s0 = stateOf(sim, e);
    for (size_t i = 0; i < e.units.size(); ++i) {
        near(s0.frac[i] * st.area[i], e.area[0][i], 1e-9, 2e-8 * st.area[i], format("initial area in unit#{}", e.units[i]));
        near(s0.ice[i] * e.area[0][i], e.volume[0][i] * constants::iceDensity, 1e-9, 1e-6, format("initial ice in unit#{}", e.units[i]));
    }
    int rounds = g.in(1, 6);
    for (int k = 0; k < rounds; ++k) {
        State before = stateOf(sim, e);
        // Some ice melts, or accumulates.
        int kind = static_cast<int>(g.below(8));
        double all = g.real(0, 1, 50);
        for (size_t i = 0; i < e.units.size(); ++i) {
            double f = kind == 0 ? 0.0 : kind == 1 ? g.real(1, 1.5, 10) : kind < 5 ? all : g.chance(1, 6) ? 0.0 : g.real(0, 1.1, 44);
            LandCover* lc = sim.sub->GetHydroUnit(e.units[i])->GetLandCover(e.cover);
            before.ice[i] *= f;
            lc->UpdateContent(before.ice[i], ContentType::Ice);
        }
        c.desc << format("round {}: ice", k);
        for (double x : before.ice) c.desc << format(" {:.9g}", x);
        c.desc << "\n";
        auto want = expected(e, st.area, constants::iceDensity, before);
        Time day{};
        day.year = 2000 + k;
        day.month = e.month;
        day.day = 1;
        if (g.chance(1, 5)) {
            // Another day: nothing happens.
            Time other = day;
            if (g.flip())
                other.day = g.in(2, 28);
            else
                other.month = other.month % 12 + 1;
            check(keep[0]->ApplyIfRecursive(other), "the action fails on another day");
            State same_ = stateOf(sim, e);
            for (size_t i = 0; i < e.units.size(); ++i) {
                near(same_.ice[i], before.ice[i], 0, 0, "ice on another day");
                near(same_.frac[i], before.frac[i], 0, 0, "extent on another day");
            }
        }
        check(keep[0]->ApplyIfRecursive(day), "the action fails");
        State after = stateOf(sim, e);
        compareState(e, want, st.area, after, 1e-9, 1e-7, format("round {}", k));
        double wb = 0, wa = 0;
        for (size_t i = 0; i < e.units.size(); ++i) {
            if (before.frac[i] > 1e-8) wb += before.frac[i] * before.ice[i] * st.area[i];
            wa += after.frac[i] * after.ice[i] * st.area[i];
            check(after.frac[i] >= 0 && after.frac[i] <= 1, "extent out of range");
            check(after.ice[i] >= 0 && std::isfinite(after.ice[i]), "negative or undefined ice");
            double sum = 0;
            for (auto& cv : r.s.units[e.units[i]].covers) sum += sim.sub->GetHydroUnit(e.units[i])->GetLandCover(cv.name)->GetAreaFraction();
            near(sum, 1, 0, 1e-7, "sum of the extents");
            c.nontrivial |= std::fabs(after.frac[i] - before.frac[i]) > 1e-6;
        }
        near(wa, wb, 1e-9, 1e-6, format("round {}: total ice after the evolution", k));
    }
    // Everything comes back.
    sim.model->Reset();
    State s1 = stateOf(sim, e);
    for (size_t i = 0; i < e.units.size(); ++i) {
        near(s1.frac[i] * st.area[i], e.area[0][i], 1e-9, 2e-8 * st.area[i], format("area in unit#{} after the reset", e.units[i]));
        near(s1.ice[i] * e.area[0][i], e.volume[0][i] * constants::iceDensity, 1e-9, 1e-6, format("ice in unit#{} after the reset", e.units[i]));
    }
}

// Melting glaciers over several years.
static void years(Gen& g, Case& c) {
    Opt o;
    o.solvers = {"euler_explicit", "heun_explicit", "rk4"};
    o.maxUnits = 3;
    o.canopy = false;
    o.sublimation4 = 0;
    o.minSteps = 20;
    o.maxSteps = g.chance(1, 4) ? 900 : 60;
    if (o.maxSteps == 900) o.minSteps = 380;
    Setup st = setup(g, o, true);
    RM& r = st.r;
    Evolution& e = st.evo();
    string gl = e.cover;
    c.tag(e.deltaH ? "delta-h" : "area scaling");
    if (r.s.steps > 300) c.tag("several years");
    c.desc << showRM(r) << st.plan.show();
    Owned keep;
    Sim sim(r.s);
    sim.build();
    sim.attach();
    if (r.s.beforeRun) r.s.beforeRun(*sim.model);
    sim.spec.beforeRun = nullptr;
    check(install(st.plan, r.s, *sim.model, keep), "valid lookup tables are refused");
    if (g.flip()) sim.model->Reset();
    sim.run();
    Out o1 = read(sim);
    if (getenv("HB_DUMP")) dump(o1);
    double start = startOf(r.s), dt = r.s.dtDays();
    int fired = 0, changed = 0;
    int n = static_cast<int>(e.units.size());
    auto at = [&](int t) {
        State s;
        for (int u : e.units) {
            s.frac.push_back(o1.frac.at(gl)[u][t]);
            s.ice.push_back(o1.h(gl + ":ice_content", u)[t]);
        }
        return s;
    };
    // Ice gained (transformation) and lost (melt) by the glacier during a step, as depths on the glacier.
    double basin = 0;
    for (double a : o1.areas) basin += a;
    auto gain = [&](int u, int t) {
        double f = o1.frac.at(gl)[u][t], d = 0;
        if (f <= 1e-8) return 0.0;
        d -= o1.h(gl + ":melt:output", u)[t] / f / o1.areas[u] * basin;
        if (!r.c.transform.empty()) d += o1.h(gl + "_snowpack:snow_ice_transfo:output", u)[t];
        return d;
    };
    double rel = 1e-7;
    for (int t = 0; t < o1.T; ++t) {
        State now = at(t);
        // Is the first of the month reached between the previous step and this one?
        bool fire = false;
        if (t > 0)
            for (double d = std::floor(start + (t - 1) * dt + 1e-6) + 1; d <= start + t * dt + 1e-6; ++d) {
                int y, m, q;
                civilFrom(static_cast<long>(d) - 40587, y, m, q);
                fire |= m == e.month && q == 1;
            }
        State before = t ? at(t - 1) : State{};
        if (!t) {
            for (int i = 0; i < n; ++i) {
                before.frac.push_back(e.area[0][i] / st.area[i]);
                before.ice.push_back(e.area[0][i] > 0 ? e.volume[0][i] * constants::iceDensity / e.area[0][i] : 0);
            }
        }
        // State of the glacier before this step's melt.
        State mid = now;
        double absIce = 1e-4;
        for (int i = 0; i < n; ++i) {
            mid.ice[i] -= gain(e.units[i], t);
            if (now.ice[i] <= 1e-7 && mid.ice[i] < 1e-4) mid.ice[i] = std::max(0.0, mid.ice[i]);
        }
        // Daily rates are recorded per unit: amplified on small glaciers.
        for (int i = 0; i < n; ++i)
            if (now.frac[i] > 1e-8) absIce = std::max(absIce, 2e-8 / now.frac[i] / o1.areas[e.units[i]] * basin);
        if (fire) {
            ++fired;
            // Sub-daily steps: the states between.
            auto want = expected(e, st.area, constants::iceDensity, before);
            compareState(e, want, st.area, mid, rel, absIce, format("evolution before step {}", t));
            for (int i = 0; i < n; ++i) changed += std::fabs(now.frac[i] - before.frac[i]) > 1e-6;
        } else {
            bool early = t == 1 && dt < 1;  // the first day of a sub-daily simulation
            if (early) {
                int y, m, q;
                civilFrom(static_cast<long>(std::floor(start)) - 40587, y, m, q);
                early = m == e.month && q == 1;
            }
            if (early) continue;
            for (int i = 0; i < n; ++i) {
                near(now.frac[i], before.frac[i], 0, 1e-7, format("extent of {} in unit#{} at step {}, without evolution", gl, e.units[i], t));
                near(mid.ice[i], before.ice[i], rel, absIce, format("ice of {} in unit#{} before step {}, without evolution", gl, e.units[i], t));
            }
        }
    }
    // The whole water balance, ice included, is not affected.
    double area = basin, prev = NAN;
    for (int t = 0; t < o1.T; ++t) {
        double P = 0;
        for (int u = 0; u < o1.U; ++u) P += precip(r, u, t) * o1.areas[u] / area;
        double Q = o1.s("outlet")[t], E = evap(r, o1, t), S = stored(o1, t, true);
        if (t > 0) near(Q + E + S, P + prev, 0, 2e-5 + 1e-7 * (P + std::fabs(prev)), format("balance of step {}", t));
        prev = S;
    }
    // And again.
    if (g.flip()) {
        sim.model->Reset();
        sim.run();
        compareOut(o1, read(sim), 0, 0, "run again after a reset");
    }
    if (fired) c.tag("fired");
    c.nontrivial = changed > 0;
}

// Tables which do not match the model are refused.
static void refused(Gen& g, Case& c) {
    Opt o;
    o.minSteps = 2;
    o.maxSteps = 4;
    Setup st = setup(g, o, false);
    RM& r = st.r;
    Evolution& e = st.evo();
    int col = static_cast<int>(g.below(e.units.size()));
    int kind = static_cast<int>(g.below(2));
    Unit& un = r.s.units[e.units[col]];
    double have = coverOf(r.s, e.units[col], e.cover)->frac;
    int id = un.id;
    if (kind == 0) {
        if (have <= 0) throw Discard{};
        e.area[0][col] *= g.pick<double>({0.5, 0.9, 1.01, 1.2, 3});
        c.tag("other initial area");
    } else {
        un.id = 99999;
        c.tag("unknown unit");
    }
    c.desc << showRM(r) << st.plan.show();
    Spec bad = r.s;
    un.id = id;
    Owned keep;
    Sim sim(r.s);
    sim.build();
    bool ok = true;
    try {
        ok = install(st.plan, bad, *sim.model, keep);
    } catch (const std::exception&) {
        ok = false;
    }
    check(!ok, "lookup tables which do not match the model are accepted");
    c.nontrivial = true;
}
const std::vector<pbt::Sub>& pbt::subs() {
    static const std::vector<Sub> s = {
        {"states", states, 40000, 700000, "evolution applied to arbitrary ice amounts; non-trivial: an extent changes"},
        {"years", years, 12000, 200000, "recorded extents and ice over melting seasons; non-trivial: an extent changes"},
        {"refused", refused, 5000, 50000, "tables which do not match the model; all non-trivial"}};
    return s;
}
