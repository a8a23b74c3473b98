#include <numeric>
#include <set>
// Reproducibility: reruns after resets, whatever happened before; saved initial states; spin-up.
#include "../actions.h"
using namespace act;
const char* pbt::propertyId() {
    return "C12";
}
static Opt base() {
    Opt o;
    o.maxSteps = 30;
    o.exchange = true;
    return o;
}
static double at(const Spec& s, const char* comp, const char* name, double d) {
    for (auto& p : s.params)
        if (p.comp == comp && p.name == name) return p.value;
    return d;
}

// Give the model other parameter values (valid ones).
static void perturb(Gen& g, const Spec& s, SettingsModel& m) {
    for (auto& p : s.params) {
        if (g.flip()) continue;
        double v = p.value;
        if (p.name == "response_factor" || p.name == "lp")
            v *= g.real(0.2, 1, 8);
        else if (p.name == "maxbas" || p.name == "uh_base_time")
            v = g.real(0.5, 8, 75);
        else if (p.name.find("threshold") != string::npos || p.name.find("transition") != string::npos || p.name == "exchange_factor" ||
                 p.name == "melting_temperature" || p.name == "north_hemisphere" || p.name.starts_with("rho") || p.name == "exp" ||
                 p.name.find("slope") != string::npos)
            continue;
        else
            v *= g.real(0.5, 1.5, 10);
        m.SetParameterValue(p.comp, p.name, static_cast<float>(v));
    }
}
static void restore(const Spec& s, SettingsModel& m) {
    for (auto& p : s.params)
        if (!m.SetParameterValue(p.comp, p.name, static_cast<float>(p.value))) fail("resetting the parameter " + p.comp + ":" + p.name + " was refused");
}
static void swapForcing(Sim& sim, const vector<Forcing1>& f) {
    sim.model->ClearTimeSeries();
    auto keep = sim.spec.forcing;
    sim.spec.forcing = f;
    sim.attach();
    sim.spec.forcing = keep;
}
static Out go(Sim& sim, const string& what) {
    std::expected<void, string> r;
    try {
        r = sim.model->Run();
    } catch (const std::exception& e) {
        if (string(e.what()).find("is too high") != string::npos) throw Discard{};
        throw;
    }
    if (!r) fail(what + " failed: " + r.error());
    return read(sim);
}

static void rerun(Gen& g, Case& c) {
    Opt o = base();
    o.spinup = true;
    o.minSteps = g.chance(1, 10) ? 1 : 3;
    RM r = genModel(g, o);
    for (auto& f : r.s.forcing)
        if (f.lead + f.trail == 0 && r.s.steps == 1) {  // a series needs two dates
            f.trail = 1;
            for (auto& row : f.v) row.push_back(row.back());
        }
    Plan plan = genPlan(g, r);
    tags(c, r);
    if (!plan.changes.empty()) c.tag("land cover change");
    if (!plan.evo.empty()) c.tag(plan.evo[0].deltaH ? "delta-h" : "area scaling");
    if (!plan.ice.empty()) c.tag("snow to ice action");
    if (r.s.spinupDays > 0) c.tag("spin-up");
    c.desc << showRM(r) << plan.show();

    Owned keep;  // outlives the models
    auto prepare = [&](Sim& sim) {
        sim.build();
        sim.attach();
        if (r.s.beforeRun) r.s.beforeRun(*sim.model);
        if (!install(plan, r.s, *sim.model, keep)) fail("a valid action is refused");
    };
    Sim a(r.s), b(r.s);
    prepare(a);
    bool late = g.flip();
    if (!late) prepare(b);
    bool first = g.flip();
    if (first) {
        a.model->Reset();
        c.desc << "reset before the first run\n";
    }
    Out o1 = go(a, "the first run");
    if (getenv("HB_DUMP")) dump(o1);

    // Disturb the first model.
    int n = g.in(0, 3);
    bool tainted = false, forcingChanged = false;
    for (int i = 0; i < n; ++i) {
        int k = static_cast<int>(g.below(5));
        if (k == 0) {
            c.desc << "reset and run\n";
            a.model->Reset();
            compareOut(o1, go(a, "the rerun"), 0, 0, "run again after a reset");
        } else if (k == 1) {
            c.desc << "run with other parameters\n";
            bool before = g.flip();
            if (before) a.model->Reset();
            perturb(g, r.s, a.settings);
            a.model->UpdateParameters(a.settings);
            if (!before) a.model->Reset();
            try {
                (void)a.model->Run();
            } catch (const std::exception&) {
                // unstable with these parameters
            }
            tainted = true;
            bool resetFirst = g.flip();
            if (resetFirst) a.model->Reset();
            restore(r.s, a.settings);
            a.model->UpdateParameters(a.settings);
            if (!resetFirst) a.model->Reset();
            c.desc << (resetFirst ? "reset, parameters restored\n" : "parameters restored, reset\n");
        } else if (k == 2) {
            c.desc << "run with other forcing\n";
            auto f = r.s.forcing;
            for (auto& x : f) {
                double q = g.real(0, 2, 8);
                for (auto& row : x.v) {
                    if (x.var.starts_with("temperature"))
                        for (auto& v : row) v += 6 * (q - 1);
                    else
                        for (auto& v : row) v *= q;
                }
            }
            if (g.flip()) a.model->Reset();
            swapForcing(a, f);
            try {
                (void)a.model->Run();
            } catch (const std::exception&) {
            }
            tainted = forcingChanged = true;
            a.model->Reset();
            swapForcing(a, r.s.forcing);
        } else if (k == 3) {
            c.desc << "second run without reset\n";
            try {
                (void)a.model->Run();
            } catch (const std::exception&) {
            }
            tainted = true;
        } else {
            c.desc << "double reset\n";
            a.model->Reset();
            a.model->Reset();
        }
    }
    a.model->Reset();
    Out o2 = go(a, "the rerun");
    if (getenv("HB_DUMP")) dump(o2);
    compareOut(o1, o2, 0, 0, "run again after the reset");
    near(o2.dWater, o1.dWater, 0, 0, "water storage change of the rerun");
    near(o2.dSnow, o1.dSnow, 0, 0, "snow storage change of the rerun");
    near(o2.dIce, o1.dIce, 0, 0, "ice storage change of the rerun");
    if (late) prepare(b);
    Out o3 = go(b, "the run of a second model");
    compareOut(o1, o3, 0, 0, "a second model of the same settings");
    (void)forcingChanged;
    double q = 0;
    for (double v : o1.s("outlet")) q += v;
    c.nontrivial = q > 0 && (tainted || !plan.empty() || r.s.spinupDays > 0);
}

// Cut the forcing of a spec: steps [from, to).
static vector<Forcing1> cut(const vector<Forcing1>& f, int from, int to) {
    auto x = f;
    for (auto& q : x)
        for (auto& row : q.v) row = vector<double>(row.begin() + from, row.begin() + to);
    return x;
}
static void tail(const Out& whole, const Out& part, int from, const string& what, const RM& r) {
    // Values equal up to rounding: the storage states are the same numbers.
    double rel = 1e-9, ab = 1e-9;
    (void)r;
    auto cmp = [&](const vector<double>& w, const vector<double>& p, const string& l) {
        for (size_t t = 0; t < p.size(); ++t) near(p[t], w[from + t], rel, ab, format("{}: {} at step {}", what, l, t));
    };
    for (auto& [l, v] : part.sub) cmp(whole.s(l), v, l);
    for (auto& [l, v] : part.hu)
        for (int u = 0; u < part.U; ++u) cmp(whole.h(l, u), v[u], format("{} unit#{}", l, u));
    for (auto& [l, v] : part.frac)
        for (int u = 0; u < part.U; ++u) cmp(whole.frac.at(l)[u], v[u], format("fraction of {} unit#{}", l, u));
}
static Opt undated() {
    Opt o = base();
    o.transform = false;  // the seasonal transformation depends on the date
    return o;
}

static void saved(Gen& g, Case& c) {
    Opt o = undated();
    o.minSteps = 6;
    o.maxSteps = 50;
    RM r = genModel(g, o);
    tags(c, r);
    int T = r.s.steps / 2;
    r.s.steps = 2 * T;
    r.s.forcing = cut(r.s.forcing, 0, 2 * T);
    // Land covers changing in the first half (each one once, so that the actions change nothing more in the second half).
    Plan plan;
    if (g.flip()) {
        plan = genPlan(g, r, true, false, false);
        std::set<std::pair<int, string>> done;
        for (auto& l : plan.changes)
            std::erase_if(l, [&](auto& x) { return x.date > startOf(r.s) + T * r.s.dtDays() + 1e-6 || !done.insert({x.unit, x.cover}).second; });
        // The generic cover of a unit must be able to absorb them in any order.
        const Plan all = plan;
        for (auto& l : plan.changes)
            std::erase_if(l, [&](auto& x) {
                double sum = 0;
                for (auto& cv : r.s.units[x.unit].covers) {
                    if (cv.name == r.c.soilCovers[0]) continue;
                    double f = cv.frac;
                    for (auto& l2 : all.changes)
                        for (auto& y : l2)
                            if (y.unit == x.unit && y.cover == cv.name) f = std::max(f, y.frac);
                    sum += f;
                }
                return sum > 1;
            });
        std::erase_if(plan.changes, [](auto& l) { return l.empty(); });
    }
    if (!plan.empty()) c.tag("changing covers");
    c.desc << "saved state after half of the steps\n" << showRM(r) << plan.show();
    Owned keep;
    Sim w(r.s);
    runPlan(w, plan, keep);
    Out whole = read(w);
    Spec half = r.s;
    half.steps = T;
    half.forcing = cut(r.s.forcing, 0, T);
    Sim a(half);
    a.build();
    a.attach();
    if (half.beforeRun) half.beforeRun(*a.model);
    if (!install(plan, half, *a.model, keep)) fail("a valid action is refused");
    Out first = go(a, "the first half");
    a.model->SaveAsInitialState();
    auto second = cut(r.s.forcing, T, 2 * T);
    bool order = g.flip();
    if (order) a.model->Reset();
    swapForcing(a, second);
    if (!order) a.model->Reset();
    Out o2 = go(a, "the second half");
    tail(whole, first, 0, "first half", r);
    tail(whole, o2, T, "continued from the saved state", r);
    double sc = std::fabs(whole.dWater) + std::fabs(first.dWater) + 1;
    near(first.dWater + o2.dWater, whole.dWater, 1e-9, 1e-6 * sc, "water storage change of the two halves");
    near(first.dSnow + o2.dSnow, whole.dSnow, 1e-9, 1e-6 * sc, "snow storage change of the two halves");
    // Another run from the same saved state, after a disturbance.
    int k = static_cast<int>(g.below(3));
    if (k == 1) {
        a.model->Reset();
        swapForcing(a, half.forcing);
        (void)go(a, "another run from the saved state");
        swapForcing(a, second);
    } else if (k == 2) {
        a.model->Reset();
        perturb(g, r.s, a.settings);
        a.model->UpdateParameters(a.settings);
        try {
            (void)a.model->Run();
        } catch (const std::exception&) {
        }
        a.model->Reset();
        restore(r.s, a.settings);
        a.model->UpdateParameters(a.settings);
    }
    c.tag(k == 0 ? "rerun" : k == 1 ? "rerun after other forcing" : "rerun after other parameters");
    a.model->Reset();
    compareOut(o2, go(a, "the rerun from the saved state"), 0, 0, "rerun from the saved state");
    double q = 0;
    for (double v : o2.s("outlet")) q += v;
    c.nontrivial = q > 0;
}

static void spinup(Gen& g, Case& c) {
    Opt o = undated();
    o.minSteps = 4;
    o.families = {"socont", "hbv", "gr", "net", "net"};
    // Steps that are not a divisor of the day, with a spin-up of a whole number of steps.
    bool odd = g.chance(1, 12);
    if (odd) {
        o.families = {"net"};
        o.minSteps = 61;
        o.maxSteps = 125;
    }
    RM r = genModel(g, o);
    tags(c, r);
    Spec& s = r.s;
    if (odd) {
        s.dt = g.pick<int>({5, 7, 9, 10, 14, 14, 18, 20});
        s.dtUnit = "hour";
        c.tag("step not dividing the day");
    }
    double dt = s.dtDays();
    double period = s.steps * dt;
    if (odd) {
        int every = s.dt / std::gcd(s.dt, 24);  // days
        s.spinupDays = every * g.in(1, std::max(1, static_cast<int>(period / every)));
    } else
        s.spinupDays = 1 + static_cast<int>(g.below(static_cast<uint64_t>(std::max(1.0, period)) + 3));
    int secs = static_cast<int>(std::lround(dt * 86400));
    int N = std::min(s.steps, static_cast<int>(s.spinupDays * 86400L / secs));
    c.tag(N == s.steps ? "whole period" : "part of the period");
    c.desc << "spin-up of " << N << " steps\n" << showRM(r);
    Out b = simulate(s);
    Spec l = s;
    l.spinupDays = 0;
    l.steps = N + s.steps;
    double start = startOf(s) - N * dt;
    setStart(l, std::floor(start));
    for (auto& f : l.forcing)
        for (size_t u = 0; u < f.v.size(); ++u) {
            auto row = vector<double>(s.forcing[&f - &l.forcing[0]].v[u].begin(), s.forcing[&f - &l.forcing[0]].v[u].begin() + N);
            f.v[u].insert(f.v[u].begin(), row.begin(), row.end());
        }
    Out a = simulate(l);
    tail(a, b, N, "after the spin-up", r);
    // The reported storage changes are those of the simulated period.
    auto change = [&](const string& suffix) {
        double area = 0, sum = 0;
        for (double x : a.areas) area += x;
        int e = l.steps - 1;
        for (auto& [lab, v] : a.hu)
            if (lab.ends_with(suffix))
                for (int u = 0; u < a.U; ++u) {
                    double w = labelWeight(a, lab, u, e) * a.areas[u] / area;
                    if (!std::isnan(v[u][e])) sum += w * (v[u][e] - (N > 0 ? v[u][N - 1] : 0));
                }
        for (auto& [lab, v] : a.sub)
            if (lab.ends_with(suffix)) sum += v[e] - v[N - 1];
        return sum;
    };
    if (N > 0) {
        double w = change(":water_content"), sn = change(":snow_content");
        double sc = 1e-6 * (1 + std::fabs(w) + std::fabs(sn));
        near(b.dWater, w, 1e-7, sc, "water storage change over the period");
        near(b.dSnow, sn, 1e-7, sc, "snow storage change over the period");
    }
    double q = 0;
    for (double v : b.s("outlet")) q += v;
    c.nontrivial = q > 0 && N > 0;
}

const std::vector<pbt::Sub>& pbt::subs() {
    static const std::vector<Sub> s = {
        {"rerun", rerun, 30000, 600000, "histories of runs, resets, parameter and forcing changes, with actions and spin-up; non-trivial: water flows and the history holds an action, a spin-up or a change"},
        {"saved", saved, 20000, 400000, "continuing from a saved state; non-trivial: water flows in the second half"},
        {"spinup", spinup, 20000, 400000, "spin-up against an uninterrupted run; non-trivial: water flows"}};
    return s;
}
