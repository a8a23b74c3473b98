// Numerical schemes: every solver against an independent implementation of its scheme, and convergence to the exact
// solution when the time step is refined.
#include "../refprop.h"
using namespace ref;
const char* pbt::propertyId() {
    return "C07";
}
static Opt base() {
    Opt o;
    o.lateral = o.transform = o.canopy = o.glacier = false;
    o.snow4 = 0;
    o.sublimation4 = 0;
    o.coverMix = false;
    o.correction = false;
    return o;
}
static void networks(Gen& g, Case& c) {
    Opt o = base();
    o.families = {"net"};
    o.extreme = true;
    auto x = against(g, c, o);
    int kinds = 0;
    for (const char* p : {"outflow:linear", "outflow:threshold", "percolation:constant", "runoff:hbv", "overflow", "et:"})
        kinds += x->moved(p) > 0;
    c.nontrivial = kinds >= 2;
}
static void models(Gen& g, Case& c) {
    Opt o = base();
    o.families = {"socont", "hbv"};
    o.glacier = true;
    o.glacier4 = 1;
    o.snow4 = 1;
    o.extreme = true;
    auto x = against(g, c, o);
    c.nontrivial = x->moved("et:") > 0 && x->moved("infiltration") > 0;
}

// --- convergence ---
struct Tank {
    double k = 0, perc = 0, a = -1, kp = 0, cap = -1, s0 = 0;
    string et;
    double lp = 0.9;
    int to = -1, percTo = -1;
};
static void derivative(const vector<Tank>& ts, double E, const vector<double>& s, vector<double>& d, double& et) {
    d.assign(s.size(), 0);
    et = 0;
    for (size_t i = 0; i < ts.size(); ++i) {
        const Tank& t = ts[i];
        double q = t.k * s[i], e = 0;
        if (t.et == "et:linear") e = E * s[i] / t.cap;
        if (t.et == "et:socont") e = E * std::sqrt(std::max(0.0, s[i] / t.cap));
        if (t.et == "et:hbv") e = E * std::min(1.0, s[i] / (t.cap * t.lp));
        double p = t.a >= 0 ? t.kp * std::pow(std::max(0.0, s[i]), 1 + t.a) : 0;
        d[i] -= q + e + p + t.perc;
        if (t.to >= 0) d[t.to] += q + p;
        if (t.percTo >= 0) d[t.percTo] += t.perc;
        et += e;
    }
}
static vector<double> exact(const vector<Tank>& ts, double E, double days) {
    vector<double> s, d1, d2, d3, d4, u;
    for (auto& t : ts) s.push_back(t.s0);
    int n = static_cast<int>(std::round(days * 200));
    double h = days / n, et;
    auto at = [&](const vector<double>& d, double f) {
        u = s;
        for (size_t i = 0; i < s.size(); ++i) u[i] += f * d[i];
        return u;
    };
    for (int j = 0; j < n; ++j) {
        derivative(ts, E, s, d1, et);
        derivative(ts, E, at(d1, h / 2), d2, et);
        derivative(ts, E, at(d2, h / 2), d3, et);
        derivative(ts, E, at(d3, h), d4, et);
        for (size_t i = 0; i < s.size(); ++i) s[i] += h / 6 * (d1[i] + 2 * d2[i] + 2 * d3[i] + d4[i]);
    }
    return s;
}
static void convergence(Gen& g, Case& c) {
    // A cascade of stores empties from its initial contents.
    int n = g.in(1, 3);
    vector<Tank> ts(n);
    double E = g.real(0, 6, 60);
    int days = g.in(1, 4);
    string solver = g.pick<string>({"euler_explicit", "heun_explicit", "rk4", "analytic_linear", "implicit_euler",
                                    "crank_nicolson", "exponential_euler"});
    for (int i = 0; i < n; ++i) {
        Tank& t = ts[i];
        t.k = f32(g.logreal(0.02, 0.8));
        t.s0 = g.real(40, 150, 110);
        if (i + 1 < n) t.to = i + 1;
        if (g.chance(1, 3)) {
            t.perc = f32(g.real(0.1, 2, 19));
            t.percTo = i + 1 < n ? i + 1 : -1;
        }
        if (g.chance(1, 3)) {
            t.cap = 600;
            t.et = g.pick<string>({"et:linear", "et:socont", "et:hbv"});
        } else if (g.chance(1, 3)) {
            t.a = f32(g.real(0, 0.4, 8));
            t.kp = 0.02;
        }
    }
    vector<double> want = exact(ts, E, days);
    double total = 0;
    for (auto& t : ts) total += t.s0;
    for (double w : want)
        if (w < 5) throw Discard{};  // a store about to run dry: the solution has a kink
    auto err = [&](int hours) {
        Spec s;
        s.units = {Unit{}};
        s.units[0].covers = {{"ground", "generic_land_cover", 1}};
        s.solver = solver;
        s.dt = hours;
        s.dtUnit = "hour";
        s.steps = days * 24 / hours;
        if (hours == 24 && days == 1) return 0.0;  // a single step
        s.structure = [&ts](SettingsModel& m) {
            m.GeneratePrecipitationSplitters(false);
            m.AddLandCoverBrick("ground", "generic_land_cover");
            m.SelectHydroUnitBrick("ground");
            m.AddBrickProcess("outflow", "outflow:direct", "store_0");
            for (size_t i = 0; i < ts.size(); ++i) {
                const Tank& t = ts[i];
                auto name = [&](int k) { return k < 0 ? string("outlet") : format("store_{}", k); };
                m.AddHydroUnitBrick(name(static_cast<int>(i)), "storage");
                if (t.cap > 0) m.AddBrickParameter("capacity", static_cast<float>(t.cap));
                m.AddBrickProcess("outflow", "outflow:linear", name(t.to));
                m.AddProcessParameter("response_factor", static_cast<float>(t.k));
                if (t.perc > 0) {
                    m.AddBrickProcess("percolation", "percolation:constant", name(t.percTo));
                    m.AddProcessParameter("percolation_rate", static_cast<float>(t.perc));
                }
                if (t.a >= 0) {
                    m.AddBrickProcess("power", "runoff:hbv", name(t.to));
                    m.AddProcessParameter("response_factor", static_cast<float>(t.kp));
                    m.AddProcessParameter("alpha", static_cast<float>(t.a));
                }
                if (!t.et.empty()) m.AddBrickProcess("et", t.et);
            }
            m.AddLoggingToItem("outlet");
        };
        s.forcing = {{"precipitation", {vector<double>(s.steps, 0)}}, {"pet", {vector<double>(s.steps, E)}}};
        s.beforeRun = [&ts](ModelHydro& m) {
            for (size_t i = 0; i < ts.size(); ++i)
                m.GetSubBasin()->GetHydroUnit(0)->GetBrick(format("store_{}", i))->UpdateContent(ts[i].s0, ContentType::Water);
            m.SaveAsInitialState();
        };
        Out o = simulate(s);
        double e = 0;
        for (int i = 0; i < n; ++i)
            e = std::max(e, std::fabs(o.h(format("store_{}:water_content", i), 0).back() - want[i]));
        return e / total;
    };
    c.tag(solver);
    c.desc << format("solver {} days {} E {}\n", solver, days, E);
    for (auto& t : ts)
        c.desc << format("store k={} s0={} perc={} et={} a={}\n", t.k, t.s0, t.perc, t.et, t.a);
    double e12 = err(12), e3 = err(3), e1 = err(1);
    if (getenv("HB_ERR")) for (int h : {12, 8, 6, 4, 3, 2, 1}) fprintf(stderr, "%d h: %.4g\n", h, err(h));
    bool high = solver == "heun_explicit" || solver == "rk4" || solver == "crank_nicolson";
    // First-order schemes: error about k^2 h T / 2 per unit of store; second-order ones: (k h)^2.
    double b1 = high ? 2e-4 : 1.2e-2;
    check(e1 <= b1, format("error with steps of 1 h is {:.3g} (relative to the initial content), more than {:.3g}", e1, b1));
    // Errors of opposite signs may cancel with one of the steps, so small errors decide nothing.
    double worst = std::max(e12, e3);
    check(e1 <= (high ? std::max(0.2 * worst, 2e-6) : std::max(0.4 * worst, 1e-4)),
          format("error does not decrease: {:.3g} with 12 h, {:.3g} with 3 h, {:.3g} with 1 h", e12, e3, e1));
    c.nontrivial = e12 > 1e-5;
}
const std::vector<pbt::Sub>& pbt::subs() {
    static const std::vector<Sub> s = {
        {"networks", networks, 110000, 2200000, "random networks of stores, every solver; non-trivial: at least two kinds of process move water"},
        {"models", models, 50000, 1000000, "SOCONT and HBV structures, every solver; non-trivial: infiltration and evapotranspiration occur"},
        {"convergence", convergence, 12000, 300000, "emptying cascades with steps of 12, 3 and 1 h against the exact solution; non-trivial: error at 12 h above 1e-5"}};
    return s;
}
