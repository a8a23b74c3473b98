// Physical bounds of everything recorded: finite, non-negative, within capacity, evapotranspiration within the demand.
#include "../gen.h"
using namespace rm;
const char* pbt::propertyId() {
    return "C02";
}

static double param(const RM& r, const string& comp, const string& name, double dflt) {
    for (auto& p : r.s.params)
        if (p.comp == comp && p.name == name) dflt = p.value;
    return f32(dflt);
}
static double forcing(const RM& r, const string& var, int u, int t) {
    for (auto& f : r.s.forcing)
        if (f.var == var) return f.v.size() == 1 ? f.v[0][t] : f.v[u][t];
    return 0;
}

static void boundsOf(Case& c, const RM& r, const Out& o) {
    check(o.T == r.s.steps, "number of recorded steps");
    auto value = [&](const string& l, double x, int u, int t) {
        if (!std::isfinite(x)) fail(format("{} of unit {} at step {} is {}", l, u, t, x));
        string comp = l.substr(0, l.find(':'));
        for (auto& n : r.anyNegative)
            if (comp == n && (isContent(l) || l.find("_store") != string::npos || l.ends_with("internal_storage"))) return;
        if (x < -1e-9) fail(format("{} of unit {} at step {} is negative: {:.12g}", l, u, t, x));
    };
    double top = 0;
    for (auto& [l, v] : o.sub)
        for (int t = 0; t < o.T; ++t) value(l, v[t], -1, t);
    for (auto& [l, v] : o.hu)
        for (int u = 0; u < o.U; ++u)
            for (int t = 0; t < o.T; ++t) {
                value(l, v[u][t], u, t);
                top = std::max(top, std::fabs(v[u][t]));
            }
    for (auto& [l, v] : o.frac)
        for (int u = 0; u < o.U; ++u)
            for (int t = 0; t < o.T; ++t)
                if (!(v[u][t] >= 0 && v[u][t] <= 1)) fail(format("fraction {} of unit {} at step {}: {}", l, u, t, v[u][t]));

    // Capacities.
    bool full = false;
    for (auto& [store, cap] : r.capacity) {
        string l = store + ":water_content";
        if (!o.hasH(l)) continue;
        for (int u = 0; u < o.U; ++u)
            for (int t = 0; t < o.T; ++t) {
                double x = o.h(l, u)[t];
                if (x > cap * (1 + 1e-7) + 2e-5 + 1e-7 * top)
                    fail(format("{} of unit {} at step {}: {:.12g} above its capacity {:.12g}", l, u, t, x, cap));
                full |= x > 0.999 * cap;
            }
    }
    if (full) c.tag("store_full");

    // Evapotranspiration of a single process within its potential demand.
    bool limited = false, met = false;
    for (auto& [comp, proc] : r.et) {
        string l = comp + ":" + proc + ":output";
        if (!o.hasH(l)) continue;
        bool snow = comp.ends_with("_snowpack");
        for (int u = 0; u < o.U; ++u)
            for (int t = 0; t < o.T; ++t) {
                double pot = forcing(r, "pet", u, t);
                if (snow)
                    pot = r.c.sublimation == "sublimation:constant" ? param(r, comp, "sublimation_rate", 0.1)
                                                                    : pot * param(r, comp, "sublimation_pet_factor", 0.2);
                else
                    pot *= std::max(1.0, param(r, comp, "et_correction_factor", 1.0));
                double e = o.h(l, u)[t], cap = pot * r.s.dtDays();
                if (e > cap * (1 + 1e-6) + 1e-5) fail(format("{} of unit {} at step {}: {:.12g} exceeds the demand {:.12g}", l, u, t, e, cap));
                limited |= e > 0 && e < cap * 0.9;
                met |= cap > 0 && e > 0.9 * cap;
            }
    }
    // GR models: what the production store gives is the demand left by the interception.
    if (r.c.family == "gr")
        for (int u = 0; u < o.U; ++u)
            for (int t = 0; t < o.T; ++t) {
                double e = o.h("ground:interception:output", u)[t] + o.h("production_store:et:output", u)[t], pot = forcing(r, "pet", u, t);
                if (e > pot * (1 + 1e-6) + 1e-5) fail(format("total evapotranspiration of unit {} at step {}: {:.12g} exceeds the demand {:.12g}", u, t, e, pot));
            }
    if (limited) c.tag("limited_et");
    double q = 0;
    for (double x : o.s("outlet")) q += x;
    c.nontrivial = q > 1e-3 && (limited || met || full || r.et.empty());
}

static void bounds(Gen& g, Case& c) {
    Opt o;
    o.extreme = true;
    o.spinup = true;
    RM r = genModel(g, o);
    tags(c, r);
    c.desc << showRM(r);
    Out out = simulate(r.s);
    boundsOf(c, r, out);
}
// Long floods and droughts on small stores: every store goes from empty to full and back.
static void surges(Gen& g, Case& c) {
    Opt o;
    o.extreme = true;
    o.minSteps = 20;
    o.maxSteps = 120;
    o.maxUnits = 2;
    RM r = genModel(g, o);
    for (auto& f : r.s.forcing) {
        if (f.var != "precipitation" && f.var != "pet") continue;
        for (auto& row : f.v) {
            size_t t = 0;
            while (t < row.size()) {
                int len = g.in(1, 25);
                double level = g.pick<double>({0, 0, 1, 20});
                for (int k = 0; k < len && t < row.size(); ++k, ++t)
                    row[t] = f.var == "pet" ? row[t] * level * 0.2 : row[t] * level;
            }
        }
    }
    tags(c, r);
    c.desc << showRM(r);
    Out out = simulate(r.s);
    boundsOf(c, r, out);
}
const std::vector<pbt::Sub>& pbt::subs() {
    static const std::vector<Sub> s = {
        {"bounds", bounds, 90000, 2000000, "random model of any family, solver, options, basin and (extreme) forcing; non-trivial: discharge occurs and evapotranspiration or a store reaches its limit"},
        {"surges", surges, 40000, 800000, "floods and droughts of random length; non-trivial: as above"}};
    return s;
}
