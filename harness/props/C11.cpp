// Metamorphic relations on the spatial discretisation: scaling, renumbering, reordering, splitting, units alone.
#include "../gen.h"
using namespace rm;
const char* pbt::propertyId() {
    return "C11";
}
static void setInit(Spec& s, const vector<Init>& in) {
    s.beforeRun = [in](ModelHydro& m) {
        for (const auto& i : in) {
            Brick* b = i.unit < 0 ? m.GetSubBasin()->GetBrick(i.brick) : m.GetSubBasin()->GetHydroUnit(i.unit)->GetBrick(i.brick);
            b->UpdateContent(i.value, i.type);
        }
        if (!in.empty()) m.SaveAsInitialState();
    };
}
static void vec(const vector<double>& a, const vector<double>& b, double rel, double ab, const string& w) {
    check(a.size() == b.size(), w + ": lengths");
    for (size_t i = 0; i < a.size(); ++i) near(b[i], a[i], rel, ab, format("{} at step {}", w, i));
}
// Tolerance: the area fractions differ in their last digits; contents below 1e-8 are dropped by the core.
static double top(const Out& o) {
    double m = 1;
    for (auto& [l, v] : o.hu)
        for (auto& r : v)
            for (double x : r)
                if (std::isfinite(x)) m = std::max(m, std::fabs(x));
    return m;
}
static void totals(const Out& a, const Out& b, double ab, const string& w) {
    near(b.totalOutlet, a.totalOutlet, 1e-6, ab, w + ": total discharge");
    near(b.totalEt, a.totalEt, 1e-6, ab, w + ": total evapotranspiration");
    near(b.dWater, a.dWater, 1e-6, ab, w + ": total water storage change");
    near(b.dSnow, a.dSnow, 1e-6, ab, w + ": total snow storage change");
    near(b.dIce, a.dIce, 1e-6, ab, w + ": total ice storage change");
}
static bool active(const Out& o) {
    double q = 0;
    for (double x : o.s("outlet")) q += x;
    return q > 1e-3;
}

static Opt options() {
    Opt o;
    o.maxUnits = 4;
    return o;
}

static void scaling(Gen& g, Case& c) {
    Opt o = options();
    o.lateral12 = 6;
    o.quickSocont = false;
    RM r = genModel(g, o);
    bool exact = g.flip();
    double k = exact ? std::pow(2.0, g.in(-4, 6)) : g.logreal(0.01, 100, 1000);
    bool ids = g.flip();
    tags(c, r);
    c.desc << format("areas x {:.17g}, renumbered {}\n", k, ids) << showRM(r);
    Out a = simulate(r.s);
    Spec s = r.s;
    map<int, int> newId;
    vector<int> order;
    for (size_t u = 0; u < s.units.size(); ++u) order.push_back(static_cast<int>(u));
    g.shuffle(order);
    for (size_t u = 0; u < s.units.size(); ++u) {
        int id = ids ? 100 - 9 * order[u] : s.units[u].id;
        newId[s.units[u].id] = id;
        s.units[u].id = id;
        s.units[u].area *= k;
    }
    for (auto& l : s.laterals) {
        l.from = newId[l.from];
        l.to = newId[l.to];
    }
    Out b = simulate(s);
    compareOut(a, b, exact ? 0 : 1e-6, exact ? 1e-12 : 1e-7 * top(a), "scaled / renumbered");
    totals(a, b, exact ? 1e-9 : 1e-6 * top(a), "scaled / renumbered");
    c.nontrivial = active(a);
}

static void reordering(Gen& g, Case& c) {
    Opt o = options();
    o.lateral = false;
    RM r = genModel(g, o);
    tags(c, r);
    int U = static_cast<int>(r.s.units.size());
    if (U < 2) return;
    vector<int> order;
    for (int u = 0; u < U; ++u) order.push_back(u);
    g.shuffle(order);
    c.desc << "order " ;
    for (int u : order) c.desc << u << " ";
    c.desc << "\n" << showRM(r);
    Out a = simulate(r.s);
    Spec s = r.s;
    for (int u = 0; u < U; ++u) s.units[u] = r.s.units[order[u]];
    for (size_t f = 0; f < s.forcing.size(); ++f)
        if (s.forcing[f].v.size() > 1)
            for (int u = 0; u < U; ++u) s.forcing[f].v[u] = r.s.forcing[f].v[order[u]];
    auto in = r.init;
    for (auto& i : in)
        if (i.unit >= 0)
            for (int u = 0; u < U; ++u)
                if (order[u] == i.unit) {
                    i.unit = u;
                    break;
                }
    setInit(s, in);
    Out b = simulate(s);
    double ab = 1e-7 * top(a);
    for (auto& [l, v] : a.sub) vec(v, b.s(l), 1e-6, ab, l);
    for (auto& [l, v] : a.hu)
        for (int u = 0; u < U; ++u) vec(v[order[u]], b.h(l, u), 1e-6, ab, format("{} of unit {}", l, order[u]));
    for (auto& [l, v] : a.frac)
        for (int u = 0; u < U; ++u) vec(v[order[u]], b.frac[l][u], 0, 0, "fraction " + l);
    totals(a, b, 1e-6 * top(a), "reordered");
    bool moved = false;
    for (int u = 0; u < U; ++u) moved |= order[u] != u;
    c.nontrivial = active(a) && moved;
}

static void splitting(Gen& g, Case& c) {
    Opt o = options();
    o.lateral = false;
    o.quickSocont = false;
    o.maxUnits = 3;
    RM r = genModel(g, o);
    tags(c, r);
    int U = static_cast<int>(r.s.units.size());
    int cut = g.in(0, U - 1), parts = g.in(2, 4);
    vector<double> w(parts);
    double sum = 0;
    for (auto& x : w) sum += x = g.in(1, 12);
    Spec s = r.s;
    s.units.clear();
    vector<int> from;
    for (int u = 0; u < U; ++u)
        for (int k = 0; k < (u == cut ? parts : 1); ++k) {
            s.units.push_back(r.s.units[u]);
            s.units.back().id = 3 + 2 * static_cast<int>(from.size());
            if (u == cut) s.units.back().area *= w[k] / sum;
            from.push_back(u);
        }
    for (size_t f = 0; f < s.forcing.size(); ++f)
        if (s.forcing[f].v.size() > 1) {
            s.forcing[f].v.clear();
            for (int u : from) s.forcing[f].v.push_back(r.s.forcing[f].v[u]);
        }
    vector<Init> in;
    for (auto& i : r.init) {
        if (i.unit < 0) in.push_back(i);
        for (size_t u = 0; u < from.size() && i.unit >= 0; ++u)
            if (from[u] == i.unit) in.push_back({static_cast<int>(u), i.brick, i.type, i.value});
    }
    setInit(s, in);
    c.desc << format("unit #{} split in {} parts\n", cut, parts) << showRM(r);
    Out a = simulate(r.s), b = simulate(s);
    double ab = 1e-7 * top(a);
    for (auto& [l, v] : a.sub) vec(v, b.s(l), 1e-6, ab, l);
    for (auto& [l, v] : a.hu)
        for (size_t u = 0; u < from.size(); ++u) {
            // Recorded amounts leaving for the outlet or the sub-basin include the share of the unit in the basin.
            const auto& x = v[from[u]];
            const auto& y = b.h(l, static_cast<int>(u));
            double share = from[u] == cut ? s.units[u].area / r.s.units[cut].area : 1;
            bool same = true, scaled = true;
            for (size_t t = 0; t < x.size(); ++t) {
                if (!pbt::close(x[t], y[t], 1e-6, ab)) same = false;
                if (!pbt::close(x[t] * share, y[t], 1e-6, ab)) scaled = false;
            }
            if (isContent(l) || from[u] != cut) scaled = false;
            if (!same && !scaled) vec(x, y, 1e-6, ab, format("{} of unit {} (part {})", l, from[u], u));
        }
    totals(a, b, 1e-6 * top(a), "split");
    c.nontrivial = active(a);
}

static void alone(Gen& g, Case& c) {
    Opt o = options();
    o.lateral = false;
    o.netBasin = false;
    o.multiDay = false;  // the limits of an over-drained sub-basin store are not linear
    o.maxUnits = 4;
    RM r = genModel(g, o);
    r.init.erase(std::remove_if(r.init.begin(), r.init.end(), [](const Init& i) { return i.unit < 0; }), r.init.end());
    setInit(r.s, r.init);
    tags(c, r);
    int U = static_cast<int>(r.s.units.size());
    c.desc << showRM(r);
    Out a = simulate(r.s);
    double area = 0;
    for (auto& u : r.s.units) area += u.area;
    vector<double> q(a.T), et(1);
    double totQ = 0, totEt = 0, dw = 0, ds = 0, di = 0;
    for (int u = 0; u < U; ++u) {
        Spec s = r.s;
        s.units = {r.s.units[u]};
        for (auto& f : s.forcing)
            if (f.v.size() > 1) f.v = {vector<double>(f.v[u])};
        vector<Init> in;
        for (auto i : r.init)
            if (i.unit == u) {
                i.unit = 0;
                in.push_back(i);
            }
        setInit(s, in);
        Out b = simulate(s);
        double w = r.s.units[u].area / area;
        for (int t = 0; t < a.T; ++t) q[t] += w * b.s("outlet")[t];
        totQ += w * b.totalOutlet;
        totEt += w * b.totalEt;
        dw += w * b.dWater;
        ds += w * b.dSnow;
        di += w * b.dIce;
        for (auto& [l, v] : a.hu)
            if (isContent(l)) vec(v[u], b.h(l, 0), 1e-6, 1e-7 * top(a), format("{} of unit {} alone", l, u));
    }
    double ab = 1e-6 * top(a);
    vec(a.s("outlet"), q, 1e-6, ab, "weighted sum of the discharge of the units alone");
    Out w;
    w.totalOutlet = totQ;
    w.totalEt = totEt;
    w.dWater = dw;
    w.dSnow = ds;
    w.dIce = di;
    totals(a, w, 1e-5 * top(a), "units alone");
    c.nontrivial = active(a) && U > 1;
}

// A land cover cut in two covers with the same properties.
static void covers(Gen& g, Case& c) {
    Opt o = options();
    o.lateral = false;
    o.families = {"hbv", "net", "socont"};
    o.maxUnits = 2;
    RM r = genModel(g, o);
    tags(c, r);
    Cfg d = r.c;
    bool glacier = !d.glaciers.empty() && d.glaciers.size() < 2 && g.flip();
    if (!glacier && (d.family == "socont" || (d.family == "hbv" && !d.sharedSoil) || d.soilCovers.size() > 2)) return;
    string from = glacier ? "glacier" : d.soilCovers[g.below(d.soilCovers.size())], to = glacier ? "glacier_debris" : "pasture";
    size_t pos = 0;
    for (size_t i = 0; i < d.soilCovers.size(); ++i)
        if (d.soilCovers[i] == from) pos = i;
    if (glacier) {
        d.glaciers.push_back(to);
    } else {
        d.soilCovers.push_back(to);
        d.canopy.push_back(!d.canopy.empty() && d.canopy[pos]);
        if (!d.coverProcs.empty()) d.coverProcs.push_back(d.coverProcs[pos]);
        if (d.family == "hbv") d.sharedSoil = true;
    }
    Spec s = r.s;
    for (auto& u : s.units) {
        double part = g.pick<double>({0, 0.25, 0.5, 0.7, 1});
        for (size_t i = 0; i < u.covers.size(); ++i)
            if (u.covers[i].name == from) {
                Cover x = u.covers[i];
                x.name = to;
                x.frac *= part;
                u.covers[i].frac *= 1 - part;
                u.covers.push_back(x);
                break;
            }
    }
    auto copies = [&](const string& comp) -> string {
        for (string suffix : {"", "_snowpack", "_canopy"})
            if (comp == from + suffix) return to + suffix;
        return "";
    };
    vector<Param> ps;
    for (auto& p : s.params) {
        ps.push_back(p);
        string k = copies(p.comp);
        if (!k.empty()) ps.push_back({k, p.name, p.value});
    }
    s.params = ps;
    vector<Init> in;
    for (auto& i : r.init) {
        in.push_back(i);
        string k = copies(i.brick);
        if (!k.empty()) in.push_back({i.unit, k, i.type, i.value});
    }
    setInit(s, in);
    s.structure = [d](SettingsModel& m) { build(m, d); };
    c.desc << "cover " << from << " cut in " << from << " and " << to << "\n" << showRM(r) << showSpec(s);
    Out a = simulate(r.s), b = simulate(s);
    double ab = 1e-7 * top(a);
    vec(a.s("outlet"), b.s("outlet"), 1e-6, ab, "outlet");
    bool both = false;
    for (auto& [l, v] : a.hu) {
        if (!isContent(l)) continue;
        string comp = l.substr(0, l.find(':')), k = copies(comp);
        for (size_t u = 0; u < v.size(); ++u) {
            if (k.empty()) {
                vec(v[u], b.h(l, static_cast<int>(u)), 1e-6, ab, format("{} of unit {}", l, u));
                continue;
            }
            auto frac = [&](const Unit& un, const string& n) {
                for (auto& x : un.covers)
                    if (x.name == n) return x.frac;
                return 0.0;
            };
            bool e1 = frac(s.units[u], from) > 1e-6, e2 = frac(s.units[u], to) > 1e-6;
            if (e1) vec(v[u], b.h(l, static_cast<int>(u)), 1e-6, ab, format("{} of unit {}", l, u));
            if (e2) vec(v[u], b.h(k + l.substr(l.find(':')), static_cast<int>(u)), 1e-6, ab, format("{} of unit {} (copy)", l, u));
            both |= e1 && e2;
        }
    }
    totals(a, b, 1e-6 * top(a), "cover cut in two");
    c.nontrivial = active(a) && both;
}
const std::vector<pbt::Sub>& pbt::subs() {
    static const std::vector<Sub> s = {
        {"scaling", scaling, 30000, 600000, "all areas scaled and identifiers changed; non-trivial: discharge occurs"},
        {"reordering", reordering, 30000, 600000, "units in another order; non-trivial: discharge occurs and the order differs"},
        {"splitting", splitting, 30000, 600000, "a unit cut in 2-4 parts; non-trivial: discharge occurs"},
        {"alone", alone, 20000, 400000, "each unit simulated alone; non-trivial: discharge occurs, several units"},
        {"covers", covers, 40000, 800000, "a land cover cut in two; non-trivial: discharge occurs and both parts exist"}};
    return s;
}
