// Lookups in sorted arrays, unit conversions, and the models that use them.
#include "../gen.h"
#include "HydroUnitProperty.h"
#include "Utils.h"
using namespace rm;
const char* pbt::propertyId() {
    return "C26";
}

template <class T>
static void findIn(Gen& g, Case& c, const std::function<T(int)>& value) {
    int n = g.chance(1, 8) ? g.in(1, 2) : g.in(1, 40);
    int range = g.pick<int>({2, 5, 40, 400});
    vector<int> k;
    for (int i = 0; i < n; ++i) k.push_back(g.in(-range, range));
    bool down = g.flip();
    std::sort(k.begin(), k.end());
    if (down) std::reverse(k.begin(), k.end());
    vector<T> a;
    for (int x : k) a.push_back(value(x));
    for (int q = g.in(1, 8); q > 0; --q) {
        T v;
        if (g.chance(1, 3))
            v = a[g.below(a.size())];
        else if (g.chance(1, 8))
            v = g.pick<T>({std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), 0});
        else
            v = value(g.in(-range - 3, range + 3)) + (g.flip() ? T(0) : T(g.in(-1, 1) * 0.5));
        T tol = g.flip() ? T(0) : T(g.in(0, 12) / (std::is_integral_v<T> ? 1 : 4.0));
        bool warn = g.chance(1, 50);
        int i = Find(a.data(), a.data() + a.size() - 1, v, tol, warn);
        string what = format("{} values from {} to {}, searching {} within {}: {}", n, a.front(), a.back(), v, tol, i);
        bool exists = false, inside = v >= std::min(a.front(), a.back()) && v <= std::max(a.front(), a.back());
        for (T x : a) exists = exists || std::fabs(static_cast<double>(x) - static_cast<double>(v)) <= static_cast<double>(tol);
        if (exists) {
            check(i >= 0 && i < n, "not found: " + what);
            check(std::fabs(static_cast<double>(a[i]) - static_cast<double>(v)) <= static_cast<double>(tol), "another value: " + what);
        } else if (n == 1) {
            check(i == NOT_FOUND || i == OUT_OF_RANGE, "found where it is not: " + what);
        } else if (inside) {
            check(i == NOT_FOUND, "found where it is not, or declared out of the range: " + what);
        } else {
            check(i == OUT_OF_RANGE, "not declared out of the range: " + what);
        }
        c.tag(exists ? "found" : inside ? "absent" : "out of range");
        if (exists && tol > 0) c.tag("with a tolerance");
    }
    c.tag(n == 1 || a.front() == a.back() ? "constant" : down ? "descending" : "ascending");
    c.nontrivial = n > 1;
}
static void find(Gen& g, Case& c) {
    double step = g.pick<double>({1.0, 0.25, 3.0, 1024.0});
    double off = g.pick<double>({0.0, 0.0, 58849.0, -2000.5});
    switch (g.below(3)) {
        case 0: return findIn<int>(g, c, [](int k) { return 3 * k; });
        case 1: return findIn<float>(g, c, [&](int k) { return static_cast<float>(step * k + off); });
        default: return findIn<double>(g, c, [&](int k) { return step * k + off; });
    }
}

struct Kind {
    string name;
    vector<string> spellings;
    std::function<double(double)> toRad, fromRad;
};
static const vector<Kind>& kinds() {
    static const double pi = std::acos(-1.0);
    static const vector<Kind> k = {
        {"degrees", {"degrees", "degree", "deg", "°"}, [](double x) { return x * (pi / 180); }, [](double r) { return r * (180 / pi); }},
        {"radians", {"radians", "rad"}, [](double x) { return x; }, [](double r) { return r; }},
        {"percent", {"percent", "%"}, [](double x) { return std::atan2(x, 100); }, [](double r) { return 100 * std::sin(r) / std::cos(r); }},
        {"ratio", {"m/m", "m_per_m"}, [](double x) { return std::atan2(x, 1); }, [](double r) { return std::sin(r) / std::cos(r); }}};
    return k;
}
static double angle(Gen& g) {
    // radians, away from the vertical
    switch (g.below(6)) {
        case 0: return 0;
        case 1: return g.logreal(1e-9, 1.5, 100000);
        case 2: return -g.real(0, 1.5, 15000);
        default: return g.real(0, 1.5, 15000);
    }
}
static void conversions(Gen& g, Case& c) {
    double r = angle(g);
    for (auto& from : kinds()) {
        double x = from.fromRad(r);
        string fs = g.pick(from.spellings);
        HydroUnitProperty p("slope", x, fs);
        check(p.GetName() == "slope", "name");
        for (auto& to : kinds())
            for (auto& ts : to.spellings) {
                double want = to.fromRad(from.toRad(x));
                double got = p.GetValue(ts);
                if (!(std::fabs(got - want) <= 1e-12 + 1e-10 * std::fabs(want) * (1 + std::fabs(to.name == "percent" || to.name == "ratio" ? std::tan(r) : 0))))
                    fail(format("{:.12g} {} in {}: {:.15g} instead of {:.15g}", x, fs, ts, got, want));
                // and back
                HydroUnitProperty q("slope", got, ts);
                near(q.GetValue(fs), x, 1e-9 * (1 + std::tan(std::fabs(r))), 1e-12, format("{} {} in {} and back", x, fs, ts));
            }
        // Not convertible: never a number of another kind.
        for (string other : {"m", "m2", "ha", "km2", "", "gradians", "Degrees?"}) check(std::isnan(p.GetValue(other)), format("{} given in '{}'", fs, other));
    }
    double area = g.logreal(1, 1e12, 100000);
    for (string s : {"m2", "m^2"}) {
        HydroUnitProperty p("area", area, s);
        near(p.GetValue(s), area, 0, 0, "area");
        near(p.GetValue("ha"), area * 1e-4, 1e-14, 0, "area in ha");
        near(p.GetValue("km2"), area * 1e-6, 1e-14, 0, "area in km2");
        near(p.GetValue("km^2"), area * 1e-6, 1e-14, 0, "area in km^2");
        for (string other : {"m", "deg", "rad", "%", "m/m", ""}) check(std::isnan(p.GetValue(other)), format("{} given in '{}'", s, other));
    }
    string u = g.pick<string>({"m", "whatever", "", "d", "°C"});
    HydroUnitProperty p("x", area, u);
    near(p.GetValue(u), area, 0, 0, "value in its own unit");
    c.desc << format("{:.12g} rad, {:.12g} m2\n", r, area);
    c.nontrivial = r != 0;
}

// A unit holds the properties it was given.
static void properties(Gen& g, Case& c) {
    HydroUnitSettings s;
    s.id = g.in(1, 1000);
    s.area = g.real(1, 1e6, 1000);
    s.elevation = g.real(0, 4000, 1000);
    vector<string> names{"slope", "slop", "slope2", "aspect", "Slope", "", "canopy height", "x"};
    g.shuffle(names);
    int n = g.in(0, 4), m = g.in(0, 4);
    vector<double> vals;
    vector<string> units, texts;
    for (int i = 0; i < n; ++i) {
        vals.push_back(g.real(-100, 100, 20000));
        units.push_back(g.pick<string>({"m", "deg", "", "%"}));
        s.propertiesDouble.push_back({names[i], vals[i], units[i]});
    }
    for (int i = 0; i < m; ++i) {
        texts.push_back(g.pick<string>({"N", "S", "east", "a b", "é"}));
        s.propertiesString.push_back({names[n + i], texts[i]});
    }
    HydroUnit u(s.area);
    u.SetProperties(s);
    check(u.GetId() == s.id, "identifier");
    near(u.GetArea(), s.area, 0, 0, "area");
    auto throws = [](auto fn) {
        try {
            fn();
        } catch (const std::exception&) {
            return true;
        }
        return false;
    };
    for (int i = 0; i < static_cast<int>(names.size()); ++i) {
        if (i < n) {
            near(u.GetPropertyDouble(names[i], units[i]), vals[i], 0, 0, "property " + names[i]);
            near(u.GetPropertyFloat(names[i], units[i]), vals[i], 1e-7, 0, "property " + names[i]);
        } else if (i < n + m) {
            check(u.GetPropertyString(names[i]) == texts[i - n], "property " + names[i]);
        } else {
            check(throws([&] { (void)u.GetPropertyDouble(names[i], "m"); }), "a property that was not given: " + names[i]);
            check(throws([&] { (void)u.GetPropertyString(names[i]); }), "a property that was not given: " + names[i]);
        }
    }
    c.desc << format("{} numbers, {} texts\n", n, m);
    c.nontrivial = n + m > 1;
}

// Redistribution of snow over slopes given in different units.
static void models(Gen& g, Case& c) {
    Opt o;
    o.lateralAny = true;
    o.lateral12 = 12;
    o.maxSteps = 25;
    o.families = {"net", "hbv", "socont"};
    RM r = genModel(g, o);
    if (r.s.laterals.empty() || r.s.extraBasin) throw Discard{};
    c.desc << showRM(r);
    vector<std::pair<double, string>> given;
    for (auto& u : r.s.units) {
        auto& k = g.pick(kinds());
        double x = k.fromRad(std::atan(u.slope));
        given.push_back({x, g.pick(k.spellings)});
        c.desc << format("slope {:.6g} {}\n", x, given.back().second);
    }
    Out a = simulate(r.s);
    Spec s = r.s;
    s.extraBasin = [&](SettingsBasin& b) {
        b.Clear();
        for (size_t i = 0; i < s.units.size(); ++i) {
            auto& u = s.units[i];
            b.AddHydroUnit(u.id, u.area, u.elev);
            b.AddHydroUnitPropertyString("aspect_class", u.aspect);
            b.AddHydroUnitPropertyDouble("elevation", u.elev, "m");
            b.AddHydroUnitPropertyDouble("slope", given[i].first, given[i].second);
            for (auto& v : u.covers) b.AddLandCover(v.name, v.type, v.frac);
        }
        for (auto& l : s.laterals) b.AddLateralConnection(l.from, l.to, l.frac, l.type);
    };
    // The slope is used in single precision: only its rounding may differ.
    compareOut(a, simulate(s), 1e-4, 1e-4, "slopes in other units");
    tags(c, r);
    c.nontrivial = a.totalOutlet > 0;
}

const std::vector<pbt::Sub>& pbt::subs() {
    static const std::vector<Sub> s = {
        {"find", find, 1200000, 24000000, "searches in random sorted arrays against a linear scan; non-trivial: at least two values"},
        {"conversions", conversions, 150000, 3000000, "every pair of units and spellings, against trigonometry; non-trivial: not horizontal"},
        {"properties", properties, 300000, 6000000, "properties of a unit read by name; non-trivial: at least two"},
        {"models", models, 60000, 1200000, "snow redistribution with the slopes in several units; non-trivial: some discharge"}};
    return s;
}
