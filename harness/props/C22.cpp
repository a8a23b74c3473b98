// NetCDF layer and basin files: what is written is read back.
#include <set>

#include "../deliver.h"
#include "../gen.h"
#include "FileNetcdf.h"
using namespace rm;
using deliver::File;
using deliver::ok;
const char* pbt::propertyId() {
    return "C22";
}

static bool same(double a, double b) {
    return a == b || (std::isnan(a) && std::isnan(b));
}
static double number(Gen& g) {
    switch (g.below(8)) {
        case 0: return g.pick<double>({0.0, -0.0, 1.0, -1.0, 1e-300, 1e300, -1e-45, std::nan(""), HUGE_VAL, -HUGE_VAL, 9.96921e36});
        case 1: return g.in(-100000, 100000);
        default: return (g.flip() ? -1 : 1) * g.logreal(1e-9, 1e9, 1000000);
    }
}
static string text(Gen& g, bool nonEmpty) {
    string s;
    int n = g.in(nonEmpty ? 1 : 0, 20);
    for (int i = 0; i < n; ++i) s += g.pick<string>({"a", "Z", "0", " ", "_", "-", ":", "é", "°", "m2", "\n", "%", "/"});
    return s;
}
static bool throws(const std::function<void()>& f) {
    try {
        f();
    } catch (const Fail&) {
        throw;
    } catch (const std::exception&) {
        return true;
    }
    return false;
}

static void layer(Gen& g, Case& c) {
    struct Var {
        string name;
        int kind;  // 0 int, 1 float, 2 double vector, 3 double array, 4 2-D, 5 3-D
        vector<int> dims;
        bool compress;
        vector<double> v;
        vector<std::pair<string, string>> texts;
        vector<std::pair<string, vector<string>>> lists;
        int id;
    };
    File f;
    vector<int> lens;
    int nd = g.in(1, 4);
    for (int i = 0; i < nd; ++i) lens.push_back(g.in(1, 9));
    vector<Var> vars;
    int nv = g.in(1, 5);
    for (int i = 0; i < nv; ++i) {
        Var v;
        v.name = format("var{}_{}", i, g.pick<string>({"", "x", "precipitation", "area-2", "content of water"}));
        if (v.name.back() == '_') v.name.pop_back();
        v.kind = g.in(0, 5);
        int n = v.kind < 4 ? 1 : v.kind == 4 ? 2 : 3;
        size_t total = 1;
        for (int k = 0; k < n; ++k) {
            v.dims.push_back(g.in(0, nd - 1));
            total *= lens[v.dims.back()];
        }
        v.compress = g.flip();
        for (size_t k = 0; k < total; ++k) {
            double x = number(g);
            if (v.kind == 0) x = g.chance(1, 6) ? g.pick<double>({2147483647.0, -2147483648.0, 0.0}) : g.in(-1000000, 1000000);
            if (v.kind == 1) x = static_cast<double>(static_cast<float>(x));
            v.v.push_back(x);
        }
        for (int k = g.in(0, 2); k > 0; --k) v.texts.push_back({format("text{}", k), text(g, false)});
        for (int k = g.in(0, 1); k > 0; --k) {
            vector<string> l;
            for (int q = g.in(1, 5); q > 0; --q) l.push_back(text(g, false));
            v.lists.push_back({format("list{}", k), l});
        }
        vars.push_back(v);
    }
    vector<std::pair<string, string>> globalTexts;
    vector<std::pair<string, vector<string>>> globalLists;
    for (int k = g.in(0, 2); k > 0; --k) globalTexts.push_back({format("title {}", k), text(g, false)});
    for (int k = g.in(0, 2); k > 0; --k) {
        vector<string> l;
        for (int q = g.in(1, 6); q > 0; --q) l.push_back(text(g, false));
        globalLists.push_back({format("labels{}", k), l});
    }
    c.desc << format("{} dimensions, {} variables, {} + {} global attributes\n", nd, nv, globalTexts.size(), globalLists.size());
    for (auto& v : vars) c.desc << format("'{}' kind {} dims {} values {}\n", v.name, v.kind, v.dims.size(), show(v.v, 8));

    {
        FileNetcdf nc;
        check(nc.Create(f.path), "creation of the file");
        vector<int> ids;
        for (int i = 0; i < nd; ++i) ids.push_back(nc.DefDim(format("dim{}", i), lens[i]));
        bool first = g.flip();  // all the definitions first, or one variable after the other
        auto define = [&](Var& v) {
            vector<int> d;
            for (int k : v.dims) d.push_back(ids[k]);
            int n = static_cast<int>(d.size());
            v.id = v.kind == 0 ? nc.DefVarInt(v.name, d, n, v.compress) : v.kind == 1 ? nc.DefVarFloat(v.name, d, n, v.compress) : nc.DefVarDouble(v.name, d, n, v.compress);
            for (auto& [a, s] : v.texts) nc.PutAttText(a, s, v.id);
            for (auto& [a, s] : v.lists) nc.PutAttString(a, s, v.id);
        };
        auto put = [&](Var& v) {
            if (v.kind == 0) {
                nc.PutVar(v.id, vecInt(v.v.begin(), v.v.end()));
            } else if (v.kind == 1) {
                nc.PutVar(v.id, vecFloat(v.v.begin(), v.v.end()));
            } else if (v.kind == 2) {
                nc.PutVar(v.id, vecDouble(v.v.begin(), v.v.end()));
            } else if (v.kind == 3) {
                axd a(v.v.size());
                for (size_t i = 0; i < v.v.size(); ++i) a[i] = v.v[i];
                nc.PutVar(v.id, a);
            } else if (v.kind == 4) {
                int n1 = lens[v.dims[0]], n2 = lens[v.dims[1]];
                vecAxd a(n1, axd(n2));
                for (int i = 0; i < n1; ++i)
                    for (int j = 0; j < n2; ++j) a[i][j] = v.v[i * n2 + j];
                nc.PutVar(v.id, a);
            } else {
                int n1 = lens[v.dims[0]], n2 = lens[v.dims[1]], n3 = lens[v.dims[2]];
                vecAxxd a(n1, axxd(n3, n2));
                for (int i = 0; i < n1; ++i)
                    for (int j = 0; j < n2; ++j)
                        for (int k = 0; k < n3; ++k) a[i](k, j) = v.v[(i * n2 + j) * n3 + k];
                nc.PutVar(v.id, a);
            }
        };
        if (first) {
            for (auto& v : vars) define(v);
            for (auto& v : vars) put(v);
        } else {
            for (auto& v : vars) {
                define(v);
                put(v);
            }
        }
        for (auto& [a, s] : globalTexts) nc.PutAttText(a, s);
        for (auto& [a, s] : globalLists) nc.PutAttString(a, s);
        if (g.flip()) nc.Close();
    }
    FileNetcdf nc;
    check(nc.OpenReadOnly(f.path), "opening of the file");
    check(nc.GetVariableCount() == nv, "number of variables");
    for (int i = 0; i < nd; ++i) check(nc.GetDimLen(format("dim{}", i)) == lens[i], "length of a dimension");
    check(!nc.HasVar("missing") && !nc.HasAtt("missing"), "missing items");
    check(throws([&] { nc.GetVarId("missing"); }) && throws([&] { nc.GetDimLen("missing"); }) && throws([&] { nc.GetAttText("missing"); }) && throws([&] { nc.GetAttString1D("missing"); }), "missing items are refused");
    auto attributes = [&](const string& var, const vector<std::pair<string, string>>& texts, const vector<std::pair<string, vector<string>>>& lists) {
        for (auto& [a, s] : texts) {
            check(nc.HasAtt(a, var), "attribute " + a);
            string got = nc.GetAttText(a, var);
            check(got == s, format("text '{}' read as '{}'", s, got));
        }
        for (auto& [a, l] : lists) {
            check(nc.HasAtt(a, var), "attribute " + a);
            auto got = nc.GetAttString1D(a, var);
            check(got == l, format("list {} with {} items", a, got.size()));
        }
        check(!nc.HasAtt("missing", var), "missing attribute");
    };
    attributes("", globalTexts, globalLists);
    for (auto& v : vars) {
        check(nc.HasVar(v.name), "variable " + v.name);
        check(nc.GetVarName(nc.GetVarId(v.name)) == v.name, "name of the variable");
        vector<int> d;
        for (int k : v.dims) d.push_back(nc.GetDimId(format("dim{}", k)));
        check(nc.GetVarDimIds(nc.GetVarId(v.name), static_cast<int>(d.size())) == d, "dimensions of " + v.name);
        attributes(v.name, v.texts, v.lists);
        int total = static_cast<int>(v.v.size());
        auto equal = [&](size_t i, double got) {
            if (!same(got, v.v[i])) fail(format("{} at {}: {:.17g} instead of {:.17g}", v.name, i, got, v.v[i]));
        };
        if (v.kind == 0) {
            auto got = nc.GetVarInt1D(v.name, total);
            for (int i = 0; i < total; ++i) equal(i, got[i]);
        } else if (v.kind == 1) {
            auto got = nc.GetVarFloat1D(v.name, total);
            for (int i = 0; i < total; ++i) equal(i, got[i]);
            auto dbl = nc.GetVarDouble1D(v.name, total);
            for (int i = 0; i < total; ++i) equal(i, dbl[i]);
        } else if (v.kind < 4) {
            auto got = nc.GetVarDouble1D(v.name, total);
            for (int i = 0; i < total; ++i) equal(i, got[i]);
        } else if (v.kind == 4) {
            int n1 = lens[v.dims[0]], n2 = lens[v.dims[1]];
            axxd got = nc.GetVarDouble2D(nc.GetVarId(v.name), n2, n1);
            check(got.rows() == n2 && got.cols() == n1, "shape of a 2-D variable");
            for (int i = 0; i < n1; ++i)
                for (int j = 0; j < n2; ++j) equal(i * n2 + j, got(j, i));
        } else {
            int id;
            ok(nc_open(f.path.c_str(), NC_NOWRITE, &id), "open");
            int var;
            ok(nc_inq_varid(id, v.name.c_str(), &var), "var");
            vector<double> got(total);
            ok(nc_get_var_double(id, var, got.data()), "get");
            ok(nc_close(id), "close");
            for (int i = 0; i < total; ++i) equal(i, got[i]);
        }
        // Another size than that of the variable is refused.
        int off = g.pick<int>({-1, 1, 2});
        if (v.kind == 4) {
            int n1 = lens[v.dims[0]], n2 = lens[v.dims[1]];
            check(throws([&] { nc.GetVarDouble2D(nc.GetVarId(v.name), n2 + 1, n1); }), "2-D variable read with another size");
        } else if (v.kind < 4) {
            check(throws([&] { v.kind == 0 ? (void)nc.GetVarInt1D(v.name, total + off) : v.kind == 1 ? (void)nc.GetVarFloat1D(v.name, total + off) : (void)nc.GetVarDouble1D(v.name, total + off); }), "variable read with another size");
        }
        check(throws([&] { nc.GetVarDimIds(nc.GetVarId(v.name), static_cast<int>(d.size()) - 1); }), "dimensions asked with another number");
    }
    c.nontrivial = true;
}

// Basin files.
struct Prop {
    string name, unit;
    bool hasUnit;
    vector<double> v;
};
static void writeBasin(Gen& g, const string& path, const vector<Unit>& units, bool elevation, const vector<Prop>& props, int fault) {
    int nc, du, other, dt;
    const int U = static_cast<int>(units.size());
    ok(nc_create(path.c_str(), NC_CLOBBER | NC_NETCDF4, &nc), "create");
    string dimName = fault == 1 ? "units" : "hydro_units";
    ok(nc_def_dim(nc, dimName.c_str(), U, &du), "dim");
    ok(nc_def_dim(nc, "other", U + 3, &other), "dim");
    ok(nc_def_dim(nc, "months", 12, &dt), "dim");
    struct V {
        int id;
        vector<double> v;
    };
    vector<V> vars;
    vector<std::function<void()>> defs;
    auto def = [&](const string& name, int dim, vector<double> v, nc_type type) {
        int id;
        ok(nc_def_var(nc, name.c_str(), type, 1, &dim, &id), "var");
        vars.push_back({id, std::move(v)});
        return id;
    };
    auto column = [&](auto fn) {
        vector<double> v;
        for (auto& u : units) v.push_back(fn(u));
        return v;
    };
    auto pad = [&](vector<double> v) {
        v.resize(U + 3, 5.0);
        return v;
    };
    auto atext = [&](int id, const string& a, const string& s) { ok(nc_put_att_text(nc, id, a.c_str(), s.size(), s.c_str()), "att"); };
    if (fault != 2)
        defs.push_back([&] {
            auto v = column([](const Unit& u) { return static_cast<double>(u.id); });
            if (fault == 3)
                def("id", other, pad(v), NC_INT);
            else
                def("id", du, v, g.flip() ? NC_INT : NC_INT64);
        });
    if (fault != 4)
        defs.push_back([&] {
            auto v = column([](const Unit& u) { return u.area; });
            int id = fault == 5 ? def("area", other, pad(v), NC_DOUBLE) : def("area", du, v, NC_DOUBLE);
            atext(id, "units", "m2");
        });
    if (elevation)
        defs.push_back([&] {
            auto v = column([](const Unit& u) { return u.elev; });
            int id = fault == 6 ? def("elevation", other, pad(v), NC_DOUBLE) : def("elevation", du, v, NC_DOUBLE);
            atext(id, "units", "m");
        });
    const auto& covers = units[0].covers;
    for (size_t k = 0; k < covers.size(); ++k) {
        if (fault == 7 && k == 0) continue;
        defs.push_back([&, k] {
            auto v = column([&](const Unit& u) { return u.covers[k].frac; });
            int id = fault == 8 && k == 0 ? def(covers[k].name, other, pad(v), NC_DOUBLE) : def(covers[k].name, du, v, NC_DOUBLE);
            if (!(fault == 9 && k == 0)) atext(id, "type", covers[k].type);
            if (g.flip()) atext(id, "units", "fraction");
        });
    }
    for (auto& p : props)
        defs.push_back([&] {
            int id = def(p.name, du, p.v, NC_DOUBLE);
            if (p.hasUnit) atext(id, "units", p.unit);
        });
    // Variables that do not describe units.
    if (g.chance(1, 3)) defs.push_back([&] { def("monthly", dt, vector<double>(12, 3.0), NC_DOUBLE); });
    if (g.chance(1, 3))
        defs.push_back([&] {
            int id, dims[3] = {du, dt, other};
            int n = g.in(2, 3);
            ok(nc_def_var(nc, "table", NC_DOUBLE, n, dims, &id), "var");
            vars.push_back({id, vector<double>(static_cast<size_t>(U) * 12 * (n == 3 ? U + 3 : 1), 1.5)});
        });
    if (g.chance(1, 3))
        defs.push_back([&] {
            int id;
            ok(nc_def_var(nc, "crs", NC_INT, 0, nullptr, &id), "var");
            vars.push_back({id, {2056}});
        });
    g.shuffle(defs);
    for (auto& d : defs) d();
    vector<const char*> names;
    for (auto& x : covers) names.push_back(x.name.c_str());
    string att = g.pick<string>({"land_covers", "surface_names", "land_cover_names"});
    // A single name is often stored as plain text.
    if (names.size() == 1 && g.flip())
        atext(NC_GLOBAL, att, covers[0].name);
    else
        ok(nc_put_att_string(nc, NC_GLOBAL, att.c_str(), names.size(), names.data()), "att");
    ok(nc_enddef(nc), "enddef");
    for (auto& v : vars) ok(nc_put_var_double(nc, v.id, v.v.data()), "put");
    ok(nc_close(nc), "close");
}

static vector<Prop> genProps(Gen& g, size_t U) {
    vector<Prop> props;
    for (string n : {"slope", "aspect_angle", "canopy height", "x1"}) {
        if (g.flip()) continue;
        Prop p{n, g.pick<string>({"m", "%", "°", "degrees", ""}), g.chance(3, 4), {}};
        if (p.unit.empty()) p.hasUnit = false;
        for (size_t u = 0; u < U; ++u) p.v.push_back(g.real(-50, 300, 3500));
        props.push_back(p);
    }
    return props;
}
static vector<Unit> genUnits(Gen& g) {
    vector<Unit> units;
    int U = g.in(1, 6), C = g.in(1, 4);
    static const vector<Cover> kinds{{"ground", "generic_land_cover", 0}, {"forest", "generic_land_cover", 0}, {"glacier-ice", "glacier", 0}, {"debris", "glacier", 0}};
    vector<Cover> covers = kinds;
    g.shuffle(covers);
    covers.resize(C);
    for (int u = 0; u < U; ++u) {
        Unit x;
        x.id = 10 * u + g.in(1, 10);
        x.area = g.logreal(100, 1e9, 100000);
        x.elev = g.real(-10, 4800, 48100);
        x.covers = covers;
        auto f = fractions(g, C, true);
        for (int k = 0; k < C; ++k) x.covers[k].frac = f[k];
        units.push_back(x);
    }
    g.shuffle(units);
    return units;
}

static void basin(Gen& g, Case& c) {
    auto units = genUnits(g);
    auto props = genProps(g, units.size());
    bool elevation = g.chance(4, 5);
    File f;
    writeBasin(g, f.path, units, elevation, props, 0);
    c.desc << format("{} units, {} covers, {} properties\n", units.size(), units[0].covers.size(), props.size());
    SettingsBasin b;
    check(b.Parse(f.path), "a valid basin file is refused");
    check(b.GetHydroUnitCount() == static_cast<int>(units.size()), format("{} units read instead of {}", b.GetHydroUnitCount(), units.size()));
    double total = 0;
    for (size_t u = 0; u < units.size(); ++u) {
        auto s = b.GetHydroUnitSettings(static_cast<int>(u));
        check(s.id == units[u].id, "identifier");
        near(s.area, units[u].area, 0, 0, "area");
        if (elevation) near(s.elevation, units[u].elev, 0, 0, "elevation");
        total += s.area;
        check(s.landCovers.size() == units[u].covers.size(), format("{} covers read instead of {}", s.landCovers.size(), units[u].covers.size()));
        for (size_t k = 0; k < s.landCovers.size(); ++k) {
            check(s.landCovers[k].name == units[u].covers[k].name, "name of the land cover");
            check(s.landCovers[k].type == units[u].covers[k].type, "type of the land cover");
            near(s.landCovers[k].fraction, units[u].covers[k].frac, 0, 0, "fraction of the land cover");
        }
        for (auto& p : props) {
            int n = 0;
            for (auto& q : s.propertiesDouble)
                if (q.name == p.name) {
                    ++n;
                    near(q.value, p.v[u], 0, 0, "property " + p.name);
                    check(q.unit == (p.hasUnit ? p.unit : ""), "unit of the property " + p.name);
                }
            check(n == 1, format("the property {} is read {} times", p.name, n));
        }
        for (auto& q : s.propertiesDouble) check(q.name != "monthly" && q.name != "table" && q.name != "crs", "a variable of another kind is taken for a property of the units");
    }
    near(b.GetTotalArea(), total, 1e-14, 0, "total area");
    c.nontrivial = true;
}

// Models on a basin read from a file.
static void models(Gen& g, Case& c) {
    Opt o;
    o.lateral = false;
    o.melts = {"melt:degree_day", "melt:temperature_index", "melt:cemaneige"};
    o.iceMelts = {"melt:degree_day"};
    o.maxSteps = 20;
    o.spinup = true;
    RM r = genModel(g, o);
    if (r.s.extraBasin) throw Discard{};
    c.desc << showRM(r);
    Out a = simulate(r.s);
    Spec s = r.s;
    File f;
    vector<Prop> props;
    Prop slope{"slope", "m/m", true, {}};
    for (auto& u : s.units) slope.v.push_back(u.slope);
    props.push_back(slope);
    auto listed = s.units;
    writeBasin(g, f.path, listed, true, props, 0);
    s.extraBasin = [&](SettingsBasin& b) {
        b.Clear();
        check(b.Parse(f.path), "a valid basin file is refused");
    };
    compareOut(a, simulate(s), 0, 0, "basin from a file");
    tags(c, r);
    c.nontrivial = a.totalOutlet > 0;
}

static void refused(Gen& g, Case& c) {
    auto units = genUnits(g);
    int fault = g.in(1, 10);
    static const vector<string> names{"", "no hydro_units", "no id", "id of another length", "no area", "area of another length", "elevation of another length",
                                      "cover without fractions", "cover of another length", "cover without a type", "not a file"};
    c.desc << names[fault] << "\n";
    File f;
    if (fault == 10) {
        if (g.flip()) {
            FILE* x = fopen(f.path.c_str(), "w");
            if (!x) fail("harness: file");
            for (int k = g.in(0, 300); k > 0; --k) fputc(g.in(0, 255), x);
            fclose(x);
        }
    } else {
        writeBasin(g, f.path, units, true, genProps(g, units.size()), fault);
    }
    SettingsBasin b;
    check(!b.Parse(f.path), "the basin file is accepted");
    vector<std::unique_ptr<TimeSeries>> ts;
    check(!TimeSeries::Parse(f.path, ts), "accepted as a forcing file");
    c.tag(names[fault]);
    c.nontrivial = true;
}
const std::vector<pbt::Sub>& pbt::subs() {
    static const std::vector<Sub> s = {
        {"layer", layer, 20000, 400000, "variables and attributes of any type and shape written and read through the NetCDF layer; non-trivial: all"},
        {"basin", basin, 20000, 400000, "basin files against what was written with the NetCDF library; non-trivial: all"},
        {"models", models, 10000, 200000, "random models on a basin read from a file, against the same basin in memory; non-trivial: some discharge"},
        {"refused", refused, 20000, 300000, "incomplete or inconsistent basin files; non-trivial: all"}};
    return s;
}
