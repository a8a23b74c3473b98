// No memory error, undefined behaviour or failed assertion, whatever the model, the calls and the (possibly refused) inputs.
// Built with the address and undefined-behaviour sanitizers and the assertions of the libraries (standard library, Eigen).
#include "../deliver.h"
#include "../faults.h"
#include "BrickTypes.h"
#include "FileNetcdf.h"
#include "UtilsDateTime.h"
#include <filesystem>
using namespace faults;
const char* pbt::propertyId() {
    return "C25";
}

static Opt options() {
    Opt o;
    o.maxUnits = 4;
    o.maxSteps = 14;
    o.minSteps = 2;
    o.spinup = true;
    return o;
}
// The forcing may cover more than the period of the model.
static RM model(Gen& g) {
    RM r = genModel(g, options());
    if (g.flip()) return r;
    for (auto& f : r.s.forcing) {
        if (g.chance(1, 4)) continue;
        const int lead = g.in(0, 3), trail = g.in(0, 3);
        for (auto& row : f.v) {
            row.insert(row.begin(), static_cast<size_t>(lead), row.front());
            row.insert(row.end(), static_cast<size_t>(trail), row.back());
        }
        f.lead += lead;
        f.trail += trail;
    }
    return r;
}
struct Dir {
    string path;
    Dir() {
        static int n = 0;
        path = scratchDir() + format("/c25-{}-{}", static_cast<int>(getpid()), ++n);
        std::filesystem::create_directory(path);
    }
    ~Dir() {
        std::error_code e;
        std::filesystem::remove_all(path, e);
    }
};
// The outcome does not matter here (the other properties judge it), as long as it is an ordinary one.
template <class F>
static bool tolerate(F f) {
    try {
        f();
        return true;
    } catch (const Discard&) {
        return false;
    } catch (const Fail&) {
        throw;
    } catch (const std::exception&) {
        return false;
    }
}
static string someLabel(Gen& g, ModelHydro& m) {
    vecStr l = g.flip() ? m.GetRecordedHydroUnitLabels() : m.GetRecordedHydroUnitFractionLabels();
    if (l.empty() || g.chance(1, 4)) return g.pick<string>({"", "nothing", ":", "outlet", "ground:water_content"});
    return g.pick(l);
}
static void access(Gen& g, ModelHydro& m) {
    tolerate([&] { (void)m.GetOutletDischarge().sum(); });
    tolerate([&] { (void)m.GetTotalOutletDischarge(); });
    tolerate([&] { (void)m.GetTotalET(); });
    tolerate([&] { (void)m.GetTotalWaterStorageChanges(); });
    tolerate([&] { (void)m.GetTotalSnowStorageChanges(); });
    tolerate([&] { (void)m.GetTotalGlacierStorageChanges(); });
    tolerate([&] { (void)m.GetHydroUnitIds(); });
    tolerate([&] { (void)m.GetHydroUnitAreas().sum(); });
    for (int k = 0; k < 3; ++k) {
        string l = someLabel(g, m);
        tolerate([&] { (void)m.GetHydroUnitValues(l).sum(); });
        tolerate([&] { (void)m.GetHydroUnitFractions(l).sum(); });
    }
    (void)m.GetActionCount();
    (void)m.GetSporadicActionItemCount();
}

// --- models, as a user runs them
static void models(Gen& g, Case& c) {
    RM r = model(g);
    c.desc << showRM(r);
    Plan plan = genPlan(g, r);
    c.desc << plan.show();
    tags(c, r);
    Owned keep;
    Sim s(r.s);
    s.build();
    bool installed = tolerate([&] { install(plan, r.s, *s.model, keep); });
    s.attach();
    bool ran = tolerate([&] { s.run(); });
    if (ran) (void)read(s);
    access(g, *s.model);
    if (g.chance(1, 3)) {
        Dir d;
        tolerate([&] { s.model->DumpOutputs(d.path); });
    }
    if (g.flip()) {
        if (g.flip()) s.model->SaveAsInitialState();
        s.model->Reset();
        tolerate([&] { s.run(); });
    }
    c.nontrivial = ran && installed;
}

// --- calls in any order on one model
static void sequence(Gen& g, Case& c) {
    RM r = model(g);
    c.desc << showRM(r);
    tags(c, r);
    Spec spec = r.s;
    Sim s(spec);
    s.build();
    Owned keep;
    vector<std::unique_ptr<Attempt>> attempts;
    vector<std::unique_ptr<Plan>> plans;
    ModelHydro& m = *s.model;
    int n = g.in(2, 14), runs = 0;
    for (int k = 0; k < n; ++k) {
        int what = static_cast<int>(g.below(20));
        switch (what) {
            case 0:
            case 1:
            case 2:
                c.desc << "forcing\n";
                m.ClearTimeSeries();
                tolerate([&] { s.attach(); });
                break;
            case 3: {
                c.desc << "one more series\n";
                Attempt a(r);
                tolerate([&] { (void)Attempt::giveTo(m, g.pick(a.forcing)); });
                break;
            }
            case 4:
                c.desc << "clear the forcing\n";
                m.ClearTimeSeries();
                break;
            case 5:
                c.desc << "attach\n";
                tolerate([&] { (void)m.AttachTimeSeriesToHydroUnits(); });
                break;
            case 6:
            case 7:
            case 8:
            case 9: {
                bool ok = false;
                tolerate([&] { ok = m.Run().has_value(); });
                c.desc << (ok ? "run\n" : "run, refused\n");
                runs += ok;
                break;
            }
            case 10:
            case 11:
                c.desc << "reset\n";
                tolerate([&] { m.Reset(); });
                break;
            case 12:
                c.desc << "save as initial state\n";
                tolerate([&] { m.SaveAsInitialState(); });
                break;
            case 13:
                c.desc << "update the parameters\n";
                for (auto& p : spec.params)
                    if (g.flip()) tolerate([&] { (void)s.settings.SetParameterValue(p.comp, p.name, static_cast<float>(p.value * g.real(0.5, 1.5, 10))); });
                tolerate([&] { m.UpdateParameters(s.settings); });
                break;
            case 14: {
                c.desc << "actions\n";
                RM copy = r;
                plans.push_back(std::make_unique<Plan>(genPlan(g, copy)));
                c.desc << plans.back()->show();
                tolerate([&] { (void)install(*plans.back(), spec, m, keep); });
                break;
            }
            case 15: {
                Dir d;
                string where = g.chance(1, 4) ? d.path + "/none" : d.path;
                c.desc << "dump\n";
                tolerate([&] { (void)m.DumpOutputs(where); });
                break;
            }
            case 16:
                c.desc << "read\n";
                access(g, m);
                tolerate([&] { (void)m.IsValid(); });
                (void)m.ForcingLoaded();
                break;
            case 17: {
                HydroUnit* u = m.GetSubBasin()->GetHydroUnit(static_cast<int>(g.below(spec.units.size())));
                string cover = spec.units[0].covers.empty() || g.chance(1, 6) ? "nothing" : g.pick(spec.units[0].covers).name;
                double f = g.chance(1, 6) ? g.pick<double>({-1.0, 2.0, std::nan("")}) : g.real(0, 1, 16);
                c.desc << format("fraction of {} of unit {} = {}\n", cover, u->GetId(), f);
                tolerate([&] { (void)u->ChangeLandCoverAreaFraction(cover, f); });
                break;
            }
            default: {
                attempts.push_back(std::make_unique<Attempt>(r));
                Attempt& a = *attempts.back();
                const Fault& f = allFaults()[g.below(allFaults().size())];
                if (!f.apply(g, a)) break;
                c.desc << f.name << "\n";
                for (auto& x : a.model) tolerate([&] { x(m); });
                if (a.model.empty())
                    for (auto& x : a.forcing) tolerate([&] { (void)Attempt::giveTo(m, x); });
                break;
            }
        }
    }
    if (g.flip()) {
        keep.clear();  // the actions may be destroyed before the model
        attempts.clear();
    }
    c.nontrivial = runs > 0 && n > 3;
}

// --- refused configurations
static void refused(Gen& g, Case& c) {
    RM r = genModel(g, options());
    Attempt a(r);
    int n = g.in(1, 3), done = 0;
    for (int k = 0; k < n; ++k) {
        bool usable = !a.forcing.empty();
        for (auto& x : a.forcing) usable = usable && x.v.size() > 2 && x.time.size() > 2 && x.v.size() == x.time.size();
        if (!usable) break;
        const Fault& f = allFaults()[g.below(allFaults().size())];
        if (!f.apply(g, a)) continue;
        c.desc << f.name << "\n";
        ++done;
    }
    c.desc << showRM(r);
    (void)a.run();
    c.nontrivial = done > 0;
}

// --- any NetCDF file as basin, as forcing, or through the wrapper
struct AnyVar {
    string name;
    int type;
    vector<int> dims;
};
static void anyFile(Gen& g, const string& path, string& desc) {
    auto ok = deliver::ok;
    // How far it is from a usual file.
    const int wild = g.pick<int>({0, 1, 1, 1, 3, 8});
    auto odd = [&](int n = 1) { return g.chance(static_cast<uint64_t>(wild * n), 24); };
    const bool forcing = g.flip();
    int nc;
    ok(nc_create(path.c_str(), NC_CLOBBER | NC_NETCDF4, &nc), "create");
    vector<string> dimNames{"hydro_units", "time", "x", "land_covers", "id"};
    vector<int> ids;
    vector<size_t> lens;
    for (size_t k = 0; k < dimNames.size(); ++k) {
        if (k < 2 ? odd() : !odd(4)) continue;
        int d;
        size_t len = odd() ? 0 : 1 + g.below(6) + (k == 1);
        bool unlimited = len == 0;
        ok(nc_def_dim(nc, dimNames[k].c_str(), unlimited ? NC_UNLIMITED : len, &d), "dim");
        ids.push_back(d);
        lens.push_back(len);
        desc += format("dim {}={} ", dimNames[k], len);
    }
    vector<string> names = forcing ? vector<string>{"id", "time", "precipitation", "temperature", "pet", "t_min"} : vector<string>{"id", "area", "elevation", "slope", "ground", "glacier", "weights"};
    vector<string> others{"data", "area", "time", "ground", "pet", "aspect_class"};
    for (auto& o : others)
        if (odd(2) && std::find(names.begin(), names.end(), o) == names.end()) names.push_back(o);
    vector<AnyVar> vars;
    vector<int> vid;
    for (size_t k = 0; k < names.size(); ++k) {
        auto& n = names[k];
        if (k < 3 ? odd() : g.chance(1, 3)) continue;
        AnyVar v{n, !odd(2) ? (n == "id" ? NC_INT : NC_DOUBLE) : g.pick<int>({NC_INT, NC_DOUBLE, NC_FLOAT, NC_SHORT, NC_CHAR, NC_STRING, NC_INT64, NC_BYTE}), {}};
        if (!odd(2) && ids.size() >= 2) {
            if (n == "time")
                v.dims = {ids[1]};
            else if (n == "precipitation" || n == "temperature" || n == "pet" || n == "data" || n == "t_min")
                v.dims = g.flip() ? vector<int>{ids[0], ids[1]} : vector<int>{ids[1], ids[0]};
            else
                v.dims = {ids[0]};
        } else if (!ids.empty()) {
            for (int q = g.in(0, 3); q > 0; --q) v.dims.push_back(g.pick(ids));
        }
        int x;
        ok(nc_def_var(nc, n.c_str(), static_cast<nc_type>(v.type), static_cast<int>(v.dims.size()), v.dims.data(), &x), "var");
        desc += format("var {} type {} rank {} ", n, v.type, v.dims.size());
        bool cover = n == "ground" || n == "glacier";
        for (string a : {"units", "type", "add_offset"}) {
            if (!odd(4) && !(a == "type" && cover) && !(a == "units" && g.flip())) continue;
            string t = !odd(2) && a == "type" && cover ? (n == "ground" ? "generic_land_cover" : n) : !odd(2) ? "m" : g.pick<string>({"m", "m2", "degrees", "ground", "glacier", "generic_land_cover", "", "percent"});
            switch (odd() ? g.below(2) : 2) {
                case 0: {
                    int z[2] = {3, 4};
                    ok(nc_put_att_int(nc, x, a.c_str(), NC_INT, g.below(3), z), "att");
                    break;
                }
                case 1: {
                    const char* z[2] = {t.c_str(), "b"};
                    ok(nc_put_att_string(nc, x, a.c_str(), 1 + g.below(2), z), "att");
                    break;
                }
                default: ok(nc_put_att_text(nc, x, a.c_str(), t.size(), t.c_str()), "att");
            }
        }
        vars.push_back(v);
        vid.push_back(x);
    }
    vector<string> covers;
    for (auto& v : vars)
        if (v.name == "ground" || v.name == "glacier") covers.push_back(v.name);
    if (odd()) covers.push_back(g.pick<string>({"nothing", "id", "precipitation", ""}));
    string chosen = g.pick<string>({"land_covers", "land_cover_names", "surface_names"});
    for (string a : {"land_covers", "land_cover_names", "surface_names", "labels"}) {
        if (a != chosen ? !odd(2) : odd() || forcing) continue;
        desc += "att " + a + " ";
        switch (odd(2) ? g.below(3) : 3) {
            case 0: {
                int z[2] = {3, 4};
                ok(nc_put_att_int(nc, NC_GLOBAL, a.c_str(), NC_INT, g.below(3), z), "att");
                break;
            }
            case 1: {
                string t = g.pick<string>({"ground", "glacier", "nothing", "", "ground glacier"});
                ok(nc_put_att_text(nc, NC_GLOBAL, a.c_str(), t.size(), t.c_str()), "att");
                break;
            }
            case 2: {
                const char* z[1] = {""};
                ok(nc_put_att_string(nc, NC_GLOBAL, a.c_str(), 0, z), "att");
                break;
            }
            default: {
                vector<const char*> z;
                for (auto& x : covers) z.push_back(x.c_str());
                if (!z.empty()) ok(nc_put_att_string(nc, NC_GLOBAL, a.c_str(), z.size(), z.data()), "att");
            }
        }
    }
    ok(nc_enddef(nc), "enddef");
    for (size_t k = 0; k < vars.size(); ++k) {
        if (odd()) continue;  // left to the fill values
        size_t n = 1;
        vector<size_t> start, count;
        for (int d : vars[k].dims)
            for (size_t i = 0; i < ids.size(); ++i)
                if (ids[i] == d) {
                    size_t len = lens[i] == 0 ? (g.flip() ? 0 : 3) : lens[i];
                    n *= len;
                    start.push_back(0);
                    count.push_back(len);
                }
        if (n == 0) continue;
        size_t scalar = 0, one = 1;
        const size_t* s0 = start.empty() ? &scalar : start.data();
        const size_t* c0 = count.empty() ? &one : count.data();
        if (vars[k].type == NC_CHAR) {
            string t(n, 'a');
            ok(nc_put_vara_text(nc, vid[k], s0, c0, t.data()), "put");
        } else if (vars[k].type == NC_STRING) {
            vector<const char*> t(n, "word");
            ok(nc_put_vara_string(nc, vid[k], s0, c0, t.data()), "put");
        } else {
            vector<double> t(n);
            bool steps = vars[k].name == "time" || vars[k].name == "id";
            double base = vars[k].name == "time" ? 58000 : vars[k].name == "id" ? 1 : vars[k].name == "ground" ? 1 : vars[k].name == "glacier" ? 0 : g.real(1, 5, 4);
            double step = odd(2) ? g.pick<double>({0.0, -1.0, 0.5, 1.0 / 24, 7.0}) : 1;
            for (size_t i = 0; i < n; ++i) t[i] = steps ? base + step * static_cast<double>(i) : base;
            if (odd(2)) t[g.below(n)] = vars[k].type == NC_DOUBLE ? g.pick<double>({std::nan(""), 1e300, -1e9, INFINITY, 0.0}) : g.pick<double>({-1.0, 0.0, 100.0});
            int status = nc_put_vara_double(nc, vid[k], s0, c0, t.data());
            if (status != NC_NOERR && status != NC_ERANGE) ok(status, "put");
        }
    }
    ok(nc_close(nc), "close");
}
static void files(Gen& g, Case& c) {
    deliver::File f;
    string desc;
    anyFile(g, f.path, desc);
    c.desc << desc << "\n";
    if (g.chance(1, 30)) {
        // A damaged or empty file.
        size_t size = std::filesystem::file_size(f.path);
        std::filesystem::resize_file(f.path, g.below(size + 1));
        c.desc << "truncated\n";
    }
    if (g.chance(1, 40)) f.path += "missing";
    int accepted = 0;
    tolerate([&] {
        SettingsBasin b;
        if (!b.Parse(f.path)) return;
        ++accepted;
        c.tag("basin");
        SubBasin sub;
        auto r = sub.Initialize(b);
        (void)r;
        SettingsModel m;
        m.SetTimer("2017-09-04", "2017-09-06", 1, "day");
        m.SetSolver("heun_explicit");
        m.AddLandCoverBrick("ground", "generic_land_cover");
        m.AddBrickProcess("out", "outflow:linear", "outlet");
        m.AddProcessParameter("response_factor", 0.1f);
        ModelHydro model;
        if (model.InitializeWithBasin(m, b)) c.tag("model");
    });
    tolerate([&] {
        vector<std::unique_ptr<TimeSeries>> l;
        if (!TimeSeries::Parse(f.path, l)) return;
        ++accepted;
        c.tag("forcing");
        SettingsModel m;
        SettingsBasin b;
        m.SetTimer("2017-09-04", "2017-09-06", 1, "day");
        m.SetSolver("heun_explicit");
        m.SetLogAll(true);
        m.GeneratePrecipitationSplitters(true);
        m.AddLandCoverBrick("ground", "generic_land_cover");
        m.GenerateSnowpacks("melt:degree_day");
        m.SelectHydroUnitBrick("ground");
        m.AddBrickProcess("out", "outflow:linear", "outlet");
        m.AddProcessParameter("response_factor", 0.1f);
        int units = g.in(1, 4);
        for (int u = 1; u <= units; ++u) {
            b.AddHydroUnit(u, 100, 1000);
            b.AddLandCover("ground", "generic_land_cover", 1);
        }
        ModelHydro model;
        if (!model.InitializeWithBasin(m, b)) return;
        for (auto& t : l) (void)model.AddTimeSeries(std::move(t));
        if (!model.AttachTimeSeriesToHydroUnits()) return;
        if (model.Run()) {
            ++accepted;
            c.tag("run");
        }
    });
    tolerate([&] {
        FileNetcdf nc;
        if (!nc.OpenReadOnly(f.path)) return;
        for (int k = g.in(1, 8); k > 0; --k) {
            string name = g.pick<string>({"id", "area", "slope", "time", "ground", "precipitation", "nothing", "land_covers", "weights", "units", "type"});
            tolerate([&] {
                int v = nc.GetVarId(name);
                int d = g.chance(1, 8) ? g.in(-1, 9) : 0;
                switch (g.below(9)) {
                    case 0: (void)nc.GetDimLen(name); break;
                    case 1: (void)nc.GetVarDimIds(v, g.in(0, 3)); break;
                    case 2: (void)nc.GetVarInt1D(name, g.in(0, 6)); break;
                    case 3: (void)nc.GetVarDouble1D(name, g.in(0, 6)); break;
                    case 4: (void)nc.GetVarDouble2D(g.flip() ? v : d, g.in(0, 6), g.in(0, 6)); break;
                    case 5: (void)nc.GetAttText("units", name); break;
                    case 6: (void)nc.GetAttString1D(name); break;
                    case 7: (void)(nc.HasAtt("units", name) + nc.HasAtt(name) + nc.HasVar(name) + nc.GetVarDimCount(g.flip() ? v : d)); break;
                    default: (void)nc.GetVarName(d); break;
                }
            });
        }
    });
    c.nontrivial = accepted > 0;
}

// --- texts
static string someText(Gen& g) {
    static const vector<string> whole{"2020-01-01", "2020-01-01 12:30", "01.02.2020", "2020-01-01T12:30:15", "12:30", "202001011230", "20200101", "01/02/2020 10:11:12", "day", "precipitation", "euler_explicit", "type:glacier"};
    static const string chars = "0123456789-./: TZ,abc\t+eE_%\xc3\xa9";
    string s = g.chance(3, 4) ? g.pick(whole) : "";
    for (int k = g.in(0, 4); k > 0; --k) {
        size_t at = g.below(s.size() + 1);
        switch (g.below(4)) {
            case 0:
                if (at < s.size()) s.erase(at, 1 + g.below(3));
                break;
            case 1:
                if (at < s.size()) s[at] = chars[g.below(chars.size())];
                break;
            case 2: s.insert(at, g.chance(1, 5) ? string("99999999999999999999") : string(1 + g.below(3), chars[g.below(chars.size())])); break;
            default: s.resize(at);
        }
    }
    return s;
}
static void texts(Gen& g, Case& c) {
    int parsed = 0;
    for (int k = 0; k < 8; ++k) {
        string s = someText(g), t = someText(g);
        c.desc << "[" << s << "] [" << t << "]\n";
        for (TimeFormat f : {ISOdate, ISOdateTime, DD_MM_YYYY, YYYY_MM_DD, DD_MM_YYYY_hh_mm, DD_MM_YYYY_hh_mm_ss, YYYY_MM_DD_hh_mm, YYYY_MM_DD_hh_mm_ss, guess})
            tolerate([&] {
                (void)ParseDate(s, f);
                ++parsed;
            });
        tolerate([&] { (void)BrickTypeFromString(s); });
        tolerate([&] {
            HydroUnitProperty p("slope", g.real(-10, 10, 40), s);
            (void)p.GetValue(t);
        });
        tolerate([&] {
            SettingsModel m;
            m.SetTimer(s, t, g.in(-1, 3), g.pick<string>({"day", "hour", s}));
            TimeMachine tm;
            tm.Initialize(m.GetTimerSettings());
        });
        double mjd = g.chance(1, 3) ? g.pick<double>({std::nan(""), 1e18, -1e18, INFINITY, 0.0, -0.0001}) : g.real(-1e6, 1e6, 1 << 20);
        tolerate([&] {
            Time x = GetTimeStructFromMJD(mjd);
            (void)GetMJD(x.year, x.month, x.day, x.hour, x.min, x.sec);
            ++parsed;
        });
        tolerate([&] { (void)IncrementDateBy(mjd, g.in(-1000, 1000), g.pick<TimeUnit>({TimeUnit::Week, TimeUnit::Day, TimeUnit::Hour, TimeUnit::Minute})); });
    }
    c.nontrivial = parsed > 0;
}

const std::vector<pbt::Sub>& pbt::subs() {
    static const std::vector<Sub> s = {
        {"models", models, 12000, 400000, "random models and actions run, read, written, reset and rerun; non-trivial: ran"},
        {"sequence", sequence, 20000, 800000, "2-14 calls in any order on one model; non-trivial: more than 3 calls and a run"},
        {"refused", refused, 12000, 400000, "1-3 faults in a configuration; non-trivial: at least one"},
        {"files", files, 15000, 400000, "random NetCDF files as basin, forcing or through the wrapper; non-trivial: accepted by one of them"},
        {"texts", texts, 20000, 400000, "random texts and numbers as dates, units, types; non-trivial: at least one was read"}};
    return s;
}
