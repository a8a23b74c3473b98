// Each unit gets the forcing value of its own date, however the forcing is given.
#include "../actions.h"
#include "../deliver.h"
using namespace act;
using namespace deliver;
const char* pbt::propertyId() {
    return "C19";
}

// Values seen by a minimal model, against the values given.
static void seen(Gen& g, Case& c) {
    Step s = genStep(g);
    Minute start = genMinute(g, 1902, 2060);
    int steps = g.chance(1, 20) ? g.in(1, 800) : g.in(1, 60);
    steps = static_cast<int>(std::min<long long>(steps, 1 + 30LL * 366 * 1440 / s.minutes()));
    Minute end = start + static_cast<Minute>(steps - 1) * s.minutes();
    bool temperature = g.chance(3, 4);
    int U = g.in(1, 4);
    vector<int> ids;
    for (int u = 0; u < U; ++u) ids.push_back(u * 10 + g.in(1, 10));
    g.shuffle(ids);
    SettingsModel m;
    m.SetTimer(text(start), text(end), s.n, s.name());
    structure(m, temperature);
    SettingsBasin b;
    for (int id : ids) {
        b.AddHydroUnit(id, 1e6, 1000);
        b.AddLandCover("ground", "generic_land_cover", 1);
    }
    SubBasin sub;
    check(sub.Initialize(b).has_value(), "basin refused");
    ModelHydro model(&sub);
    auto r = model.Initialize(m, b);
    if (!r) fail("model refused: " + r.error());

    // Values that tell the units and the steps apart.
    bool same = g.chance(1, 5);
    Series P{"precipitation", VariableType::Precipitation, {}}, T{"temperature", VariableType::Temperature, {}};
    for (int u = 0; u < U; ++u) {
        vector<double> p(steps), t(steps);
        for (int k = 0; k < steps; ++k) {
            p[k] = g.chance(1, 8) ? 0 : 0.5 + 0.001 * ((k * 7 + u * 1231) % 4999);
            t[k] = g.chance(1, 8) ? g.pick<double>({-120.0, 30.0}) : -1 - 0.01 * ((k * 131 + u * 1777) % 9700);
        }
        P.v.push_back(same && u ? P.v[0] : p);
        T.v.push_back(same && u ? T.v[0] : t);
    }
    c.desc << format("{} to {} by {}, units {}\n", text(start), text(end), s.show(), U);
    vector<Series> all{P};
    if (temperature) all.push_back(T);
    string how = give(g, model, ids, all, start, s, steps, g.chance(1, 8));
    c.desc << how;
    if (how.find("file") != string::npos) c.tag("file");
    if (how.find("array") != string::npos) c.tag("array");
    if (how.find("by unit") != string::npos) c.tag("by unit");
    if (how.find("uniform") != string::npos) c.tag("uniform");
    auto rr = model.Run();
    if (!rr) fail("run failed: " + rr.error());
    Logger* lg = model.GetLogger();
    const auto& hl = lg->GetHydroUnitLabels();
    const auto& hv = lg->GetHydroUnitValues();
    int iq = -1, is = -1;
    for (size_t i = 0; i < hl.size(); ++i) {
        if (hl[i] == "ground:outflow:output") iq = static_cast<int>(i);
        if (hl[i] == "ground_snowpack:snow_content") is = static_cast<int>(i);
    }
    if (iq < 0 || (temperature && is < 0)) {
        string l;
        for (auto& x : hl) l += x + " ";
        fail("harness: items missing in " + l);
    }
    for (int u = 0; u < U; ++u) {
        double snow = 0;
        for (int k = 0; k < steps; ++k) {
            double share = temperature ? std::clamp(-T.v[u][k] / 100, 0.0, 1.0) : 0;
            double rain = P.v[u][k] * (1 - share);
            snow += P.v[u][k] * share;
            // Recorded with the share of the unit in the basin.
            rain /= U;
            if (!pbt::close(hv[iq](k, u), rain, 1e-5, 1e-6))
                fail(format("unit {} step {} ({}): rain {:.9g} instead of {:.9g}", ids[u], k, text(start + static_cast<Minute>(k) * s.minutes()), hv[iq](k, u), rain));
            if (temperature && !pbt::close(hv[is](k, u), snow, 1e-5, 1e-5))
                fail(format("unit {} step {} ({}): snow {:.9g} instead of {:.9g}", ids[u], k, text(start + static_cast<Minute>(k) * s.minutes()), hv[is](k, u), snow));
        }
    }
    c.tag(s.name());
    c.nontrivial = steps >= 3;
}

// The same simulation with the forcing given in another way.
static void arrangements(Gen& g, Case& c) {
    Opt o;
    o.spinup = true;
    o.maxSteps = 25;
    RM r = genModel(g, o);
    bool any = false;
    for (auto& f : r.s.forcing) any |= f.v.size() > 1 || f.lead + f.trail > 0;
    Sim a(r.s), b(r.s);
    c.desc << showRM(r);
    a.all();
    Out want = read(a);
    b.build();
    vector<int> ids;
    for (auto& u : r.s.units) ids.push_back(u.id);
    vector<Series> all;
    for (auto& f : r.s.forcing) {
        Series x{f.var, typeOf(f.var), {}};
        for (size_t u = 0; u < ids.size(); ++u) {
            auto& row = f.v.size() == 1 ? f.v[0] : f.v[u];
            x.v.push_back(vector<double>(row.begin() + f.lead, row.begin() + f.lead + r.s.steps));
        }
        all.push_back(x);
    }
    Minute start = civilDays(r.s.y, r.s.m, r.s.d) * 1440LL;
    Step s{r.s.dt, r.s.dtUnit == "day" ? TimeUnit::Day : TimeUnit::Hour};
    string how = give(g, *b.model, ids, all, start, s, r.s.steps, g.chance(1, 8));
    c.desc << how;
    b.run();
    compareOut(want, read(b), 1e-12, 1e-12, "same forcing given in another way");
    // Given again to the same model.
    if (g.flip()) {
        b.model->ClearTimeSeries();
        b.model->Reset();
        how = give(g, *b.model, ids, all, start, s, r.s.steps, false);
        c.desc << "again\n" << how;
        RM r2 = r;
        // States are those declared at the start when they are saved as such; here only the record of the forcing restarts.
        auto rr = b.model->Run();
        if (!rr) fail("second run failed: " + rr.error());
        compareOut(want, read(b), 1e-12, 1e-12, "same forcing given again to the same model");
    }
    tags(c, r);
    if (how.find("file") != string::npos) c.tag("file");
    c.nontrivial = r.s.steps >= 3 && want.totalOutlet > 0;
    (void)any;
}

// Forcing that cannot be aligned with the simulation is refused.
static void refused(Gen& g, Case& c) {
    Step s = genStep(g);
    bool array = g.flip();
    if (array) s = g.flip() ? Step{g.in(1, 10), TimeUnit::Day} : Step{g.in(1, 23), TimeUnit::Hour};
    Minute start = genMinute(g, 1902, 2060);
    int steps = g.in(3, 40);
    Minute end = start + static_cast<Minute>(steps - 1) * s.minutes();
    vector<int> ids = {3, 1, 8};
    SettingsModel m;
    m.SetTimer(text(start), text(end), s.n, s.name());
    structure(m, false);
    SettingsBasin b;
    for (int id : ids) {
        b.AddHydroUnit(id, 1e6, 1000);
        b.AddLandCover("ground", "generic_land_cover", 1);
    }
    SubBasin sub;
    check(sub.Initialize(b).has_value(), "basin refused");
    ModelHydro model(&sub);
    auto r = model.Initialize(m, b);
    if (!r) fail("model refused: " + r.error());

    int lead = g.in(0, 4), trail = g.in(0, 4);
    int kind = g.in(0, array ? 9 : 5);
    int victim = g.in(0, 2);
    auto values = [&](int n) {
        vector<double> v(n);
        for (auto& x : v) x = g.real(0, 5, 50);
        return v;
    };
    static const vector<string> names{"starts late", "ends early", "one unit starts late or ends early", "a unit is missing", "another time step", "twice the same unit",
                                      "a date is missing", "dates shifted", "wrong shape", "unknown variable"};
    c.desc << format("{} to {} by {}: {} ({}) lead {} trail {}\n", text(start), text(end), s.show(), names[kind], array ? "array" : "series", lead, trail);
    bool refusedIt = false;
    string where;
    try {
        if (kind == 0) lead = -g.in(1, 2);
        if (kind == 1) trail = -g.in(1, 2);
        Step w = s;
        if (kind == 4) {
            w = array ? (g.flip() ? Step{g.in(1, 10), TimeUnit::Day} : Step{g.in(1, 23), TimeUnit::Hour}) : genStep(g);
            if (w.minutes() == s.minutes()) ++w.n;
            if (array && w.minutes() == 1440) w = {1, TimeUnit::Hour};
            if (w.minutes() == s.minutes()) ++w.n;
            lead = (lead + 1) * s.minutes() / w.minutes() + 1;
            trail = static_cast<int>((end - start) / w.minutes()) + 2 + trail;  // the simulated period is covered
            steps = 1;
        }
        int n = lead + steps + trail;
        Minute first = start - static_cast<Minute>(lead) * w.minutes();
        vector<int> cols = ids;
        if (kind == 3) cols.erase(cols.begin() + victim);
        if (kind == 3 && g.flip()) cols.push_back(77);
        if (kind == 5) cols.push_back(cols[victim]);
        g.shuffle(cols);
        bool given;
        if (array && kind != 2) {
            // The last date of the covered period can be skipped only if another one follows.
            vector<double> time;
            for (int k = 0; k < n; ++k) time.push_back(mjd(first + static_cast<Minute>(k) * w.minutes()));
            if (kind == 6) {
                int k = g.in(1, n - 2);
                time.erase(time.begin() + k);
                if (g.flip()) time.push_back(time.back() + w.minutes() / 1440.0);
            }
            if (kind == 7) {
                int k = g.in(1, n - 1);
                double off = g.real(0.2, 0.8, 60) * w.minutes() / 1440.0;
                for (size_t j = k; j < time.size(); ++j) time[j] += off;
            }
            int rows = static_cast<int>(time.size()), width = static_cast<int>(cols.size());
            int dataRows = rows, dataCols = width;
            if (kind == 8) (g.flip() ? dataRows : dataCols) += g.pick<int>({-1, 1, 2});
            axd t(rows);
            for (int k = 0; k < rows; ++k) t[k] = time[k];
            axi idv(width);
            for (int k = 0; k < width; ++k) idv[k] = cols[k];
            axxd data = axxd::Ones(dataRows, dataCols);
            string var = kind == 9 ? g.pick<string>({"", "rain", "prec", "precip", "q", "pp"}) : "precipitation";
            given = model.CreateTimeSeries(var, t, idv, data);
        } else {
            auto ts = std::make_unique<TimeSeriesDistributed>(VariableType::Precipitation);
            for (size_t j = 0; j < cols.size(); ++j) {
                int cutA = 0, cutB = 0;
                if (kind == 2 && static_cast<int>(j) == victim) (g.flip() ? cutA : cutB) = 1;
                Minute f = cutA ? start + w.minutes() : first;
                int len = n - (cutA ? lead + 1 : 0) - (cutB ? trail + 1 : 0);
                ts->AddData(regular(f, w, values(len)), cols[j]);
            }
            given = model.AddTimeSeries(std::move(ts));
        }
        where = "when given";
        if (!given) refusedIt = true;
        if (!refusedIt) refusedIt = !model.AttachTimeSeriesToHydroUnits() || !model.IsValid();
    } catch (const Fail&) {
        throw;
    } catch (const std::exception&) {
        refusedIt = true;
    }
    check(refusedIt, "the forcing was accepted");
    c.tag(names[kind]);
    c.nontrivial = true;
}

// Files that cannot be aligned are refused.
static void files(Gen& g, Case& c) {
    int U = g.in(1, 3), n = g.in(4, 30);
    Step s = g.flip() ? Step{1, TimeUnit::Day} : Step{g.in(1, 23), TimeUnit::Hour};
    Minute start = genMinute(g, 1902, 2060);
    vector<double> time;
    for (int k = 0; k < n; ++k) time.push_back(mjd(start + static_cast<Minute>(k) * s.minutes()));
    vector<int> ids;
    for (int u = 0; u < U; ++u) ids.push_back(u + 1);
    string var = "precipitation";
    int kind = g.in(0, 3);
    if (kind == 0) {
        time.erase(time.begin() + g.in(1, n - 2));
    } else if (kind == 1) {
        double off = g.real(0.2, 0.8, 60) * s.minutes() / 1440.0;
        for (int j = g.in(1, n - 1); j < n; ++j) time[j] += off;
    } else if (kind == 2) {
        var = g.pick<string>({"rain", "discharge", "x"});
    } else {
        time.resize(1);
    }
    c.desc << format("kind {} units {} dates {} by {}\n", kind, U, time.size(), s.show());
    Table t{var, vector<vector<double>>(time.size(), vector<double>(U, 1.0)), g.flip(), false};
    File f;
    writeNetcdf(f.path, g.chance(1, 4), time, ids, {t});
    vector<std::unique_ptr<TimeSeries>> ts;
    check(!TimeSeries::Parse(f.path, ts), "the file was accepted");
    c.nontrivial = true;
}

// A regular series read at dates in any order, or step by step.
static void series(Gen& g, Case& c) {
    Step s = genStep(g);
    const int n = g.chance(1, 10) ? g.in(1, 2000) : g.in(1, 40);
    const Minute dt = s.minutes(), start = genMinute(g, 1902, 2030), end = start + (n - 1) * dt;
    TimeSeriesDataRegular data(mjd(start), mjd(end), s.n, s.unit);
    vector<double> v;
    double sum = 0;
    for (int k = 0; k < n; ++k) {
        v.push_back(g.real(-20, 50, 7000) + k % 3);
        sum += v.back();
    }
    c.desc << format("{} values from {} by {}\n", n, text(start), s.show());
    if (g.chance(1, 4)) {  // another number of values
        int k = g.pick<int>({1, -1, 2, -3, n});
        vector<double> w = v;
        w.resize(std::max(1, n + k), 0);
        if (w.size() != v.size()) {
            c.desc << format("first given {} values\n", w.size());
            check(!data.SetValues(w), format("{} values are accepted", w.size()));
        }
    }
    check(data.SetValues(v), "the values are refused");
    check(data.IsValid(), "the series is not valid");
    near(data.GetStart(), mjd(start), 0, 1e-9, "start");
    near(data.GetEnd(), mjd(end), 0, 1e-9, "end");
    near(data.GetSum(), sum, 1e-12, 1e-9, "sum");
    check(data.HasTimeStep(dt / 1440.0), "the time step is another one");
    for (double f : {0.5, 2.0, 1 + 1.0 / dt, 1 - 1.0 / dt, 24.0}) {
        check(!data.HasTimeStep(f * dt / 1440.0), format("{} times the time step is found the same", f));
    }
    int at = 0, moves = g.in(1, 12);
    bool over = false;
    for (int i = 0; i < moves; ++i) {
        int kind = g.in(0, 4);
        if (kind == 0) {  // out of the series
            bool before = g.flip();
            Minute off = g.chance(1, 3) ? 1 : g.in(1, 3) * dt + g.in(0, 2000);
            Minute date = before ? start - off : end + std::max(off, dt);
            c.desc << format("date {}\n", text(date));
            check(!data.SetCursorToDate(mjd(date)), format("the date {} is accepted", text(date)));
        } else if (kind == 1) {
            if (over) continue;
            c.desc << "next step\n";
            check(data.AdvanceOneTimeStep(), format("no step after the step {}", at));
            over = ++at == n;
        } else {
            int k = g.in(0, n - 1);
            Minute date = start + k * dt + (k < n - 1 && dt > 1 && g.flip() ? g.in(0, static_cast<int>(dt - 1)) : 0);
            c.desc << format("date {}{}\n", text(date), kind == 2 ? " (value)" : "");
            if (kind == 2) {
                near(data.GetValueFor(mjd(date)), v[k], 0, 0, format("value on {}", text(date)));
            } else {
                check(data.SetCursorToDate(mjd(date)), format("the date {} is refused", text(date)));
            }
            at = k;
            over = false;
        }
        if (!over) near(data.GetCurrentValue(), v[at], 0, 0, format("value of the step {} after {} moves", at, i + 1));
    }
    if (n > 1 && moves > 1) c.nontrivial = true;
}

const std::vector<pbt::Sub>& pbt::subs() {
    static const std::vector<Sub> s = {
        {"seen", seen, 150000, 3000000, "rain and snow of a minimal model, for forcing given in several ways, days to minutes; non-trivial: three steps or more"},
        {"arrangements", arrangements, 50000, 1200000, "random models, forcing given in another way (order, periods, files, steps), once and again; non-trivial: three steps or more and some discharge"},
        {"refused", refused, 100000, 2000000, "forcing that cannot be aligned: late, short, missing units, other steps, gaps; non-trivial: all"},
        {"series", series, 300000, 6000000, "regular series read at dates in any order or step by step; non-trivial: two values and two moves"},
        {"files", files, 10000, 150000, "forcing files that cannot be aligned; non-trivial: all"}};
    return s;
}
