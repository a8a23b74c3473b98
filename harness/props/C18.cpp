// The clock and the record of the dates.
#include "TimeMachine.h"
#include "tracer.h"
using namespace hb;
using namespace tracer;
const char* pbt::propertyId() {
    return "C18";
}

static int dayOfYear(Minute m) {
    long day = static_cast<long>(m >= 0 ? m / 1440 : -((-m + 1439) / 1440));
    int y, mo, d;
    civilFrom(day, y, mo, d);
    return static_cast<int>(day - civilDays(y, 1, 1)) + 1;
}

// Runs a clock to its end.
static void follow(TimeMachine& t, Minute start, Minute end, const Step& s, bool everyDoy) {
    const long long want = (end - start) / s.minutes() + 1;
    check(t.GetTimeStepCount() == want, format("the number of steps is {} instead of {}", t.GetTimeStepCount(), want));
    near(*t.GetTimeStepPointer(), s.minutes() / 1440.0, 1e-15, 0, "length of the step");
    const double start0 = mjd(start), tol = 1e-3 / 86400;  // one millisecond
    near(t.GetStart(), start0, 0, 1e-10, "start");
    near(t.GetEnd(), mjd(end), 0, 1e-10, "end");
    for (long long i = 0; i < want; ++i) {
        Minute now = start + i * s.minutes();
        if (t.IsOver()) fail(format("the clock is over at step {} of {}", i, want));
        if (!(std::abs(t.GetDate() - mjd(now)) < tol)) fail(format("at step {} the date is {:.10f} instead of {} ({:.10f})", i, t.GetDate(), text(now), mjd(now)));
        if (everyDoy || i % 97 == 0) {
            int doy = t.GetCurrentDayOfYear();
            if (doy != dayOfYear(now)) fail(format("on {} the day of the year is {} instead of {}", text(now), doy, dayOfYear(now)));
        }
        t.IncrementTime();
    }
    check(t.IsOver(), format("the clock is not over after the last of its {} steps", want));
}

static void clock(Gen& g, Case& c) {
    Step s = genStep(g);
    Minute start = genMinute(g, 1900, 2080);
    long long n = g.chance(1, 50) ? g.in(1, 150000) : g.chance(1, 8) ? g.in(1, 5000) : g.in(0, 400);
    // Within the supported dates.
    Minute last = civilDays(2100, 12, 31) * 1440LL;
    n = std::min<long long>(n, (last - start) / s.minutes());
    Minute end = start + n * s.minutes();
    if (g.chance(1, 3)) end += g.in(0, s.minutes() - 1);
    end = std::min(end, last);
    bool texts = g.flip();
    c.desc << format("{} to {} by {}{}\n", text(start), text(end), s.show(), texts ? " (texts)" : "");
    TimeMachine t;
    if (texts) {
        TimerSettings ts;
        ts.start = text(start);
        ts.end = text(end);
        ts.timeStep = s.n;
        ts.timeStepUnit = s.name();
        t.Initialize(ts);
    } else {
        t.Initialize(mjd(start), mjd(end), s.n, s.unit);
    }
    check(t.IsValid(), "a valid clock is reported as invalid");
    follow(t, start, end, s, n < 2000);
    t.Reset();
    follow(t, start, end, s, false);
    if ((end - start) % s.minutes()) c.tag("end between steps");
    c.tag(s.name());
    c.nontrivial = n >= 2;
}

// The dates and number of values recorded by a model.
static void recorded(Gen& g, Case& c) {
    Step s = genStep(g);
    Minute start = genMinute(g, 1900, 2060);
    long long n = g.chance(1, 20) ? g.in(0, 3000) : g.in(0, 150);
    n = std::min<long long>(n, 30LL * 366 * 1440 / s.minutes());
    Minute end = start + n * s.minutes();
    if (g.chance(1, 3)) end += g.in(0, s.minutes() - 1);
    c.desc << format("{} to {} by {}\n", text(start), text(end), s.show());
    SettingsModel m;
    m.SetTimer(text(start), text(end), s.n, s.name());
    structure(m, false);
    SettingsBasin b;
    b.AddHydroUnit(7, 1e6, 1000);
    b.AddLandCover("ground", "generic_land_cover", 1);
    SubBasin sub;
    check(sub.Initialize(b).has_value(), "basin refused");
    ModelHydro model(&sub);
    auto r = model.Initialize(m, b);
    if (!r) fail("model refused: " + r.error());
    int steps = static_cast<int>(n) + 1;
    int lead = g.flip() ? 0 : g.in(1, 5), trail = g.chance(1, 3) ? g.in(1, 5) : 0;
    if ((end - start) % s.minutes()) trail = std::max(trail, 1);
    vector<double> p(lead + steps + trail);
    for (size_t i = 0; i < p.size(); ++i) p[i] = 0.5 + 0.001 * static_cast<double>(i % 4001);
    auto ts = std::make_unique<TimeSeriesUniform>(VariableType::Precipitation);
    ts->SetData(regular(start - lead * s.minutes(), s, p));
    check(model.AddTimeSeries(std::move(ts)), "valid forcing refused");
    check(model.AttachTimeSeriesToHydroUnits() && model.IsValid(), "attaching valid forcing failed");
    for (int run = 0; run < 2; ++run) {
        auto rr = model.Run();
        if (!rr) fail("run failed: " + rr.error());
        Logger* lg = model.GetLogger();
        const axd& t = lg->GetTime();
        check(t.size() == steps, format("{} dates recorded instead of {}", static_cast<int>(t.size()), steps));
        const axd q = lg->GetOutletDischarge();
        check(q.size() == steps, format("{} values recorded instead of {}", static_cast<int>(q.size()), steps));
        for (int i = 0; i < steps; ++i) {
            double want = mjd(start + static_cast<Minute>(i) * s.minutes());
            if (!(std::abs(t[i] - want) < 1e-3 / 86400)) fail(format("date {} is {:.10f} instead of {:.10f}", i, t[i], want));
            if (!pbt::close(q[i], p[lead + i], 1e-6, 1e-7)) fail(format("value {} (outlet) is {:.10g} instead of {:.10g}", i, q[i], p[lead + i]));
        }
        model.Reset();
    }
    if ((end - start) % s.minutes()) c.tag("end between steps");
    c.tag(s.name());
    c.nontrivial = n >= 2;
}

// Clocks that cannot run are refused.
static void refused(Gen& g, Case& c) {
    Minute start = genMinute(g, 1905, 2060);
    Step s = genStep(g);
    Minute end = start + g.in(1, 100) * s.minutes();
    string unit = s.name();
    int n = s.n;
    string a = text(start), b = text(end);
    switch (g.below(4)) {
        case 0:
            end = start - g.in(1, 500000);
            b = text(end);
            break;
        case 1:
            n = -g.in(0, 10);
            break;
        case 2:
            unit = g.pick<string>({"", "days", "second", "month", "Day", "year", "hours"});
            break;
        default:
            (g.flip() ? a : b) = g.pick<string>({"", "2020-13-01", "2020-02-30", "yesterday", "2020-1", "01-2020"});
    }
    c.desc << format("'{}' to '{}' by {} '{}'\n", a, b, n, unit);
    bool refused = false;
    try {
        TimerSettings ts;
        ts.start = a;
        ts.end = b;
        ts.timeStep = n;
        ts.timeStepUnit = unit;
        TimeMachine t;
        t.Initialize(ts);
        refused = !t.IsValid();
    } catch (const std::exception&) {
        refused = true;
    }
    check(refused, "the clock was accepted");
    refused = false;
    try {
        SettingsModel m;
        m.SetTimer(a, b, n, unit);
        structure(m, false);
        SettingsBasin bs;
        bs.AddHydroUnit(7, 1e6, 1000);
        bs.AddLandCover("ground", "generic_land_cover", 1);
        SubBasin sub;
        check(sub.Initialize(bs).has_value(), "basin refused");
        ModelHydro model(&sub);
        refused = !model.Initialize(m, bs);
    } catch (const Fail&) {
        throw;
    } catch (const std::exception&) {
        refused = true;
    }
    check(refused, "a model with this clock was accepted");
    c.nontrivial = true;
}

const std::vector<pbt::Sub>& pbt::subs() {
    static const std::vector<Sub> s = {
        {"clock", clock, 1000000, 20000000, "clocks run to their end, twice: number of steps, dates, day of the year; non-trivial: three steps or more"},
        {"recorded", recorded, 600000, 12000000, "dates and values recorded by a minimal model, run twice; non-trivial: three steps or more"},
        {"refused", refused, 200000, 4000000, "clocks with inverted periods, no step, unknown units, bad dates; non-trivial: all"}};
    return s;
}
