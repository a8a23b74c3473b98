// Scheduled actions: every date once, in order, at its time step; again after a reset; not during the spin-up.
#include "../actions.h"
#include <set>

#include "TimeMachine.h"
using namespace act;
const char* pbt::propertyId() {
    return "C28";
}

struct Event {
    int action;
    bool yearly;
    double date;   // one-off: the scheduled date; yearly: the day
    double clock;  // value of the clock when applied
};
struct Probe : Action {
    int id = 0;
    vector<Event>* log = nullptr;
    TimeMachine* timer = nullptr;
    double day = 0;
    int resets = 0;
    void add(double date) {
        _sporadicDates.insert(_sporadicDates.begin() + GetIndexForInsertion(date), date);
    }
    void Reset() override {
        ++resets;
    }
    bool ApplyIfRecursive(const Time t) override {
        day = mjdOf(t.year, t.month, t.day);
        return Action::ApplyIfRecursive(t);
    }
    bool Apply(double) override {
        double clock = timer->GetDate();
        if (_recursive) {
            log->push_back({id, true, day, clock});
        } else {
            check(_cursor >= 0 && _cursor < static_cast<int>(_sporadicDates.size()), format("action {} is applied more often than it has dates", id));
            log->push_back({id, false, _sporadicDates[_cursor], clock});
        }
        return true;
    }
};

static void calendar(Gen& g, Case& c, bool direct) {
    // A single store: the clock and the actions are what matters.
    Spec s;
    s.units.resize(1);
    s.units[0].covers = {{"ground", "generic_land_cover", 1.0}};
    s.structure = [](SettingsModel& m) {
        m.GeneratePrecipitationSplitters(false);
        m.AddLandCoverBrick("ground", "generic_land_cover");
        m.SelectHydroUnitBrick("ground");
        m.AddBrickProcess("outflow", "outflow:direct", "store");
        m.AddHydroUnitBrick("store", "storage");
        m.AddBrickProcess("outflow", "outflow:linear", "outlet");
    };
    s.params = {{"store", "response_factor", 0.2}};
    s.solver = "euler_explicit";
    s.logAll = false;
    int unit = static_cast<int>(g.below(5));
    if (unit < 2) {
        s.dt = 1;
    } else if (unit == 2) {
        s.dtUnit = "hour";
        s.dt = direct ? g.pick<int>({1, 2, 3, 4, 5, 6, 7, 8, 12, 24, 36}) : g.pick<int>({1, 2, 3, 4, 5, 6, 7, 8, 12, 24});
    } else if (unit == 3) {
        s.dtUnit = "minute";
        s.dt = direct ? g.pick<int>({7, 10, 15, 20, 30, 45, 60, 90, 360, 720, 1440}) : g.pick<int>({60, 120, 360, 720, 1440});
    } else {
        s.dt = g.in(2, 45);
    }
    double dt = s.dtDays();
    s.steps = g.chance(1, 6) ? g.in(300, 1200) : g.in(2, 60);
    if (direct && g.chance(1, 3)) s.steps = g.in(500, 3000);
    s.steps = std::min(s.steps, static_cast<int>(20000 / dt));
    int y = g.in(1985, 2030), mo = g.in(1, 12), dd = g.in(1, 28);
    if (g.chance(1, 4)) {
        mo = 2;
        dd = g.in(25, 28);
        if (g.flip()) y = g.pick<int>({1996, 2000, 2004, 2020, 2024});
    }
    s.y = y, s.m = mo, s.d = dd;
    double start = startOf(s), len = s.steps * dt;
    bool spin = !direct && g.chance(1, 4);
    if (spin) s.spinupDays = g.in(1, 20);
    s.forcing = {{"precipitation", {vector<double>(s.steps, 1.0)}}};
    c.tag(dt == 1 ? "daily" : dt < 1 ? "sub-daily" : "several days");
    if (spin) c.tag("spin-up");

    int n = g.in(1, 5);
    vector<std::unique_ptr<Probe>> probes;
    vector<Event> log;
    struct Planned {
        int action;
        double date;
    };
    vector<Planned> once;
    struct Yearly {
        int action, month, day;
    };
    vector<Yearly> yearly;
    string text;
    for (int i = 0; i < n; ++i) {
        auto p = std::make_unique<Probe>();
        p->id = i;
        p->log = &log;
        int m = g.in(1, 6);
        bool rec = g.chance(2, 5);
        std::set<std::pair<int, int>> seen;
        for (int k = 0; k < m; ++k) {
            if (rec) {
                int ym = g.in(1, 12), yd;
                if (g.chance(2, 3)) {
                    int yy;
                    civilFrom(static_cast<long>(start + static_cast<double>(g.below(static_cast<uint64_t>(len) + 2))) - 40587, yy, ym, yd);
                } else {
                    yd = g.in(1, 31);
                }
                static const int last[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
                int used = std::min(yd, last[ym - 1]);
                if (!seen.insert({ym, used}).second) continue;
                p->AddRecursiveDate(ym, yd);
                yearly.push_back({i, ym, used});
                text += format("action {} every year on {}-{}\n", i, ym, yd);
            } else {
                double date;
                int kind = static_cast<int>(g.below(8));
                if (kind == 0)
                    date = start - g.in(0, 40);
                else if (kind == 1)
                    date = start + len + g.in(-2, 40);
                else if (kind == 2 && !once.empty())
                    date = g.pick(once).date;
                else if (kind < 6)
                    date = start + static_cast<double>(g.below(static_cast<uint64_t>(len) + 1)) + (dt < 1 && g.flip() ? g.in(0, 23) / 24.0 + g.in(0, 59) / 1440.0 : 0.0);
                else
                    date = start + static_cast<double>(g.below(s.steps + 1)) * dt;
                p->add(date);
                once.push_back({i, date});
                text += format("action {} on {}\n", i, dateStr(date, true));
            }
        }
        probes.push_back(std::move(p));
    }
    c.desc << format("start {}-{}-{} steps {} of {} {} spin-up {} days\n", s.y, s.m, s.d, s.steps, s.dt, s.dtUnit, s.spinupDays) << text;

    // What must have happened when the clock reaches a value; the dates after the last simulated step may be applied or not.
    double lastStep = start + (s.steps - 1) * dt, end = start + s.steps * dt;
    const double tol = 0.5 / 86400;
    auto verify = [&](const string& what) {
        double prevOnce = -1e9, prevYear = -1e9;
        std::map<std::pair<int, double>, int> did, did2;
        for (auto& e : log) {
            int k = static_cast<int>(std::lround((e.clock - start) / dt));
            check(k >= 1 && k <= s.steps, format("{}: action {} applied out of the period", what, e.action));
            double before = k >= 2 ? start + (k - 1) * dt : -1e9;
            if (e.yearly) {
                ++did2[{e.action, e.date}];
                check(e.date >= prevYear, format("{}: the yearly actions are not in order", what));
                prevYear = e.date;
                bool listed = false;
                int yy, ym, yd;
                civilFrom(static_cast<long>(e.date) - 40587, yy, ym, yd);
                for (auto& q : yearly) listed |= q.action == e.action && q.month == ym && q.day == yd;
                check(listed, format("{}: action {} applied on {}", what, e.action, dateStr(e.date, true)));
                // The first time step on or after that day.
                check(e.date <= e.clock + tol, format("{}: yearly action {} of {} applied too early, on {}", what, e.action, dateStr(e.date, true), dateStr(e.clock, true)));
                check(before < e.date - tol || k < 2, format("{}: yearly action {} of {} applied too late, on {}", what, e.action, dateStr(e.date, true), dateStr(e.clock, true)));
                check(e.date >= std::floor(start) - tol, format("{}: yearly action of {} before the period", what, dateStr(e.date, true)));
            } else {
                ++did[{e.action, e.date}];
                check(e.date >= prevOnce - 1e-12, format("{}: one-off actions not in order: {} after {}", what, dateStr(e.date, true), dateStr(prevOnce, true)));
                prevOnce = e.date;
                check(e.date <= e.clock + tol, format("{}: action {} of {} applied too early, on {}", what, e.action, dateStr(e.date, true), dateStr(e.clock, true)));
                check(before < e.date - tol / 50, format("{}: action {} of {} applied too late, on {}", what, e.action, dateStr(e.date, true), dateStr(e.clock, true)));
            }
        }
        std::map<std::pair<int, double>, int> want;
        for (auto& p : once) ++want[{p.action, p.date}];
        for (auto& [k, v] : want) {
            int got = did.count(k) ? did[k] : 0;
            if (k.second <= lastStep + tol / 50)
                check(got == v, format("{}: action {} of {} applied {} times instead of {}", what, k.first, dateStr(k.second, true), got, v));
            else if (k.second <= end + tol)
                check(got == v || got == 0, format("{}: action {} of {} applied {} times", what, k.first, dateStr(k.second, true), got));
            else
                check(got == 0, format("{}: action {} of {}, after the end, is applied", what, k.first, dateStr(k.second, true)));
        }
        int n = 0;
        for (double d = std::floor(start); d <= std::floor(end + tol); ++d) {
            int yy, ym, yd;
            civilFrom(static_cast<long>(d) - 40587, yy, ym, yd);
            for (auto& q : yearly) {
                if (q.month != ym || q.day != yd) continue;
                int got = did2.count({q.action, d}) ? did2[{q.action, d}] : 0;
                if (d > std::floor(start) && d <= std::floor(lastStep + tol)) {
                    check(got == 1, format("{}: yearly action {} of {} applied {} times", what, q.action, dateStr(d, true), got));
                    ++n;
                } else {
                    check(got <= 1, format("{}: yearly action {} of {} applied {} times", what, q.action, dateStr(d, true), got));
                }
            }
        }
        return n;
    };

    size_t total = 0;
    int years = 0;
    if (direct) {
        // The clock and the manager alone.
        ActionsManager manager;
        TimeMachine timer;
        auto unitOf = s.dtUnit == "day" ? TimeUnit::Day : s.dtUnit == "hour" ? TimeUnit::Hour : TimeUnit::Minute;
        timer.Initialize(start, start + (s.steps - 1) * dt, s.dt, unitOf);
        timer.SetActionsManager(&manager);
        check(timer.GetTimeStepCount() == s.steps, format("{} steps instead of {}", timer.GetTimeStepCount(), s.steps));
        for (auto& p : probes) {
            p->timer = &timer;
            check(manager.AddAction(p.get()), "a valid action is refused");
        }
        check(manager.GetActionCount() == n, "number of actions");
        for (int run = 0; run < 2; ++run) {
            int k = 0;
            while (!timer.IsOver()) {
                near(timer.GetDate(), start + k * dt, 0, 1e-9, "clock");
                timer.IncrementTime();
                ++k;
            }
            check(k == s.steps, format("{} steps instead of {}", k, s.steps));
            years = verify(run ? "after the reset" : "first run");
            if (run == 0) total = log.size();
            check(log.size() == total, "another number of actions after the reset");
            log.clear();
            timer.Reset();
            manager.Reset();
        }
    } else {
        Sim sim(s);
        sim.build();
        sim.attach();
        for (auto& p : probes) {
            p->timer = sim.model->GetTimeMachine();
            check(sim.model->AddAction(p.get()), "a valid action is refused");
        }
        for (int run = 0; run < 2; ++run) {
            if (run > 0 || g.flip()) sim.model->Reset();
            sim.run();
            years = verify(run ? "after the reset" : "first run");
            if (run == 0) total = log.size();
            check(log.size() == total, "another number of actions after the reset");
            log.clear();
        }
    }
    if (years > 0) c.tag("yearly");
    c.nontrivial = total > 0;
}
static void manager(Gen& g, Case& c) {
    calendar(g, c, true);
}
static void model(Gen& g, Case& c) {
    calendar(g, c, false);
}

// Land cover changes with distinct extents: the recorded fractions tell which changes were made, and when.
static void effects(Gen& g, Case& c) {
    Opt o;
    o.families = {"net", "hbv"};
    o.minSteps = 3;
    o.maxSteps = 60;
    o.spinup = true;
    o.extreme = false;
    RM r = genModel(g, o);
    if (r.c.soilCovers.size() < 2) throw Discard{};
    // One cover changes, anything up to the whole extent of the generic cover.
    string cov = r.c.soilCovers[1], gen = r.c.soilCovers[0];
    double start = startOf(r.s), dt = r.s.dtDays();
    int n = g.in(1, 10);
    struct Item {
        double date;
        int unit;
        double frac;
    };
    vector<Item> items;
    std::set<std::pair<int, long>> seen;
    for (int i = 0; i < n; ++i) {
        int u = static_cast<int>(g.below(r.s.units.size()));
        double date = g.chance(1, 8) ? start - g.in(1, 9) : g.flip() ? start + g.in(0, r.s.steps) * dt : start + g.in(0, static_cast<int>(r.s.steps * dt)) + g.in(0, 23) / 24.0;
        if (!seen.insert({u, std::lround(date * 86400)}).second) continue;
        double room = coverOf(r.s, u, cov)->frac + coverOf(r.s, u, gen)->frac;
        items.push_back({date, u, std::min(1.0, room * g.real(0, 1, 1000))});
    }
    int na = g.in(1, 3);
    vector<std::unique_ptr<ActionLandCoverChange>> acts;
    for (int i = 0; i < na; ++i) acts.push_back(std::make_unique<ActionLandCoverChange>());
    vector<bool> used(na, false);
    for (auto& it : items) {
        int a = static_cast<int>(g.below(na));
        acts[a]->AddChange(it.date, r.s.units[it.unit].id, cov, it.frac * r.s.units[it.unit].area);
        used[a] = true;
    }
    tags(c, r);
    c.desc << showRM(r);
    for (auto& it : items) c.desc << format("{} unit#{} {} -> {:.17g}\n", dateStr(it.date, true), it.unit, cov, it.frac);
    Sim sim(r.s);
    sim.build();
    sim.attach();
    if (r.s.beforeRun) r.s.beforeRun(*sim.model);
    sim.spec.beforeRun = nullptr;
    for (int i = 0; i < na; ++i)
        if (used[i]) check(sim.model->AddAction(acts[i].get()), "a valid action is refused");
    std::stable_sort(items.begin(), items.end(), [](auto& a, auto& b) { return a.date < b.date; });
    for (int run = 0; run < 2; ++run) {
        if (run) sim.model->Reset();
        sim.run();
        Out out = read(sim);
        int moved = 0;
        for (int u = 0; u < out.U; ++u) {
            double f = coverOf(r.s, u, cov)->frac;
            for (int t = 0; t < out.T; ++t) {
                if (t > 0)
                    for (auto& it : items)
                        if (it.unit == u && it.date <= start + t * dt + 1e-6) {
                            moved += f != it.frac && out.frac.at(cov)[u][t - 1] != it.frac;
                            f = it.frac;
                        }
                near(out.frac.at(cov)[u][t], f, 0, 1e-7, format("run {}: fraction of {} in unit#{} at step {}", run, cov, u, t));
            }
        }
        if (moved > 1) c.nontrivial = true;
    }
}
const std::vector<pbt::Sub>& pbt::subs() {
    static const std::vector<Sub> s = {
        {"manager", manager, 60000, 1000000, "clock and action queue; non-trivial: an action happens"},
        {"model", model, 40000, 700000, "probing actions in model runs, with spin-up and reruns; non-trivial: an action happens"},
        {"effects", effects, 30000, 500000, "recorded extents after scheduled land cover changes; non-trivial: two changes happen"}};
    return s;
}
