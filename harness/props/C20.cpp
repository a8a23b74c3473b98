// Parameters: which components a setting reaches, updates of built models, values changing with the date.
#include <set>

#include "../actions.h"
#include "Parameter.h"
#include "ParameterModifier.h"
#include "ParametersUpdater.h"
#include "TimeMachine.h"
using namespace act;
const char* pbt::propertyId() {
    return "C20";
}

// All the parameters of the settings, in the order in which a setting looks for them.
struct Slot {
    int structure;
    bool basin, splitter;
    string comp, type, process, name;  // process empty: parameter of the brick
    float value;
    bool operator==(const Slot& o) const {
        bool sameValue = value == o.value || (std::isnan(value) && std::isnan(o.value));
        return structure == o.structure && basin == o.basin && splitter == o.splitter && comp == o.comp && process == o.process && name == o.name && sameValue;
    }
    string key() const {
        return format("structure {} {}:{}{}:{}", structure, comp, process, process.empty() ? "" : ":", name);
    }
};
static vector<Slot> slots(SettingsModel& m) {
    vector<Slot> v;
    for (int s = 1; s <= m.GetStructureCount(); ++s) {
        if (!m.SelectStructure(s)) fail(format("structure {} not found", s));
        auto bricks = [&](bool basin) {
            int n = basin ? m.GetSubBasinBrickCount() : m.GetHydroUnitBrickCount();
            for (int i = 0; i < n; ++i) {
                const BrickSettings& b = basin ? m.GetSubBasinBrickSettings(i) : m.GetHydroUnitBrickSettings(i);
                for (auto& p : b.parameters) v.push_back({s, basin, false, b.name, b.type, "", p.GetName(), p.GetValue()});
                for (auto& q : b.processes)
                    for (auto& p : q.parameters) v.push_back({s, basin, false, b.name, b.type, q.name, p.GetName(), p.GetValue()});
            }
            int k = basin ? m.GetSubBasinSplitterCount() : m.GetHydroUnitSplitterCount();
            for (int i = 0; i < k; ++i) {
                const SplitterSettings& b = basin ? m.GetSubBasinSplitterSettings(i) : m.GetHydroUnitSplitterSettings(i);
                for (auto& p : b.parameters) v.push_back({s, basin, true, b.name, b.type, "", p.GetName(), p.GetValue()});
            }
        };
        bricks(false);
        bricks(true);
    }
    m.SelectStructure(1);
    return v;
}
// Set the value for one component; number of parameters reached.
static int setOne(vector<Slot>& v, const string& comp, const string& name, float value) {
    int n = 0;
    std::set<int> done;
    // bricks of the units, then of the basin, then splitters
    for (int pass = 0; pass < 4; ++pass)
        for (auto& s : v) {
            if (s.comp != comp || s.name != name || s.basin != (pass % 2 == 1) || s.splitter != (pass > 1) || done.count(s.structure)) continue;
            s.value = value;
            done.insert(s.structure);
            ++n;
        }
    return n;
}

struct Op {
    string comp, name;
    float value;
};
// A value that the parameter may take.
static float valueFor(Gen& g, const string& name, float old) {
    double v = old;
    if (name == "response_factor" || name == "lp" || name.find("fraction") != string::npos)
        v *= g.real(0.2, 1, 8);
    else if (name == "maxbas" || name == "uh_base_time")
        v = g.real(0.5, 8, 75);
    else if (name.find("threshold") != string::npos || name.find("transition") != string::npos || name == "exchange_factor" || name == "melting_temperature" ||
             name == "north_hemisphere" || name.starts_with("rho") || name == "exp" || name.find("slope") != string::npos || name == "infinite_storage" ||
             name == "no_melt_when_snow_cover" || name == "beta" || name == "alpha")
        v = old;
    else
        v *= g.real(0.5, 1.5, 10);
    return static_cast<float>(v);
}
// One setting in one of the supported forms; the expected slots are updated.
static Op genOp(Gen& g, vector<Slot>& v, Case& c, bool valid) {
    const Slot s = v[g.below(v.size())];
    float value = valid ? valueFor(g, s.name, s.value) : static_cast<float>(g.real(-5, 300, 610));
    int form = static_cast<int>(g.below(4));
    if (form == 1 && !s.splitter) {
        // by type: only when all the bricks of the type have the parameter
        string type = s.type;
        if ((type == "glacier" || type == "generic_land_cover") && g.flip()) type = "land_cover";
        auto match = [&](const Slot& x) {
            return !x.splitter && (x.type == type || (type == "land_cover" && (x.type == "glacier" || x.type == "generic_land_cover")));
        };
        std::set<string> comps, with;
        for (auto& x : v)
            if (match(x)) {
                comps.insert(format("{} {}", x.structure, x.comp));
                if (x.name == s.name) with.insert(format("{} {}", x.structure, x.comp));
            }
        if (comps == with) {
            c.tag("by type");
            std::set<string> names;
            for (auto& x : v)
                if (match(x)) names.insert(x.comp);
            for (auto& n : names) setOne(v, n, s.name, value);
            return {"type:" + type, s.name, value};
        }
    }
    if (form == 2) {
        std::set<string> names{s.comp};
        for (auto& x : v)
            if (x.name == s.name && g.flip()) names.insert(x.comp);
        vector<string> list(names.begin(), names.end());
        g.shuffle(list);
        string t;
        for (auto& n : list) {
            t += (t.empty() ? "" : g.flip() ? ", " : ",") + n;
            setOne(v, n, s.name, value);
        }
        if (list.size() > 1) c.tag("list");
        return {t, s.name, value};
    }
    setOne(v, s.comp, s.name, value);
    return {s.comp, s.name, value};
}
// Bricks of the type without any parameter make a setting by type fail: find them.
static bool typeComplete(SettingsModel& m, const string& comp, const string& name) {
    if (!comp.starts_with("type:")) return true;
    string type = comp.substr(5);
    bool ok = true;
    for (int s = 1; s <= m.GetStructureCount(); ++s) {
        m.SelectStructure(s);
        for (int k = 0; k < 2; ++k) {
            int n = k ? m.GetSubBasinBrickCount() : m.GetHydroUnitBrickCount();
            for (int i = 0; i < n; ++i) {
                const BrickSettings& b = k ? m.GetSubBasinBrickSettings(i) : m.GetHydroUnitBrickSettings(i);
                if (b.type != type && !(type == "land_cover" && (b.type == "glacier" || b.type == "generic_land_cover"))) continue;
                bool has = false;
                for (auto& p : b.parameters) has |= p.GetName() == name;
                for (auto& q : b.processes)
                    for (auto& p : q.parameters) has |= p.GetName() == name;
                ok &= has;
            }
        }
    }
    m.SelectStructure(1);
    return ok;
}

static void scope(Gen& g, Case& c) {
    Opt o;
    o.minSteps = 2;
    o.maxSteps = 2;
    RM r = genModel(g, o);
    SettingsModel m;
    build(m, r.c);
    bool two = g.chance(1, 3);
    if (two) {
        // A second structure: another model of the same family (sharing component names).
        Opt o2 = o;
        o2.families = {r.c.family};
        RM r2 = genModel(g, o2);
        m.AddStructure();
        build(m, r2.c);
        c.tag("two structures");
    }
    tags(c, r);
    vector<Slot> want = slots(m);
    if (want.empty()) throw Discard{};
    int n = g.in(1, 12);
    std::set<string> reached;
    for (int i = 0; i < n; ++i) {
        vector<Slot> next = want;
        Op op = genOp(g, next, c, false);
        if (!typeComplete(m, op.comp, op.name)) continue;
        // A brick of that name without the parameter in another structure refuses the setting.
        bool ok = true;
        string why;
        try {
            ok = m.SetParameterValue(op.comp, op.name, op.value);
        } catch (const std::exception& e) {
            ok = false;
            why = e.what();
        }
        c.desc << format("set {} {} = {:.9g}\n", op.comp, op.name, op.value);
        if (!ok && two) throw Discard{};
        if (!ok) fail(format("setting {} of '{}' refused {}", op.name, op.comp, why));
        vector<Slot> got = slots(m);
        check(got.size() == next.size(), "another number of parameters");
        for (size_t k = 0; k < got.size(); ++k) {
            if (!(got[k] == next[k]))
                fail(format("after setting {} of '{}' to {}: {} is {} instead of {} (before: {})", op.name, op.comp, op.value, next[k].key(), got[k].value, next[k].value, want[k].value));
            if (next[k].value != want[k].value) reached.insert(next[k].key());
        }
        want = next;
    }
    // Unknown components or parameters change nothing.
    int kind = static_cast<int>(g.below(2));
    bool refused = false;
    try {
        refused = !m.SetParameterValue(kind ? "no_such_component" : want[g.below(want.size())].comp, kind ? want[0].name : "no_such_parameter", 1.5f);
    } catch (const std::exception&) {
        refused = true;
    }
    check(refused, "an unknown component or parameter is accepted");
    vector<Slot> got = slots(m);
    for (size_t k = 0; k < got.size(); ++k)
        if (!(got[k] == want[k])) fail("a refused setting changed " + want[k].key());
    c.nontrivial = reached.size() > 1;
}

static Out go(Sim& sim) {
    std::expected<void, string> r;
    try {
        r = sim.model->Run();
    } catch (const std::exception& e) {
        if (string(e.what()).find("is too high") != string::npos) throw Discard{};
        throw;
    }
    if (!r) fail("a valid run failed: " + r.error());
    return read(sim);
}

static void update(Gen& g, Case& c) {
    Opt o;
    o.maxSteps = 25;
    o.initial = false;
    o.spinup = true;
    RM r = genModel(g, o);
    tags(c, r);
    c.desc << showRM(r);
    Sim sim(r.s);
    sim.build();
    sim.attach();
    vector<Slot> want = slots(sim.settings);
    if (want.empty()) throw Discard{};
    vector<Slot> first = want;
    bool ran = false;
    if (g.flip()) {
        (void)go(sim);
        ran = true;
    }
    int rounds = g.in(1, 3), sets = 0;
    for (int k = 0; k < rounds; ++k) {
        int n = g.in(1, 6);
        for (int i = 0; i < n; ++i) {
            vector<Slot> next = want;
            Op op = genOp(g, next, c, true);
            if (!typeComplete(sim.settings, op.comp, op.name)) continue;
            if (!sim.settings.SetParameterValue(op.comp, op.name, op.value)) fail(format("setting {} of '{}' refused", op.name, op.comp));
            want = next;
            ++sets;
            c.desc << format("set {} {} = {:.9g}\n", op.comp, op.name, op.value);
        }
        if (k + 1 < rounds) {
            int what = static_cast<int>(g.below(3));
            if (what > 0) sim.model->UpdateParameters(sim.settings);
            if (what > 1) {
                c.desc << "run\n";
                sim.model->Reset();
                try {
                    (void)sim.model->Run();
                } catch (const std::exception&) {
                }
                ran = true;
            }
        }
    }
    // The model updated in place.
    bool before = ran && g.flip();
    if (before) sim.model->Reset();
    sim.model->UpdateParameters(sim.settings);
    if (!before && (ran || g.flip())) sim.model->Reset();
    c.desc << (before ? "reset, update\n" : "update, reset\n");
    Out got = go(sim);
    // A model built with these values.
    RM r2 = r;
    for (auto& s : want)
        for (auto& f : first)
            if (f.comp == s.comp && f.name == s.name && f.process == s.process && f.value != s.value) {
                bool found = false;
                for (auto& p : r2.s.params)
                    if (p.comp == s.comp && p.name == s.name) {
                        p.value = s.value;
                        found = true;
                    }
                if (!found) r2.s.params.push_back({s.comp, s.name, s.value});
            }
    Sim fresh(r2.s);
    fresh.build();
    auto built = slots(fresh.settings);
    for (size_t i = 0; i < built.size(); ++i)
        if (!(built[i] == want[i])) throw Discard{};  // two parameters of one name in one component
    fresh.attach();
    Out ref = go(fresh);
    compareOut(ref, got, 0, 0, "updated model");
    bool differs = false;
    for (size_t i = 0; i < want.size(); ++i) differs |= want[i].value != first[i].value;
    c.nontrivial = sets > 0 && differs && ref.T > 0;
}

// Parameters of the built processes depend on the structure of each unit (see C23) and reach every unit: units with
// identical properties and forcing give identical results after an update.
static void units(Gen& g, Case& c) {
    Opt o;
    o.maxUnits = 1;
    o.maxSteps = 20;
    o.lateral = false;
    o.initial = false;
    RM r = genModel(g, o);
    tags(c, r);
    int n = g.in(2, 4);
    for (int i = 1; i < n; ++i) {
        Unit u = r.s.units[0];
        u.id = u.id + 10 * i;
        r.s.units.push_back(u);
    }
    for (auto& f : r.s.forcing)
        while (f.v.size() > 1 && f.v.size() < r.s.units.size()) f.v.push_back(f.v[0]);
    for (auto& f : r.s.forcing)
        if (f.v.size() == 1) f.v = vector<vector<double>>(r.s.units.size(), f.v[0]);
    c.desc << showRM(r);
    Sim sim(r.s);
    sim.build();
    sim.attach();
    vector<Slot> want = slots(sim.settings);
    if (want.empty()) throw Discard{};
    int k = g.in(1, 6);
    for (int i = 0; i < k; ++i) {
        vector<Slot> next = want;
        Op op = genOp(g, next, c, true);
        if (!typeComplete(sim.settings, op.comp, op.name)) continue;
        sim.settings.SetParameterValue(op.comp, op.name, op.value);
        want = next;
        c.desc << format("set {} {} = {:.9g}\n", op.comp, op.name, op.value);
    }
    sim.model->UpdateParameters(sim.settings);
    Out out = go(sim);
    bool water = false;
    for (auto& [l, v] : out.hu)
        for (int u = 1; u < out.U; ++u)
            for (int t = 0; t < out.T; ++t) {
                if (std::isnan(v[0][t]) && std::isnan(v[u][t])) continue;
                near(v[u][t], v[0][t], 0, 0, format("{} at step {} in unit#{}, identical to unit#0", l, t, u));
                water |= v[0][t] > 0;
            }
    c.nontrivial = water;
}

// Values by year, month or date.
static void modifiers(Gen& g, Case& c) {
    double start = mjdOf(g.in(1950, 2050), g.in(1, 12), g.in(1, 28));
    int dt = 1, steps;
    TimeUnit unit = TimeUnit::Day;
    double dtd = 1;
    int k = static_cast<int>(g.below(4));
    if (k == 0) {
        unit = TimeUnit::Hour;
        dt = g.pick<int>({1, 3, 6, 12});
        dtd = dt / 24.0;
    } else if (k == 1) {
        dt = g.in(2, 40);
        dtd = dt;
    }
    steps = g.chance(1, 4) ? g.in(400, 1500) : g.in(5, 120);
    ParametersUpdater upd;
    int n = g.in(1, 5);
    vector<std::unique_ptr<Parameter>> ps;
    struct Want {
        int kind;
        int y0;
        vector<float> v;
        vector<double> dates;
        float initial;
    };
    vector<Want> ws;
    c.desc << format("start {} steps {} of {} days\n", dateStr(start, true), steps, dtd);
    for (int i = 0; i < n; ++i) {
        Want w;
        w.kind = static_cast<int>(g.below(4));
        w.initial = static_cast<float>(g.real(-100, 100, 2000));
        auto p = std::make_unique<Parameter>(format("p{}", i), w.initial);
        auto vals = [&](int m) {
            for (int q = 0; q < m; ++q) w.v.push_back(static_cast<float>(g.real(-100, 100, 2000)));
        };
        int y, mo, d;
        civilFrom(static_cast<long>(start) - 40587, y, mo, d);
        if (w.kind == 0) {
            w.y0 = y + g.in(-3, 2);
            int m = g.in(1, 8);
            vals(m);
            ParameterModifier mod(ParameterModifierType::Yearly);
            check(mod.SetYearlyValues(w.y0, w.y0 + m - 1, w.v), "valid yearly values are refused");
            if (g.flip()) {
                auto more = w.v;
                more.push_back(1);
                ParameterModifier bad(ParameterModifierType::Yearly);
                check(!bad.SetYearlyValues(w.y0, w.y0 + m - 1, more), "too many yearly values are accepted");
            }
            p->SetModifier(mod);
            c.desc << format("p{} yearly from {}: {} values\n", i, w.y0, m);
        } else if (w.kind == 1) {
            vals(12);
            ParameterModifier mod(ParameterModifierType::Monthly);
            check(mod.SetMonthlyValues(w.v), "valid monthly values are refused");
            p->SetModifier(mod);
            if (g.flip()) {
                auto less = w.v;
                less.pop_back();
                ParameterModifier bad(ParameterModifierType::Monthly);
                check(!bad.SetMonthlyValues(less), "11 monthly values are accepted");
            }
            c.desc << format("p{} monthly\n", i);
        } else if (w.kind == 2) {
            std::set<double> ds;
            int m = g.in(1, 12);
            for (int q = 0; q < m; ++q) ds.insert(g.chance(4, 5) ? start + static_cast<double>(g.below(steps + 1)) * dtd : start + g.in(-50, 50) + 0.3);
            w.dates.assign(ds.begin(), ds.end());
            vals(static_cast<int>(w.dates.size()));
            ParameterModifier mod(ParameterModifierType::Dates);
            check(mod.SetDatesAndValues(w.dates, w.v), "valid dated values are refused");
            p->SetModifier(mod);
            c.desc << format("p{} on {} dates\n", i, w.dates.size());
        } else {
            c.desc << format("p{} constant\n", i);
        }
        upd.AddParameter(p.get());
        ps.push_back(std::move(p));
        ws.push_back(w);
    }
    TimeMachine timer;
    timer.Initialize(start, start + (steps - 1) * dtd, dt, unit);
    timer.SetParametersUpdater(&upd);
    vector<float> cur;
    for (auto& w : ws) cur.push_back(w.initial);
    int changes = 0;
    for (int run = 0; run < 2; ++run) {
        for (int t = 1; t < steps; ++t) {
            timer.IncrementTime();
            double date = start + t * dtd;
            int y, mo, d;
            civilFrom(static_cast<long>(std::floor(date + 1e-7)) - 40587, y, mo, d);
            for (int i = 0; i < n; ++i) {
                Want& w = ws[i];
                float old = cur[i];
                if (w.kind == 0) {
                    int q = y - w.y0;
                    if (q >= 0 && q < static_cast<int>(w.v.size())) cur[i] = w.v[q];
                } else if (w.kind == 1) {
                    cur[i] = w.v[mo - 1];
                } else if (w.kind == 2) {
                    bool maybe = false;
                    for (size_t q = 0; q < w.dates.size(); ++q) {
                        if (w.dates[q] == timer.GetDate()) cur[i] = w.v[q];
                        maybe |= w.dates[q] != timer.GetDate() && std::fabs(w.dates[q] - timer.GetDate()) < 1e-5;
                    }
                    if (maybe) throw Discard{};
                }
                changes += cur[i] != old;
                check(ps[i]->GetValue() == cur[i], format("run {}: p{} is {} instead of {} on {}", run, i, ps[i]->GetValue(), cur[i], dateStr(date, true)));
            }
        }
        timer.Reset();
    }
    c.nontrivial = changes > 0;
}
const std::vector<pbt::Sub>& pbt::subs() {
    static const std::vector<Sub> s = {
        {"scope", scope, 40000, 1000000, "settings by component, list and type against the list of all parameters; non-trivial: two parameters change"},
        {"update", update, 25000, 800000, "built models updated in place against models built with the values; non-trivial: a value changes"},
        {"units", units, 15000, 400000, "identical units stay identical after updates; non-trivial: water moves"},
        {"modifiers", modifiers, 30000, 700000, "values by year, month and date; non-trivial: a value changes"}};
    return s;
}
