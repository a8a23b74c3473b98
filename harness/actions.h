// Random scheduled actions for a generated model: land cover changes, glacier evolution, snow turned into ice.
#pragma once
#include "ActionGlacierEvolutionAreaScaling.h"
#include "ActionGlacierEvolutionDeltaH.h"
#include "ActionGlacierSnowToIceTransformation.h"
#include "ActionLandCoverChange.h"
#include "gen.h"

namespace act {
using namespace rm;

struct Change {
    double date;
    int unit;  // index
    string cover;
    double frac;
};
struct Evolution {
    bool deltaH = true;
    int month = 10;
    string cover;
    vector<int> units;                       // indices
    vector<vector<double>> area, volume;     // [row][column]
    int rows() const {
        return static_cast<int>(area.size());
    }
};
struct SnowIce {
    int month = 10, day = 1;
    string cover;
};
struct Plan {
    vector<vector<Change>> changes;  // one list per land cover change action
    vector<Evolution> evo;
    vector<SnowIce> ice;
    bool empty() const {
        return changes.empty() && evo.empty() && ice.empty();
    }
    string show() const {
        string t;
        for (size_t i = 0; i < changes.size(); ++i)
            for (auto& c : changes[i])
                t += format("change action {}: {} unit#{} {} -> {:.17g}\n", i, dateStr(c.date, true), c.unit, c.cover, c.frac);
        for (auto& e : evo) {
            t += format("glacier evolution {} month {} {}\n", e.deltaH ? "delta-h" : "area scaling", e.month, e.cover);
            for (int r = 0; r < e.rows(); ++r) {
                t += "  row areas";
                for (double a : e.area[r]) t += format(" {:.8g}", a);
                t += " volumes";
                for (double a : e.volume[r]) t += format(" {:.8g}", a);
                t += "\n";
            }
        }
        for (auto& s : ice) t += format("snow to ice on {}-{} for {}\n", s.month, s.day, s.cover);
        return t;
    }
};
using Owned = vector<std::unique_ptr<Action>>;

// Register the plan in the model; false if an action is refused.
inline bool install(const Plan& p, const Spec& s, ModelHydro& m, Owned& keep) {
    bool ok = true;
    for (auto& list : p.changes) {
        auto a = std::make_unique<ActionLandCoverChange>();
        for (auto& c : list) a->AddChange(c.date, s.units[c.unit].id, c.cover, c.frac * s.units[c.unit].area);
        ok = m.AddAction(a.get()) && ok;
        keep.push_back(std::move(a));
    }
    for (auto& e : p.evo) {
        int n = static_cast<int>(e.units.size()), R = e.rows();
        axi ids(n);
        axxd A(R, n), V(R, n);
        for (int i = 0; i < n; ++i) {
            ids[i] = s.units[e.units[i]].id;
            for (int r = 0; r < R; ++r) {
                A(r, i) = e.area[r][i];
                V(r, i) = e.volume[r][i];
            }
        }
        auto add = [&](auto a) {
            a->AddLookupTables(e.month, e.cover, ids, A, V);
            ok = m.AddAction(a.get()) && ok;
            keep.push_back(std::move(a));
        };
        if (e.deltaH)
            add(std::make_unique<ActionGlacierEvolutionDeltaH>());
        else
            add(std::make_unique<ActionGlacierEvolutionAreaScaling>());
    }
    for (auto& i : p.ice) {
        auto a = std::make_unique<ActionGlacierSnowToIceTransformation>(i.month, i.day, i.cover);
        ok = m.AddAction(a.get()) && ok;
        keep.push_back(std::move(a));
    }
    return ok;
}

inline double startOf(const Spec& s) {
    return mjdOf(s.y, s.m, s.d);
}
inline void setStart(Spec& s, double mjd) {
    civilFrom(static_cast<long>(mjd) - 40587, s.y, s.m, s.d);
}
inline Cover* coverOf(Spec& s, int u, const string& name) {
    for (auto& c : s.units[u].covers)
        if (c.name == name) return &c;
    return nullptr;
}

// Land cover changes that the generic cover can absorb, whatever the glaciers covered by an evolution do.
inline vector<vector<Change>> genChanges(Gen& g, RM& r, const vector<string>& covers, int maxChanges) {
    vector<vector<Change>> out;
    Spec& s = r.s;
    int U = static_cast<int>(s.units.size());
    double start = startOf(s), len = s.steps * s.dtDays();
    string generic = r.c.soilCovers[0];
    int n = g.in(1, maxChanges);
    struct D {
        double date;
        int unit;
    };
    vector<D> ds;
    for (int i = 0; i < n; ++i) {
        double date = g.chance(5, 6) ? start + static_cast<int>(g.below(static_cast<uint64_t>(std::max(1.0, len)))) : start + g.in(-4, 4) + (g.flip() ? len : 0);
        if (s.dtUnit != "day" && g.flip()) date += g.in(0, 23) / 24.0;
        int u = static_cast<int>(g.below(U));
        bool dup = false;
        for (auto& d : ds) dup |= d.unit == u && std::fabs(d.date - date) < 0.001;
        if (!dup) ds.push_back({date, u});
    }
    std::sort(ds.begin(), ds.end(), [](const D& a, const D& b) { return a.date < b.date; });
    vector<std::map<string, double>> cur(U);
    for (int u = 0; u < U; ++u)
        for (auto& c : s.units[u].covers) cur[u][c.name] = c.frac;
    vector<Change> flat;
    for (auto& d : ds) {
        string cov = g.pick(covers);
        double room = cur[d.unit][cov] + cur[d.unit][generic];
        int k = static_cast<int>(g.below(8));
        double f = k == 0 ? 0.0 : k == 1 ? room : room * g.real(0, 1, 64);
        if (f > 1) f = 1;
        flat.push_back({d.date, d.unit, cov, f});
        cur[d.unit][generic] = room - f;
        cur[d.unit][cov] = f;
    }
    // Registered in any order, over one or several actions.
    int na = g.chance(1, 3) ? 2 : 1;
    out.resize(na);
    vector<int> idx;
    for (size_t i = 0; i < flat.size(); ++i) idx.push_back(static_cast<int>(i));
    if (g.flip()) g.shuffle(idx);
    for (int i : idx) out[na == 1 ? 0 : g.below(na)].push_back(flat[i]);
    std::erase_if(out, [](auto& l) { return l.empty(); });
    return out;
}

// Lookup tables of a glacier; the initial areas are those of the model.
inline Evolution genEvolution(Gen& g, RM& r, const string& cover, bool deltaH) {
    Evolution e;
    Spec& s = r.s;
    e.deltaH = deltaH;
    e.cover = cover;
    int U = static_cast<int>(s.units.size());
    for (int u = 0; u < U; ++u)
        if (coverOf(s, u, cover)->frac > 0 || g.chance(1, 3)) e.units.push_back(u);
    if (e.units.empty()) e.units.push_back(0);
    if (g.chance(1, 3)) g.shuffle(e.units);
    int n = static_cast<int>(e.units.size());
    int R = g.chance(1, 4) ? g.pick<int>({2, 11, 50, 101}) : g.in(2, 12);
    e.area.assign(R, vector<double>(n));
    e.volume.assign(R, vector<double>(n));
    double scale = g.logreal(0.02, 60);
    vector<double> a0(n), v0(n), expo(n), ratio(n);
    vector<int> gone(n, R - 1);
    int keeps = -1;  // a unit that keeps ice up to the last row
    for (int i = 0; i < n; ++i) {
        const Unit& un = s.units[e.units[i]];
        a0[i] = coverOf(s, e.units[i], cover)->frac * un.area;
        // The tables come from other computations, whose rounding differs.
        if (g.chance(1, 4) && coverOf(s, e.units[i], cover)->frac < 1) a0[i] *= 1 + g.in(-4, 4) * 2.3e-16;
        v0[i] = a0[i] * scale * g.real(0.2, 2, 18);
        expo[i] = g.real(0.3, 2, 17);
        ratio[i] = g.real(0.2, 1.2, 20);
        // With the delta-h method a unit may lose its ice before the others.
        if (keeps < 0 && a0[i] > 0)
            keeps = i;
        else if (deltaH && R > 2 && g.chance(1, 4)) gone[i] = g.in(1, R - 1);
    }
    for (int q = 0; q < R; ++q)
        for (int i = 0; i < n; ++i) {
            double left = 1.0 - static_cast<double>(q) / gone[i];
            if (q >= gone[i]) left = 0;
            e.volume[q][i] = q == 0 ? v0[i] : v0[i] * std::pow(left, expo[i]);
            e.area[q][i] = q == 0 ? a0[i] : a0[i] * std::pow(left, ratio[i]);
            if (left == 0) e.volume[q][i] = e.area[q][i] = 0;
        }
    return e;
}

// Choose the month of a yearly action so that it happens within the simulation (most of the time), moving its start.
inline int genMonth(Gen& g, RM& r) {
    Spec& s = r.s;
    double len = s.steps * s.dtDays();
    if (g.chance(1, 10) || len < 2) return g.in(1, 12);
    int month = g.in(1, 12);
    double fire = mjdOf(g.in(1980, 2030), month, 1);
    setStart(s, fire - 1 - static_cast<double>(g.below(static_cast<uint64_t>(len - 1))));
    return month;
}

// Build, attach the forcing, install the plan (which has to be accepted) and run.
inline void runPlan(Sim& sim, const Plan& p, Owned& keep) {
    sim.build();
    sim.attach();
    if (sim.spec.beforeRun) sim.spec.beforeRun(*sim.model);
    sim.spec.beforeRun = nullptr;
    if (!install(p, sim.spec, *sim.model, keep)) fail("a valid action is refused");
    sim.run();
}

// A plan for the model (possibly empty). Evolution tables need finite ice; the model's glacier ice then comes from them.
inline Plan genPlan(Gen& g, RM& r, bool wantChanges = true, bool wantEvo = true, bool wantIce = true) {
    Plan p;
    vector<string> free;
    for (size_t i = 1; i < r.c.soilCovers.size(); ++i) free.push_back(r.c.soilCovers[i]);
    vector<string> gl = r.c.glaciers;
    if (wantEvo && !gl.empty() && !r.c.infiniteIce && g.chance(1, 2)) {
        string cov = g.pick(gl);
        std::erase(gl, cov);
        int month = genMonth(g, r);
        p.evo.push_back(genEvolution(g, r, cov, g.flip()));
        p.evo.back().month = month;
    }
    if (wantIce && !r.c.glaciers.empty() && r.c.snow && !r.c.infiniteIce && g.chance(1, 3)) {
        SnowIce i;
        i.cover = g.pick(r.c.glaciers);
        int y;
        civilFrom(static_cast<long>(startOf(r.s)) - 40587 + static_cast<long>(g.below(static_cast<uint64_t>(r.s.steps * r.s.dtDays()) + 1)), y, i.month, i.day);
        if (i.month == 2 && i.day == 29) i.day = 28;
        p.ice.push_back(i);
    }
    for (auto& x : gl) free.push_back(x);
    if (wantChanges && !free.empty() && g.chance(2, 3)) p.changes = genChanges(g, r, free, 6);
    return p;
}
}  // namespace act
