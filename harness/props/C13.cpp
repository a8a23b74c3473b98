// Land cover changes: fractions, conservation of the stores, stepwise reference, refusals.
#include "../actions.h"
#include "../refprop.h"
using namespace ref;
using act::Change;
using act::Plan;
const char* pbt::propertyId() {
    return "C13";
}
static RM model(Gen& g, Opt o) {
    o.families = {"socont", "hbv", "net", "net"};
    RM r = genModel(g, o);
    return r;
}
static vector<string> changeable(const RM& r) {
    vector<string> v;
    for (size_t i = 1; i < r.c.soilCovers.size(); ++i) v.push_back(r.c.soilCovers[i]);
    for (auto& x : r.c.glaciers) v.push_back(x);
    return v;
}
static vector<Change> sorted(const Plan& p) {
    vector<Change> v;
    for (auto& l : p.changes)
        for (auto& c : l) v.push_back(c);
    std::stable_sort(v.begin(), v.end(), [](const Change& a, const Change& b) { return a.date < b.date; });
    return v;
}
// Fractions by unit and cover at every step: a change takes effect for the first step (after the first one) at or after its date.
struct Expected {
    vector<vector<std::map<string, double>>> f;  // [step][unit]
    vector<vector<Change>> at;                   // [step]
};
static Expected expected(const RM& r, const Plan& p) {
    Expected e;
    vector<std::map<string, double>> cur(r.s.units.size());
    for (size_t u = 0; u < cur.size(); ++u)
        for (auto& c : r.s.units[u].covers) cur[u][c.name] = c.frac;
    auto all = sorted(p);
    size_t k = 0;
    string gen = r.c.soilCovers[0];
    for (int t = 0; t < r.s.steps; ++t) {
        double date = act::startOf(r.s) + t * r.s.dtDays();
        e.at.emplace_back();
        while (t > 0 && k < all.size() && all[k].date <= date + 1e-9) {
            auto& c = all[k++];
            cur[c.unit][gen] -= c.frac - cur[c.unit][c.cover];
            cur[c.unit][c.cover] = c.frac;
            e.at.back().push_back(c);
        }
        e.f.push_back(cur);
    }
    return e;
}
static void checkFractions(const RM& r, const Out& out, const Expected& e) {
    for (auto& [l, v] : out.frac)
        for (int u = 0; u < out.U; ++u)
            for (int t = 0; t < out.T; ++t) {
                double want = e.f[t][u].at(l);
                near(v[u][t], want, 0, 1e-7, format("fraction of {} in unit#{} at step {}", l, u, t));
                check(v[u][t] >= 0 && v[u][t] <= 1, format("fraction of {} in unit#{} at step {}: {:.17g} is not in 0-1", l, u, t, v[u][t]));
            }
    for (int u = 0; u < out.U; ++u)
        for (int t = 0; t < out.T; ++t) {
            double s = 0;
            for (auto& [l, v] : out.frac) s += v[u][t];
            near(s, 1, 0, 1e-9, format("sum of the fractions of unit#{} at step {}", u, t));
        }
    check(!out.frac.empty() && out.frac.size() == r.s.units[0].covers.size(), "the fractions are not recorded");
}
static Out simulateWith(const RM& r, const Plan& p) {
    act::Owned keep;
    Sim sim(r.s);
    sim.build();
    sim.attach();
    if (r.s.beforeRun) r.s.beforeRun(*sim.model);
    check(act::install(p, r.s, *sim.model, keep), "a valid action is refused");
    sim.spec.beforeRun = nullptr;
    sim.run();
    Out o = read(sim);
    if (getenv("HB_DUMP")) dump(o);
    return o;
}

// Move the stores of the strip that changes hands.
static void transfer(Model& m, const RM& r, const Change& c) {
    auto index = [&](const string& n) {
        for (size_t i = 0; i < m.covers.size(); ++i)
            if (m.covers[i] == n) return i;
        fail("cover " + n);
    };
    string gen = r.c.soilCovers[0];
    double &fc = m.frac[c.unit][index(c.cover)], &fg = m.frac[c.unit][index(gen)];
    double d = c.frac - fc;
    if (std::fabs(d) < 1e-13) return;
    bool grow = d > 0;
    string donor = grow ? gen : c.cover, recv = grow ? c.cover : gen;
    double strip = std::fabs(d), fRold = grow ? fc : fg, fRnew = fRold + strip, fDnew = (grow ? fg : fc) - strip;
    // role -> box
    auto boxes = [&](const string& cover) {
        std::map<string, Bx*> b;
        auto has = [&](const string& n) -> St* {
            for (auto& s : m.unit[c.unit])
                if (s->name == n) return s.get();
            return nullptr;
        };
        b["own"] = &has(cover)->w;
        if (has(cover)->isGlacier && !has(cover)->ic.inf) b["ice"] = &has(cover)->ic;
        if (St* s = has(cover + "_snowpack")) {
            b["snow"] = &s->sn;
            b["wet"] = &s->w;
        }
        if (St* s = has(cover + "_canopy")) b["canopy"] = &s->w;
        return b;
    };
    auto from = boxes(donor), to = boxes(recv);
    for (auto& [k, b] : to) b->s *= fRold / fRnew;
    for (auto& [k, b] : from) {
        double amount = b->s * strip;
        if (to.count(k))
            to[k]->s += amount / fRnew;
        else if (k == "canopy" || k == "wet")
            to["own"]->s += amount / fRnew;
        if (fDnew < 1e-12) b->s = 0;
    }
    fc = c.frac;
    fg -= d;
    if (fg < 1e-12) fg = 0;
}

static void reference(Gen& g, Case& c) {
    Opt o;
    o.solvers = {"euler_explicit"};
    o.subDaily = false;
    o.minSteps = 4;
    o.maxSteps = 30;
    o.zeroFractions = true;
    RM r = model(g, o);
    if (changeable(r).empty()) {
        r.c.soilCovers[0] = r.c.soilCovers[0];
        throw Discard{};
    }
    Plan p;
    p.changes = act::genChanges(g, r, changeable(r), 6);
    tags(c, r);
    c.desc << showRM(r) << p.show();
    Expected e = expected(r, p);
    Model m(r);
    int k = 0;
    bool moved = false;
    m.run([&](Model& q) {
        for (auto& ch : e.at[k]) {
            moved = true;
            transfer(q, r, ch);
        }
        ++k;
    });
    Out out = simulateWith(r, p);
    checkFractions(r, out, e);
    compare(r, out, m);
    c.nontrivial = moved;
}

static void balance(Gen& g, Case& c) {
    Opt o;
    o.minSteps = 4;
    o.maxSteps = 40;
    RM r = model(g, o);
    if (changeable(r).empty()) throw Discard{};
    Plan p;
    p.changes = act::genChanges(g, r, changeable(r), 8);
    tags(c, r);
    c.desc << showRM(r) << p.show();
    Expected e = expected(r, p);
    Out out = simulateWith(r, p);
    checkFractions(r, out, e);
    double area = 0;
    for (double a : out.areas) area += a;
    bool moved = false;
    double prev = NAN;
    bool inf = r.c.infiniteIce && !r.c.glaciers.empty();
    for (int t = 0; t < out.T; ++t) {
        double P = 0, ice = 0;
        for (int u = 0; u < out.U; ++u) {
            P += precip(r, u, t) * out.areas[u] / area;
            for (auto& gl : r.c.glaciers) {
                if (inf) {
                    ice += out.h(gl + ":melt:output", u)[t];
                    if (!r.c.transform.empty())
                        ice -= out.h(gl + "_snowpack:snow_ice_transfo:output", u)[t] * labelWeight(out, gl + ":", u, t) * out.areas[u] / area;
                } else if (t > 0) {
                    // The ice of the area a glacier gives up is not tracked any more.
                    double lost = out.frac.at(gl)[u][t - 1] - out.frac.at(gl)[u][t];
                    if (lost > 0) ice -= lost * out.h(gl + ":ice_content", u)[t - 1] * out.areas[u] / area;
                }
            }
        }
        double Q = out.s("outlet")[t], E = evap(r, out, t), S = stored(out, t, !inf);
        moved |= !e.at[t].empty();
        // Several changes of a glacier at one step: the ice given up is not the difference of the fractions.
        std::map<string, int> n;
        bool several = false;
        for (auto& ch : e.at[t]) several |= ++n[format("{} {}", ch.cover, ch.unit)] > 1;
        if (!several && t > 0)
            near(Q + E + S, P + ice + prev, 0, 1e-5 + 5e-8 * (P + std::fabs(ice) + std::fabs(prev)),
                 format("balance of step {} (P={:.9g} ice={:.9g} Q={:.9g} ET={:.9g} S0={:.9g} S1={:.9g})", t, P, ice, Q, E, prev, S));
        prev = S;
    }
    c.nontrivial = moved;
}

// An impossible change is refused: the run fails or the action is not accepted.
static void impossible(Gen& g, Case& c) {
    Opt o;
    o.minSteps = 4;
    o.maxSteps = 12;
    RM r = model(g, o);
    if (changeable(r).empty()) throw Discard{};
    tags(c, r);
    Plan p;
    vector<Change> list;
    double start = act::startOf(r.s);
    int u = static_cast<int>(g.below(r.s.units.size()));
    string cov = g.pick(changeable(r)), gen = r.c.soilCovers[0];
    double room = act::coverOf(r.s, u, cov)->frac + act::coverOf(r.s, u, gen)->frac;
    int kind = static_cast<int>(g.below(4));
    double date = start + g.in(1, r.s.steps - 1) * r.s.dtDays();
    int badUnit = -1;
    double f = 0.5 * room;
    if (kind == 0) {
        if (room > 0.95) throw Discard{};
        f = room + (1 - room) * g.real(0.05, 1, 19);
        c.tag("larger than the room left");
    } else if (kind == 1) {
        f = 1 + g.real(0.001, 3, 60);
        c.tag("larger than the unit");
    } else if (kind == 2) {
        f = -g.real(0.001, 1, 60);
        c.tag("negative");
    } else {
        cov = "no_such_cover";
        c.tag("unknown cover");
    }
    (void)badUnit;
    list.push_back({date, u, cov, f});
    p.changes.push_back(list);
    c.desc << showRM(r) << p.show();
    act::Owned keep;
    Sim sim(r.s);
    sim.build();
    sim.attach();
    if (r.s.beforeRun) r.s.beforeRun(*sim.model);
    bool refused = !act::install(p, r.s, *sim.model, keep);
    if (!refused) {
        try {
            refused = !sim.model->Run();
        } catch (const std::exception&) {
            refused = true;
        }
    }
    check(refused, "an impossible land cover change is accepted");
    // Nothing was changed before the refusal.
    for (size_t q = 0; q < r.s.units.size(); ++q) {
        double sum = 0;
        for (auto& cv : r.s.units[q].covers) {
            double fr = sim.sub->GetHydroUnit(q)->GetLandCover(cv.name)->GetAreaFraction();
            sum += fr;
            near(fr, cv.frac, 0, 1e-9, "fraction of " + cv.name + " after the refusal");
        }
        near(sum, 1, 0, 1e-9, "sum of the fractions after the refusal");
    }
    c.nontrivial = true;
}
const std::vector<pbt::Sub>& pbt::subs() {
    static const std::vector<Sub> s = {
        {"reference", reference, 60000, 1200000, "changes against the reference model in which the strip is exchanged; non-trivial: a change happens"},
        {"balance", balance, 60000, 1200000, "water balance over the changes, all solvers; non-trivial: a change happens"},
        {"impossible", impossible, 20000, 400000, "impossible changes are refused and change nothing; all non-trivial"}};
    return s;
}
