// Water balance of random models, per step and in total.
#include "../actions.h"
using namespace act;
const char* pbt::propertyId() {
    return "C01";
}
static void balance(Gen& g, Case& c) {
    Opt o;
    o.spinup = true;
    o.extreme = true;
    RM r = genModel(g, o);
    tags(c, r);
    // Half of the models that can have them get actions: changing land covers, snow turned into ice.
    Plan plan;
    if (r.s.steps > 3 && r.c.family != "gr" && g.flip()) plan = genPlan(g, r, true, false, true);
    auto changes = [&](const string& cover) {
        for (auto& l : plan.changes)
            for (auto& ch : l)
                if (ch.cover == cover) return true;
        return false;
    };
    std::erase_if(plan.ice, [&](auto& i) { return changes(i.cover); });
    c.desc << showRM(r) << plan.show();
    Owned keep;
    Sim sim(r.s);
    runPlan(sim, plan, keep);
    Out out = read(sim);
    if (getenv("HB_DUMP")) dump(out);
    if (!plan.changes.empty()) c.tag("changing covers");
    if (!plan.ice.empty()) c.tag("snow to ice");
    check(out.T == r.s.steps, "number of recorded steps");
    double area = 0;
    for (double a : out.areas) area += a;
    auto initial = [&](bool ice) {
        double sum = 0;
        for (auto& i : r.init) {
            if (i.type == ContentType::Ice && !ice) continue;
            if (i.unit < 0) {
                sum += i.value;
                continue;
            }
            sum += i.value * labelWeight(out, i.brick + ":", i.unit, 0) * out.areas[i.unit] / area;
        }
        return sum;
    };
    double P = 0, Q = 0, E = 0, iceMelt = 0;
    bool inf = r.c.infiniteIce && !r.c.glaciers.empty();
    double prev = r.s.spinupDays > 0 ? NAN : initial(!inf);
    double first = prev;
    int nP = 0, nQ = 0;
    bool known = true;
    for (int t = 0; t < out.T; ++t) {
        double p = 0, ice = 0;
        for (int u = 0; u < out.U; ++u) {
            p += precip(r, u, t) * out.areas[u] / area;
            if (inf)
                for (auto& gl : r.c.glaciers) ice += out.h(gl + ":melt:output", u)[t];
            if (inf)
                for (auto& gl : r.c.glaciers)
                    if (!r.c.transform.empty())
                        ice -= out.h(gl + "_snowpack:snow_ice_transfo:output", u)[t] * labelWeight(out, gl + ":", u, t) *
                               out.areas[u] / area;
        }
        // The ice of the area a glacier gives up is not tracked any more.
        bool several = false;
        if (!inf && t > 0 && !plan.changes.empty())
            for (int u = 0; u < out.U; ++u)
                for (auto& gl : r.c.glaciers) {
                    double lost = out.frac.at(gl)[u][t - 1] - out.frac.at(gl)[u][t];
                    if (lost > 0) ice -= lost * out.h(gl + ":ice_content", u)[t - 1] * out.areas[u] / area;
                    int n = 0;  // changes at this step: with several of them the ice given up is not known
                    double date = startOf(r.s) + t * r.s.dtDays();
                    for (auto& l : plan.changes)
                        for (auto& ch : l)
                            n += ch.unit == u && ch.cover == gl && ch.date <= date + 1e-6 && (t == 1 || ch.date > date - r.s.dtDays() - 1e-6);
                    several |= n > 1;
                }
        known &= !several;
        double q = out.s("outlet")[t], e = evap(r, out, t), st = stored(out, t, !inf);
        if (!r.exchange && !std::isnan(prev) && !several)
            near(q + e + st, p + ice + prev, 0, 1e-5 + 5e-8 * (p + ice + std::fabs(prev)),
                 format("balance of step {} (P={:.9g} ice={:.9g} Q={:.9g} ET={:.9g} S0={:.9g} S1={:.9g})", t, p, ice, q, e, prev, st));
        prev = st;
        P += p;
        Q += q;
        E += e;
        iceMelt += ice;
        nP += p > 0.01;
        nQ += q > 1e-4;
    }
    near(out.totalOutlet, Q, 1e-9, 1e-7, "total outlet discharge");
    near(out.totalEt, E, 1e-9, 1e-7, "total evapotranspiration");
    if (!r.exchange && known)
        near(out.totalOutlet + out.totalEt + out.dWater + out.dSnow + (inf ? 0 : out.dIce), P + iceMelt, 1e-8,
             1e-4 + 1e-9 * stored(out, 0, !inf), "balance of the reported totals");
    if (!std::isnan(first))
        near(out.dWater + out.dSnow + (inf ? 0 : out.dIce), prev - first, 1e-8, 1e-5 + 1e-9 * std::fabs(first),
             "reported storage changes");
    c.nontrivial = nP > 0 && nQ > 0;
    if (r.s.spinupDays) c.tag("spin-up");
    if (r.exchange) c.tag("exchange");
}
const std::vector<pbt::Sub>& pbt::subs() {
    static const std::vector<Sub> s = {
        {"balance", balance, 120000, 2500000,
         "random model of any family, solver, options, basin and forcing, half of them with land cover changes or snow turned into ice; non-trivial: rain and discharge occur"}};
    return s;
}
