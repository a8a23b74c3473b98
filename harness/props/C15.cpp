// Snow turned into ice: continuous transformation and the yearly action.
#include "../refprop.h"

#include "ActionGlacierSnowToIceTransformation.h"
using namespace ref;
const char* pbt::propertyId() {
    return "C15";
}
static Opt base() {
    Opt o;
    o.families = {"net", "socont"};
    o.solvers = {"euler_explicit"};
    o.lateral = o.canopy = false;
    o.snow4 = 4;
    o.glacier4 = 4;
    o.sublimation4 = 0;
    o.direct4 = 0;
    o.coverMix = false;
    o.subDaily = false;
    return o;
}
static bool kept(const string& l) {
    return isSnowpack(l) || isGlacierCover(l);
}
static void continuous(Gen& g, Case& c) {
    Opt o = base();
    o.transform12 = 12;
    o.maxSteps = 60;
    auto x = against(g, c, o, kept);
    c.tag(x->r.c.transform);
    c.nontrivial = x->moved("transform:") > 0;
}
static void action(Gen& g, Case& c) {
    Opt o = base();
    o.transform12 = 0;
    o.finiteIceOnly = true;  // the action refuses infinite ice
    o.minSteps = 20;
    o.maxSteps = g.chance(1, 6) ? 800 : 60;
    RM r = genModel(g, o);
    tags(c, r);
    int month, day;
    double start = mjdOf(r.s.y, r.s.m, r.s.d);
    if (g.chance(5, 6)) {
        int yy;
        civilFrom(static_cast<long>(start) - 40587 + 1 + static_cast<long>(g.below(r.s.steps)), yy, month, day);
    } else {
        month = g.in(1, 12);
        day = g.in(1, 28);
    }
    if (month == 2 && day == 29) day = 28;
    string cover = g.pick(r.c.glaciers);
    c.desc << format("action: snow to ice on {}-{} (month-day) for {}\n", month, day, cover) << showRM(r);
    auto init = r.s.beforeRun;
    std::unique_ptr<ActionGlacierSnowToIceTransformation> act;
    r.s.beforeRun = [&, init](ModelHydro& m) {
        init(m);
        act = std::make_unique<ActionGlacierSnowToIceTransformation>(month, day, cover);
        check(m.AddAction(act.get()), "the action is refused");
    };
    bool before = false, fired = false;
    int k = 0;
    Model m(r);
    m.run([&](Model& q) {
        // The action of a date applies before the step of that date, once the simulation is running.
        int y, mo, d;
        civilFrom(static_cast<long>(start) - 40587 + k, y, mo, d);
        if (k > 0 && mo == month && d == day)
            for (int u = 0; u < q.U; ++u) {
                St* sp = q.find(u, cover + "_snowpack");
                St* gl = q.find(u, cover);
                if (sp->null()) continue;
                if (sp->sn.s > 0) fired = true;
                if (!gl->ic.inf) gl->ic.s += sp->sn.s;
                sp->sn.s = 0;
            }
        (void)before;
        ++k;
    });
    Out out = simulate(r.s);
    compare(r, out, m, kept);
    c.nontrivial = fired;
}
const std::vector<pbt::Sub>& pbt::subs() {
    static const std::vector<Sub> s = {
        {"continuous", continuous, 90000, 1800000, "constant and seasonal transformation; non-trivial: snow becomes ice"},
        {"action", action, 60000, 1200000, "yearly action on random dates; non-trivial: it fires with snow present"}};
    return s;
}
