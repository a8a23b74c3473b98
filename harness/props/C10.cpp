// Canopy interception against its law.
#include "../refprop.h"
using namespace ref;
const char* pbt::propertyId() {
    return "C10";
}
static void canopy(Gen& g, Case& c) {
    Opt o;
    o.families = {"hbv", "net"};
    o.solvers = {"euler_explicit"};
    o.lateral = o.transform = o.glacier = false;
    o.canopy12 = 8;
    o.sublimation4 = 0;
    o.direct4 = 0;
    o.snow4 = 2;
    o.subDaily = true;
    o.maxSteps = 60;
    std::set<string> covers{"ground", "open", "forest", "meadow"};
    auto x = against(g, c, o, [&](const string& l) {
        string n = componentOf(l);
        return n.ends_with("_canopy") || covers.count(n) || n.ends_with("_snowpack");
    });
    const RM& r = x->r;
    int with = 0;
    bool full = false;
    for (size_t i = 0; i < r.c.canopy.size(); ++i) {
        string cov = r.c.soilCovers[i], can = cov + "_canopy";
        if (!r.c.canopy[i]) {
            check(!x->out.hasH(can + ":water_content"), "a cover without canopy has one");
            continue;
        }
        ++with;
        double cap = 2;
        for (auto& p : r.s.params)
            if (p.comp == can && p.name == "capacity") cap = p.value;
        for (int u = 0; u < x->out.U; ++u) {
            if (x->out.frac.at(cov)[u][0] <= 1e-8) continue;
            double prev = 0;
            for (int t = 0; t < x->out.T; ++t) {
                double P = 0, E = 0;
                for (auto& f : r.s.forcing) {
                    double v = f.v.size() == 1 ? f.v[0][t] : f.v[u][t];
                    if (f.var == "precipitation") P = v;
                    if (f.var == "pet") E = v;
                }
                double rain = P * (1 - snowFraction(r, u, t)) * r.rcf;
                double th = x->out.h(can + ":throughfall:output", u)[t], et = x->out.h(can + ":interception_et:output", u)[t],
                       st = x->out.h(can + ":water_content", u)[t];
                near(st - prev, rain - th - et, 1e-8, 1e-5, "canopy balance of " + cov);
                check(st <= cap + 1e-6, "canopy above its capacity");
                check(et <= E * r.s.dtDays() + 1e-6, "canopy evaporates more than the potential rate");
                full |= th > 0;
                prev = st;
            }
        }
    }
    if (with == 0) c.tag("no canopy");
    c.nontrivial = with > 0 && full && x->moved("et:open_water") > 0;
}
const std::vector<pbt::Sub>& pbt::subs() {
    static const std::vector<Sub> s = {
        {"canopy", canopy, 130000, 2500000, "random canopies on the covers of HBV and networks; non-trivial: throughfall and interception evaporation occur"}};
    return s;
}
