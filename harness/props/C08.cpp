// Rain/snow separation and snowpack processes against their laws.
#include "../refprop.h"
using namespace ref;
const char* pbt::propertyId() {
    return "C08";
}
static Opt base() {
    Opt o;
    o.families = {"net"};
    o.solvers = {"euler_explicit"};
    o.lateral = o.transform = o.canopy = false;
    o.glacier = false;
    o.netBasin = false;
    o.snow4 = 4;
    o.direct4 = 0;
    o.coverMix = false;
    o.subDaily = false;
    o.maxSteps = 60;
    return o;
}
static void snow(Gen& g, Case& c, const Opt& o) {
    // What reaches the land cover is the rain plus the released melt water, all of which it passes on.
    auto x = against(g, c, o, [](const string& l) { return isSnowpack(l) || !l.contains("store"); });
    const RM& r = x->r;
    // Every snowpack: accumulation and melt balance, from the recorded series alone.
    for (auto& [l, v] : x->out.hu) {
        if (!l.ends_with("_snowpack:snow_content")) continue;
        string sp = componentOf(l), cov = sp.substr(0, sp.size() - 9);
        for (int u = 0; u < x->out.U; ++u) {
            if (x->out.frac.at(cov)[u][0] <= 1e-8) continue;
            double prev = 0;
            for (auto& i : r.init)
                if (i.unit == u && i.brick == sp) prev = i.value;
            for (int t = 0; t < x->out.T; ++t) {
                double s = v[u][t];
                check(s >= 0, "negative snow on " + sp);
                double P = 0;
                for (auto& f : r.s.forcing)
                    if (f.var == "precipitation") P = f.v.size() == 1 ? f.v[0][t] : f.v[u][t];
                double fall = P * snowFraction(r, u, t) * r.scf, out = 0;
                if (!r.c.retention)  // the melt goes to the cover: its record is already weighted by the cover fraction
                    out = x->out.h(sp + ":melt:output", u)[t];
                else
                    out = x->out.h(sp + ":melt:output", u)[t] - (r.c.refreeze ? x->out.h(sp + ":refreeze:output", u)[t] : 0);
                if (!r.c.sublimation.empty()) out += x->out.h(sp + ":sublimation:output", u)[t];
                near(s, prev + fall - out, 1e-7, 1e-5 + 1e-6 * P, "snow balance of " + sp + format(" (unit #{}) at step {}", u, t));
                prev = s;
            }
        }
    }
    if (x->moved("melt") > 0) c.tag("melt");
    if (x->moved("refreeze") > 0) c.tag("refreezing");
    if (x->moved("outflow:snow_holding") > 0) c.tag("release of retained water");
    if (x->moved("sublimation") > 0) c.tag("sublimating");
    c.tag(r.c.splitter);
    c.tag(r.c.melt);
    bool anySnow = false;
    for (int u = 0; u < x->out.U; ++u)
        for (int t = 0; t < x->out.T; ++t) anySnow |= snowFraction(r, u, t) > 0 && precip(r, u, t) > 0;
    c.nontrivial = anySnow && x->moved("melt") > 0;
}
static void melt(Gen& g, Case& c) {
    Opt o = base();
    o.retention4 = 0;
    o.sublimation4 = 0;
    snow(g, c, o);
}
static void routine(Gen& g, Case& c) {
    Opt o = base();
    o.retention4 = 3;
    o.sublimation4 = 2;
    snow(g, c, o);
}
const std::vector<pbt::Sub>& pbt::subs() {
    static const std::vector<Sub> s = {
        {"melt", melt, 90000, 1800000, "random split and melt laws on 1-3 covers and units; non-trivial: snow falls and melts"},
        {"routine", routine, 90000, 1800000, "with retention, refreezing and sublimation; non-trivial: snow falls and melts"}};
    return s;
}
