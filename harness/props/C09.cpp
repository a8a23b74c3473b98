// Glacier ice melt against its law.
#include "../refprop.h"
using namespace ref;
const char* pbt::propertyId() {
    return "C09";
}
static void glacier(Gen& g, Case& c) {
    Opt o;
    o.families = {"socont", "net"};
    o.solvers = {"euler_explicit"};
    o.lateral = o.transform = o.canopy = false;
    o.sublimation4 = 0;
    o.direct4 = 0;
    o.coverMix = false;
    o.subDaily = false;
    o.glacier4 = 4;
    o.maxSteps = 60;
    auto x = against(g, c, o, [](const string& l) {
        return isGlacierCover(l) || isGlacierStore(l) || (isSnowpack(l) && l.starts_with("glacier"));
    });
    const RM& r = x->r;
    bool blocked = false, ranOut = false;
    double area = 0;
    for (double a : x->out.areas) area += a;
    for (auto& gl : r.c.glaciers)
        for (int u = 0; u < x->out.U; ++u) {
            double f = x->out.frac.at(gl)[u][0];
            if (f <= 1e-8) continue;
            double w = f * x->out.areas[u] / area, prev = 0;
            for (auto& i : r.init)
                if (i.unit == u && i.brick == gl) prev = i.value;
            for (int t = 0; t < x->out.T; ++t) {
                double melt = x->out.h(gl + ":melt:output", u)[t] / w, ice = x->out.h(gl + ":ice_content", u)[t];
                if (!r.c.infiniteIce) {
                    near(ice, prev - melt, 1e-8, 1e-5, "ice balance of " + gl);
                    check(melt <= prev + 1e-7, "more ice melts than there is");
                    ranOut |= prev > 1 && ice == 0;
                }
                prev = ice;
                if (r.c.noMelt && x->out.h(gl + "_snowpack:snow_content", u)[t] > 1e-6) {
                    // the snow left at the end of the step lay there all along
                    near(melt, 0, 0, 1e-9, "ice melt under snow of " + gl);
                    blocked = true;
                }
            }
        }
    if (blocked) c.tag("melt blocked by snow");
    if (ranOut) c.tag("ice melted away");
    c.tag(r.c.infiniteIce ? "infinite ice" : "finite ice");
    double iceMelt = 0;
    for (auto& gl : r.c.glaciers)
        for (int u = 0; u < x->out.U; ++u)
            for (double v : x->out.h(gl + ":melt:output", u)) iceMelt += v;
    c.nontrivial = iceMelt > 0;
}
const std::vector<pbt::Sub>& pbt::subs() {
    static const std::vector<Sub> s = {
        {"glacier", glacier, 130000, 2500000, "random glacierized units, with and without snow, finite or infinite ice; non-trivial: ice melts"}};
    return s;
}
