// GSM-SOCONT against an independent implementation of its equations (explicit Euler).
#include "../refprop.h"
using namespace ref;
const char* pbt::propertyId() {
    return "C06";
}
static Opt base() {
    Opt o;
    o.families = {"socont"};
    o.solvers = {"euler_explicit"};
    o.lateral = o.transform = o.canopy = false;
    o.sublimation4 = 0;
    o.retention4 = 0;
    o.cemaneigeMelt = false;
    o.maxSteps = 60;
    return o;
}
static void soil(Gen& g, Case& c) {
    Opt o = base();
    o.snow4 = 0;
    o.glacier4 = 0;
    auto x = against(g, c, o);
    if (x->moved("overflow") > 0) c.tag("overflow");
    c.tag(x->r.c.soils == 2 ? "two soil stores" : "one soil store");
    c.tag(x->r.c.quickSocont ? "sloped plane" : "linear quick store");
    c.nontrivial = x->moved("et:socont") > 0 && x->moved("infiltration:socont") > 0 && x->moved("outflow:direct") > 0;
}
static void glacierized(Gen& g, Case& c) {
    Opt o = base();
    o.snow4 = 4;
    o.glacier4 = 3;
    auto x = against(g, c, o);
    if (x->moved("overflow") > 0) c.tag("overflow");
    c.tag(x->r.c.soils == 2 ? "two soil stores" : "one soil store");
    c.tag(x->r.c.quickSocont ? "sloped plane" : "linear quick store");
    c.nontrivial = x->moved("melt") > 0 && x->moved("infiltration:socont") > 0;
}
const std::vector<pbt::Sub>& pbt::subs() {
    static const std::vector<Sub> s = {
        {"soil", soil, 80000, 1500000, "random SOCONT without snow; non-trivial: evapotranspiration, infiltration and surface runoff occur"},
        {"glacierized", glacierized, 80000, 1500000, "random SOCONT with snow and glaciers; non-trivial: melt and infiltration occur"}};
    return s;
}
