// HBV-96 against an independent implementation of its equations (explicit Euler).
#include "../refprop.h"
using namespace ref;
const char* pbt::propertyId() {
    return "C05";
}
static Opt base() {
    Opt o;
    o.families = {"hbv"};
    o.solvers = {"euler_explicit"};
    o.lateral = o.transform = o.canopy = false;
    o.sublimation4 = 0;
    o.melts = {"melt:degree_day"};
    o.splitters = {"snow_rain:linear"};
    o.maxSteps = 60;
    return o;
}
// Soil, response and routing routines without snow: everything else is idle.
static void soil(Gen& g, Case& c) {
    Opt o = base();
    o.snow4 = 0;
    o.glacier4 = 0;
    auto x = against(g, c, o);
    bool et = x->moved("et:hbv") > 0, re = x->moved("infiltration:hbv") > 0, ro = x->moved("routing:hbv") > 0;
    if (x->moved("overflow") > 0) c.tag("overflow");
    if (x->moved("capillary") > 0) c.tag("capillary rise");
    c.nontrivial = et && re && ro;
}
static void full(Gen& g, Case& c) {
    Opt o = base();
    o.snow4 = 4;
    o.retention4 = 3;
    o.glacier4 = 1;
    auto x = against(g, c, o);
    if (x->moved("refreeze") > 0) c.tag("refreezing");
    if (x->moved("outflow:snow_holding") > 0) c.tag("release of retained water");
    if (x->moved("overflow") > 0) c.tag("overflow");
    if (x->moved("capillary") > 0) c.tag("capillary rise");
    c.nontrivial = x->moved("melt") > 0 && x->moved("routing:hbv") > 0;
}
const std::vector<pbt::Sub>& pbt::subs() {
    static const std::vector<Sub> s = {
        {"soil", soil, 70000, 1500000, "random HBV-96 without snow; non-trivial: evapotranspiration, infiltration and discharge occur"},
        {"full", full, 70000, 1500000, "random HBV-96 with snow routine (and glaciers); non-trivial: melt and discharge occur"}};
    return s;
}
