// Process laws of storages in random networks.
#include "../refprop.h"
using namespace ref;
const char* pbt::propertyId() {
    return "C27";
}
static void laws(Gen& g, Case& c) {
    Opt o;
    o.families = {"net"};
    o.solvers = {"euler_explicit"};
    o.lateral = o.transform = o.canopy = o.glacier = false;
    o.snow4 = 0;
    o.direct4 = 2;
    o.extreme = true;
    o.maxSteps = 30;
    auto x = against(g, c, o);
    int kinds = 0;
    for (const char* p : {"outflow:linear", "outflow:threshold", "outflow:rest", "outflow:direct", "percolation:constant", "runoff:hbv",
                          "overflow", "et:socont", "et:linear", "et:power_law", "et:exponential", "et:hbv", "et:open_water"})
        if (x->moved(p) > 0) {
            c.tag(p);
            ++kinds;
        }
    c.nontrivial = kinds >= 3;
}
const std::vector<pbt::Sub>& pbt::subs() {
    static const std::vector<Sub> s = {
        {"laws", laws, 250000, 5000000, "random networks of direct and solved stores; non-trivial: at least three laws move water"}};
    return s;
}
