#include "../gr_common.h"
const char* pbt::propertyId() {
    return "C04";
}
static void vsReference(pbt::Gen& g, pbt::Case& c) {
    gr::prop(g, c, true);
}
const std::vector<pbt::Sub>& pbt::subs() {
    static const std::vector<Sub> s = {
        {"reference", vsReference, 300000, 6000000,
         "random X1-X6, 1-4 units, 4-60 days of random rain/PET; non-trivial: discharge and evapotranspiration occur"}};
    return s;
}
