#include "../gr_common.h"
const char* pbt::propertyId() {
    return "C03";
}
static void vsReference(pbt::Gen& g, pbt::Case& c) {
    gr::prop(g, c, false);
}
const std::vector<pbt::Sub>& pbt::subs() {
    static const std::vector<Sub> s = {
        {"reference", vsReference, 300000, 6000000,
         "random X1-X4, 1-4 units, 4-60 days of random rain/PET; non-trivial: discharge and evapotranspiration occur"}};
    return s;
}
