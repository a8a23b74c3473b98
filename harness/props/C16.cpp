// Lateral snow redistribution against its rule.
#include "../refprop.h"
using namespace ref;
const char* pbt::propertyId() {
    return "C16";
}
static void lateral(Gen& g, Case& c) {
    Opt o;
    o.families = {"net", "socont"};
    o.solvers = {"euler_explicit"};
    o.transform = o.canopy = false;
    o.lateral12 = 12;
    o.snow4 = 4;
    o.glacier4 = 1;
    o.sublimation4 = 0;
    o.direct4 = 0;
    o.coverMix = false;
    o.maxUnits = 5;
    auto x = against(g, c, o, isSnowpack);
    const RM& r = x->r;
    // Snow of the basin: what falls minus what melts.
    const Out& q = x->out;
    double area = 0, prev = 0;
    for (double a : q.areas) area += a;
    auto w = [&](const string& l, int u, int t) { return labelWeight(q, l, u, t) * q.areas[u] / area; };
    for (auto& i : r.init)
        if (i.type == ContentType::Snow) prev += i.value * w(i.brick + ":", i.unit, 0);
    bool simple = !r.c.retention;
    for (int t = 0; simple && t < q.T; ++t) {
        double s = 0, in = 0, out = 0;
        for (int u = 0; u < q.U; ++u)
            for (auto& [cov, f] : q.frac) {
                string sp = cov + "_snowpack";
                double k = w(sp + ":", u, t);
                s += k * q.h(sp + ":snow_content", u)[t];
                out += k * q.h(sp + ":melt:output", u)[t];
                double P = 0;
                for (auto& fo : r.s.forcing)
                    if (fo.var == "precipitation") P = fo.v.size() == 1 ? fo.v[0][t] : fo.v[u][t];
                in += k * P * snowFraction(r, u, t) * r.scf;
            }
        near(s, prev + in - out, 1e-7, 2e-5, format("snow of the basin at step {}", t));
        prev = s;
    }
    c.nontrivial = x->moved("transport:") > 0;
    if (r.s.laterals.empty()) c.tag("no connection");
    c.tag(r.c.redistribution);
}
const std::vector<pbt::Sub>& pbt::subs() {
    static const std::vector<Sub> s = {
        {"lateral", lateral, 130000, 2500000, "random connections, slopes, packs and redistribution rules; non-trivial: snow is moved"}};
    return s;
}
