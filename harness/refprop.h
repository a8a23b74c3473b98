// Check of a random model against the reference equations: shared by the properties on process laws.
#pragma once
#include "ref.h"

namespace ref {
inline string componentOf(const string& label) {
    return label.substr(0, label.find(':'));
}
inline bool isSnowpack(const string& label) {
    return componentOf(label).ends_with("_snowpack");
}
inline bool isGlacierCover(const string& label) {
    return componentOf(label) == "glacier" || componentOf(label) == "glacier_debris";
}
inline bool isGlacierStore(const string& label) {
    return label.starts_with("glacier_area_");
}
struct Run {
    RM r;
    Out out;
    std::unique_ptr<Model> m;
    double moved(const string& type) const {
        return m->moved(type);
    }
};
// Generate, simulate, compute the reference and compare the labels kept.
inline std::unique_ptr<Run> against(Gen& g, Case& c, const Opt& o, const Keep& keep = nullptr,
                                    const function<void(Model&)>& hook = nullptr) {
    auto x = std::make_unique<Run>();
    x->r = genModel(g, o);
    tags(c, x->r);
    c.desc << showRM(x->r);
    x->m = std::make_unique<Model>(x->r);
    x->m->run(hook);
    x->out = simulate(x->r.s);
    compare(x->r, x->out, *x->m, keep);
    return x;
}
}  // namespace ref
