// Configurations and inputs that cannot be simulated are refused, with the process alive.
#include "../faults.h"
using namespace faults;
const char* pbt::propertyId() {
    return "C24";
}

static Opt options() {
    Opt o;
    o.maxUnits = 3;
    o.minSteps = 3;
    o.maxSteps = 12;
    return o;
}
static void single(Gen& g, Case& c) {
    RM r = genModel(g, options());
    Attempt a(r);
    const Fault* f = nullptr;
    for (int k = 0; k < 6 && !f; ++k) {
        const Fault* x = &allFaults()[g.below(allFaults().size())];
        if (const char* only = getenv("HB_FAULT"))  // exploration of one fault
            for (auto& y : allFaults())
                if (y.name == only) x = &y;
        if (x->apply(g, a)) f = x;
    }
    if (!f) throw Discard{};
    c.tag(f->name);
    c.desc << f->name << "\n" << showRM(r);
    string refusal = a.run();
    if (const char* log = getenv("HB_WHY"))  // exploration of the reasons
        if (FILE* w = fopen(log, "a")) {
            fprintf(w, "%s -> %s\n", f->name.c_str(), refusal.c_str());
            fclose(w);
        }
    check(!refusal.empty(), "not refused: " + f->name);
    c.nontrivial = true;
}
// Refused forcing and actions leave no trace: with the right ones, the same model gives what a new one gives.
static void recover(Gen& g, Case& c) {
    static const vector<const Fault*> some = [] {
        vector<const Fault*> l;
        bool on = false;
        for (auto& f : allFaults()) {
            on |= f.name == "missing variable";
            if (on) l.push_back(&f);
        }
        return l;
    }();
    RM r = genModel(g, options());
    c.desc << showRM(r);
    Plan plan = genPlan(g, r);
    c.desc << plan.show();
    Spec spec = r.s;
    Owned keepA, keepB;
    auto good = [&](Sim& s, Owned& keep) {
        if (!install(plan, spec, *s.model, keep)) throw Discard{};
    };
    Sim fresh(spec);
    fresh.build();
    good(fresh, keepA);
    fresh.attach();
    fresh.run();
    Out want = read(fresh);

    Sim sim(spec);
    sim.build();
    int n = g.in(1, 3), done = 0;
    bool early = g.flip();  // the right actions before or after the refused ones
    if (early) good(sim, keepB);
    // The faulty inputs of all attempts are kept until the end, as their actions may be.
    vector<std::unique_ptr<Attempt>> attempts;
    for (int k = 0; k < n; ++k) {
        attempts.push_back(std::make_unique<Attempt>(r));
        Attempt& a = *attempts.back();
        const Fault* f = some[g.below(some.size())];
        if (!f->apply(g, a)) continue;
        // A fault of the actions that shows only at the run would stay in the model.
        if (f->name.starts_with("change ")) continue;
        c.desc << f->name << "\n";
        c.tag(f->name);
        bool refused = false;
        try {
            if (a.model.empty()) {
                for (auto& x : a.forcing)
                    if (!Attempt::giveTo(*sim.model, x)) {
                        refused = true;
                        break;
                    }
                refused = refused || !sim.model->AttachTimeSeriesToHydroUnits() || !sim.model->ForcingLoaded() || !sim.model->IsValid();
                if (!refused) refused = !sim.model->Run();
            } else {
                for (auto& x : a.model) x(*sim.model);
                refused = a.refused;
            }
        } catch (const Fail&) {
            throw;
        } catch (const std::exception&) {
            refused = true;
        }
        check(refused, "not refused: " + f->name);
        if (a.model.empty() || g.flip()) sim.model->ClearTimeSeries();
        ++done;
    }
    if (!early) good(sim, keepB);
    sim.model->ClearTimeSeries();
    sim.model->Reset();
    sim.attach();
    sim.run();
    Out got = read(sim);
    compareOut(want, got, 0, 0, "after refused inputs");
    c.nontrivial = done > 0;
}
static void valid(Gen& g, Case& c) {
    Opt o;
    RM r = genModel(g, o);
    c.desc << showRM(r);
    tags(c, r);
    string refusal = Attempt(r).run();
    if (refusal.find("is too high") != string::npos) throw Discard{};
    check(refusal.empty(), "a valid configuration is refused: " + refusal);
    c.nontrivial = true;
}

const std::vector<pbt::Sub>& pbt::subs() {
    static const std::vector<Sub> s = {
        {"single", single, 120000, 2400000, "one fault in a valid configuration; non-trivial: all"},
        {"recover", recover, 50000, 1000000, "refused forcing and actions followed by the right ones in the same model; non-trivial: at least one was refused"},
        {"valid", valid, 30000, 600000, "the same configurations without a fault; non-trivial: all"}};
    return s;
}
