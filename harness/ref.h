// Independent reference interpreter of the models generated in gen.h (all families but GR4J/GR6J): process laws,
// two-phase time step (direct bricks, then solver), the seven solvers, constraints and flux weighting.
#pragma once
#include <functional>

#include "gen.h"

namespace ref {
using namespace rm;
using std::function;
using std::unique_ptr;

constexpr double TINY = 1e-8;

struct St;
struct Pr;
struct Bx;
struct Fx {
    double amt = 0;
    double* rate = nullptr;
    double fUnit = 1;
    const double* fCover = nullptr;
    bool known = false;  // amount known before the solver (from splitters and direct bricks)
    bool inst = false;
    Bx* to = nullptr;
    bool outlet = false;
    double frac() const {
        return fUnit * (fCover ? *fCover : 1.0);
    }
    double get() const {
        return inst ? 0 : amt;
    }
    void set(double a);
};
struct Bx {
    St* st = nullptr;
    double s = 0, d = 0, x = 0;
    double cap = -1;
    bool inf = false;
    Bx* gate = nullptr;  // snow that must be gone before anything leaves
    Pr* over = nullptr;
    vector<Fx*> in;
    double now() const {
        return inf ? INFINITY : s + d + x;
    }
    double inflow() const {
        double v = 0;
        for (auto f : in) v += f->get();
        return v;
    }
    bool blocked() const {
        if (!gate) return false;
        double v = gate->now();
        if (v > 2e-9 && v < 1e-5) throw Discard{};  // snow at the numerical zero
        return v > 1.1920929e-7;
    }
    double fill() const {
        return std::clamp(now() / cap, 0.0, 1.0);
    }
    void commit() {
        if (inf) return;
        s += d + x;
        d = x = 0;
        if (std::fabs(s) <= TINY || s < 0) s = 0;
    }
};
inline void Fx::set(double a) {
    amt = a * frac();
    if (inst && to && !to->inf) to->x += amt;
}
struct Pr {
    string name, type;
    Bx* box = nullptr;
    vector<unique_ptr<Fx>> out;
    function<void(vector<double>&)> law;
    function<void()> fin;
    function<double()> linear;  // coefficient of a linear response
    double moved = 0;     // total amount moved, to judge whether a case exercises the process
    bool over = false;
    bool always = false;  // also active on an empty store
    vector<double> r;
    // Near an empty store, the slope of concave evaporation laws is unbounded: rounding is amplified at will.
    void sensitive(const vector<double>& v) const {
        if ((type == "et:power_law" || type == "et:socont") && box->cap > 0 && box->now() < 1e-6 * box->cap)
            for (double x : v)
                if (x > 1e-6) throw Discard{};
    }
    vector<double>& rates(bool probing = false) {
        r.assign(out.size(), 0.0);
        if (!probing && !over && !always && box->now() > 0.5 * TINY && box->now() < 2 * TINY) {
            // A content at the numerical zero decides whether a constant rate applies: rounding is free to choose.
            law(r);
            for (double x : r)
                if (x > 1e-6) throw Discard{};
            r.assign(out.size(), 0.0);
        }
        if (over || out.empty() || (!always && box->now() <= TINY)) return r;
        law(r);
        if (!probing) sensitive(r);
        return r;
    }
};
struct St {
    string name;
    int unit = -1;
    const double* cover = nullptr;  // fraction of the (parent) land cover
    bool solver = true, isSnow = false, isGlacier = false;
    Bx w, sn, ic;
    vector<unique_ptr<Pr>> p;
    bool null() const {
        return cover && *cover <= TINY;
    }
};

struct Model {
    const RM& r;
    int U;
    double totalArea = 0;
    vector<vector<unique_ptr<St>>> unit;  // direct bricks first, then solver bricks
    vector<unique_ptr<St>> basin;
    vector<St*> solved;
    vector<vector<double>> frac;  // [unit][cover]
    vector<string> covers;
    vector<Fx*> outletFx;
    vector<vector<unique_ptr<Fx>>> rainFx, snowFx;  // [unit][cover]
    int t = 0;
    double dt = 1;
    double doy = 1;
    vector<double> R;  // solver rates
    Out out;
    std::map<int, double> inTransit;

    explicit Model(const RM& rr)
        : r(rr), U(static_cast<int>(rr.s.units.size())), dt(rr.s.dtDays()) {}

    double forcing(const string& n, int u) const {
        for (auto& f : r.s.forcing)
            if (f.var == n) return f.v.size() == 1 ? f.v[0][t] : f.v[u][t];
        return 0;
    }
    // --- parameters ---
    // A value set on a component goes to its own parameter of that name, otherwise to its first process having it.
    double par(const string& comp, const string& name, double dflt) const {
        double v = dflt;
        for (auto& p : r.s.params)
            if (p.comp == comp && p.name == name) v = p.value;
        return static_cast<double>(static_cast<float>(v));
    }

    // --- construction ---
    St* find(int u, const string& n) {
        if (u >= 0)
            for (auto& s : unit[u])
                if (s->name == n) return s.get();
        for (auto& s : basin)
            if (s->name == n) return s.get();
        fail("reference: no brick " + n);
    }
    Pr* add(St* s, const string& name, const string& type, char kind = 'w') {
        s->p.push_back(std::make_unique<Pr>());
        Pr* p = s->p.back().get();
        p->name = name;
        p->type = type;
        p->box = kind == 'w' ? &s->w : kind == 's' ? &s->sn : &s->ic;
        return p;
    }
    Fx* flux(Pr* p) {
        p->out.push_back(std::make_unique<Fx>());
        return p->out.back().get();
    }
    Fx* toAtm(Pr* p) {
        return flux(p);
    }
    Fx* link(Pr* p, const string& target, bool inst = false, char kind = 'w') {
        St* s = p->box->st;
        Fx* f = flux(p);
        f->inst = inst;
        if (target == "outlet") {
            f->outlet = true;
            if (s->unit >= 0) f->fUnit = r.s.units[s->unit].area / totalArea;
            if (s->cover) f->fCover = s->cover;
            outletFx.push_back(f);
            return f;
        }
        St* d = find(s->unit, target);
        if (s->unit >= 0 && d->unit < 0) f->fUnit = r.s.units[s->unit].area / totalArea;
        if (s->cover && !d->cover) f->fCover = s->cover;
        f->known = !s->solver;
        f->to = kind == 'w' ? &d->w : kind == 's' ? &d->sn : &d->ic;
        f->to->in.push_back(f);
        return f;
    }
    St* mk(int u, const string& n, bool solver, const double* cover = nullptr) {
        auto s = std::make_unique<St>();
        s->name = n;
        s->unit = u;
        s->solver = solver;
        s->cover = cover;
        s->w.st = s->sn.st = s->ic.st = s.get();
        St* q = s.get();
        (u >= 0 ? unit[u] : basin).push_back(std::move(s));
        return q;
    }

    void meltLaw(Pr* p, const string& type, const string& comp, int u) {
        Bx* b = p->box;
        double tm = par(comp, "melting_temperature", 0);
        auto T = [this, u] { return forcing("temperature", u); };
        auto open = [b] { return !b->blocked() && b->now() > 0; };
        if (type == "melt:degree_day" || type == "melt:degree_day_aspect") {
            double a;
            if (type == "melt:degree_day")
                a = par(comp, "degree_day_factor", 3);
            else {
                const string& as = r.s.units[u].aspect;
                a = par(comp, as == "N" ? "degree_day_factor_n" : as == "S" ? "degree_day_factor_s" : "degree_day_factor_ew", 3);
            }
            p->law = [=](vector<double>& v) {
                if (open() && T() > tm) v[0] = (T() - tm) * a;
            };
        } else if (type == "melt:temperature_index") {
            double a = par(comp, "melt_factor", 3), c = par(comp, "radiation_coefficient", 0.0007f);
            p->law = [=, this](vector<double>& v) {
                if (open() && T() > tm) v[0] = (T() - tm) * (a + c * forcing("solar_radiation", u));
            };
        } else {  // CemaNeige
            double a = par(comp, "degree_day_factor", 3), ctg = par(comp, "cold_content_factor", 0),
                   mean = par(comp, "mean_annual_snow", 100);
            auto cold = std::make_shared<double>(0.0);
            p->law = [=](vector<double>& v) {
                if (!open()) return;
                *cold = std::min(0.0, ctg * *cold + (1 - ctg) * (T() - tm));
                if (*cold < 0 || T() <= tm) return;
                double ratio = std::min(1.0, b->now() / (0.9 * mean));
                v[0] = (0.9 * ratio + 0.1) * a * (T() - tm);
            };
        }
    }
    void etLaw(Pr* p, const string& type, const string& comp, int u) {
        Bx* b = p->box;
        auto E = [this, u] { return forcing("pet", u); };
        if (type == "et:socont")
            p->law = [=](vector<double>& v) { v[0] = E() * std::sqrt(b->fill()); };
        else if (type == "et:linear")
            p->law = [=](vector<double>& v) { v[0] = E() * b->fill(); };
        else if (type == "et:power_law") {
            double e = par(comp, "exponent", 0.5);
            p->law = [=](vector<double>& v) { v[0] = E() * std::pow(b->fill(), e); };
        } else if (type == "et:exponential") {
            double a = par(comp, "alpha", 2);
            p->law = [=](vector<double>& v) { v[0] = E() * (1 - std::exp(-a * b->fill())); };
        } else if (type == "et:hbv") {
            double lp = par(comp, "lp", 0.9f), c = par(comp, "et_correction_factor", 1);
            p->law = [=](vector<double>& v) { v[0] = c * E() * std::min(1.0, b->now() / (lp * b->cap)); };
        } else if (type == "et:open_water") {
            p->law = [=, this](vector<double>& v) { v[0] = std::min(E(), std::max(0.0, b->now() / dt)); };
        } else
            fail("reference: " + type);
    }

    void make() {
        const Cfg& c = r.c;
        if (c.family == "gr") fail("reference: GR not handled here");
        for (auto& u : r.s.units) totalArea += u.area;
        covers = c.soilCovers;
        for (auto& g : c.glaciers) covers.push_back(g);
        unit.resize(U);
        frac.resize(U);
        rainFx.resize(U);
        snowFx.resize(U);
        for (int u = 0; u < U; ++u)
            for (auto& cv : r.s.units[u].covers) frac[u].push_back(cv.frac);
        if (!c.glaciers.empty()) {
            for (const char* n : {"glacier_area_rain_snowmelt_storage", "glacier_area_icemelt_storage"}) mk(-1, n, true);
        }
        for (auto& st : c.net)
            if (st.basin) mk(-1, st.name, true);
        // bricks: surface components, land covers, storages
        for (int u = 0; u < U; ++u) {
            for (size_t i = 0; i < c.canopy.size(); ++i)
                if (c.canopy[i]) mk(u, c.soilCovers[i] + "_canopy", false, &frac[u][i]);
            if (c.snow)
                for (size_t i = 0; i < covers.size(); ++i) mk(u, covers[i] + "_snowpack", false, &frac[u][i])->isSnow = true;
            for (size_t i = 0; i < covers.size(); ++i)
                mk(u, covers[i], false, &frac[u][i])->isGlacier = i >= c.soilCovers.size();
            if (c.family == "socont") {
                mk(u, "slow_reservoir", true);
                if (c.soils == 2) mk(u, "slow_reservoir_2", true);
                mk(u, "surface_runoff", true);
            } else if (c.family == "hbv") {
                mk(u, "upper_zone", true);
                mk(u, "lower_zone", true);
                for (size_t i = 0; i < (c.sharedSoil ? 1 : c.soilCovers.size()); ++i) mk(u, soilName(i), true);
                mk(u, "routing", true);
            } else {
                for (auto& st : c.net)
                    if (!st.basin) mk(u, st.name, !st.direct);
            }
        }
        for (int u = 0; u < U; ++u) wire(u);
        for (const char* n : {"glacier_area_rain_snowmelt_storage", "glacier_area_icemelt_storage"})
            if (!c.glaciers.empty()) linearOut(find(-1, n), "outflow", "outlet");
        for (auto& st : c.net)
            if (st.basin) wireNet(st, -1);
        for (int u = 0; u < U; ++u)
            for (auto& s : unit[u])
                if (s->solver) solved.push_back(s.get());
        for (auto& s : basin) solved.push_back(s.get());
        size_t n = 0;
        for (auto s : solved)
            for (auto& p : s->p) n += p->out.size();
        R.assign(n, 0);
        for (auto& i : r.init) {
            St* s = find(i.unit, i.brick);
            (i.type == ContentType::Ice ? s->ic : i.type == ContentType::Snow ? s->sn : s->w).s = i.value;
        }
    }
    string soilName(size_t i) const {
        return r.c.sharedSoil ? string("soil_moisture") : r.c.soilCovers[i] + "_soil_moisture";
    }
    Pr* linearOut(St* s, const string& name, const string& target) {
        Pr* p = add(s, name, "outflow:linear");
        double k = par(s->name, "response_factor", 0.2f);
        Bx* b = p->box;
        p->law = [=](vector<double>& v) { v[0] = k * b->now(); };
        p->linear = [=] { return k; };
        link(p, target);
        return p;
    }
    Pr* constantOut(St* s, const string& name, const string& target) {
        Pr* p = add(s, name, "percolation:constant");
        double k = par(s->name, "percolation_rate", 0.1f);
        p->law = [=](vector<double>& v) { v[0] = k; };
        link(p, target);
        return p;
    }
    Pr* overflow(St* s, const string& name, const string& target) {
        Pr* p = add(s, name, "overflow");
        p->over = true;
        s->w.over = p;
        link(p, target);
        return p;
    }
    Pr* directOut(St* s, const string& name, const string& target, bool inst = false) {
        Pr* p = add(s, name, "outflow:direct");
        Bx* b = p->box;
        p->law = [=](vector<double>& v) { v[0] = std::max(0.0, b->now()); };
        link(p, target, inst);
        return p;
    }
    Pr* et(St* s, const string& name, const string& type) {
        Pr* p = add(s, name, type);
        etLaw(p, type, s->name, s->unit);
        toAtm(p);
        return p;
    }

    void wireNet(const NetStore& st, int u) {
        St* s = find(u, st.name);
        // Directly computed stores with a capacity apply the same constraints as the others.
        if (st.capacity >= 0) s->w.cap = f32(par(st.name, "capacity", st.capacity));
        bool rfTaken = false;
        for (auto& q : st.procs) {
            if (q.type.starts_with("et:"))
                et(s, q.name, q.type);
            else if (q.type == "outflow:direct" || (q.type == "outflow:rest" && !s->solver))
                directOut(s, q.name, q.target);
            else if (q.type == "outflow:rest") {
                Pr* p = add(s, q.name, q.type);
                Bx* b = p->box;
                p->law = [=](vector<double>& v) {
                    double rest = b->now();
                    for (auto& other : s->p)
                        if (other.get() != p)
                            for (auto& f : other->out)
                                if (f->rate) rest -= *f->rate;
                    v[0] = std::max(0.0, rest);
                };
                link(p, q.target);
            } else if (q.type == "outflow:linear") {
                linearOut(s, q.name, q.target);
                rfTaken = true;
            } else if (q.type == "percolation:constant")
                constantOut(s, q.name, q.target);
            else if (q.type == "outflow:threshold") {
                Pr* p = add(s, q.name, q.type);
                // 'capacity' set on the brick goes to the brick when it has one
                double th = st.capacity >= 0 ? 2.0 : par(st.name, "capacity", 2);
                Bx* b = p->box;
                p->law = [=, this](vector<double>& v) { v[0] = std::max(0.0, b->now() - th) / dt; };
                link(p, q.target);
            } else if (q.type == "runoff:hbv") {
                Pr* p = add(s, q.name, q.type);
                double k = rfTaken ? f32(0.05) : par(st.name, "response_factor", 0.05f);
                double a = par(st.name, "alpha", 1);
                bool expo = false;
                for (auto& e : st.procs) expo |= e.type == "et:exponential";
                if (expo) a = 1;
                Bx* b = p->box;
                p->law = [=](vector<double>& v) { v[0] = b->now() > 0 ? k * std::pow(b->now(), 1 + a) : 0; };
                link(p, q.target);
            } else if (q.type == "overflow")
                overflow(s, q.name, q.target);
            else
                fail("reference: " + q.type);
        }
    }

    void wire(int u) {
        const Cfg& c = r.c;
        const Unit& un = r.s.units[u];
        // rain and snow
        for (size_t i = 0; i < covers.size(); ++i) {
            rainFx[u].push_back(std::make_unique<Fx>());
            string target = covers[i];
            bool can = i < c.canopy.size() && c.canopy[i];
            if (can)
                target += "_canopy";
            else if (c.snow && c.retention && c.rainToSnow)
                target += "_snowpack";
            find(u, target)->w.in.push_back(rainFx[u][i].get());
            snowFx[u].push_back(std::make_unique<Fx>());
            if (c.snow) find(u, covers[i] + "_snowpack")->sn.in.push_back(snowFx[u][i].get());
            if (can) {
                St* s = find(u, covers[i] + "_canopy");
                Pr* p = add(s, "throughfall", "outflow:threshold");
                double th = par(s->name, "capacity", 2);
                Bx* b = p->box;
                p->law = [=, this](vector<double>& v) { v[0] = std::max(0.0, b->now() - th) / dt; };
                link(p, c.snow && c.retention && c.rainToSnow ? covers[i] + "_snowpack" : covers[i]);
                et(s, "interception_et", "et:open_water");
            }
        }
        if (c.snow)
            for (size_t i = 0; i < covers.size(); ++i) {
                string sp = covers[i] + "_snowpack";
                St* s = find(u, sp);
                Pr* p = add(s, "melt", c.melt, 's');
                meltLaw(p, c.melt, sp, u);
                Bx *w = &s->w, *sn = &s->sn;
                if (c.retention) {
                    Fx* f = flux(p);
                    f->inst = true;
                    f->to = w;
                    Pr* o = add(s, "meltwater", "outflow:snow_holding");
                    double h = par(sp, "water_holding_capacity", 0.1f);
                    o->law = [=, this](vector<double>& v) { v[0] = std::max(0.0, w->now() - h * sn->now()) / dt; };
                    link(o, covers[i]);
                } else
                    link(p, covers[i]);
                if (c.retention && c.refreeze) {
                    Pr* q = add(s, "refreeze", "refreeze:degree_day");
                    double rf = par(sp, "refreezing_factor", 0.05f), a = par(sp, "degree_day_factor", 3),
                           tm = par(sp, "melting_temperature", 0);
                    q->law = [=, this](vector<double>& v) {
                        v[0] = std::max(0.0, rf * a * (tm - forcing("temperature", u)));
                    };
                    Fx* f = flux(q);
                    f->inst = true;
                    f->to = sn;
                }
                bool gl = i >= c.soilCovers.size();
                if (gl && !c.transform.empty()) {
                    Pr* q = add(s, "snow_ice_transfo", c.transform, 's');
                    if (c.transform == "transform:snow_ice_constant") {
                        double k = par(sp, "snow_ice_transformation_rate", 0.5);
                        q->law = [=](vector<double>& v) { v[0] = k; };
                    } else {
                        double k = par(sp, "snow_ice_transformation_basal_acc_coeff", 0.0014f);
                        double day0 = par(sp, "north_hemisphere", 1) == 0 ? 264 : 81;
                        q->law = [=, this](vector<double>& v) {
                            v[0] = k * (1 + std::sin(2 * M_PI * (doy - day0) / 365)) * sn->now();
                        };
                    }
                    link(q, covers[i], false, 'i');
                }
                if (!c.redistribution.empty() && !(gl && c.skipGlaciers)) lateral(s, sp, u, i);
                if (!c.sublimation.empty()) {
                    Pr* q = add(s, "sublimation", c.sublimation, 's');
                    if (c.sublimation == "sublimation:constant") {
                        double k = par(sp, "sublimation_rate", 0.1f);
                        q->law = [=](vector<double>& v) { v[0] = k; };
                    } else {
                        double k = par(sp, "sublimation_pet_factor", 0.2f);
                        q->law = [=, this](vector<double>& v) { v[0] = k * forcing("pet", u); };
                    }
                    toAtm(q);
                }
            }
        for (size_t i = c.soilCovers.size(); i < covers.size(); ++i) {
            St* s = find(u, covers[i]);
            directOut(s, "outflow_rain_snowmelt", "glacier_area_rain_snowmelt_storage");
            Pr* p = add(s, "melt", c.iceMelt, 'i');
            s->ic.inf = c.infiniteIce;
            if (c.noMelt) s->ic.gate = &find(u, covers[i] + "_snowpack")->sn;
            meltLaw(p, c.iceMelt, covers[i], u);
            link(p, "glacier_area_icemelt_storage", true);
        }
        if (c.family == "socont") {
            for (auto& n : c.soilCovers) {
                St* s = find(u, n);
                Bx *b = &s->w, *soil = &find(u, "slow_reservoir")->w;
                Pr* p = add(s, "infiltration", "infiltration:socont");
                p->law = [=](vector<double>& v) { v[0] = b->now() * (1 - soil->fill() * soil->fill()); };
                link(p, "slow_reservoir");
                directOut(s, "runoff", "surface_runoff");
            }
            St* s = find(u, "slow_reservoir");
            s->w.cap = par("slow_reservoir", "capacity", 200);
            et(s, "et", "et:socont");
            linearOut(s, "outflow", "outlet");
            if (c.soils == 2) constantOut(s, "percolation", "slow_reservoir_2");
            overflow(s, "overflow", "outlet");
            if (c.soils == 2) linearOut(find(u, "slow_reservoir_2"), "outflow", "outlet");
            s = find(u, "surface_runoff");
            if (c.quickSocont) {
                Pr* p = add(s, "runoff", "runoff:socont");
                double beta = par("surface_runoff", "beta", 500), J = un.slope, A = un.area;
                Bx* b = &s->w;
                p->law = [=](vector<double>& v) {
                    double h = 2 * b->now() / 1000;
                    v[0] = std::min(b->now(), beta * std::sqrt(J) * std::pow(h, 5.0 / 3) / A * 86400 * 1000);
                };
                link(p, "outlet");
            } else
                linearOut(s, "outflow", "outlet");
        } else if (c.family == "hbv") {
            for (size_t i = 0; i < c.soilCovers.size(); ++i) {
                St* s = find(u, c.soilCovers[i]);
                Bx *b = &s->w, *soil = &find(u, soilName(i))->w;
                Pr* p = add(s, "infiltration", "infiltration:hbv");
                double beta = par(c.soilCovers[i], "beta", 2);
                p->law = [=](vector<double>& v) {
                    double f = soil->fill();
                    // unbounded slope near an empty soil: rounding is amplified at will
                    if (beta < 1 && f > 0 && f < 1e-5 && b->now() > 0.01) throw Discard{};
                    v[0] = b->now() * (1 - std::pow(f, beta));
                };
                link(p, soilName(i));
                directOut(s, "recharge", "upper_zone");
            }
            St* uz = find(u, "upper_zone");
            Pr* cap = add(uz, "capillary", "capillary:hbv");
            double cf = par("upper_zone", "max_capillary_flux", 0);
            vector<pair<Bx*, vector<const double*>>> tg;
            for (size_t i = 0; i < (c.sharedSoil ? 1 : c.soilCovers.size()); ++i) {
                vector<const double*> w;
                for (size_t k = 0; k < c.soilCovers.size(); ++k)
                    if (c.sharedSoil || k == i) w.push_back(&frac[u][k]);
                tg.push_back({&find(u, soilName(i))->w, w});
                link(cap, soilName(i));
            }
            cap->law = [=](vector<double>& v) {
                for (size_t i = 0; i < tg.size(); ++i) {
                    double w = 0;
                    for (auto f : tg[i].second) w += *f;
                    v[i] = cf * w * (1 - tg[i].first->fill());
                }
            };
            constantOut(uz, "percolation", "lower_zone");
            Pr* q = add(uz, "runoff", "runoff:hbv");
            double k = par("upper_zone", "response_factor", 0.05f), a = par("upper_zone", "alpha", 1);
            Bx* b = &uz->w;
            q->law = [=](vector<double>& v) { v[0] = k * std::pow(b->now(), 1 + a); };
            link(q, "routing");
            linearOut(find(u, "lower_zone"), "outflow", "routing");
            for (size_t i = 0; i < (c.sharedSoil ? 1 : c.soilCovers.size()); ++i) {
                St* s = find(u, soilName(i));
                s->w.cap = par(soilName(i), "capacity", 250);
                et(s, "et", "et:hbv");
                overflow(s, "overflow", "routing");
            }
            routing(find(u, "routing"));
        } else {
            for (size_t i = 0; i < c.soilCovers.size(); ++i) wireNet({c.soilCovers[i], -1, c.coverProcs[i]}, u);
            for (auto& st : c.net)
                if (!st.basin) wireNet(st, u);
        }
    }

    void routing(St* s) {
        Pr* p = add(s, "routing", "routing:hbv");
        p->always = true;
        double mb = std::max(1.0, par("routing", "maxbas", 1));
        auto cum = [mb](double x) {
            x = std::clamp(x / mb, 0.0, 1.0);
            return x <= 0.5 ? 2 * x * x : 1 - 2 * (1 - x) * (1 - x);
        };
        auto ord = std::make_shared<vector<double>>();
        for (int j = 1; j <= static_cast<int>(std::ceil(mb)); ++j) ord->push_back(cum(j) - cum(j - 1));
        auto q = std::make_shared<vector<double>>(ord->size() + 1, 0.0);
        auto prev = std::make_shared<double>(0.0);
        Bx* b = &s->w;
        Fx* f = link(p, "outlet");
        p->law = [=](vector<double>& v) { v[0] = std::max(0.0, (*q)[0]) + (*ord)[0] * b->inflow(); };
        p->fin = [=, this] {
            double fr = f->frac(), delivered = fr > 0 ? f->amt / fr : 0, in = b->s - *prev + delivered;
            *prev = b->s;
            double carry = (*q)[0] + (*ord)[0] * in - delivered;
            for (size_t j = 0; j + 1 < q->size(); ++j) (*q)[j] = (*q)[j + 1] + (j + 1 < ord->size() ? (*ord)[j + 1] * in : 0);
            (*q)[0] += carry;
            inTransit[s->unit] = 0;
            for (double x : *q) inTransit[s->unit] += x;
        };
    }

    void lateral(St* s, const string& sp, int u, size_t cover) {
        const Cfg& c = r.c;
        Pr* p = add(s, "snow_redistribution", c.redistribution, 's');
        struct Tg {
            St* st;
            double w;
            const double* f;
            double area;
        };
        vector<Tg> tg;
        for (auto& l : r.s.laterals) {
            if (l.from != r.s.units[u].id) continue;
            int v = 0;
            while (r.s.units[v].id != l.to) ++v;
            for (auto& b : unit[v])
                if (b->isSnow) {
                    Fx* f = flux(p);
                    f->inst = true;
                    f->to = &b->sn;
                    tg.push_back({b.get(), l.frac, b->cover, r.s.units[v].area});
                }
        }
        double deg = static_cast<float>(std::atan(r.s.units[u].slope) * 180 / M_PI);
        const double* myFrac = &frac[u][cover];
        double myArea = r.s.units[u].area;
        Bx* b = &s->sn;
        bool slide = c.redistribution == "transport:snow_slide";
        bool dyn = c.redistribution == "transport:snow_redistribution_frey_dynamic";
        double maxDepth = par(sp, "max_snow_depth", 20000);
        auto density = std::make_shared<double>(250.0);
        auto prev = std::make_shared<double>(0.0);
        function<double()> move;
        if (slide) {
            double coeff = par(sp, "coeff", 3178.4f), ex = par(sp, "exp", -1.998f), ms = par(sp, "min_slope", 10),
                   md = par(sp, "min_snow_holding_depth", 50), xs = par(sp, "max_slope", 75);
            double th = coeff * std::pow(std::max(deg, ms), ex) * 1000;
            if (deg > xs) th = md;
            th = std::min(std::max(th, md), maxDepth);
            move = [=] { return std::min(1000.0, std::max(0.0, b->now() - th / 4.0)); };
        } else {
            double cr = par(sp, "correction", 1), hold = par(sp, "snow_holding_capacity", 200), rm = par(sp, "rho_max", 450);
            if (!dyn) *density = par(sp, "snow_density", 250);
            move = [=] {
                double rho = *density, ex = b->now() - hold * rho / 1000;
                if (ex <= 0 || rho >= rm) return 0.0;
                return std::min(1000.0, ex * (rm - rho) / rm * std::exp(-rho / rm) * std::clamp(deg, 0.0, 90.0) / 90 * cr);
            };
        }
        Pr* pp = p;
        p->law = [=](vector<double>& v) {
            double m = move();
            if (m <= 0) return;
            for (size_t i = 0; i < tg.size(); ++i) {
                if (*tg[i].f <= TINY) continue;
                v[i] = m * tg[i].w * *tg[i].f;
                if (tg[i].st->sn.s > 1.5 * maxDepth * *density / 1000) v[i] = 0;
                pp->out[i]->fUnit = myArea * *myFrac / (tg[i].area * *tg[i].f);
            }
        };
        if (dyn) {
            double rm = par(sp, "rho_max", 450), r0 = par(sp, "rho_min", 100), r1 = par(sp, "rho_fresh_max", 300),
                   rs = par(sp, "rho_settling", 0.1), ds = par(sp, "rho_scale", 1.2), sh = par(sp, "t_scale", 1);
            p->fin = [=, this] {
                double swe = b->s;
                double settled = *density + (rm - *density) * std::clamp(rs * dt, 0.0, 1.0);
                double ts = forcing("temperature", u) / ds + sh;
                double fresh = (r1 - r0) * (ts / std::sqrt(1 + ts * ts) + 1) * 0.5 + r0;
                double add = std::max(0.0, swe - *prev), old = std::min(*prev, swe);
                *density = swe <= 0 ? fresh : add > 0 ? (old * settled + add * fresh) / (old + add) : settled;
                *prev = swe;
            };
        }
    }

    // --- constraints ---
    void constrain(Bx* b, bool inputsIn) {
        St* s = b->st;
        if (b == &s->ic && b->blocked())
            for (auto& p : s->p)
                if (p->box == b)
                    for (auto& f : p->out)
                        if (f->rate) *f->rate = 0;
        if (b->inf) return;
        vector<double*> o;
        vector<double*> ir;
        double so = 0, si = 0, known = 0;
        if (b->over && b->over->out[0]->rate) *b->over->out[0]->rate = 0;  // determined anew below
        for (auto& p : s->p)
            if (p->box == b)
                for (auto& f : p->out)
                    if (f->rate) {
                        *f->rate = std::max(0.0, *f->rate);
                        if (*f->rate > 10000) throw Discard{};
                        o.push_back(f->rate);
                        so += *f->rate;
                    }
        if (!inputsIn)
            for (auto f : b->in) {
                if (f->inst) continue;
                if (f->known) {
                    known += f->amt;
                    continue;
                }
                if (!f->rate) continue;
                *f->rate = std::max(0.0, *f->rate);
                ir.push_back(f->rate);
                si += *f->rate * f->frac();
            }
        double have = b->now() + known;
        double change = si - so;
        if (change < 0 && have + change * dt < 0) {
            double diff = have / dt + change;
            for (auto q : o) *q = std::max(0.0, *q + diff * *q / so);
        }
        if (b->cap >= 0 && have + change * dt > b->cap) {
            double diff = (have + change * dt - b->cap) / dt;
            if (b->over) {
                *b->over->out[0]->rate = diff;
                return;
            }
            if (have > b->cap) throw Discard{};
            for (auto q : ir) *q -= diff * *q / si;
        }
    }
    void apply(Pr* p, size_t i, double rate) {
        if (rate > TINY) {
            p->out[i]->set(rate * dt);
            p->moved += rate * dt;
            if (!p->box->inf) p->box->d -= rate * dt;
        } else
            p->out[i]->set(0);
    }
    void takeInputs(St* s) {
        s->w.d += s->w.inflow();
        s->sn.x += s->sn.inflow();
        if (!s->ic.inf) s->ic.d += s->ic.inflow();
    }
    void commit(St* s) {
        s->w.commit();
        s->sn.commit();
        s->ic.commit();
        for (auto& p : s->p)
            if (p->fin) p->fin();
    }

    // --- solver phase ---
    void evaluate(vector<double>& k, bool constrained) {
        size_t i = 0;
        for (auto s : solved)
            for (auto& p : s->p) {
                auto& v = p->rates();
                for (size_t j = 0; j < v.size(); ++j, ++i) {
                    k[i] = v[j];
                    if (constrained) p->out[j]->rate = &k[i];
                }
            }
        if (constrained) enforce(k);
    }
    void enforce(vector<double>& k) {
        for (int sweep = 0; sweep < 10; ++sweep) {
            vector<double> before = k;
            for (auto s : solved) constrain(&s->w, false);
            bool same = true;
            for (size_t i = 0; i < k.size(); ++i) same &= std::fabs(k[i] - before[i]) <= TINY;
            if (same) return;
        }
        // Conflicting constraints that take more sweeps than the model makes: no unique result.
        throw Discard{};
    }
    void linkConstrain(vector<double>& k) {
        size_t i = 0;
        for (auto s : solved)
            for (auto& p : s->p)
                for (auto& f : p->out) {
                    if (p->over) k[i] = 0;
                    f->rate = &k[i++];
                }
        enforce(k);
    }
    void applyAll(vector<double>& k) {
        size_t i = 0;
        for (auto s : solved) {
            takeInputs(s);
            for (auto& p : s->p)
                for (size_t j = 0; j < p->out.size(); ++j) apply(p.get(), j, k[i++]);
        }
    }
    void scaleState(double f) {
        for (auto s : solved) s->w.d *= f;
    }
    void explicitSolve(const string& solver) {
        size_t n = R.size();
        static thread_local vector<double> k1, k2, k3, k4;
        k1.assign(n, 0);
        k2 = k3 = k4 = k1;
        evaluate(k1, true);
        if (solver == "euler_explicit") {
            applyAll(k1);
        } else if (solver == "heun_explicit") {
            applyAll(k1);
            evaluate(k2, false);
            scaleState(0);
            for (size_t i = 0; i < n; ++i) k3[i] = (k1[i] + k2[i]) / 2;
            linkConstrain(k3);
            applyAll(k3);
        } else {
            applyAll(k1);
            scaleState(0.5);
            evaluate(k2, false);
            scaleState(0);
            linkConstrain(k2);
            applyAll(k2);
            scaleState(0.5);
            evaluate(k3, false);
            scaleState(0);
            linkConstrain(k3);
            applyAll(k3);
            evaluate(k4, false);
            scaleState(0);
            for (size_t i = 0; i < n; ++i) k1[i] = (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]) / 6;
            linkConstrain(k1);
            applyAll(k1);
        }
    }
    double totalAt(St* s, double offset, vector<double>* v = nullptr, bool probing = false) {
        s->w.d = offset;
        double sum = 0;
        if (v) v->clear();
        for (auto& p : s->p)
            for (double x : p->rates(probing || !v)) {
                sum += x;
                if (v) v->push_back(x);
            }
        return sum;
    }
    void sequentialSolve(const string& solver) {
        size_t i0 = 0;
        for (auto s : solved) {
            size_t i = i0;
            for (auto& p : s->p)
                for (auto& f : p->out) {
                    R[i] = 0;
                    f->rate = &R[i++];
                }
            double S0 = s->w.now(), I = s->w.inflow() / dt, h = dt;
            vector<double> a, b;
            if (solver == "analytic_linear") {
                double k = 0, q = 0;
                for (auto& p : s->p) {
                    if (p->linear)
                        k += p->linear();
                    else
                        for (double x : p->rates()) q += x;
                }
                double lin = 0;
                if (k > 0) {
                    double e = std::exp(-k * h), S1 = S0 * e + (I - q) / k * (1 - e);
                    lin = std::max(0.0, (I - q) - (S1 - S0) / h);
                }
                for (auto& p : s->p) {
                    if (p->linear)
                        a.push_back(k > 0 ? lin * p->linear() / k : 0);
                    else
                        for (double x : p->rates()) a.push_back(x);
                }
            } else if (solver == "exponential_euler") {
                double eps = std::max(0.001, 0.001 * std::max(S0, S0 + h * I));
                double at = S0 > 1e-8 ? 0 : eps;
                double q0 = totalAt(s, at, &a);
                double k = (totalAt(s, at + eps) - q0) / eps;
                if (at > 0) q0 = std::max(0.0, q0 - k * at);
                if (k > 1e-10) {
                    double S1 = std::max(0.0, S0 + (I - q0) / k * (1 - std::exp(-k * h)));
                    double tot = std::max(0.0, I - (S1 - S0) / h);
                    totalAt(s, S1 - S0, &b);
                    double w = 0;
                    for (size_t j = 0; j < a.size(); ++j) w += a[j] + b[j];
                    for (size_t j = 0; j < a.size(); ++j) a[j] = w > 0 ? std::min(tot * (a[j] + b[j]) / w, std::max(a[j], b[j])) : 0;
                }
                s->w.d = 0;
            } else {
                bool cn = solver == "crank_nicolson";
                double q0 = cn ? totalAt(s, 0, &a) : 0;
                auto g = [&](double S) {
                    double q = totalAt(s, S - S0);
                    return S - S0 - h * (I - (cn ? (q0 + q) / 2 : q));
                };
                double lo = 0, hi = S0 + h * std::max(0.0, I);
                double q = totalAt(s, hi - S0);
                lo = std::max(0.0, S0 + h * (I - (cn ? (q0 + q) / 2 : q)));
                double S1 = lo;
                if (hi > lo) {
                    for (int it = 0; it < 200 && hi - lo > 1e-13 * std::max(1.0, hi); ++it) {
                        double m = (lo + hi) / 2;
                        (g(m) > 0 ? hi : lo) = m;
                    }
                    S1 = hi;
                }
                totalAt(s, S1 - S0, &b, true);
                for (auto& p : s->p)
                    if (!p->r.empty()) p->sensitive(p->r);
                if (cn)
                    for (size_t j = 0; j < a.size(); ++j) a[j] = (a[j] + b[j]) / 2;
                else
                    a = b;
                s->w.d = 0;
            }
            for (size_t j = 0; j < a.size(); ++j) R[i0 + j] = a[j];
            constrain(&s->w, false);
            takeInputs(s);
            size_t k = i0;
            for (auto& p : s->p)
                for (size_t j = 0; j < p->out.size(); ++j) apply(p.get(), j, R[k++]);
            i0 = i;
        }
    }

    void step() {
        for (int u = 0; u < U; ++u) {
            double P = forcing("precipitation", u), sf = snowFraction(r, u, t);
            for (size_t i = 0; i < covers.size(); ++i) {
                rainFx[u][i]->set(P * (1 - sf) * r.rcf);
                snowFx[u][i]->set(P * sf * r.scf);
            }
            for (auto& s : unit[u]) {
                if (s->solver) continue;
                if (s->null()) {
                    // Nothing leaves a cover of no extent.
                    for (auto& p : s->p)
                        for (auto& f : p->out) f->amt = 0;
                    continue;
                }
                takeInputs(s.get());
                vector<vector<double>> v;
                for (auto& p : s->p) v.push_back(vector<double>(p->out.size(), 0));
                for (size_t i = 0; i < v.size(); ++i)
                    for (size_t j = 0; j < v[i].size(); ++j) s->p[i]->out[j]->rate = &v[i][j];
                for (size_t i = 0; i < v.size(); ++i) {
                    auto& x = s->p[i]->rates();
                    for (size_t j = 0; j < x.size(); ++j) v[i][j] = x[j];
                    constrain(s->p[i]->box, true);
                    for (size_t j = 0; j < x.size(); ++j) {
                        apply(s->p[i].get(), j, v[i][j]);
                        v[i][j] = 0;
                    }
                }
                commit(s.get());
                for (auto& p : s->p)
                    for (auto& f : p->out) f->rate = nullptr;
            }
        }
        for (auto& v : unit)
            for (auto& s : v)
                if (s->isSnow && !s->null()) s->sn.commit();
        const string& sv = r.s.solver;
        if (sv == "euler_explicit" || sv == "heun_explicit" || sv == "rk4")
            explicitSolve(sv);
        else
            sequentialSolve(sv);
        for (auto s : solved) commit(s);
        record();
        ++t;
    }
    // Amount moved by the processes whose type starts with the given text.
    double moved(const string& type) const {
        double v = 0;
        auto add = [&](const unique_ptr<St>& s) {
            for (auto& p : s->p)
                if (p->type.starts_with(type)) v += p->moved;
        };
        for (auto& x : unit)
            for (auto& s : x) add(s);
        for (auto& s : basin) add(s);
        return v;
    }
    void record() {
        auto put = [&](St* s, const string& l, double v) {
            if (s->unit < 0)
                out.sub[l].push_back(v);
            else {
                auto& q = out.hu[l];
                q.resize(U);
                q[s->unit].push_back(v);
            }
        };
        auto rec = [&](St* s) {
            put(s, s->name + ":water_content", s->w.s);
            if (s->isSnow) put(s, s->name + ":snow_content", s->sn.s);
            if (s->isGlacier) put(s, s->name + ":ice_content", s->ic.inf ? 0 : s->ic.s);
            for (auto& p : s->p)
                if (!p->type.starts_with("transport:")) put(s, s->name + ":" + p->name + ":output", p->out[0]->amt);
        };
        for (auto& v : unit)
            for (auto& s : v) rec(s.get());
        for (auto& s : basin) rec(s.get());
        for (auto& [u, v] : inTransit) put(find(u, "routing"), "routing:routing:internal_storage", v);
        double q = 0;
        for (auto f : outletFx) q += f->amt;
        out.sub["outlet"].push_back(q);
    }
    void run(const function<void(Model&)>& hook = nullptr) {
        make();
        double start = mjdOf(r.s.y, r.s.m, r.s.d);
        for (int i = 0; i < r.s.steps; ++i) {
            double d = start + i * dt;
            long day = static_cast<long>(std::floor(d + 1e-9));
            int y, m, dd;
            civilFrom(day - 40587, y, m, dd);
            doy = static_cast<double>(day - 40587 - civilDays(y, 1, 1) + 1);
            if (hook) hook(*this);
            step();
        }
        out.T = r.s.steps;
        out.U = U;
    }
};

// Largest factor by which snow moved between units is concentrated (area ratio of the snowpacks).
inline double concentration(const RM& r) {
    double worst = 1;
    if (r.c.redistribution.empty()) return worst;
    auto total = [&](int id) {
        for (auto& u : r.s.units)
            if (u.id == id) return &u;
        return &r.s.units[0];
    };
    std::map<int, double> f;
    for (auto& u : r.s.units) f[u.id] = 1;
    for (auto& l : r.s.laterals) {
        const Unit *a = total(l.from), *b = total(l.to);
        double minFrac = 1;
        for (auto& c : b->covers)
            if (c.frac > TINY) minFrac = std::min(minFrac, c.frac);
        f[l.to] = std::max(f[l.to], f[l.from] * a->area / b->area / minFrac);
        worst = std::max(worst, f[l.to]);
    }
    return worst;
}

// Compare every recorded label of the simulation with the reference.
using Keep = function<bool(const string&)>;
inline void compare(const RM& r, const Out& got, const Model& m, const Keep& keep = nullptr, double rel = 2e-5,
                    double abs_ = 1e-4) {
    abs_ *= concentration(r);
    auto cmp = [&](const string& l, int u, const vector<double>& a, const vector<double>& b) {
        check(a.size() == b.size(), "number of values of " + l);
        for (size_t t = 0; t < a.size(); ++t)
            if (!pbt::close(a[t], b[t], rel, abs_))
                fail(format("{} (unit #{}) at step {}: model {:.12g}, equations {:.12g}", l, u, t, a[t], b[t]));
    };
    // Report the earliest deviation in computation order when dumping.
    if (getenv("HB_DUMP")) dump(m.out);
    int best = 1 << 30;
    string msg;
    auto scan = [&](const string& l, int u, const vector<double>& a, const vector<double>& b) {
        try {
            cmp(l, u, a, b);
        } catch (const Fail& f) {
            for (size_t t = 0; t < a.size() && t < b.size(); ++t)
                if (!pbt::close(a[t], b[t], rel, abs_)) {
                    if (static_cast<int>(t) < best) {
                        best = static_cast<int>(t);
                        msg = f.msg;
                    }
                    break;
                }
            if (msg.empty()) msg = f.msg;
        }
    };
    for (auto& [l, v] : got.hu) {
        if (keep && !keep(l)) continue;
        auto it = m.out.hu.find(l);
        if (it == m.out.hu.end()) fail("reference has no item " + l);
        for (int u = 0; u < got.U; ++u) scan(l, u, v[u], it->second[u]);
    }
    for (auto& [l, v] : got.sub) {
        if (keep && !keep(l)) continue;
        auto it = m.out.sub.find(l);
        if (it == m.out.sub.end()) fail("reference has no item " + l);
        scan(l, -1, v, it->second);
    }
    for (auto& [l, v] : m.out.hu)
        if ((!keep || keep(l)) && !got.hu.count(l)) fail("the simulation does not record " + l);
    if (!msg.empty()) fail(msg);
}
}  // namespace ref
