#pragma once
#include "hb.h"

namespace gr {
using namespace hb;

// Independent GR4J / GR6J reference (airGR formulation, daily step).
struct Ref {
    bool gr6;
    double X1, X2, X3, X4, X5, X6;
    double S = 0, R = 0, E = 0;
    vector<double> u1, u2;   // ordinates
    vector<double> q1, q2;   // pending outputs of the unit hydrographs

    static double s1(double t, double x4) {
        return t <= 0 ? 0 : t >= x4 ? 1 : std::pow(t / x4, 2.5);
    }
    static double s2(double t, double x4) {
        if (t <= 0) return 0;
        if (t >= 2 * x4) return 1;
        if (t < x4) return 0.5 * std::pow(t / x4, 2.5);
        return 1 - 0.5 * std::pow(2 - t / x4, 2.5);
    }
    void init() {
        int n1 = static_cast<int>(std::ceil(X4)), n2 = static_cast<int>(std::ceil(2 * X4));
        for (int j = 1; j <= n1; ++j) u1.push_back(s1(j, X4) - s1(j - 1, X4));
        for (int j = 1; j <= n2; ++j) u2.push_back(s2(j, X4) - s2(j - 1, X4));
        q1.assign(n1 + 1, 0);
        q2.assign(n2 + 1, 0);
    }
    struct Step {
        double Q, et, S, R, E, stored, exch, qr, qd, qe;
    };
    Step step(double P, double PE) {
        double pn = std::max(0.0, P - PE), en = std::max(0.0, PE - P);
        double et = std::min(P, PE);
        double ps = 0, es = 0;
        if (pn > 0) {
            double w = std::tanh(std::min(13.0, pn / X1));
            ps = X1 * (1 - (S / X1) * (S / X1)) * w / (1 + S / X1 * w);
        }
        if (en > 0) {
            double w = std::tanh(std::min(13.0, en / X1));
            es = S * (2 - S / X1) * w / (1 + (1 - S / X1) * w);
        }
        et += es;
        S = S + ps - es;
        double perc = S * (1 - std::pow(1 + std::pow(4.0 / 9.0 * S / X1, 4), -0.25));
        S -= perc;
        double pr = perc + pn - ps;
        // Convolution with pending queue: what leaves UH1/UH2 during this step.
        for (size_t j = 0; j < u1.size(); ++j) q1[j] += u1[j] * 0.9 * pr;
        for (size_t j = 0; j < u2.size(); ++j) q2[j] += u2[j] * 0.1 * pr;
        double o1 = q1[0], o2 = q2[0];
        q1.erase(q1.begin());
        q1.push_back(0);
        q2.erase(q2.begin());
        q2.push_back(0);
        double Q, exch = 0, qr = 0, qd = 0, qe = 0;
        if (!gr6) {
            double F = X2 * std::pow(R / X3, 3.5);
            exch = std::max(0.0, R + o1 + F) - (R + o1) + std::max(0.0, o2 + F) - o2;
            R = std::max(0.0, R + o1 + F);
            qr = R * (1 - std::pow(1 + std::pow(R / X3, 4), -0.25));
            R -= qr;
            qd = std::max(0.0, o2 + F);
            Q = qr + qd;
        } else {
            double F = X2 * (R / X3 - X5);
            R = std::max(0.0, R + 0.6 * o1 + F);
            qr = R * (1 - std::pow(1 + std::pow(R / X3, 4), -0.25));
            R -= qr;
            E += 0.4 * o1 + F;
            double ar = std::clamp(E / X6, -33.0, 33.0);
            qe = ar > 7 ? E + X6 / std::exp(ar) : ar < -7 ? X6 * std::exp(ar) : X6 * std::log(1 + std::exp(ar));
            E -= qe;
            qd = std::max(0.0, o2 + F);
            Q = qr + qe + qd;
            if (Q < 0) Q = 0;
        }
        double st = R + E;
        for (double v : q1) st += v;
        for (double v : q2) st += v;
        return {Q, et, S, R, E, st, exch, qr, qd, qe};
    }
};

inline double f32(double v) {
    return static_cast<double>(static_cast<float>(v));
}

inline vector<double> genRain(Gen& g, int n, double wet = 0.5) {
    vector<double> p(n);
    int mode = g.in(0, 3);
    for (int i = 0; i < n; ++i) {
        bool w = g.chance(static_cast<int>(wet * 10), 10);
        double v = 0;
        if (w) v = mode == 3 ? g.logreal(0.01, 300, 500) : g.real(0, mode == 0 ? 15 : 60, 600);
        p[i] = v;
    }
    return p;
}
inline vector<double> genPet(Gen& g, int n) {
    vector<double> p(n);
    double base = g.real(0, 8, 80);
    for (int i = 0; i < n; ++i) p[i] = g.chance(1, 8) ? 0.0 : std::max(0.0, base + g.real(-2, 4, 60));
    return p;
}

inline void prop(Gen& g, Case& c, bool gr6) {
    Spec s;
    int U = g.chance(1, 3) ? g.in(2, 4) : 1;
    s.steps = g.in(4, 60);
    s.y = g.in(1995, 2023);
    s.m = g.in(1, 12);
    s.d = g.in(1, 28);
    s.solver = g.pick<string>({"heun_explicit", "euler_explicit", "rk4"});
    double area = 0;
    for (int u = 0; u < U; ++u) {
        Unit un;
        un.id = U == 1 ? 1 : 10 + 3 * u;
        un.area = g.logreal(100, 1e9);
        un.covers = {{"ground", "generic_land_cover", 1.0}};
        area += un.area;
        s.units.push_back(un);
    }
    bool disc = true;
    s.structure = [gr6, disc](SettingsModel& m) { buildGR(m, gr6, disc); };
    Ref r0;
    r0.gr6 = gr6;
    r0.X1 = f32(g.logreal(10, 2500));
    r0.X3 = f32(g.logreal(5, 600));
    // |X2| is kept well below X3: beyond, the exchange feedback amplifies rounding differences.
    r0.X2 = f32(g.chance(1, 4) ? 0.0 : std::min(8.0, (gr6 ? 0.1 : 0.3) * r0.X3) * g.real(-1, 1, 240));
    r0.X4 = f32(g.chance(1, 6) ? g.in(1, 6) : g.real(0.5, 8, 300));
    r0.X5 = f32(g.real(-1, 2, 60));
    r0.X6 = f32(g.logreal(0.5, 60));
    s.params = {{"production_store", "capacity", r0.X1},
                {"uh_input", "exchange_factor", r0.X2},
                {"uh_input", "routing_capacity", r0.X3},
                {"uh_input", "uh_base_time", r0.X4}};
    if (gr6) {
        s.params.push_back({"uh_input", "exchange_threshold", r0.X5});
        s.params.push_back({"uh_input", "exp_store_coeff", r0.X6});
    }
    Forcing1 P{"precipitation", {}}, E{"pet", {}};
    bool uniform = U > 1 && g.flip();
    for (int u = 0; u < (uniform ? 1 : U); ++u) {
        P.v.push_back(genRain(g, s.steps));
        E.v.push_back(genPet(g, s.steps));
    }
    s.forcing = {P, E};
    c.desc << (gr6 ? "GR6J " : "GR4J ")
           << format("X1={} X2={} X3={} X4={} X5={} X6={}\n", r0.X1, r0.X2, r0.X3, r0.X4, r0.X5, r0.X6) << showSpec(s);
    Out o = simulate(s);
    check(o.T == s.steps, format("{} steps recorded, {} simulated", o.T, s.steps));
    vector<double> outlet(s.steps, 0.0);
    double totEt = 0, totP = 0, maxQ = 0;
    for (int u = 0; u < U; ++u) {
        Ref r = r0;
        r.init();
        const auto& pv = P.v[uniform ? 0 : u];
        const auto& ev = E.v[uniform ? 0 : u];
        for (int t = 0; t < s.steps; ++t) {
            auto st = r.step(pv[t], ev[t]);
            outlet[t] += st.Q * s.units[u].area / area;
            totEt += st.et * s.units[u].area / area;
            totP += (pv[t] + st.exch) * s.units[u].area / area;  // GR4J books the exchange in its routing store
            near(o.h("production_store:water_content", u)[t], st.S, 1e-8, 1e-5,
                 format("production store, unit {}, step {}", u, t));
            near(o.h("uh_input:routing:internal_storage", u)[t], st.stored, 1e-8, 1e-4,
                 format("routed water in transit, unit {}, step {}", u, t));
            near(o.h("uh_input:routing:q_routing", u)[t], st.qr, 1e-8, 2e-5, format("outflow of the routing store, unit {}, step {}", u, t));
            near(o.h("uh_input:routing:q_direct", u)[t], st.qd, 1e-8, 2e-5, format("direct flow, unit {}, step {}", u, t));
            near(o.h("uh_input:routing:routing_store", u)[t], st.R, 1e-8, 1e-4, format("routing store, unit {}, step {}", u, t));
            if (gr6) {
                near(o.h("uh_input:routing:q_exp", u)[t], st.qe, 1e-8, 2e-5, format("outflow of the exponential store, unit {}, step {}", u, t));
                near(o.h("uh_input:routing:exp_store", u)[t], st.E, 1e-8, 1e-4, format("exponential store, unit {}, step {}", u, t));
            }
            if (!gr6)
                near(o.h("uh_input:water_content", u)[t], st.stored, 1e-8, 1e-4,
                     format("routing content, unit {}, step {}", u, t));
            double et = o.h("ground:interception:output", u)[t] + o.h("production_store:et:output", u)[t];
            near(et, st.et, 1e-8, 1e-5, format("evapotranspiration, unit {}, step {}", u, t));
        }
    }
    for (int t = 0; t < s.steps; ++t) {
        near(o.s("outlet")[t], outlet[t], 1e-8, 2e-5, format("outlet discharge, step {}", t));
        maxQ = std::max(maxQ, outlet[t]);
    }
    near(o.totalEt, totEt, 1e-8, 1e-4, "total evapotranspiration");
    double net = o.totalOutlet + o.totalEt + o.dWater - totP;
    near(net, 0, 0, 1e-5 + 1e-9 * totP, "precipitation + exchange = outflow + evapotranspiration + storage change");
    c.nontrivial = maxQ > 1e-3 && totEt > 0;
    c.tag(U > 1 ? "multi-unit" : "single-unit");
    c.tag(r0.X2 < 0 ? "loss" : r0.X2 > 0 ? "gain" : "no-exchange");
    if (r0.X4 < 1) c.tag("uh<1day");
}
}  // namespace gr
