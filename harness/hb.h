// Helpers to build, run and read hydrobricks models through its public API.
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "Includes.h"
#include "Logger.h"
#include "ModelHydro.h"
#include "SettingsBasin.h"
#include "SettingsModel.h"
#include "SubBasin.h"
#include "TimeSeries.h"
#include "TimeSeriesDistributed.h"
#include "TimeSeriesUniform.h"
#include "UtilsDateTime.h"
#include "pbt.h"

namespace hb {

using pbt::Case;
using pbt::check;
using pbt::Discard;
using pbt::Fail;
using pbt::fail;
using pbt::Gen;
using pbt::near;
using std::map;
using std::string;
using std::vector;
using std::format;

void globalInit();
string scratchDir();

struct Cover {
    string name;
    string type;
    double frac;
};
struct Unit {
    int id = 1;
    double area = 1e6;
    double elev = 1000;
    double slope = 0.1;        // m/m
    string aspect = "N";
    vector<Cover> covers;      // fractions sum to 1
    int structure = 1;
};
struct Lateral {
    int from, to;
    double frac;
    string type;
};
struct Forcing1 {
    string var;                        // name accepted by the time series factory
    vector<vector<double>> v;          // [unit][t]; a single row = uniform
    int lead = 0;                      // steps of data before the model start
    int trail = 0;                     // steps after the model end
};
struct Param {
    string comp, name;
    double value;
};

struct Spec {
    vector<Unit> units;
    vector<Lateral> laterals;
    std::function<void(SettingsModel&)> structure;
    vector<Param> params;              // applied with SetParameterValue after the structure is built
    vector<Forcing1> forcing;
    string solver = "heun_explicit";
    int y = 2020, m = 1, d = 1;        // start date
    int steps = 10;                    // number of simulated steps
    int dt = 1;
    string dtUnit = "day";
    int spinupDays = 0;
    bool logAll = true;
    bool withBasin = false;            // let the model build the basin and choose the structure of the units
    std::function<void(SettingsBasin&)> extraBasin;
    std::function<void(ModelHydro&)> beforeRun;

    double dtDays() const {
        return dtUnit == "day" ? dt : dtUnit == "hour" ? dt / 24.0 : dt / 1440.0;
    }
};

struct Sim {
    SettingsModel settings;
    SettingsBasin basin;
    std::unique_ptr<SubBasin> sub;
    std::unique_ptr<ModelHydro> model;
    Spec spec;

    explicit Sim(const Spec& s)
        : spec(s) {}
    // Each returns normally or throws Fail: the inputs built here are all valid ones.
    void build();
    void attach();
    void run();
    void all() {
        build();
        attach();
        run();
    }
    int unitIndex(int id) const;
};

struct Out {
    int T = 0, U = 0;
    vector<double> time;
    map<string, vector<double>> sub;            // [t]
    map<string, vector<vector<double>>> hu;     // [unit][t]
    map<string, vector<vector<double>>> frac;   // [unit][t]
    vector<double> areas;
    vector<int> ids;
    double totalOutlet = 0, totalEt = 0, dWater = 0, dSnow = 0, dIce = 0;
    const vector<double>& s(const string& l) const;
    const vector<double>& h(const string& l, int u) const;
    bool hasH(const string& l) const {
        return hu.count(l) > 0;
    }
    bool hasS(const string& l) const {
        return sub.count(l) > 0;
    }
};
Out read(Sim& s);
void dump(const Out& o);
Out simulate(const Spec& s);

// Date helpers independent of the code under test.
long civilDays(int y, int m, int d);             // days since 1970-01-01
void civilFrom(long z, int& y, int& m, int& d);
double mjdOf(int y, int m, int d, int h = 0, int mi = 0, int s = 0);
string dateStr(double mjd, bool withTime);

// Compare two outputs over every label/unit/time.
void compareOut(const Out& a, const Out& b, double rel, double abs_, const string& what);
string show(const vector<double>& v, int max = 40);
string showSpec(const Spec& s);

// Structures (mirroring the documented model definitions).
void buildGR(SettingsModel& s, bool gr6, bool discrete);

}  // namespace hb
