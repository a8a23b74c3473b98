// Several equivalent ways of giving the same forcing to a model.
#pragma once
#include <netcdf.h>
#include <unistd.h>

#include "tracer.h"

namespace deliver {
using namespace tracer;

struct Series {
    string var;
    VariableType type;
    vector<vector<double>> v;  // [unit][step]
};
inline VariableType typeOf(const string& var) {
    static const map<string, VariableType> m = {{"precipitation", VariableType::Precipitation}, {"temperature", VariableType::Temperature},
                                                {"temperature_min", VariableType::TemperatureMin}, {"temperature_max", VariableType::TemperatureMax},
                                                {"solar_radiation", VariableType::Radiation}, {"pet", VariableType::PET}};
    auto it = m.find(var);
    if (it == m.end()) fail("harness: unknown variable " + var);
    return it->second;
}
inline string otherName(Gen& g, const string& var) {
    if (g.flip()) return var;
    if (var == "precipitation") return g.pick<string>({"p", "P", "Precipitation"});
    if (var == "temperature") return g.pick<string>({"t", "T"});
    if (var == "temperature_min") return g.pick<string>({"t_min", "T_MIN"});
    if (var == "temperature_max") return "t_max";
    if (var == "solar_radiation") return g.pick<string>({"r_solar", "r"});
    if (var == "pet") return g.pick<string>({"etp", "PET"});
    return var;
}
inline double poison(Gen& g) {
    return g.flip() ? std::nan("") : g.pick<double>({-7e5, 3e4, 0.0, 12.5});
}

struct File {
    string path;
    File() {
        static int n = 0;
        path = scratchDir() + format("/forcing-{}-{}.nc", static_cast<int>(getpid()), ++n);
    }
    ~File() {
        unlink(path.c_str());
    }
};
inline void ok(int status, const char* what) {
    if (status != NC_NOERR) fail(format("harness: netcdf {}: {}", what, nc_strerror(status)));
}
struct Table {
    string name;
    vector<vector<double>> v;  // [time][unit]
    bool timeFirst = true;
    bool single = false;
};
inline void writeNetcdf(const string& path, bool nc4, const vector<double>& time, const vector<int>& ids, const vector<Table>& tables) {
    int nc, du, dt, vi, vt;
    ok(nc_create(path.c_str(), NC_CLOBBER | (nc4 ? NC_NETCDF4 : 0), &nc), "create");
    ok(nc_def_dim(nc, "hydro_units", ids.size(), &du), "dim");
    ok(nc_def_dim(nc, "time", time.size(), &dt), "dim");
    ok(nc_def_var(nc, "id", NC_INT, 1, &du, &vi), "var");
    ok(nc_def_var(nc, "time", NC_DOUBLE, 1, &dt, &vt), "var");
    vector<int> vars(tables.size());
    for (size_t k = 0; k < tables.size(); ++k) {
        int dims[2] = {tables[k].timeFirst ? dt : du, tables[k].timeFirst ? du : dt};
        ok(nc_def_var(nc, tables[k].name.c_str(), tables[k].single ? NC_FLOAT : NC_DOUBLE, 2, dims, &vars[k]), "var");
    }
    ok(nc_enddef(nc), "enddef");
    ok(nc_put_var_int(nc, vi, ids.data()), "put");
    ok(nc_put_var_double(nc, vt, time.data()), "put");
    for (size_t k = 0; k < tables.size(); ++k) {
        vector<double> flat;
        if (tables[k].timeFirst)
            for (auto& r : tables[k].v) flat.insert(flat.end(), r.begin(), r.end());
        else
            for (size_t u = 0; u < ids.size(); ++u)
                for (auto& r : tables[k].v) flat.push_back(r[u]);
        ok(nc_put_var_double(nc, vars[k], flat.data()), "put");
    }
    ok(nc_close(nc), "close");
}

// Ids of the data: those of the units in any order, plus other ones.
inline vector<std::pair<int, int>> columns(Gen& g, const vector<int>& ids) {  // id, index of the unit or -1
    vector<std::pair<int, int>> c;
    for (size_t u = 0; u < ids.size(); ++u) c.push_back({ids[u], static_cast<int>(u)});
    for (int k = g.chance(1, 3) ? g.in(1, 3) : 0; k > 0; --k) {
        int id = g.in(1, 5000);
        bool taken = false;
        for (auto& x : c) taken |= x.first == id;
        if (!taken) c.push_back({id, -1});
    }
    g.shuffle(c);
    return c;
}

// Gives every series to the model. The values before and after the simulated period are arbitrary.
inline string give(Gen& g, ModelHydro& model, const vector<int>& ids, vector<Series> series, Minute start, const Step& s, int steps, bool files) {
    string how;
    g.shuffle(series);
    const bool arrays = s.minutes() % 1440 == 0 || (s.minutes() < 1440 && s.minutes() % 60 == 0);
    size_t at = 0;
    while (at < series.size()) {
        Series& x = series[at];
        bool equal = true;
        for (auto& r : x.v) equal &= r == x.v[0];
        int lead = g.chance(1, 3) ? 0 : g.in(1, 9), trail = g.chance(1, 3) ? 0 : g.in(1, 9);
        if (lead + trail + steps < 2) trail = 1;
        // The step can be written in another unit.
        Step w = s;
        if (s.unit == TimeUnit::Day && g.chance(1, 4)) w = {s.n * 24, TimeUnit::Hour};
        if (s.unit == TimeUnit::Hour && g.chance(1, 4)) w = {s.n * 60, TimeUnit::Minute};
        if (s.unit == TimeUnit::Minute && s.n % 60 == 0 && g.flip()) w = {s.n / 60, TimeUnit::Hour};
        if (s.unit == TimeUnit::Hour && s.n % 24 == 0 && g.flip()) w = {s.n / 24, TimeUnit::Day};
        auto row = [&](int u, int ld, int tr) {
            vector<double> r;
            for (int k = 0; k < ld; ++k) r.push_back(poison(g));
            if (u >= 0)
                r.insert(r.end(), x.v[u].begin(), x.v[u].begin() + steps);
            else
                for (int k = 0; k < steps; ++k) r.push_back(poison(g));
            for (int k = 0; k < tr; ++k) r.push_back(poison(g));
            return r;
        };
        int kind = static_cast<int>(g.below(equal ? 4 : 3));
        if (kind < 2 && !arrays) kind = 2;
        if (kind == 1 && !files) kind = 0;
        if (kind == 0 || kind == 1) {
            auto cols = columns(g, ids);
            int n = lead + steps + trail;
            vector<double> time(n);
            // Dates computed in any way, to within a second.
            double jitter = g.chance(1, 3) ? g.real(-0.4, 0.4, 80) / 86400 : 0;
            for (int k = 0; k < n; ++k) time[k] = mjd(start) + (k - lead) * (s.minutes() / 1440.0) + jitter;
            if (kind == 0) {
                axd t(n);
                axi idv(cols.size());
                axxd data(n, cols.size());
                for (int k = 0; k < n; ++k) t[k] = time[k];
                for (size_t j = 0; j < cols.size(); ++j) {
                    idv[j] = cols[j].first;
                    auto r = row(cols[j].second, lead, trail);
                    for (int k = 0; k < n; ++k) data(k, j) = r[k];
                }
                how += format("{}: array lead {} trail {} columns {}\n", x.var, lead, trail, cols.size());
                if (!model.CreateTimeSeries(otherName(g, x.var), t, idv, data)) fail("valid forcing refused (array): " + x.var);
                ++at;
                continue;
            }
            int count = g.in(1, static_cast<int>(series.size() - at));
            vector<Table> tables;
            for (int q = 0; q < count; ++q) {
                Series& y = series[at + q];
                Table tb{otherName(g, y.var), vector<vector<double>>(n, vector<double>(cols.size())), g.flip(), false};
                for (size_t j = 0; j < cols.size(); ++j)
                    for (int k = 0; k < n; ++k)
                        tb.v[k][j] = cols[j].second >= 0 && k >= lead && k < lead + steps ? y.v[cols[j].second][k - lead] : poison(g);
                tables.push_back(tb);
            }
            vector<int> idl;
            for (auto& q : cols) idl.push_back(q.first);
            File f;
            writeNetcdf(f.path, g.chance(1, 4), time, idl, tables);
            how += format("{} and {} more: file lead {} trail {} columns {}\n", x.var, count - 1, lead, trail, cols.size());
            vector<std::unique_ptr<TimeSeries>> ts;
            if (!TimeSeries::Parse(f.path, ts)) fail("a valid forcing file was refused");
            check(static_cast<int>(ts.size()) == count, "number of series in the file");
            for (auto& one : ts)
                if (!model.AddTimeSeries(std::move(one))) fail("valid forcing refused (file)");
            at += count;
        } else if (kind == 2) {
            auto ts = std::make_unique<TimeSeriesDistributed>(x.type);
            bool own = g.flip();
            for (auto& [id, u] : columns(g, ids)) {
                int ld = own ? g.in(0, 9) : lead, tr = own ? g.in(0, 9) : trail;
                ts->AddData(regular(start - static_cast<Minute>(ld) * s.minutes(), w, row(u, ld, tr)), id);
            }
            how += format("{}: series by unit ({}), step {}\n", x.var, own ? "own periods" : "same period", w.show());
            if (!model.AddTimeSeries(std::move(ts))) fail("valid forcing refused (series by unit): " + x.var);
            ++at;
        } else {
            auto ts = std::make_unique<TimeSeriesUniform>(x.type);
            ts->SetData(regular(start - static_cast<Minute>(lead) * s.minutes(), w, row(0, lead, trail)));
            how += format("{}: uniform series lead {} trail {} step {}\n", x.var, lead, trail, w.show());
            if (!model.AddTimeSeries(std::move(ts))) fail("valid forcing refused (uniform series): " + x.var);
            ++at;
        }
    }
    if (!model.AttachTimeSeriesToHydroUnits() || !model.IsValid()) fail("attaching valid forcing failed");
    return how;
}
}  // namespace deliver
