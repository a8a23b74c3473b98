// A minimal model whose records show the forcing seen by every unit at every step: rain leaves directly, snow (share set
// by the temperature) stays. Used where the dates, steps or series matter rather than the hydrology.
#pragma once
#include "TimeSeriesData.h"
#include "hb.h"

namespace tracer {
using namespace hb;

// Dates in minutes since 1970-01-01 00:00.
using Minute = long long;
inline double mjd(Minute m) {
    return 40587.0 + static_cast<double>(m) / 1440.0;
}
inline Minute genMinute(Gen& g, int y0, int y1) {
    int y = g.in(y0, y1);
    int m = g.chance(1, 3) ? g.pick<int>({1, 2, 3, 12}) : g.in(1, 12);
    int d = g.chance(1, 3) ? g.pick<int>({1, 28}) : g.in(1, 28);
    Minute t = civilDays(y, m, d) * 1440LL;
    switch (g.below(4)) {
        case 0: return t;
        case 1: return t + 60 * g.in(0, 23);
        default: return t + g.in(0, 1439);
    }
}
inline string text(Minute m) {
    long day = static_cast<long>(m >= 0 ? m / 1440 : -((-m + 1439) / 1440));
    int left = static_cast<int>(m - day * 1440LL);
    int y, mo, d;
    civilFrom(day, y, mo, d);
    return format("{:04d}-{:02d}-{:02d} {:02d}:{:02d}", y, mo, d, left / 60, left % 60);
}
struct Step {
    int n = 1;
    TimeUnit unit = TimeUnit::Day;
    int minutes() const {
        return n * (unit == TimeUnit::Day ? 1440 : unit == TimeUnit::Hour ? 60 : 1);
    }
    string name() const {
        return unit == TimeUnit::Day ? "day" : unit == TimeUnit::Hour ? "hour" : "minute";
    }
    string show() const {
        return format("{} {}", n, name());
    }
};
inline Step genStep(Gen& g) {
    Step s;
    s.unit = g.pick<TimeUnit>({TimeUnit::Day, TimeUnit::Hour, TimeUnit::Minute});
    s.n = g.flip() ? g.pick<int>({1, 2, 3, 5, 6, 7, 10, 12, 15, 24, 30}) : g.in(1, s.unit == TimeUnit::Minute ? 2000 : 40);
    return s;
}

// The model: fills the settings (timer excluded).
inline void structure(SettingsModel& m, bool temperature) {
    m.SetLogAll(true);
    m.SetSolver("euler_explicit");
    m.GeneratePrecipitationSplitters(temperature);
    m.AddLandCoverBrick("ground", "generic_land_cover");
    if (temperature) {
        m.GenerateSnowpacks("melt:degree_day");
        m.SetParameterValue("snow_rain_transition", "transition_start", -100.0f);
        m.SetParameterValue("snow_rain_transition", "transition_end", 0.0f);
        m.SetParameterValue("ground_snowpack", "degree_day_factor", 1.0f);
        m.SetParameterValue("ground_snowpack", "melting_temperature", 50.0f);
    }
    m.SelectHydroUnitBrick("ground");
    // The whole content within the step, whatever its length.
    m.AddBrickProcess("outflow", "outflow:threshold", "outlet");
    m.AddProcessParameter("capacity", 0.0f);
    m.AddLoggingToItem("outlet");
}
inline std::unique_ptr<TimeSeriesData> regular(Minute start, const Step& s, const vector<double>& values) {
    auto d = std::make_unique<TimeSeriesDataRegular>(mjd(start), mjd(start + static_cast<Minute>(values.size() - 1) * s.minutes()), s.n, s.unit);
    if (!d->SetValues(vecDouble(values.begin(), values.end()))) fail("the values of a valid time series were refused");
    return d;
}
}  // namespace tracer
