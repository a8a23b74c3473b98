// Dates: calendar, modified Julian day and text.
#include "TimeMachine.h"
#include "Utils.h"
#include "UtilsDateTime.h"
#include "hb.h"
using namespace hb;
const char* pbt::propertyId() {
    return "C17";
}

static bool leap(int y) {
    return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
}
static int monthDays(int y, int m) {
    static const int n[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    return m == 2 && leap(y) ? 29 : n[m - 1];
}
struct When {
    int y, mo, d, h, mi, s;
    double mjd() const {
        return mjdOf(y, mo, d, h, mi, s);
    }
    string show() const {
        return format("{:04d}-{:02d}-{:02d} {:02d}:{:02d}:{:02d}", y, mo, d, h, mi, s);
    }
};
static When genWhen(Gen& g) {
    When w;
    w.y = g.chance(1, 4) ? g.pick<int>({1900, 1999, 2000, 2004, 2100, 1904, 1996}) : g.in(1900, 2100);
    w.mo = g.chance(1, 3) ? g.pick<int>({2, 3, 12, 1}) : g.in(1, 12);
    w.d = g.chance(1, 3) ? g.pick<int>({1, 28, monthDays(w.y, w.mo)}) : g.in(1, monthDays(w.y, w.mo));
    w.h = g.chance(1, 4) ? g.pick<int>({0, 23}) : g.in(0, 23);
    w.mi = g.chance(1, 4) ? g.pick<int>({0, 59}) : g.in(0, 59);
    w.s = g.chance(1, 3) ? g.pick<int>({0, 59}) : g.in(0, 59);
    return w;
}
static void sameTime(const Time& t, const When& w, const string& what) {
    check(t.year == w.y && t.month == w.mo && t.day == w.d && t.hour == w.h && t.min == w.mi && t.sec == w.s,
          format("{}: {:04d}-{:02d}-{:02d} {:02d}:{:02d}:{:02d} instead of {}", what, t.year, t.month, t.day, t.hour, t.min, t.sec, w.show()));
}
static When fromSeconds(long long secs) {  // since 1970-01-01
    long long day = secs >= 0 ? secs / 86400 : -((-secs + 86399) / 86400);
    long long left = secs - day * 86400;
    When w;
    civilFrom(static_cast<long>(day), w.y, w.mo, w.d);
    w.h = static_cast<int>(left / 3600);
    w.mi = static_cast<int>(left / 60 % 60);
    w.s = static_cast<int>(left % 60);
    return w;
}

// Every day of a year, at a random time.
static void calendar(Gen& g, Case& c) {
    int y = g.in(1900, 2100);
    c.desc << "year " << y << "\n";
    long previous = civilDays(y, 1, 1) - 1;
    int doy = 0;
    for (int m = 1; m <= 12; ++m)
        for (int d = 1; d <= monthDays(y, m); ++d) {
            ++doy;
            When w{y, m, d, g.in(0, 23), g.in(0, 59), g.in(0, 59)};
            check(civilDays(y, m, d) == ++previous, "day count of the oracle");
            double want = static_cast<double>(previous + 40587);
            near(GetMJD(y, m, d), want, 0, 0, "day number of " + w.show());
            double mjd = GetMJD(y, m, d, w.h, w.mi, w.s);
            near(mjd, want + (w.h * 3600 + w.mi * 60 + w.s) / 86400.0, 0, 1e-10, "day number of " + w.show());
            sameTime(GetTimeStructFromMJD(mjd), w, "back from the day number");
            double off = g.real(-0.49, 0.49, 98) / 86400;
            sameTime(GetTimeStructFromMJD(mjd + off), w, "within half a second of the day number");
            if (d % 7 == 1 || m < 4) {
                TimeMachine t;
                t.Initialize(mjd, mjd + 10, 1, TimeUnit::Day);
                check(t.GetCurrentDayOfYear() == doy, format("day of the year of {} is {} instead of {}", w.show(), t.GetCurrentDayOfYear(), doy));
            }
        }
    c.nontrivial = true;
}

static void increments(Gen& g, Case& c) {
    When w = genWhen(g);
    struct U {
        TimeUnit u;
        long long secs;
        const char* name;
    };
    U u = g.pick<U>({{TimeUnit::Day, 86400, "days"}, {TimeUnit::Hour, 3600, "hours"}, {TimeUnit::Minute, 60, "minutes"}, {TimeUnit::Week, 604800, "weeks"}});
    int max = static_cast<int>(std::min<long long>(2000000, 30LL * 366 * 86400 / u.secs));
    int n = g.in(0, 2 * max) - max;
    if (g.chance(1, 3)) n = g.in(0, 100) - 50;
    long long secs = civilDays(w.y, w.mo, w.d) * 86400LL + w.h * 3600 + w.mi * 60 + w.s + n * u.secs;
    When want = fromSeconds(secs);
    c.desc << format("{} + {} {}\n", w.show(), n, u.name);
    double got = IncrementDateBy(GetMJD(w.y, w.mo, w.d, w.h, w.mi, w.s), n, u.u);
    near(got, want.mjd(), 0, 1e-9, "incremented day number");
    sameTime(GetTimeStructFromMJD(got), want, "incremented date");
    // A clock started at this date.
    if (n >= 0) {
        TimeMachine t;
        int k = g.in(1, 40);
        t.Initialize(w.mjd(), w.mjd() + 100, n + 1, u.u);
        for (int i = 0; i < k; ++i) t.IncrementTime();
        long long s2 = civilDays(w.y, w.mo, w.d) * 86400LL + w.h * 3600 + w.mi * 60 + w.s + static_cast<long long>(n + 1) * u.secs * k;
        When at = fromSeconds(s2);
        if (at.y < 2300) {
            sameTime(GetTimeStructFromMJD(t.GetDate()), at, "clock");
            int doy = static_cast<int>(civilDays(at.y, at.mo, at.d) - civilDays(at.y, 1, 1)) + 1;
            check(t.GetCurrentDayOfYear() == doy || at.h == 23, format("day of the year of the clock at {} is {} instead of {}", at.show(), t.GetCurrentDayOfYear(), doy));
        }
    }
    c.nontrivial = n != 0;
}

// Writing of a date in one of the supported formats.
struct Text {
    bool dayFirst;
    string sep;
    int time;  // 0: none, 1: hh:mm, 2: hh:mm:ss, 3: hhmm, 4: hhmmss
    string mid;
    string write(const When& w) const {
        string d = dayFirst ? format("{:02d}{}{:02d}{}{:04d}", w.d, sep, w.mo, sep, w.y) : format("{:04d}{}{:02d}{}{:02d}", w.y, sep, w.mo, sep, w.d);
        string t = time == 0   ? ""
                   : time == 1 ? format("{:02d}:{:02d}", w.h, w.mi)
                   : time == 2 ? format("{:02d}:{:02d}:{:02d}", w.h, w.mi, w.s)
                   : time == 3 ? format("{:02d}{:02d}", w.h, w.mi)
                               : format("{:02d}{:02d}{:02d}", w.h, w.mi, w.s);
        return d + (time ? mid : "") + t;
    }
};
static vector<std::pair<Text, bool>> texts() {  // and whether a guess is supported
    vector<std::pair<Text, bool>> v;
    for (bool df : {false, true}) {
        for (string s : {"-", ".", "/", ""}) v.push_back({{df, s, 0, ""}, !(s == "." && !df)});
        for (string s : {"-", ".", "/"})
            for (int t : {1, 2}) v.push_back({{df, s, t, " "}, true});
    }
    v.push_back({{false, "-", 2, "T"}, true});
    v.push_back({{false, "", 1, " "}, true});
    v.push_back({{false, "", 4, " "}, false});
    v.push_back({{false, "", 3, " "}, false});
    v.push_back({{false, "", 4, ""}, true});
    v.push_back({{false, "", 4, "T"}, true});
    v.push_back({{true, "", 2, " "}, true});
    v.push_back({{true, "", 1, " "}, true});
    v.push_back({{true, "", 4, " "}, false});
    v.push_back({{true, "", 3, " "}, false});
    return v;
}
static vector<TimeFormat> formats(const Text& t) {
    if (!t.dayFirst) return t.time ? vector<TimeFormat>{ISOdateTime, YYYY_MM_DD_hh_mm, YYYY_MM_DD_hh_mm_ss} : vector<TimeFormat>{ISOdate, YYYY_MM_DD};
    return t.time ? vector<TimeFormat>{DD_MM_YYYY_hh_mm, DD_MM_YYYY_hh_mm_ss} : vector<TimeFormat>{DD_MM_YYYY};
}
static void text(Gen& g, Case& c) {
    static const auto all = texts();
    auto [t, guessable] = all[g.below(all.size())];
    When w = genWhen(g);
    if (t.time == 0) w.h = w.mi = w.s = 0;
    if (t.time == 1 || t.time == 3) w.s = 0;
    string s = t.write(w);
    c.desc << "'" << s << "'\n";
    for (auto f : formats(t)) near(ParseDate(s, f), w.mjd(), 0, 1e-10, format("'{}' read with format {}", s, static_cast<int>(f)));
    if (guessable) near(ParseDate(s, guess), w.mjd(), 0, 1e-10, format("'{}' read with a guessed format", s));
    c.tag(t.dayFirst ? "day first" : "year first");
    c.nontrivial = true;
}

static void malformed(Gen& g, Case& c) {
    static const auto all = texts();
    Text t;
    do {
        t = all[g.below(all.size())].first;
    } while (t.time > 2);
    When w = genWhen(g);
    string s;
    int k = static_cast<int>(g.below(t.time ? 10 : 8));
    if (t.sep.empty() && k < 4) {
        t.sep = "-";
    }
    switch (k) {
        case 0:
            w.mo = g.chance(1, 4) ? 0 : g.in(13, 99);
            s = t.write(w);
            break;
        case 1:
            w.d = g.chance(1, 4) ? 0 : g.in(monthDays(w.y, w.mo) + 1, 99);
            s = t.write(w);
            break;
        case 2:
            w.mo = 2;
            w.d = leap(w.y) ? 30 : 29;
            s = t.write(w);
            break;
        case 3:
            w.y = g.flip() ? g.in(1, 1899) : g.in(2101, 9999);
            s = t.write(w);
            break;
        case 4:
            s = t.write(w) + g.pick<string>({"x", " abc", "Z", "-", ":", "+01:00", ".5", " 1"});
            break;
        case 5:
            s = g.pick<string>({"x", "date ", "-", "."}) + t.write(w);
            break;
        case 6: {
            s = t.write(w);
            size_t n = t.sep.empty() ? g.below(6) : g.below(t.dayFirst ? 7 : 6);
            s = s.substr(0, n);
            break;
        }
        case 7: {
            s = t.write(w);
            s[g.below(t.sep.empty() ? 8 : 10)] = g.pick<char>({'x', ';', '#', 'O'});
            break;
        }
        case 8:
            w.h = g.in(24, 99);
            s = t.write(w);
            break;
        default:
            w.mi = g.in(60, 99);
            s = t.write(w);
            break;
    }
    c.desc << format("case {} '{}'\n", k, s);
    for (auto f : {ISOdate, ISOdateTime, YYYY_MM_DD, YYYY_MM_DD_hh_mm, YYYY_MM_DD_hh_mm_ss, DD_MM_YYYY, DD_MM_YYYY_hh_mm, DD_MM_YYYY_hh_mm_ss, guess}) {
        bool refused = false;
        double got = 0;
        try {
            got = ParseDate(s, f);
        } catch (const InputError&) {
            refused = true;
        }
        if (!refused) fail(format("'{}' read with format {} gives {}", s, static_cast<int>(f), dateStr(got, true)));
    }
    // Impossible calendar dates.
    if (k < 3 || k >= 8) {
        bool refused = false;
        try {
            (void)UtilsDateTime::ToMJD(w.y, w.mo, w.d, w.h, w.mi, w.s);
        } catch (const std::exception&) {
            refused = true;
        }
        check(refused, format("the impossible date {} has a day number", w.show()));
    }
    c.nontrivial = true;
}

// A valid text is not taken for another date by the other formats.
static void confusion(Gen& g, Case& c) {
    static const auto all = texts();
    Text t = all[g.below(all.size())].first;
    When w = genWhen(g);
    string s = t.write(w);
    c.desc << "'" << s << "'\n";
    if (t.time == 0) w.h = w.mi = w.s = 0;
    if (t.time == 1 || t.time == 3) w.s = 0;
    for (auto f : {ISOdate, ISOdateTime, YYYY_MM_DD, YYYY_MM_DD_hh_mm, YYYY_MM_DD_hh_mm_ss, DD_MM_YYYY, DD_MM_YYYY_hh_mm, DD_MM_YYYY_hh_mm_ss, guess}) {
        try {
            double got = ParseDate(s, f);
            near(got, w.mjd(), 0, 1e-10, format("'{}' read with format {}", s, static_cast<int>(f)));
        } catch (const InputError&) {
        }
    }
    c.nontrivial = true;
}
const std::vector<pbt::Sub>& pbt::subs() {
    static const std::vector<Sub> s = {
        {"calendar", calendar, 60000, 900000, "every day of a year of 1900-2100 at random times, both ways, day of the year; non-trivial: all"},
        {"increments", increments, 1500000, 20000000, "dates incremented by weeks, days, hours and minutes; non-trivial: a non-zero increment"},
        {"text", text, 1500000, 20000000, "dates written in every supported format; non-trivial: all"},
        {"malformed", malformed, 1000000, 15000000, "malformed or impossible dates; non-trivial: all"},
        {"confusion", confusion, 1000000, 15000000, "valid texts read with every format: refused or the same date; non-trivial: all"}};
    return s;
}
