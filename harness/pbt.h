// A small property-based-testing engine: choice-sequence generation, generic shrinking of the choice
// sequence, forked isolation of crashes/hangs, deterministic from one seed.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <format>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Fail {
    std::string msg;
};
struct Discard {};

class Gen {
  public:
    explicit Gen(uint64_t seed) {
        _s = seed;
    }
    explicit Gen(const std::vector<uint64_t>* replay)
        : _replay(replay) {}

    // Uniform integer in [0, n). Every generator below is built on this one; 0 is the "simplest" choice.
    uint64_t below(uint64_t n) {
        uint64_t v = 0;
        if (n <= 1) {
            v = 0;
        } else if (_replay) {
            v = _pos < _replay->size() ? (*_replay)[_pos] : 0;
            ++_pos;
            if (v >= n) v %= n;
        } else {
            v = next() % n;
        }
        if (n > 1) {
            log.push_back(v);
            if (tap && tap[0] < tapCap) {
                tap[1 + tap[0]] = v;
                ++tap[0];
            }
        }
        return v;
    }
    int in(int lo, int hi) {
        return lo + static_cast<int>(below(static_cast<uint64_t>(hi - lo + 1)));
    }
    // Real in [lo, hi] on a grid (grid keeps the shrunk values readable).
    double real(double lo, double hi, int steps = 1000) {
        return lo + (hi - lo) * static_cast<double>(below(steps + 1)) / steps;
    }
    // Real on a log scale.
    double logreal(double lo, double hi, int steps = 1000) {
        return lo * std::pow(hi / lo, static_cast<double>(below(steps + 1)) / steps);
    }
    bool chance(int num, int den) {
        return below(den) >= static_cast<uint64_t>(den - num);
    }
    bool flip() {
        return below(2) == 1;
    }
    template <class T>
    const T& pick(const std::vector<T>& v) {
        return v[below(v.size())];
    }
    template <class T>
    void shuffle(std::vector<T>& v) {
        for (size_t i = 0; i + 1 < v.size(); ++i) {
            size_t j = i + below(v.size() - i);
            std::swap(v[i], v[j]);
        }
    }
    std::vector<uint64_t> log;
    uint64_t* tap = nullptr;  // optional shared page: keeps the choices of a case that kills its process
    uint64_t tapCap = 0;

  private:
    uint64_t next() {
        _s += 0x9E3779B97F4A7C15ull;
        uint64_t z = _s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t _s = 0;
    const std::vector<uint64_t>* _replay = nullptr;
    size_t _pos = 0;
};

struct Case {
    std::ostringstream desc;      // readable description of the case
    bool nontrivial = false;      // set by the property by its stated rule
    std::set<std::string> tags;   // classes this case falls in (histogram goes in the evidence)
    bool replaying = false;
    void tag(std::string t) {
        for (char& ch : t)
            if (ch == ' ') ch = '_';
        tags.insert(t);
    }
};

using Fn = void (*)(Gen&, Case&);
struct Sub {
    const char* name;
    Fn fn;
    int quick;     // number of cases in the quick tier
    int thorough;  // number of cases in the thorough tier
    const char* rule;
};
// Each property file defines these.
const char* propertyId();
const std::vector<Sub>& subs();

[[noreturn]] inline void fail(const std::string& m) {
    throw Fail{m};
}
inline void check(bool c, const std::string& m) {
    if (!c) throw Fail{m};
}
inline bool close(double a, double b, double rel, double abs_) {
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (a == b) return true;
    if (std::isinf(a) || std::isinf(b)) return false;
    return std::fabs(a - b) <= abs_ + rel * std::max(std::fabs(a), std::fabs(b));
}
inline void near(double got, double want, double rel, double abs_, const std::string& what) {
    if (!close(got, want, rel, abs_))
        throw Fail{std::format("{}: got {:.17g}, expected {:.17g} (diff {:.3g})", what, got, want, got - want)};
}

}  // namespace pbt
