// Driver: run / replay. See pbt.h.
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <unordered_set>

#include "pbt.h"

namespace hb {
void globalInit();
std::string scratchDir();  // defined below, set per process
}  // namespace hb

using namespace pbt;
using std::string;
using std::vector;

static string g_scratch;
string hb::scratchDir() {
    return g_scratch;
}

static uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
    auto c = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
    return h;
}
static uint64_t mix(uint64_t z) {
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

static uint64_t caseSeed(uint64_t seed, const Sub& s, uint64_t idx) {
    string k = string(propertyId()) + "/" + s.name;
    return mix(fnv(k.data(), k.size()) ^ mix(seed * 0x9E3779B97F4A7C15ull + 1)) + idx * 0xD1342543DE82EF95ull;
}

static int g_cpuLimit = 30;  // CPU seconds allowed for one case

static void armTimer(int s) {
    itimerval it{};
    it.it_value.tv_sec = s;
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

struct Outcome {
    enum Kind { Ok, Discarded, Failed, Crashed } kind = Ok;
    string msg;
    string desc;
    vector<uint64_t> choices;
    bool nontrivial = false;
    std::set<string> tags;
};

static Outcome evalHere(const Sub& s, Gen& g) {
    Outcome o;
    Case c;
    armTimer(g_cpuLimit);
    try {
        s.fn(g, c);
    } catch (const Fail& f) {
        o.kind = Outcome::Failed;
        o.msg = f.msg;
    } catch (const Discard&) {
        o.kind = Outcome::Discarded;
    } catch (const std::exception& e) {
        o.kind = Outcome::Failed;
        o.msg = string("unexpected exception: ") + e.what();
    } catch (...) {
        o.kind = Outcome::Failed;
        o.msg = "unexpected exception of unknown type";
    }
    armTimer(0);
    o.desc = c.desc.str();
    o.choices = g.log;
    o.nontrivial = c.nontrivial;
    o.tags = c.tags;
    return o;
}

static void quiet() {
    if (getenv("HB_VERBOSE")) return;
    int fd = open(getenv("HB_LOG") ? getenv("HB_LOG") : "/dev/null", O_WRONLY | O_CREAT | O_APPEND, 0644);
    if (fd >= 0) {
        dup2(fd, 1);
        dup2(fd, 2);
        close(fd);
    }
}

static void putStr(string& b, const string& s) {
    uint64_t n = s.size();
    b.append(reinterpret_cast<char*>(&n), 8);
    b += s;
}
static string getStr(const string& b, size_t& p) {
    if (p + 8 > b.size()) return "";
    uint64_t n;
    memcpy(&n, &b[p], 8);
    p += 8;
    string s = b.substr(p, n);
    p += n;
    return s;
}

// Evaluate in a forked child. A list of cases is run in order; the outcome is that of the last one.
template <class MakeGens>
static Outcome evalForked(const Sub& s, MakeGens run, int scratchTag) {
    int fds[2];
    if (pipe(fds)) abort();
    pid_t pid = fork();
    if (pid == 0) {
        close(fds[0]);
        g_scratch += "/f" + std::to_string(scratchTag);
        std::filesystem::create_directories(g_scratch);
        quiet();
        Outcome o = run(s);
        string b;
        b.push_back(static_cast<char>(o.kind));
        putStr(b, o.msg);
        putStr(b, o.desc);
        putStr(b, string(reinterpret_cast<const char*>(o.choices.data()), o.choices.size() * 8));
        size_t off = 0;
        while (off < b.size()) {
            ssize_t w = write(fds[1], b.data() + off, b.size() - off);
            if (w <= 0) break;
            off += w;
        }
        close(fds[1]);
        _exit(0);
    }
    close(fds[1]);
    string b;
    char buf[65536];
    ssize_t r;
    while ((r = read(fds[0], buf, sizeof buf)) > 0) b.append(buf, r);
    close(fds[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    Outcome o;
    if (b.empty() || !WIFEXITED(st) || WEXITSTATUS(st) != 0) {
        o.kind = Outcome::Crashed;
        if (WIFSIGNALED(st))
            o.msg = WTERMSIG(st) == SIGVTALRM ? std::format("no result after {} s of CPU time (hang)", g_cpuLimit)
                                               : std::format("process killed by signal {}", WTERMSIG(st));
        else
            o.msg = std::format("process exited with status {}", WEXITSTATUS(st));
        return o;
    }
    o.kind = static_cast<Outcome::Kind>(b[0]);
    size_t p = 1;
    o.msg = getStr(b, p);
    o.desc = getStr(b, p);
    string ch = getStr(b, p);
    o.choices.resize(ch.size() / 8);
    if (!ch.empty()) memcpy(o.choices.data(), ch.data(), ch.size());
    return o;
}

static bool bad(const Outcome& o) {
    return o.kind == Outcome::Failed || o.kind == Outcome::Crashed;
}

static Outcome evalChoices(const Sub& s, const vector<uint64_t>& ch) {
    return evalForked(
        s,
        [&](const Sub& ss) {
            Gen g(&ch);
            return evalHere(ss, g);
        },
        1);
}

static double now() {
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
}

// Shrink a failing choice sequence: delete chunks, zero chunks, minimise single values.
static vector<uint64_t> shrink(const Sub& s, vector<uint64_t> best, double budget, Outcome& bestOut) {
    double end = now() + budget;
    auto smaller = [](const vector<uint64_t>& a, const vector<uint64_t>& b) {
        return a.size() != b.size() ? a.size() < b.size() : a < b;
    };
    auto attempt = [&](const vector<uint64_t>& cand) {
        if (now() > end) return false;
        Outcome o = evalChoices(s, cand);
        if (!bad(o)) return false;
        vector<uint64_t> used = o.kind == Outcome::Crashed ? cand : o.choices;
        if (!smaller(used, best)) {
            if (!smaller(cand, best)) return false;
            used = cand;
        }
        best = used;
        bestOut = o;
        return true;
    };
    bool progress = true;
    while (progress && now() < end) {
        progress = false;
        for (size_t len : {64, 16, 8, 4, 2, 1}) {
            for (size_t i = best.size(); i-- > 0 && now() < end;) {
                if (i + len > best.size()) continue;
                vector<uint64_t> c = best;
                c.erase(c.begin() + i, c.begin() + i + len);
                if (attempt(c)) {
                    progress = true;
                    if (i > best.size()) i = best.size();
                }
            }
        }
        for (size_t len : {32, 8, 2}) {
            for (size_t i = 0; i + len <= best.size() && now() < end; i += len) {
                vector<uint64_t> c = best;
                bool any = false;
                for (size_t k = i; k < i + len; ++k) {
                    any |= c[k] != 0;
                    c[k] = 0;
                }
                if (any && attempt(c)) progress = true;
            }
        }
        for (size_t i = 0; i < best.size() && now() < end; ++i) {
            if (best[i] == 0) continue;
            vector<uint64_t> c = best;
            c[i] = 0;
            if (attempt(c)) {
                progress = true;
                continue;
            }
            uint64_t lo = 0, hi = best[i];
            while (hi - lo > 1 && now() < end && i < best.size()) {
                uint64_t mid = lo + (hi - lo) / 2;
                c = best;
                if (i >= c.size()) break;
                c[i] = mid;
                if (attempt(c)) {
                    hi = mid;
                    progress = true;
                } else {
                    lo = mid;
                }
            }
        }
    }
    return best;
}

static string jstr(const string& s) {
    string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += c;
        } else if (c == '\n') {
            o += "\\n";
        } else if (c < 0x20 || c >= 0x7f) {
            o += std::format("\\u{:04x}", c);
        } else {
            o += c;
        }
    }
    return o + "\"";
}

struct Shared {
    volatile int sub[64];
    volatile int64_t idx[64];
};

static void writeReplay(const string& path, const Sub& s, uint64_t seed, const string& msg, const string& desc,
                        const vector<uint64_t>& ch, const vector<int64_t>& history) {
    std::ofstream f(path);
    f << "# property " << propertyId() << "\n# message: ";
    for (char c : msg) f << (c == '\n' ? ' ' : c);
    f << "\n";
    std::istringstream is(desc);
    string line;
    while (std::getline(is, line)) f << "# | " << line << "\n";
    f << "sub " << s.name << "\n";
    f << "seed " << seed << "\n";
    if (!history.empty()) {
        f << "history";
        for (auto i : history) f << " " << i;
        f << "\n";
    } else {
        f << "choices " << ch.size();
        for (auto c : ch) f << " " << c;
        f << "\n";
    }
}

static int doReplay(const string& path) {
    std::ifstream f(path);
    if (!f) {
        std::cerr << "cannot read " << path << "\n";
        return 2;
    }
    string line, sub;
    vector<uint64_t> ch;
    vector<int64_t> hist;
    uint64_t seed = 1;
    while (std::getline(f, line)) {
        std::istringstream is(line);
        string k;
        is >> k;
        if (k == "sub") is >> sub;
        if (k == "seed") is >> seed;
        if (k == "choices") {
            size_t n;
            is >> n;
            uint64_t v;
            while (is >> v) ch.push_back(v);
        }
        if (k == "history") {
            int64_t v;
            while (is >> v) hist.push_back(v);
        }
    }
    for (const Sub& s : subs()) {
        if (sub != s.name) continue;
        Outcome o;
        if (!hist.empty()) {
            o = evalForked(
                s,
                [&](const Sub& ss) {
                    Outcome last;
                    for (auto i : hist) {
                        Gen g(caseSeed(seed, ss, i));
                        last = evalHere(ss, g);
                    }
                    return last;
                },
                1);
        } else {
            o = evalChoices(s, ch);
        }
        std::cout << o.desc << "\n" << (bad(o) ? "FAILS: " : "passes ") << o.msg << "\n";
        return bad(o) ? 1 : 0;
    }
    std::cerr << "unknown sub-check '" << sub << "'\n";
    return 2;
}

int main(int argc, char** argv) {
    string mode = argc > 1 ? argv[1] : "";
    std::map<string, string> opt;
    for (int i = 2; i + 1 < argc; i += 2) opt[argv[i]] = argv[i + 1];
    g_scratch = opt.count("--scratch") ? opt["--scratch"] : "";
    bool ownScratch = false;
    if (g_scratch.empty()) {
        char t[] = "/tmp/hbcheck.XXXXXX";
        g_scratch = mkdtemp(t);
        ownScratch = true;
    }
    if (opt.count("--cpu-limit")) g_cpuLimit = std::stoi(opt["--cpu-limit"]);
    hb::globalInit();
    if (mode == "replay") {
        int rc = doReplay(opt["--file"]);
        if (ownScratch) std::filesystem::remove_all(g_scratch);
        return rc;
    }
    if (mode != "run") {
        std::cerr << "usage: run --seed S --tier T --out FILE --replays DIR | replay --file F\n";
        return 2;
    }
    uint64_t seed = std::stoull(opt.count("--seed") ? opt["--seed"] : "1");
    bool thorough = opt["--tier"] == "thorough";
    string only = opt["--only"];
    double scale = opt.count("--scale") ? std::stod(opt["--scale"]) : 1.0;
    int W = opt.count("--jobs") ? std::stoi(opt["--jobs"]) : 8;
    if (W > 64) W = 64;
    bool scan = opt.count("--scan");  // stop at the first failing case and only print it (own experiments)
    const auto& S = subs();
    vector<int64_t> N;
    for (const Sub& s : S) {
        int64_t n = static_cast<int64_t>((thorough ? s.thorough : s.quick) * scale);
        if (n < 1) n = 1;
        if (!only.empty() && only != s.name) n = 0;
        N.push_back(n);
    }
    auto* sh = static_cast<Shared*>(
        mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));

    struct FailRec {
        int sub;
        int64_t idx;
        int worker;
        string msg;
        bool crash;
    };
    vector<FailRec> fails;
    vector<pid_t> pids(W);
    auto launch = [&](int w, int startSub, int64_t startIdx, int gen, std::set<int> skip) {
        pid_t pid = fork();
        if (pid) {
            pids[w] = pid;
            return;
        }
        string base = g_scratch + "/w" + std::to_string(w);
        g_scratch = base + "_" + std::to_string(gen);
        std::filesystem::create_directories(g_scratch);
        quiet();
        std::ofstream out(base + "." + std::to_string(gen) + ".res", std::ios::trunc);
        for (int si = startSub; si < static_cast<int>(S.size()); ++si) {
            if (skip.count(si)) continue;
            int64_t first = w;
            if (si == startSub && startIdx >= 0) first = startIdx;
            int samples = 0;
            for (int64_t i = first; i < N[si]; i += W) {
                sh->sub[w] = si;
                sh->idx[w] = i;
                Gen g(caseSeed(seed, S[si], i));
                Outcome o = evalHere(S[si], g);
                // one record per case: sub, idx, kind, hash
                out << "C " << si << " " << i << " " << static_cast<int>(o.kind) << " " << (o.nontrivial ? 1 : 0)
                    << " " << fnv(o.choices.data(), o.choices.size() * 8);
                for (const auto& t : o.tags) out << " " << t;
                out << "\n";
                if (o.kind == Outcome::Failed) {
                    string m = o.msg;
                    std::replace(m.begin(), m.end(), '\n', ' ');
                    out << "F " << si << " " << i << " " << m << "\n";
                    out.flush();
                    if (scan) _exit(0);
                    break;  // next sub-check
                }
                if (o.nontrivial && samples < 1 && i < 4 * W) {
                    ++samples;
                    string m = o.desc.substr(0, 1500);
                    for (char& c : m)
                        if (c == '\n') c = '\x01';
                    out << "S " << si << " " << i << " " << m << "\n";
                }
            }
            out.flush();
        }
        out.close();
        _exit(0);
    };
    double t0 = now();
    std::map<pid_t, int> who;
    vector<int> gens(W, 0);
    vector<std::set<int>> skips(W);
    for (int w = 0; w < W; ++w) launch(w, 0, -1, 0, {});
    int alive = W;
    while (alive > 0) {
        int st;
        pid_t p = waitpid(-1, &st, 0);
        if (p < 0) break;
        int w = -1;
        for (int k = 0; k < W; ++k)
            if (pids[k] == p) w = k;
        if (w < 0) continue;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
            --alive;
            continue;
        }
        string m = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGVTALRM
                                          ? std::format("no result after {} s of CPU time (hang)", g_cpuLimit)
                                          : std::format("process killed by signal {}", WTERMSIG(st)))
                                   : std::format("process exited with status {}", WEXITSTATUS(st));
        fails.push_back({static_cast<int>(sh->sub[w]), static_cast<int64_t>(sh->idx[w]), w, m, true});
        skips[w].insert(static_cast<int>(sh->sub[w]));
        ++gens[w];
        launch(w, static_cast<int>(sh->sub[w]), -1, gens[w], skips[w]);
    }
    // Collect.
    struct Agg {
        int64_t eval = 0, disc = 0;
        std::unordered_set<uint64_t> nt;
        std::map<string, int64_t> tags;
        vector<std::pair<int64_t, string>> samples;
    };
    vector<Agg> agg(S.size());
    for (int w = 0; w < W; ++w)
        for (int gen = 0; gen <= gens[w]; ++gen) {
            std::ifstream in(g_scratch + "/w" + std::to_string(w) + "." + std::to_string(gen) + ".res");
            string line;
            while (std::getline(in, line)) {
                std::istringstream is(line);
                string k;
                int si;
                int64_t idx;
                is >> k >> si >> idx;
                if (is.fail()) continue;
                if (k == "C") {
                    int kind, nt;
                    uint64_t h;
                    is >> kind >> nt >> h;
                    agg[si].eval++;
                    if (kind == Outcome::Discarded) agg[si].disc++;
                    if (nt && kind != Outcome::Discarded) agg[si].nt.insert(h);
                    string t;
                    while (is >> t) agg[si].tags[t]++;
                } else if (k == "S") {
                    string m;
                    std::getline(is, m);
                    for (char& c : m)
                        if (c == '\x01') c = '\n';
                    agg[si].samples.push_back({idx, m});
                } else if (k == "F") {
                    string m;
                    std::getline(is, m);
                    fails.push_back({si, idx, w, m, false});
                }
            }
        }
    double tRun = now() - t0;
    std::sort(fails.begin(), fails.end(),
              [](const FailRec& a, const FailRec& b) { return a.sub != b.sub ? a.sub < b.sub : a.idx < b.idx; });
    if (scan) {
        for (const auto& fr : fails) std::cout << "FAIL " << S[fr.sub].name << " " << fr.idx << " " << fr.msg << "\n";
        if (ownScratch) std::filesystem::remove_all(g_scratch);
        return fails.empty() ? 0 : 1;
    }
    // One report per sub-check: confirm, shrink, write the replay file.
    std::ostringstream jf;
    std::set<int> reported;
    int nfail = 0;
    for (const auto& fr : fails) {
        if (reported.count(fr.sub)) continue;
        const Sub& s = S[fr.sub];
        // Recover the choices (a Gen logs them even if the property crashes; re-generate in a child).
        vector<uint64_t> ch;
        Outcome o = evalForked(
            s,
            [&](const Sub& ss) {
                Gen g(caseSeed(seed, ss, fr.idx));
                return evalHere(ss, g);
            },
            1);
        vector<int64_t> hist;
        if (o.kind == Outcome::Crashed) {
            size_t cap = 1 << 22;
            auto* pg = static_cast<uint64_t*>(
                mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
            pg[0] = 0;
            evalForked(
                s,
                [&](const Sub& ss) {
                    Gen g(caseSeed(seed, ss, fr.idx));
                    g.tap = pg;
                    g.tapCap = cap / 8 - 2;
                    return evalHere(ss, g);
                },
                1);
            ch.assign(pg + 1, pg + 1 + pg[0]);
            munmap(pg, cap);
            if (!bad(evalChoices(s, ch))) {
                ch.clear();
                hist = {fr.idx};
            }
        } else if (o.kind == Outcome::Failed) {
            ch = o.choices;
        } else {
            // Not reproducible alone: replay everything this worker ran before it in this sub-check.
            for (int64_t i = fr.worker; i <= fr.idx; i += W) hist.push_back(i);
        }
        int confirmed = 0;
        Outcome last;
        if (!hist.empty()) {
            auto runHist = [&](const vector<int64_t>& h) {
                return evalForked(
                    s,
                    [&](const Sub& ss) {
                        Outcome l;
                        for (auto i : h) {
                            Gen g(caseSeed(seed, ss, i));
                            l = evalHere(ss, g);
                        }
                        return l;
                    },
                    1);
            };
            // minimise the history by halving from the front
            while (hist.size() > 1) {
                vector<int64_t> h2(hist.begin() + (hist.size() + 1) / 2, hist.end());
                if (h2.empty() || !bad(runHist(h2))) break;
                hist = h2;
            }
            for (int k = 0; k < 3; ++k) {
                last = runHist(hist);
                if (bad(last)) ++confirmed;
            }
        } else {
            Outcome bo = o;
            vector<uint64_t> small = shrink(s, ch, thorough ? 60 : 25, bo);
            for (int k = 0; k < 3; ++k) {
                last = evalChoices(s, small);
                if (bad(last)) ++confirmed;
            }
            ch = small;
        }
        if (confirmed == 0) continue;  // try the next failing case of this sub-check
        reported.insert(fr.sub);
        string path = opt["--replays"] + "/" + propertyId() + "-" + s.name + ".replay";
        writeReplay(path, s, seed, last.msg.empty() ? fr.msg : last.msg, last.desc, ch, hist);
        jf << (nfail++ ? "," : "") << "{\"sub\":" << jstr(s.name) << ",\"idx\":" << fr.idx
           << ",\"confirmed\":" << confirmed << ",\"msg\":" << jstr(last.msg.empty() ? fr.msg : last.msg)
           << ",\"replay\":" << jstr(path) << "}";
    }
    int unconfirmed = 0;
    string unconfMsg;
    for (const auto& fr : fails)
        if (!reported.count(fr.sub)) {
            ++unconfirmed;
            unconfMsg = string(S[fr.sub].name) + " case " + std::to_string(fr.idx) + ": " + fr.msg;
        }
    std::ofstream js(opt["--out"]);
    js << "{\"property\":" << jstr(propertyId()) << ",\"run_s\":" << tRun << ",\"unconfirmed\":" << unconfirmed
       << ",\"unconfirmed_msg\":" << jstr(unconfMsg) << ",\"failures\":[" << jf.str() << "],\"subs\":[";
    bool firstSub = true;
    for (size_t si = 0; si < S.size(); ++si) {
        if (N[si] == 0) continue;
        auto& a = agg[si];
        if (!firstSub) js << ",";
        firstSub = false;
        js << "{\"name\":" << jstr(S[si].name) << ",\"rule\":" << jstr(S[si].rule) << ",\"evaluations\":" << a.eval
           << ",\"discarded\":" << a.disc << ",\"distinct_nontrivial\":" << a.nt.size() << ",\"tags\":{";
        bool f1 = true;
        for (auto& [t, n] : a.tags) {
            js << (f1 ? "" : ",") << jstr(t) << ":" << n;
            f1 = false;
        }
        js << "},\"samples\":[";
        std::sort(a.samples.begin(), a.samples.end());
        for (size_t k = 0; k < a.samples.size() && k < 2; ++k) js << (k ? "," : "") << jstr(a.samples[k].second);
        js << "]}";
    }
    js << "]}\n";
    js.close();
    if (ownScratch) std::filesystem::remove_all(g_scratch);
    return 0;
}
