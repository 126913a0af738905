// Shared infrastructure of the monitors: case driver, PRNG, violation
// reporting and coverage accounting.
//
// Protocol with checks/run.py: every line on stdout that starts with "@@" is a
// JSON record ({"t":"fail",...}, {"t":"cov",...}); everything else is noise.
#pragma once
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <unordered_set>
#include <vector>

#include <dirent.h>
#include <fcntl.h>
#include <sys/types.h>
#include <unistd.h>

namespace vf {

// the slow builds explore fewer of the largest sizes
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
constexpr bool instrumented = true;
#elif defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
constexpr bool instrumented = true;
#else
constexpr bool instrumented = false;
#endif
#else
constexpr bool instrumented = false;
#endif


inline uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

inline uint64_t hash_str(const std::string &s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return mix(h);
}

// a number to tell values apart by, whatever they are
inline uint64_t val(double d) {
    d = std::nearbyint(d);
    uint64_t b;
    memcpy(&b, &d, 8);
    return b;
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(mix(seed)) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
    // uniform integer in [lo, hi]
    int uni(int lo, int hi) { return static_cast<int>(lo + static_cast<int64_t>(next() % (static_cast<uint64_t>(static_cast<int64_t>(hi) - lo) + 1))); }
    double real() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double real(double a, double b) { return a + (b - a) * real(); }
    bool chance(double p) { return real() < p; }
    double logreal(double a, double b) { return std::exp(real(std::log(a), std::log(b))); }
    double normal() {
        double u = real() + 1e-300, v = real();
        return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v);
    }
    double expo() { return -std::log(real() + 1e-300); }
    template <class T> const T &pick(const std::vector<T> &v) { return v[next() % v.size()]; }
    template <class It> void shuffle(It b, It e) {
        for (auto n = e - b; n > 1; n--) std::swap(b[n - 1], b[next() % n]);
    }
};

struct Skip {};      // the case turned out not to be applicable
struct Abort {};     // the case already failed, no use to go on

class Run {
  public:
    std::string tier = "quick", scenario, scratch;
    uint64_t seed = 1;
    long index = 0;
    std::atomic<uint64_t> progress{0};
    // relaxed: must not order the threads of the code under test
    void tick() { progress.fetch_add(1, std::memory_order_relaxed); }

    static Run &get() { static Run r; return r; }

    void fail(const std::string &key, const std::string &msg) {
        std::lock_guard<std::mutex> l(m_);
        fails_++;
        case_fails_++;
        if (fails_ > 200) return;
        printf("@@{\"t\":\"fail\",\"scenario\":\"%s\",\"case\":%ld,\"key\":\"%s\",\"msg\":\"%s\"}\n",
               scenario.c_str(), index, esc(key).c_str(), esc(msg.substr(0, 1500)).c_str());
        fflush(stdout);
    }
    long case_fails() { std::lock_guard<std::mutex> l(m_); return case_fails_; }

    // what was observed
    void count(const std::string &name, uint64_t n = 1) {
        std::lock_guard<std::mutex> l(m_);
        counts_[name] += n;
    }
    void maximum(const std::string &name, double v) {
        std::lock_guard<std::mutex> l(m_);
        auto it = maxima_.find(name);
        if (it == maxima_.end() || it->second < v) maxima_[name] = v;
    }
    // the case is non-trivial and this is what makes it distinct
    void distinct(uint64_t h) {
        std::lock_guard<std::mutex> l(m_);
        if (sigs_.size() < 500000) sigs_.insert(h);
    }
    void distinct(const std::string &s) { distinct(hash_str(s)); }
    void sample(const std::string &s) {
        std::lock_guard<std::mutex> l(m_);
        if (samples_.size() < 3) samples_.push_back(scenario + ": " + s);
    }

    static std::string esc(const std::string &s) {
        std::string o;
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') { o += '\\'; o += c; }
            else if (c == '\n') o += "\\n";
            else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
            else o += c;
        }
        return o;
    }

    void begin_case(const std::string &sc, long i) {
        {
            std::lock_guard<std::mutex> l(m_);
            scenario = sc; index = i; case_fails_ = 0;
        }
        if (progress_fd >= 0) {
            char b[128];
            int n = snprintf(b, sizeof b, "%-60s %-20ld\n", sc.c_str(), i);
            if (pwrite(progress_fd, b, n, 0) < 0) {}
        }
        tick();
    }

    void finish(const std::string &sigfile) {
        std::lock_guard<std::mutex> l(m_);
        std::ostringstream o;
        o.precision(6);
        o << "@@{\"t\":\"cov\",\"evaluations\":" << evaluations << ",\"skipped\":" << skipped << ",\"fails\":" << fails_;
        o << ",\"counts\":{";
        bool first = true;
        for (auto &c : counts_) { o << (first ? "" : ",") << '"' << esc(c.first) << "\":" << c.second; first = false; }
        o << "},\"maxima\":{";
        first = true;
        for (auto &c : maxima_) {
            o << (first ? "" : ",") << '"' << esc(c.first) << "\":" << (std::isfinite(c.second) ? c.second : 1e308);
            first = false;
        }
        o << "},\"samples\":[";
        first = true;
        for (auto &c : samples_) { o << (first ? "" : ",") << '"' << esc(c) << '"'; first = false; }
        o << "],\"distinct\":" << sigs_.size() << "}\n";
        fputs(o.str().c_str(), stdout);
        fflush(stdout);
        if (!sigfile.empty()) {
            std::ofstream f(sigfile, std::ios::binary);
            for (uint64_t s : sigs_) f.write(reinterpret_cast<const char *>(&s), 8);
        }
    }
    uint64_t evaluations = 0, skipped = 0;
    int progress_fd = -1;

  private:
    std::mutex m_;
    uint64_t fails_ = 0;
    long case_fails_ = 0;
    std::map<std::string, uint64_t> counts_;
    std::map<std::string, double> maxima_;
    std::unordered_set<uint64_t> sigs_;
    std::vector<std::string> samples_;
};

inline Run &run() { return Run::get(); }

inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...) {
    char b[2048];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}

#define VF_CHECK(cond, key, ...) \
    do { if (!(cond)) ::vf::run().fail(key, ::vf::fmt(__VA_ARGS__)); } while (0)
#define VF_REQUIRE(cond, key, ...) \
    do { if (!(cond)) { ::vf::run().fail(key, ::vf::fmt(__VA_ARGS__)); throw ::vf::Abort(); } } while (0)

// Decides that nothing can make progress any more: every other thread of the
// process sleeps in the kernel and was not scheduled once between two samples.
class Watchdog {
  public:
    Watchdog(double quiet_s, double limit_s) : quiet_(quiet_s), limit_(limit_s), t_([this] { loop(); }) {}
    ~Watchdog() { stop_ = true; t_.join(); }

  private:
    // fingerprint of the scheduling state; *running if a thread is not asleep
    static uint64_t snapshot(bool *running, pid_t self) {
        uint64_t h = 0;
        *running = false;
        DIR *d = opendir("/proc/self/task");
        if (!d) { *running = true; return 0; }
        while (dirent *e = readdir(d)) {
            if (e->d_name[0] == '.') continue;
            if (atoi(e->d_name) == self) continue;
            std::ifstream f(std::string("/proc/self/task/") + e->d_name + "/status");
            std::string line, st, v, n;
            while (std::getline(f, line)) {
                if (line.compare(0, 6, "State:") == 0) st = line;
                else if (line.compare(0, 10, "voluntary_") == 0) v = line;
                else if (line.compare(0, 13, "nonvoluntary_") == 0) n = line;
            }
            if (st.find("S (") == std::string::npos) *running = true;
            h += hash_str(std::string(e->d_name) + v + n);
        }
        closedir(d);
        return h;
    }
    void loop() {
        pid_t self = gettid();
        uint64_t last_p = run().progress, last_h = 0;
        double quiet = 0, total = 0;
        const double dt = 0.25;
        while (!stop_) {
            std::this_thread::sleep_for(std::chrono::milliseconds(250));
            uint64_t p = run().progress;
            if (p != last_p) { last_p = p; quiet = total = 0; last_h = 0; continue; }
            total += dt;
            if (total < 1) continue;
            bool running;
            uint64_t h = snapshot(&running, self);
            if (!running && h == last_h) quiet += dt; else quiet = 0;
            last_h = h;
            if (quiet >= quiet_) die("deadlock", 42);
            if (total >= limit_) die("timeout", 43);
        }
    }
    void die(const char *what, int code) {
        printf("@@{\"t\":\"%s\",\"scenario\":\"%s\",\"case\":%ld}\n", what, run().scenario.c_str(), run().index);
        fflush(stdout);
        _exit(code);
    }
    double quiet_, limit_;
    std::atomic<bool> stop_{false};
    std::thread t_;
};

struct Scenario {
    const char *name;
    long quick, thorough;
    std::function<void(Rng &)> fn;
};

struct Options {
    double quiet_s = 6, limit_s = 60;   // watchdog
};

// options of a single run that harnesses may look at
inline bool thorough() { return run().tier == "thorough"; }

inline int drive(int argc, char **argv, const char *prop, const std::vector<Scenario> &scs, Options opt = Options()) {
    std::string sigfile, only;
    long only_case = -1, shard = 0, shards = 1;
    double scale = 1;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--seed") run().seed = strtoull(v.c_str(), 0, 10);
        else if (a == "--tier") run().tier = v;
        else if (a == "--shard") shard = atol(v.c_str());
        else if (a == "--shards") shards = atol(v.c_str());
        else if (a == "--scenario") only = v;
        else if (a == "--case") only_case = atol(v.c_str());
        else if (a == "--progress") run().progress_fd = open(v.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
        else if (a == "--sigs") sigfile = v;
        else if (a == "--scratch") run().scratch = v;
        else if (a == "--scale") scale = atof(v.c_str());
        else if (a == "--limit") opt.limit_s = atof(v.c_str());
    }
    // keep every shard's memory bounded: a runaway allocation must not take
    // the machine down
    long global = 0;
    {
        Watchdog dog(opt.quiet_s, opt.limit_s);
        for (auto &s : scs) {
            if (!only.empty() && only != s.name) continue;
            long n = run().tier == "thorough" ? s.thorough : s.quick;
            n = static_cast<long>(std::ceil(n * scale));
            for (long i = 0; i < n; i++, global++) {
                if (only_case >= 0) { if (i != only_case) continue; }
                else if (global % shards != shard) continue;
                run().begin_case(s.name, i);
                Rng rng(mix(run().seed * 1000003 + hash_str(prop) + hash_str(s.name)) ^ mix(i * 7919 + 13));
                try {
                    s.fn(rng);
                    run().evaluations++;
                    run().count(std::string("cases:") + s.name);
                } catch (const Skip &) {
                    run().skipped++;
                } catch (const Abort &) {
                    run().evaluations++;
                } catch (const std::exception &e) {
                    run().fail("unexpected-exception", std::string("unexpected exception: ") + e.what());
                }
                if (run().case_fails() > 0) run().count("failing-cases");
            }
        }
    }
    run().finish(sigfile);
    return 0;
}

}  // namespace vf
