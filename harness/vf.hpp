// Common harness support: deterministic RNG, case bookkeeping, verdict protocol.
//
// Protocol on stdout (parsed by tools/check.py):
//   @CASE <n>            case n starts (used to attribute a crash or a hang)
//   @FAIL <json>         the oracle rejected an execution {"case":..,"key":..,"msg":..}
//   @KNOWN <json>        a probe for a listed finding {"key":..,"fails":true|false,"msg":..}
//   @SAMPLE <json>       one actual case, written out
//   @STAT <name> <int>   counter measured on this run (summed over jobs)
//   @DISTINCT <set> <h>  hash of a distinct non-trivial case/state (deduplicated over jobs)
//   @DONE                clean end
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <mutex>
#include <atomic>
#include <unistd.h>
#include <dirent.h>
#include <sys/stat.h>
#include <signal.h>
#include <fcntl.h>
#include <sys/wait.h>

namespace vf {

struct Rng {
    uint64_t s;
    // the seed is mixed, so that neighbouring seeds do not give shifted copies of one sequence
    explicit Rng(uint64_t seed) : s(0xD1B54A32D192ED03ull) { s = next() ^ (seed * 0xD6E8FEB86659FD93ull); s = next() ^ (seed << 32 | seed >> 32); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t) below((uint64_t) (hi - lo + 1)); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    double unit() { return (double) (next() >> 11) / 9007199254740992.0; }
};

inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
    const unsigned char *c = (const unsigned char *) p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}
inline uint64_t fnv(const std::string &s, uint64_t h = 1469598103934665603ull) { return fnv(s.data(), s.size(), h); }

inline std::string jesc(const std::string &in) {
    std::string o = "\"";
    char b[8];
    for (unsigned char c : in) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
        else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char) c;
    }
    return o + "\"";
}
inline std::string hex(const std::string &s, size_t max = 64) {
    static const char *d = "0123456789abcdef";
    std::string o;
    for (size_t i = 0; i < s.size() && i < max; i++) { o += d[(unsigned char) s[i] >> 4]; o += d[s[i] & 15]; }
    if (s.size() > max) o += "..(" + std::to_string(s.size()) + ")";
    return o;
}

struct Args {
    uint64_t seed = 1;
    long start = 0, cases = 100;
    long only = -1;
    std::string mode, dir, extra;
    bool thorough = false;
    static Args parse(int argc, char **argv) {
        Args a;
        for (int i = 1; i < argc; i++) {
            std::string k = argv[i];
            auto v = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
            if (k == "--seed") a.seed = strtoull(v().c_str(), 0, 10);
            else if (k == "--start") a.start = atol(v().c_str());
            else if (k == "--cases") a.cases = atol(v().c_str());
            else if (k == "--only") a.only = atol(v().c_str());
            else if (k == "--mode") a.mode = v();
            else if (k == "--dir") a.dir = v();
            else if (k == "--extra") a.extra = v();
            else if (k == "--thorough") a.thorough = true;
        }
        return a;
    }
};

struct Out {
    std::mutex m;
    std::map<std::string, long> stats;
    std::map<std::string, std::set<uint64_t>> distinct;
    long cur = -1;
    std::atomic<long> fails{0};
    long samples = 0;
    // what one thread counts by itself, so that counting does not order the threads
    struct Local { std::map<std::string, long> stats; std::map<std::string, std::set<uint64_t>> distinct; };
    static Local *&local() { static thread_local Local *l = nullptr; return l; }
    void merge(const Local &l) { for (auto &s : l.stats) stat(s.first, s.second); for (auto &d : l.distinct) for (auto h : d.second) dist(d.first, h); }
    std::string prefix; // rank tag in multi process runs
    static Out &get() { static Out o; return o; }
    void line(const std::string &s) {
        // one write per line so that several ranks can share a pipe
        std::string l = s + "\n";
        ssize_t r = ::write(1, l.data(), l.size()); (void) r;
    }
    void begin(long n) { std::lock_guard<std::mutex> g(m); cur = n; line("@CASE " + std::to_string(n)); }
    void stat(const std::string &k, long v = 1) { if (Local *l = local()) { l->stats[k] += v; return; } std::lock_guard<std::mutex> g(m); stats[k] += v; }
    void dist(const std::string &k, uint64_t h) { if (Local *l = local()) { l->distinct[k].insert(h); return; } std::lock_guard<std::mutex> g(m); if (distinct[k].size() < 20000) distinct[k].insert(h); }
    // Failures beyond a bound are counted, not printed.
    void fail(const std::string &key, const std::string &msg) {
        std::lock_guard<std::mutex> g(m);
        stats["failures"]++;
        if (++fails <= 40)
            line("@FAIL {\"case\":" + std::to_string(cur) + ",\"key\":" + jesc(key) + ",\"msg\":" + jesc(prefix + msg.substr(0, 1500)) + "}");
    }
    void known(const std::string &key, bool fails_, const std::string &msg) {
        std::lock_guard<std::mutex> g(m);
        line("@KNOWN {\"key\":" + jesc(key) + ",\"fails\":" + (fails_ ? "true" : "false") + ",\"msg\":" + jesc(msg) + "}");
    }
    void sample(const std::string &txt) {
        if (local()) return;
        std::lock_guard<std::mutex> g(m);
        if (++samples <= 3) line("@SAMPLE " + jesc(txt.substr(0, 1200)));
    }
    void done() {
        std::lock_guard<std::mutex> g(m);
        for (auto &kv : stats) line("@STAT " + kv.first + " " + std::to_string(kv.second));
        for (auto &kv : distinct) {
            std::string l;
            for (uint64_t h : kv.second) {
                char b[32]; snprintf(b, sizeof b, " %llx", (unsigned long long) h); l += b;
                if (l.size() > 3500) { line("@DISTINCT " + kv.first + l); l.clear(); }
            }
            if (!l.empty()) line("@DISTINCT " + kv.first + l);
        }
        line("@DONE");
    }
};
inline Out &out() { return Out::get(); }

// A case that normally takes milliseconds and is still running after this long has stopped making progress.
inline int &watchdog_seconds() { static int s = 90; return s; }
inline void on_alarm(int) {
    char b[200];
    int n = snprintf(b, sizeof b, "@FAIL {\"case\":%ld,\"key\":\"hang:case\",\"msg\":\"case %ld made no progress for %d s\"}\n",
                     Out::get().cur, Out::get().cur, watchdog_seconds());
    ssize_t r = ::write(1, b, n); (void) r;
    _exit(98);
}

// Runs fn in a child process: 0 ok, otherwise what went wrong. For inputs that are known to crash.
template <typename F>
std::string in_child(F fn, int seconds = 30) {
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        alarm(seconds); signal(SIGALRM, SIG_DFL);
        int fd = open("/dev/null", 1); dup2(fd, 2); dup2(fd, 1);
        _exit(fn() ? 0 : 3);
    }
    int st = 0; waitpid(p, &st, 0);
    if (WIFEXITED(st)) return WEXITSTATUS(st) == 0 ? "" : WEXITSTATUS(st) == 3 ? "wrong result" : "exit status " + std::to_string(WEXITSTATUS(st));
    return "killed by signal " + std::to_string(WTERMSIG(st));
}

// runs fn(case, rng) for every case of the job
template <typename F>
void run_cases(const Args &a, F fn) {
    signal(SIGALRM, on_alarm);
    for (long c = a.start; c < a.start + a.cases; c++) {
        if (a.only >= 0 && c != a.only) continue;
        out().begin(c);
        alarm(watchdog_seconds());
        Rng r(a.seed * 1000003ull + (uint64_t) c);
        fn(c, r);
        out().stat("evaluations");
        if (out().fails > 200) break;
    }
    alarm(0);
}

inline void rmtree(const std::string &d) {
    // only ever called with a directory below the scratch directory this process was given
    DIR *dp = opendir(d.c_str());
    if (!dp) return;
    while (dirent *e = readdir(dp)) {
        std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        std::string f = d + "/" + n;
        struct stat st;
        if (lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rmtree(f); else unlink(f.c_str());
    }
    closedir(dp);
    rmdir(d.c_str());
}
} // namespace vf
