// The command line tool (C28): scripts are run by the tool and, call by call, through the library's interface; both have to print the same.
// Both run in children of their own, since each initialises MPI.
#include "sess.hpp"
#include <cfloat>
#include <ios>
#include <iostream>
#include <list>
#include <map>
#include <sstream>
#include "utils/Blob.hpp"
#include "utils/memory.hpp"
#include "utils/elen.h"
#include "../examples/hxhim/print_results.c"
namespace tool {
#define main cli_main
#include "../examples/hxhim/cli.cpp"
#undef main
}
using namespace vf;
typedef std::string S;

enum Kind { K_PUT, K_GET, K_GETOP, K_DEL, K_FPUTS, K_FGETS, K_FDELS, K_FLUSH };
struct Op { Kind k; Val s, p, o; size_t n = 1; hxhim_getop_t g = HXHIM_GETOP_EQ; };
struct Script { S text; std::vector<Op> ops; int bad = 0, lines = 0; };

static const struct { T t; const char *n; } TYPES[] = {{HXHIM_DATA_INT32, "INT32"}, {HXHIM_DATA_INT64, "INT64"}, {HXHIM_DATA_UINT32, "UINT32"}, {HXHIM_DATA_UINT64, "UINT64"}, {HXHIM_DATA_FLOAT, "FLOAT"}, {HXHIM_DATA_DOUBLE, "DOUBLE"}, {HXHIM_DATA_BYTE, "BYTE"}};
static const char *type_name(T t) { for (auto &x : TYPES) if (x.t == t) return x.n; return "?"; }
static const struct { hxhim_getop_t g; const char *n; } GETOPS[] = {{HXHIM_GETOP_EQ, "EQ"}, {HXHIM_GETOP_NEXT, "NEXT"}, {HXHIM_GETOP_PREV, "PREV"}, {HXHIM_GETOP_FIRST, "FIRST"}, {HXHIM_GETOP_LAST, "LAST"}};

// A listed finding: the tool prints the unsigned values that do not fit in the signed type as signed ones. The expected output holds both
// texts of such a value, and what the tool did print is taken apart here: `listed` if any of them was the signed one.
static bool both = false;
static S unsigned_shown(unsigned long long u, long long s) {
    char b[80];
    snprintf(b, sizeof b, both && s < 0 ? "\x01%llu\x02%lld\x03" : "%llu", u, s);
    return b;
}
static S settle(const S &want, const S &got, bool &listed) {
    S w; // what was expected, with the text that was printed where it is one of the two
    std::stringstream x(want), y(got); S l, m;
    while (std::getline(x, l)) {
        if (!std::getline(y, m)) m.clear();
        size_t at = 0; S one;
        for (size_t i = 0; i < l.size();) {
            if (l[i] != 1) { one += l[i++]; continue; }
            const size_t mid = l.find('\x02', i), end = l.find('\x03', mid);
            const S u = l.substr(i + 1, mid - i - 1), s = l.substr(mid + 1, end - mid - 1);
            at = one.size();
            if (m.compare(at, s.size(), s) == 0) { one += s; listed = true; } else one += u;
            i = end + 1;
        }
        w += one + "\n";
    }
    return w;
}
static S shown(const void *p, size_t n, T t) {
    char b[512] = "";
    if (!p) return "?";
    switch (t) {
        case HXHIM_DATA_INT32:  snprintf(b, sizeof b, "%lld", (long long) *(const int32_t *) p); return b;
        case HXHIM_DATA_INT64:  snprintf(b, sizeof b, "%lld", (long long) *(const int64_t *) p); return b;
        case HXHIM_DATA_UINT32: return unsigned_shown(*(const uint32_t *) p, *(const int32_t *) p);
        case HXHIM_DATA_UINT64: return unsigned_shown(*(const uint64_t *) p, *(const int64_t *) p);
        case HXHIM_DATA_FLOAT:  snprintf(b, sizeof b, "%.9f", (double) *(const float *) p); return b;
        case HXHIM_DATA_DOUBLE: snprintf(b, sizeof b, "%.17f", *(const double *) p); return b;
        case HXHIM_DATA_BYTE:   return S((const char *) p, n);
        default: return "?";
    }
}
struct Gen {
    Rng &r; std::vector<Val> used;
    explicit Gen(Rng &r) : r(r) {}
    Val val() {
        if (!used.empty() && r.chance(1, 2)) return used[r.below(used.size())];
        Val v;
        int edge = (int) r.below(4);
        switch (TYPES[r.below(7)].t) {
            case HXHIM_DATA_INT32:  v = vi32(edge == 0 ? INT32_MIN : edge == 1 ? INT32_MAX : (int32_t) r.range(-50, 50)); break;
            case HXHIM_DATA_INT64:  v = vi64(edge == 0 ? INT64_MIN : edge == 1 ? INT64_MAX : r.range(-50, 50)); break;
            case HXHIM_DATA_UINT32: v = vu32(edge == 0 ? UINT32_MAX : edge == 1 ? 0x80000000u : (uint32_t) r.below(50)); break;
            case HXHIM_DATA_UINT64: v = vu64(edge == 0 ? UINT64_MAX : edge == 1 ? 1ull << 63 : r.below(50)); break;
            case HXHIM_DATA_FLOAT:  v = vflt((float) (1 + (double) r.range(-4000, 4000)) / 16); break;
            case HXHIM_DATA_DOUBLE: v = vdbl((double) (1 + r.range(-40000, 40000)) / 64); break;
            default: { S w; size_t n = 1 + r.below(edge == 0 ? 40 : 4); while (w.size() < n) w += "abcdefghijklmnopqrstuvwxyzABC0123456789_-.,!{}%\"#"[r.below(edge == 1 ? 49 : 3)]; v = vbyte(w); }
        }
        if (v.t == HXHIM_DATA_FLOAT && as<float>(v) == 0) v = vflt(1);
        if (v.t == HXHIM_DATA_DOUBLE && as<double>(v) == 0) v = vdbl(1);
        if (used.size() < 12) used.push_back(v);
        return v;
    }
    S gap() { return r.chance(4, 5) ? " " : r.chance(1, 2) ? "\t" : "   "; }
    S text(const Val &v) {
        S x = v.t == HXHIM_DATA_BYTE ? v.b : shown(v.b.data(), v.b.size(), v.t);
        return gap() + type_name(v.t) + gap() + x;
    }
    S element(Op &o) {
        o.s = val(); o.p = val();
        S t = text(o.s) + text(o.p);
        if (o.k == K_PUT) { o.o = val(); t += text(o.o); }
        if (o.k == K_GET || o.k == K_GETOP) { o.o.t = r.chance(2, 3) ? val().t : TYPES[r.below(7)].t; t += gap() + type_name(o.o.t); }
        if (o.k == K_GETOP) { auto &g = GETOPS[r.below(5)]; o.n = r.below(6); o.g = g.g; t += gap() + std::to_string(o.n) + gap() + g.n; }
        return t;
    }
    // a line that is not valid, from its start on
    S broken() {
        static const char *LINES[] = {"put BYTE a BYTE b BYTE c", "PUT", "PUT BYTE a", "PUT BYTE a BYTE b", "PUT BYTE a BYTE b BYTE", "PUT TEXT a BYTE b BYTE c", "PUT INT32 x BYTE b BYTE c", "PUT INT32 99999999999 BYTE a BYTE b",
            "PUT BYTE a UINT64 99999999999999999999999 BYTE c", "GET", "GET BYTE a BYTE b", "GET BYTE a BYTE b WORD", "GET BYTE a INT64 - BYTE", "GETOP BYTE a BYTE b BYTE 1", "GETOP BYTE a BYTE b BYTE 1 SIDEWAYS", "GETOP BYTE a BYTE b BYTE NEXT",
            "GETOP BYTE a BYTE b BYTE 1 next", "DEL", "DEL BYTE a", "DEL BYTE a BYTE", "BPUT BYTE a BYTE b BYTE c", "BPUT 2 BYTE a", "BPUT x BYTE a BYTE b BYTE c", "BGET", "BGET 1 BYTE a", "BGETOP 1 BYTE a BYTE b BYTE 2", "BDEL 3", "BDEL", "FLUSHALL", "flush",
            "HELP", "-", "#PUT BYTE a BYTE b BYTE c", "PUT POINTER a BYTE b BYTE c", "PUT DOUBLE one BYTE b BYTE c"};
        return LINES[r.below(sizeof LINES / sizeof *LINES)];
    }
    Script script(int lines, bool flush_first) {
        Script s;
        if (flush_first) {}
        for (int i = 0; i < lines; i++) {
            S l = r.chance(1, 8) ? gap() : "";
            if (r.chance(1, 9)) { l += broken(); s.bad++; }
            else if (r.chance(1, 12)) {} // nothing on it
            else {
                int k = (int) r.below(16);
                Kind kind = k < 6 ? K_PUT : k < 9 ? K_GET : k < 11 ? K_GETOP : k < 12 ? K_DEL : k < 13 ? K_FPUTS : k < 14 ? (r.chance(1, 2) ? K_FGETS : K_FDELS) : K_FLUSH;
                static const char *N[] = {"PUT", "GET", "GETOP", "DEL", "FLUSHPUTS", "FLUSHGETS", "FLUSHDELS", "FLUSH"};
                if (kind < K_FPUTS && r.chance(1, 3)) {
                    size_t n = r.below(6);
                    l += "B" + S(N[kind]) + gap() + std::to_string(n);
                    for (size_t j = 0; j < n; j++) { Op o; o.k = kind; l += element(o); s.ops.push_back(o); }
                } else { Op o; o.k = kind; l += N[kind]; if (kind < K_FPUTS) l += element(o); s.ops.push_back(o); }
            }
            if (r.chance(1, 10)) l += gap();
            s.text += l; s.lines++;
            if (i + 1 < lines || !r.chance(1, 8)) s.text += "\n"; // the last line may have no end
        }
        return s;
    }
};

// what the library says, in the words of the tool
static void print_all(hxhim::Results *res, FILE *f) {
    if (!res) return;
    HXHIM_CXX_RESULTS_LOOP(res) {
        hxhim_op_t op = HXHIM_INVALID; int st = HXHIM_ERROR, ds = -1; void *d[3] = {}; size_t n[3] = {}; T t[3] = {HXHIM_DATA_INVALID, HXHIM_DATA_INVALID, HXHIM_DATA_INVALID};
        res->Op(&op); res->Status(&st); res->RangeServer(&ds);
        res->Subject(&d[0], &n[0], &t[0]); res->Predicate(&d[1], &n[1], &t[1]);
        S key = "{" + shown(d[0], n[0], t[0]) + ", " + shown(d[1], n[1], t[1]) + "}", l;
        if (op == HXHIM_PUT || op == HXHIM_DELETE) l = S(op == HXHIM_PUT ? "PUT" : "DEL") + "          " + key + " returned " + (st == HXHIM_SUCCESS ? "SUCCESS" : "ERROR");
        else {
            l = "GET returned ";
            if (st == HXHIM_SUCCESS) { res->Object(&d[2], &n[2], &t[2]); l += key + " -> " + shown(d[2], n[2], t[2]); } else l += "ERROR";
        }
        fprintf(f, "%s from range server %d\n", l.c_str(), ds);
    }
    hxhim::Results::Destroy(res);
}
static int reference(const Script &s, const S &one) {
    int prov; MPI_Init_thread(nullptr, nullptr, MPI_THREAD_MULTIPLE, &prov);
    hxhim_t hx;
    if (hxhim::Init(&hx, MPI_COMM_WORLD) != HXHIM_SUCCESS) return 11;
    if ((one.empty() ? hxhim::Open(&hx) : hxhim::OpenOne(&hx, one)) != HXHIM_SUCCESS) return 12;
    printf("Read %zu valid commands\n", s.ops.size());
    for (auto &o : s.ops) {
        void *S_ = (void *) o.s.b.data(), *P = (void *) o.p.b.data(), *O = (void *) o.o.b.data();
        switch (o.k) {
            case K_PUT:   hxhim::Put(&hx, S_, o.s.b.size(), o.s.t, P, o.p.b.size(), o.p.t, O, o.o.b.size(), o.o.t, HXHIM_PUT_ALL); break;
            case K_GET:   hxhim::Get(&hx, S_, o.s.b.size(), o.s.t, P, o.p.b.size(), o.p.t, o.o.t); break;
            case K_GETOP: hxhim::GetOp(&hx, S_, o.s.b.size(), o.s.t, P, o.p.b.size(), o.p.t, o.o.t, o.n, o.g); break;
            case K_DEL:   hxhim::Delete(&hx, S_, o.s.b.size(), o.s.t, P, o.p.b.size(), o.p.t); break;
            case K_FPUTS: print_all(hxhim::FlushPuts(&hx), stdout); break;
            case K_FGETS: print_all(hxhim::FlushGets(&hx), stdout); break;
            case K_FDELS: print_all(hxhim::FlushDeletes(&hx), stdout); break;
            case K_FLUSH: print_all(hxhim::Flush(&hx), stdout); break;
        }
    }
    hxhim::Close(&hx);
    MPI_Finalize();
    return 0;
}

static S slurp(const S &f) { S s; FILE *p = fopen(f.c_str(), "r"); char b[65536]; size_t n; if (!p) return s; while ((n = fread(b, 1, sizeof b, p)) > 0) s.append(b, n); fclose(p); return s; }
struct Ran { int code = -1; S out, err; };
// in a directory of its own, with its own streams
template <typename F> static Ran run(const S &dir, const S &in, const std::map<S, S> &env, F fn) {
    mkdir(dir.c_str(), 0700);
    { FILE *f = fopen((dir + "/in").c_str(), "w"); fwrite(in.data(), 1, in.size(), f); fclose(f); }
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        signal(SIGALRM, SIG_DFL); alarm(60);
        if (chdir(dir.c_str())) _exit(90);
        int i = open("in", O_RDONLY), o = open("out", O_CREAT | O_TRUNC | O_WRONLY, 0600), e = open("err", O_CREAT | O_TRUNC | O_WRONLY, 0600);
        dup2(i, 0); dup2(o, 1); dup2(e, 2); close(i); close(o); close(e);
        for (auto &kv : env) setenv(kv.first.c_str(), kv.second.c_str(), 1);
        exit(fn());
    }
    int st = 0; waitpid(p, &st, 0);
    Ran x; x.code = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st); x.out = slurp(dir + "/out"); x.err = slurp(dir + "/err");
    return x;
}
static S first_difference(const S &a, const S &b) {
    std::stringstream x(a), y(b); S l, m; int n = 0;
    for (;;) {
        bool f = (bool) std::getline(x, l), g = (bool) std::getline(y, m);
        if (!f && !g) return "no difference by line";
        if (f != g || l != m) return "line " + std::to_string(n) + ": the tool printed " + (f ? "\"" + l.substr(0, 200) + "\"" : "nothing") + ", the library says " + (g ? "\"" + m.substr(0, 200) + "\"" : "nothing");
        n++;
    }
}

int main(int argc, char **argv) {
    Args a = Args::parse(argc, argv);
    int told[2] = {0, 0};
    run_cases(a, [&](long c, Rng &r) {
        static const char *DS[] = {"IN_MEMORY", "LEVELDB", "ROCKSDB"};
        const int ds = (int) r.below(3);
        std::map<S, S> env = {{"HXHIM_TRANSPORT", "NULL"}, {"HXHIM_HASH", "RANK_MOD_DATASTORES"}, {"HXHIM_DATASTORE", DS[ds]}, {"HXHIM_LEVELDB_CREATE_IF_MISSING", "true"}, {"HXHIM_ROCKSDB_CREATE_IF_MISSING", "true"},
            {"HXHIM_DATASTORE_PREFIX", "."}, {"HXHIM_DATASTORE_BASENAME", "d"}, {"HXHIM_DATASTORE_POSTFIX", ""}, {"HXHIM_DATASTORES_PER_SERVER", std::to_string(1 + r.below(3))},
            {"HXHIM_MAXIMUM_OPS_PER_REQUEST", std::to_string(1 + r.below(8))}, {"HXHIM_MAXIMUM_SIZE_PER_REQUEST", "1048576"}, {"HXHIM_START_ASYNC_PUTS_AT", "0"}, {"HXHIM_DEBUG_LEVEL", "EMERGENCY"}};
        S dir = a.dir + "/c" + std::to_string(c), A = dir + "/tool", B = dir + "/lib";
        mkdir(dir.c_str(), 0700);
        Gen g(r);
        const int rounds = ds ? 1 + (int) r.below(2) : 1;
        const bool one = rounds > 1 && r.chance(1, 2);
        S all;
        for (int k = 0; k < rounds; k++) {
            Script s = g.script(1 + (int) r.below(40), false);
            bool last_flush = r.chance(3, 4);
            if (last_flush) { if (!s.text.empty() && s.text.back() != '\n') s.text += "\n"; Op o; o.k = K_FLUSH; s.ops.push_back(o); s.text += "FLUSH\n"; }
            const S path = k && one ? "./d-0" : "";
            all += (path.empty() ? "" : "--ds\n") + s.text;
            std::vector<S> args = {"cli"}; if (!path.empty()) { args.push_back("--ds"); args.push_back(path); }
            Ran x = run(A, s.text, env, [&]() { std::vector<char *> v; for (auto &t : args) v.push_back(&t[0]); v.push_back(nullptr); return tool::cli_main((int) args.size(), v.data()); });
            Ran y = run(B, s.text, env, [&]() { both = true; return reference(s, path); });
            if (y.code) { out().fail("cli:reference", "the library's session ended with " + std::to_string(y.code) + ": " + y.err.substr(0, 600)); break; }
            if (x.code) { out().fail("cli:exit", "the tool ended with " + std::to_string(x.code) + ": " + x.err.substr(0, 800) + " | " + all); break; }
            out().stat("commands", (long) s.ops.size()); out().stat("lines", s.lines); out().stat("malformed", s.bad);
            out().stat("results", (long) std::count(y.out.begin(), y.out.end(), '\n') - 1);
            // (the sanitizer does not end the tool for values outside of an enumeration: the unused member of the tool's commands is listed)
            bool listed = false, other = false;
            std::stringstream es(x.err); S el;
            while (std::getline(es, el)) if (el.find("runtime error:") != S::npos) {
                if (el.find("cli.cpp") != S::npos && el.find("not a valid value for type 'hxhim_getop_t'") != S::npos) { if (!told[0]++) out().fail("cli:unset-getop", el); }
                else if (!other) { other = true; out().fail("cli:ubsan", el + " | " + all); }
            }
            y.out = settle(y.out, x.out, listed);
            if (listed && !told[1]++) out().fail("cli:unsigned-as-signed", "an unsigned value was printed as a signed one | " + all.substr(0, 300));
            if (x.out != y.out) { out().fail("cli:output", first_difference(x.out, y.out) + " | " + DS[ds] + " | " + all); break; }
            if ((s.bad > 0) != (x.err.find("Error") != S::npos)) { out().fail("cli:malformed", std::to_string(s.bad) + " malformed lines, reported: " + x.err.substr(0, 300) + " | " + all); break; }
            if (s.ops.size() > 3) out().dist("nontrivial", fnv(s.text));
        }
        out().sample(S(DS[ds]) + " :: " + all);
        rmtree(dir);
    });
    out().done();
}
