// Concurrency and crashes: background puts (async, C13), one datastore used by many threads (linear, C26),
// killed writers (crash, C12).
#include "sess.hpp"
#include <atomic>
#include <thread>
#include <chrono>
#include <sched.h>
#include <unistd.h>
using namespace vf;

static void jitter(Rng &r, int level) {
    if (level == 0) return;
    switch (r.below(level == 1 ? 4 : 6)) {
        case 0: sched_yield(); break;
        case 1: { volatile unsigned x = 0; for (unsigned i = 0, n = (unsigned) r.below(3000); i < n; i++) x += i; break; }
        case 2: usleep((unsigned) r.below(60)); break;
        case 4: usleep((unsigned) r.below(400)); break;
        default: break;
    }
}

// ------------------------------------------------------------------------------------------------------------ C13
// Every object is a unique id of type POINTER; a transform of that type sees each of them when a datastore stores it.
// Only relaxed atomics are used, so that the monitor orders nothing between the threads it watches.
struct ApplyLog {
    static const size_t MAX = 4096;
    std::atomic<uint64_t> id[MAX];
    std::atomic<uint32_t> by[MAX], progress[MAX];
    std::atomic<size_t> n{0};
    std::atomic<uint32_t> queued{0};
    pthread_t caller;
    std::atomic<unsigned> delay{0};
    std::atomic<uint64_t> noise{0};
};
static const uint64_t BADBIT = 1ull << 40;
static int apply_encode(void *src, size_t n, void **dst, size_t *dn, void *extra) {
    ApplyLog *l = (ApplyLog *) extra;
    uint64_t v = 0;
    if (n == sizeof v) memcpy(&v, src, sizeof v);
    size_t i = l->n.fetch_add(1, std::memory_order_relaxed);
    if (i < ApplyLog::MAX) {
        l->id[i].store(v, std::memory_order_relaxed);
        l->by[i].store(!pthread_equal(pthread_self(), l->caller), std::memory_order_relaxed);
        l->progress[i].store(l->queued.load(std::memory_order_relaxed), std::memory_order_relaxed);
    }
    unsigned d = l->delay.load(std::memory_order_relaxed);
    if (d) {
        uint64_t x = l->noise.fetch_add(0x9E3779B97F4A7C15ull, std::memory_order_relaxed); x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32;
        if (x % 4 == 0) sched_yield(); else if (x % 4 == 1) usleep((unsigned) (x >> 8) % d);
    }
    if (v & BADBIT) return HXHIM_ERROR;
    *dst = ::operator new(n); memcpy(*dst, src, n); *dn = n;
    return HXHIM_SUCCESS;
}
static int apply_decode(void *src, size_t n, void **dst, size_t *dn, void *) {
    *dst = ::operator new(n); memcpy(*dst, src, n); *dn = n;
    return HXHIM_SUCCESS;
}

static int async_gen(const double *, const size_t, double **buckets, size_t *size, void *) {
    *size = 4; *buckets = (double *) ::operator new[](sizeof(double) * 5);
    for (int i = 0; i <= 4; i++) (*buckets)[i] = i * 10.0;
    return HISTOGRAM_SUCCESS;
}

struct Async {
    Rng &r; Cfg cfg; Sess S; ApplyLog *log; std::string trace; int level;
    struct St { bool has = false; uint64_t v = 0; };                                  // what a GET may return
    struct KeyState { St settled; std::vector<uint64_t> pend; int seen = -1; };       // seen: last position known to be applied (-1: settled)
    std::map<Key, KeyState> ks;
    std::map<Key, std::array<long, 2>> due;                                           // results the next flush of puts owes: [failed, stored]
    std::map<uint64_t, long> want_applied;                                            // id -> permutations
    std::vector<Key> keys;
    uint64_t next = 1;
    long queued = 0, flushes = 0, hsettled = 0, hqueued = 0;

    Async(Rng &r, const Cfg &c) : r(r), cfg(c), log(new ApplyLog), level((int) r.below(3)) {}
    ~Async() { S.close(); delete log; }
    void note(const std::string &s) { if (trace.size() < 900) trace += s + "; "; }
    void bad(const std::string &k, const std::string &m) { out().fail(k, cfg.str() + " | " + m + " | history: " + trace); }
    bool open() {
        S.cfg = cfg;
        if (hxhim::Init(&S.hx, MPI_COMM_WORLD) != HXHIM_SUCCESS) return false;
        S.inited = true;
        if (!apply(&S.hx, cfg)) return false;
        if (hxhim_set_transform_function(&S.hx, HXHIM_DATA_POINTER, apply_encode, log, apply_decode, log) != HXHIM_SUCCESS) return false;
        if (hxhim_set_histogram_bucket_gen_function(&S.hx, async_gen, nullptr) != HXHIM_SUCCESS) return false;
        return S.opened = hxhim::Open(&S.hx) == HXHIM_SUCCESS;
    }
    Val obj(uint64_t id) { return mk(HXHIM_DATA_POINTER, id); }
    void owe(const Key &k, uint64_t id) {
        bool ok = !(id & BADBIT);
        due[k][ok]++;
        if (ok) ks[k].pend.push_back(id);
    }
    void one(Key k, uint64_t id, size_t pm) {
        if (pm & HXHIM_PUT_SPO) owe(k, id);
        if (pm & HXHIM_PUT_PSO) owe(Key{k.p, k.s}, id);
        want_applied[id] += !!(pm & HXHIM_PUT_SPO) + !!(pm & HXHIM_PUT_PSO);
        queued++;
        log->queued.store((uint32_t) queued, std::memory_order_relaxed);
    }
    uint64_t fresh() { uint64_t id = next++; if (r.chance(1, 12)) id |= BADBIT; return id; }
    size_t perms() { return r.chance(1, 5) ? (r.chance(1, 2) ? HXHIM_PUT_PSO : HXHIM_PUT_SPO | HXHIM_PUT_PSO) : HXHIM_PUT_SPO; }
    // a value that a histogram follows
    void tput() {
        Key k{vbyte("s" + std::to_string(r.below(3))), vbyte("h")}; Val o = vdbl((double) r.below(40));
        due[k][1]++; ks[k].pend.push_back((uint64_t) llround(as<double>(o))); hqueued++; queued++;
        note("tput");
        if (S.put(k.s, k.p, o) != HXHIM_SUCCESS) bad("async:put:refused", "a valid Put was refused");
    }
    static long sum(hxhim::Results *res, bool &any) {
        long n = 0; any = false;
        HXHIM_CXX_RESULTS_LOOP(res) { const char *nm = nullptr; size_t nl = 0, sz = 0, *c = nullptr; double *b = nullptr; if (res->Histogram(&nm, &nl, &b, &c, &sz) == HXHIM_SUCCESS) { any = true; for (size_t i = 0; i < sz; i++) n += (long) c[i]; } }
        return n;
    }
    void hist(bool all) {
        note("hist");
        for (size_t d = 0; d < cfg.per_server; d++) S.hist((int) d, "h");
        hxhim::Results *res = hxhim::FlushHistograms(&S.hx);
        bool any = false; long n = res ? sum(res, any) : -1;
        if (!res || res->Size() != cfg.per_server || (!any && hsettled)) bad("async:hist", "the HISTOGRAMs did not give one result each");
        else if (n < hsettled || n > hqueued || (all && n != hqueued)) bad("async:hist:count", "the histograms hold " + std::to_string(n) + " values, " + std::to_string(hsettled) + " flushed, " + std::to_string(hqueued) + " queued");
        // a result does not change any more, whatever the background worker does meanwhile
        if (r.chance(1, 2)) { jitter(r, level); if (res && sum(res, any) != n) bad("async:hist:changed", "a HISTOGRAM result changed after it was returned"); }
        hxhim::Results::Destroy(res);
    }
    void put() {
        if (r.chance(1, 5)) return tput();
        Key k = keys[r.below(keys.size())]; uint64_t id = fresh(); size_t pm = perms();
        one(k, id, pm);
        note("put");
        if (S.put(k.s, k.p, obj(id), pm) != HXHIM_SUCCESS) bad("async:put:refused", "a valid Put was refused");
    }
    void bput() {
        size_t n = 1 + r.below(7);
        std::vector<void *> s(n), p(n), o(n); std::vector<size_t> sl(n), pl(n), ol(n), pm(n); std::vector<T> st(n), pt(n), ot(n);
        for (size_t i = 0; i < n; i++) {
            Key k = keys[r.below(keys.size())]; uint64_t id = fresh(); pm[i] = perms();
            s[i] = S.keep(k.s.b); sl[i] = k.s.b.size(); st[i] = k.s.t; p[i] = S.keep(k.p.b); pl[i] = k.p.b.size(); pt[i] = k.p.t;
            Val v = obj(id); o[i] = S.keep(v.b); ol[i] = v.b.size(); ot[i] = v.t;
            one(k, id, pm[i]);
        }
        note("bput" + std::to_string(n));
        if (hxhim::BPut(&S.hx, s.data(), sl.data(), st.data(), p.data(), pl.data(), pt.data(), o.data(), ol.data(), ot.data(), pm.data(), n) != HXHIM_SUCCESS)
            bad("async:bput:refused", "a valid BPut was refused");
    }
    // all queued puts have now been applied
    void puts_done(const std::vector<Rec> &v, const char *what) {
        std::map<Key, std::array<long, 2>> got;
        long n = 0, owed = 0;
        for (auto &x : v) if (x.op == HXHIM_PUT) { got[Key{x.s, x.p}][x.status == HXHIM_SUCCESS]++; n++; }
        for (auto &d : due) owed += d.second[0] + d.second[1];
        if (n != owed) bad("async:results:count", std::string(what) + " returned " + std::to_string(n) + " PUT results for " + std::to_string(owed) + " queued");
        else if (got != due) bad("async:results:which", std::string(what) + " returned results of other PUTs than those queued, or other statuses");
        due.clear();
        for (auto &k : ks) { if (k.second.pend.size()) { k.second.settled.has = true; k.second.settled.v = k.second.pend.back(); k.second.pend.clear(); } k.second.seen = -1; }
        hsettled = hqueued;
        out().stat("put_results", n);
        flushes++;
        check_log(what);
    }
    size_t checked = 0;
    std::map<uint64_t, long> applied;
    void check_log(const char *what, bool all = true) {
        size_t n = log->n.load(std::memory_order_relaxed);
        for (; checked < n && checked < ApplyLog::MAX; checked++) {
            uint64_t id = log->id[checked].load(std::memory_order_relaxed);
            long c = ++applied[id];
            if (!want_applied.count(id)) bad("async:applied:unknown", "a datastore stored an object that was never queued");
            else if (c > want_applied[id]) bad("async:applied:twice", "object " + std::to_string(id & ~BADBIT) + " was stored " + std::to_string(c) + " times, queued " + std::to_string(want_applied[id]));
        }
        if (!all || n > ApplyLog::MAX) return;
        for (auto &w : want_applied) if (applied[w.first] != w.second) { bad("async:applied:lost", std::string(what) + " returned, but object " + std::to_string(w.first & ~BADBIT) + " was stored " + std::to_string(applied[w.first]) + " times of " + std::to_string(w.second)); break; }
    }
    static uint64_t id_of(const Val &o) { return o.t == HXHIM_DATA_DOUBLE ? (uint64_t) llround(as<double>(o)) : as<uint64_t>(o); }
    void check_get(const Rec &g, bool settled) {
        Key k{g.s, g.p};
        KeyState &st = ks[k];
        if (settled) {
            bool ok = g.status == HXHIM_SUCCESS;
            if (ok != st.settled.has || (ok && id_of(g.o) != st.settled.v)) bad("async:get", "after the flush " + show(k) + " reads " + show(g) + ", last queued " + std::to_string(st.settled.v));
            return;
        }
        int pos = -2;
        if (g.status != HXHIM_SUCCESS) pos = st.settled.has ? -2 : -1;
        else {
            uint64_t v = id_of(g.o);
            if (st.settled.has && v == st.settled.v) pos = -1;
            for (size_t i = 0; i < st.pend.size(); i++) if (st.pend[i] == v) pos = (int) i;
        }
        if (pos == -2) return bad("async:get:other", show(k) + " reads " + show(g) + ", neither the settled value nor a queued one");
        if (pos < st.seen) return bad("async:get:back", show(k) + " reads an older value than an earlier GET");
        st.seen = pos;
        out().stat(pos >= 0 ? "gets_of_unflushed_puts" : "gets_of_settled");
    }
    void gets(bool flush) {
        for (int i = 0, n = 1 + (int) r.below(4); i < n; i++) {
            Key k = keys[r.below(keys.size())];
            if (r.chance(1, 4)) k = Key{k.p, k.s};
            if (r.chance(1, 6)) k = Key{vbyte("s" + std::to_string(r.below(3))), vbyte("h")};
            if (S.get(k.s, k.p, HXHIM_DATA_POINTER) != HXHIM_SUCCESS) bad("async:get:refused", "a valid Get was refused");
        }
        if (!flush) return;
        note("flushgets");
        for (auto &g : collect(hxhim::FlushGets(&S.hx))) check_get(g, false);
    }
    void del() {
        // the order between a delete and unflushed puts is not determined, so only settled keys are deleted
        Key k = keys[r.below(keys.size())];
        if (!ks[k].pend.empty()) return;
        note("del");
        S.del(k.s, k.p);
        for (auto &d : collect(hxhim::FlushDeletes(&S.hx))) if (d.op != HXHIM_DELETE) bad("async:del", "FlushDeletes returned " + show(d));
        ks[k].settled = St();
    }
    void flush(int kind) {
        std::vector<Rec> v;
        switch (kind) {
            case 0: case 1: note("flushputs"); v = collect(hxhim::FlushPuts(&S.hx)); puts_done(v, "FlushPuts"); break;
            case 2: note("flush"); v = collect(hxhim::Flush(&S.hx)); puts_done(v, "Flush"); for (auto &g : v) if (g.op == HXHIM_GET) check_get(g, true); break;
            case 3: note("sync"); v = collect(hxhim::Sync(&S.hx)); puts_done(v, "Sync"); for (auto &g : v) if (g.op == HXHIM_GET) check_get(g, true); break;
            case 4:
                if (cfg.backend != MEM) return flush(2);
                note("change"); v = collect(hxhim::ChangeDatastoreName(&S.hx, "other" + std::to_string(r.below(3)), false, false, true)); puts_done(v, "ChangeDatastoreName");
                for (auto &k : ks) k.second.settled = St();
                hsettled = hqueued = 0;
                break;
        }
        if (kind >= 2) S.arena.clear();
    }
    void run() {
        for (int i = 0, n = 2 + (int) r.below(8); i < n; i++) keys.push_back(Key{vbyte("s" + std::to_string(r.below(5))), vbyte("p" + std::to_string(i))});
        for (auto &n : log->id) n.store(0, std::memory_order_relaxed);
        log->caller = pthread_self(); log->delay = level == 2 && r.chance(2, 3) ? 1 + (unsigned) r.below(300) : level ? (unsigned) r.below(40) : 0; log->noise = r.next();
        if (!open()) return bad("async:open", "Open failed");
        int steps = 1 + (int) r.below(r.chance(1, 4) ? 120 : 40), pause = (int) r.below(4);
        for (int i = 0; i < steps && log->n.load(std::memory_order_relaxed) < ApplyLog::MAX - 600; i++) {
            switch (r.below(16)) {
                case 0: case 1: case 2: case 3: case 4: case 5: case 6: put(); break;
                case 7: case 8: case 9: bput(); break;
                case 10: case 11: gets(true); break;
                case 12: r.chance(1, 2) ? gets(false) : del(); break;
                case 13: hist(false); break;
                default: flush((int) r.below(5)); break;
            }
            if (pause) jitter(r, level);
        }
        bool last = r.chance(1, 2);
        if (last) { flush((int) r.below(4)); hist(true); jitter(r, level); }
        // close, maybe with puts queued and in flight: it has to end, and nothing may be stored twice or after it
        if (S.close() != HXHIM_SUCCESS) bad("async:close", "Close failed");
        size_t n = log->n.load(std::memory_order_relaxed);
        check_log("Close", last);
        if (r.chance(1, 8)) { usleep(300); if (log->n.load(std::memory_order_relaxed) != n) bad("async:close:late", "an object was stored after Close returned"); }
        if (cfg.backend != MEM && !last) reopen();
        // what was observed: who applied which put, and how far the caller had come
        uint64_t h = 1; long w = 0;
        for (size_t i = 0; i < n && i < ApplyLog::MAX; i++) {
            uint64_t x[3] = {log->id[i].load(std::memory_order_relaxed), log->by[i].load(std::memory_order_relaxed), log->progress[i].load(std::memory_order_relaxed)};
            w += (long) x[1]; h = fnv(x, sizeof x, h);
        }
        out().stat("applied_by_worker", w); out().stat("applied_by_flush", (long) n - w); out().stat("puts", queued); out().stat("flushes", flushes);
        if (!last) out().stat("closed_with_puts_queued");
        if (queued >= 5 && cfg.async) { out().dist("nontrivial", h); out().dist("schedules", h); }
        out().sample(cfg.str() + " :: " + trace);
    }
    void reopen() {
        std::set<Key> all;
        for (auto &k : ks) all.insert(k.first);
        std::map<Key, KeyState> before = ks;
        Sess B; Cfg c = cfg; c.create = false; c.async = 0;
        if (!B.open(c)) return bad("async:reopen", "the datastores cannot be opened again");
        for (auto &k : all) B.get(k.s, k.p, HXHIM_DATA_POINTER);
        for (auto &g : collect(hxhim::FlushGets(&B.hx))) check_get(g, false);
    }
};

#include "conc_modes.hpp"

int main(int argc, char **argv) {
    Mpi mpi(&argc, &argv);
    Args a = Args::parse(argc, argv);
    run_cases(a, [&](long c, Rng &r) {
        if (a.mode == "async") {
            Cfg f;
            f.dir = a.dir; f.base = "a" + std::to_string(c); f.track = {"h"}; f.hwrite = false; f.first_n = 1;
            f.backend = r.chance(a.extra == "disk" ? 9 : 1, 10) ? (r.chance(1, 2) ? LDB : RDB) : MEM;
            f.per_server = 1 + r.below(4); f.hash = HASHES[1 + r.below(8)];
            f.ops = r.chance(1, 4) ? 1 : 1 + r.below(8); f.size = r.chance(1, 5) ? 1 + r.below(200) : 65536;
            f.async = r.chance(1, 3) ? 1 : r.chance(1, 8) ? 1000 : 1 + r.below(20);
            { Async m(r, f); m.run(); }
            if (f.backend != MEM) for (size_t d = 0; d < f.per_server; d++) rmtree(a.dir + "/" + f.base + "-" + std::to_string(d));
        } else run_mode(a, c, r, mpi);
    });
    out().done();
}
