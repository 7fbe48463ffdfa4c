// ------------------------------------------------------------------------------------------------------------ C26
// Several threads send requests to one datastore. Every request and what it returned is recorded with two stamps of a
// shared counter (relaxed, so that it orders nothing); the history has to be explained by a sequential one.
#include <memory>
#include <unordered_set>
#include "datastore/InMemory.hpp"
#include "datastore/LevelDB.hpp"
#include "datastore/RocksDB.hpp"
#include "message/Messages.hpp"
#include "datastore/transform.hpp"

struct LinOp {
    enum Kind { PUT, GET, DEL, LIST, COUNT, HIST, SYNC } kind;
    std::vector<int> keys;                 // GET, DEL, PUT
    std::vector<uint64_t> vals;            // PUT: written (0: a value that cannot be stored), GET: returned (0: none)
    std::vector<bool> ok;                  // PUT statuses
    std::vector<std::pair<int, uint64_t>> list; size_t limit = 0; bool last = false;
    long n = 0;                            // COUNT: puts, HIST: values
    uint64_t inv = 0, res = 0; int thread = 0;
};
struct LinState {
    std::vector<uint64_t> v; long puts = 0, hist = 0;
    uint64_t h() const { uint64_t x = fnv(v.data(), v.size() * 8); x = fnv(&puts, sizeof puts, x); return fnv(&hist, sizeof hist, x); }
};
// keys are numbered in the order in which the datastore keeps them; the last one belongs to the histogram
static bool lin_step(LinState &s, const LinOp &o, int hkey) {
    switch (o.kind) {
        case LinOp::PUT: for (size_t i = 0; i < o.keys.size(); i++) if (o.vals[i]) { s.v[o.keys[i]] = o.vals[i]; if (o.keys[i] == hkey) s.hist++; } s.puts += (long) o.keys.size(); return true;
        case LinOp::GET: for (size_t i = 0; i < o.keys.size(); i++) if (s.v[o.keys[i]] != o.vals[i]) return false; return true;
        case LinOp::DEL: for (int k : o.keys) s.v[k] = 0; return true;
        case LinOp::LIST: {
            size_t j = 0, n = s.v.size();
            for (size_t i = 0; i < n && j < o.limit; i++) {
                size_t k = o.last ? n - 1 - i : i;
                if (!s.v[k]) continue;
                if (j >= o.list.size() || o.list[j].first != (int) k || o.list[j].second != s.v[k]) return false;
                j++;
            }
            return j == o.list.size();
        }
        case LinOp::COUNT: return s.puts == o.n;
        case LinOp::HIST: return s.hist == o.n;
        default: return true;
    }
}
struct LinCheck {
    const std::vector<LinOp> &ops; int hkey; std::unordered_set<uint64_t> seen; long visited = 0; int best = 0;
    LinCheck(const std::vector<LinOp> &o, int hk) : ops(o), hkey(hk) {}
    // 1 explained, 0 not, -1 gave up
    int go(uint64_t done, const LinState &s, int depth) {
        best = std::max(best, depth);
        if (depth == (int) ops.size()) return 1;
        if (++visited > 3000000) return -1;
        uint64_t h = s.h(); h = fnv(&done, sizeof done, h);
        if (!seen.insert(h).second) return 0;
        uint64_t first_end = ~0ull;
        for (size_t i = 0; i < ops.size(); i++) if (!(done >> i & 1)) first_end = std::min(first_end, ops[i].res);
        int rc = 0;
        for (size_t i = 0; i < ops.size(); i++) {
            if (done >> i & 1 || ops[i].inv > first_end) continue;
            LinState n = s;
            if (!lin_step(n, ops[i], hkey)) continue;
            int x = go(done | 1ull << i, n, depth + 1);
            if (x == 1) return 1;
            if (x < 0) rc = -1;
        }
        return rc;
    }
};

struct LinShared { std::atomic<uint64_t> clock{1}, noise{0}; std::atomic<unsigned> delay{0}; std::atomic<int> ready{0}; };
static int lin_encode(void *src, size_t n, void **dst, size_t *dn, void *extra) {
    LinShared *l = (LinShared *) extra;
    uint64_t v = 0; if (n == sizeof v) memcpy(&v, src, n);
    unsigned d = l->delay.load(std::memory_order_relaxed);
    if (d) {
        uint64_t x = l->noise.fetch_add(0x9E3779B97F4A7C15ull, std::memory_order_relaxed); x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32;
        if (x % 3 == 0) sched_yield(); else if (x % 3 == 1) usleep((unsigned) (x >> 8) % d);
    }
    if (v & BADBIT) return HXHIM_ERROR;
    *dst = ::operator new(n); memcpy(*dst, src, n); *dn = n;
    return HXHIM_SUCCESS;
}

struct Linear {
    Rng &r; int backend; std::string path; std::string desc; LinShared sh;
    std::vector<Key> keys; int hkey;
    std::unique_ptr<::Datastore::Datastore> ds;
    std::vector<LinOp> all; std::mutex mx; // taken after the threads have finished their work
    static Blob ref(const Val &v) { return ReferenceBlob((void *) v.b.data(), v.b.size(), v.t); }
    Linear(Rng &r, int b, const std::string &p) : r(r), backend(b), path(p) {}
    void bad(const std::string &k, const std::string &m) { out().fail(k, desc + " | " + m); }
    Val obj(int key, uint64_t id) { return key == hkey ? vdbl((double) (id % 4) * 10 + 1) : mk(HXHIM_DATA_POINTER, id); }

    void perform(LinOp &o, std::deque<Val> &mem) {
        ::Datastore::Datastore *d = ds.get();
        auto stamp = [&]() { return sh.clock.fetch_add(1, std::memory_order_relaxed); };
        switch (o.kind) {
            case LinOp::PUT: {
                Message::Request::BPut q(o.keys.size());
                for (size_t i = 0; i < o.keys.size(); i++) { mem.push_back(o.keys[i] == hkey ? vdbl(o.vals[i] ? 5 : NAN) : mk(HXHIM_DATA_POINTER, o.vals[i] ? o.vals[i] : BADBIT)); q.add(ref(keys[o.keys[i]].s), ref(keys[o.keys[i]].p), ref(mem.back())); }
                o.inv = stamp(); auto *res = d->operate(&q); o.res = stamp();
                if (!res || res->count != o.keys.size()) bad("lin:put:count", "a BPUT request was answered with another number of results");
                else for (size_t i = 0; i < o.keys.size(); i++) if ((res->statuses[i] == DATASTORE_SUCCESS) != !!o.vals[i]) bad("lin:put:status", "a PUT has the wrong status");
                destruct(res); break;
            }
            case LinOp::GET: {
                Message::Request::BGet q(o.keys.size());
                for (int k : o.keys) q.add(ref(keys[k].s), ref(keys[k].p), HXHIM_DATA_POINTER);
                o.inv = stamp(); auto *res = d->operate(&q); o.res = stamp();
                if (!res || res->count != o.keys.size()) bad("lin:get:count", "a BGET request was answered with another number of results");
                else for (size_t i = 0; i < o.keys.size(); i++) o.vals.push_back(value(o.keys[i], res->statuses[i] == DATASTORE_SUCCESS, res->objects[i]));
                destruct(res); break;
            }
            case LinOp::DEL: {
                Message::Request::BDelete q(o.keys.size());
                for (int k : o.keys) q.add(ref(keys[k].s), ref(keys[k].p));
                o.inv = stamp(); auto *res = d->operate(&q); o.res = stamp();
                if (!res || res->count != o.keys.size()) bad("lin:del:count", "a BDELETE request was answered with another number of results");
                destruct(res); break;
            }
            case LinOp::LIST: {
                Message::Request::BGetOp q(1);
                q.add(ref(keys[0].s), ref(keys[0].p), HXHIM_DATA_POINTER, o.limit, o.last ? HXHIM_GETOP_LAST : HXHIM_GETOP_FIRST);
                o.inv = stamp(); auto *res = d->operate(&q); o.res = stamp();
                if (!res || res->count != 1) bad("lin:list:count", "a BGETOP request was answered with another number of results");
                else if (res->statuses[0] == DATASTORE_SUCCESS)
                    for (size_t j = 0; j < res->num_recs[0]; j++) {
                        std::string s((char *) res->subjects[0][j].data(), res->subjects[0][j].size()), p((char *) res->predicates[0][j].data(), res->predicates[0][j].size());
                        int k = -1; for (size_t i = 0; i < keys.size(); i++) if (keys[i].s.b == s && keys[i].p.b == p) k = (int) i;
                        o.list.push_back({k, value(k, true, res->objects[0][j])});
                    }
                destruct(res); break;
            }
            case LinOp::COUNT: { size_t np = 0; o.inv = stamp(); d->GetStats(nullptr, &np, nullptr, nullptr); o.res = stamp(); o.n = (long) np; break; }
            case LinOp::HIST: {
                Val h = vbyte("h"); Message::Request::BHistogram q(1); q.add(ref(h));
                o.inv = stamp(); auto *res = d->operate(&q); o.res = stamp();
                if (!res || res->count != 1 || res->statuses[0] != DATASTORE_SUCCESS) bad("lin:hist", "the histogram was not returned");
                else {
                    // whoever asked reads what came back while the datastore goes on working
                    sched_yield();
                    double *b = nullptr; size_t *c = nullptr, n = 0; res->histograms[0]->get(&b, &c, &n);
                    for (size_t i = 0; i < n; i++) o.n += (long) c[i];
                }
                destruct(res); break;
            }
            case LinOp::SYNC: o.inv = stamp(); if (d->Sync(false) != DATASTORE_SUCCESS) bad("lin:sync", "Sync failed"); o.res = stamp(); break;
        }
    }
    uint64_t value(int k, bool ok, const Blob &b) {
        if (!ok) return 0;
        uint64_t v = ~0ull;
        if (k == hkey) return b.size() == sizeof(double) ? 7 : v;
        if (b.size() == sizeof v) memcpy(&v, b.data(), sizeof v);
        return v;
    }
    void run() {
        int nk = 2 + (int) r.below(4);
        for (int i = 0; i < nk; i++) keys.push_back(Key{vbyte("s"), vbyte(std::string(1, (char) ('a' + i)))});
        hkey = nk; keys.push_back(Key{vbyte("t"), vbyte("h")});
        auto *cb = ::Datastore::Transform::default_callbacks();
        cb->encode[HXHIM_DATA_POINTER] = {lin_encode, &sh};
        cb->decode[HXHIM_DATA_POINTER] = {lin_encode, &sh};
        if (backend == MEM) ds.reset(new ::Datastore::InMemory(0, 0, cb));
        else if (backend == LDB) ds.reset(new ::Datastore::LevelDB(0, 0, cb, true));
        else ds.reset(new ::Datastore::RocksDB(0, 0, cb, true));
        if (!ds->Open(path)) return bad("lin:open", "Open failed");
        ::Histogram::Config hc{1, async_gen, nullptr};
        ds->AddHistogram("h", hc);
        sh.noise = r.next(); sh.delay = r.chance(1, 4) ? 0 : 1 + (unsigned) r.below(r.chance(1, 3) ? 120 : 15);
        int nt = 2 + (int) r.below(3), per = std::min(48 / nt, 6 + (int) r.below(14)), style = (int) r.below(4);
        desc = std::string(backend_name(backend)) + " threads=" + std::to_string(nt) + " keys=" + std::to_string(nk) + " delay=" + std::to_string(sh.delay);
        std::vector<std::vector<LinOp>> work(nt);
        uint64_t id = 100;
        for (int t = 0; t < nt; t++) for (int i = 0; i < per; i++) {
            LinOp o; o.thread = t;
            unsigned x = (unsigned) r.below(style == 0 ? 8 : 12);
            o.kind = x < 4 ? LinOp::PUT : x < 7 ? LinOp::GET : x == 7 ? LinOp::DEL : x == 8 ? LinOp::LIST : x == 9 ? LinOp::COUNT : x == 10 ? LinOp::HIST : LinOp::SYNC;
            if (o.kind <= LinOp::DEL) {
                int n = style == 1 ? nk : 1 + (int) r.below(4);
                for (int j = 0; j < n; j++) {
                    int k = style == 1 ? j : (int) r.below(keys.size());
                    o.keys.push_back(k);
                    // records of the histogram's key are all alike, only their number counts
                    if (o.kind == LinOp::PUT) o.vals.push_back(r.chance(1, 14) ? 0 : k == hkey ? 7 : ++id);
                }
            }
            if (o.kind == LinOp::LIST) { o.limit = r.chance(1, 2) ? 100 : 1 + r.below(4); o.last = r.chance(1, 2); }
            work[t].push_back(o);
        }
        std::vector<std::thread> th;
        std::vector<uint64_t> seeds; for (int t = 0; t < nt; t++) seeds.push_back(r.next());
        for (int t = 0; t < nt; t++) th.emplace_back([&, t]() {
            Rng tr(seeds[t]); std::deque<Val> mem; int lv = (int) tr.below(3);
            sh.ready.fetch_add(1, std::memory_order_relaxed);
            while (sh.ready.load(std::memory_order_relaxed) < nt) sched_yield();
            for (auto &o : work[t]) { perform(o, mem); jitter(tr, lv); }
        });
        for (auto &t : th) t.join();
        for (auto &w : work) all.insert(all.end(), w.begin(), w.end());
        // the final contents belong to the history
        std::deque<Val> mem; LinOp fin; fin.kind = LinOp::LIST; fin.limit = 1000; fin.thread = nt; perform(fin, mem); all.push_back(fin);
        LinOp cnt; cnt.kind = LinOp::COUNT; cnt.thread = nt; perform(cnt, mem); all.push_back(cnt);
        ds->Close(false);
        std::sort(all.begin(), all.end(), [](const LinOp &a, const LinOp &b) { return a.inv < b.inv; });
        LinState st; st.v.assign(keys.size(), 0);
        LinCheck ck(all, hkey);
        int rc = ck.go(0, st, 0);
        if (rc == 0) bad("lin:history", "no sequential order of the requests explains what they returned: " + text());
        if (rc < 0) out().stat("undecided");
        long overlaps = 0; uint64_t h = 7;
        for (size_t i = 0; i < all.size(); i++) {
            for (size_t j = i + 1; j < all.size(); j++) if (all[j].inv < all[i].res) overlaps++;
            uint64_t x[4] = {(uint64_t) all[i].thread, (uint64_t) all[i].kind, all[i].res - all[i].inv, 0}; h = fnv(x, sizeof x, h);
        }
        out().stat("requests", (long) all.size()); out().stat("overlapping_pairs", overlaps); out().stat("states_searched", ck.visited);
        if (overlaps > 3) { out().dist("nontrivial", h); out().dist("schedules", h); }
        out().sample(desc + " :: " + text());
    }
    std::string text() {
        static const char *const N[] = {"PUT", "GET", "DEL", "LIST", "COUNT", "HIST", "SYNC"};
        std::string s;
        for (auto &o : all) {
            s += "[" + std::to_string(o.inv) + "-" + std::to_string(o.res) + " t" + std::to_string(o.thread) + " " + N[o.kind];
            for (size_t i = 0; i < o.keys.size(); i++) s += " " + std::to_string(o.keys[i]) + (i < o.vals.size() ? "=" + std::to_string(o.vals[i]) : "");
            for (auto &l : o.list) s += " " + std::to_string(l.first) + ":" + std::to_string(l.second);
            if (o.kind == LinOp::COUNT || o.kind == LinOp::HIST) s += " " + std::to_string(o.n);
            s += "] ";
        }
        return s;
    }
};

// ------------------------------------------------------------------------------------------------------------ C12
// A child process writes through a session, records every operation in shared memory before it starts it and every
// acknowledgement after it, and is killed (by itself at a chosen point, or by the parent at some moment). The datastores
// are then opened by other children: as they are, and as a copy whose write-ahead logs end where the last fdatasync
// of the writer had reached, which is what is left when the machine loses everything not forced to storage.
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>

struct CrashShared {
    enum { OPS = 20000, FILES = 400, FOUND = 4000 };
    struct Op { int type, key; uint64_t id; } ops[OPS];          // 'p' put, 'd' delete, 'h' put of a value that a histogram follows, 'f' flushed, 'S' synced, 'C' closed, 'E' error, 'O' opened
    std::atomic<size_t> n;
    struct File { char path[240]; size_t synced; } files[FILES]; // how much of each log was forced to storage
    std::atomic<size_t> nfiles; std::atomic<long> syncs;
    struct Found { int key, ds; uint64_t id; bool ok, intact; } found[FOUND];
    std::atomic<size_t> nfound; std::atomic<int> opened;
    std::atomic<long> encodes, hist;                             // values in the histograms that were read
    long kill_encode, kill_sync; bool kill_before; bool armed;
};
static CrashShared *crash_shared = nullptr;
static void crash_log(int type, int key = 0, uint64_t id = 0) {
    CrashShared *c = crash_shared; size_t n = c->n.load();
    if (n >= CrashShared::OPS) return;
    c->ops[n] = {type, key, id}; c->n.store(n + 1);
}
static void crash_synced(int fd, bool before) {
    CrashShared *c = crash_shared;
    if (!c || !c->armed) return;
    char link[64], path[240]; snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t l = readlink(link, path, sizeof path - 1); if (l <= 0) return;
    path[l] = 0;
    if (l < 4 || strcmp(path + l - 4, ".log")) return;
    if (before) { long s = c->syncs.fetch_add(1) + 1; if (c->kill_sync == s && c->kill_before) kill(getpid(), SIGKILL); return; }
    struct stat st; if (fstat(fd, &st)) return;
    size_t i = 0, n = c->nfiles.load();
    for (; i < n; i++) if (!strcmp(c->files[i].path, path)) break;
    if (i == n) { if (n >= CrashShared::FILES) return; strcpy(c->files[n].path, path); c->files[n].synced = 0; c->nfiles.store(n + 1); }
    c->files[i].synced = (size_t) st.st_size;
    if (c->kill_sync == c->syncs.load() && !c->kill_before) kill(getpid(), SIGKILL);
}
extern "C" int fdatasync(int fd) { crash_synced(fd, true); int rc = (int) syscall(SYS_fdatasync, fd); if (rc == 0) crash_synced(fd, false); return rc; }
extern "C" int fsync(int fd) { crash_synced(fd, true); int rc = (int) syscall(SYS_fsync, fd); if (rc == 0) crash_synced(fd, false); return rc; }

static int crash_encode(void *src, size_t n, void **dst, size_t *dn, void *) {
    if (crash_shared && crash_shared->armed && crash_shared->encodes.fetch_add(1) + 1 == crash_shared->kill_encode) kill(getpid(), SIGKILL);
    *dst = ::operator new(n); memcpy(*dst, src, n); *dn = n;
    return HXHIM_SUCCESS;
}
static int pick_hash(hxhim_t *, void *, const size_t, void *, const size_t, void *args) { return *(int *) args; }

struct Crash {
    const Args &a; Rng &r; long c; Cfg cfg; CrashShared *sh; std::string trace; std::vector<Key> keys; uint64_t next = 1; bool heavy;
    // what may be found: the state of the last acknowledgement, and what was asked for since
    struct May { std::set<uint64_t> v; };                                                  // 0: absent
    std::vector<May> at_sync; bool synced = false;
    Crash(const Args &a, Rng &r, long c) : a(a), r(r), c(c) {
        sh = (CrashShared *) mmap(nullptr, sizeof(CrashShared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        crash_shared = sh;
    }
    ~Crash() { crash_shared = nullptr; munmap(sh, sizeof *sh); }
    void bad(const std::string &k, const std::string &m) { out().fail(k, cfg.str() + " | " + m + " | history: " + trace); }
    Val object(uint64_t id) {
        size_t n = 8 + (heavy ? id % 90000 : id % 7 == 0 ? id * 131 % 3000 : id % 40);
        std::string s(n, 0); memcpy(&s[0], &id, 8); for (size_t i = 8; i < n; i++) s[i] = (char) (id * 31 + i * (id | 1));
        return vptr(s);
    }
    bool reset() { memset((void *) sh, 0, sizeof *sh); return true; }
    bool session(Sess &S) {
        S.cfg = cfg;
        if (hxhim::Init(&S.hx, MPI_COMM_WORLD) != HXHIM_SUCCESS) return false;
        S.inited = true;
        if (!apply(&S.hx, S.cfg)) return false;
        hxhim_set_transform_function(&S.hx, HXHIM_DATA_POINTER, crash_encode, nullptr, crash_encode, nullptr);
        hxhim_set_histogram_bucket_gen_function(&S.hx, async_gen, nullptr);
        return true;
    }
    // ---- the writer (child)
    void writer(uint64_t seed, int steps, bool end_close) {
        Rng w(seed);
        Sess S;
        if (!session(S) || hxhim::Open(&S.hx) != HXHIM_SUCCESS) { crash_log('E', 1); _exit(3); }
        crash_log('O');
        sh->armed = true;
        for (int i = 0; i < steps; i++) {
            unsigned x = (unsigned) w.below(20);
            if (x < 14 && cfg.track.size() && w.chance(1, 4)) { crash_log('h'); if (S.put(vbyte("v" + std::to_string(w.below(9))), vbyte("h"), vdbl((double) w.below(40))) != HXHIM_SUCCESS) { crash_log('E', 2); _exit(3); } }
            else if (x < 12) { int k = (int) w.below(keys.size()); uint64_t id = next++; crash_log('p', k, id); Val o = object(id); if (S.put(keys[k].s, keys[k].p, o) != HXHIM_SUCCESS) { crash_log('E', 2); _exit(3); } }
            else if (x < 14) { int k = (int) w.below(keys.size()); crash_log('d', k); S.del(keys[k].s, keys[k].p); }
            else {
                hxhim::Results *res; int what;
                if (x < 18) { what = 'f'; res = hxhim::Flush(&S.hx); } else { what = 'S'; res = hxhim::Sync(&S.hx); }
                bool ok = true; size_t syncs = 0;
                for (auto &v : collect(res)) { if (v.op == HXHIM_PUT && v.status != HXHIM_SUCCESS) ok = false; if (v.op == HXHIM_SYNC) { syncs++; if (v.status != HXHIM_SUCCESS) ok = false; } }
                S.arena.clear();
                if (!ok || (what == 'S' && syncs != cfg.per_server)) { crash_log('E', 3); _exit(3); }
                crash_log(what);
            }
        }
        if (end_close) {
            hxhim::Results::Destroy(hxhim::Flush(&S.hx)); crash_log('f');
            if (S.close() != HXHIM_SUCCESS) { crash_log('E', 4); _exit(3); }
            crash_log('C');
        }
        else if (w.chance(1, 3)) S.close(); // queued work is dropped, what was flushed is acknowledged or not
        kill(getpid(), SIGKILL);
    }
    // ---- the reader (another child)
    void reader(const std::string &dir) {
        Sess S; Cfg keepc = cfg; cfg.dir = dir; cfg.create = false; cfg.async = 0;
        if (!session(S) || hxhim::Open(&S.hx) != HXHIM_SUCCESS) _exit(4);
        sh->opened = 1;
        auto add = [&](int key, int ds, const Rec &x) {
            size_t n = sh->nfound.load(); if (n >= CrashShared::FOUND) return;
            CrashShared::Found f{key, ds, 0, x.status == HXHIM_SUCCESS, false};
            if (f.ok && x.o.b.size() >= 8) { memcpy(&f.id, x.o.b.data(), 8); f.intact = x.o.b == object(f.id).b && x.o.t == HXHIM_DATA_POINTER; }
            sh->found[n] = f; sh->nfound.store(n + 1);
        };
        for (size_t k = 0; k < keys.size(); k++) {
            S.get(keys[k].s, keys[k].p, HXHIM_DATA_POINTER);
            for (auto &g : collect(hxhim::FlushGets(&S.hx))) add((int) k, -1, g);
        }
        if (cfg.track.size()) {
            for (size_t d = 0; d < cfg.per_server; d++) S.hist((int) d, "h");
            hxhim::Results *res = hxhim::FlushHistograms(&S.hx); bool any = false;
            sh->hist = Async::sum(res, any);
            hxhim::Results::Destroy(res);
        }
        S.close();
        // everything each datastore holds
        int target = 0;
        if (!session(S) || hxhim_set_hash_function(&S.hx, "pick", pick_hash, &target) != HXHIM_SUCCESS || hxhim::Open(&S.hx) != HXHIM_SUCCESS) _exit(5);
        for (target = 0; target < (int) cfg.per_server; target++) {
            // a listing that meets a stored histogram fails as a whole, so those with histograms go subject by subject
            std::set<Val> subjects; for (auto &k : keys) subjects.insert(k.s);
            if (cfg.track.empty()) S.getop(keys[0].s, keys[0].p, HXHIM_DATA_POINTER, 100000, HXHIM_GETOP_FIRST);
            else for (auto &s : subjects) S.getop(s, Val{"", HXHIM_DATA_UINT64}, HXHIM_DATA_POINTER, 100, HXHIM_GETOP_LOWEST);
            for (auto &g : collect(hxhim::FlushGetOps(&S.hx))) {
                if (g.status != HXHIM_SUCCESS) continue;
                int k = -2; for (size_t i = 0; i < keys.size(); i++) if (keys[i].s == g.s && keys[i].p == g.p) k = (int) i;
                add(k, target, g);
            }
        }
        S.close();
        cfg = keepc;
        _exit(0);
    }
    bool read(const std::string &dir, const char *what, const std::vector<May> &may, std::vector<uint64_t> *got, long hmin, long hmax) {
        sh->hist = 0; sh->nfound = 0; sh->opened = 0; sh->armed = false;
        pid_t p = fork();
        if (p == 0) { alarm(60); signal(SIGALRM, SIG_DFL); int fd = ::open("/dev/null", 1); dup2(fd, 1); reader(dir); }
        int st = 0; waitpid(p, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) { bad(std::string("crash:reopen:") + what, "the datastores cannot be read again (" + (WIFEXITED(st) ? "exit " + std::to_string(WEXITSTATUS(st)) : "signal " + std::to_string(WTERMSIG(st))) + ")"); return false; }
        std::vector<std::vector<uint64_t>> listed(keys.size());
        std::vector<uint64_t> cur(keys.size(), 0);
        size_t n = sh->nfound, gets = 0;
        for (size_t i = 0; i < n; i++) {
            auto &f = sh->found[i];
            if (f.key < 0) { bad(std::string("crash:appeared:") + what, "datastore " + std::to_string(f.ds) + " holds a record that was never written"); continue; }
            if (f.ok && !f.intact) bad(std::string("crash:damaged:") + what, "the object of " + show(keys[f.key]) + " is not one that was written");
            if (f.ds < 0) { cur[f.key] = f.ok ? f.id : 0; gets++; } else listed[f.key].push_back(f.id);
        }
        if (gets != keys.size()) bad("crash:gets", "the reader did not get one result for each key");
        for (size_t k = 0; k < keys.size(); k++) {
            if (!may[k].v.count(cur[k])) {
                std::string s; for (uint64_t v : may[k].v) s += " " + std::to_string(v);
                bad(std::string(cur[k] == 0 ? "crash:lost:" : "crash:other:") + what, show(keys[k]) + " holds " + std::to_string(cur[k]) + ", allowed:" + s);
            }
            if (listed[k].size() > 1 || (listed[k].size() == 1) != (cur[k] != 0) || (cur[k] && listed[k][0] != cur[k])) bad(std::string("crash:listing:") + what, "listing and GET of " + show(keys[k]) + " disagree");
        }
        if (cfg.track.size()) {
            long h = sh->hist; out().stat("histograms_checked");
            if (h < hmin || h > hmax) bad(std::string("crash:histogram:") + what, "the histograms hold " + std::to_string(h) + " values, " + std::to_string(hmin) + " were synced, " + std::to_string(hmax) + " put");
        }
        out().stat(std::string("keys_checked_") + what, (long) keys.size());
        if (got) *got = cur;
        return true;
    }
    void copy(const std::string &from, const std::string &to, const std::set<std::string> &old, long &cut) {
        mkdir(to.c_str(), 0777);
        DIR *dp = opendir(from.c_str()); if (!dp) return;
        while (dirent *e = readdir(dp)) {
            std::string n = e->d_name; if (n == "." || n == "..") continue;
            std::string f = from + "/" + n, t = to + "/" + n; struct stat st;
            if (lstat(f.c_str(), &st)) continue;
            if (S_ISDIR(st.st_mode)) { copy(f, t, old, cut); continue; }
            size_t len = (size_t) st.st_size;
            if (n.size() > 4 && n.substr(n.size() - 4) == ".log" && !old.count(f)) {
                size_t keep = 0; char *rp = realpath(f.c_str(), nullptr);
                for (size_t i = 0; i < sh->nfiles; i++) if (rp && !strcmp(sh->files[i].path, rp)) keep = sh->files[i].synced;
                free(rp);
                if (keep < len) { cut += (long) (len - keep); len = keep; }
            }
            int i = ::open(f.c_str(), O_RDONLY), o = ::open(t.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666); std::vector<char> b(65536);
            while (len > 0) { ssize_t x = ::read(i, b.data(), std::min(b.size(), len)); if (x <= 0) break; ssize_t y = ::write(o, b.data(), (size_t) x); (void) y; len -= (size_t) x; }
            ::close(i); ::close(o);
        }
        closedir(dp);
    }
    void logs(const std::string &d, std::set<std::string> &out_) {
        DIR *dp = opendir(d.c_str()); if (!dp) return;
        while (dirent *e = readdir(dp)) {
            std::string n = e->d_name; if (n == "." || n == "..") continue;
            std::string f = d + "/" + n; struct stat st; if (lstat(f.c_str(), &st)) continue;
            if (S_ISDIR(st.st_mode)) logs(f, out_); else if (n.size() > 4 && n.substr(n.size() - 4) == ".log") out_.insert(f);
        }
        closedir(dp);
    }
    void run() {
        cfg.dir = a.dir + "/cr" + std::to_string(c); mkdir(cfg.dir.c_str(), 0777);
        cfg.base = "d"; cfg.hwrite = cfg.hread = false; cfg.backend = r.chance(1, 2) ? LDB : RDB; cfg.per_server = 1 + r.below(3);
        cfg.hash = HASHES[1 + r.below(8)]; cfg.ops = 1 + r.below(10); cfg.async = r.chance(1, 4) ? 1 + r.below(6) : 0; cfg.size = 1 << 20;
        heavy = r.chance(1, a.thorough ? 12 : 40);
        if (r.chance(1, 2)) { cfg.hwrite = true; cfg.hread = true; cfg.first_n = 1; if (r.chance(2, 3)) cfg.track = {"h"}; }
        long hcur = 0;
        for (int i = 0, n = 3 + (int) r.below(10); i < n; i++) keys.push_back(Key{vbyte("k" + std::to_string(r.below(4))), vu64(i)});
        std::vector<uint64_t> cur(keys.size(), 0);
        int rounds = 1 + (int) r.below(3);
        for (int round = 0; round < rounds; round++) {
            reset();
            std::set<std::string> old; logs(cfg.dir, old);
            int steps = 2 + (int) r.below(60), how = (int) r.below(6); bool end_close = how == 0;
            if (how == 1) sh->kill_encode = 1 + (long) r.below((uint64_t) steps);
            if (how == 2) { sh->kill_sync = 1 + (long) r.below(4); sh->kill_before = r.chance(1, 2); }
            uint64_t seed = r.next();
            pid_t p = fork();
            if (p == 0) { alarm(60); signal(SIGALRM, SIG_DFL); int fd = ::open("/dev/null", 1); dup2(fd, 1); writer(seed, steps, end_close); _exit(9); }
            if (how == 3) { usleep((unsigned) r.below(12000)); kill(p, SIGKILL); }
            if (how == 4) { size_t at = 1 + r.below((uint64_t) steps); for (int i = 0; i < 200000 && sh->n < at; i++) { int st; if (waitpid(p, &st, WNOHANG) == p) { p = -1; break; } sched_yield(); } if (p > 0) kill(p, SIGKILL); }
            int st = 0; if (p > 0) waitpid(p, &st, 0);
            // rebuild what may be there
            std::vector<May> acked(keys.size()), since(keys.size());
            std::vector<uint64_t> live = cur, q = cur; for (size_t k = 0; k < keys.size(); k++) acked[k].v = {cur[k]};
            at_sync = acked; synced = false; bool opened = round > 0, err = false; long acks = 0, hput = hcur, hsync = hcur; size_t n = sh->n;
            for (size_t i = 0; i < n; i++) {
                auto &o = sh->ops[i];
                next = std::max(next, o.id + 1);
                if (o.type == 'p') { q[o.key] = o.id; acked[o.key].v.insert(o.id); at_sync[o.key].v.insert(o.id); }
                if (o.type == 'd') { q[o.key] = 0; acked[o.key].v.insert(0); at_sync[o.key].v.insert(0); }
                // deletes of a flush follow its puts, so a key with both is deleted; recomputed from the records since the last flush
                if (o.type == 'f' || o.type == 'S') {
                    q = live;
                    size_t j = i; while (j > 0 && sh->ops[j - 1].type != 'f' && sh->ops[j - 1].type != 'S') j--;
                    for (size_t x = j; x < i; x++) if (sh->ops[x].type == 'p') q[sh->ops[x].key] = sh->ops[x].id;
                    for (size_t x = j; x < i; x++) if (sh->ops[x].type == 'd') q[sh->ops[x].key] = 0;
                    live = q;
                }
                if (o.type == 'h') hput++;
                if (o.type == 'S' || o.type == 'C') { hsync = hput; acks++; synced = true; for (size_t k = 0; k < keys.size(); k++) { acked[k].v = {live[k]}; at_sync[k].v = {live[k]}; } }
                if (o.type == 'O') opened = true;
                if (o.type == 'E') err = true;
            }
            trace += "round" + std::to_string(round) + " kill=" + std::to_string(how) + " ops=" + std::to_string(n) + " acks=" + std::to_string(acks) + "; ";
            if (err) { bad("crash:writer", "the writer met an error (kind " + std::to_string(sh->ops[n - 1].key) + ")"); return; }
            if (!opened) { out().stat("killed_before_open"); if (round == 0) break; }
            long cut = 0; bool media = synced && !heavy;
            std::string lost = cfg.dir + "-media";
            if (media) copy(cfg.dir, lost, old, cut);
            out().stat("rounds"); out().stat("acks", acks); out().stat("log_syncs_seen", sh->syncs); out().stat("kill_" + std::to_string(how));
            uint64_t h = fnv(trace + cfg.str()); for (size_t i = 0; i < n; i++) h = fnv(&sh->ops[i], sizeof sh->ops[i], h);
            if (n > 5) out().dist("nontrivial", h);
            std::vector<uint64_t> got;
            bool ok = read(cfg.dir, "kill", acked, &got, hsync, hput);
            hcur = sh->hist;
            if (ok && media) { out().stat("media_crashes"); out().stat("unforced_bytes_dropped", cut); read(lost, "media", at_sync, nullptr, hsync, hput); }
            if (media) rmtree(lost);
            if (!ok) break;
            cur = got;
        }
        out().sample(cfg.str() + " :: " + trace);
        rmtree(cfg.dir);
    }
};

// Several ranks: what every rank's Sync acknowledged is forced to storage in the datastores of all of them.
struct RankSync {
    const Args &a; Rng &r; Mpi &mpi; Rng q; Crash k; Cfg cfg; std::string trace; std::map<int, uint64_t> live; uint64_t next = 1;
    enum { KEYS = 12 };
    RankSync(const Args &a, Rng &r, long c, Mpi &m) : a(a), r(r), mpi(m), q(r.next() + 31u * (unsigned) m.rank), k(a, r, c) { cfg.dir = a.dir + "/sy" + std::to_string(c); }
    void bad(const std::string &key, const std::string &m) { out().fail(key, cfg.str() + " | " + m + " | rank " + std::to_string(mpi.rank) + " of " + std::to_string(mpi.size) + ": " + trace); }
    static Key key(int rank, int i) { return Key{vbyte("r" + std::to_string(rank)), vu64((uint64_t) i)}; }
    void barrier() { MPI_Barrier(MPI_COMM_WORLD); }
    // one rank reads the stores of all ranks from a directory
    void audit(const std::string &dir, const char *what, size_t total, const std::vector<int> &where) {
        std::vector<uint64_t> mine(KEYS, 0), all((size_t) (KEYS * mpi.size));
        for (auto &x : live) mine[x.first] = x.second;
        MPI_Gather(mine.data(), KEYS, MPI_UINT64_T, all.data(), KEYS, MPI_UINT64_T, 0, MPI_COMM_WORLD);
        std::vector<int> ds((size_t) (KEYS * mpi.size));
        MPI_Gather(where.data(), KEYS, MPI_INT, ds.data(), KEYS, MPI_INT, 0, MPI_COMM_WORLD);
        if (mpi.rank == 0) {
            Sess S; Cfg g = cfg; g.dir = dir; g.mpi = false; g.per_server = total; g.cr = g.sr = 1; g.create = false; g.async = 0; S.cfg = g;
            int target = 0;
            if (hxhim::Init(&S.hx, MPI_COMM_SELF) != HXHIM_SUCCESS) return bad("sync:init", "Init failed");
            S.inited = true;
            if (!apply(&S.hx, g) || hxhim_set_hash_function(&S.hx, "pick", pick_hash, &target) != HXHIM_SUCCESS || hxhim::Open(&S.hx) != HXHIM_SUCCESS) return bad(std::string("sync:reopen:") + what, "the datastores cannot be read again");
            long n = 0; size_t seen = 0;
            for (target = 0; target < (int) total; target++) {
                S.getop(key(0, 0).s, key(0, 0).p, HXHIM_DATA_POINTER, 100000, HXHIM_GETOP_FIRST);
                for (auto &g : collect(hxhim::FlushGetOps(&S.hx))) {
                    if (g.status != HXHIM_SUCCESS) continue;
                    seen++;
                    bool known = false;
                    for (int x = 0; x < mpi.size && !known; x++) for (int i = 0; i < KEYS && !known; i++) known = key(x, i).s == g.s && key(x, i).p == g.p && ds[(size_t) (x * KEYS + i)] == target && all[(size_t) (x * KEYS + i)];
                    if (!known) bad(std::string("sync:appeared:") + what, "datastore " + std::to_string(target) + " holds " + show(g));
                }
            }
            size_t want = 0;
            for (int x = 0; x < mpi.size; x++) for (int i = 0; i < KEYS; i++) {
                uint64_t id = all[(size_t) (x * KEYS + i)]; target = ds[(size_t) (x * KEYS + i)];
                if (!id) continue;
                want++;
                S.get(key(x, i).s, key(x, i).p, HXHIM_DATA_POINTER);
                for (auto &g : collect(hxhim::FlushGets(&S.hx))) {
                    n++;
                    if (g.status != HXHIM_SUCCESS) bad(std::string("sync:lost:") + what, show(key(x, i)) + " of rank " + std::to_string(x) + " in datastore " + std::to_string(target) + " is lost");
                    else if (g.o.b != k.object(id).b) bad(std::string("sync:other:") + what, show(key(x, i)) + " of rank " + std::to_string(x) + " in datastore " + std::to_string(target) + " does not hold the last object");
                }
            }
            if (n != (long) want || seen != want) bad(std::string("sync:count:") + what, std::to_string(seen) + " records listed, " + std::to_string(want) + " expected");
            out().stat(std::string("keys_checked_") + what, n);
            S.close();
        }
        barrier();
    }
    void run() {
        k.heavy = false;
        cfg.backend = r.chance(1, 2) ? LDB : RDB; cfg.per_server = 1 + r.below(3); cfg.base = "d"; cfg.hread = false; cfg.hwrite = r.chance(1, 2); cfg.mpi = true;
        cfg.cr = 1 + r.below(3); cfg.sr = 1 + r.below(3); cfg.listeners = 1 + (int) r.below(2); cfg.hash = HASHES[1 + r.below(8)]; cfg.ops = 1 + r.below(8); cfg.async = r.chance(1, 4) ? 1 + r.below(4) : 0;
        if (mpi.rank == 0) mkdir(cfg.dir.c_str(), 0777);
        barrier();
        k.reset(); k.sh->armed = true;
        size_t total = 0; std::vector<int> where(KEYS, 0);
        int rounds = 1 + (int) r.below(3);
        {
            Sess S;
            if (!S.open(cfg)) { bad("sync:open", "session did not open"); MPI_Abort(MPI_COMM_WORLD, 1); }
            total = S.datastores();
            for (int i = 0; i < KEYS; i++) { Key x = key(mpi.rank, i); where[(size_t) i] = hxhim_hash(&S.hx, (void *) x.s.b.data(), x.s.b.size(), (void *) x.p.b.data(), x.p.b.size()); }
            for (int round = 0; round < rounds; round++) {
                std::map<int, uint64_t> put, del;
                auto flushed = [&]() { for (auto &x : put) live[x.first] = x.second; for (auto &x : del) live.erase(x.first); put.clear(); del.clear(); };
                for (int i = 0, n = (int) q.below(12); i < n; i++) {
                    int key_ = (int) q.below(KEYS); Key x = key(mpi.rank, key_);
                    unsigned y = (unsigned) q.below(10);
                    if (y < 7) { uint64_t id = next++ * 8 + (uint64_t) mpi.rank; S.put(x.s, x.p, k.object(id)); put[key_] = id; }
                    else if (y < 9) { S.del(x.s, x.p); del[key_] = 1; }
                    else { for (auto &g : S.flush()) if (g.op == HXHIM_PUT && g.status != HXHIM_SUCCESS) bad("sync:put", show(g)); flushed(); trace += "flush; "; }
                }
                // ranks arrive at different times
                if (q.chance(1, 2)) usleep((unsigned) q.below(4000));
                size_t syncs = 0, local = 0;
                for (auto &g : collect(hxhim::Sync(&S.hx))) {
                    if (g.op == HXHIM_SYNC) { syncs++; if (g.status != HXHIM_SUCCESS) bad("sync:status", show(g)); }
                    if (g.op == HXHIM_PUT && g.status != HXHIM_SUCCESS) bad("sync:put", show(g));
                }
                S.arena.clear(); flushed(); trace += "sync; ";
                for (size_t d = 0; d < total; d++) { int rank = -1, off = -1; (void) off; if (hxhim::GetDatastoreLocation(&S.hx, (int) d, &rank, &off) == HXHIM_SUCCESS && rank == mpi.rank) local++; }
                if (syncs != local) bad("sync:results", std::to_string(syncs) + " results of Sync for " + std::to_string(local) + " datastores of the rank");
                out().stat("syncs");
                barrier();
                // the machine is lost: of each log, what its owner had forced remains
                std::string lost = cfg.dir + "-media"; long cut = 0;
                if (mpi.rank == 0) mkdir(lost.c_str(), 0777);
                barrier();
                for (size_t d = 0; d < total; d++) {
                    int rank = -1, off = -1;
                    if (hxhim::GetDatastoreLocation(&S.hx, (int) d, &rank, &off) != HXHIM_SUCCESS || rank != mpi.rank) continue;
                    k.copy(cfg.dir + "/d-" + std::to_string(d), lost + "/d-" + std::to_string(d), {}, cut);
                }
                out().stat("unforced_bytes_dropped", cut);
                barrier();
                audit(lost, "media", total, where);
                if (mpi.rank == 0) rmtree(lost);
                barrier();
            }
            if (S.close() != HXHIM_SUCCESS) bad("sync:close", "Close failed");
        }
        barrier();
        audit(cfg.dir, "closed", total, where);
        if (mpi.rank == 0) rmtree(cfg.dir);
        out().dist("nontrivial", fnv(trace + cfg.str(), next));
        out().sample(cfg.str() + " :: " + trace);
    }
};

inline void run_mode(const Args &a, long c, Rng &r, Mpi &mpi) {
    if (a.mode == "linear") {
        int b = r.chance(a.extra == "disk" ? 9 : 1, 10) ? (r.chance(1, 2) ? LDB : RDB) : MEM;
        std::string p = a.dir + "/lin" + std::to_string(c);
        { Linear l(r, b, p); l.run(); }
        if (b != MEM) rmtree(p);
    }
    else if (a.mode == "sync") { RankSync k(a, r, c, mpi); k.run(); }
    else if (a.mode == "crash") { Crash k(a, r, c); k.run(); }
}
