// Lifecycle (C16), invalid requests (C17) and configuration sources (C19).
#include "sess.hpp"
#include "hxhim/private/hxhim.hpp"
#include <leveldb/db.h>
#include <rocksdb/db.h>
#include <fstream>
using namespace vf;


static void write_file(const std::string &f, const std::string &s) { std::ofstream o(f, std::ios::binary); o << s; }
static int custom_hash(hxhim_t *, void *s, const size_t sl, void *, const size_t, void *args) {
    // the user's function decides, and the user can be wrong
    const int *a = (const int *) args;
    if (sl && ((unsigned char *) s)[0] == '!') return a[1];
    return a[0] > 0 ? (int) (sl % (size_t) a[0]) : 0;
}

// --------------------------------------------------------------------------------------------------------- cycle
struct Cycle {
    Rng &r;
    std::string dir, trace;
    long id;
    std::vector<hxhim::Results *> held;
    std::deque<std::string> arena;
    int hargs2[2][2] = {{1, -1}, {1, -1}}; // one for each session

    Cycle(Rng &r, const std::string &d, long c) : r(r), dir(d + "/life" + std::to_string(c)), id(c) { mkdir(dir.c_str(), 0755); }
    ~Cycle() { rmtree(dir); }
    void note(const std::string &s) { if (trace.size() < 1200) trace += s + "; "; }
    void bad(const std::string &k, const std::string &m) { out().fail(k, m + " | " + trace); }
    void *keep(const std::string &s) { arena.push_back(s); arena.back().reserve(40); return (void *) arena.back().data(); }

    // what one session has: used to check that what it stored comes back
    struct St { hxhim_t hx{}; bool have = false, running = false; Cfg cfg; std::map<Key, Val> model; std::map<Key, Val> queued; bool usable = true; };

    void ops(St &s) {
        int n = (int) r.below(8);
        for (int i = 0; i < n; i++) {
            Val a = vbyte(rnd_bytes(r, 1 + r.below(4), 0)), b = rnd_val(r), c = rnd_val(r, 60, false);
            switch (r.below(7)) {
                case 0: case 1: case 2:
                    note("put");
                    if (hxhim::Put(&s.hx, keep(a.b), a.b.size(), a.t, keep(b.b), b.b.size(), b.t, keep(c.b), c.b.size(), c.t, HXHIM_PUT_SPO) != HXHIM_SUCCESS) bad("cycle:put", "valid Put refused");
                    s.queued[Key{a, b}] = c;
                    break;
                case 3: note("get"); hxhim::Get(&s.hx, keep(a.b), a.b.size(), a.t, keep(b.b), b.b.size(), b.t, c.t); break;
                case 4: note("getop"); hxhim::GetOp(&s.hx, keep(a.b), a.b.size(), a.t, keep(b.b), b.b.size(), b.t, c.t, r.below(5), (hxhim_getop_t) r.below(HXHIM_GETOP_INVALID + 1)); break;
                case 5: note("hist"); { std::string h = r.chance(1, 2) ? "h" : "none"; hxhim::Histogram(&s.hx, 0, (const char *) keep(h), h.size()); } break;
                default: note("del"); { std::string d = "gone"; hxhim::Delete(&s.hx, keep(d), 4, HXHIM_DATA_BYTE, keep(d), 4, HXHIM_DATA_BYTE); } break;
            }
        }
    }
    void keep_or_drop(hxhim::Results *res) {
        // a caller may look at results late, or after the session is gone, or never look
        if (!res) return;
        if (r.chance(1, 4)) { held.push_back(res); note("hold"); }
        else if (r.chance(1, 2)) collect(res);
        else hxhim::Results::Destroy(res);
    }
    void flush(St &s) {
        int k = (int) r.below(8);
        note("flush" + std::to_string(k));
        switch (k) {
            case 0: keep_or_drop(hxhim::FlushPuts(&s.hx)); break;
            case 1: keep_or_drop(hxhim::FlushGets(&s.hx)); return;
            case 2: keep_or_drop(hxhim::FlushGetOps(&s.hx)); return;
            case 3: keep_or_drop(hxhim::FlushDeletes(&s.hx)); return;
            case 4: keep_or_drop(hxhim::FlushHistograms(&s.hx)); return;
            case 5: keep_or_drop(hxhim::Sync(&s.hx)); break;
            default: keep_or_drop(hxhim::Flush(&s.hx)); break;
        }
        for (auto &q : s.queued) s.model[q.first] = q.second;
        s.queued.clear();
    }
    void verify(St &s) {
        if (!s.usable) return;
        for (auto &m : s.model) hxhim::Get(&s.hx, (void *) m.first.s.b.data(), m.first.s.b.size(), m.first.s.t, (void *) m.first.p.b.data(), m.first.p.b.size(), m.first.p.t, m.second.t);
        auto got = collect(hxhim::FlushGets(&s.hx));
        size_t found = 0;
        for (auto &g : got) {
            auto it = s.model.find(Key{g.s, g.p});
            if (it == s.model.end()) continue;
            if (g.status == HXHIM_SUCCESS && g.has_o && same(it->second, g.o)) found++;
        }
        out().stat("verified_records", (long) found);
        if (found < s.model.size()) bad("cycle:lost", std::to_string(found) + " of " + std::to_string(s.model.size()) + " stored records read back");
    }

    void run() {
        St s[2];
        leveldb::DB *ll = nullptr; rocksdb::DB *rl = nullptr;
        int nsess = r.chance(1, 3) ? 2 : 1;
        int steps = 6 + (int) r.below(25);
        std::map<std::string, int> uses;
        for (int step = 0; step < steps && out().fails < 20; step++) {
            St &t = s[r.below(nsess)];
            if (!t.have) {
                t = St();
                if (hxhim::Init(&t.hx, MPI_COMM_WORLD) != HXHIM_SUCCESS) { bad("cycle:init", "Init failed"); return; }
                t.have = true; note("init"); out().stat("inits");
                continue;
            }
            uint64_t x = r.below(100);
            if (!t.running) {
                if (x < 12) { note("close-unopened"); if (hxhim::Close(&t.hx) != HXHIM_SUCCESS) bad("cycle:close", "Close before Open failed"); t.have = false; out().stat("closed_unopened"); continue; }
                if (x < 20) { note("use-unopened"); if (hxhim::Flush(&t.hx)) bad("cycle:unopened", "Flush before Open returned results"); continue; }
                if (x < 26) { MPI_Comm c; int a, b; hxhim::GetMPI(&t.hx, &c, &a, &b); note("accessor-unopened"); size_t n; hxhim::GetDatastoreCount(&t.hx, &n); continue; }
                // open
                Cfg c;
                c.backend = (int) r.below(3); c.per_server = 1 + r.below(4); c.hash = HASHES[r.below(9)]; c.ops = 1 + r.below(6); c.size = r.chance(1, 3) ? 64 : 4096;
                c.async = r.chance(1, 3) ? 1 + r.below(4) : 0; c.mpi = r.chance(1, 4); c.listeners = 1 + (int) r.below(2);
                c.dir = dir; c.base = backend_name(c.backend) + std::to_string(r.below(2)) + (&t == s ? "" : "b"); c.post = r.chance(1, 3) ? ".db" : "";
                if (r.chance(1, 2)) c.track = {"h", "p"};
                c.first_n = r.below(4);
                c.hread = r.chance(1, 2); c.hwrite = r.chance(1, 2);
                bool expect = true;
                std::string why = "good";
                std::string path = dir + "/" + c.base + "-" + std::to_string(r.below(c.per_server)) + c.post;
                int kind = r.chance(1, 2) ? (int) r.below(8) : -1;
                bool never_open = false;
                if (c.backend == MEM && kind >= 0 && kind < 6) kind = -1;
                struct stat sb;
                switch (kind) {
                    case 0: c.dir = dir + "/file"; write_file(c.dir, "x"); expect = false; why = "prefix is a file"; break;
                    case 1: c.base = "missing" + std::to_string(step); c.create = false; expect = false; why = "no such datastore"; break;
                    case 2: if (stat(path.c_str(), &sb) != 0) { write_file(path, "not a database"); expect = false; why = "one path is a file"; } break;
                    case 3:
                        // locked by someone else: another handle in this process
                        if (c.backend == LDB) { leveldb::Options o; o.create_if_missing = true; if (!leveldb::DB::Open(o, path, &ll).ok()) ll = nullptr; }
                        else { rocksdb::Options o; o.create_if_missing = true; if (!rocksdb::DB::Open(o, path, &rl).ok()) rl = nullptr; }
                        if (ll || rl) { expect = false; why = "locked"; }
                        break;
                    case 4: if (stat(path.c_str(), &sb) == 0 && S_ISDIR(sb.st_mode)) { write_file(path + "/CURRENT", "garbage"); expect = false; why = "corrupted"; } break;
                    case 5: break;
                    case 6: never_open = true; why = "wrappers only"; break;
                    default: break;
                }
                if (!apply(&t.hx, c)) bad("cycle:options", "a valid option was refused");
                if (never_open) hxhim_set_open_init_datastore(&t.hx, 0);
                if (r.chance(1, 6)) { int *hargs = hargs2[&t == s ? 0 : 1]; hargs[0] = (int) c.per_server; hxhim_set_hash_function(&t.hx, "mine", custom_hash, hargs); }
                bool one = r.chance(1, 10) && kind == -1;
                std::string onep = dir + "/one" + (&t == s ? "" : "b") + backend_name(c.backend);
                if (one && c.backend != MEM) { expect = false; why = "OpenOne of a missing datastore"; struct stat q; if (stat(onep.c_str(), &q) == 0) { one = false; expect = true; why = "good"; } }
                note(std::string(one ? "openone(" : "open(") + c.str() + "," + why + ")");
                int rc = one ? hxhim::OpenOne(&t.hx, onep) : hxhim::Open(&t.hx);
                out().stat("opens_" + std::string(expect ? "good" : "bad"));
                out().dist("open_kinds", fnv(why + backend_name(c.backend)));
                if (expect && rc != HXHIM_SUCCESS) bad("cycle:open", "a valid Open failed: " + std::to_string(rc));
                if (!expect && rc == HXHIM_SUCCESS) bad("cycle:badopen", "Open succeeded although " + why);
                if (ll) { delete ll; ll = nullptr; }
                if (rl) { delete rl; rl = nullptr; }
                if (why == "one path is a file") unlink(path.c_str());
                if (why == "corrupted") rmtree(path);
                if (rc != HXHIM_SUCCESS) {
                    // the session is gone: closing again must be harmless
                    if (r.chance(1, 2)) { note("close-failed"); hxhim::Close(&t.hx); }
                    t.have = false;
                } else { t.running = true; t.cfg = c; t.usable = !never_open; t.model.clear(); t.queued.clear(); }
                continue;
            }
            if (x < 40) ops(t);
            else if (x < 62) { flush(t); if (t.queued.empty() && r.chance(1, 2)) verify(t); }
            else if (x < 72) {
                std::string nm = r.chance(1, 5) ? std::string("no/such/dir") : std::string(&t == s ? "c" : "d") + backend_name(t.cfg.backend) + std::to_string(r.below(3));
                note("change(" + nm + ")");
                keep_or_drop(hxhim::ChangeDatastoreName(&t.hx, nm, r.chance(1, 2), r.chance(1, 2), r.chance(1, 2)));
                t.model.clear(); t.queued.clear(); t.usable = false;
            } else if (x < 75) {
                note("changehash"); int *hargs = hargs2[&t == s ? 0 : 1]; { size_t n = 1; hxhim::GetDatastoreCount(&t.hx, &n); hargs[0] = (int) n; }
                keep_or_drop(hxhim::ChangeHash(&t.hx, std::string(&t == s ? "h" : "i") + backend_name(t.cfg.backend) + std::to_string(r.below(2)), custom_hash, hargs));
                t.model.clear(); t.queued.clear(); t.usable = false;
            } else if (x < 79) { note("reopen-running"); if (hxhim::Open(&t.hx) == HXHIM_SUCCESS) bad("cycle:reopen", "Open of a running session succeeded"); }
            else if (x < 82) { note("stats"); hxhim::GetPrintBufferContents(&t.hx, *std::unique_ptr<std::ostringstream>(new std::ostringstream)); }
            else {
                note(t.queued.empty() ? "close" : "close-with-work");
                if (hxhim::Close(&t.hx) != HXHIM_SUCCESS) bad("cycle:close", "Close failed");
                out().stat(t.queued.empty() ? "closed_idle" : "closed_with_work");
                t.have = t.running = false;
            }
            if (r.chance(1, 8) && !held.empty()) { note("late-results"); collect(held.back()); held.pop_back(); }
        }
        for (auto &t : s) if (t.have) { if (t.running && t.queued.empty()) verify(t); if (hxhim::Close(&t.hx) != HXHIM_SUCCESS) bad("cycle:close", "last Close failed"); if (hxhim::Close(&t.hx) == HXHIM_SUCCESS) bad("cycle:twice", "a second Close succeeded"); }
        for (auto *h : held) { if (r.chance(1, 2)) collect(h); else hxhim::Results::Destroy(h); }
        out().stat("steps", steps);
        out().dist("nontrivial", fnv(trace));
        out().sample(trace);
    }
};

// ------------------------------------------------------------------------------------------------------- invalid
// One valid history with a reference map; between its steps, calls that must be refused. Whatever was refused must not
// show up in any later result, and everything that was accepted must.
struct Invalid {
    Rng &r;
    Cfg cfg;
    Sess S;
    std::map<Key, Val> model;
    std::map<Key, Val> qputs;
    std::multiset<Key> rputs;   // records queued (a key may be written twice)
    std::multiset<Key> qgets, qdels;
    long qgetops = 0, qhists = 0;
    std::string trace;
    int hargs[2] = {1, -1};
    long refused = 0;
    std::set<std::string> kinds;

    Invalid(Rng &r, const Cfg &c) : r(r), cfg(c) {}
    void note(const std::string &s) { if (trace.size() < 900) trace += s + "; "; }
    void bad(const std::string &k, const std::string &m) { out().fail(k, cfg.str() + " | " + m + " | " + trace); }
    void must(const std::string &what, int rc) {
        note("!" + what);
        refused++; kinds.insert(what);
        if (rc != HXHIM_ERROR) bad("accepted:" + what, what + " returned " + std::to_string(rc));
    }
    Key key() { return Key{vbyte(std::string(1, (char) ('a' + r.below(4)))), r.chance(1, 2) ? vi32((int) r.below(3)) : vbyte(std::string(1, (char) ('p' + r.below(3))))}; }
    Key fresh() { return Key{vbyte("new" + std::to_string(r.below(1000000))), vbyte("p")}; }

    // calls with arguments that must be refused, made with data that would be visible if it was stored
    void invalid_op(hxhim_t *hx, bool live) {
        Key k = r.chance(1, 2) ? key() : fresh();
        Val o = vbyte("forbidden");
        void *s = S.keep(k.s.b), *p = S.keep(k.p.b), *ob = S.keep(o.b);
        size_t sl = k.s.b.size(), pl = k.p.b.size(), ol = o.b.size();
        T st = k.s.t, pt = k.p.t, ot = o.t;
        const int m = live ? (int) r.below(3) : 3; // which argument is spoilt
        const bool null = r.chance(1, 2);
        const char *an[] = {"subject", "predicate", "object", "session"};
        std::string how = std::string(an[m]) + (live ? null ? " null" : " empty" : "");
        if (m == 0) { if (null) s = nullptr; else sl = 0; }
        if (m == 1) { if (null) p = nullptr; else pl = 0; }
        if (m == 2) { if (null) ob = nullptr; else ol = 0; }
        const bool c = r.chance(1, 2);
        hxhim_t *H = hx;
        uint64_t x = r.below(24);
        size_t perm = 1 + r.below(63);
        // bulk: the element at position bi is the invalid one
        size_t n = 1 + r.below(4), bi = r.below(n);
        std::vector<void *> vs(n, s), vp(n, p), vo(n, ob); std::vector<size_t> vsl(n, sl), vpl(n, pl), vol(n, ol), vpm(n, perm), vn(n, 1); std::vector<T> vst(n, st), vpt(n, pt), vot(n, ot);
        std::vector<hxhim_getop_t> vg(n, HXHIM_GETOP_EQ);
        void *s0 = S.keep(k.s.b), *p0 = S.keep(k.p.b), *o0 = S.keep(o.b);
        for (size_t i = 0; i < n; i++) if (i != bi) { vs[i] = s0; vsl[i] = k.s.b.size(); vp[i] = p0; vpl[i] = k.p.b.size(); vo[i] = o0; vol[i] = o.b.size(); }
        // a bulk call with a missing array
        int na = live && r.chance(1, 3) ? (int) r.below(10) : -1;
        void **S_ = vs.data(), **P_ = vp.data(), **O_ = vo.data(); size_t *SL = vsl.data(), *PL = vpl.data(), *OL = vol.data(), *PM = vpm.data(), *NN = vn.data(); T *ST = vst.data(), *PT = vpt.data(), *OT = vot.data(); hxhim_getop_t *G = vg.data();
        switch (x) {
            case 0: case 1: return must("Put " + how, c ? hxhimPut(H, s, sl, st, p, pl, pt, ob, ol, ot, perm) : hxhim::Put(H, s, sl, st, p, pl, pt, ob, ol, ot, perm));
            case 2: if (m == 2) return; return must("Get " + how, c ? hxhimGet(H, s, sl, st, p, pl, pt, ot) : hxhim::Get(H, s, sl, st, p, pl, pt, ot));
            case 3: if (m == 2) return; return must("Delete " + how, c ? hxhimDelete(H, s, sl, st, p, pl, pt) : hxhim::Delete(H, s, sl, st, p, pl, pt));
            case 4: { if (m == 2 || (m == 1 && !null)) return; return must("GetOp " + how, c ? hxhimGetOp(H, s, sl, st, p, pl, pt, ot, 1, HXHIM_GETOP_EQ) : hxhim::GetOp(H, s, sl, st, p, pl, pt, ot, 1, HXHIM_GETOP_EQ)); }
            case 5: {
                const char *nm = "h"; int ds = 0; size_t nl = 1; std::string w;
                if (live) switch (r.below(4)) { case 0: ds = -1; w = "negative"; break; case 1: ds = (int) S.datastores(); w = "one too far"; break; case 2: ds = 0x7fffffff; w = "far"; break; default: nm = nullptr; nl = 3; w = "no name"; }
                return must("Histogram " + w, c ? hxhimHistogram(H, ds, nm, nl) : hxhim::Histogram(H, ds, nm, nl));
            }
            case 6: case 7: case 8: {
                if (na >= 0) { int z = na; how = "array " + std::to_string(z); void *d = nullptr; (void) d; if (z == 0) S_ = nullptr; if (z == 1) SL = nullptr; if (z == 2) ST = nullptr; if (z == 3) P_ = nullptr; if (z == 4) PL = nullptr; if (z == 5) PT = nullptr; if (z == 6) O_ = nullptr; if (z == 7) OL = nullptr; if (z == 8) OT = nullptr; if (z == 9) PM = nullptr; vs[bi] = s0; vsl[bi] = k.s.b.size(); vp[bi] = p0; vpl[bi] = k.p.b.size(); vo[bi] = o0; vol[bi] = o.b.size(); }
                return must("BPut " + how, c ? hxhimBPut(H, S_, SL, ST, P_, PL, PT, O_, OL, OT, PM, n) : hxhim::BPut(H, S_, SL, ST, P_, PL, PT, O_, OL, OT, PM, n));
            }
            case 9: {
                if (na >= 0) { int z = na % 7; how = "array " + std::to_string(z); if (z == 0) S_ = nullptr; if (z == 1) SL = nullptr; if (z == 2) ST = nullptr; if (z == 3) P_ = nullptr; if (z == 4) PL = nullptr; if (z == 5) PT = nullptr; if (z == 6) OT = nullptr; vs[bi] = s0; vsl[bi] = k.s.b.size(); vp[bi] = p0; vpl[bi] = k.p.b.size(); }
                else if (m == 2) return;
                return must("BGet " + how, c ? hxhimBGet(H, S_, SL, ST, P_, PL, PT, OT, n) : hxhim::BGet(H, S_, SL, ST, P_, PL, PT, OT, n));
            }
            case 10: {
                if (na >= 0) { int z = na % 6; how = "array " + std::to_string(z); if (z == 0) S_ = nullptr; if (z == 1) SL = nullptr; if (z == 2) ST = nullptr; if (z == 3) P_ = nullptr; if (z == 4) PL = nullptr; if (z == 5) PT = nullptr; vs[bi] = s0; vsl[bi] = k.s.b.size(); vp[bi] = p0; vpl[bi] = k.p.b.size(); }
                else if (m == 2) return;
                return must("BDelete " + how, c ? hxhimBDelete(H, S_, SL, ST, P_, PL, PT, n) : hxhim::BDelete(H, S_, SL, ST, P_, PL, PT, n));
            }
            case 11: {
                if (na >= 0) { int z = na % 9; how = "array " + std::to_string(z); if (z == 0) S_ = nullptr; if (z == 1) SL = nullptr; if (z == 2) ST = nullptr; if (z == 3) P_ = nullptr; if (z == 4) PL = nullptr; if (z == 5) PT = nullptr; if (z == 6) OT = nullptr; if (z == 7) NN = nullptr; if (z == 8) G = nullptr; vs[bi] = s0; vsl[bi] = k.s.b.size(); vp[bi] = p0; vpl[bi] = k.p.b.size(); }
                else if (m == 2 || (m == 1 && !null)) return;
                return must("BGetOp " + how, c ? hxhimBGetOp(H, S_, SL, ST, P_, PL, PT, OT, NN, G, n) : hxhim::BGetOp(H, S_, SL, ST, P_, PL, PT, OT, NN, G, n));
            }
            case 12: {
                std::vector<int> ds(n, 0); std::vector<const char *> nm(n, "h"); std::vector<size_t> nl(n, 1); std::string w = "session";
                int *D = ds.data(); const char **N = nm.data(); size_t *L = nl.data();
                if (live) switch (r.below(6)) { case 0: ds[bi] = -1; w = "negative"; break; case 1: ds[bi] = (int) S.datastores(); w = "one too far"; break; case 2: nm[bi] = nullptr; w = "no name"; break; case 3: D = nullptr; w = "array 0"; break; case 4: N = nullptr; w = "array 1"; break; default: L = nullptr; w = "array 2"; }
                return must("BHistogram " + w, c ? hxhimBHistogram(H, D, N, L, n) : hxhim::BHistogram(H, D, N, L, n));
            }
            case 13: { if (live && m != 0 && m != 1) return; double d = 1.5; float f = 1.5f; (void) f; return must("PutDouble " + how, c ? hxhimPutDouble(H, s, sl, st, p, pl, pt, &d, perm) : hxhim::PutDouble(H, s, sl, st, p, pl, pt, &d, perm)); }
            case 14: { if (live && m != 0 && m != 1) return; return must("GetFloat " + how, c ? hxhimGetFloat(H, s, sl, st, p, pl, pt) : hxhim::GetFloat(H, s, sl, st, p, pl, pt)); }
            case 15: { if (live && m != 2) return; return must("PutFloat no object", c ? hxhimPutFloat(H, s, sl, st, p, pl, pt, nullptr, perm) : hxhim::PutFloat(H, s, sl, st, p, pl, pt, nullptr, perm)); }
            case 18: case 19: case 20: case 21: {
                // bulk forms for objects of one type
                const int form = (int) r.below(9), kind = form % 3; const bool get = kind == 1, getop = kind == 2, single = form < 3, dbl = form < 6;
                const char *fn[] = {"BPutSingleType ", "BGetSingleType ", "BGetOpSingleType ", "BPutDouble ", "BGetDouble ", "BGetOpDouble ", "BPutFloat ", "BGetFloat ", "BGetOpFloat "};
                double d0 = 2.5; float f0 = 2.5f; std::vector<double *> vd(n, &d0); std::vector<float *> vf_(n, &f0); double **DD = vd.data(); float **FF = vf_.data();
                if (na >= 0) {
                    int z = na % 8; how = "array " + std::to_string(z);
                    vs[bi] = s0; vsl[bi] = k.s.b.size(); vp[bi] = p0; vpl[bi] = k.p.b.size(); vo[bi] = o0; vol[bi] = o.b.size();
                    if (z == 0) S_ = nullptr; if (z == 1) SL = nullptr; if (z == 2) ST = nullptr; if (z == 3) P_ = nullptr; if (z == 4) PL = nullptr; if (z == 5) PT = nullptr;
                    if (z == 6) { if (get) return; O_ = nullptr; DD = nullptr; FF = nullptr; NN = nullptr; }
                    if (z == 7) { if (get) return; PM = nullptr; G = nullptr; }
                } else if (m == 2) { if (get || getop || (!single && !null)) return; vd[bi] = nullptr; vf_[bi] = nullptr; }
                else if (getop && m == 1 && !null) return;
                how = fn[form] + how;
                if (kind == 0) {
                    if (single) return must(how, c ? hxhimBPutSingleType(H, S_, SL, ST, P_, PL, PT, O_, OL, ot, PM, n) : hxhim::BPutSingleType(H, S_, SL, ST, P_, PL, PT, O_, OL, ot, PM, n));
                    if (dbl) return must(how, c ? hxhimBPutDouble(H, S_, SL, ST, P_, PL, PT, DD, PM, n) : hxhim::BPutDouble(H, S_, SL, ST, P_, PL, PT, DD, PM, n));
                    return must(how, c ? hxhimBPutFloat(H, S_, SL, ST, P_, PL, PT, FF, PM, n) : hxhim::BPutFloat(H, S_, SL, ST, P_, PL, PT, FF, PM, n));
                }
                if (get) {
                    if (single) return must(how, c ? hxhimBGetSingleType(H, S_, SL, ST, P_, PL, PT, ot, n) : hxhim::BGetSingleType(H, S_, SL, ST, P_, PL, PT, ot, n));
                    if (dbl) return must(how, c ? hxhimBGetDouble(H, S_, SL, ST, P_, PL, PT, n) : hxhim::BGetDouble(H, S_, SL, ST, P_, PL, PT, n));
                    return must(how, c ? hxhimBGetFloat(H, S_, SL, ST, P_, PL, PT, n) : hxhim::BGetFloat(H, S_, SL, ST, P_, PL, PT, n));
                }
                if (single) return must(how, c ? hxhimBGetOpSingleType(H, S_, SL, ST, P_, PL, PT, ot, NN, G, n) : hxhim::BGetOpSingleType(H, S_, SL, ST, P_, PL, PT, ot, NN, G, n));
                if (dbl) return must(how, c ? hxhimBGetOpDouble(H, S_, SL, ST, P_, PL, PT, NN, G, n) : hxhim::BGetOpDouble(H, S_, SL, ST, P_, PL, PT, NN, G, n));
                return must(how, c ? hxhimBGetOpFloat(H, S_, SL, ST, P_, PL, PT, NN, G, n) : hxhim::BGetOpFloat(H, S_, SL, ST, P_, PL, PT, NN, G, n));
            }
            default: {
                // the user's hash function sends this somewhere that does not exist
                if (!live || cfg.hash != "mine") return;
                static const int wrong[] = {-1, -2, 1000, 0x7fffffff, (int) 0x80000000};
                hargs[1] = r.chance(1, 3) ? (int) S.datastores() : wrong[r.below(5)];
                Val ws = vbyte("!" + std::to_string(r.below(10)));
                void *w = S.keep(ws.b);
                switch (r.below(6)) {
                    case 0: return must("Get nowhere", hxhim::Get(H, w, ws.b.size(), ws.t, p0, k.p.b.size(), pt, ot));
                    case 1: return must("Delete nowhere", hxhim::Delete(H, w, ws.b.size(), ws.t, p0, k.p.b.size(), pt));
                    case 2: return must("GetOp nowhere", hxhim::GetOp(H, w, ws.b.size(), ws.t, p0, k.p.b.size(), pt, ot, 1, HXHIM_GETOP_EQ));
                    case 3: // another order of the triple may have a place
                        return must("Put nowhere", hxhim::Put(H, s0, k.s.b.size(), st, p0, k.p.b.size(), pt, w, ws.b.size(), ws.t, HXHIM_PUT_ALL));
                    case 4: {
                        vs.assign(n, s0); vsl.assign(n, k.s.b.size()); vp.assign(n, p0); vpl.assign(n, k.p.b.size()); vs[bi] = w; vsl[bi] = ws.b.size(); vst[bi] = ws.t;
                        for (size_t i = 0; i < n; i++) if (i != bi) qgets.insert(k);
                        if (r.chance(1, 3)) return must("BGetSingleType nowhere", hxhim::BGetSingleType(H, vs.data(), vsl.data(), vst.data(), vp.data(), vpl.data(), vpt.data(), ot, n));
                        return must("BGet nowhere", hxhim::BGet(H, vs.data(), vsl.data(), vst.data(), vp.data(), vpl.data(), vpt.data(), vot.data(), n));
                    }
                    default: {
                        vs.assign(n, s0); vsl.assign(n, k.s.b.size()); vp.assign(n, p0); vpl.assign(n, k.p.b.size()); vpm.assign(n, HXHIM_PUT_SPO); Val o2 = vbyte("bulk"); vo.assign(n, S.keep(o2.b)); vol.assign(n, 4); vs[bi] = w; vsl[bi] = ws.b.size(); vst[bi] = ws.t;
                        // the other elements are valid
                        for (size_t i = 0; i < n; i++) if (i != bi) { rputs.insert(k); qputs[k] = o2; }
                        if (r.chance(1, 3)) return must("BPutSingleType nowhere", hxhim::BPutSingleType(H, vs.data(), vsl.data(), vst.data(), vp.data(), vpl.data(), vpt.data(), vo.data(), vol.data(), vot[0], vpm.data(), n));
                        return must("BPut nowhere", hxhim::BPut(H, vs.data(), vsl.data(), vst.data(), vp.data(), vpl.data(), vpt.data(), vo.data(), vol.data(), vot.data(), vpm.data(), n));
                    }
                }
            }
        }
    }
    static int never(hxhim_t *, void *, const size_t, void *, const size_t, void *) { return -1; }
    static int no_code(void *, std::size_t, void **, std::size_t *, void *) { return HXHIM_ERROR; }
    static int no_gen(const double *, const size_t, double **, size_t *, void *) { return HISTOGRAM_ERROR; }
    void invalid_option(hxhim_t *hx) {
        switch (r.below(27)) {
            case 0: return must("option debug", hxhim_set_debug_level(hx, MLOG_DBG3));
            case 1: return must("option client ratio", hxhim_set_client_ratio(hx, 1 + r.below(5)));
            case 2: return must("option server ratio", hxhim_set_server_ratio(hx, 1 + r.below(5)));
            case 3: return must("option datastores", hxhim_set_datastores_per_server(hx, 1 + r.below(9)));
            case 4: return must("option open init", hxhim_set_open_init_datastore(hx, 0));
            case 5: return must("option histograms", hxhim_datastore_histograms(hx, 0, 0));
            case 6: return must("option name", hxhim_set_datastore_name(hx, "/", "x", "y"));
            case 7: return must("option memory", hxhim_set_datastore_in_memory(hx));
            case 8: return must("option leveldb", hxhim_set_datastore_leveldb(hx, 0));
            case 9: return must("option rocksdb", hxhim_set_datastore_rocksdb(hx, 0));
            case 10: return must("option hash name", hxhim_set_hash_name(hx, HASHES[r.below(9)]));
            case 11: return must("option hash function", hxhim_set_hash_function(hx, "never", never, nullptr));
            case 12: return must("option numeric", hxhim_set_transform_numeric_values(hx, '0', '1', 1, 2));
            case 13: return must("option transform", hxhim_set_transform_function(hx, HXHIM_DATA_BYTE, no_code, nullptr, no_code, nullptr));
            case 14: return must("option null transport", hxhim_set_transport_null(hx));
            case 15: return must("option mpi transport", hxhim_set_transport_mpi(hx, 1));
            case 16: return must("option endpoint", hxhim_add_endpoint_to_group(hx, (int) r.below(3)));
            case 17: return must("option clear endpoints", hxhim_clear_endpoint_group(hx));
            case 18: return must("option async", hxhim_set_start_async_puts_at(hx, r.below(4)));
            case 19: return must("option ops", hxhim_set_maximum_ops_per_request(hx, 1 + r.below(3)));
            case 20: return must("option size", hxhim_set_maximum_size_per_request(hx, r.below(3)));
            case 21: return must("option first n", hxhim_set_histogram_first_n(hx, r.below(3)));
            case 22: return must("option generator name", hxhim_set_histogram_bucket_gen_name(hx, "RICE_RULE"));
            case 23: return must("option generator", hxhim_set_histogram_bucket_gen_function(hx, no_gen, nullptr));
            case 24: return must("option track", r.chance(1, 2) ? hxhim_add_histogram_track_predicate(hx, "zz", 2) : hxhim_add_histogram_track_predicate(hx, std::string("zz")));
            case 25: return must("option communicator", hxhim_set_mpi_bootstrap(hx, MPI_COMM_SELF));
            default: return must("open again", hxhim::Open(hx));
        }
    }
    void null_things(hxhim_t *hx) {
        // hx is null, never initialised, initialised but not open, or closed
        switch (r.below(11)) {
            case 0: if (auto *x = hxhim::Flush(hx)) bad("unopened:flush", "Flush of a session that is not open returned a list"), hxhim::Results::Destroy(x); break;
            case 1: if (auto *x = hxhim::FlushPuts(hx)) bad("unopened:flush", "FlushPuts of a session that is not open returned a list"), hxhim::Results::Destroy(x); break;
            case 2: if (auto *x = hxhim::FlushGets(hx)) bad("unopened:flush", "FlushGets of a session that is not open returned a list"), hxhim::Results::Destroy(x); break;
            case 3: if (auto *x = hxhim::FlushGetOps(hx)) bad("unopened:flush", "FlushGetOps of a session that is not open returned a list"), hxhim::Results::Destroy(x); break;
            case 4: if (auto *x = hxhim::FlushDeletes(hx)) bad("unopened:flush", "FlushDeletes of a session that is not open returned a list"), hxhim::Results::Destroy(x); break;
            case 5: if (auto *x = hxhim::FlushHistograms(hx)) bad("unopened:flush", "FlushHistograms of a session that is not open returned a list"), hxhim::Results::Destroy(x); break;
            case 6: if (auto *x = hxhim::Sync(hx)) bad("unopened:sync", "Sync of a session that is not open returned a list"), hxhim::Results::Destroy(x); break;
            case 7: if (auto *x = hxhim::ChangeDatastoreName(hx, "n", true, true, true)) bad("unopened:change", "ChangeDatastoreName of a session that is not open returned a list"), hxhim::Results::Destroy(x); break;
            case 8: if (auto *x = hxhim::ChangeHash(hx, "n", never, nullptr)) bad("unopened:change", "ChangeHash of a session that is not open returned a list"), hxhim::Results::Destroy(x); break;
            case 9: { auto *x = hxhimFlush(hx); size_t n = 0; if (x && hxhim_results_size(x, &n) == HXHIM_SUCCESS && n) bad("unopened:flush", "hxhimFlush of a session that is not open returned results"); if (x && hxhim_results_valid_iterator(x) == HXHIM_SUCCESS) bad("unopened:flush", "hxhimFlush of a session that is not open returned a result"); hxhim_results_destroy(x); break; }
            default: invalid_op(hx, false); return;
        }
        refused++; note("!flush unopened");
    }

    // how a fixed list of operations is split into requests: depends on the limits and the hash of the session
    std::string split() {
        flush(true);
        std::string s;
        if (cfg.hash == "mine") hargs[1] = -1;
        for (int i = 0; i < 12; i++) S.get(vbyte("split" + std::to_string(i % 5)), vi32(i), HXHIM_DATA_BYTE);
        for (auto &q : S.hx.p->queues.gets) { for (auto *x : q) s += std::to_string(x->count) + ","; s += "/"; }
        auto got = S.flush();
        for (auto &g : got) s += std::to_string(g.rs) + " ";
        s += std::to_string(S.hx.p->async_puts.enabled) + (S.hx.p->async_puts.enabled ? std::to_string(S.hx.p->async_puts.max_queued) : "");
        return s;
    }
    // the tracked predicate has the buckets of its configuration after count values
    void histogram(const std::string &when, bool fresh) {
        flush(true);
        Key k{vbyte("numbers"), vbyte("tracked")};
        for (int i = 0; fresh && i < 3; i++) { Val o = vdbl(i); S.put(k.s, k.p, o); auto got = S.flush(); if (got.size() != 1 || got[0].status != HXHIM_SUCCESS) bad("track:put", when); else where = got[0].rs; model[k] = o; }
        S.hist(where, "tracked");
        auto got = collect(hxhim::FlushHistograms(&S.hx));
        if (got.size() != 1 || got[0].status != HXHIM_SUCCESS || !got[0].has_h) return bad("track:missing", when + ": no histogram of the tracked predicate");
        size_t n = 0; for (auto c : got[0].counts) n += c;
        if (got[0].buckets.size() != 10 || n != 3) bad("track:changed", when + ": the histogram has " + std::to_string(got[0].buckets.size()) + " buckets and " + std::to_string(n) + " values instead of 10 and 3");
    }
    int where = 0;

    void flush(bool all) {
        std::vector<Rec> got = all ? S.flush() : collect(hxhim::FlushPuts(&S.hx));
        note(all ? "Flush" : "FlushPuts");
        for (auto &q : qputs) model[q.first] = q.second;
        long np = 0, ng = 0, nd = 0, no = 0, nh = 0;
        for (auto &g : got) {
            if (g.s.b == "forbidden" || g.p.b == "forbidden" || (g.s.b.size() && g.s.b[0] == '!') || (g.has_o && g.o.b == "forbidden")) bad("leaked:result", "a refused operation has a result: " + show(g));
            Key k{g.s, g.p};
            switch (g.op) {
                case HXHIM_PUT: { np++; auto it = rputs.find(k); if (it == rputs.end()) bad("extra:put", "result for a PUT that was refused or never made: " + show(g)); else rputs.erase(it); if (g.status != HXHIM_SUCCESS) bad("put:failed", show(g)); break; }
                case HXHIM_GET: { ng++; auto it = qgets.find(k); if (it == qgets.end()) bad("extra:get", "result for a GET that was refused or never made: " + show(g)); else qgets.erase(it);
                    auto m = model.find(k); if (m == model.end() ? g.status == HXHIM_SUCCESS : !(g.status == HXHIM_SUCCESS && g.has_o && same(m->second, g.o))) bad("get:wrong", show(g) + " but the store should hold " + (m == model.end() ? "nothing" : show(m->second))); break; }
                case HXHIM_DELETE: { nd++; auto it = qdels.find(k); if (it == qdels.end()) bad("extra:del", "result for a DELETE that was refused or never made: " + show(g)); else qdels.erase(it); model.erase(k); break; }
                case HXHIM_GETOP: no++; break;
                case HXHIM_HISTOGRAM: nh++; break;
                default: bad("extra:op", "result of an unknown kind: " + show(g));
            }
        }
        qputs.clear();
        if (!rputs.empty()) bad("missing:put", "an accepted PUT has no result");
        rputs.clear();
        if (all) {
            if (!qgets.empty()) bad("missing:get", "an accepted GET has no result");
            if (!qdels.empty()) bad("missing:del", "an accepted DELETE has no result");
            if (no < qgetops || (!qgetops && no)) bad("count:getop", std::to_string(no) + " range read results for " + std::to_string(qgetops));
            if (nh != qhists) bad("count:hist", std::to_string(nh) + " histogram results for " + std::to_string(qhists));
            qgets.clear(); qdels.clear(); qgetops = qhists = 0;
        }
    }
    // a value of a type that does not exist is refused when it gets to the datastore
    void bad_type() {
        Key k = key(); Val o = vbyte("forbidden");
        T wrong = (T) r.range(11, 15);
        int m = (int) r.below(3);
        if (m == 0) k.s.t = wrong; if (m == 1) k.p.t = wrong; if (m == 2) o.t = wrong;
        flush(true);
        int kind = (int) r.below(m == 2 ? 1 : 3);
        note("badtype" + std::to_string(kind) + std::to_string(m));
        int rc = kind == 0 ? S.put(k.s, k.p, o) : kind == 1 ? S.get(k.s, k.p, HXHIM_DATA_BYTE) : S.del(k.s, k.p);
        kinds.insert("type" + std::to_string(kind) + std::to_string(m));
        refused++;
        auto got = S.flush();
        for (auto &g : got) if (g.status == HXHIM_SUCCESS) bad("badtype:accepted", "an operation with an invalid type succeeded: " + show(g));
        if (rc == HXHIM_SUCCESS && got.size() != 1) bad("badtype:count", std::to_string(got.size()) + " results for one operation with an invalid type");
    }

    void run() {
        // never initialised, not open
        S.hx.p = nullptr;
        for (int i = 0; i < 3; i++) null_things(r.chance(1, 3) ? nullptr : &S.hx);
        must("open uninitialised", hxhim::Open(&S.hx));
        must("close uninitialised", hxhim::Close(&S.hx));
        must("init null", hxhim::Init(nullptr, MPI_COMM_WORLD));
        if (hxhim::Init(&S.hx, MPI_COMM_WORLD) != HXHIM_SUCCESS) return bad("init", "Init failed");
        S.inited = true; S.cfg = cfg;
        Cfg plain = cfg; if (plain.hash == "mine") plain.hash = "DATASTORE_0";
        if (!apply(&S.hx, plain)) bad("option:refused", "a valid option was refused");
        if (cfg.hash == "mine") { hargs[0] = (int) cfg.per_server; if (hxhim_set_hash_function(&S.hx, "mine", custom_hash, hargs) != HXHIM_SUCCESS) bad("option:refused", "a hash function was refused"); }
        for (int i = 0; i < 4; i++) null_things(&S.hx);
        // invalid values leave the options as they were
        hxhim_t *hx = &S.hx;
        for (int i = 0; i < 6; i++) switch (r.below(12)) {
            case 0: must("client ratio 0", hxhim_set_client_ratio(hx, 0)); break;
            case 1: must("server ratio 0", hxhim_set_server_ratio(hx, 0)); break;
            case 2: must("datastores 0", hxhim_set_datastores_per_server(hx, 0)); break;
            case 3: must("name null", r.chance(1, 2) ? hxhim_set_datastore_name(hx, nullptr, "a", "b") : r.chance(1, 2) ? hxhim_set_datastore_name(hx, "a", nullptr, "b") : hxhim_set_datastore_name(hx, "a", "b", nullptr)); break;
            case 4: must("hash unknown", hxhim_set_hash_name(hx, r.chance(1, 3) ? nullptr : r.chance(1, 2) ? "" : "UTHASH_XYZ")); break;
            case 5: must("hash null", r.chance(1, 2) ? hxhim_set_hash_function(hx, nullptr, never, nullptr) : hxhim_set_hash_function(hx, "x", nullptr, nullptr)); break;
            case 6: must("ops 0", hxhim_set_maximum_ops_per_request(hx, 0)); break;
            case 7: must("generator unknown", hxhim_set_histogram_bucket_gen_name(hx, r.chance(1, 2) ? "" : "11_BUCKETS")); break;
            case 8: must("generator null", hxhim_set_histogram_bucket_gen_function(hx, nullptr, nullptr)); break;
            case 9: must("endpoint -1", hxhim_add_endpoint_to_group(hx, -1 - (int) r.below(5))); break;
            case 10: must("option null session", hxhim_set_maximum_ops_per_request(nullptr, 3)); break;
            default: must("track null", hxhim_add_histogram_track_predicate(hx, nullptr, 3)); break;
        }
        if (hxhim::Open(&S.hx) != HXHIM_SUCCESS) return bad("open", "Open failed after invalid options were refused");
        S.opened = true;
        if (S.datastores() != cfg.per_server) bad("option:changed", "datastore count " + std::to_string(S.datastores()) + " instead of " + std::to_string(cfg.per_server));
        const char *hn = nullptr; hxhim_hash_t hf; void *ha;
        std::string want_hash = cfg.hash;
        if (hxhim::GetHash(hx, &hn, &hf, &ha) != HXHIM_SUCCESS || want_hash != hn) bad("option:changed", std::string("hash ") + (hn ? hn : "?") + " instead of " + want_hash);
        const std::string before = split();
        histogram("after opening", true);
        long ops = 0;
        int steps = 10 + (int) r.below(40);
        for (int i = 0; i < steps && out().fails < 20; i++) {
            uint64_t x = r.below(100);
            Key k = key();
            if (x < 14) { Val o = rnd_val(r, 40, false); if (S.put(k.s, k.p, o) != HXHIM_SUCCESS) bad("put:refused", "valid Put refused"); qputs[k] = o; rputs.insert(k); note("put"); ops++; }
            else if (x < 22) { auto it = model.find(k); if (S.get(k.s, k.p, it == model.end() ? HXHIM_DATA_BYTE : it->second.t) != HXHIM_SUCCESS) bad("get:refused", "valid Get refused"); qgets.insert(k); note("get"); ops++; }
            else if (x < 26) { if (S.del(k.s, k.p) != HXHIM_SUCCESS) bad("del:refused", "valid Delete refused"); qdels.insert(k); note("del"); ops++; }
            else if (x < 29) { if (S.getop(k.s, k.p, HXHIM_DATA_BYTE, 1, HXHIM_GETOP_EQ) != HXHIM_SUCCESS) bad("getop:refused", "valid GetOp refused"); qgetops++; note("getop"); ops++; }
            else if (x < 32) { if (S.hist((int) r.below(S.datastores()), "h") != HXHIM_SUCCESS) bad("hist:refused", "valid Histogram refused"); qhists++; note("hist"); ops++; }
            else if (x < 66) invalid_op(&S.hx, true);
            else if (x < 80) invalid_option(&S.hx);
            else if (x < 84) { hxhim_t none; none.p = nullptr; null_things(r.chance(1, 2) ? nullptr : &none); }
            else if (x < 88) bad_type();
            else flush(r.chance(3, 4) || cfg.async);
        }
        flush(true);
        for (auto &m : model) { S.get(m.first.s, m.first.p, m.second.t); qgets.insert(m.first); }
        flush(true);
        // nothing but what was accepted is stored
        if (S.datastores() == 1) {
            S.getop(vbyte("x"), vbyte("y"), HXHIM_DATA_BYTE, model.size() + 5, HXHIM_GETOP_FIRST);
            auto l = collect(hxhim::FlushGetOps(&S.hx));
            size_t n = 0; for (auto &g : l) if (g.status == HXHIM_SUCCESS) n++;
            if (n != model.size()) bad("store:extra", "the store lists " + std::to_string(n) + " records, " + std::to_string(model.size()) + " were accepted");
        }
        // the datastores were not changed either
        if (S.datastores() != cfg.per_server) bad("option:changed", "datastore count changed on a running session");
        hn = nullptr;
        if (hxhim::GetHash(hx, &hn, &hf, &ha) != HXHIM_SUCCESS || want_hash != hn) bad("option:changed", "hash changed on a running session");
        int ex = 1; hxhim::HaveHistogram(hx, "zz", 2, &ex);
        if (ex) bad("option:changed", "a histogram appeared on a running session");
        const std::string after = split();
        if (after != before) bad("option:changed", "requests are split differently after refused options: " + before + " became " + after);
        histogram("after refused options", false);
        if (r.chance(1, 2)) {
            // the refused options are not used when the datastores are opened again either
            const std::string name = cfg.base + "n";
            for (auto &g : collect(hxhim::ChangeDatastoreName(hx, name.c_str(), false, false, true))) if (g.status != HXHIM_SUCCESS) bad("change:failed", "the datastore name could not be changed");
            model.clear();
            histogram("after a change of the name", true);
            Key k = key(); Val o = vi32(77);
            S.put(k.s, k.p, o); S.flush(); S.get(k.s, k.p, o.t);
            auto got = collect(hxhim::FlushGets(hx));
            if (got.size() != 1 || got[0].status != HXHIM_SUCCESS || !same(o, got[0].o)) bad("change:get", "the record written after a change of the name is not read back");
            struct stat st;
            for (size_t i = 0; cfg.backend != MEM && i < cfg.per_server; i++) if (stat((cfg.dir + "/" + name + "-" + std::to_string(i)).c_str(), &st) != 0) bad("option:changed", "datastore " + std::to_string(i) + " is not where the options put it");
            out().stat("reopened");
        }
        if (S.close() != HXHIM_SUCCESS) bad("close", "Close failed");
        for (int i = 0; i < 3; i++) null_things(&S.hx);
        must("close twice", hxhim::Close(&S.hx));
        out().stat("refused_calls", refused); out().stat("accepted_operations", ops);
        for (auto &k : kinds) out().dist("refusal_kinds", fnv(k));
        out().dist("nontrivial", fnv(trace + cfg.str()));
        out().sample(cfg.str() + ": " + trace);
    }
};
// -------------------------------------------------------------------------------------------------------- config
// Settings are spread over the three sources; what a session then does is compared with an independent merge of them.
#include "utils/elen.hpp"
#include "hxhim/private/hxhim.hpp"
struct Config_ {
    Rng &r;
    std::string dir, trace;
    long id;
    typedef std::map<std::string, std::string> M;
    M file, envfile, env;
    std::set<std::string> wild; // settings that some source gives a value that is not one

    Config_(Rng &r, const std::string &d, long c) : r(r), dir(d + "/cfg" + std::to_string(c)), id(c) { mkdir(dir.c_str(), 0755); if (chdir(dir.c_str())) abort(); }
    ~Config_() { clear_env(); if (chdir("/")) abort(); rmtree(dir); }
    void bad(const std::string &k, const std::string &m) { out().fail(k, m + " | " + trace); }
    static const std::vector<std::string> &keys() {
        static const std::vector<std::string> k = {"DEBUG_LEVEL", "CLIENT_RATIO", "SERVER_RATIO", "DATASTORES_PER_SERVER", "DATASTORE", "DATASTORE_PREFIX", "DATASTORE_BASENAME", "DATASTORE_POSTFIX",
            "LEVELDB_CREATE_IF_MISSING", "ROCKSDB_CREATE_IF_MISSING", "HASH", "TRANSPORT", "NUM_LISTENERS", "ENDPOINT_GROUP", "START_ASYNC_PUTS_AT", "MAXIMUM_OPS_PER_REQUEST", "MAXIMUM_SIZE_PER_REQUEST",
            "HISTOGRAM_FIRST_N", "HISTOGRAM_BUCKET_GEN_NAME", "HISTOGRAM_TRACK_PREDICATES", "HISTOGRAM_READ_EXISTING", "HISTOGRAM_WRITE_AT_EXIT",
            "ELEN_NEG_SYMBOL", "ELEN_POS_SYMBOL", "ELEN_ENCODE_FLOAT_PRECISION", "ELEN_ENCODE_DOUBLE_PRECISION"};
        return k;
    }
    void clear_env() { for (auto &k : keys()) unsetenv(("HXHIM_" + k).c_str()); unsetenv("HXHIM_CONFIG"); }
    std::string boolean() { static const char *b[] = {"true", "false", "TRUE", "False", "FALSE", "True"}; return b[r.below(6)]; }
    std::string value(const std::string &k) {
        auto num = [&](int lo, int hi) { return std::to_string(r.range(lo, hi)); };
        if (k == "DEBUG_LEVEL") { static const char *d[] = {"EMERGENCY", "ALERT", "CRITICAL"}; return d[r.below(3)]; }
        if (k == "CLIENT_RATIO" || k == "SERVER_RATIO") return num(1, 9);
        if (k == "DATASTORES_PER_SERVER") return num(1, 5);
        if (k == "DATASTORE") { static const char *d[] = {"IN_MEMORY", "LEVELDB", "ROCKSDB", "LEVELDB"}; return d[r.below(4)]; }
        if (k == "DATASTORE_PREFIX") { static const char *d[] = {"data", "some dir", ".", "x/y"}; return dir + "/" + d[r.below(4)]; }
        if (k == "DATASTORE_BASENAME") { static const char *d[] = {"base", "my base", "b.c", "hx-1"}; return d[r.below(4)]; }
        if (k == "DATASTORE_POSTFIX") { static const char *d[] = {".db", "post", "-1"}; return d[r.below(3)]; }
        if (k.find("CREATE_IF_MISSING") != std::string::npos) return r.chance(3, 4) ? "true" : boolean();
        if (k == "HASH") return HASHES[r.below(9)];
        if (k == "TRANSPORT") return r.chance(2, 3) ? "MPI" : "NULL";
        if (k == "NUM_LISTENERS") return num(1, 3);
        if (k == "ENDPOINT_GROUP") { static const char *d[] = {"ALL", "0", "0 1 2"}; return d[r.below(3)]; }
        if (k == "START_ASYNC_PUTS_AT") return num(0, 5);
        if (k == "MAXIMUM_OPS_PER_REQUEST") return num(1, 8);
        if (k == "MAXIMUM_SIZE_PER_REQUEST") { static const char *d[] = {"1", "100000", "65536"}; return d[r.below(3)]; }
        if (k == "HISTOGRAM_FIRST_N") return num(1, 12);
        if (k == "HISTOGRAM_BUCKET_GEN_NAME") { static const char *d[] = {"10_BUCKETS", "SQUARE_ROOT_CHOICE", "STURGES_FORMULA", "RICE_RULE", "SCOTTS_NORMAL_REFERENCE_RULE", "UNIFORM_LOG2", "UNIFORM_LOG10"}; return d[r.below(7)]; }
        if (k == "HISTOGRAM_TRACK_PREDICATES") { static const char *d[] = {"temp", "temp,press", "a b,temp", "press,c,d"}; return d[r.below(4)]; }
        if (k.find("HISTOGRAM_") == 0) return boolean();
        if (k == "ELEN_NEG_SYMBOL") { static const char *d[] = {"-", "+", "!"}; return d[r.below(3)]; }
        if (k == "ELEN_POS_SYMBOL") { static const char *d[] = {"a", "~", "z"}; return d[r.below(3)]; }
        if (k == "ELEN_ENCODE_FLOAT_PRECISION") return num(7, 9);
        return num(14, 17);
    }
    std::string junk() {
        static const char *j[] = {"", "abc", "-3", "-", "tru", "0x", "+", "none", "\xff\xfe", "%s%n", "true false", "LEVELDB LEVELDB", "NULL,", ",,,"};
        return j[r.below(14)];
    }
    bool is_number(const std::string &k) { return k.find("RATIO") != std::string::npos || k == "DATASTORES_PER_SERVER" || k == "START_ASYNC_PUTS_AT" || k.find("MAXIMUM") == 0 || k == "HISTOGRAM_FIRST_N"; }
    M source(int density, int junkiness) {
        M m;
        for (auto &k : keys()) {
            if (!r.chance(density, 10)) continue;
            if (r.chance(junkiness, 40)) { if (k.find("DATASTORE_P") == 0 || k == "DATASTORE_BASENAME") continue; m[k] = junk(); wild.insert(k); }
            else m[k] = value(k);
        }
        return m;
    }
    std::string text(const M &m) {
        std::string s;
        std::vector<std::pair<std::string, std::string>> lines(m.begin(), m.end());
        for (size_t i = lines.size(); i > 1; i--) std::swap(lines[i - 1], lines[r.below(i)]);
        for (auto &kv : lines) {
            if (r.chance(1, 8)) s += "# " + kv.first + " commented\n";
            if (r.chance(1, 8)) s += "#" + kv.first + " " + value(kv.first) + "\n";
            if (r.chance(1, 10)) s += "\n   \t\n";
            if (r.chance(1, 10)) s += "UNKNOWN_KEY 7\n";
            if (r.chance(1, 10)) s += kv.first + " " + value(kv.first) + "\n"; // repeated: the last one counts
            if (r.chance(1, 20)) { s += std::string("\x01\xfe garbage \xff\x80 ") + std::string(r.below(3000), 'x') + "\n"; }
            s += (r.chance(1, 6) ? "  \t" : "") + kv.first + (r.chance(1, 4) ? "\t  " : " ") + kv.second + (r.chance(1, 6) ? "  \t" : "") + (r.chance(1, 10) ? "\r" : "") + "\n";
        }
        if (!s.empty() && r.chance(1, 4)) s.pop_back();
        return s;
    }
    static std::string trim(const std::string &s) { size_t a = 0, b = s.size(); while (a < b && isspace((unsigned char) s[a])) a++; while (b > a && isspace((unsigned char) s[b - 1])) b--; return s.substr(a, b - a); }

    void run() {
        mkdir((dir + "/data").c_str(), 0755); mkdir((dir + "/some dir").c_str(), 0755); mkdir((dir + "/x").c_str(), 0755); mkdir((dir + "/x/y").c_str(), 0755);
        int junkiness = r.chance(1, 2) ? 0 : 1 + (int) r.below(4);
        int have = (int) r.below(8);
        if (have & 1) { file = source(1 + (int) r.below(9), junkiness); write_file(dir + "/hxhim.conf", text(file)); }
        clear_env();
        if (have & 2) {
            envfile = source(1 + (int) r.below(9), junkiness);
            write_file(dir + "/other.conf", text(envfile));
            setenv("HXHIM_CONFIG", r.chance(1, 2) ? "other.conf" : (dir + "/other.conf").c_str(), 1);
        } else if (r.chance(1, 4)) setenv("HXHIM_CONFIG", r.chance(1, 2) ? "missing.conf" : r.chance(1, 2) ? "." : "", 1);
        if (have & 4) { env = source(1 + (int) r.below(9), junkiness); if (r.chance(1, 4)) env["DATASTORE_POSTFIX"] = ""; for (auto &kv : env) setenv(("HXHIM_" + kv.first).c_str(), kv.second.c_str(), 1); }
        // the independent merge
        std::map<std::string, std::string> v, src;
        for (auto &kv : file) { v[kv.first] = trim(kv.second); src[kv.first] = "file"; }
        for (auto &kv : envfile) { v[kv.first] = trim(kv.second); src[kv.first] = "HXHIM_CONFIG"; }
        for (auto &kv : env) { v[kv.first] = kv.second; src[kv.first] = "environment"; }
        for (auto &kv : v) trace += kv.first + "=" + kv.second + "(" + src[kv.first] + ") ";
        auto val = [&](const std::string &k, const std::string &def) { return v.count(k) ? v[k] : def; };
        auto known = [&](const std::string &k) { return !wild.count(k); };

        hxhim_t hx; hx.p = nullptr;
        if (hxhim::Init(&hx, MPI_COMM_WORLD) != HXHIM_SUCCESS) return bad("config:init", "Init failed");
        std::string type = val("DATASTORE", "LEVELDB");
        bool create = type == "IN_MEMORY" || trim(val(type + "_CREATE_IF_MISSING", "true")) != "";
        if (type != "IN_MEMORY") { std::string c = val(type + "_CREATE_IF_MISSING", "true"); for (auto &ch : c) ch = (char) tolower(ch); create = c == "true"; }
        bool type_known = known("DATASTORE") && known("LEVELDB_CREATE_IF_MISSING") && known("ROCKSDB_CREATE_IF_MISSING");
        std::string prefix = val("DATASTORE_PREFIX", "."), base = val("DATASTORE_BASENAME", "hxhim"), post = val("DATASTORE_POSTFIX", "");
        int rc = hxhim::Open(&hx);
        out().stat("sessions"); out().stat("settings", (long) v.size());
        for (auto &kv : v) { out().dist("setting_values", fnv(kv.first + "=" + kv.second)); out().dist("setting_sources", fnv(kv.first + src[kv.first])); }
        if (type_known) {
            if (create && rc != HXHIM_SUCCESS) return bad("config:open", "Open failed: " + std::to_string(rc));
            if (!create) {
                if (rc == HXHIM_SUCCESS) { bad("config:create", "Open created datastores although " + type + "_CREATE_IF_MISSING is false"); hxhim::Close(&hx); }
                out().stat("not_created");
                out().dist("nontrivial", fnv(trace));
                return;
            }
        } else if (rc != HXHIM_SUCCESS) { out().dist("nontrivial", fnv(trace)); return; }
        size_t n = 0, cl = 0, sv = 0;
        auto num = [&](const std::string &k, long def) { return (size_t) (v.count(k) ? atol(v[k].c_str()) : def); };
        auto is = [&](const std::string &k, size_t got, size_t want) {
            if (!known(k)) return;
            out().stat("settings_observed");
            if (got != want) bad("config:" + k, k + " is " + std::to_string(got) + " instead of " + std::to_string(want));
        };
        hxhim::GetRangeServerClientToServerRatio(&hx, &cl, &sv);
        is("CLIENT_RATIO", cl, num("CLIENT_RATIO", 2)); is("SERVER_RATIO", sv, num("SERVER_RATIO", 1));
        hxhim::GetDatastoreCount(&hx, &n);
        is("DATASTORES_PER_SERVER", n, num("DATASTORES_PER_SERVER", 1));
        // hash: chosen with a transport
        const char *hn = nullptr; hxhim_hash_t hf; void *ha;
        hxhim::GetHash(&hx, &hn, &hf, &ha);
        if (known("TRANSPORT") && known("HASH") && known("NUM_LISTENERS")) {
            std::string want = val("TRANSPORT", "NULL") == "MPI" ? val("HASH", "RANK_MOD_DATASTORES") : "RANK_MOD_DATASTORES";
            out().stat("settings_observed");
            if (want != hn) bad("config:HASH", std::string("hash is ") + hn + " instead of " + want);
        }
        size_t async = num("START_ASYNC_PUTS_AT", 0);
        if (known("START_ASYNC_PUTS_AT")) {
            out().stat("settings_observed");
            if (hx.p->async_puts.enabled != !!async || (async && hx.p->async_puts.max_queued != async)) bad("config:START_ASYNC_PUTS_AT", "background PUTs start at " + std::to_string(hx.p->async_puts.max_queued));
        }
        for (auto nm : {"temp", "press", "a b", "c", "d", "nothing"}) {
            if (!known("HISTOGRAM_TRACK_PREDICATES")) break;
            int ex = 0; hxhim::HaveHistogram(&hx, nm, strlen(nm), &ex);
            std::string list = "," + val("HISTOGRAM_TRACK_PREDICATES", "") + ",";
            bool want = list.find("," + std::string(nm) + ",") != std::string::npos;
            out().stat("settings_observed");
            if (!!ex != want) bad("config:HISTOGRAM_TRACK_PREDICATES", std::string(nm) + (ex ? " is" : " is not") + " tracked");
        }
        // batch limits: how many requests hold 12 GETs to one datastore
        if (known("MAXIMUM_OPS_PER_REQUEST") && known("MAXIMUM_SIZE_PER_REQUEST")) {
            size_t ops = num("MAXIMUM_OPS_PER_REQUEST", 128), size = num("MAXIMUM_SIZE_PER_REQUEST", 1048576);
            for (int i = 0; i < 12; i++) hxhim::Get(&hx, (void *) "s", 1, HXHIM_DATA_BYTE, (void *) "p", 1, HXHIM_DATA_BYTE, HXHIM_DATA_BYTE);
            size_t reqs = 0;
            for (auto &q : hx.p->queues.gets) reqs += q.size();
            size_t want = size == 1 ? 12 : (12 + ops - 1) / ops;
            out().stat("settings_observed", 2);
            if (reqs != want) bad("config:MAXIMUM_PER_REQUEST", "12 GETs are sent in " + std::to_string(reqs) + " requests instead of " + std::to_string(want));
            hxhim::Results::Destroy(hxhim::FlushGets(&hx));
        }
        // histograms
        bool tracked = known("HISTOGRAM_TRACK_PREDICATES") && val("HISTOGRAM_TRACK_PREDICATES", "").find("temp") != std::string::npos;
        size_t first = num("HISTOGRAM_FIRST_N", 10);
        std::vector<double> vals;
        std::string gen = val("HISTOGRAM_BUCKET_GEN_NAME", "10_BUCKETS");
        if (known("HISTOGRAM_FIRST_N") && known("HISTOGRAM_BUCKET_GEN_NAME") && tracked) {
            std::vector<Val> keep; keep.reserve(64);
            size_t total = first + 2;
            int ds = 0;
            std::vector<std::vector<double>> per(n);
            for (size_t i = 0; i < total; i++) {
                double x = 1.0 + (double) i * 3.0;
                keep.push_back(vi32((int) i)); keep.push_back(vdbl(x));
                Val &s = keep[keep.size() - 2], &o = keep.back();
                int where = hxhim_hash(&hx, (void *) s.b.data(), s.b.size(), (void *) "temp", 4);
                per[(size_t) where].push_back(x);
                hxhim::Put(&hx, (void *) s.b.data(), s.b.size(), s.t, (void *) "temp", 4, HXHIM_DATA_BYTE, (void *) o.b.data(), o.b.size(), o.t, HXHIM_PUT_SPO);
            }
            hxhim::Results::Destroy(hxhim::FlushPuts(&hx));
            for (ds = 0; ds < (int) n; ds++) {
                hxhim::Histogram(&hx, ds, "temp", 4);
                auto got = collect(hxhim::FlushHistograms(&hx));
                bool want = per[(size_t) ds].size() >= first;
                if (got.size() != 1) { bad("config:histogram", "no HISTOGRAM result"); continue; }
                out().stat("settings_observed");
                if (got[0].has_h != want) { bad("config:HISTOGRAM_FIRST_N", std::string("buckets ") + (got[0].has_h ? "exist" : "do not exist") + " after " + std::to_string(per[(size_t) ds].size()) + " values, first_n=" + std::to_string(first)); continue; }
                if (!want) continue;
                double *b = nullptr; size_t bn = 0;
                if (hxhim::config::HISTOGRAM_BUCKET_GENERATORS.at(gen)(per[(size_t) ds].data(), first, &b, &bn, hxhim::config::HISTOGRAM_BUCKET_GENERATOR_EXTRA_ARGS.at(gen)) == HISTOGRAM_SUCCESS) {
                    out().stat("settings_observed");
                    if (bn != got[0].buckets.size() || !std::equal(b, b + bn, got[0].buckets.begin())) bad("config:HISTOGRAM_BUCKET_GEN_NAME", std::to_string(got[0].buckets.size()) + " buckets instead of the " + std::to_string(bn) + " of " + gen);
                    ::operator delete[](b);
                }
            }
        }
        // encoding of numbers
        bool elen_known = known("ELEN_NEG_SYMBOL") && known("ELEN_POS_SYMBOL") && known("ELEN_ENCODE_FLOAT_PRECISION") && known("ELEN_ENCODE_DOUBLE_PRECISION");
        Val k1 = vbyte("elen"), k2 = vi32(-1234), k3 = vi32(77), dv = vdbl(1.0 / 3), fv = vflt(2.0f / 3);
        int ds1 = hxhim_hash(&hx, (void *) k1.b.data(), k1.b.size(), (void *) k2.b.data(), k2.b.size()), ds2 = hxhim_hash(&hx, (void *) k1.b.data(), k1.b.size(), (void *) k3.b.data(), k3.b.size());
        hxhim::Put(&hx, (void *) k1.b.data(), k1.b.size(), k1.t, (void *) k2.b.data(), k2.b.size(), k2.t, (void *) dv.b.data(), dv.b.size(), dv.t, HXHIM_PUT_SPO);
        hxhim::Put(&hx, (void *) k1.b.data(), k1.b.size(), k1.t, (void *) k3.b.data(), k3.b.size(), k3.t, (void *) fv.b.data(), fv.b.size(), fv.t, HXHIM_PUT_SPO);
        auto pr = collect(hxhim::FlushPuts(&hx));
        if (pr.size() != 2) bad("config:put", "two PUTs gave " + std::to_string(pr.size()) + " results");
        if (hxhim::Close(&hx) != HXHIM_SUCCESS) bad("config:close", "Close failed");
        // where the datastores are, and of which kind
        if (type_known) {
            auto exists = [](const std::string &f) { struct stat st; return stat(f.c_str(), &st) == 0; };
            std::string p0 = prefix + "/" + base + "-" + std::to_string(ds1) + post;
            std::string kind = !exists(p0 + "/CURRENT") ? "IN_MEMORY" : exists(p0 + "/IDENTITY") ? "ROCKSDB" : "LEVELDB";
            out().stat("settings_observed", 4);
            if (kind != type) bad("config:DATASTORE", "expected " + type + " at " + p0 + ", found " + kind);
            else if (type == "LEVELDB") {
                leveldb::DB *db = nullptr; leveldb::Options o;
                if (!leveldb::DB::Open(o, p0, &db).ok()) bad("config:DATASTORE", "cannot read " + p0);
                else {
                    char neg = val("ELEN_NEG_SYMBOL", std::string(1, elen::NEG_SYMBOL))[0], pos = val("ELEN_POS_SYMBOL", std::string(1, elen::POS_SYMBOL))[0];
                    if (elen_known) {
                        std::string e2 = elen::encode::integers(-1234, neg, pos), e3 = elen::encode::integers(77, neg, pos);
                        std::string d = elen::encode::floating_point(as<double>(dv), (int) num("ELEN_ENCODE_DOUBLE_PRECISION", elen::encode::DOUBLE_PRECISION), neg, pos);
                        std::string f = elen::encode::floating_point(as<float>(fv), (int) num("ELEN_ENCODE_FLOAT_PRECISION", elen::encode::FLOAT_PRECISION), neg, pos);
                        bool s2 = false, s3 = false, sd = false, sf = false;
                        std::unique_ptr<leveldb::Iterator> it(db->NewIterator(leveldb::ReadOptions()));
                        for (it->SeekToFirst(); it->Valid(); it->Next()) {
                            std::string kk = it->key().ToString(), vv = it->value().ToString();
                            if (kk.find(e2) != std::string::npos) { s2 = true; sd = vv.find(d) == 0 && vv.size() <= d.size() + 8; }
                            if (kk.find(e3) != std::string::npos) { s3 = true; sf = vv.find(f) == 0 && vv.size() <= f.size() + 8; }
                        }
                        out().stat("settings_observed", 4);
                        if (!s2 && ds1 >= 0) bad("config:ELEN_NEG_SYMBOL", "no record with the key " + e2);
                        if (ds2 == ds1 && !s3) bad("config:ELEN_POS_SYMBOL", "no record with the key " + e3);
                        if (s2 && !sd) bad("config:ELEN_ENCODE_DOUBLE_PRECISION", "the value is not stored as " + d);
                        if (s3 && !sf) bad("config:ELEN_ENCODE_FLOAT_PRECISION", "the value is not stored as " + f);
                    }
                    delete db;
                }
            }
        }
        // reading and writing histograms: the same settings again
        if (type_known && type != "IN_MEMORY" && known("DATASTORES_PER_SERVER") && known("TRANSPORT") && known("HASH") && known("NUM_LISTENERS") && tracked && known("HISTOGRAM_FIRST_N") && known("HISTOGRAM_BUCKET_GEN_NAME") && known("HISTOGRAM_READ_EXISTING") && known("HISTOGRAM_WRITE_AT_EXIT") && elen_known && n == 1) {
            auto b = [&](const std::string &k) { std::string c = val(k, "true"); return tolower(c[0]) == 't'; };
            bool want = b("HISTOGRAM_READ_EXISTING") && b("HISTOGRAM_WRITE_AT_EXIT");
            hxhim_t h2; h2.p = nullptr;
            if (hxhim::Init(&h2, MPI_COMM_WORLD) != HXHIM_SUCCESS || hxhim::Open(&h2) != HXHIM_SUCCESS) return bad("config:reopen", "the datastore did not open again");
            hxhim::Histogram(&h2, 0, "temp", 4);
            auto got = collect(hxhim::FlushHistograms(&h2));
            out().stat("settings_observed", 2);
            bool has = got.size() == 1 && got[0].has_h;
            if (has != want) bad("config:HISTOGRAM_READ_WRITE", std::string("after reopening the histogram is ") + (has ? "there" : "empty") + ", read and write are " + (want ? "on" : "not both on"));
            hxhim::Close(&h2);
        }
        if (v.size() >= 3) out().dist("nontrivial", fnv(trace));
        out().sample(trace);
    }
};

int main(int argc, char **argv) {
    Mpi mpi(&argc, &argv);
    Args a = Args::parse(argc, argv);
    run_cases(a, [&](long c, Rng &r) {
        if (a.mode == "cycle") { Cycle x(r, a.dir, c); x.run(); }
        else if (a.mode == "config") { Config_ x(r, a.dir, c); x.run(); }
        else if (a.mode == "invalid") {
            Cfg f;
            uint64_t x = r.below(20);
            f.backend = x < 14 ? MEM : x < 17 ? LDB : RDB;
            f.per_server = 1 + r.below(3);
            f.hash = r.chance(1, 3) ? "mine" : HASHES[r.below(9)];
            f.ops = 1 + r.below(5); f.size = r.chance(1, 3) ? 60 : 4096; f.async = r.chance(1, 4) ? 1 + r.below(4) : 0;
            f.mpi = r.chance(1, 4); f.track = {"h", "tracked"}; f.first_n = 3; f.gen = "10_BUCKETS"; f.hwrite = false;
            f.dir = a.dir; f.base = "i" + std::to_string(c);
            { Invalid i(r, f); i.run(); }
            if (f.backend != MEM) for (size_t i = 0; i < f.per_server; i++) rmtree(a.dir + "/" + f.base + "-" + std::to_string(i)), rmtree(a.dir + "/" + f.base + "n-" + std::to_string(i));
        }
    });
    out().done();
}
