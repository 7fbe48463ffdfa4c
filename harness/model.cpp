// Model-based session histories: C01 (rw), C02 (acct), C05 (del), C22 (flush).
// An online monitor keeps a reference map and the list of operations queued and not yet flushed; every flush is
// compared with what the reference says it must return.
#include "sess.hpp"
#include <condition_variable>
#include <thread>
using namespace vf;

// a transform of one session: keeps the length and what begins with what
static int mix(void *src, const size_t n, void **dst, size_t *dn, void *extra) {
    char *d = (char *) ::operator new(n ? n : 1); const char *s = (const char *) src;
    for (size_t i = 0; i < n; i++) d[i] = (char) (s[i] ^ *(char *) extra);
    *dst = d; *dn = n;
    return HXHIM_SUCCESS;
}
// lets one of several threads go on at a time, chosen at random
struct Baton {
    std::mutex m; std::condition_variable cv; std::vector<int> alive; int turn = -1; long switches = 0; Rng r;
    explicit Baton(uint64_t seed) : r(seed) {}
    void next() { int t = alive.empty() ? -1 : alive[r.below(alive.size())]; if (t != turn) switches++; turn = t; cv.notify_all(); }
    void begin(int me) { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return turn == me; }); }
    void pass(int me) { std::unique_lock<std::mutex> l(m); next(); cv.wait(l, [&] { return turn == me; }); }
    void end(int me) { std::lock_guard<std::mutex> l(m); for (size_t i = 0; i < alive.size(); i++) if (alive[i] == me) { alive.erase(alive.begin() + (long) i); break; } next(); }
};

struct Pend { int op; Key k; Val o; bool expect_found = false; Val want; bool open = false; };

struct History {
    Rng &r;
    Cfg cfg;
    std::string mode;
    Sess S;
    std::map<Key, Val> model;
    std::vector<Pend> puts, gets, dels;
    std::vector<std::pair<int, std::string>> hists;
    struct GO { Val s, p; size_t n; hxhim_getop_t op; bool marker = false, found = false; Val want; };
    // keys that no other key begins with, so that what a range read of them returns is known exactly
    Key marker(uint64_t i) const { return Key{vbyte(std::string("\x02G") + (char) ('0' + rank) + (char) ('0' + i)), vbyte(std::string("marker-") + (char) ('0' + i))}; }
    std::vector<GO> getops;
    std::vector<Val> subs, preds, objs;
    std::vector<Key> known;
    std::string trace;
    uint64_t shape = 0;
    long nops = 0;
    bool big = false; // many operations in one request
    // one of several sessions
    MPI_Comm comm = MPI_COMM_WORLD; Baton *baton = nullptr; int id = 0; bool several = false;
    void turn() {
        if (baton) baton->pass(id);
        if (!several || !S.opened) return;
        const char *n = nullptr; size_t c = 0, s = 0; MPI_Comm m = MPI_COMM_NULL;
        if (hxhim::GetHash(&S.hx, &n, nullptr, nullptr) != HXHIM_SUCCESS || !n || cfg.hash != n) bad("several:hash", std::string("the hash of the session became ") + (n ? n : "none"));
        if (hxhim::GetRangeServerClientToServerRatio(&S.hx, &c, &s) != HXHIM_SUCCESS || (cfg.mpi && (c != cfg.cr || s != cfg.sr))) bad("several:ratio", "the ratio of the session became " + std::to_string(c) + ":" + std::to_string(s));
        if (ranks == 1 && S.datastores() != cfg.per_server) bad("several:datastores", "the session came to have " + std::to_string(S.datastores()) + " datastores");
        if (hxhim::GetMPI(&S.hx, &m, nullptr, nullptr) != HXHIM_SUCCESS || m != comm) bad("several:comm", "the communicator of the session changed");
    }

    int rank, ranks;
    bool again; // decided by all ranks alike
    History(Rng &r, const Cfg &c, const std::string &m, const Mpi &mpi, bool again) : r(r), cfg(c), mode(m), rank(mpi.rank), ranks(mpi.size), again(again) {}

    // ranks share the store: values name the rank they belong to, so that no two ranks use the same key
    Val own(Val v) const {
        if (ranks == 1) return v;
        switch (v.t) {
            case HXHIM_DATA_INT32: return vi32((int32_t) ((uint32_t) as<int32_t>(v) * 8u + (uint32_t) rank));
            case HXHIM_DATA_UINT32: return vu32(as<uint32_t>(v) * 8u + (uint32_t) rank);
            case HXHIM_DATA_INT64: return vi64((int64_t) ((uint64_t) as<int64_t>(v) * 8u + (uint64_t) rank));
            case HXHIM_DATA_UINT64: return vu64(as<uint64_t>(v) * 8u + (uint64_t) rank);
            case HXHIM_DATA_FLOAT: return vflt((float) ((int) as<float>(v) % 10000 * 8 + (as<float>(v) < 0 ? -rank : rank)));
            case HXHIM_DATA_DOUBLE: return vdbl((double) ((int) as<double>(v) % 10000 * 8 + (as<double>(v) < 0 ? -rank : rank)));
            default: v.b.insert(v.b.begin(), (char) ('0' + rank)); return v;
        }
    }
    Val rv(size_t maxlen = 24, bool small_space = true) {
        Val v = rnd_val(r, maxlen, small_space);
        // now and then something longer than any length field of 16 bits
        if (big && r.chance(1, 60) && (v.t == HXHIM_DATA_BYTE || v.t == HXHIM_DATA_POINTER)) { v.b.resize(65000 + r.below(1500), (char) r.below(256)); out().stat("long_values"); }
        return own(v);
    }

    void note(const std::string &s) { if (trace.size() < 900) trace += s + "; "; shape = fnv(s, shape ? shape : 1469598103934665603ull); }
    void bad(const std::string &key, const std::string &msg) { out().fail(key, cfg.str() + " | " + msg + " | history: " + trace); }

    int where(const Key &k) {
        return hxhim_hash(&S.hx, (void *) k.s.b.data(), k.s.b.size(), (void *) k.p.b.data(), k.p.b.size());
    }

    void pools() {
        int n = 2 + (int) r.below(big ? 30 : 6);
        for (int i = 0; i < n; i++) { subs.push_back(rv()); preds.push_back(rv()); }
        // the same bytes under another type, and split at another place
        if (r.chance(1, 2)) { Val v = vbyte("ab"); subs.push_back(v); subs.push_back(vptr("ab")); subs.push_back(vbyte("a")); preds.push_back(vbyte("c")); preds.push_back(vbyte("bc")); preds.push_back(vptr("c")); }
        if (r.chance(1, 3)) { subs.push_back(vi32(1)); subs.push_back(vu32(1)); preds.push_back(vi64(1)); preds.push_back(vu64(1)); }
        for (auto *v : {&subs, &preds}) for (size_t i = (size_t) n; i < v->size(); i++) (*v)[i] = own((*v)[i]);
        for (int i = 0; i < 6; i++) objs.push_back(rv(64, r.chance(1, 2)));
    }
    const Val &pick(const std::vector<Val> &v) { return v[r.below(v.size())]; }
    Key rkey() {
        if ((mode == "acct" || mode == "flush") && r.chance(1, 6)) return marker(r.below(4));
        if (!known.empty() && r.chance(3, 5)) return known[r.below(known.size())];
        return Key{pick(subs), pick(preds)};
    }
    size_t rperms() {
        if (mode == "del" || r.chance(1, 2)) return HXHIM_PUT_SPO;
        return 1 + r.below(63);
    }
    void record_put(size_t perms, const Val &s, const Val &p, const Val &o) {
        each_perm(perms, s, p, o, [&](size_t, const Val &a, const Val &b, const Val &c) {
            Pend d; d.op = HXHIM_PUT; d.k = Key{a, b}; d.o = c; puts.push_back(d);
            if (known.size() < (big ? 400u : 60u)) known.push_back(d.k);
        });
    }
    void do_put() {
        if (r.chance(1, 3)) {
            size_t n = 1 + r.below(big ? 300 : 6);
            std::vector<void *> s(n), p(n), o(n); std::vector<size_t> sl(n), pl(n), ol(n), pm(n); std::vector<T> st(n), pt(n), ot(n);
            std::vector<std::array<Val, 3>> tr(n);
            for (size_t i = 0; i < n; i++) {
                Key k = rkey(); tr[i] = {k.s, k.p, r.chance(1, 2) ? pick(objs) : rv(40, false)}; pm[i] = rperms();
                s[i] = S.keep(tr[i][0].b); sl[i] = tr[i][0].b.size(); st[i] = tr[i][0].t;
                p[i] = S.keep(tr[i][1].b); pl[i] = tr[i][1].b.size(); pt[i] = tr[i][1].t;
                o[i] = S.keep(tr[i][2].b); ol[i] = tr[i][2].b.size(); ot[i] = tr[i][2].t;
            }
            if (hxhim::BPut(&S.hx, s.data(), sl.data(), st.data(), p.data(), pl.data(), pt.data(), o.data(), ol.data(), ot.data(), pm.data(), n) != HXHIM_SUCCESS)
                return bad("bput:refused", "a valid BPut was refused");
            for (size_t i = 0; i < n; i++) { record_put(pm[i], tr[i][0], tr[i][1], tr[i][2]); nops++; }
            note("bput" + std::to_string(n));
        } else {
            Key k = rkey(); Val o = r.chance(1, 2) ? pick(objs) : rv(200, false); size_t pm = rperms();
            if (S.put(k.s, k.p, o, pm) != HXHIM_SUCCESS) return bad("put:refused", "a valid Put was refused " + show(k));
            record_put(pm, k.s, k.p, o); nops++;
            note("put" + std::to_string(pm) + show(k) + "=" + show(o));
        }
    }
    void do_get() {
        size_t n = r.chance(1, 3) ? 1 + r.below(big ? 300 : 6) : 1;
        std::vector<Key> ks;
        for (size_t i = 0; i < n; i++) ks.push_back(rkey());
        auto ty = [&](const Key &k) { auto it = model.find(k); return it != model.end() && r.chance(3, 4) ? it->second.t : (T) (1 + r.below(8)); };
        if (n == 1) { if (S.get(ks[0].s, ks[0].p, ty(ks[0])) != HXHIM_SUCCESS) return bad("get:refused", "a valid Get was refused"); }
        else {
            std::vector<void *> s, p; std::vector<size_t> sl, pl; std::vector<T> st, pt, ot;
            for (auto &k : ks) { s.push_back(S.keep(k.s.b)); sl.push_back(k.s.b.size()); st.push_back(k.s.t); p.push_back(S.keep(k.p.b)); pl.push_back(k.p.b.size()); pt.push_back(k.p.t); ot.push_back(ty(k)); }
            if (hxhim::BGet(&S.hx, s.data(), sl.data(), st.data(), p.data(), pl.data(), pt.data(), ot.data(), n) != HXHIM_SUCCESS) return bad("bget:refused", "a valid BGet was refused");
        }
        for (auto &k : ks) { Pend d; d.op = HXHIM_GET; d.k = k; gets.push_back(d); nops++; }
        note("get" + show(ks[0]) + (n > 1 ? "*" + std::to_string(n) : ""));
    }
    void do_del() {
        size_t n = r.chance(1, 3) ? 1 + r.below(big ? 300 : 5) : 1;
        std::vector<Key> ks;
        for (size_t i = 0; i < n; i++) ks.push_back(rkey());
        if (n == 1) { if (S.del(ks[0].s, ks[0].p) != HXHIM_SUCCESS) return bad("del:refused", "a valid Delete was refused"); }
        else {
            std::vector<void *> s, p; std::vector<size_t> sl, pl; std::vector<T> st, pt;
            for (auto &k : ks) { s.push_back(S.keep(k.s.b)); sl.push_back(k.s.b.size()); st.push_back(k.s.t); p.push_back(S.keep(k.p.b)); pl.push_back(k.p.b.size()); pt.push_back(k.p.t); }
            if (hxhim::BDelete(&S.hx, s.data(), sl.data(), st.data(), p.data(), pl.data(), pt.data(), n) != HXHIM_SUCCESS) return bad("bdel:refused", "a valid BDelete was refused");
        }
        for (auto &k : ks) { Pend d; d.op = HXHIM_DELETE; d.k = k; dels.push_back(d); nops++; }
        note("del" + show(ks[0]) + (n > 1 ? "*" + std::to_string(n) : ""));
    }
    void do_hist() {
        int ds = (int) r.below(S.datastores());
        std::string nm = cfg.track.empty() || r.chance(1, 4) ? "nohist" : cfg.track[r.below(cfg.track.size())];
        if (S.hist(ds, nm) != HXHIM_SUCCESS) return bad("hist:refused", "a valid Histogram request was refused");
        hists.push_back({ds, nm}); nops++;
        note("hist" + std::to_string(ds));
    }
    void do_getop() {
        // accounting only here: what a range read returns is C03's subject
        GO g; Key k = rkey(); g.n = 1 + r.below(3); g.op = HXHIM_GETOP_NEXT;
        if (r.chance(2, 3)) { k = marker(r.below(4)); g.marker = true; g.op = r.chance(1, 2) ? HXHIM_GETOP_EQ : r.chance(1, 2) ? HXHIM_GETOP_LOWEST : HXHIM_GETOP_HIGHEST; }
        g.s = k.s; g.p = k.p;
        if (S.getop(g.s, g.p, HXHIM_DATA_BYTE, g.n, g.op) != HXHIM_SUCCESS) return bad("getop:refused", "a valid GetOp was refused");
        getops.push_back(g); nops++;
        note((g.marker ? "range" + show(k) : "next") + std::to_string(g.n));
    }

    // the background worker may or may not have stored what is queued for this key
    bool waiting(const Key &k) const { if (cfg.async) for (auto &p : puts) if (p.k == k) return true; return false; }
    // expected results are computed at flush time, in flush order
    void expect_puts(std::vector<Pend> &exp) { for (auto &d : puts) { model[d.k] = d.o; exp.push_back(d); } puts.clear(); }
    void expect_gets(std::vector<Pend> &exp) {
        for (auto &d : gets) { auto it = model.find(d.k); d.open = waiting(d.k); d.expect_found = it != model.end(); if (d.expect_found) d.want = it->second; exp.push_back(d); }
        gets.clear();
    }
    void expect_getops(std::vector<GO> &eg) {
        for (auto &g : getops) if (g.marker) { auto it = model.find(Key{g.s, g.p}); g.found = it != model.end(); if (g.found) g.want = it->second; }
        eg.swap(getops);
    }
    void expect_dels(std::vector<Pend> &exp) {
        for (auto &d : dels) { d.expect_found = model.erase(d.k) > 0; exp.push_back(d); }
        dels.clear();
    }

    void check(const char *what, std::vector<Rec> got, std::vector<Pend> exp, size_t nhist, const std::vector<std::pair<int, std::string>> &eh, const std::vector<GO> &eg) {
        size_t total = S.datastores();
        out().stat("results_checked", (long) got.size());
        std::vector<bool> used(got.size(), false);
        std::vector<Rec> go_recs;
        size_t h = 0;
        std::multiset<int> hd;
        for (auto &x : eh) hd.insert(x.first);
        for (size_t i = 0; i < got.size(); i++) {
            if (got[i].rs < 0 || (size_t) got[i].rs >= total)
                bad("result:datastore", std::string(what) + ": result names datastore " + std::to_string(got[i].rs) + " of " + std::to_string(total));
            if (got[i].op == HXHIM_HISTOGRAM) {
                h++; used[i] = true;
                auto it = hd.find(got[i].rs);
                if (it == hd.end()) bad("result:histogram", "histogram result from a datastore that was not asked"); else hd.erase(it);
            }
            if (got[i].op == HXHIM_GETOP) { used[i] = true; go_recs.push_back(got[i]); }
        }
        if (h != nhist) bad("count:histogram", std::string(what) + ": " + std::to_string(h) + " histogram results for " + std::to_string(nhist) + " requests");
        // deletes of one key within a request: the store may report found for each (leveldb) or the first only
        for (auto &d : exp) {
            bool hit = false;
            for (size_t i = 0; i < got.size(); i++) {
                if (used[i] || got[i].op != d.op || !(got[i].s == d.k.s) || !(got[i].p == d.k.p)) continue;
                used[i] = hit = true;
                const Rec &g = got[i];
                if (g.rs != where(d.k)) bad("result:wrong-datastore", std::string(what) + ": " + show(g) + " but the key hashes to " + std::to_string(where(d.k)));
                if (d.op == HXHIM_PUT && g.status != HXHIM_SUCCESS) bad("put:failed", std::string(what) + ": " + show(g));
                if (d.op == HXHIM_DELETE && d.expect_found && g.status != HXHIM_SUCCESS) bad("del:failed", std::string(what) + ": existing key not deleted " + show(g));
                if (d.op == HXHIM_GET && d.open) out().stat("gets_beside_puts");
                else if (d.op == HXHIM_GET) {
                    out().stat(d.expect_found ? "gets_found" : "gets_absent");
                    if (d.expect_found) {
                        if (g.status != HXHIM_SUCCESS) bad("get:lost", std::string(what) + ": " + show(d.k) + " should read " + show(d.want));
                        else if (!g.has_o || !same(d.want, g.o)) bad("get:wrong", std::string(what) + ": " + show(d.k) + " reads " + show(g.o) + " instead of " + show(d.want));
                    } else {
                        if (g.status == HXHIM_SUCCESS) bad("get:ghost", std::string(what) + ": " + show(d.k) + " was never written (or deleted) but reads " + show(g.o));
                    }
                }
                break;
            }
            if (!hit) bad(std::string("missing:") + HXHIM_OP_STR[d.op], std::string(what) + ": no result for " + HXHIM_OP_STR[d.op] + " " + show(d.k) + " among " + std::to_string(got.size()));
        }
        for (size_t i = 0; i < got.size(); i++)
            if (!used[i]) bad("extra", std::string(what) + ": result without an operation: " + show(got[i]));
        // range reads: between 1 and n records each, all of them stored
        size_t maxn = 0, minn = 0;
        for (auto &g : eg) { maxn += g.n; minn += g.marker && !g.found ? 0 : 1; }
        // reads of a marker: its record exactly once each, or none
        std::map<Key, long> wantn, gotn;
        for (auto &g : eg) if (g.marker && g.found) wantn[Key{g.s, g.p}]++;
        bool others = false;
        for (auto &g : eg) if (!g.marker) others = true;
        for (auto &g : go_recs) for (uint64_t i = 0; i < 4; i++) if (g.status == HXHIM_SUCCESS && Key{g.s, g.p} == marker(i)) gotn[marker(i)]++;
        for (uint64_t i = 0; i < 4; i++) {
            long w = wantn.count(marker(i)) ? wantn[marker(i)] : 0, n = gotn.count(marker(i)) ? gotn[marker(i)] : 0;
            out().stat("marker_reads", w);
            // range reads of other keys may walk over a marker that is stored
            if (n < w || (n > w && !others))
                bad("getop:moment", std::string(what) + ": " + std::to_string(n) + " range read results for " + show(marker(i)) + ", expected " + std::to_string(w));
        }
        for (auto &g : eg) if (g.marker && g.found) {
            bool hit = false;
            for (auto &x : go_recs) if (x.status == HXHIM_SUCCESS && Key{x.s, x.p} == Key{g.s, g.p}) { hit = true; if (!same(g.want, x.o)) bad("getop:object", std::string(what) + ": range read of " + show(Key{g.s, g.p}) + " gives " + show(x.o) + " instead of " + show(g.want)); }
            (void) hit;
        }
        if (go_recs.size() > std::max(maxn, minn) || (!eg.empty() && go_recs.size() < minn) || (eg.empty() && !go_recs.empty()))
            bad("count:getop", std::string(what) + ": " + std::to_string(go_recs.size()) + " range read results for " + std::to_string(eg.size()) + " range reads");
    }

    void flush() {
        std::vector<Pend> exp;
        // the caller's own requests may travel while the background worker's do
        bool free = true; for (auto &d : dels) free = free && !waiting(d.k);
        int k = cfg.async ? (r.chance(1, 4) ? 1 : r.chance(1, 3) ? 0 : r.chance(1, 2) ? 2 : r.chance(1, 2) && free ? 4 : 5) : (int) r.below(mode == "flush" ? 8 : 6);
        if (mode != "flush" && !cfg.async && k > 1 && r.chance(1, 2)) k = 0;
        std::vector<Rec> got;
        const char *nm = "";
        std::vector<std::pair<int, std::string>> eh;
        std::vector<GO> eg;
        switch (k) {
            case 1: nm = "FlushPuts"; note(nm); expect_puts(exp); got = collect(hxhim::FlushPuts(&S.hx)); break;
            case 2: nm = "FlushGets"; note(nm); expect_gets(exp); got = collect(hxhim::FlushGets(&S.hx)); break;
            case 3: nm = "FlushGetOps"; note(nm); expect_getops(eg); got = collect(hxhim::FlushGetOps(&S.hx)); break;
            case 4: nm = "FlushDeletes"; note(nm); expect_dels(exp); got = collect(hxhim::FlushDeletes(&S.hx)); break;
            case 5: nm = "FlushHistograms"; note(nm); eh.swap(hists); got = collect(hxhim::FlushHistograms(&S.hx)); break;
            default: nm = "Flush"; note(nm); expect_puts(exp); expect_gets(exp); expect_getops(eg); expect_dels(exp); eh.swap(hists); got = collect(hxhim::Flush(&S.hx)); break;
        }
        out().stat(std::string("flush_") + nm);
        check(nm, got, exp, eh.size(), eh, eg);
        if (puts.empty() && gets.empty() && dels.empty() && getops.empty() && hists.empty()) {
            // nothing is queued: the caller's buffers may go, and another flush must be empty
            S.arena.clear();
            if (ranks == 1 && r.chance(1, 8)) reopen();
            if (r.chance(1, 4)) {
                auto again = collect(hxhim::Flush(&S.hx));
                if (!again.empty()) bad("flush:repeats", "a second flush returned " + std::to_string(again.size()) + " results, first " + show(again[0]));
            }
        }
    }

    // what is stored on disk is the same after the session was closed and opened again
    void reopen() {
        if (cfg.backend == MEM || (mode != "rw" && mode != "del")) return;
        if (S.close() != HXHIM_SUCCESS) bad("close", "Close failed");
        if (!S.open(cfg, comm)) return bad("open", "session did not open again");
        note("reopened");
        out().stat("reopened");
    }

    void run() {
        turn();
        if (!S.open(cfg, comm)) return bad("open", "session did not open");
        pools();
        int steps = big ? 4 + (int) r.below(16) : 8 + (int) r.below(mode == "flush" ? 50 : 40);
        for (int i = 0; i < steps && out().fails < 30; i++) {
            turn();
            uint64_t x = r.below(100);
            bool ranged = mode == "acct" || mode == "flush";
            if (x < 38) do_put();
            else if (x < 62) do_get();
            else if (x < (mode == "del" ? 85u : 72u)) do_del();
            else if (x < 78 && ranged) do_getop();
            else if (x < 81 && ranged) do_hist();
            else flush();
        }
        // the full flush leaves nothing behind
        {
            std::vector<Pend> exp; std::vector<GO> eg; auto eh = hists; hists.clear();
            expect_puts(exp); expect_gets(exp); expect_getops(eg); expect_dels(exp);
            note("Flush");
            turn();
            auto got = collect(hxhim::Flush(&S.hx));
            check("last Flush", got, exp, eh.size(), eh, eg);
            S.arena.clear();
        }
        turn();
        if (again) reopen();
        turn();
        // final audit: every key ever used reads exactly as the model says
        std::vector<Pend> exp;
        std::set<Key> all(known.begin(), known.end());
        for (auto &s : subs) for (auto &p : preds) all.insert(Key{s, p});
        for (auto &k : all) { auto it = model.find(k); S.get(k.s, k.p, it == model.end() ? HXHIM_DATA_BYTE : it->second.t); Pend d; d.op = HXHIM_GET; d.k = k; gets.push_back(d); }
        expect_gets(exp);
        note("audit");
        auto got = collect(hxhim::FlushGets(&S.hx));
        check("audit", got, exp, 0, {}, {});
        // whole-store listing, where everything lives in one datastore
        if (S.datastores() == 1 && ranks == 1 && mode == "del") {
            S.getop(vbyte("x"), vbyte("y"), HXHIM_DATA_BYTE, model.size() + 3, HXHIM_GETOP_FIRST);
            auto l = collect(hxhim::FlushGetOps(&S.hx));
            if (model.empty()) { for (auto &g : l) if (g.status == HXHIM_SUCCESS) bad("list:ghost", "empty store lists " + show(g)); }
            else {
                if (l.size() != model.size()) bad("list:count", "the store holds " + std::to_string(model.size()) + " records, a full range read returns " + std::to_string(l.size()));
                std::set<Key> seen;
                for (auto &g : l) {
                    bool ok = false;
                    for (auto &m : model) if (same(m.first.s, g.s) && same(m.first.p, g.p) && same(m.second, g.o)) { ok = true; if (!seen.insert(m.first).second) ok = false; break; }
                    if (!ok) bad("list:wrong", "range read returns " + show(g) + " which is not stored (or repeated)");
                }
                out().stat("listed_records", (long) l.size());
            }
        }
        turn();
        if (S.close() != HXHIM_SUCCESS) bad("close", "Close failed");
        out().stat("operations", nops);
        if (nops >= 8) out().dist("nontrivial", shape ^ fnv(cfg.str()));
        out().sample(cfg.str() + ": " + trace);
    }
};

// Several sessions of one process, used in turns or each by its own thread; each is compared with its own reference.
static void several(const Args &a, Mpi &mpi, long c, Rng &r) {
    const bool threads = a.mode == "threads";
    const int n = 2 + (int) r.below(3);
    std::vector<std::unique_ptr<Rng>> rs; std::vector<std::unique_ptr<History>> hs; std::vector<MPI_Comm> comms((size_t) n, MPI_COMM_WORLD); std::vector<char> keys((size_t) n, 0);
    Baton baton(r.next()); std::vector<Out::Local> locals((size_t) n); std::string trace;
    static const size_t ops[] = {1, 2, 3, 7, 16, 128}, sizes[] = {60, 100, 500, 1048576};
    for (int i = 0; i < n; i++) {
        Cfg f; const uint64_t x = r.below(20);
        f.backend = x < 17 ? MEM : x < 19 ? LDB : RDB; f.per_server = 1 + r.below(4); f.hash = HASHES[r.below(9)]; f.ops = ops[r.below(6)]; f.size = sizes[r.below(4)];
        static const char *const modes[] = {"rw", "acct", "del", "flush"};
        const std::string mode = modes[r.below(4)];
        f.async = (mode == "rw" || mode == "acct") && r.chance(1, 3) ? 1 + r.below(6) : 0;
        if (r.chance(1, 3)) f.track = {"ab"};
        f.hwrite = false; f.dir = a.dir; f.base = "v" + std::to_string(c) + std::string(1, (char) ('a' + i));
        const bool again = r.chance(1, 2), transform = r.chance(1, 2);
        if (mpi.size > 1) { f.mpi = true; f.cr = 1 + r.below(2); f.sr = 1 + r.below(2); f.listeners = 1 + (int) r.below(2); }
        if (threads || r.chance(1, 2)) MPI_Comm_dup(MPI_COMM_WORLD, &comms[i]);
        rs.emplace_back(new Rng(r.next() + 7777u * (unsigned) mpi.rank));
        hs.emplace_back(new History(*rs.back(), f, mode, mpi, again));
        History &h = *hs.back();
        h.comm = comms[i]; h.id = i; h.several = true;
        if (!threads) h.baton = &baton;
        if (transform) { keys[i] = (char) (1 + r.below(255)); char *k = &keys[i]; h.S.before = [k](hxhim_t *hx) { return hxhim_set_transform_function(hx, HXHIM_DATA_BYTE, mix, k, mix, k) == HXHIM_SUCCESS; }; }
        trace += (i ? " + " : "") + mode + (transform ? " transformed " : " ") + f.str();
    }
    std::vector<std::thread> ts; std::atomic<int> ready{0};
    for (int i = 0; i < n; i++) baton.alive.push_back(i);
    for (int i = 0; i < n; i++) ts.emplace_back([&, i] {
        Out::local() = &locals[i];
        if (threads) { ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < n) std::this_thread::yield(); }
        else baton.begin(i);
        hs[i]->run();
        if (!threads) baton.end(i);
        Out::local() = nullptr;
    });
    if (!threads) { std::lock_guard<std::mutex> l(baton.m); baton.next(); }
    for (auto &t : ts) t.join();
    for (auto &l : locals) out().merge(l);
    if (!threads) out().stat("switches", baton.switches);
    out().stat("sessions", n);
    out().sample(trace);
    for (int i = 0; i < n; i++) { hs[i].reset(); if (comms[i] != MPI_COMM_WORLD) MPI_Comm_free(&comms[i]); }
    if (mpi.size > 1) MPI_Barrier(MPI_COMM_WORLD);
    if (mpi.rank == 0) for (int i = 0; i < n; i++) for (int d = 0; d < 4 * mpi.size; d++) rmtree(a.dir + "/v" + std::to_string(c) + std::string(1, (char) ('a' + i)) + "-" + std::to_string(d));
}

int main(int argc, char **argv) {
    Mpi mpi(&argc, &argv);
    Args a = Args::parse(argc, argv);
    if (a.mode == "together" || a.mode == "threads") { run_cases(a, [&](long c, Rng &r) { several(a, mpi, c, r); }); out().done(); return 0; }
    run_cases(a, [&](long c, Rng &r) {
        Cfg f;
        uint64_t x = r.below(20);
        f.backend = x < 14 ? MEM : x < 18 ? LDB : RDB;
        f.per_server = r.chance(1, 2) ? 1 : 1 + r.below(6);
        f.hash = HASHES[r.below(9)];
        static const size_t ops[] = {1, 2, 3, 5, 7, 16, 128};
        f.ops = ops[r.below(7)];
        static const size_t sizes[] = {1, 60, 100, 200, 500, 4096, 1048576};
        f.size = sizes[r.below(7)];
        f.async = (a.mode == "rw" || a.mode == "acct") && r.chance(1, 5) ? 1 + r.below(6) : 0;
        if (a.extra == "async") f.async = r.chance(1, 3) ? 1 : 1 + r.below(12);
        if (r.chance(1, 3)) f.track = {"ab"};
        f.hwrite = false;
        f.dir = a.dir;
        f.base = "m" + std::to_string(c);
        bool again = r.chance(1, 2);
        Rng q(r.next() + 7777u * (unsigned) mpi.rank);
        if (mpi.size > 1) { f.mpi = true; f.cr = 1 + r.below(3); f.sr = 1 + r.below(3); f.listeners = 1 + (int) r.below(3); }
        {
            bool big = r.chance(1, 40);
            if (big) { f.ops = r.chance(1, 2) ? 4096 : 30 + r.below(300); f.size = 1 << (12 + r.below(12)); if (r.chance(1, 2)) f.per_server = 1; out().stat("large_histories"); }
            History h(mpi.size > 1 ? q : r, f, a.mode, mpi, again);
            h.big = big;
            h.run();
        }
        if (mpi.size > 1) MPI_Barrier(MPI_COMM_WORLD);
        if (f.backend != MEM && mpi.rank == 0)
            for (size_t i = 0; i < 6u * (mpi.size > 1 ? 3u * (unsigned) mpi.size : 1u); i++) rmtree(a.dir + "/" + f.base + "-" + std::to_string(i));
    });
    out().done();
}
