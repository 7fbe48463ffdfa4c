// Range reads: C03 (modes range, numeric) against an independent model of the key order, C04 (mode equiv) by running one
// history on all three backends.
#include "sess.hpp"
#include <memory>
using namespace vf;

static const hxhim_getop_t OPS[] = {HXHIM_GETOP_EQ, HXHIM_GETOP_NEXT, HXHIM_GETOP_PREV, HXHIM_GETOP_FIRST, HXHIM_GETOP_LAST, HXHIM_GETOP_LOWEST, HXHIM_GETOP_HIGHEST};

struct Trip { Val s, p, o; };
struct Query { Val s, p; T ot; size_t n; hxhim_getop_t op; };
static std::string show(const Query &q) {
    return std::string(HXHIM_GETOP_STR[q.op]) + " " + show(q.s) + "," + (q.p.b.empty() ? "null/" + std::to_string((int) q.p.t) : show(q.p)) + " n=" + std::to_string(q.n);
}
// What a query must return: records in order, then whether an error result is required / allowed
struct Want { std::vector<Trip> recs; int min_err = 0, max_err = 0; };

static std::string le8(uint64_t v) { std::string s(8, 0); for (int i = 0; i < 8; i++) s[i] = (char) (v >> (8 * i)); return s; }
static bool lessb(const std::string &a, const std::string &b) {
    int c = memcmp(a.data(), b.data(), std::min(a.size(), b.size()));
    return c ? c < 0 : a.size() < b.size();
}
struct Less { bool operator()(const std::string &a, const std::string &b) const { return lessb(a, b); } };

// byte-string keys: the documented layout
static std::string keyof(const Val &s, const Val &p) {
    return s.b + p.b + "\xff" + le8(s.b.size()) + le8(p.b.size()) + std::string(1, (char) s.t) + std::string(1, (char) p.t);
}
struct ByteStore {
    std::map<std::string, Trip, Less> m;
    void put(const Val &s, const Val &p, const Val &o) { m[keyof(s, p)] = Trip{s, p, o}; }
    void del(const Val &s, const Val &p) { m.erase(keyof(s, p)); }
    bool has(const std::string &k, const std::string &pre) const { return k.compare(0, pre.size(), pre) == 0; }
    Want ask(const Query &q) const {
        Want w;
        std::string pre = q.s.b + q.p.b;
        auto fwd = [&](decltype(m.begin()) it, size_t n, bool bounded) { for (; n && it != m.end() && (!bounded || has(it->first, pre)); ++it, --n) w.recs.push_back(it->second); };
        auto lb = m.lower_bound(pre);
        switch (q.op) {
            case HXHIM_GETOP_EQ: if (lb != m.end() && has(lb->first, pre)) w.recs.push_back(lb->second); break;
            case HXHIM_GETOP_NEXT: fwd(lb, q.n, false); break;
            case HXHIM_GETOP_FIRST: fwd(m.begin(), q.n, false); break;
            case HXHIM_GETOP_LOWEST: fwd(lb, q.n, true); break;
            case HXHIM_GETOP_PREV:
                if (lb != m.end()) { auto it = lb; for (size_t i = 0; i < q.n; i++) { w.recs.push_back(it->second); if (it == m.begin()) break; --it; } }
                break;
            case HXHIM_GETOP_LAST: { auto it = m.end(); for (size_t i = 0; i < q.n && it != m.begin(); i++) { --it; w.recs.push_back(it->second); } break; }
            case HXHIM_GETOP_HIGHEST: {
                std::vector<Trip> in; for (auto it = lb; it != m.end() && has(it->first, pre); ++it) in.push_back(it->second);
                for (size_t i = 0; i < q.n && i < in.size(); i++) w.recs.push_back(in[in.size() - 1 - i]);
                break;
            }
            default: break;
        }
        if (w.recs.empty()) {
            w.max_err = 1;
            bool strict = q.op == HXHIM_GETOP_EQ || (q.n && (q.op == HXHIM_GETOP_NEXT || q.op == HXHIM_GETOP_PREV || q.op == HXHIM_GETOP_FIRST || q.op == HXHIM_GETOP_LAST));
            w.min_err = strict ? 1 : 0;
        }
        return w;
    }
};

// numeric predicates of one type: records ordered by (subject bytes, number); texts that sort before or after every
// encoded number may lie beside them
struct NumStore {
    struct At { std::string s; int side; double x; std::string t; bool operator<(const At &o) const { return std::tie(s, side, x, t) < std::tie(o.s, o.side, o.x, o.t); } bool operator==(const At &o) const { return std::tie(s, side, x, t) == std::tie(o.s, o.side, o.x, o.t); } };
    std::map<At, Trip> m; // doubles represent every value used exactly
    static bool text(const Val &p) { return p.t == HXHIM_DATA_BYTE; }
    static At at(const Val &s, const Val &p) { return text(p) ? At{s.b, p.b[0] < ' ' ? -1 : 1, 0, p.b} : At{s.b, 0, p.b.empty() ? -INFINITY : num(p), ""}; }
    size_t numbers(const std::string &s) const { size_t n = 0; for (auto &kv : m) n += kv.first.s == s && !kv.first.side; return n; }
    bool texts() const { for (auto &kv : m) if (kv.first.side) return true; return false; }
    static double num(const Val &v) {
        switch (v.t) {
            case HXHIM_DATA_INT32: return as<int32_t>(v); case HXHIM_DATA_INT64: return (double) as<int64_t>(v);
            case HXHIM_DATA_UINT32: return as<uint32_t>(v); case HXHIM_DATA_UINT64: return (double) as<uint64_t>(v);
            case HXHIM_DATA_FLOAT: return as<float>(v); default: return as<double>(v);
        }
    }
    void put(const Val &s, const Val &p, const Val &o) { m[at(s, p)] = Trip{s, p, o}; }
    void del(const Val &s, const Val &p) { m.erase(at(s, p)); }
    Want ask(const Query &q, bool anchored) const {
        Want w;
        std::vector<const Trip *> all, sub;
        size_t at = 0, eq = (size_t) -1;
        const At k = NumStore::at(q.s, q.p);
        for (auto &kv : m) {
            if (kv.first < k) at++;
            if (!q.p.b.empty() && kv.first == k) eq = all.size();
            all.push_back(&kv.second);
            if (kv.first.s == q.s.b && !kv.first.side) sub.push_back(&kv.second);
        }
        (void) anchored;
        switch (q.op) {
            case HXHIM_GETOP_EQ: if (!q.p.b.empty()) { if (eq != (size_t) -1) w.recs.push_back(*all[eq]); } else if (!sub.empty()) w.recs.push_back(*sub[0]); break;
            case HXHIM_GETOP_NEXT: for (size_t i = at; i < all.size() && i < at + q.n; i++) w.recs.push_back(*all[i]); break;
            case HXHIM_GETOP_PREV: if (at < all.size()) for (size_t i = 0; i < q.n && i <= at; i++) w.recs.push_back(*all[at - i]); break;
            case HXHIM_GETOP_FIRST: for (size_t i = 0; i < q.n && i < all.size(); i++) w.recs.push_back(*all[i]); break;
            case HXHIM_GETOP_LAST: for (size_t i = 0; i < q.n && i < all.size(); i++) w.recs.push_back(*all[all.size() - 1 - i]); break;
            case HXHIM_GETOP_LOWEST:
                if (!q.p.b.empty()) { if (q.n && eq != (size_t) -1) w.recs.push_back(*all[eq]); }
                else for (size_t i = 0; i < q.n && i < sub.size(); i++) w.recs.push_back(*sub[i]);
                break;
            case HXHIM_GETOP_HIGHEST:
                if (!q.p.b.empty()) { if (q.n && eq != (size_t) -1) w.recs.push_back(*all[eq]); }
                else for (size_t i = 0; i < q.n && i < sub.size(); i++) w.recs.push_back(*sub[sub.size() - 1 - i]);
                break;
            default: break;
        }
        if (w.recs.empty()) {
            w.max_err = 1;
            w.min_err = q.op == HXHIM_GETOP_EQ || (q.n && (q.op == HXHIM_GETOP_NEXT || q.op == HXHIM_GETOP_PREV || q.op == HXHIM_GETOP_FIRST || q.op == HXHIM_GETOP_LAST)) ? 1 : 0;
        }
        return w;
    }
};

static bool match(const Trip &t, const Rec &g) { return g.status == HXHIM_SUCCESS && g.has_o && same(t.s, g.s) && same(t.p, g.p) && same(t.o, g.o); }

// in runs of several ranks one of them asks (the last, which need not have a datastore), the others serve
static bool driver = true;

static void layout(Cfg &f, Rng &r, const Mpi &mpi) {
    if (mpi.size == 1) return;
    f.mpi = true; f.cr = 1 + r.below(3); f.sr = 1 + r.below(3); f.listeners = 1 + (int) r.below(2);
}

struct Range {
    Rng &r; Cfg cfg; bool numeric;
    Sess S;
    std::map<int, ByteStore> bs; std::map<int, NumStore> ns;
    std::vector<Val> subs, preds;
    T nt = HXHIM_DATA_BYTE;
    std::string trace; uint64_t shape = 7;
    long nq = 0, nonempty = 0;
    bool big = false; // a few hundred records
    Range(Rng &r, const Cfg &c, bool n) : r(r), cfg(c), numeric(n) {}
    void note(const std::string &s) { if (trace.size() < 1000) trace += s + "; "; shape = fnv(s, shape); }
    void bad(const std::string &k, const std::string &m) { out().fail(k, cfg.str() + " | " + m + " | history: " + trace); }
    int where(const Val &s, const Val &p) { return hxhim_hash(&S.hx, (void *) s.b.data(), s.b.size(), p.b.empty() ? nullptr : (void *) p.b.data(), p.b.size()); }

    Val number() {
        double d = nice_real(r);
        bool big = r.chance(1, 5);
        switch (nt) {
            case HXHIM_DATA_INT32: return vi32(big ? (int32_t) r.next() : (int32_t) r.range(-120, 120));
            case HXHIM_DATA_INT64: return vi64(big ? (int64_t) r.next() >> (12 + r.below(40)) : r.range(-1200, 1200));
            case HXHIM_DATA_UINT32: return vu32(big ? (uint32_t) r.next() : (uint32_t) r.below(300));
            case HXHIM_DATA_UINT64: return vu64(big ? r.next() >> (12 + r.below(40)) : r.below(3000));
            case HXHIM_DATA_FLOAT: return vflt((float) d);
            default: return vdbl(d);
        }
    }
    Val bytes() {
        size_t n = 1 + r.below(r.chance(1, 3) ? 8 : 3);
        std::string s = rnd_bytes(r, n, r.chance(1, 2) ? 0 : (int) r.below(4));
        return r.chance(1, 6) ? vptr(s) : vbyte(s);
    }
    Val obj() { return rnd_val(r, 30, false); }
    const Val &pick(const std::vector<Val> &v) { return v[r.below(v.size())]; }

    void mutate(int n) {
        std::set<Key> seen; // one mutation per key and flush
        for (int i = 0; i < n; i++) {
            Key k{pick(subs), pick(preds)};
            if (!seen.insert(k).second) continue;
            int d = where(k.s, k.p);
            if (r.chance(1, 4)) {
                S.del(k.s, k.p); note("del" + show(k));
                if (numeric) ns[d].del(k.s, k.p); else bs[d].del(k.s, k.p);
            } else {
                Val o = obj();
                S.put(k.s, k.p, o); note("put" + show(k));
                if (numeric) ns[d].put(k.s, k.p, o); else bs[d].put(k.s, k.p, o);
            }
        }
        S.flush();
    }
    Query query() {
        Query q;
        q.op = OPS[r.below(7)];
        q.ot = (T) (1 + r.below(8));
        q.n = r.chance(1, 14) ? 0 : r.chance(1, big ? 2 : 6) ? (big ? 100 + r.below(900) : 40 + r.below(60)) : 1 + r.below(6);
        q.s = pick(subs);
        q.p = r.chance(3, 4) ? pick(preds) : numeric ? number() : bytes();
        if (numeric) {
            if (r.chance(1, 3)) {
                q.p = Val(); q.p.t = nt;
                // where texts lie beside the numbers, ask for no more than the numbers there are
                const NumStore &s = ns[where(q.s, q.p)];
                if (s.texts()) {
                    size_t have = s.numbers(q.s.b);
                    if (have) { q.op = r.chance(1, 2) ? HXHIM_GETOP_LOWEST : HXHIM_GETOP_HIGHEST; q.n = 1 + r.below(have); out().stat("numbers_beside_texts"); }
                    else q.p = pick(preds);
                }
            }
            // a prefix read below a null predicate is only ordered by LOWEST and HIGHEST; the others are positions
        } else {
            if (r.chance(1, 4)) { q.p = Val(); q.p.t = HXHIM_DATA_BYTE; }
            if (r.chance(1, 6)) q.s = bytes();
            if (r.chance(1, 8) && q.s.b.size() > 1) q.s.b.resize(1 + r.below(q.s.b.size()));
            if (r.chance(1, 8) && q.p.b.size() > 1) q.p.b.resize(1 + r.below(q.p.b.size()));
        }
        return q;
    }
    Want ask(const Query &q) { int d = where(q.s, q.p); return numeric ? ns[d].ask(q, true) : bs[d].ask(q); }

    void queries(int n) {
        bool one = r.chance(1, 2);
        std::vector<Want> wants; std::vector<Query> qs;
        auto done = [&]() {
            auto got = collect(hxhim::FlushGetOps(&S.hx));
            S.arena.clear();
            nq += (long) qs.size();
            std::string desc;
            for (auto &q : qs) desc += show(q) + "; ";
            std::vector<Rec> ok; int err = 0;
            for (auto &g : got) {
                if (g.op != HXHIM_GETOP) bad("getop:kind", "a range read returned another kind of result");
                if (g.status == HXHIM_SUCCESS) ok.push_back(g); else err++;
            }
            std::vector<Trip> want; int mn = 0, mx = 0;
            for (auto &w : wants) { want.insert(want.end(), w.recs.begin(), w.recs.end()); mn += w.min_err; mx += w.max_err; }
            nonempty += (long) want.size();
            auto list = [](const std::vector<Rec> &v) { std::string s; for (auto &g : v) if (s.size() < 400) s += show(g) + " "; return s; };
            auto lw = [](const std::vector<Trip> &v) { std::string s; for (auto &t : v) if (s.size() < 400) s += show(t.s) + "," + show(t.p) + "=" + show(t.o) + " "; return s; };
            std::string k = qs.size() == 1 ? HXHIM_GETOP_STR[qs[0].op] : "batch";
            if (err < mn || err > mx) bad("errors:" + k, desc + " " + std::to_string(err) + " error result(s), expected " + std::to_string(mn) + ".." + std::to_string(mx) + "; got " + list(got) + "want " + lw(want));
            if (ok.size() != want.size()) bad("count:" + k, desc + " returned " + std::to_string(ok.size()) + " records, expected " + std::to_string(want.size()) + ": " + list(ok) + " want " + lw(want));
            else if (qs.size() == 1) {
                for (size_t i = 0; i < ok.size(); i++)
                    if (!match(want[i], ok[i])) { bad("record:" + k, desc + " record " + std::to_string(i) + " is " + show(ok[i]) + ", expected " + show(want[i].s) + "," + show(want[i].p) + "=" + show(want[i].o)); break; }
            } else {
                std::vector<bool> used(ok.size());
                for (auto &w : want) {
                    bool hit = false;
                    for (size_t i = 0; i < ok.size() && !hit; i++) if (!used[i] && match(w, ok[i])) used[i] = hit = true;
                    if (!hit) { bad("record:batch", desc + " misses " + show(w.s) + "," + show(w.p)); break; }
                }
            }
            if (qs.size() == 1) {
                int d = where(qs[0].s, qs[0].p);
                for (auto &g : got) if (g.rs != d) bad("getop:datastore", desc + " answered by datastore " + std::to_string(g.rs) + ", the pair hashes to " + std::to_string(d));
            }
            wants.clear(); qs.clear();
        };
        for (int i = 0; i < n; i++) {
            Query q = query();
            note(show(q));
            if (S.getop(q.s, q.p, q.ot, q.n, q.op) != HXHIM_SUCCESS) { bad("getop:refused", show(q) + " was refused"); continue; }
            wants.push_back(ask(q)); qs.push_back(q);
            if (one) done();
        }
        if (!qs.empty()) done();
    }
    void run() {
        if (!S.open(cfg)) return bad("open", "session did not open");
        if (!driver) { S.close(); return; }
        if (numeric) {
            static const T ts[] = {HXHIM_DATA_INT32, HXHIM_DATA_INT64, HXHIM_DATA_UINT32, HXHIM_DATA_UINT64, HXHIM_DATA_FLOAT, HXHIM_DATA_DOUBLE};
            nt = ts[r.below(6)];
            // no subject is a prefix of another
            int n = 1 + (int) r.below(4);
            for (int i = 0; i < n; i++) { Val v = vbyte(std::string(1, (char) (1 + r.below(254))) + rnd_bytes(r, 2, 0)); bool clash = false; for (auto &x : subs) clash |= x == v; if (!clash) subs.push_back(v); }
            n = big ? 300 + (int) r.below(300) : 3 + (int) r.below(14);
            for (int i = 0; i < n; i++) preds.push_back(number());
            if (r.chance(1, 2)) for (size_t i = 0, x = 1 + r.below(4); i < x; i++) preds.push_back(vbyte(std::string(1, (char) (r.chance(1, 2) ? 1 + r.below(20) : 'a' + r.below(26))) + rnd_bytes(r, 2, 0)));
        } else {
            int n = big ? 12 + (int) r.below(15) : 2 + (int) r.below(5);
            for (int i = 0; i < n; i++) { subs.push_back(bytes()); preds.push_back(bytes()); preds.push_back(bytes()); }
            // nested prefixes and the end of the key space
            if (r.chance(1, 2)) { Val v = pick(subs); v.b += rnd_bytes(r, 1 + r.below(2), (int) r.below(4)); subs.push_back(v); }
            if (r.chance(1, 3)) subs.push_back(vbyte("\xff\xff"));
        }
        int rounds = big ? 1 : 1 + (int) r.below(4);
        for (int i = 0; i < rounds; i++) {
            if (i || r.chance(9, 10)) mutate(big ? 500 + (int) r.below(500) : 3 + (int) r.below(25));
            queries(big ? 6 : 2 + (int) r.below(10));
        }
        if (S.close() != HXHIM_SUCCESS) bad("close", "Close failed");
        out().stat("queries", nq); out().stat("records_compared", nonempty);
        if (nonempty > 2) out().dist("nontrivial", shape ^ fnv(cfg.str()));
        out().sample(cfg.str() + ": " + trace);
    }
};

// one history, three backends
struct Step { int what; Val s, p, o; size_t n; hxhim_getop_t op; T ot; size_t perms; };
static void equiv(Rng &r, const Args &a, long c, const Mpi &mpi) {
    Cfg f;
    f.per_server = r.chance(1, 2) ? 1 : 1 + r.below(4);
    f.hash = HASHES[r.below(9)];
    static const size_t ops[] = {1, 2, 5, 128};
    f.ops = ops[r.below(4)];
    f.size = r.chance(1, 3) ? 200 : 1048576;
    f.dir = a.dir;
    layout(f, r, mpi);
    std::vector<Val> subs, preds;
    int np = 2 + (int) r.below(5);
    auto v = [&]() { return r.chance(1, 2) ? rnd_val(r) : vbyte(rnd_bytes(r, 1 + r.below(4), (int) r.below(4))); };
    for (int i = 0; i < np; i++) { subs.push_back(v()); preds.push_back(v()); }
    if (r.chance(1, 3)) { // encodings shared by several types
        subs.push_back(vi32(5)); subs.push_back(vi64(5)); subs.push_back(vu32(5)); preds.push_back(vi32(5)); preds.push_back(vu64(5)); preds.push_back(vflt(5)); preds.push_back(vdbl(5));
    }
    if (r.chance(1, 6)) { preds.push_back(vdbl(INFINITY)); preds.push_back(vflt(NAN)); }
    std::vector<std::vector<Step>> flushes;
    std::string trace;
    const bool big = r.chance(1, 50); // many operations in one request
    int nf = big ? 2 : 2 + (int) r.below(5);
    if (big) { f.ops = 1024; f.size = 1048576; for (int i = 0; i < 20; i++) { subs.push_back(v()); preds.push_back(v()); } }
    for (int i = 0; i < nf; i++) {
        std::vector<Step> st;
        int n = big ? 100 + (int) r.below(400) : 1 + (int) r.below(14);
        for (int j = 0; j < n; j++) {
            Step x; x.what = (int) r.below(i == 0 ? 2 : 8);
            x.s = subs[r.below(subs.size())]; x.p = preds[r.below(preds.size())]; x.o = rnd_val(r, 60, false);
            if (r.chance(1, 30)) x.o = r.chance(1, 2) ? vflt(INFINITY) : vdbl(-INFINITY);
            x.n = 1 + r.below(r.chance(1, 4) ? (big && r.chance(1, 8) ? 500 : 40) : 5); x.op = OPS[r.below(7)]; x.ot = (T) (1 + r.below(8)); x.perms = r.chance(1, 2) ? (size_t) HXHIM_PUT_SPO : 1 + r.below(63);
            if (x.what >= 5 && r.chance(1, 4)) { x.p.b.clear(); x.p.t = (T) (1 + r.below(8)); }
            if (trace.size() < 900) trace += std::string(x.what < 3 ? "put" : x.what < 4 ? "get" : x.what < 5 ? "del" : HXHIM_GETOP_STR[x.op]) + show(x.s) + "," + (x.p.b.empty() ? "null" : show(x.p)) + (x.what < 3 ? "=" + show(x.o) + "/" + std::to_string(x.perms) : "") + "; ";
            st.push_back(x);
        }
        trace += "| ";
        flushes.push_back(st);
    }
    std::vector<std::vector<std::string>> logs[3];
    for (int b = 0; b < 3; b++) {
        Cfg g = f; g.backend = b; g.base = "e" + std::to_string(c) + "-" + std::to_string(b);
        Sess S;
        if (!S.open(g)) { out().fail("open", g.str()); return; }
        if (!driver) { S.close(); MPI_Barrier(MPI_COMM_WORLD); continue; }
        std::set<Key> live; // keys whose presence is certain: the status of deleting an absent key is not part of the property
        for (auto &st : flushes) {
            for (auto &x : st) {
                if (x.what < 3) S.put(x.s, x.p, x.o, x.perms);
                else if (x.what < 4) S.get(x.s, x.p, x.ot);
                else if (x.what < 5) S.del(x.s, x.p);
                else S.getop(x.s, x.p, x.ot, x.n, x.op);
            }
            std::vector<std::string> l;
            for (auto &g : S.flush()) {
                if (g.op == HXHIM_PUT && g.status == HXHIM_SUCCESS) live.insert(Key{g.s, g.p});
                std::string t = show(g);
                if (g.op == HXHIM_DELETE && !live.count(Key{g.s, g.p})) t = "delete of an absent key " + show(g.s) + "," + show(g.p) + " ds" + std::to_string(g.rs);
                if (g.op == HXHIM_DELETE) live.erase(Key{g.s, g.p});
                if (g.op == HXHIM_GETOP && g.status != HXHIM_SUCCESS) t = "no record";
                // what an unsuccessful read says about the object is not specified
                else if (g.op == HXHIM_GET && g.status != HXHIM_SUCCESS) t = "absent " + show(g.s) + "," + show(g.p) + " ds" + std::to_string(g.rs);
                l.push_back(t);
            }
            logs[b].push_back(l);
        }
        S.close();
        if (mpi.size > 1) MPI_Barrier(MPI_COMM_WORLD);
        if (b != MEM) for (size_t i = 0; i < f.per_server * (mpi.size > 1 ? 3 * (size_t) mpi.size : 1); i++) rmtree(a.dir + "/" + g.base + "-" + std::to_string(i));
    }
    if (!driver) return;
    for (int b = 1; b < 3; b++)
        for (size_t i = 0; i < flushes.size(); i++) {
            auto x = logs[0][i], y = logs[b][i];
            std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
            if (x != y) {
                std::string d;
                std::vector<std::string> dx, dy;
                std::set_difference(x.begin(), x.end(), y.begin(), y.end(), std::back_inserter(dx));
                std::set_difference(y.begin(), y.end(), x.begin(), x.end(), std::back_inserter(dy));
                for (auto &s : dx) d += "only in-memory: " + s + "; ";
                for (auto &s : dy) d += std::string("only ") + backend_name(b) + ": " + s + "; ";
                out().fail(std::string("differs:") + backend_name(b), f.str() + " | flush " + std::to_string(i) + ": " + d.substr(0, 700) + " | history: " + trace);
            } else if (logs[0][i] != logs[b][i])
                out().fail(std::string("order:") + backend_name(b), f.str() + " | flush " + std::to_string(i) + " returns the same results in another order | history: " + trace);
            out().stat("results_compared", (long) y.size());
        }
    out().dist("nontrivial", fnv(trace, fnv(f.str())));
    out().sample(f.str() + ": " + trace);
}

int main(int argc, char **argv) {
    Mpi mpi(&argc, &argv);
    Args a = Args::parse(argc, argv);
    driver = mpi.rank == mpi.size - 1;
    run_cases(a, [&](long c, Rng &r) {
        if (a.mode == "equiv") return equiv(r, a, c, mpi);
        Cfg f;
        uint64_t x = r.below(20);
        f.backend = x < 12 ? MEM : x < 16 ? LDB : RDB;
        f.per_server = r.chance(2, 3) ? 1 : 1 + r.below(4);
        f.hash = HASHES[r.below(9)];
        static const size_t ops[] = {1, 2, 3, 7, 128};
        f.ops = ops[r.below(5)];
        static const size_t sizes[] = {1, 100, 300, 4096, 1048576};
        f.size = sizes[r.below(5)];
        f.dir = a.dir; f.base = "g" + std::to_string(c);
        layout(f, r, mpi);
        { Range h(r, f, a.mode == "numeric"); if ((h.big = r.chance(1, 60))) { h.cfg.ops = f.ops == 1 ? 128 : 1024; h.cfg.size = 1048576; if (r.chance(2, 3)) h.cfg.per_server = 1; out().stat("large_stores"); } h.run(); }
        if (mpi.size > 1) MPI_Barrier(MPI_COMM_WORLD);
        if (f.backend != MEM && driver) for (size_t i = 0; i < 4 * (mpi.size > 1 ? 3 * (size_t) mpi.size : 1); i++) rmtree(a.dir + "/" + f.base + "-" + std::to_string(i));
    });
    out().done();
}
