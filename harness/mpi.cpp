// C14: several ranks, one store. Every rank derives what all ranks do in a round from the case's random numbers, so each
// of them keeps the same reference map of the whole store and checks every result it gets against it.
#include "sess.hpp"
#include "hxhim/Datastore.hpp"
using namespace vf;

static int forced = -1;                 // audits address one datastore directly
static int ident_hash(hxhim_t *hx, void *s, size_t sl, void *p, size_t pl, void *) {
    if (forced >= 0) return forced;
    size_t n = 1; hxhim::GetDatastoreCount(hx, &n);
    return (int) (fnv(s, sl, fnv(p, pl)) % n);
}
static int two_buckets(const double *, const size_t, double **buckets, size_t *size, void *) {
    *size = 2;
    *buckets = static_cast<double *>(::operator new[](sizeof(double) * 3));
    (*buckets)[0] = -1e300; (*buckets)[1] = 0; (*buckets)[2] = 1e300;
    return HISTOGRAM_SUCCESS;
}

struct Op { int op; Key k; Val o; size_t perms = HXHIM_PUT_SPO; bool bulk = false; };
struct Exp { int op; Key k; bool found = false; Val want; };

struct World {
    Rng &r; const Args &a; Mpi &mpi; long c;
    Cfg cfg; Sess S;
    bool custom = true, groups = false, tracked = false;
    std::vector<std::set<int>> group;   // per rank: the ranks it can send to
    std::vector<Key> pool, contended;
    std::map<Key, Val> model;
    std::map<Key, int> last;            // contended key -> writer that won, -1 none
    std::map<int, std::pair<long, long>> tracked_counts;
    size_t total = 0; std::vector<int> rank_of;
    std::string trace; uint64_t shape = 7;
    long serial = 0;

    World(Rng &r, const Args &a, Mpi &m, long c) : r(r), a(a), mpi(m), c(c) {}
    std::string ctx() const { return cfg.str() + " ratio " + std::to_string(cfg.cr) + ":" + std::to_string(cfg.sr) + " listeners " + std::to_string(cfg.listeners) + (groups ? " groups" : "") + " of " + std::to_string(mpi.size); }
    void bad(const std::string &k, const std::string &m) { out().fail(k, ctx() + " | " + m + " | " + trace); }
    void note(const std::string &s) { if (trace.size() < 700) trace += s + "; "; shape = fnv(s, shape); }
    int where(const Key &k) { return hxhim_hash(&S.hx, (void *) k.s.b.data(), k.s.b.size(), (void *) k.p.b.data(), k.p.b.size()); }
    int where_for(int rank, const Key &k) { return cfg.hash == "RANK_MOD_DATASTORES" && !custom ? rank % (int) total : where(k); }
    bool reach(int rank, const Key &k) {
        int to = rank_of[where_for(rank, k)];
        return to == rank || !groups || group[rank].count(to);
    }
    void barrier() { MPI_Barrier(MPI_COMM_WORLD); }

    bool open() {
        if (hxhim::Init(&S.hx, MPI_COMM_WORLD) != HXHIM_SUCCESS) return false;
        S.inited = true; S.cfg = cfg;
        if (!apply(&S.hx, cfg)) return false;
        if (custom && hxhim_set_hash_function(&S.hx, "ident", ident_hash, nullptr) != HXHIM_SUCCESS) return false;
        if (tracked && hxhim_set_histogram_bucket_gen_function(&S.hx, two_buckets, nullptr) != HXHIM_SUCCESS) return false;
        if (groups) {
            hxhim_clear_endpoint_group(&S.hx);
            for (int g : group[mpi.rank]) hxhim_add_endpoint_to_group(&S.hx, g);
        }
        S.opened = hxhim::Open(&S.hx) == HXHIM_SUCCESS;
        return S.opened;
    }

    // what one rank does in one round: the same on every rank that computes it
    std::vector<Op> plan(int rank, int round) {
        Rng q(a.seed * 7919 + (uint64_t) c * 104729 + (uint64_t) round * 131 + (uint64_t) rank);
        std::vector<Op> v;
        int n = q.chance(1, 6) ? 0 : 1 + (int) q.below(q.chance(1, 5) ? 60 : 14);
        long ser = 0;
        for (int i = 0; i < n; i++) {
            Op o; size_t idx;
            do idx = q.below(pool.size()); while (false);
            idx = idx - idx % mpi.size + (rank + round) % mpi.size;      // keys are handed round
            if (idx >= pool.size()) continue;
            o.k = pool[idx];
            uint64_t x = q.below(10);
            o.op = x < 6 ? HXHIM_PUT : x < 8 ? HXHIM_GET : HXHIM_DELETE;
            std::string tag = "r" + std::to_string(rank) + "." + std::to_string(round) + "." + std::to_string(ser++);
            if (q.chance(1, 10)) tag += std::string(q.below(3000), 'x');
            o.o = vbyte(tag);
            if (tracked && o.k.p.b == "trk") o.o = vdbl((double) q.range(-50, 50));
            else if (!groups && q.chance(1, 3)) o.perms = 1 + q.below(63);
            if (!groups) o.bulk = q.chance(1, 3);
            v.push_back(o);
        }
        return v;
    }
    std::vector<size_t> chunks(int rank, int round, size_t n) {
        Rng q(a.seed * 15485863 + (uint64_t) c * 31 + (uint64_t) round * 17 + (uint64_t) rank);
        std::vector<size_t> v; size_t at = 0;
        while (at < n) { at = std::min(n, at + 1 + q.below(q.chance(1, 3) ? 3 : 40)); v.push_back(at); }
        return v;
    }
    // effect of one rank's round on the store; with exp, what each of its flushes returns
    void perform(int rank, const std::vector<Op> &ops, int round, bool mine) {
        size_t at = 0;
        for (size_t end : chunks(rank, round, ops.size())) {
            std::vector<Exp> exp;
            auto each = [&](int kind, auto fn) { for (size_t i = at; i < end; i++) if (ops[i].op == kind && reach(rank, ops[i].k)) fn(ops[i]); };
            if (mine) issue(ops, at, end);
            each(HXHIM_PUT, [&](const Op &o) {
                each_perm(o.perms, o.k.s, o.k.p, o.o, [&](size_t, const Val &s, const Val &p, const Val &v) {
                    model[Key{s, p}] = v;
                    if (tracked && p == vbyte("trk") && v.t == HXHIM_DATA_DOUBLE) {
                        auto &t = tracked_counts[where_for(rank, Key{s, p})];
                        (as<double>(v) < 0 ? t.first : t.second)++;
                    }
                    exp.push_back(Exp{HXHIM_PUT, Key{s, p}});
                });
            });
            each(HXHIM_GET, [&](const Op &o) { Exp e{HXHIM_GET, o.k}; auto it = model.find(o.k); if ((e.found = it != model.end())) e.want = it->second; exp.push_back(e); });
            each(HXHIM_DELETE, [&](const Op &o) { Exp e{HXHIM_DELETE, o.k}; e.found = model.erase(o.k) > 0; exp.push_back(e); });
            if (mine) { check("round " + std::to_string(round), collect(hxhim::Flush(&S.hx)), exp); S.arena.clear(); }
            at = end;
        }
    }
    void refused(int rc, const Key &k, const char *what) {
        bool ok = reach(mpi.rank, k);
        if (ok != (rc == HXHIM_SUCCESS)) bad(ok ? "op:refused" : "op:unreachable", std::string(what) + " of " + show(k) + (ok ? " was refused" : " to a rank outside of the endpoint group was accepted"));
        if (!ok) out().stat("refused_operations");
    }
    void issue(const std::vector<Op> &ops, size_t at, size_t end) {
        std::vector<const Op *> bp, bg, bd;
        for (size_t i = at; i < end; i++) {
            const Op &o = ops[i];
            out().stat("operations");
            // the order of the puts of a key is what counts, so bulk and single puts are not mixed in a flush
            if (o.op == HXHIM_PUT && ops[at].bulk) bp.push_back(&o);
            else if (o.op == HXHIM_PUT) refused(S.put(o.k.s, o.k.p, o.o, o.perms), o.k, "PUT");
            else if (o.op == HXHIM_GET && o.bulk) bg.push_back(&o);
            else if (o.op == HXHIM_GET) refused(S.get(o.k.s, o.k.p, HXHIM_DATA_BYTE), o.k, "GET");
            else if (o.op == HXHIM_DELETE && o.bulk) bd.push_back(&o);
            else refused(S.del(o.k.s, o.k.p), o.k, "DELETE");
            if (cfg.async && i % 5 == 0) sched_yield();
        }
        for (auto *l : {&bp, &bg, &bd}) {
            if (l->empty()) continue;
            std::vector<void *> s, p, o; std::vector<size_t> sl, pl, ol, pm; std::vector<T> st, pt, ot;
            for (auto *x : *l) {
                s.push_back(S.keep(x->k.s.b)); sl.push_back(x->k.s.b.size()); st.push_back(x->k.s.t);
                p.push_back(S.keep(x->k.p.b)); pl.push_back(x->k.p.b.size()); pt.push_back(x->k.p.t);
                o.push_back(S.keep(x->o.b)); ol.push_back(x->o.b.size()); ot.push_back(l == &bg ? HXHIM_DATA_BYTE : x->o.t); pm.push_back(x->perms);
            }
            int rc = l == &bp ? hxhim::BPut(&S.hx, s.data(), sl.data(), st.data(), p.data(), pl.data(), pt.data(), o.data(), ol.data(), ot.data(), pm.data(), s.size())
                   : l == &bg ? hxhim::BGet(&S.hx, s.data(), sl.data(), st.data(), p.data(), pl.data(), pt.data(), ot.data(), s.size())
                              : hxhim::BDelete(&S.hx, s.data(), sl.data(), st.data(), p.data(), pl.data(), pt.data(), s.size());
            if (rc != HXHIM_SUCCESS) bad("op:refused", "a bulk operation was refused");
        }
    }
    void check(const std::string &what, std::vector<Rec> got, const std::vector<Exp> &exp) {
        std::vector<bool> used(got.size(), false);
        out().stat("results_checked", (long) got.size());
        for (auto &e : exp) {
            bool hit = false;
            for (size_t i = 0; i < got.size() && !hit; i++) {
                const Rec &g = got[i];
                if (used[i] || g.op != e.op || !(g.s == e.k.s) || !(g.p == e.k.p)) continue;
                used[i] = hit = true;
                if (g.rs != where(e.k)) bad("result:wrong-datastore", what + ": " + show(g) + " but the key hashes to " + std::to_string(where(e.k)));
                if (rank_of[where(e.k)] != mpi.rank) out().stat("remote_results");
                if (e.op == HXHIM_PUT && g.status != HXHIM_SUCCESS) bad("put:failed", what + ": " + show(g));
                if (e.op == HXHIM_DELETE && e.found && g.status != HXHIM_SUCCESS) bad("del:failed", what + ": " + show(g));
                if (e.op == HXHIM_GET) {
                    if (e.found && (g.status != HXHIM_SUCCESS || !g.has_o)) bad("get:lost", what + ": " + show(e.k) + " should read " + show(e.want));
                    else if (e.found && !same(e.want, g.o)) bad("get:wrong", what + ": " + show(e.k) + " reads " + show(g.o) + " instead of " + show(e.want));
                    else if (!e.found && g.status == HXHIM_SUCCESS) bad("get:ghost", what + ": " + show(e.k) + " reads " + show(g.o) + " but is not stored");
                }
            }
            if (!hit) bad(std::string("missing:") + HXHIM_OP_STR[e.op], what + ": no result for " + show(e.k));
        }
        for (size_t i = 0; i < got.size(); i++) if (!used[i]) bad("extra", what + ": result without an operation " + show(got[i]));
    }
    void read_all(const std::string &what, Rng &q, size_t some) {
        std::vector<Exp> exp;
        auto one = [&](const Key &k) {
            Exp e{HXHIM_GET, k}; auto it = model.find(k); if ((e.found = it != model.end())) e.want = it->second;
            int rc = S.get(k.s, k.p, e.found ? e.want.t : HXHIM_DATA_BYTE);
            refused(rc, k, "GET");
            if (rc == HXHIM_SUCCESS) exp.push_back(e);
        };
        if (!custom && cfg.hash == "RANK_MOD_DATASTORES") return;   // every rank has its own view
        for (auto &k : pool) if (!some || q.below(pool.size()) < some) one(k);
        size_t n = 0; for (auto &m : model) { if (some && q.below(model.size()) >= some) continue; if (++n > 400) break; one(m.first); }
        check(what, collect(hxhim::FlushGets(&S.hx)), exp);
        S.arena.clear();
    }
    void contend(int round) {
        // several ranks write one key: afterwards everybody reads the same one of the values
        std::vector<std::set<int>> cand(contended.size());
        for (int rk = 0; rk < mpi.size; rk++) {
            Rng q(a.seed * 65537 + (uint64_t) c * 257 + (uint64_t) round * 19 + (uint64_t) rk);
            std::vector<Exp> exp;
            for (size_t i = 0; i < contended.size(); i++) {
                if (!q.chance(2, 3)) continue;
                const int v = round * 100 + rk;
                if (reach(rk, contended[i])) cand[i].insert(v);
                if (rk == mpi.rank) {
                    int rc = S.put(contended[i].s, contended[i].p, vi32(v));
                    refused(rc, contended[i], "PUT");
                    if (rc == HXHIM_SUCCESS) exp.push_back(Exp{HXHIM_PUT, contended[i]});
                }
            }
            if (rk == mpi.rank) check("contended", collect(hxhim::FlushPuts(&S.hx)), exp);
        }
        barrier();
        std::vector<int> seen(contended.size(), -2), all(contended.size() * mpi.size);
        for (auto &k : contended) S.get(k.s, k.p, HXHIM_DATA_INT32);
        for (auto &g : collect(hxhim::FlushGets(&S.hx)))
            for (size_t i = 0; i < contended.size(); i++)
                if (contended[i] == Key{g.s, g.p}) seen[i] = g.status == HXHIM_SUCCESS && g.has_o ? as<int32_t>(g.o) : -1;
        S.arena.clear();
        MPI_Allgather(seen.data(), (int) seen.size(), MPI_INT, all.data(), (int) seen.size(), MPI_INT, MPI_COMM_WORLD);
        for (size_t i = 0; i < contended.size(); i++) {
            int winner = -2;
            for (int rk = 0; rk < mpi.size; rk++) {
                int v = all[rk * contended.size() + i];
                if (!reach(rk, contended[i])) { if (v != -2) bad("contended:unreachable", "rank " + std::to_string(rk) + " read a key it cannot reach"); continue; }
                if (winner == -2) winner = v;
                if (v != winner) bad("contended:disagree", "ranks read " + std::to_string(winner) + " and " + std::to_string(v) + " for " + show(contended[i]) + " while nobody writes");
            }
            if (winner == -2) continue;
            int before = last.count(contended[i]) ? last[contended[i]] : -1;
            if (cand[i].empty() ? winner != before : !cand[i].count(winner))
                bad("contended:value", show(contended[i]) + " reads " + std::to_string(winner) + " which nobody wrote last");
            last[contended[i]] = winner;
            if (winner >= 0) model[contended[i]] = vi32(winner);
            out().stat("contended_reads");
        }
        barrier();
    }
    void audit() {
        // every datastore listed from every rank: each record once, where its hash says
        if (!custom || groups) return;
        size_t seen = 0;
        for (size_t d = 0; d < total; d++) {
            forced = (int) d;
            S.getop(vbyte("x"), vbyte("y"), HXHIM_DATA_BYTE, model.size() + 5, HXHIM_GETOP_FIRST);
            auto l = collect(hxhim::FlushGetOps(&S.hx));
            forced = -1;
            std::set<Key> here;
            for (auto &g : l) {
                if (g.status != HXHIM_SUCCESS) continue;
                Key k{g.s, g.p}; auto it = model.find(k);
                if (g.rs != (int) d) bad("audit:datastore", "listing of datastore " + std::to_string(d) + " comes from " + std::to_string(g.rs));
                if (it == model.end()) bad("audit:ghost", "datastore " + std::to_string(d) + " holds " + show(g));
                else if (where(k) != (int) d) bad("audit:place", "datastore " + std::to_string(d) + " holds " + show(k) + " which belongs to " + std::to_string(where(k)));
                else if (!same(it->second, g.o)) bad("audit:value", show(k) + " holds " + show(g.o) + " instead of " + show(it->second));
                if (!here.insert(k).second) bad("audit:twice", show(k));
                seen++;
            }
        }
        out().stat("audited_records", (long) seen);
        if (seen != model.size()) bad("audit:count", "the datastores hold " + std::to_string(seen) + " records, written " + std::to_string(model.size()));
    }
    void histograms() {
        if (!tracked || groups) return;
        for (size_t d = 0; d < total; d++) S.hist((int) d, "trk");
        auto got = collect(hxhim::FlushHistograms(&S.hx));
        S.arena.clear();
        std::set<int> ds;
        for (auto &g : got) {
            ds.insert(g.rs);
            auto w = tracked_counts[g.rs];
            if (g.status != HXHIM_SUCCESS) { bad("histogram:status", "datastore " + std::to_string(g.rs)); continue; }
            if (w.first + w.second == 0) continue;
            if (g.counts.size() != 2 || (long) g.counts[0] != w.first || (long) g.counts[1] != w.second)
                bad("histogram:counts", "datastore " + std::to_string(g.rs) + " counts " + (g.counts.size() == 2 ? std::to_string(g.counts[0]) + "," + std::to_string(g.counts[1]) : "nothing") +
                    ", stored " + std::to_string(w.first) + "," + std::to_string(w.second));
            out().stat("histograms_checked");
        }
        if (ds.size() != total || got.size() != total) bad("histogram:results", std::to_string(got.size()) + " results for " + std::to_string(total) + " requests");
    }
    void run() {
        cfg.dir = a.dir; cfg.base = "mpi" + std::to_string(c); cfg.mpi = true;
        cfg.backend = r.chance(3, 4) ? MEM : r.chance(2, 3) ? LDB : RDB;
        cfg.per_server = 1 + r.below(4); cfg.cr = 1 + r.below(4); cfg.sr = 1 + r.below(3);
        cfg.listeners = 1 + (int) r.below(3);
        static const size_t ops[] = {1, 2, 3, 7, 32, 128}; cfg.ops = ops[r.below(6)];
        static const size_t sz[] = {1, 100, 300, 4096, 1048576}; cfg.size = sz[r.below(5)];
        cfg.async = r.chance(1, 3) ? 1 + r.below(8) : 0;
        custom = r.chance(3, 4);
        cfg.hash = HASHES[r.below(9)];
        groups = mpi.size > 2 && r.chance(1, 6);
        tracked = r.chance(1, 2); cfg.hwrite = false; cfg.first_n = 1;
        if (tracked) cfg.track = {"trk"};
        group.resize(mpi.size);
        for (int i = 0; i < mpi.size; i++) for (int j = 0; j < mpi.size; j++) if (r.chance(2, 3)) group[i].insert(j);
        if (c % 12 == 0) barrier();
        if (!open()) { bad("open", "rank did not open"); return; }
        total = S.datastores();
        for (size_t d = 0; d < total; d++) rank_of.push_back(hxhim::Datastore::get_rank((int) d, mpi.size, cfg.cr, cfg.sr, cfg.per_server));
        std::vector<Val> preds = {vbyte("p"), vbyte("pp"), vi32(7), vu64(123456789), vdbl(2.5)};
        if (tracked) { preds.push_back(vbyte("trk")); preds.push_back(vbyte("trk")); preds.push_back(vbyte("trk")); }
        size_t nk = 10 + r.below(50);
        for (size_t i = 0; i < nk; i++) pool.push_back(Key{vbyte("s" + std::to_string(i)), preds[r.below(preds.size())]});
        for (int i = 0; i < 3; i++) contended.push_back(Key{vbyte("shared" + std::to_string(i)), vbyte("p")});
        note(ctx() + (custom ? " own hash" : ""));
        int rounds = 2 + (int) r.below(4);
        bool each_own = !custom && cfg.hash == "RANK_MOD_DATASTORES";
        for (int i = 0; i < rounds && out().fails < 20; i++) {
            // with one view per rank the reference map only follows this rank
            for (int rk = 0; rk < mpi.size; rk++) {
                if (each_own && rk != mpi.rank) continue;
                auto ops = plan(rk, each_own ? 0 : i);
                if (each_own && i) break;
                note("r" + std::to_string(rk) + ":" + std::to_string(ops.size()));
                perform(rk, ops, i, rk == mpi.rank);
            }
            barrier();
            if (each_own) break;
            Rng q(r.next() + (uint64_t) mpi.rank);
            read_all("after round " + std::to_string(i), q, 12);
            barrier();
            if (r.chance(1, 2)) contend(i + 1);
            if (r.chance(1, 4)) { auto v = collect(hxhim::Sync(&S.hx)); size_t want = S.cfg.per_server; (void) want; for (auto &g : v) if (g.status != HXHIM_SUCCESS) bad("sync", show(g)); barrier(); out().stat("syncs"); }
        }
        if (!each_own) {
            Rng q(r.next());
            read_all("last", q, 0);
            audit();
            histograms();
        }
        barrier();
        // a rank that still works while others are closing
        Rng q(r.next() + (uint64_t) mpi.rank * 977);
        if (!each_own && q.chance(1, 2)) {
            usleep((unsigned) q.below(3000));
            read_all("while others close", q, 6);
            std::vector<Exp> exp;
            for (int i = 0; i < 4; i++) {
                Key k{vbyte("late" + std::to_string(mpi.rank)), vi32(i)};
                int rc = S.put(k.s, k.p, vi32(i)); refused(rc, k, "PUT");
                if (rc == HXHIM_SUCCESS) exp.push_back(Exp{HXHIM_PUT, k});
            }
            check("while others close", collect(hxhim::Flush(&S.hx)), exp);
            out().stat("late_ranks");
        }
        if (S.close() != HXHIM_SUCCESS) bad("close", "Close failed");
        barrier();
        out().dist("nontrivial", shape);
        if (mpi.rank == 0) out().sample(trace);
        if (cfg.backend != MEM && mpi.rank == 0) for (size_t i = 0; i < total; i++) rmtree(a.dir + "/" + cfg.base + "-" + std::to_string(i));
    }
};

#include "ranks.hpp"

int main(int argc, char **argv) {
    Args a = Args::parse(argc, argv);
    Mpi mpi(&argc, &argv);
    if (mpi.size > 1) out().prefix = "rank " + std::to_string(mpi.rank) + ": ";
    run_cases(a, [&](long c, Rng &r) { if (a.mode == "ranks") { Ranks x(r, mpi, a.dir, c); x.run(); } else { World w(r, a, mpi, c); w.run(); } });
    out().done();
}
