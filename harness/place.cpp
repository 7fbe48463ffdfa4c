// C15: placement of datastores and range servers, and the built-in hashes.
#include "sess.hpp"
#include "hxhim/Datastore.hpp"
#include "hxhim/RangeServer.hpp"
#include "hxhim/hash.h"
#include "hxhim/accessors.hpp"
#include "hxhim/accessors.h"
using namespace vf;

// Independent model: walk the ranks block by block and hand out ids in order.
struct Layout {
    std::vector<int> server_rank;   // range server id -> rank
    std::vector<int> rs_of_rank;    // rank -> range server id or -1
    Layout(int size, size_t cr, size_t sr) : rs_of_rank(size, -1) {
        const size_t block = std::max(cr, sr), servers = sr >= cr ? block : sr;
        for (int r = 0; r < size; r++)
            if ((size_t) r % block < servers) { rs_of_rank[r] = (int) server_rank.size(); server_rank.push_back(r); }
    }
};

static void bad(const char *key, const std::string &m) { out().fail(key, m); }
#define EXPECT(key, got, want, ctx) do { long g_ = (long) (got), w_ = (long) (want); \
    out().stat("comparisons"); \
    if (g_ != w_) bad(key, std::string(#got) + " = " + std::to_string(g_) + ", expected " + std::to_string(w_) + " for " + (ctx)); } while (0)

static void pure(Rng &r, long c) {
    int size; size_t cr, sr, per;
    if (c < 40 * 12) { size = 1 + (int) (c / 12); cr = 1 + c % 12; sr = 1 + r.below(12); per = 1 + r.below(5); }
    else if (r.chance(1, 10)) { size = 1 + (int) r.below(3000); cr = 1 + r.below(200); sr = 1 + r.below(200); per = 1 + r.below(64); }
    else { size = 1 + (int) r.below(40); cr = 1 + r.below(12); sr = 1 + r.below(12); per = 1 + r.below(5); }
    const std::vector<size_t> srs = c < 40 * 12 ? std::vector<size_t>{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12} : std::vector<size_t>{sr};
    for (size_t s : srs) {
        sr = s;
        Layout L(size, cr, sr);
        std::string ctx = "size " + std::to_string(size) + " ratio " + std::to_string(cr) + ":" + std::to_string(sr) + " per server " + std::to_string(per);
        const int nrs = (int) L.server_rank.size();
        out().dist("nontrivial", fnv(ctx));
        namespace DS = hxhim::Datastore; namespace RS = hxhim::RangeServer;
        for (int rank = 0; rank < size; rank++) {
            std::string cx = ctx + " rank " + std::to_string(rank);
            const int id = L.rs_of_rank[rank];
            EXPECT("place:is-server", RS::is_range_server(rank, size, cr, sr), id >= 0 ? 1 : 0, cx);
            EXPECT("place:is-server", RS::is_range_server(rank, cr, sr), id >= 0 ? 1 : 0, cx);
            EXPECT("place:server-id", RS::get_id(rank, size, cr, sr), id, cx);
            EXPECT("place:server-id", RS::get_id(rank, cr, sr), id, cx);
            for (size_t o = 0; o < per; o++) {
                std::string co = cx + " offset " + std::to_string(o);
                const long want = id < 0 ? -1 : (long) (id * per + o);
                EXPECT("place:datastore-id", DS::get_id(rank, o, size, cr, sr, per), want, co);
                EXPECT("place:datastore-id", DS::get_id(rank, o, cr, sr, per), want, co);
            }
            EXPECT("place:offset-range", DS::get_id(rank, per, size, cr, sr, per), -1, cx);
        }
        for (int id = 0; id < nrs; id++) {
            std::string cx = ctx + " range server " + std::to_string(id);
            EXPECT("place:server-rank", RS::get_rank(id, size, cr, sr), L.server_rank[id], cx);
            EXPECT("place:server-rank", RS::get_rank(id, cr, sr), L.server_rank[id], cx);
        }
        for (long id = 0; id < (long) (nrs * per); id++) {
            std::string cx = ctx + " datastore " + std::to_string(id);
            const int want = L.server_rank[id / per];
            EXPECT("place:datastore-rank", DS::get_rank((int) id, size, cr, sr, per), want, cx);
            EXPECT("place:datastore-rank", DS::get_rank((int) id, cr, sr, per), want, cx);
            EXPECT("place:inverse", DS::get_id(DS::get_rank((int) id, size, cr, sr, per), id % per, size, cr, sr, per), id, cx);
        }
        // beyond the world
        for (int k = 0; k < 5; k++) {
            int over = k + (k > 2 ? (int) r.below(1000) : 0);
            std::string cx = ctx + " beyond by " + std::to_string(over);
            EXPECT("place:beyond", DS::get_rank((int) (nrs * per) + over, size, cr, sr, per), -1, cx);
            EXPECT("place:beyond", RS::get_rank(nrs + over, size, cr, sr), -1, cx);
            EXPECT("place:beyond", DS::get_id(size + over, 0, size, cr, sr, per), -1, cx);
            EXPECT("place:beyond", RS::get_id(size + over, size, cr, sr), -1, cx);
            EXPECT("place:beyond", RS::is_range_server(size + over, size, cr, sr), -1, cx);
        }
        EXPECT("place:negative", DS::get_rank(-1, size, cr, sr, per), -1, ctx);
        EXPECT("place:negative", DS::get_id(-1, 0, size, cr, sr, per), -1, ctx);
        EXPECT("place:negative", RS::get_rank(-1, size, cr, sr), -1, ctx);
        EXPECT("place:negative", RS::get_id(-1, size, cr, sr), -1, ctx);
        EXPECT("place:negative", RS::is_range_server(-1, size, cr, sr), -1, ctx);
        for (int z = 0; z < 2; z++) {
            size_t a = z ? cr : 0, b = z ? 0 : sr;
            EXPECT("place:zero", DS::get_rank(0, size, a, b, per), -1, ctx);
            EXPECT("place:zero", DS::get_id(0, 0, size, a, b, per), -1, ctx);
            EXPECT("place:zero", RS::get_rank(0, size, a, b), -1, ctx);
            EXPECT("place:zero", RS::get_id(0, size, a, b), -1, ctx);
            EXPECT("place:zero", RS::is_range_server(0, size, a, b), -1, ctx);
        }
        EXPECT("place:zero", DS::get_rank(0, size, cr, sr, 0), -1, ctx);
        EXPECT("place:zero", DS::get_id(0, 0, size, cr, sr, 0), -1, ctx);
        out().stat("layouts");
    }
}

// the layout a session reports, and its hash, against the model
static void check_session(Rng &r, Sess &s, const Mpi &mpi, const std::string &ctx) {
    hxhim_t *hx = &s.hx;
    Layout L(mpi.size, s.cfg.cr, s.cfg.sr);
    const size_t per = s.cfg.per_server, total = L.server_rank.size() * per;
    size_t n = 77, a = 0, b = 0; int rank = -7, off = -7, size = -7;
    EXPECT("session:rc", hxhim::GetRangeServerCount(hx, &n), HXHIM_SUCCESS, ctx);
    EXPECT("session:range-servers", n, L.server_rank.size(), ctx);
    EXPECT("session:rc", hxhimGetRangeServerCount(hx, &n), HXHIM_SUCCESS, ctx);
    EXPECT("session:range-servers", n, L.server_rank.size(), ctx);
    EXPECT("session:rc", hxhim::GetDatastoreCount(hx, &n), HXHIM_SUCCESS, ctx);
    EXPECT("session:datastores", n, total, ctx);
    EXPECT("session:rc", hxhimGetDatastoreCount(hx, &n), HXHIM_SUCCESS, ctx);
    EXPECT("session:datastores", n, total, ctx);
    EXPECT("session:rc", hxhim::GetRangeServerClientToServerRatio(hx, &a, &b), HXHIM_SUCCESS, ctx);
    EXPECT("session:ratio", a, s.cfg.cr, ctx); EXPECT("session:ratio", b, s.cfg.sr, ctx);
    EXPECT("session:rc", hxhim::GetMPI(hx, nullptr, &rank, &size), HXHIM_SUCCESS, ctx);
    EXPECT("session:mpi", rank, mpi.rank, ctx); EXPECT("session:mpi", size, mpi.size, ctx);
    for (long id = 0; id < (long) total; id++) {
        std::string cx = ctx + " datastore " + std::to_string(id);
        rank = off = -7;
        const bool cxx = r.chance(1, 2);
        EXPECT("session:location-rc", cxx ? hxhim::GetDatastoreLocation(hx, (int) id, &rank, &off) : hxhimGetDatastoreLocation(hx, (int) id, &rank, &off), HXHIM_SUCCESS, cx);
        EXPECT("session:location-rank", rank, L.server_rank[id / per], cx);
        EXPECT("session:location-offset", off, id % per, cx);
        EXPECT("session:location-inverse", hxhim::Datastore::get_id(rank, off, mpi.size, s.cfg.cr, s.cfg.sr, per), id, cx);
    }
    for (long id : {-1L, (long) total, (long) total + 1 + (long) r.below(50), (long) 1 << 30})
        EXPECT("session:location-range", hxhim::GetDatastoreLocation(hx, (int) id, &rank, &off), HXHIM_ERROR, ctx + " datastore " + std::to_string(id));
    out().stat("session_layouts");
}

static long call_hash(hxhim_t *hx, const std::string &s, const std::string &p, size_t pad, char fill) {
    // the bytes at another address and alignment, with other bytes around them
    std::vector<char> b(s.size() + p.size() + 3 * pad + 32, fill);
    char *sb = b.data() + pad, *pb = sb + s.size() + 1 + pad;
    memcpy(sb, s.data(), s.size()); memcpy(pb, p.data(), p.size());
    hxhim_hash_t f = nullptr; void *args = nullptr; const char *name = nullptr;
    if (hxhim::GetHash(hx, &name, &f, &args) != HXHIM_SUCCESS || !f) return -99;
    return f(hx, sb, s.size(), pb, p.size(), args);
}

static void hashes(Rng &r, Sess &s, const Mpi &mpi, const std::string &ctx, size_t pairs) {
    hxhim_t *hx = &s.hx;
    size_t total = 0; hxhim::GetDatastoreCount(hx, &total);
    const std::string &h = s.cfg.hash;
    std::set<long> used;
    for (size_t i = 0; i < pairs; i++) {
        std::string sub, pred;
        if (r.chance(1, 400)) { sub = rnd_bytes(r, 1 + r.below(200000), 1); pred = rnd_bytes(r, r.below(100), 1); }
        else { int al = (int) r.below(4); sub = rnd_bytes(r, r.below(40), al); pred = rnd_bytes(r, r.below(40), al); }
        const long v = call_hash(hx, sub, pred, 0, 0);
        std::string cx = ctx + " s=" + hex(sub) + " p=" + hex(pred);
        if (v < 0 || v >= (long) total) { bad("hash:range", h + " gives datastore " + std::to_string(v) + " of " + std::to_string(total) + cx); return; }
        used.insert(v);
        for (size_t pad = 1; pad <= 3; pad++)
            EXPECT("hash:deterministic", call_hash(hx, sub, pred, pad, (char) (pad * 85)), v, h + cx);
        if (h == "DATASTORE_0") EXPECT("hash:zero", v, 0, cx);
        if (h == "RANK_MOD_DATASTORES") EXPECT("hash:rank", v, mpi.rank % (long) total, cx);
        if (h == "SUM_MOD_DATASTORES") {
            size_t sum = 0; for (unsigned char ch : sub) sum += ch; for (unsigned char ch : pred) sum += ch;
            EXPECT("hash:sum", v, sum % total, cx);
        }
        out().stat("hashes");
    }
    out().stat("hash_targets", (long) used.size());
    if (h != "DATASTORE_0" && h != "RANK_MOD_DATASTORES" && total >= 4) {
        // a function of both the subject and the predicate: with one held, the other still moves the result
        for (int side = 0; side < 2; side++) {
            std::string fixed = rnd_bytes(r, 1 + r.below(20), 1);
            std::set<long> seen;
            for (int i = 0; i < 120; i++) {
                std::string o = rnd_bytes(r, 1 + r.below(20), 1);
                seen.insert(side ? call_hash(hx, fixed, o, 0, 0) : call_hash(hx, o, fixed, 0, 0));
            }
            if (seen.size() < 2) bad("hash:constant", h + " does not depend on the " + (side ? "predicate" : "subject") + " with " + std::to_string(total) + " datastores");
            out().stat("dependence_tests");
        }
    }
}

static void session(Rng &r, const Args &a, const Mpi &mpi, long c) {
    Cfg cfg;
    cfg.dir = a.dir; cfg.base = "pl" + std::to_string(c);
    cfg.hash = HASHES[c % 9];
    cfg.per_server = 1 + r.below(mpi.size > 1 ? 3 : 8);
    cfg.cr = 1 + r.below(mpi.size > 1 ? 4 : 6);
    cfg.sr = 1 + r.below(mpi.size > 1 ? 4 : 6);
    // the same configuration on every rank
    std::string ctx = " size " + std::to_string(mpi.size) + " rank " + std::to_string(mpi.rank) + " ratio " + std::to_string(cfg.cr) + ":" + std::to_string(cfg.sr) + " per " + std::to_string(cfg.per_server);
    out().dist("nontrivial", fnv(ctx + cfg.hash));
    Sess s;
    if (!s.open(cfg)) { bad("session:open", "cannot open" + ctx); return; }
    check_session(r, s, mpi, ctx);
    Rng r2(r.next());
    hashes(r2, s, mpi, ctx, a.thorough ? 300 : 60);
    if (c % 18 == 2) {   // a subject so large that a narrow sum would overflow
        std::string sub((size_t) 9 << 20, (char) 0xff), pred("p");
        size_t total = 0; hxhim::GetDatastoreCount(&s.hx, &total);
        long v = call_hash(&s.hx, sub, pred, 0, 0);
        if (v < 0 || v >= (long) total) bad("hash:range", "large subject gives " + std::to_string(v) + ctx);
        if (cfg.hash == "SUM_MOD_DATASTORES") EXPECT("hash:sum", v, (sub.size() * 255 + 'p') % total, "9 MB subject" + ctx);
    }
    // the same values in another session of the same layout give the same datastores
    std::vector<std::pair<std::string, std::string>> kv; std::vector<long> v;
    for (int i = 0; i < 20; i++) {
        kv.emplace_back(rnd_bytes(r, r.below(30), 1), rnd_bytes(r, r.below(30), 1));
        v.push_back(call_hash(&s.hx, kv.back().first, kv.back().second, 0, 0));
    }
    // operations land where the hash says
    if (mpi.size == 1) {
        std::map<std::pair<std::string, std::string>, long> want;
        for (int i = 0; i < 20; i++) if (!kv[i].first.empty() && !kv[i].second.empty()) {
            s.put(vbyte(kv[i].first), vbyte(kv[i].second), vi32(i));
            want[{kv[i].first, kv[i].second}] = v[i];
        }
        for (auto &rec : s.flush()) {
            auto it = want.find({rec.s.b, rec.p.b});
            if (it == want.end()) { bad("session:placed", "unknown result " + show(rec)); continue; }
            EXPECT("session:placed", rec.rs, it->second, show(rec) + ctx + cfg.hash);
        }
    }
    s.close();
    if (mpi.size > 1) MPI_Barrier(MPI_COMM_WORLD);
    Sess t; cfg.base += "b";
    if (!t.open(cfg)) { bad("session:open", "cannot open" + ctx); return; }
    for (int i = 0; i < 20; i++)
        EXPECT("hash:session", call_hash(&t.hx, kv[i].first, kv[i].second, 2, 7), v[i], cfg.hash + ctx);
    t.close();
}

int main(int argc, char **argv) {
    Args a = Args::parse(argc, argv);
    Mpi mpi(&argc, &argv);
    if (mpi.size > 1) out().prefix = "rank " + std::to_string(mpi.rank) + ": ";
    run_cases(a, [&](long c, Rng &r) {
        if (a.mode == "pure") pure(r, c);
        else session(r, a, mpi, c);
    });
    out().done();
}
