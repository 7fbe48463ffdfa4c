// Session helper: configures and drives an hxhim session through its public interface.
#pragma once
#include "vf.hpp"
#include <cmath>
#include <algorithm>
#include <deque>
#include <functional>
#include <dirent.h>
#include <sys/stat.h>
#include <mpi.h>
#include "hxhim/hxhim.hpp"
#include "utils/mlog2.h"

namespace vf {

typedef hxhim_data_t T;

struct Val {
    std::string b;
    T t = HXHIM_DATA_INVALID;
    bool operator<(const Val &o) const { return t != o.t ? t < o.t : b < o.b; }
    bool operator==(const Val &o) const { return t == o.t && b == o.b; }
    bool operator!=(const Val &o) const { return !(*this == o); }
};
template <typename X> inline Val mk(T t, X x) { Val v; v.t = t; v.b.assign((const char *) &x, sizeof x); return v; }
inline Val vi32(int32_t x) { return mk(HXHIM_DATA_INT32, x); }
inline Val vi64(int64_t x) { return mk(HXHIM_DATA_INT64, x); }
inline Val vu32(uint32_t x) { return mk(HXHIM_DATA_UINT32, x); }
inline Val vu64(uint64_t x) { return mk(HXHIM_DATA_UINT64, x); }
inline Val vflt(float x) { return mk(HXHIM_DATA_FLOAT, x); }
inline Val vdbl(double x) { return mk(HXHIM_DATA_DOUBLE, x); }
inline Val vbyte(const std::string &s) { Val v; v.b = s; v.t = HXHIM_DATA_BYTE; return v; }
inline Val vptr(const std::string &s) { Val v; v.b = s; v.t = HXHIM_DATA_POINTER; return v; }
template <typename X> inline X as(const Val &v) { X x{}; memcpy(&x, v.b.data(), std::min(sizeof x, v.b.size())); return x; }

// stored floating point values come back within the configured precision, everything else exactly
inline bool same(const Val &want, const Val &got) {
    if (want.t != got.t) return false;
    if (want.t == HXHIM_DATA_FLOAT && got.b.size() == sizeof(float)) {
        double a = as<float>(want), b = as<float>(got);
        return a == b || std::fabs(a - b) <= 4e-6 * std::max(std::fabs(a), std::fabs(b));
    }
    if (want.t == HXHIM_DATA_DOUBLE && got.b.size() == sizeof(double)) {
        double a = as<double>(want), b = as<double>(got);
        return a == b || std::fabs(a - b) <= 1e-12 * std::max(std::fabs(a), std::fabs(b));
    }
    return want.b == got.b;
}
inline std::string show(const Val &v) {
    char b[64];
    switch (v.t) {
        case HXHIM_DATA_INT32:  snprintf(b, sizeof b, "i32:%d", as<int32_t>(v)); return b;
        case HXHIM_DATA_INT64:  snprintf(b, sizeof b, "i64:%lld", (long long) as<int64_t>(v)); return b;
        case HXHIM_DATA_UINT32: snprintf(b, sizeof b, "u32:%u", as<uint32_t>(v)); return b;
        case HXHIM_DATA_UINT64: snprintf(b, sizeof b, "u64:%llu", (unsigned long long) as<uint64_t>(v)); return b;
        case HXHIM_DATA_FLOAT:  snprintf(b, sizeof b, "flt:%.9g", as<float>(v)); return b;
        case HXHIM_DATA_DOUBLE: snprintf(b, sizeof b, "dbl:%.17g", as<double>(v)); return b;
        case HXHIM_DATA_BYTE:   return "byte:" + hex(v.b, 24);
        case HXHIM_DATA_POINTER:return "ptr:" + hex(v.b, 24);
        default: return "type" + std::to_string((int) v.t) + ":" + hex(v.b, 24);
    }
}

struct Key {
    Val s, p;
    bool operator<(const Key &o) const { return s != o.s ? s < o.s : p < o.p; }
    bool operator==(const Key &o) const { return s == o.s && p == o.p; }
};
inline std::string show(const Key &k) { return "(" + show(k.s) + "," + show(k.p) + ")"; }

// floating point keys and objects: few significant digits, well inside the range the encoding is defined for
inline double nice_real(Rng &r) {
    double m = (double) r.range(-9999, 9999) / 8.0;
    if (r.chance(1, 6)) m = 0;
    if (r.chance(1, 4)) m *= std::pow(10.0, (double) r.range(-6, 6));
    return m == 0 ? 0.0 : m;
}
inline std::string rnd_bytes(Rng &r, size_t n, int alpha) {
    std::string s(n, 0);
    for (auto &c : s) {
        switch (alpha) {
            case 0: c = (char) ('a' + r.below(3)); break;
            case 1: c = (char) r.below(256); break;
            case 2: { static const unsigned char sp[] = {0, 0xff, 1, 0xfe, '/', ':', '0', 0x80, 7, 6}; c = (char) sp[r.below(sizeof sp)]; break; }
            default: c = (char) (r.chance(1, 2) ? 0 : 0xff); break;
        }
    }
    return s;
}
inline Val rnd_val(Rng &r, size_t maxlen = 24, bool small_space = true) {
    switch (r.below(10)) {
        case 0: return vi32(small_space ? (int32_t) r.range(-5, 5) : (int32_t) r.next());
        case 1: return vi64(small_space ? r.range(-300, 300) : (int64_t) r.next());
        case 2: return vu32(small_space ? (uint32_t) r.below(12) : (uint32_t) r.next());
        case 3: return vu64(small_space ? r.below(1200) : r.next());
        case 4: return vflt((float) nice_real(r));
        case 5: return vdbl(nice_real(r));
        case 6: return vptr(rnd_bytes(r, 1 + r.below(8), (int) r.below(4)));
        default: return vbyte(rnd_bytes(r, r.chance(1, 12) ? 1 + r.below(maxlen * 20) : 1 + r.below(r.chance(1, 2) ? 4 : maxlen), (int) r.below(4)));
    }
}

enum Backend { MEM, LDB, RDB };
inline const char *backend_name(int b) { return b == MEM ? "in-memory" : b == LDB ? "leveldb" : "rocksdb"; }

struct Cfg {
    int backend = MEM;
    size_t per_server = 1, ops = 128, size = 1048576, async = 0, cr = 1, sr = 1;
    std::string hash = "DATASTORE_0", dir = ".", base = "hx", post = "";
    bool mpi = false; int listeners = 1;
    bool hread = true, hwrite = true, create = true;
    std::vector<std::string> track;
    size_t first_n = 10; std::string gen = "10_BUCKETS";
    std::string str() const {
        return std::string(backend_name(backend)) + " ds/server=" + std::to_string(per_server) + " hash=" + hash + " ops=" + std::to_string(ops) +
               " size=" + std::to_string(size) + " async=" + std::to_string(async) + (mpi ? " mpi" : "");
    }
};
static const char *const HASHES[] = {"DATASTORE_0", "RANK_MOD_DATASTORES", "SUM_MOD_DATASTORES", "UTHASH_BER", "UTHASH_SAX", "UTHASH_FNV",
                                     "UTHASH_OAT", "UTHASH_JEN", "UTHASH_SFH"};

inline bool apply(hxhim_t *hx, const Cfg &c) {
    bool ok = true;
    auto need = [&](int rc) { if (rc != HXHIM_SUCCESS) ok = false; };
    need(hxhim_set_debug_level(hx, MLOG_EMERG));
    need(hxhim_set_client_ratio(hx, c.cr));
    need(hxhim_set_server_ratio(hx, c.sr));
    need(hxhim_set_datastores_per_server(hx, c.per_server));
    need(hxhim_set_datastore_name(hx, c.dir.c_str(), c.base.c_str(), c.post.c_str()));
    if (c.backend == MEM) need(hxhim_set_datastore_in_memory(hx));
    else if (c.backend == LDB) need(hxhim_set_datastore_leveldb(hx, c.create));
    else need(hxhim_set_datastore_rocksdb(hx, c.create));
    need(hxhim_datastore_histograms(hx, c.hread, c.hwrite));
    need(hxhim_set_hash_name(hx, c.hash.c_str()));
    if (c.mpi) need(hxhim_set_transport_mpi(hx, c.listeners)); else need(hxhim_set_transport_null(hx));
    need(hxhim_set_start_async_puts_at(hx, c.async));
    need(hxhim_set_maximum_ops_per_request(hx, c.ops));
    need(hxhim_set_maximum_size_per_request(hx, c.size));
    need(hxhim_set_histogram_first_n(hx, c.first_n));
    need(hxhim_set_histogram_bucket_gen_name(hx, c.gen.c_str()));
    for (auto &t : c.track) need(hxhim_add_histogram_track_predicate(hx, t.data(), t.size()));
    return ok;
}

struct Rec {
    int op = -1, status = -1, rs = -1;
    int rc_sub = 0, rc_pred = 0, rc_obj = 0;
    Val s, p, o;
    bool has_o = false;
    // histogram
    std::string name; std::vector<double> buckets; std::vector<size_t> counts; bool has_h = false;
};
inline std::string show(const Rec &r) {
    return std::string(r.op >= 0 && r.op <= HXHIM_INVALID ? HXHIM_OP_STR[r.op] : "op?") + (r.status == HXHIM_SUCCESS ? " ok " : " err ") + "ds" + std::to_string(r.rs) + " " + show(r.s) + "," + show(r.p) +
           (r.has_o ? "=" + show(r.o) : "");
}

inline std::vector<Rec> collect(hxhim::Results *res, bool destroy = true) {
    std::vector<Rec> out;
    if (!res) return out;
    HXHIM_CXX_RESULTS_LOOP(res) {
        Rec r;
        enum hxhim_op_t op = HXHIM_INVALID;
        if (res->Op(&op) == HXHIM_SUCCESS) r.op = op;
        res->Status(&r.status);
        res->RangeServer(&r.rs);
        void *p = nullptr; size_t n = 0; T t = HXHIM_DATA_INVALID;
        if (op == HXHIM_PUT || op == HXHIM_GET || op == HXHIM_GETOP || op == HXHIM_DELETE) {
            r.rc_sub = res->Subject(&p, &n, &t);
            if (r.rc_sub == HXHIM_SUCCESS) { r.s.t = t; if (p && n) r.s.b.assign((char *) p, n); }
            p = nullptr; n = 0; t = HXHIM_DATA_INVALID;
            r.rc_pred = res->Predicate(&p, &n, &t);
            if (r.rc_pred == HXHIM_SUCCESS) { r.p.t = t; if (p && n) r.p.b.assign((char *) p, n); }
            p = nullptr; n = 0; t = HXHIM_DATA_INVALID;
            if (op == HXHIM_GET || op == HXHIM_GETOP) {
                r.rc_obj = res->Object(&p, &n, &t);
                if (r.rc_obj == HXHIM_SUCCESS) { r.o.t = t; if (p && n) r.o.b.assign((char *) p, n); r.has_o = true; }
            }
        }
        if (op == HXHIM_HISTOGRAM && r.status == HXHIM_SUCCESS) {
            const char *nm = nullptr; size_t nl = 0; double *b = nullptr; size_t *c = nullptr, sz = 0;
            if (res->Histogram(&nm, &nl, &b, &c, &sz) == HXHIM_SUCCESS) {
                r.has_h = true;
                if (nm) r.name.assign(nm, nl);
                if (b && c) { r.buckets.assign(b, b + sz); r.counts.assign(c, c + sz); }
            }
        }
        out.push_back(r);
    }
    if (destroy) hxhim::Results::Destroy(res);
    return out;
}

struct Sess {
    hxhim_t hx{};
    Cfg cfg;
    bool opened = false, inited = false;
    std::deque<std::string> arena; // caller-owned buffers, alive until after the flush
    std::function<bool(hxhim_t *)> before; // further options
    bool open(const Cfg &c, MPI_Comm comm = MPI_COMM_WORLD) {
        cfg = c;
        if (hxhim::Init(&hx, comm) != HXHIM_SUCCESS) return false;
        inited = true;
        if (!apply(&hx, c) || (before && !before(&hx))) return false;
        opened = hxhim::Open(&hx) == HXHIM_SUCCESS;
        return opened;
    }
    int close() {
        if (!inited) return HXHIM_SUCCESS;
        inited = opened = false;
        int rc = hxhim::Close(&hx);
        arena.clear();
        return rc;
    }
    ~Sess() { close(); }
    void *keep(const std::string &s) {
        arena.emplace_back();
        // exact-size heap buffer so that an access past the end is seen
        arena.back().assign(s);
        if (s.size() < 16) { arena.back().reserve(40); }
        return (void *) arena.back().data();
    }
    int put(const Val &s, const Val &p, const Val &o, size_t perms = HXHIM_PUT_SPO) {
        return hxhim::Put(&hx, keep(s.b), s.b.size(), s.t, keep(p.b), p.b.size(), p.t, keep(o.b), o.b.size(), o.t, perms);
    }
    int get(const Val &s, const Val &p, T ot) {
        return hxhim::Get(&hx, keep(s.b), s.b.size(), s.t, keep(p.b), p.b.size(), p.t, ot);
    }
    int getop(const Val &s, const Val &p, T ot, size_t n, hxhim_getop_t op) {
        return hxhim::GetOp(&hx, keep(s.b), s.b.size(), s.t, p.b.empty() ? nullptr : keep(p.b), p.b.size(), p.t, ot, n, op);
    }
    int del(const Val &s, const Val &p) {
        return hxhim::Delete(&hx, keep(s.b), s.b.size(), s.t, keep(p.b), p.b.size(), p.t);
    }
    int hist(int ds, const std::string &name) { return hxhim::Histogram(&hx, ds, (const char *) keep(name), name.size()); }
    std::vector<Rec> flush() { auto v = collect(hxhim::Flush(&hx)); arena.clear(); return v; }
    size_t datastores() { size_t n = 0; hxhim::GetDatastoreCount(&hx, &n); return n; }
};

// the six ways a triple can be stored; fn(bit, s, p, o)
inline void each_perm(size_t perms, const Val &s, const Val &p, const Val &o, const std::function<void(size_t, const Val &, const Val &, const Val &)> &fn) {
    if (perms & HXHIM_PUT_SPO) fn(HXHIM_PUT_SPO, s, p, o);
    if (perms & HXHIM_PUT_SOP) fn(HXHIM_PUT_SOP, s, o, p);
    if (perms & HXHIM_PUT_PSO) fn(HXHIM_PUT_PSO, p, s, o);
    if (perms & HXHIM_PUT_POS) fn(HXHIM_PUT_POS, p, o, s);
    if (perms & HXHIM_PUT_OSP) fn(HXHIM_PUT_OSP, o, s, p);
    if (perms & HXHIM_PUT_OPS) fn(HXHIM_PUT_OPS, o, p, s);
}


struct Mpi {
    int rank = 0, size = 1;
    Mpi(int *argc, char ***argv) {
        int provided = 0;
        MPI_Init_thread(argc, argv, MPI_THREAD_MULTIPLE, &provided);
        MPI_Comm_rank(MPI_COMM_WORLD, &rank);
        MPI_Comm_size(MPI_COMM_WORLD, &size);
    }
    ~Mpi() { MPI_Finalize(); }
};

} // namespace vf
