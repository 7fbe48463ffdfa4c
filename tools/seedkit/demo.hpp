// Minimal session helper for the demonstrations.
#pragma once
#include <mpi.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <list>
#include <string>
#include <vector>
#include "hxhim/hxhim.hpp"
#include "utils/mlog2.h"

static int failures = 0;
#define CHECK(c) do { if (!(c)) { failures++; printf("FAILED line %d: %s\n", __LINE__, #c); fflush(stdout); } } while (0)

enum { MEM, LDB, RDB };
struct Conf {
    int backend = MEM; size_t per_server = 1, ops = 128, size = 1 << 20, async = 0, cr = 1, sr = 1;
    const char *hash = "DATASTORE_0"; const char *name = "demo"; bool hread = true, hwrite = true; bool mpi = false;
    void (*before)(hxhim_t *) = nullptr;   // more options
    std::vector<std::string> track; size_t first_n = 10; const char *gen = "10_BUCKETS";
};
struct Ses {
    hxhim_t hx{};
    bool ok = false;
    explicit Ses(const Conf &c = Conf()) {
        ok = hxhim::Init(&hx, MPI_COMM_WORLD) == HXHIM_SUCCESS;
        hxhim_set_debug_level(&hx, MLOG_EMERG);
        hxhim_set_client_ratio(&hx, c.cr);
        hxhim_set_server_ratio(&hx, c.sr);
        hxhim_set_datastores_per_server(&hx, c.per_server);
        hxhim_set_datastore_name(&hx, ".", c.name, "");
        if (c.backend == MEM) hxhim_set_datastore_in_memory(&hx);
        else if (c.backend == LDB) hxhim_set_datastore_leveldb(&hx, 1);
        else hxhim_set_datastore_rocksdb(&hx, 1);
        hxhim_datastore_histograms(&hx, c.hread, c.hwrite);
        hxhim_set_hash_name(&hx, c.hash);
        if (c.mpi) hxhim_set_transport_mpi(&hx, 1); else hxhim_set_transport_null(&hx);
        hxhim_set_start_async_puts_at(&hx, c.async);
        hxhim_set_maximum_ops_per_request(&hx, c.ops);
        hxhim_set_maximum_size_per_request(&hx, c.size);
        hxhim_set_histogram_first_n(&hx, c.first_n);
        hxhim_set_histogram_bucket_gen_name(&hx, c.gen);
        for (auto &t : c.track) hxhim_add_histogram_track_predicate(&hx, t.data(), t.size());
        if (c.before) c.before(&hx);
        ok = ok && hxhim::Open(&hx) == HXHIM_SUCCESS;
    }
    ~Ses() { hxhim::Close(&hx); }
    // the memory has to stay valid until the operation is flushed
    std::list<std::string> kept;
    const std::string &keep(const std::string &v) { kept.push_back(v); return kept.back(); }
    int put(const std::string &s_, const std::string &p_, const std::string &o_, size_t perm = HXHIM_PUT_SPO) {
        const std::string &s = keep(s_), &p = keep(p_), &o = keep(o_);
        return hxhim::Put(&hx, (void *) s.data(), s.size(), HXHIM_DATA_BYTE, (void *) p.data(), p.size(), HXHIM_DATA_BYTE, (void *) o.data(), o.size(), HXHIM_DATA_BYTE, perm);
    }
    int get(const std::string &s_, const std::string &p_) {
        const std::string &s = keep(s_), &p = keep(p_);
        return hxhim::Get(&hx, (void *) s.data(), s.size(), HXHIM_DATA_BYTE, (void *) p.data(), p.size(), HXHIM_DATA_BYTE, HXHIM_DATA_BYTE);
    }
    int getop(const std::string &s_, const std::string &p_, size_t n, hxhim_getop_t op) {
        const std::string &s = keep(s_), &p = keep(p_);
        return hxhim::GetOp(&hx, (void *) s.data(), s.size(), HXHIM_DATA_BYTE, (void *) p.data(), p.size(), HXHIM_DATA_BYTE, HXHIM_DATA_BYTE, n, op);
    }
    int del(const std::string &s_, const std::string &p_) {
        const std::string &s = keep(s_), &p = keep(p_);
        return hxhim::Delete(&hx, (void *) s.data(), s.size(), HXHIM_DATA_BYTE, (void *) p.data(), p.size(), HXHIM_DATA_BYTE);
    }
};
struct Row { int op, status, ds; std::string s, p, o; };
static std::vector<Row> rows(hxhim::Results *res) {
    std::vector<Row> v;
    if (!res) return v;
    HXHIM_CXX_RESULTS_LOOP(res) {
        Row r{}; enum hxhim_op_t op; void *d = nullptr; size_t n = 0; hxhim_data_t t;
        res->Op(&op); r.op = op; res->Status(&r.status); res->RangeServer(&r.ds);
        if (op != HXHIM_HISTOGRAM) {
            if (res->Subject(&d, &n, &t) == HXHIM_SUCCESS && d) r.s.assign((char *) d, n);
            if (res->Predicate(&d, &n, &t) == HXHIM_SUCCESS && d) r.p.assign((char *) d, n);
            if ((op == HXHIM_GET || op == HXHIM_GETOP) && res->Object(&d, &n, &t) == HXHIM_SUCCESS && d) r.o.assign((char *) d, n);
        }
        v.push_back(r);
    }
    hxhim::Results::Destroy(res);
    return v;
}
int run(int rank, int size);
int main(int argc, char **argv) {
    int prov = 0, rank = 0, size = 1;
    MPI_Init_thread(&argc, &argv, MPI_THREAD_MULTIPLE, &prov);
    MPI_Comm_rank(MPI_COMM_WORLD, &rank); MPI_Comm_size(MPI_COMM_WORLD, &size);
    run(rank, size);
    MPI_Finalize();
    if (!failures) printf("held\n");
    return failures ? 1 : 0;
}
