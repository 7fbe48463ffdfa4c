// Equivalent interfaces (C24), request limits (C23), custom transforms (C25), switching datastores (C21),
// operation statistics (C20), tracked histograms (C11).
#include "sess.hpp"
#include "hxhim/float.hpp"
#include "hxhim/double.hpp"
#include "hxhim/single_type.hpp"
#include "hxhim/private/hxhim.hpp"
#include "hxhim/private/Results.hpp"
#include "hxhim/private/accessors.hpp"
#include "datastore/InMemory.hpp"
#include "datastore/LevelDB.hpp"
#include "datastore/RocksDB.hpp"
#include <leveldb/db.h>
#include <memory>
using namespace vf;

static int where_hash(hxhim_t *, void *s, const size_t sl, void *p, const size_t pl, void *args) {
    const int n = *(const int *) args;
    if (sl && ((unsigned char *) s)[0] == '!') return -1;
    unsigned h = 7;
    for (size_t i = 0; i < sl; i++) h = h * 31 + ((unsigned char *) s)[i];
    for (size_t i = 0; i < pl; i++) h = h * 37 + ((unsigned char *) p)[i];
    return (int) (h % (unsigned) n);
}

// the C way of reading results
static std::vector<Rec> collect_c(hxhim_results_t *res, bool *consistent) {
    std::vector<Rec> v;
    if (!res) return v;
    if (hxhim_results_valid(res) != HXHIM_SUCCESS) { hxhim_results_destroy(res); return v; }
    size_t size = 0; hxhim_results_size(res, &size);
    HXHIM_C_RESULTS_LOOP(res) {
        Rec r; enum hxhim_op_t op = HXHIM_INVALID;
        if (hxhim_result_op(res, &op) == HXHIM_SUCCESS) r.op = op;
        hxhim_result_status(res, &r.status); hxhim_result_range_server(res, &r.rs);
        void *p = nullptr; size_t n = 0; T t = HXHIM_DATA_INVALID;
        if (op == HXHIM_PUT || op == HXHIM_GET || op == HXHIM_GETOP || op == HXHIM_DELETE) {
            r.rc_sub = hxhim_result_subject(res, &p, &n, &t);
            if (r.rc_sub == HXHIM_SUCCESS) { r.s.t = t; if (p && n) r.s.b.assign((char *) p, n); }
            p = nullptr; n = 0; t = HXHIM_DATA_INVALID;
            r.rc_pred = hxhim_result_predicate(res, &p, &n, &t);
            if (r.rc_pred == HXHIM_SUCCESS) { r.p.t = t; if (p && n) r.p.b.assign((char *) p, n); }
            p = nullptr; n = 0; t = HXHIM_DATA_INVALID;
            if (op == HXHIM_GET || op == HXHIM_GETOP) {
                r.rc_obj = hxhim_result_object(res, &p, &n, &t);
                if (r.rc_obj == HXHIM_SUCCESS) { r.o.t = t; if (p && n) r.o.b.assign((char *) p, n); r.has_o = true; }
            }
        }
        if (op == HXHIM_HISTOGRAM && r.status == HXHIM_SUCCESS) {
            const char *nm = nullptr; size_t nl = 0; double *b = nullptr; size_t *c = nullptr, sz = 0;
            if (hxhim_result_histogram(res, &nm, &nl, &b, &c, &sz) == HXHIM_SUCCESS) {
                r.has_h = true; if (nm) r.name.assign(nm, nl);
                if (b && c) { r.buckets.assign(b, b + sz); r.counts.assign(c, c + sz); }
            }
        }
        v.push_back(r);
    }
    if (v.size() != size) *consistent = false;
    hxhim_results_destroy(res);
    return v;
}
static std::string rec_text(const Rec &r) {
    std::string t = std::to_string(r.op) + "|" + std::to_string(r.status) + "|" + std::to_string(r.rs) + "|" + std::to_string(r.rc_sub) + std::to_string(r.rc_pred) + std::to_string(r.rc_obj) + "|" +
                    show(r.s) + "|" + show(r.p) + "|" + (r.has_o ? show(r.o) : "-");
    if (r.s.b.size() > 20 || r.p.b.size() > 20 || r.o.b.size() > 20) t += std::to_string(fnv(r.s.b + "/" + r.p.b + "/" + r.o.b));
    if (r.has_h) { t += "|h " + r.name; for (auto d : r.buckets) t += "," + std::to_string(d); for (auto c : r.counts) t += ";" + std::to_string(c); }
    return t;
}

// ------------------------------------------------------------------------------------------------------------ C24
struct Iface {
    Rng &r; Cfg cfg; Sess A, B; std::string trace; std::set<std::string> forms; int hn[1] = {1}; bool one = false;
    bool c_consistent = true;
    Mpi &mpi;
    // of several ranks the last one asks and the others serve
    Iface(Rng &r, const Cfg &c, Mpi &m) : r(r), cfg(c), mpi(m) {}
    void note(const std::string &s) { if (trace.size() < 1500) trace += s + "; "; }
    void bad(const std::string &k, const std::string &m) { out().fail(k, m + " | " + trace + cfg.str()); }
    // the generic session is opened in C++ and the other one in C
    bool open(Sess &S, MPI_Comm comm = MPI_COMM_WORLD) {
        const bool c = &S == &B;
        if ((c ? hxhimInit(&S.hx, comm) : hxhim::Init(&S.hx, comm)) != HXHIM_SUCCESS) return false;
        S.cfg = cfg; S.inited = true;
        if (c) S.cfg.base += "B";
        hn[0] = (int) cfg.per_server * mpi.size;
        if (!apply(&S.hx, S.cfg)) return false;
        if (hxhim_set_hash_function(&S.hx, "where", where_hash, hn) != HXHIM_SUCCESS) return false;
        return S.opened = (c ? hxhimOpen(&S.hx) : hxhim::Open(&S.hx)) == HXHIM_SUCCESS;
    }
    // one datastore of the closed session, by its path
    bool reopen(Sess &S, int d) {
        const bool c = &S == &B;
        if ((c ? hxhimInit(&S.hx, MPI_COMM_WORLD) : hxhim::Init(&S.hx, MPI_COMM_WORLD)) != HXHIM_SUCCESS) return false;
        S.inited = true; one = true; hn[0] = 1;
        if (!apply(&S.hx, S.cfg)) return false;
        const std::string path = S.cfg.dir + "/" + S.cfg.base + "-" + std::to_string(d), more = path + "/none";
        return S.opened = (c ? hxhimOpenOne(&S.hx, more.data(), path.size()) : hxhim::OpenOne(&S.hx, path)) == HXHIM_SUCCESS;
    }
    Val subj() { return r.chance(1, 25) ? vbyte("!x") : r.chance(3, 4) ? vbyte(rnd_bytes(r, 1 + r.below(3), 0)) : rnd_val(r); }
    // one group of operations of one kind: singly and generically on A, in some other form on B
    void group() {
        const int kind = (int) r.below(10); // 0-3 put, 4-5 get, 6-7 getop, 8 delete, 9 histogram
        const size_t n = r.chance(1, 3) ? 1 : 1 + r.below(6);
        const T common = r.chance(1, 2) ? (r.chance(1, 2) ? HXHIM_DATA_FLOAT : HXHIM_DATA_DOUBLE) : r.chance(1, 2) ? HXHIM_DATA_BYTE : HXHIM_DATA_INVALID;
        std::vector<Val> s(n), p(n), o(n); std::vector<size_t> perm(n), num(n); std::vector<T> ot(n); std::vector<hxhim_getop_t> g(n); std::vector<int> ds(n); std::vector<std::string> nm(n); std::vector<const char *> HN(n); std::vector<size_t> HL(n);
        for (size_t i = 0; i < n; i++) {
            s[i] = subj(); p[i] = r.chance(1, 4) ? vbyte("h") : rnd_val(r); o[i] = rnd_val(r, 40, false);
            if (common == HXHIM_DATA_FLOAT) o[i] = vflt((float) nice_real(r));
            if (common == HXHIM_DATA_DOUBLE) o[i] = vdbl(nice_real(r));
            if (common == HXHIM_DATA_BYTE) o[i] = vbyte(rnd_bytes(r, 1 + r.below(30), 1));
            perm[i] = r.chance(1, 2) ? (size_t) HXHIM_PUT_SPO : r.below(64); ot[i] = o[i].t; num[i] = r.below(4); g[i] = (hxhim_getop_t) r.below(HXHIM_GETOP_INVALID + 1);
            if (g[i] == HXHIM_GETOP_INVALID && !r.chance(1, 5)) g[i] = HXHIM_GETOP_NEXT;
            ds[i] = n == 1 && r.chance(1, 8) ? hn[0] : (int) r.below((uint64_t) hn[0]); nm[i] = r.chance(3, 4) ? "h" : rnd_bytes(r, 1 + r.below(3), 0);
            if ((kind == 6 || kind == 7) && r.chance(1, 3)) p[i].b.clear();
            names.push_back(nm[i]); HN[i] = names.back().data(); HL[i] = nm[i].size();
        }
        // one element that is not valid: only alone, where both forms refuse the same thing
        int hole = n == 1 && r.chance(1, 8) ? (int) r.below(6) : -1;
        std::vector<void *> S(n), P(n), O(n); std::vector<size_t> SL(n), PL(n), OL(n); std::vector<T> ST(n), PT(n), OT(n);
        for (size_t i = 0; i < n; i++) {
            // both sessions live equally long
            S[i] = A.keep(s[i].b); P[i] = A.keep(p[i].b); O[i] = A.keep(o[i].b);
            SL[i] = s[i].b.size(); PL[i] = p[i].b.size(); OL[i] = o[i].b.size(); ST[i] = s[i].t; PT[i] = p[i].t; OT[i] = o[i].t;
            if (!PL[i]) P[i] = nullptr;
        }
        switch (hole) { case 0: S[0] = nullptr; break; case 1: P[0] = nullptr; break; case 2: if (kind > 3) break; O[0] = nullptr; break; case 3: SL[0] = 0; break; case 4: PL[0] = 0; break; case 5: if (kind < 4) OL[0] = 0; break; }
        bool all_f = true, all_d = true, all_1 = true;
        for (size_t i = 0; i < n; i++) { if (OT[i] != HXHIM_DATA_FLOAT) all_f = false; if (OT[i] != HXHIM_DATA_DOUBLE) all_d = false; if (OT[i] != OT[0]) all_1 = false; }
        if (hole == 5 || hole == 2) all_f = all_d = false; // the typed forms do not take a length
        hxhim_t *a = &A.hx, *b = &B.hx;
        int rca = HXHIM_SUCCESS, rcb = HXHIM_SUCCESS;
        auto both = [&](int x) { if (x != HXHIM_SUCCESS) rca = HXHIM_ERROR; };
        auto other = [&](int x) { if (x != HXHIM_SUCCESS) rcb = HXHIM_ERROR; };
        // A
        for (size_t i = 0; i < n; i++) {
            if (kind < 4) both(hxhim::Put(a, S[i], SL[i], ST[i], P[i], PL[i], PT[i], O[i], OL[i], OT[i], perm[i]));
            else if (kind < 6) both(hxhim::Get(a, S[i], SL[i], ST[i], P[i], PL[i], PT[i], OT[i]));
            else if (kind < 8) both(hxhim::GetOp(a, S[i], SL[i], ST[i], P[i], PL[i], PT[i], OT[i], num[i], g[i]));
            else if (kind == 8) both(hxhim::Delete(a, S[i], SL[i], ST[i], P[i], PL[i], PT[i]));
            else both(hxhim::Histogram(a, ds[i], HN[i], HL[i]));
        }
        // B
        int form = (int) r.below(10);
        std::string f;
        if (kind < 4) {
            if (form < 2) { f = "hxhimPut"; for (size_t i = 0; i < n; i++) other(hxhimPut(b, S[i], SL[i], ST[i], P[i], PL[i], PT[i], O[i], OL[i], OT[i], perm[i])); }
            else if (form < 7 && (all_f || all_d)) {
                const bool single = r.chance(1, 2), c = r.chance(1, 2);
                f = std::string(c ? "hxhim" : "hxhim::") + (single ? "Put" : "BPut") + (all_f ? "Float" : "Double");
                if (all_f) {
                    std::vector<float *> F(n); for (size_t i = 0; i < n; i++) F[i] = (float *) O[i];
                    if (single) for (size_t i = 0; i < n; i++) other(c ? hxhimPutFloat(b, S[i], SL[i], ST[i], P[i], PL[i], PT[i], F[i], perm[i]) : hxhim::PutFloat(b, S[i], SL[i], ST[i], P[i], PL[i], PT[i], F[i], perm[i]));
                    else other(c ? hxhimBPutFloat(b, S.data(), SL.data(), ST.data(), P.data(), PL.data(), PT.data(), F.data(), perm.data(), n) : hxhim::BPutFloat(b, S.data(), SL.data(), ST.data(), P.data(), PL.data(), PT.data(), F.data(), perm.data(), n));
                } else {
                    std::vector<double *> F(n); for (size_t i = 0; i < n; i++) F[i] = (double *) O[i];
                    if (single) for (size_t i = 0; i < n; i++) other(c ? hxhimPutDouble(b, S[i], SL[i], ST[i], P[i], PL[i], PT[i], F[i], perm[i]) : hxhim::PutDouble(b, S[i], SL[i], ST[i], P[i], PL[i], PT[i], F[i], perm[i]));
                    else other(c ? hxhimBPutDouble(b, S.data(), SL.data(), ST.data(), P.data(), PL.data(), PT.data(), F.data(), perm.data(), n) : hxhim::BPutDouble(b, S.data(), SL.data(), ST.data(), P.data(), PL.data(), PT.data(), F.data(), perm.data(), n));
                }
            }
            else if (form < 8 && all_1) { bool c = r.chance(1, 2); f = c ? "hxhimBPutSingleType" : "hxhim::BPutSingleType"; other(c ? hxhimBPutSingleType(b, S.data(), SL.data(), ST.data(), P.data(), PL.data(), PT.data(), O.data(), OL.data(), OT[0], perm.data(), n) : hxhim::BPutSingleType(b, S.data(), SL.data(), ST.data(), P.data(), PL.data(), PT.data(), O.data(), OL.data(), OT[0], perm.data(), n)); }
            else { bool c = form & 1; f = c ? "hxhimBPut" : "hxhim::BPut"; other(c ? hxhimBPut(b, S.data(), SL.data(), ST.data(), P.data(), PL.data(), PT.data(), O.data(), OL.data(), OT.data(), perm.data(), n) : hxhim::BPut(b, S.data(), SL.data(), ST.data(), P.data(), PL.data(), PT.data(), O.data(), OL.data(), OT.data(), perm.data(), n)); }
        } else if (kind < 6) {
            if (form < 2) { f = "hxhimGet"; for (size_t i = 0; i < n; i++) other(hxhimGet(b, S[i], SL[i], ST[i], P[i], PL[i], PT[i], OT[i])); }
            else if (form < 7 && (all_f || all_d)) {
                const bool single = r.chance(1, 2), c = r.chance(1, 2);
                f = std::string(c ? "hxhim" : "hxhim::") + (single ? "Get" : "BGet") + (all_f ? "Float" : "Double");
                if (single) for (size_t i = 0; i < n; i++) other(all_f ? c ? hxhimGetFloat(b, S[i], SL[i], ST[i], P[i], PL[i], PT[i]) : hxhim::GetFloat(b, S[i], SL[i], ST[i], P[i], PL[i], PT[i]) : c ? hxhimGetDouble(b, S[i], SL[i], ST[i], P[i], PL[i], PT[i]) : hxhim::GetDouble(b, S[i], SL[i], ST[i], P[i], PL[i], PT[i]));
                else other(all_f ? c ? hxhimBGetFloat(b, S.data(), SL.data(), ST.data(), P.data(), PL.data(), PT.data(), n) : hxhim::BGetFloat(b, S.data(), SL.data(), ST.data(), P.data(), PL.data(), PT.data(), n)
                                 : c ? hxhimBGetDouble(b, S.data(), SL.data(), ST.data(), P.data(), PL.data(), PT.data(), n) : hxhim::BGetDouble(b, S.data(), SL.data(), ST.data(), P.data(), PL.data(), PT.data(), n));
            }
            else if (form < 8 && all_1) { bool c = r.chance(1, 2); f = c ? "hxhimBGetSingleType" : "hxhim::BGetSingleType"; other(c ? hxhimBGetSingleType(b, S.data(), SL.data(), ST.data(), P.data(), PL.data(), PT.data(), OT[0], n) : hxhim::BGetSingleType(b, S.data(), SL.data(), ST.data(), P.data(), PL.data(), PT.data(), OT[0], n)); }
            else { bool c = form & 1; f = c ? "hxhimBGet" : "hxhim::BGet"; other(c ? hxhimBGet(b, S.data(), SL.data(), ST.data(), P.data(), PL.data(), PT.data(), OT.data(), n) : hxhim::BGet(b, S.data(), SL.data(), ST.data(), P.data(), PL.data(), PT.data(), OT.data(), n)); }
        } else if (kind < 8) {
            if (form < 2) { f = "hxhimGetOp"; for (size_t i = 0; i < n; i++) other(hxhimGetOp(b, S[i], SL[i], ST[i], P[i], PL[i], PT[i], OT[i], num[i], g[i])); }
            else if (form < 7 && (all_f || all_d)) {
                const bool single = r.chance(1, 2), c = r.chance(1, 2);
                f = std::string(c ? "hxhim" : "hxhim::") + (single ? "GetOp" : "BGetOp") + (all_f ? "Float" : "Double");
                if (single) for (size_t i = 0; i < n; i++) other(all_f ? c ? hxhimGetOpFloat(b, S[i], SL[i], ST[i], P[i], PL[i], PT[i], num[i], g[i]) : hxhim::GetOpFloat(b, S[i], SL[i], ST[i], P[i], PL[i], PT[i], num[i], g[i])
                                                                               : c ? hxhimGetOpDouble(b, S[i], SL[i], ST[i], P[i], PL[i], PT[i], num[i], g[i]) : hxhim::GetOpDouble(b, S[i], SL[i], ST[i], P[i], PL[i], PT[i], num[i], g[i]));
                else other(all_f ? c ? hxhimBGetOpFloat(b, S.data(), SL.data(), ST.data(), P.data(), PL.data(), PT.data(), num.data(), g.data(), n) : hxhim::BGetOpFloat(b, S.data(), SL.data(), ST.data(), P.data(), PL.data(), PT.data(), num.data(), g.data(), n)
                                 : c ? hxhimBGetOpDouble(b, S.data(), SL.data(), ST.data(), P.data(), PL.data(), PT.data(), num.data(), g.data(), n) : hxhim::BGetOpDouble(b, S.data(), SL.data(), ST.data(), P.data(), PL.data(), PT.data(), num.data(), g.data(), n));
            }
            else if (form < 8 && all_1) { bool c = r.chance(1, 2); f = c ? "hxhimBGetOpSingleType" : "hxhim::BGetOpSingleType"; other(c ? hxhimBGetOpSingleType(b, S.data(), SL.data(), ST.data(), P.data(), PL.data(), PT.data(), OT[0], num.data(), g.data(), n) : hxhim::BGetOpSingleType(b, S.data(), SL.data(), ST.data(), P.data(), PL.data(), PT.data(), OT[0], num.data(), g.data(), n)); }
            else { bool c = form & 1; f = c ? "hxhimBGetOp" : "hxhim::BGetOp"; other(c ? hxhimBGetOp(b, S.data(), SL.data(), ST.data(), P.data(), PL.data(), PT.data(), OT.data(), num.data(), g.data(), n) : hxhim::BGetOp(b, S.data(), SL.data(), ST.data(), P.data(), PL.data(), PT.data(), OT.data(), num.data(), g.data(), n)); }
        } else if (kind == 8) {
            if (form < 4) { f = "hxhimDelete"; for (size_t i = 0; i < n; i++) other(hxhimDelete(b, S[i], SL[i], ST[i], P[i], PL[i], PT[i])); }
            else { bool c = form & 1; f = c ? "hxhimBDelete" : "hxhim::BDelete"; other(c ? hxhimBDelete(b, S.data(), SL.data(), ST.data(), P.data(), PL.data(), PT.data(), n) : hxhim::BDelete(b, S.data(), SL.data(), ST.data(), P.data(), PL.data(), PT.data(), n)); }
        } else {
            if (form < 4) { f = "hxhimHistogram"; for (size_t i = 0; i < n; i++) other(hxhimHistogram(b, ds[i], HN[i], HL[i])); }
            else { bool c = form & 1; f = c ? "hxhimBHistogram" : "hxhim::BHistogram"; other(c ? hxhimBHistogram(b, ds.data(), HN.data(), HL.data(), n) : hxhim::BHistogram(b, ds.data(), HN.data(), HL.data(), n)); }
        }
        forms.insert(f);
        out().dist("forms", fnv(f + (hole >= 0 ? "!" : "") + (n > 1 ? "n" : "1")));
        note(f + "x" + std::to_string(n) + (hole >= 0 ? " hole" + std::to_string(hole) : ""));
        out().stat("operations", (long) n);
        if (rca != rcb) bad("iface:rc", f + " returned " + std::to_string(rcb) + ", the generic form " + std::to_string(rca));
    }
    std::deque<std::string> names; // names are copied by neither: they stay until the end
    void flush() {
        int k = r.chance(1, 2) || cfg.async ? 5 : (int) r.below(mpi.size > 1 ? 6 : 7); // Sync is collective, and puts in the background may be early, but not late
        static const char *N[] = {"puts", "gets", "getops", "deletes", "histograms", "all", "sync"};
        note(std::string("flush ") + N[k]);
        hxhim_t *a = &A.hx, *b = &B.hx;
        hxhim::Results *(*cxx[])(hxhim_t *) = {hxhim::FlushPuts, hxhim::FlushGets, hxhim::FlushGetOps, hxhim::FlushDeletes, hxhim::FlushHistograms, hxhim::Flush, hxhim::Sync};
        hxhim_results_t *(*cf[])(hxhim_t *) = {hxhimFlushPuts, hxhimFlushGets, hxhimFlushGetOps, hxhimFlushDeletes, hxhimFlushHistograms, hxhimFlush, hxhimSync};
        auto ra = collect(cxx[k](a));
        std::vector<Rec> rb = r.chance(1, 2) ? collect(cxx[k](b)) : collect_c(cf[k](b), &c_consistent);
        std::vector<std::string> ta, tb;
        for (auto &x : ra) ta.push_back(rec_text(x));
        for (auto &x : rb) tb.push_back(rec_text(x));
        out().stat("results", (long) ta.size());
        if (!c_consistent) { bad("iface:size", "hxhim_results_size does not agree with the list"); c_consistent = true; }
        if (cfg.async || mpi.size > 1) { std::sort(ta.begin(), ta.end()); std::sort(tb.begin(), tb.end()); }
        if (ta != tb) {
            size_t i = 0; while (i < ta.size() && i < tb.size() && ta[i] == tb[i]) i++;
            bad("iface:results", "result " + std::to_string(i) + ": generic " + (i < ta.size() ? ta[i] : "none") + ", other form " + (i < tb.size() ? tb[i] : "none"));
        }
    }
    void accessors() {
        hxhim_t *a = &A.hx, *b = &B.hx;
        size_t x = 0, y = 0, z = 0, w = 0; int i1 = 0, i2 = 0, j1 = 0, j2 = 0;
        auto eq = [&](bool ok, const char *n) { if (!ok) bad(std::string("iface:accessor:") + n, "the C and the C++ form disagree"); };
        eq(hxhim::GetDatastoreCount(a, &x) == hxhimGetDatastoreCount(b, &y) && x == y, "GetDatastoreCount");
        eq(hxhim::GetRangeServerCount(a, &x) == hxhimGetRangeServerCount(b, &y) && x == y, "GetRangeServerCount");
        eq(hxhim::GetRangeServerClientToServerRatio(a, &x, &z) == hxhimGetRangeServerClientToServerRatio(b, &y, &w) && x == y && z == w, "GetRangeServerClientToServerRatio");
        for (int d = -1; d <= hn[0]; d++) {
            i1 = i2 = j1 = j2 = -7;
            eq(hxhim::GetDatastoreLocation(a, d, &i1, &j1) == hxhimGetDatastoreLocation(b, d, &i2, &j2) && i1 == i2 && j1 == j2, "GetDatastoreLocation");
        }
        for (const char *n : {"h", "none", "hh", ""}) {
            i1 = i2 = -1;
            eq(hxhim::HaveHistogram(a, n, strlen(n), &i1) == hxhimHaveHistogram(b, n, strlen(n), &i2) && !i1 == !i2, "HaveHistogram");
        }
        const char *n1 = nullptr, *n2 = nullptr; hxhim_hash_t f1 = nullptr, f2 = nullptr; void *a1 = nullptr, *a2 = nullptr;
        eq(hxhim::GetHash(a, &n1, &f1, &a1) == hxhimGetHash(b, &n2, &f2, &a2) && n1 && n2 && !strcmp(n1, n2) && f1 == f2 && a1 == a2 && (one || (f1 == where_hash && a1 == hn)), "GetHash");
        MPI_Comm c1, c2; i1 = i2 = j1 = j2 = -1;
        eq(hxhim::GetMPI(a, &c1, &i1, &j1) == hxhimGetMPI(b, &c2, &i2, &j2) && i1 == i2 && j1 == j2, "GetMPI");
        ::Stats::Chronopoint e; struct timespec t1{-1, -1}, t2{-1, -1};
        eq(hxhim::GetEpoch(a, e) == hxhimGetEpoch(b, &t2) && hxhim::GetEpoch(b, &t1) == HXHIM_SUCCESS && t1.tv_sec == t2.tv_sec && t1.tv_nsec == t2.tv_nsec && t2.tv_nsec >= 0 && t2.tv_nsec < 1000000000 &&
               e.time_since_epoch() == std::chrono::seconds(t2.tv_sec) + std::chrono::nanoseconds(t2.tv_nsec), "GetEpoch");
    }
    void run() {
        MPI_Comm comm = MPI_COMM_WORLD;
        if (mpi.size > 1) MPI_Comm_dup(MPI_COMM_WORLD, &comm);
        session(comm);
        if (mpi.size > 1) MPI_Comm_free(&comm);
    }
    void session(MPI_Comm comm) {
        if (!open(A) || !open(B, comm)) return bad("iface:open", "Open failed");
        if (mpi.rank + 1 < mpi.size) { B.close(); A.close(); return; }
        int steps = 3 + (int) r.below(25);
        for (int i = 0; i < steps; i++) { if (r.chance(1, 5)) flush(); else group(); }
        accessors();
        flush();
        size_t n = contents();
        if (cfg.backend != MEM) {
            // again, with one of the datastores opened by its path
            const int d = (int) r.below(cfg.per_server);
            for (Sess *S : {&A, &B}) if (S->close() != HXHIM_SUCCESS) bad("iface:close", "Close failed");
            if (!reopen(A, d) || !reopen(B, d)) return bad("iface:openone", "a datastore that exists could not be opened by its path");
            note("OpenOne " + std::to_string(d)); out().stat("opened_by_path");
            const size_t m = contents();
            if (cfg.per_server == 1 && m != n) bad("iface:openone-contents", std::to_string(n) + " records before closing and " + std::to_string(m) + " in the datastore opened by its path");
            steps = (int) r.below(8);
            for (int i = 0; i < steps; i++) { if (r.chance(1, 5)) flush(); else group(); }
            accessors();
            flush();
            contents();
        }
        if ((r.chance(1, 2) ? hxhimClose(&B.hx) : hxhim::Close(&B.hx)) != HXHIM_SUCCESS) bad("iface:close", "Close failed");
        B.inited = false; B.arena.clear();
        A.close();
        if (cfg.backend != MEM) for (Sess *S : {&A, &B}) for (size_t d = 0; d < cfg.per_server; d++) rmtree(cfg.dir + "/" + S->cfg.base + "-" + std::to_string(d));
        if (forms.size() > 2) out().dist("nontrivial", fnv(trace + cfg.str()));
        out().sample(cfg.str() + " :: " + trace);
    }
    // the stores are the same
    size_t contents() {
        Val s = vbyte("a"), none = vbyte("");
        for (Sess *S : {&A, &B}) { hxhim::Results::Destroy(hxhim::Flush(&S->hx)); S->getop(s, none, HXHIM_DATA_BYTE, 100000, HXHIM_GETOP_FIRST); }
        auto x = collect(hxhim::FlushGetOps(&A.hx)), y = collect(hxhim::FlushGetOps(&B.hx));
        bool same = x.size() == y.size();
        for (size_t i = 0; same && i < x.size(); i++) same = rec_text(x[i]) == rec_text(y[i]);
        if (!same) bad("iface:contents", "the stores differ in the end: " + std::to_string(x.size()) + " and " + std::to_string(y.size()) + " records");
        return x.size();
    }
};

// ------------------------------------------------------------------------------------------------------------ C23
#include "store_modes.hpp"

int main(int argc, char **argv) {
    Mpi mpi(&argc, &argv);
    Args a = Args::parse(argc, argv);
    run_cases(a, [&](long c, Rng &r) {
        Cfg f;
        f.dir = a.dir; f.base = "s" + std::to_string(c); f.track = {"h"}; f.hwrite = false;
        if (a.mode == "iface") {
            f.per_server = 1 + r.below(3); f.ops = 1 + r.below(6); f.size = r.chance(1, 4) ? 1 + r.below(300) : 65536; f.async = r.chance(1, 6) ? 1 + r.below(3) : 0; f.first_n = 1 + r.below(4);
            if (mpi.size > 1) { f.mpi = true; f.cr = f.sr = 1; f.listeners = 1 + (int) r.below(2); }
            else if (r.chance(1, 30)) f.backend = r.chance(1, 2) ? LDB : RDB;
            Iface i(r, f, mpi); i.run();
        } else run_mode(a, mpi, c, r, f);
    });
    out().done();
}
