// included by store.cpp

static void *copy_new(const void *src, size_t n) { void *p = ::operator new(n ? n : 1); if (n) memcpy(p, src, n); return p; }

// ------------------------------------------------------------------------------------------------------------ C23
// The order in which a datastore works is seen by a transform of the type of the subjects.
struct Log { std::mutex m; std::vector<std::string> seen; };
static int log_encode(void *src, const size_t n, void **dst, size_t *dn, void *extra) {
    Log *l = (Log *) extra;
    { std::lock_guard<std::mutex> g(l->m); l->seen.emplace_back((const char *) src, n); }
    *dst = copy_new(src, n); *dn = n;
    return HXHIM_SUCCESS;
}
static int plain_decode(void *src, const size_t n, void **dst, size_t *dn, void *) { *dst = copy_new(src, n); *dn = n; return HXHIM_SUCCESS; }

struct Limits {
    Rng &r; Cfg cfg; Mpi &mpi; Rng q; Sess S; std::string trace; Log log; int hn[1] = {1}; std::vector<int> host;
    struct Q { std::string id; size_t perms; int ds; int kind; Key k; Val o; };
    std::map<int, std::map<int, std::vector<std::string>>> order; // kind -> ds -> subjects in the order queued
    std::map<Key, Val> model, qmodel;
    size_t queued = 0, serial = 0;
    // in runs of several ranks q differs between them, r does not
    Limits(Rng &r, const Cfg &c, Mpi &m) : r(r), cfg(c), mpi(m), q(r.next() + 77u * (unsigned) m.rank) {}
    // what the datastores of every rank did, in their order
    std::vector<std::vector<std::string>> gather() {
        std::vector<std::vector<std::string>> all(mpi.size);
        std::lock_guard<std::mutex> g(log.m);
        if (mpi.size == 1) { all[0].swap(log.seen); return all; }
        std::string mine; for (auto &s : log.seen) { uint32_t n = (uint32_t) s.size(); mine.append((const char *) &n, 4); mine += s; }
        int len = (int) mine.size(); std::vector<int> lens(mpi.size), at(mpi.size);
        MPI_Allgather(&len, 1, MPI_INT, lens.data(), 1, MPI_INT, MPI_COMM_WORLD);
        int total = 0; for (int i = 0; i < mpi.size; i++) { at[i] = total; total += lens[i]; }
        std::string buf((size_t) total, 0);
        MPI_Allgatherv(mine.data(), len, MPI_CHAR, &buf[0], lens.data(), at.data(), MPI_CHAR, MPI_COMM_WORLD);
        for (int i = 0; i < mpi.size; i++) for (size_t p = (size_t) at[i]; p < (size_t) (at[i] + lens[i]);) { uint32_t n; memcpy(&n, &buf[p], 4); all[i].push_back(buf.substr(p + 4, n)); p += 4 + n; }
        log.seen.clear();
        return all;
    }
    std::string tag() const { return mpi.size > 1 ? std::to_string(mpi.rank) + "@" : ""; }
    void note(const std::string &s) { if (trace.size() < 1200) trace += s + "; "; }
    void bad(const std::string &k, const std::string &m) { out().fail(k, m + " | " + cfg.str() + " | " + trace); }
    int dest(const Val &s, const Val &p) { return hxhim_hash(&S.hx, (void *) s.b.data(), s.b.size(), (void *) p.b.data(), p.b.size()); }
    Val subj() { std::string t = std::to_string(serial++); size_t z = q.chance(1, 5) ? q.below(300) : q.below(6); return vptr(tag() + "#" + t + "." + std::string(z, 'p')); }
    template <typename Q> void look(const char *name, int kind, Q &q) {
        for (size_t d = 0; d < q.size(); d++) {
            std::vector<std::string> ids;
            for (auto *req : q[d]) {
                out().stat("requests"); out().stat("requests_" + std::string(name));
                if (req->count > cfg.ops) bad("limits:ops", std::string(name) + " request of " + std::to_string(req->count) + " operations, the maximum is " + std::to_string(cfg.ops));
                if (cfg.size && req->count > 1 && req->size() > cfg.size) bad("limits:size", std::string(name) + " request of " + std::to_string(req->count) + " operations is " + std::to_string(req->size()) + " bytes, the maximum is " + std::to_string(cfg.size));
                if (!req->count) bad("limits:empty", "an empty request is queued");
                if (req->count == cfg.ops) out().stat("full_requests");
                if (req->count > 1) out().stat("joint_requests");
                names(req, ids);
            }
            if (kind == HXHIM_HISTOGRAM) { if (ids != order[kind][(int) d]) bad("limits:order", "HISTOGRAM requests are not queued in the order of the calls"); continue; }
            if (ids != order[kind][(int) d]) bad("limits:order", std::string(name) + " operations for datastore " + std::to_string(d) + " are not queued in the order of the calls: " + std::to_string(ids.size()) + " queued, " + std::to_string(order[kind][(int) d].size()) + " expected");
        }
    }
    template <typename R> void names(R *req, std::vector<std::string> &ids) { for (size_t i = 0; i < req->count; i++) ids.push_back((std::string) req->subjects[i]); }
    void names(Message::Request::BHistogram *req, std::vector<std::string> &ids) { for (size_t i = 0; i < req->count; i++) ids.push_back((std::string) req->names[i]); }

    void queue() {
        Val s = subj(), p = q.chance(1, 2) ? vbyte(rnd_bytes(q, 1 + q.below(3), 0)) : vi64((int64_t) q.below(9)), o = vbyte(rnd_bytes(q, 1 + (q.chance(1, 5) ? q.below(500) : q.below(12)), 1));
        const int kind = (int) q.below(12);
        if (kind < 5) {
            // some keys are written again and again: the last one counts
            if (q.chance(1, 2)) { s = vptr(tag() + "again" + std::to_string(q.below(2))); p = vbyte("k"); }
            if (S.put(s, p, o) != HXHIM_SUCCESS) return bad("limits:put", "a valid PUT was refused");
            order[HXHIM_PUT][dest(s, p)].push_back(s.b); qmodel[Key{s, p}] = o; note("put");
        } else if (kind < 8) {
            if (S.get(s, p, HXHIM_DATA_BYTE) != HXHIM_SUCCESS) return bad("limits:get", "a valid GET was refused");
            order[HXHIM_GET][dest(s, p)].push_back(s.b); note("get");
        } else if (kind < 9) {
            if (S.getop(s, p, HXHIM_DATA_BYTE, 1 + q.below(3), HXHIM_GETOP_EQ) != HXHIM_SUCCESS) return bad("limits:getop", "a valid GETOP was refused");
            order[HXHIM_GETOP][dest(s, p)].push_back(s.b); note("getop");
        } else if (kind < 11) {
            if (S.del(s, p) != HXHIM_SUCCESS) return bad("limits:delete", "a valid DELETE was refused");
            order[HXHIM_DELETE][dest(s, p)].push_back(s.b); note("del");
        } else {
            int d = (int) q.below((unsigned) hn[0]); std::string n = q.chance(1, 2) ? "h" : rnd_bytes(q, 1 + q.below(80), 0);
            if (S.hist(d, n) != HXHIM_SUCCESS) return bad("limits:histogram", "a valid HISTOGRAM was refused");
            order[HXHIM_HISTOGRAM][d].push_back(n); note("hist");
        }
        queued++;
    }
    void run() {
        if (hxhim::Init(&S.hx, MPI_COMM_WORLD) != HXHIM_SUCCESS) return bad("limits:init", "Init failed");
        S.inited = true; S.cfg = cfg;
        if (!apply(&S.hx, cfg) || hxhim_set_hash_function(&S.hx, "where", where_hash, hn) != HXHIM_SUCCESS ||
            hxhim_set_transform_function(&S.hx, HXHIM_DATA_POINTER, log_encode, &log, plain_decode, nullptr) != HXHIM_SUCCESS) return bad("limits:options", "a valid option was refused");
        if (hxhim::Open(&S.hx) != HXHIM_SUCCESS) return bad("limits:open", "Open failed");
        { size_t total = 0; hxhim::GetDatastoreCount(&S.hx, &total); hn[0] = (int) total; }
        for (int d = 0; d < hn[0]; d++) { int h = 0; hxhim::GetDatastoreLocation(&S.hx, d, &h, nullptr); host.push_back(mpi.size > 1 ? h : 0); }
        for (int round = 0; round < 3; round++) {
            int n = 1 + (int) q.below(q.chance(1, 4) ? 60 : 16);
            for (int i = 0; i < n; i++) queue();
            if (!cfg.async) {
                look("PUT", HXHIM_PUT, S.hx.p->queues.puts.queue); look("GET", HXHIM_GET, S.hx.p->queues.gets); look("GETOP", HXHIM_GETOP, S.hx.p->queues.getops);
                look("DELETE", HXHIM_DELETE, S.hx.p->queues.deletes); look("HISTOGRAM", HXHIM_HISTOGRAM, S.hx.p->queues.histograms);
            }
            auto res = S.flush();
            note("flush");
            if (res.size() != queued) bad("limits:lost", std::to_string(queued) + " operations were queued, " + std::to_string(res.size()) + " completed");
            out().stat("operations", (long) queued);
            queued = 0;
            // what each datastore did, in which order: puts, gets, range reads, deletes
            std::map<int, std::vector<std::string>> did, want;
            if (mpi.size > 1) MPI_Barrier(MPI_COMM_WORLD);
            auto all = gather();
            { std::map<std::string, int> ds; // a subject goes to one datastore
              for (auto &k : order) if (k.first != HXHIM_HISTOGRAM) for (auto &d : k.second) for (auto &s : d.second) { ds[s] = d.first; }
              for (int h = 0; h < mpi.size; h++) for (auto &s : all[h]) {
                  auto it = ds.find(s);
                  if (it == ds.end()) { if (s.compare(0, tag().size(), tag()) == 0) bad("limits:unknown", "an operation that was not queued was performed"); }
                  else { if (host[it->second] != h) bad("limits:host", "an operation was performed by another rank than that of its datastore"); did[it->second].push_back(s); if (h != mpi.rank) out().stat("remote_operations"); }
              } }
            for (int k : {(int) HXHIM_PUT, (int) HXHIM_GET, (int) HXHIM_GETOP, (int) HXHIM_DELETE}) for (auto &d : order[k]) for (auto &s : d.second) want[d.first].push_back(s);
            for (auto &w : want) { out().stat("order_observed", (long) w.second.size()); if (did[w.first] != w.second) bad("limits:performed", "datastore " + std::to_string(w.first) + " performed " + std::to_string(did[w.first].size()) + " operations, of the " + std::to_string(w.second.size()) + " queued, or in another order"); }
            order.clear();
            for (auto &q : qmodel) model[q.first] = q.second;
            qmodel.clear();
            for (auto &m : model) if (m.first.s.b.find(tag() + "again") == 0) {
                S.get(m.first.s, m.first.p, HXHIM_DATA_BYTE);
                auto g = collect(hxhim::FlushGets(&S.hx));
                if (g.size() != 1 || !g[0].has_o || g[0].o != m.second) bad("limits:last", "the last write of a key does not count");
            }
            if (mpi.size > 1) MPI_Barrier(MPI_COMM_WORLD);
            { std::lock_guard<std::mutex> g(log.m); log.seen.clear(); }
            if (mpi.size > 1) MPI_Barrier(MPI_COMM_WORLD);
            if (serial > 6) out().dist("nontrivial", fnv(trace + cfg.str()));
        }
        out().sample(cfg.str() + " :: " + trace);
        S.close();
    }
};

// ------------------------------------------------------------------------------------------------------------ C25
// A transform of the user: reversible, changes content and length, fails for some values, and counts.
struct Code { unsigned char tag; int type; long enc = 0, dec = 0, wrong = 0; bool armed = true; std::mutex m; };
static bool fails_encode(const std::string &s) { return s.size() > 2 && s[s.size() - 1] == 'E'; }
static bool fails_decode(const std::string &s) { return s.size() > 2 && s[s.size() - 1] == 'D'; }
static std::string do_encode(const Code *c, const std::string &s) {
    std::string e(1, (char) c->tag);
    for (size_t i = 0; i < s.size(); i++) e += (char) ((unsigned char) s[s.size() - 1 - i] ^ c->tag);
    for (size_t i = 0; i < (size_t) (c->tag & 7); i++) e += (char) (c->tag + i);
    return e;
}
static int user_encode(void *src, const size_t n, void **dst, size_t *dn, void *extra) {
    Code *c = (Code *) extra; std::string s((const char *) src, n);
    std::lock_guard<std::mutex> g(c->m);
    c->enc++;
    if (fails_encode(s)) return HXHIM_ERROR;
    std::string e = do_encode(c, s);
    *dst = copy_new(e.data(), e.size()); *dn = e.size();
    return HXHIM_SUCCESS;
}
static int user_decode(void *src, const size_t n, void **dst, size_t *dn, void *extra) {
    Code *c = (Code *) extra; std::string e((const char *) src, n);
    std::lock_guard<std::mutex> g(c->m);
    c->dec++;
    const size_t pad = c->tag & 7;
    if (e.size() < 1 + pad || (unsigned char) e[0] != c->tag) { c->wrong++; return HXHIM_ERROR; }
    std::string s;
    for (size_t i = e.size() - pad; i > 1; i--) s += (char) ((unsigned char) e[i - 1] ^ c->tag);
    if (do_encode(c, s) != e) { c->wrong++; return HXHIM_ERROR; }
    if (fails_decode(s)) return HXHIM_ERROR;
    *dst = copy_new(s.data(), s.size()); *dn = s.size();
    return HXHIM_SUCCESS;
}
struct Xform {
    Rng &r; Cfg cfg; Sess S; std::string trace; Code codes[2][16]; bool custom[16] = {}, copy[16] = {};
    std::map<Key, Val> model; // what is stored
    Mpi &mpi; // of several ranks the last one asks and the others serve
    Xform(Rng &r, const Cfg &c, Mpi &m) : r(r), cfg(c), mpi(m) {}
    void note(const std::string &s) { if (trace.size() < 1500) trace += s + "; "; }
    void bad(const std::string &k, const std::string &m) { out().fail(k, m + " | " + cfg.str() + " | " + trace); }
    Val val() {
        Val v = rnd_val(r, 20, r.chance(1, 2));
        if (v.t == HXHIM_DATA_BYTE || v.t == HXHIM_DATA_POINTER) { if (r.chance(1, 8)) v.b = "xyE"; else if (r.chance(1, 10)) v.b = rnd_bytes(r, 2, 0) + "D"; }
        else if (r.chance(1, 12)) { v.b.back() = r.chance(1, 2) ? 'E' : 'D'; if (v.t == HXHIM_DATA_FLOAT) v = vflt(1.5f); if (v.t == HXHIM_DATA_DOUBLE) v = vdbl(-2.5); }
        return v;
    }
    bool enc_ok(const Val &v) { return !custom[v.t] || !fails_encode(v.b); }
    bool dec_ok(const Val &v) { return !custom[v.t] || !fails_decode(v.b); }
    bool eq(const Val &want, const Val &got) { return custom[want.t] || copy[want.t] ? want == got : same(want, got); }
    bool open(bool first) {
        if (hxhim::Init(&S.hx, MPI_COMM_WORLD) != HXHIM_SUCCESS) return false;
        S.inited = true; S.cfg = cfg;
        if (!apply(&S.hx, cfg)) return false;
        for (int t : {HXHIM_DATA_INT32, HXHIM_DATA_INT64, HXHIM_DATA_UINT32, HXHIM_DATA_UINT64, HXHIM_DATA_FLOAT, HXHIM_DATA_DOUBLE, HXHIM_DATA_BYTE, HXHIM_DATA_POINTER}) {
            if (first) {
                custom[t] = r.chance(1, 2); copy[t] = !custom[t] && r.chance(1, 4);
                for (int d = 0; d < 2; d++) { codes[d][t].tag = (unsigned char) (1 + r.below(255)); codes[d][t].type = t; }
                codes[1][t].tag = codes[0][t].tag;
            }
            int rc = HXHIM_SUCCESS;
            // encoder and decoder have an extra argument each
            if (custom[t]) { if (r.chance(1, 6)) hxhim_set_transform_function(&S.hx, (hxhim_data_t) t, nullptr, nullptr, nullptr, nullptr); rc = hxhim_set_transform_function(&S.hx, (hxhim_data_t) t, user_encode, &codes[0][t], user_decode, &codes[1][t]); }
            else if (copy[t]) rc = hxhim_set_transform_function(&S.hx, (hxhim_data_t) t, nullptr, nullptr, nullptr, nullptr);
            if (rc != HXHIM_SUCCESS) return false;
        }
        return S.opened = hxhim::Open(&S.hx) == HXHIM_SUCCESS;
    }
    void check_get(const Rec &g) {
        Key k{g.s, g.p};
        auto it = model.end();
        for (auto i = model.begin(); i != model.end(); ++i) if (eq(i->first.s, g.s) && eq(i->first.p, g.p)) it = i;
        bool want = enc_ok(g.s) && enc_ok(g.p) && it != model.end() && dec_ok(it->second);
        out().stat(want ? "reads_found" : "reads_refused");
        if (want) { if (g.status != HXHIM_SUCCESS || !g.has_o || !eq(it->second, g.o)) bad("xform:get", "GET " + show(k) + " gave " + show(g) + ", stored is " + show(it->second)); }
        else if (g.status == HXHIM_SUCCESS) bad("xform:get", "GET " + show(k) + " succeeded: " + (enc_ok(g.s) && enc_ok(g.p) ? "nothing can be read there" : "the encoder fails"));
    }
    void extras() {
        for (int t = 0; t < 16; t++) if (codes[0][t].wrong || codes[1][t].wrong || codes[0][t].dec || codes[1][t].enc) bad("xform:extra", "a decoder was given bytes its encoder did not make, or the argument of another function, type " + std::to_string(t));
        for (int t = 0; t < 16; t++) { out().stat("encoded", codes[0][t].enc); out().stat("decoded", codes[1][t].dec); }
    }
    void run() {
        const bool again = cfg.backend != MEM && r.chance(1, 2);
        if (!open(true)) return bad("xform:open", "Open failed");
        if (mpi.rank + 1 < mpi.size) {
            S.close();
            if (again) { if (!open(false)) return bad("xform:reopen", "the datastores did not open again"); S.close(); }
            extras();
            return;
        }
        std::vector<Val> S_, P_;
        for (int i = 0; i < 5; i++) { S_.push_back(val()); P_.push_back(val()); }
        const int rounds = 1 + (int) r.below(5);
        for (int round = 0; round < rounds; round++) {
            std::vector<std::pair<Key, Val>> puts; std::vector<Key> gets, dels; long before[16];
            for (int t = 0; t < 16; t++) before[t] = codes[0][t].enc;
            long uses[16] = {};
            int n = 1 + (int) r.below(14);
            for (int i = 0; i < n; i++) {
                Val s = S_[r.below(5)], p = P_[r.below(5)], o = val();
                size_t perms = r.chance(2, 3) ? (size_t) HXHIM_PUT_SPO : 1 + r.below(63);
                switch (r.below(8)) {
                    case 0: case 1: case 2: case 3:
                        if (S.put(s, p, o, perms) != HXHIM_SUCCESS) bad("xform:put", "a valid PUT was refused");
                        each_perm(perms, s, p, o, [&](size_t, const Val &a, const Val &b, const Val &c) { puts.push_back({Key{a, b}, c}); });
                        note("put " + show(s) + show(p) + show(o)); break;
                    case 4: case 5: S.get(s, p, o.t); gets.push_back(Key{s, p}); uses[s.t]++; uses[p.t]++; note("get"); break;
                    case 6: S.del(s, p); dels.push_back(Key{s, p}); note("del"); break;
                    default: break;
                }
            }
            auto res = S.flush(); note("flush");
            if (res.size() != puts.size() + gets.size() + dels.size()) bad("xform:count", std::to_string(res.size()) + " results of " + std::to_string(puts.size() + gets.size() + dels.size()) + " operations");
            // puts to one datastore come in order; several have each their own order
            std::map<Key, std::deque<Val>> byk;
            for (auto &p : puts) {
                // an encoder that fails fails this put and no other
                if (enc_ok(p.first.s) && enc_ok(p.first.p) && enc_ok(p.second)) {
                    bool found = false; // floating point keys are equal as stored
                    for (auto i = model.begin(); i != model.end() && !found; ++i) if (eq(i->first.s, p.first.s) && eq(i->first.p, p.first.p)) { i->second = p.second; found = true; }
                    if (!found) model[p.first] = p.second;
                }
            }
            std::map<std::string, long> okp, wantp;
            for (auto &p : puts) wantp[show(p.first) + (enc_ok(p.first.s) && enc_ok(p.first.p) && enc_ok(p.second) ? "+" : "-")]++;
            for (auto &x : res) {
                if (x.op == HXHIM_PUT) okp[show(Key{x.s, x.p}) + (x.status == HXHIM_SUCCESS ? "+" : "-")]++;
                else if (x.op == HXHIM_GET) check_get(x);
                else if (x.op == HXHIM_DELETE && (!enc_ok(x.s) || !enc_ok(x.p)) && x.status == HXHIM_SUCCESS) bad("xform:delete", "DELETE succeeded although its encoder fails");
            }
            if (okp != wantp) { std::string d; for (auto &w : wantp) if (okp[w.first] != w.second) d += w.first + " expected " + std::to_string(w.second) + " got " + std::to_string(okp[w.first]) + ", "; bad("xform:status", "PUT results: " + d); }
            for (auto &d : dels) if (enc_ok(d.s) && enc_ok(d.p)) for (auto i = model.begin(); i != model.end();) { if (eq(i->first.s, d.s) && eq(i->first.p, d.p)) i = model.erase(i); else ++i; }
            (void) before; (void) uses;
            out().stat("operations", (long) (puts.size() + gets.size() + dels.size()));
        }
        // everything stored is listed, decoded (records that cannot be decoded are reported, not returned wrongly)
        bool all_dec = true;
        for (auto &m : model) if (!dec_ok(m.second) || !dec_ok(m.first.s) || !dec_ok(m.first.p)) all_dec = false;
        if (cfg.per_server == 1 && mpi.size == 1 && !model.empty()) {
            Val a = vbyte("q"), none = vbyte("");
            if (custom[HXHIM_DATA_BYTE]) a = vbyte("qq");
            S.getop(a, none, HXHIM_DATA_BYTE, model.size() + 5, HXHIM_GETOP_FIRST);
            auto res = collect(hxhim::FlushGetOps(&S.hx));
            size_t good = 0;
            for (auto &x : res) {
                if (x.status != HXHIM_SUCCESS) continue;
                bool hit = false;
                for (auto &m : model) if (eq(m.first.s, x.s) && eq(m.first.p, x.p) && eq(m.second, x.o)) hit = true;
                if (!hit) bad("xform:list", "the listing has " + show(x) + ", which was not stored");
                good++;
            }
            if (all_dec && good != model.size()) bad("xform:list", "the listing has " + std::to_string(good) + " records of " + std::to_string(model.size()));
            out().stat("listed", (long) good);
        }
        extras();
        S.close();
        if (cfg.backend == LDB && mpi.size == 1) on_disk();
        if (again) {
            // a second session with the same transforms finds everything
            if (!open(false)) return bad("xform:reopen", "the datastores did not open again");
            for (auto &m : model) S.get(m.first.s, m.first.p, m.second.t);
            auto res = S.flush();
            if (res.size() != model.size()) bad("xform:reopen", "results are missing after opening again");
            for (auto &x : res) check_get(x);
            S.close();
        }
        if (model.size() > 1) out().dist("nontrivial", fnv(trace + cfg.str()));
        out().sample(cfg.str() + " :: " + trace);
    }
    // the bytes stored are the encoded ones
    void on_disk() {
        std::multiset<std::string> values, keys_s;
        for (size_t d = 0; d < cfg.per_server; d++) {
            leveldb::DB *db = nullptr; leveldb::Options o;
            if (!leveldb::DB::Open(o, cfg.dir + "/" + cfg.base + "-" + std::to_string(d), &db).ok()) return bad("xform:disk", "cannot read the datastore");
            std::unique_ptr<leveldb::Iterator> it(db->NewIterator(leveldb::ReadOptions()));
            for (it->SeekToFirst(); it->Valid(); it->Next()) { keys_s.insert(it->key().ToString()); values.insert(it->value().ToString()); }
            it.reset(); delete db;
        }
        if (keys_s.size() != model.size()) bad("xform:disk", std::to_string(keys_s.size()) + " records are stored, expected " + std::to_string(model.size()));
        for (auto &m : model) {
            out().stat("stored_records_checked");
            if (custom[m.second.t]) {
                std::string e = do_encode(&codes[0][m.second.t], m.second.b); bool hit = false;
                for (auto &v : values) if (v.size() >= e.size() && v.compare(0, e.size(), e) == 0) hit = true;
                if (!hit) bad("xform:disk", "the object " + show(m.second) + " is not stored as its encoder encodes it");
            }
            if (custom[m.first.s.t]) {
                std::string e = do_encode(&codes[0][m.first.s.t], m.first.s.b); bool hit = false;
                for (auto &k : keys_s) if (k.compare(0, e.size(), e) == 0) hit = true;
                if (!hit) bad("xform:disk", "the subject " + show(m.first.s) + " is not stored as its encoder encodes it");
            }
            if (custom[m.first.p.t]) {
                std::string e = do_encode(&codes[0][m.first.p.t], m.first.p.b); bool hit = false;
                for (auto &k : keys_s) if (k.find(e) != std::string::npos) hit = true;
                if (!hit) bad("xform:disk", "the predicate " + show(m.first.p) + " is not stored as its encoder encodes it");
            }
        }
    }
};

// ------------------------------------------------------------------------------------------------------------ C21
// Every datastore has, under every name, its own contents. The ranks (if there are several) take all decisions together,
// each works on its own keys.
struct HashArg { int n; unsigned salt; };
static int salted_hash(hxhim_t *, void *s, const size_t sl, void *p, const size_t pl, void *args) {
    const HashArg *a = (const HashArg *) args;
    return (int) ((fnv(s, sl, fnv(p, pl, 1469598103934665603ull + a->salt)) >> 7) % (unsigned) a->n);
}
struct Switch {
    Rng &r; Cfg cfg; Mpi &mpi; Sess S; std::string trace; Rng q;
    size_t total = 0; std::vector<int> rank_of; std::vector<std::string> names; std::set<int> blocked;
    HashArg args[3]; int hash = 0;
    std::map<std::string, std::map<int, std::map<Key, Val>>> model; // of this rank's keys
    std::set<std::pair<std::string, int>> exists;
    std::vector<std::string> cur; std::vector<bool> usable;
    struct Q { int op; Key k; Val o; int d; };
    std::vector<Q> queue; long serial = 0; long changes = 0, failed = 0; bool collected = false;
    Switch(Rng &r, const Cfg &c, Mpi &m) : r(r), cfg(c), mpi(m), q(r.next() + 77777u * (unsigned) m.rank) {}
    void note(const std::string &s) { if (trace.size() < 1500) trace += s + "; "; }
    void bad(const std::string &k, const std::string &m) { out().fail(k, m + " | " + cfg.str() + " of " + std::to_string(mpi.size) + " | " + trace); }
    int dest(const Val &s, const Val &p) { return hxhim_hash(&S.hx, (void *) s.b.data(), s.b.size(), (void *) p.b.data(), p.b.size()); }
    Val subj() { return vbyte("r" + std::to_string(mpi.rank) + "." + std::string(1, (char) ('a' + q.below(5)))); }
    Val pred() { return q.chance(1, 2) ? vi64((int64_t) q.below(4)) : vptr(std::string(1, (char) ('u' + q.below(3)))); }
    // the name can be opened for this datastore
    bool can(const std::string &n, int d, bool create) {
        if (n.find('/') != std::string::npos) return false;
        if (n == names[3] && blocked.count(d)) return false;
        return create || exists.count({n, d});
    }
    void queue_some() {
        int n = (int) q.below(9);
        for (int i = 0; i < n; i++) {
            Val s = subj(), p = pred();
            uint64_t x = q.below(10);
            if (x < 5) {
                Val o = vbyte("o" + std::to_string(serial++)); size_t perms = mpi.size == 1 && q.chance(1, 4) ? 1 + q.below(63) : (size_t) HXHIM_PUT_SPO;
                if (S.put(s, p, o, perms) != HXHIM_SUCCESS) return bad("switch:put", "a valid PUT was refused");
                each_perm(perms, s, p, o, [&](size_t, const Val &a, const Val &b, const Val &c) { queue.push_back({HXHIM_PUT, Key{a, b}, c, dest(a, b)}); });
            } else if (x < 8) { S.get(s, p, HXHIM_DATA_BYTE); queue.push_back({HXHIM_GET, Key{s, p}, Val(), dest(s, p)}); }
            else { S.del(s, p); queue.push_back({HXHIM_DELETE, Key{s, p}, Val(), dest(s, p)}); }
        }
        note("q" + std::to_string(n));
    }
    static std::string text(int op, bool ok, int d, const Key &k, const Val &o) { return std::string(HXHIM_OP_STR[op]) + (ok ? " ok ds" : " failed ds") + std::to_string(d) + " " + show(k) + (op == HXHIM_GET && ok ? "=" + show(o) : ""); }
    // what the queued work returns, and does
    void check_flush(const std::vector<Rec> &res, size_t sync_ok, size_t sync_err) {
        std::multiset<std::string> want, got; size_t sok = 0, serr = 0;
        auto at = [&](int d) -> std::map<Key, Val> & { return model[cur[d]][d]; };
        for (auto &x : queue) if (x.op == HXHIM_PUT) { if (usable[x.d]) at(x.d)[x.k] = x.o; want.insert(text(HXHIM_PUT, usable[x.d], x.d, x.k, Val())); }
        for (auto &x : queue) if (x.op == HXHIM_GET) { auto &m = at(x.d); auto it = m.find(x.k); bool ok = usable[x.d] && it != m.end(); want.insert(text(HXHIM_GET, ok, x.d, x.k, ok ? it->second : Val())); if (ok) out().stat("reads_found"); }
        for (auto &x : queue) if (x.op == HXHIM_DELETE) { if (!usable[x.d]) { want.insert(text(HXHIM_DELETE, false, x.d, x.k, Val())); continue; } at(x.d).erase(x.k); want.insert(text(HXHIM_DELETE, true, x.d, x.k, Val())); }
        for (auto &x : res) {
            if (x.op == HXHIM_SYNC) { (x.status == HXHIM_SUCCESS ? sok : serr)++; continue; }
            bool ok = x.status == HXHIM_SUCCESS;
            if (x.op == HXHIM_DELETE && x.rs >= 0 && x.rs < (int) total && usable[x.rs]) ok = true; // deleting what is not there may fail
            got.insert(text(x.op >= 0 && x.op < HXHIM_INVALID ? x.op : (int) HXHIM_PUT, ok, x.rs, Key{x.s, x.p}, x.o));
        }
        if (want != got) {
            std::string d; for (auto &w : want) if (got.count(w) != want.count(w)) d += " expected " + w; for (auto &g : got) if (got.count(g) != want.count(g)) d += " got " + g;
            bad("switch:results", "the results of the queued work differ:" + d.substr(0, 600));
        }
        if (sok != sync_ok || serr != sync_err) bad("switch:status", std::to_string(sok) + " datastores reported success and " + std::to_string(serr) + " an error; expected " + std::to_string(sync_ok) + " and " + std::to_string(sync_err));
        out().stat("operations", (long) queue.size());
        queue.clear();
    }
    void listing() {
        Val none = vbyte("");
        for (int d = 0; d < (int) total; d++) {
            if (!usable[d]) continue;
            Val s, p = pred(); int tries = 0;
            do s = vbyte("find" + std::to_string(tries++)); while (dest(s, p) != d && tries < 2000);
            if (dest(s, p) != d) continue;
            if (S.getop(s, p, HXHIM_DATA_BYTE, 10000, HXHIM_GETOP_FIRST) != HXHIM_SUCCESS) bad("switch:listing", "a listing was refused");
            std::multiset<std::string> want, got;
            for (auto &m : model[cur[d]][d]) want.insert(text(HXHIM_GET, true, d, m.first, m.second));
            for (auto &x : collect(hxhim::FlushGetOps(&S.hx))) {
                if (mpi.size > 1 && x.s.b.compare(0, 2, "r" + std::to_string(mpi.rank)) != 0) continue;
                if (x.status == HXHIM_SUCCESS) got.insert(text(HXHIM_GET, true, x.rs, Key{x.s, x.p}, x.o));
            }
            out().stat("listings"); out().stat("records_listed", (long) got.size());
            if (want != got) {
                std::string t; for (auto &w : want) if (got.count(w) != want.count(w)) t += " missing " + w; for (auto &g : got) if (got.count(g) != want.count(g)) t += " extra " + g;
                bad("switch:contents", "datastore " + std::to_string(d) + " under the name " + cur[d] + ":" + t.substr(0, 600));
            }
        }
    }
    size_t mine(const std::vector<bool> &u, bool v) { size_t n = 0; for (int d = 0; d < (int) total; d++) if (rank_of[d] == mpi.rank && u[d] == v) n++; return n; }
    void change() {
        const bool hash_too = r.chance(1, 4), per_rank = !hash_too && r.chance(1, 3);
        std::vector<std::string> to(mpi.size);
        auto pick = [&]() { return r.chance(1, 5) ? std::string("no/such/dir") : names[r.below(4)]; };
        std::string one = pick(); for (auto &t : to) t = per_rank ? pick() : one;
        bool create = hash_too ? cfg.create : cfg.create;
        std::vector<bool> was = usable;
        size_t ok = mine(was, true), err = mine(was, false);
        int h = (int) r.below(3); bool c_api = r.chance(1, 2); bool wh = r.chance(1, 2), rh = r.chance(1, 2);
        std::string &n = to[mpi.rank]; std::vector<Rec> res; bool dummy;
        note((hash_too ? "hash " + std::to_string(h) + " " : std::string("name ")) + n);
        if (hash_too) res = c_api ? collect_c(hxhimChangeHash(&S.hx, n.data(), n.size(), salted_hash, &args[h]), &dummy) : collect(hxhim::ChangeHash(&S.hx, n, salted_hash, &args[h]));
        else res = c_api ? collect_c(hxhimChangeDatastoreName(&S.hx, n.data(), n.size(), wh, rh, r.chance(1, 2)), &dummy) : collect(hxhim::ChangeDatastoreName(&S.hx, n, wh, rh, r.chance(1, 2)));
        std::vector<bool> now(total);
        for (int d = 0; d < (int) total; d++) {
            now[d] = can(to[rank_of[d]], d, create);
        }
        // the work queued before was done under the old name
        check_flush(res, ok, err + mine(now, false));
        usable = now;
        for (int d = 0; d < (int) total; d++) { cur[d] = to[rank_of[d]]; if (usable[d]) exists.insert({cur[d], d}); else failed++; }
        if (hash_too) hash = h;
        changes++;
    }
    bool session(bool create) {
        cfg.create = create; cfg.base = names[r.below(3)];
        if (!create) for (size_t d = 0; d < total; d++) if (!exists.count({cfg.base, (int) d})) { cfg.create = create = true; break; }
        hash = (int) r.below(3);
        if (hxhim::Init(&S.hx, MPI_COMM_WORLD) != HXHIM_SUCCESS) return false;
        S.inited = true; S.cfg = cfg;
        if (!apply(&S.hx, cfg) || hxhim_set_hash_function(&S.hx, "salted", salted_hash, &args[hash]) != HXHIM_SUCCESS) return false;
        if (hxhim::Open(&S.hx) != HXHIM_SUCCESS) return false;
        S.opened = true;
        hxhim::GetDatastoreCount(&S.hx, &total);
        rank_of.assign(total, 0);
        for (size_t d = 0; d < total; d++) hxhim::GetDatastoreLocation(&S.hx, (int) d, &rank_of[d], nullptr);
        for (auto &a : args) a.n = (int) total;
        cur.assign(total, cfg.base); usable.assign(total, true);
        for (size_t d = 0; d < total; d++) exists.insert({cfg.base, (int) d});
        note("open " + cfg.base + (create ? "" : " (no create)"));
        return true;
    }
    void run() {
        for (int i = 0; i < 4; i++) names.push_back(cfg.base + std::string(1, (char) ('A' + i)));
        for (auto &a : args) { a.n = 1; a.salt = (unsigned) r.below(1000); }
        const int sessions = 1 + (int) r.below(3);
        for (int s = 0; s < sessions; s++) {
            if (!session(s == 0 || r.chance(2, 3))) return bad("switch:open", "Open failed");
            if (s == 0) {
                // one name cannot be opened for some datastores: a file is in its place
                for (size_t d = 0; d < total; d++) if (r.chance(1, 2)) {
                    blocked.insert((int) d);
                    if (mpi.rank == 0) { FILE *f = fopen((cfg.dir + "/" + names[3] + "-" + std::to_string(d)).c_str(), "w"); if (f) fclose(f); }
                }
                MPI_Barrier(MPI_COMM_WORLD);
            }
            const int steps = 2 + (int) r.below(10);
            for (int i = 0; i < steps; i++) {
                uint64_t x = r.below(10);
                if (x < 4) queue_some();
                else if (x < 7) { queue_some(); change(); }
                else if (x < 8) { check_flush(collect(hxhim::Flush(&S.hx)), 0, 0); note("flush"); }
                else if (x < 9) { auto v = collect(hxhim::Sync(&S.hx)); note("sync"); check_flush(v, mine(usable, true), mine(usable, false)); }
                else { check_flush(collect(hxhim::Flush(&S.hx)), 0, 0); listing(); note("list"); }
            }
            check_flush(collect(hxhim::Flush(&S.hx)), 0, 0);
            listing();
            S.close();
        }
        // every name once more, in a new session
        if (!session(true)) return bad("switch:reopen", "Open failed");
        for (int i = 0; i < 4; i++) {
            auto res = collect(hxhim::ChangeDatastoreName(&S.hx, names[i], false, false, false));
            for (int d = 0; d < (int) total; d++) { cur[d] = names[i]; usable[d] = can(names[i], d, true); }
            listing();
        }
        S.close();
        out().stat("changes", changes); out().stat("failed_opens", failed);
        if (changes > 1 && serial > 2) out().dist("nontrivial", fnv(trace + cfg.str()));
        out().sample(cfg.str() + " :: " + trace);
        MPI_Barrier(MPI_COMM_WORLD);
        if (mpi.rank == 0) for (auto &n : names) for (size_t d = 0; d < total; d++) { std::string f = cfg.dir + "/" + n + "-" + std::to_string(d); rmtree(f); unlink(f.c_str()); }
        MPI_Barrier(MPI_COMM_WORLD);
    }
};

// ------------------------------------------------------------------------------------------------------------ C20
typedef std::chrono::steady_clock::time_point TP;
struct OneStore {
    std::unique_ptr<::Datastore::Datastore> ds; uint64_t pt = 0, gt = 0; size_t np = 0, ng = 0; // last reported
    size_t puts = 0, gets = 0, more = 0;
    uint64_t put_wall = 0, get_wall = 0;
};
struct Counts {
    Rng &r; Cfg cfg; std::string trace; OneStore st[2];
    struct O { bool put; Val s, p, o; };
    Counts(Rng &r, const Cfg &c) : r(r), cfg(c) {}
    void bad(const std::string &k, const std::string &m) { out().fail(k, m + " | " + cfg.str() + " | " + trace); }
    void note(const std::string &s) { if (trace.size() < 1000) trace += s + "; "; }
    static Blob ref(const Val &v) { return ReferenceBlob((void *) v.b.data(), v.b.size(), v.t); }
    bool make(int i) {
        std::string name = cfg.dir + "/" + cfg.base + "-" + std::to_string(i);
        if (cfg.backend == MEM) st[i].ds.reset(new ::Datastore::InMemory(0, i, nullptr));
        else if (cfg.backend == LDB) st[i].ds.reset(new ::Datastore::LevelDB(0, i, nullptr, true));
        else st[i].ds.reset(new ::Datastore::RocksDB(0, i, nullptr, true));
        uint64_t a = 9, b = 9; size_t c = 9, d = 9;
        if (!st[i].ds->Open(name)) return false;
        st[i].ds->GetStats(&a, &c, &b, &d);
        if (a || b || c || d) bad("stats:fresh", "a datastore that did nothing reports " + std::to_string(c) + " PUTs and " + std::to_string(d) + " GETs");
        return true;
    }
    // exact: only puts and gets were done so far
    void check(OneStore &S, bool exact) {
        uint64_t pt = 0, gt = 0; size_t np = 0, ng = 0;
        if (S.ds->GetStats(r.chance(9, 10) ? &pt : nullptr, &np, &gt, &ng) != DATASTORE_SUCCESS) bad("stats:status", "GetStats failed");
        S.ds->GetStats(&pt, nullptr, nullptr, nullptr);
        out().stat("reports");
        if (np != S.puts) bad("stats:puts", std::to_string(S.puts) + " PUTs were done, " + std::to_string(np) + " are reported");
        if (exact ? ng != S.gets : ng < S.gets) bad("stats:gets", std::to_string(S.gets) + " GETs were done, " + std::to_string(ng) + " are reported");
        if (pt < S.pt || gt < S.gt) bad("stats:time", "an accumulated time decreased");
        if (pt - S.pt > S.put_wall || gt - S.gt > S.get_wall) bad("stats:time", "the time of the PUTs grew by " + std::to_string(pt - S.pt) + " ns in " + std::to_string(S.put_wall) + " ns, that of the GETs by " + std::to_string(gt - S.gt) + " in " + std::to_string(S.get_wall));
        if (S.put_wall == 0 && pt != S.pt) bad("stats:time", "the time of the PUTs grew although none was done");
        if (np > S.np && pt == S.pt) bad("stats:time", "PUTs were done in no time");
        S.pt = pt; S.gt = gt; S.np = np; S.ng = ng; S.put_wall = S.get_wall = 0;
    }
    template <typename F> void timed(uint64_t &wall, F fn) { TP a = std::chrono::steady_clock::now(); fn(); wall += (uint64_t) std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now() - a).count() + 1; }
    void perform(OneStore &S, const std::vector<O> &ops, size_t group) {
        for (size_t at = 0; at < ops.size();) {
            size_t end = at; const bool put = ops[at].put;
            size_t g = group ? group : 1 + r.below(7);
            while (end < ops.size() && ops[end].put == put && end - at < g) end++;
            if (put) {
                Message::Request::BPut q(end - at + r.below(2));
                for (size_t i = at; i < end; i++) q.add(ref(ops[i].s), ref(ops[i].p), ref(ops[i].o));
                timed(S.put_wall, [&]() { destruct(S.ds->operate(&q)); }); S.puts += end - at;
            } else {
                Message::Request::BGet q(end - at + r.below(2));
                for (size_t i = at; i < end; i++) q.add(ref(ops[i].s), ref(ops[i].p), ops[i].o.t);
                timed(S.get_wall, [&]() { destruct(S.ds->operate(&q)); }); S.gets += end - at;
            }
            at = end;
            if (r.chance(1, 4)) check(S, S.more == 0);
        }
    }
    void run() {
        if (!make(0) || !make(1)) return bad("stats:open", "Open failed");
        std::vector<Val> pool; for (int i = 0; i < 6; i++) pool.push_back(rnd_val(r, 12, true));
        const int rounds = 1 + (int) r.below(5);
        for (int round = 0; round < rounds; round++) {
            std::vector<O> ops; int n = 1 + (int) r.below(r.chance(1, 5) ? 60 : 14); bool put = r.chance(1, 2);
            for (int i = 0; i < n; i++) { if (r.chance(1, 3)) put = !put; O o{put, pool[r.below(6)], pool[r.below(6)], rnd_val(r, 12, true)}; if (put && r.chance(1, 12)) o.o = vdbl(HUGE_VAL); ops.push_back(o); }
            const size_t ga = r.below(8), gb = r.below(8);
            perform(st[0], ops, ga); perform(st[1], ops, gb);
            check(st[0], st[0].more == 0); check(st[1], st[1].more == 0);
            note(std::to_string(n) + " ops by " + std::to_string(ga) + " and " + std::to_string(gb));
            if (st[0].np != st[1].np || st[0].ng != st[1].ng) if (!st[0].more && !st[1].more) bad("stats:grouping", "the counts depend on the grouping");
            out().stat("operations", 2 * n);
            if (r.chance(1, 3)) {
                // other operations are no PUTs
                OneStore &S = st[r.below(2)]; uint64_t x = r.below(3);
                if (x == 0) { Message::Request::BDelete q(1); q.add(ref(pool[0]), ref(pool[1])); destruct(S.ds->operate(&q)); note("delete"); }
                else if (x == 1) { Message::Request::BHistogram q(1); Val h = vbyte("h"); q.add(ref(h)); timed(S.get_wall, [&]() { destruct(S.ds->operate(&q)); }); S.more++; note("histogram"); }
                else { S.ds->Sync(r.chance(1, 2)); note("sync"); }
                check(S, S.more == 0);
            }
        }
        if (st[0].puts + st[0].gets > 3) out().dist("nontrivial", fnv(trace + cfg.str()));
        out().sample(cfg.str() + " :: " + trace);
        for (auto &S : st) S.ds.reset();
    }
};

// when the parts of an operation happened
struct Stamps {
    Rng &r; Cfg cfg; Sess S; std::string trace; int serial = 0;
    struct W { TP from, to; int left; };
    std::map<std::string, W> calls;
    Rng own; int rank;
    Stamps(Rng &r0, const Cfg &c, Mpi &m) : r(own), cfg(c), own(r0.next() + (unsigned) m.rank * 977u), rank(m.rank) {}
    void bad(const std::string &k, const std::string &m) { out().fail(k, m + " | " + cfg.str() + " | " + trace); }
    static TP now() { return std::chrono::steady_clock::now(); }
    void run() {
        if (!S.open(cfg)) return bad("stats:open", "Open failed");
        ::Stats::Chronopoint epoch; TP opened = now();
        if (hxhim::GetEpoch(&S.hx, epoch) != HXHIM_SUCCESS || epoch > opened) bad("stats:epoch", "the epoch is not before the end of Open");
        for (int round = 0; round < 3; round++) {
            int n = 1 + (int) r.below(20);
            for (int i = 0; i < n; i++) {
                std::string id = "#" + std::to_string(rank) + "." + std::to_string(serial++); Val s = vbyte(id), p = vi32((int) r.below(3));
                W w; w.left = 1; w.from = now();
                int rc = HXHIM_SUCCESS;
                switch (r.below(6)) {
                    case 5: rc = S.getop(s, p, HXHIM_DATA_INT64, 1, HXHIM_GETOP_EQ); break;
                    case 0: case 1: { size_t perms = r.chance(1, 3) ? 1 + r.below(63) : (size_t) HXHIM_PUT_SPO; rc = S.put(s, p, vi64(4), perms); each_perm(perms, s, s, s, [&](size_t, const Val &, const Val &, const Val &) { w.left++; }); w.left--; break; }
                    case 2: rc = S.get(s, p, HXHIM_DATA_INT64); break;
                    case 3: rc = S.del(s, p); break;
                    default: { std::vector<Val> ss(1 + r.below(4), s), pp(ss.size(), p); std::vector<void *> a, b; std::vector<size_t> al, bl; std::vector<hxhim_data_t> at, bt, ot;
                        for (size_t k = 0; k < ss.size(); k++) { a.push_back(S.keep(s.b)); al.push_back(s.b.size()); at.push_back(s.t); b.push_back(S.keep(p.b)); bl.push_back(p.b.size()); bt.push_back(p.t); ot.push_back(HXHIM_DATA_INT64); }
                        w.from = now(); w.left = (int) ss.size(); rc = hxhim::BGet(&S.hx, a.data(), al.data(), at.data(), b.data(), bl.data(), bt.data(), ot.data(), ss.size()); break; }
                }
                w.to = now();
                if (rc != HXHIM_SUCCESS) bad("stats:call", "a valid operation was refused");
                calls[id] = w;
            }
            TP f0 = now();
            hxhim::Results *res = hxhim::Flush(&S.hx);
            TP f1 = now();
            size_t seen = 0;
            HXHIM_CXX_RESULTS_LOOP(res) {
                struct hxhim::Result::Timestamps *t = nullptr;
                enum hxhim_op_t op = HXHIM_INVALID; res->Op(&op);
                if (res->Timestamps(&t) != HXHIM_SUCCESS || !t) { bad("stats:stamps", "a result has no timestamps"); continue; }
                seen++;
                out().stat("stamped_results");
                std::string where = HXHIM_OP_STR[op];
                // permuted PUTs carry the marker in any place; objects are not in the result
                void *p = nullptr; size_t n = 0; hxhim_data_t ty; std::string id;
                res->Subject(&p, &n, &ty); if (ty == HXHIM_DATA_BYTE) id.assign((char *) p, n);
                else { res->Predicate(&p, &n, &ty); if (ty == HXHIM_DATA_BYTE) id.assign((char *) p, n); }
                TP a = t->send.hash.start, b = t->send.hash.end, c = t->send.insert.start, d = t->send.insert.end, e = t->recv.result.start, g = t->recv.result.end;
                if (!(a <= b && b <= c && c <= d && d <= e && e <= g)) bad("stats:order", "the stages of a " + where + " are not in order");
                if (a < epoch) bad("stats:order", "a " + where + " began before the session");
                if (e > f1 || g > f1 || (!cfg.async && e < f0)) bad("stats:window", "the result of a " + where + " was made outside of the flush");
                if (t->alloc) { out().stat("allocations"); if (!(t->alloc->start <= t->alloc->end && t->alloc->end <= d && t->alloc->start >= epoch)) bad("stats:alloc", "the allocation for a " + where + " is not in order"); }
                auto tr = t->transport;
                if (tr.start != TP() && tr.end != TP() && tr.start > tr.end) bad("stats:transport", "the transport of a " + where + " ends before it starts");
                auto it = calls.find(id);
                if (id.empty() || op == HXHIM_GETOP) continue; // (predicate, object) pairs do not name the call, range reads return other keys
                if (it == calls.end() || it->second.left <= 0) { bad("stats:unknown", "a result of no operation"); continue; }
                out().stat("calls_matched");
                if (a < it->second.from || d > it->second.to) bad("stats:call", "the stamps of a " + where + " are not of the call that queued it");
            }
            hxhim::Results::Destroy(res); S.arena.clear();
            size_t want = 0; for (auto &w : calls) want += (size_t) w.second.left;
            if (seen != want) bad("stats:count", std::to_string(want) + " results expected, " + std::to_string(seen) + " have timestamps");
            trace += std::to_string(n) + "/" + std::to_string(want) + "; "; calls.clear();
        }
        out().dist("nontrivial", fnv(trace + cfg.str()));
        out().sample(cfg.str() + " :: " + trace);
        S.close();
    }
};

// ------------------------------------------------------------------------------------------------------------ C11
static const double EDGES[] = {-1e300, -20, -1.5, 0, 3, 50};
static int edge_buckets(const double *, const size_t, double **buckets, size_t *size, void *) {
    const size_t n = sizeof EDGES / sizeof EDGES[0];
    *size = n; *buckets = static_cast<double *>(::operator new[](sizeof(double) * (n + 1)));
    for (size_t i = 0; i < n; i++) (*buckets)[i] = EDGES[i];
    (*buckets)[n] = 1e300;
    return HISTOGRAM_SUCCESS;
}
struct Track {
    struct H { size_t first_n; std::vector<double> v; };
    Rng &r; Cfg cfg; Mpi &mpi; Rng q; Sess S; std::string trace; int hn[1] = {1}; // q differs between ranks, r does not
    std::vector<std::string> names;                                     // tracked
    std::map<int, std::map<std::string, H>> live;                       // datastore -> name -> values
    std::map<std::string, std::map<int, std::map<std::string, H>>> disk; // database -> ...
    std::string db; std::vector<Key> keys;
    struct P { int d; std::string name; double v; };
    std::vector<P> queued; size_t puts = 0; struct HQ { int d; std::string n; }; std::vector<HQ> hq; long counted = 0, uncounted = 0, reopened = 0;
    Track(Rng &r, const Cfg &c, Mpi &m) : r(r), cfg(c), mpi(m), q(r.next() + 99u * (unsigned) m.rank) {}
    bool many() const { return mpi.size > 1; }
    void barrier() { if (many()) MPI_Barrier(MPI_COMM_WORLD); }
    void note(const std::string &s) { if (trace.size() < 1500) trace += s + "; "; }
    void bad(const std::string &k, const std::string &m) { out().fail(k, m + " | " + cfg.str() + " first_n=" + std::to_string(cfg.first_n) + (cfg.hread ? " read" : "") + (cfg.hwrite ? " write" : "") + " | " + trace); }
    int dest(const Val &s, const Val &p) { return hxhim_hash(&S.hx, (void *) s.b.data(), s.b.size(), (void *) p.b.data(), p.b.size()); }
    Val real() {
        double x = q.chance(1, 4) ? EDGES[1 + q.below(5)] : (double) q.range(-300, 600) / 8.0;
        if (q.chance(1, 25)) x = q.chance(1, 2) ? HUGE_VAL : -HUGE_VAL; // cannot be stored
        if (x == 0) x = 0.0;
        return q.chance(1, 2) ? vflt((float) x) : vdbl(x);
    }
    Val part() {
        switch (q.below(9)) {
            case 0: case 1: case 2: { auto &n = names[q.below(names.size())]; return vbyte(n); }
            case 3: { auto &n = names[q.below(names.size())]; return q.chance(1, 2) ? vptr(n) : vbyte(q.chance(1, 2) ? n + "x" : n.substr(0, n.size() - 1) + "y"); }
            case 4: case 5: case 6: return real();
            case 7: return vi32((int) q.below(5));
            default: return vbyte("s" + std::to_string(q.below(4)));
        }
    }
    void put() {
        Val s, p, o; size_t perms = HXHIM_PUT_SPO;
        if (q.chance(1, 2)) { s = vbyte("s" + std::to_string(q.below(6))); p = vbyte(names[q.below(names.size())]); o = real(); }
        else { s = part(); p = part(); o = part(); perms = 1 + q.below(63); }
        if (S.put(s, p, o, perms) != HXHIM_SUCCESS) return bad("track:put", "a valid PUT was refused");
        auto fin = [](const Val &v) { return v.t == HXHIM_DATA_FLOAT ? std::isfinite(as<float>(v)) : v.t == HXHIM_DATA_DOUBLE ? std::isfinite(as<double>(v)) : true; };
        const bool ok = fin(s) && fin(p) && fin(o);
        each_perm(perms, s, p, o, [&](size_t, const Val &a, const Val &b, const Val &c) {
            puts++;
            const bool is = b.t == HXHIM_DATA_BYTE && std::find(names.begin(), names.end(), b.b) != names.end() && (c.t == HXHIM_DATA_FLOAT || c.t == HXHIM_DATA_DOUBLE) && ok;
            if (is) queued.push_back({dest(a, b), b.b, c.t == HXHIM_DATA_FLOAT ? (double) as<float>(c) : as<double>(c)}); else uncounted++;
        });
    }
    void performed() {
        if (many()) {
            // what all ranks stored
            struct W { int d, name; double v; };
            std::vector<W> mine; for (auto &x : queued) mine.push_back({x.d, (int) (std::find(names.begin(), names.end(), x.name) - names.begin()), x.v});
            int len = (int) (mine.size() * sizeof(W)), total = 0; std::vector<int> lens(mpi.size), at(mpi.size);
            MPI_Allgather(&len, 1, MPI_INT, lens.data(), 1, MPI_INT, MPI_COMM_WORLD);
            for (int i = 0; i < mpi.size; i++) { at[i] = total; total += lens[i]; }
            std::vector<W> all((size_t) total / sizeof(W));
            MPI_Allgatherv(mine.data(), len, MPI_CHAR, all.data(), lens.data(), at.data(), MPI_CHAR, MPI_COMM_WORLD);
            queued.clear(); for (auto &w : all) queued.push_back({w.d, names[w.name], w.v});
        }
        for (auto &q : queued) { auto &m = live[q.d]; auto it = m.find(q.name); if (it != m.end()) { it->second.v.push_back(q.v); counted++; } }
        queued.clear(); puts = 0;
    }
    // the results of HISTOGRAM requests
    void compare(hxhim::Results *res) {
        size_t i = 0;
        HXHIM_CXX_RESULTS_LOOP(res) {
            enum hxhim_op_t op = HXHIM_INVALID; res->Op(&op);
            if (op != HXHIM_HISTOGRAM) continue;
            int st = HXHIM_ERROR, rs = -1; res->Status(&st); res->RangeServer(&rs);
            i++;
            // requests to one datastore are answered in order
            size_t k = 0; while (k < hq.size() && hq[k].d != rs) k++;
            if (k == hq.size()) { bad("track:result", "a HISTOGRAM result from datastore " + std::to_string(rs) + ", which was not asked"); continue; }
            HQ q = hq[k]; hq.erase(hq.begin() + (long) k);
            auto it = live[q.d].find(q.n);
            std::string where = "histogram " + hex(q.n) + " of datastore " + std::to_string(q.d);
            if (it == live[q.d].end()) { if (st == HXHIM_SUCCESS) bad("track:absent", where + " does not exist, but was returned"); continue; }
            if (st != HXHIM_SUCCESS) { bad("track:missing", where + " was not returned"); continue; }
            const H &h = it->second;
            ::Histogram::Histogram *hist = nullptr; std::string name;
            if (res->Histogram(&hist) != HXHIM_SUCCESS || !hist) { bad("track:missing", where + " has no contents"); continue; }
            hist->get_name(name);
            if (name != q.n) bad("track:name", where + " is called " + hex(name));
            double *cache = nullptr; size_t cn = 0, fn = 0; hist->get_cache(&fn, &cache, &cn);
            std::vector<double> first(h.v.begin(), h.v.begin() + (long) std::min(h.v.size(), h.first_n));
            // (the first values are kept until there are counts)
            std::vector<double> kept(cache, cache + cn);
            if (many()) { std::sort(first.begin(), first.end()); std::sort(kept.begin(), kept.end()); } // in which order the values of several ranks arrived is not known
            if (h.v.size() < h.first_n && (fn != h.first_n || kept != first)) { std::string t, u; for (double x : first) t += std::to_string(x) + " "; for (size_t j = 0; j < cn; j++) u += std::to_string(cache[j]) + " "; bad("track:first", where + " kept the first values " + u + "of the " + std::to_string(h.v.size()) + " stored, expected " + t); }
            double *b = nullptr; size_t *c = nullptr, n = 0; const char *nm = nullptr; size_t nl = 0;
            int rc = res->Histogram(&nm, &nl, &b, &c, &n);
            out().stat("histograms_compared");
            if (h.v.size() < h.first_n) { if (rc == HXHIM_SUCCESS) bad("track:early", where + " has counts before it has " + std::to_string(h.first_n) + " values"); continue; }
            if (h.v.empty()) continue;
            if (rc != HXHIM_SUCCESS || n != sizeof EDGES / sizeof EDGES[0]) { bad("track:counts", where + " has no counts although " + std::to_string(h.v.size()) + " values were stored"); continue; }
            std::vector<size_t> want(n, 0), got(c, c + n);
            for (double x : h.v) { size_t j = n; while (j && x < EDGES[j - 1]) j--; if (j) want[j - 1]++; }
            out().stat("counts_compared", (long) h.v.size());
            if (want != got) { std::string t, u; for (auto x : want) t += std::to_string(x) + " "; for (auto x : got) u += std::to_string(x) + " "; bad("track:counts", where + " counts " + u + ", expected " + t); }
        }
        if (!hq.empty()) { bad("track:lost", std::to_string(hq.size()) + " HISTOGRAM requests have no result"); hq.clear(); }
        hxhim::Results::Destroy(res);
    }
    void ask() {
        for (int d = 0; d < (int) (size_t) hn[0]; d++) for (auto &n : names) if (q.chance(3, 4)) { if (S.hist(d, n) != HXHIM_SUCCESS) bad("track:ask", "a valid HISTOGRAM was refused"); hq.push_back({d, n}); }
        if (q.chance(1, 4)) { int d = (int) q.below((size_t) hn[0]); std::string n = names[0] + "?"; S.hist(d, n); hq.push_back({d, n}); }
        if (q.chance(1, 6)) { int e = -1; auto &n = names[q.below(names.size())]; if (hxhim::HaveHistogram(&S.hx, n.data(), n.size(), &e) != HXHIM_SUCCESS || !e) bad("track:have", "a tracked name is not reported"); std::string o = n + "?"; hxhim::HaveHistogram(&S.hx, o.data(), o.size(), &e); if (e) bad("track:have", "an unknown name is reported as tracked"); }
    }
    void write() { for (auto &d : live) for (auto &n : d.second) disk[db][d.first][n.first] = n.second; }
    void load(bool read, bool create) {
        live.clear();
        if (cfg.backend == MEM) disk.clear();
        for (int d = 0; d < hn[0]; d++) for (auto &n : names) {
            if (read && disk[db][d].count(n)) live[d][n] = disk[db][d][n];
            else if (create) live[d][n] = H{cfg.first_n, {}};
        }
    }
    bool open() {
        if (hxhim::Init(&S.hx, MPI_COMM_WORLD) != HXHIM_SUCCESS) return false;
        S.inited = true; hn[0] = 1;
        cfg.hread = r.chance(3, 4); cfg.hwrite = r.chance(3, 4); cfg.first_n = r.below(10) ? 1 + r.below(8) : 0; cfg.base = db; cfg.track = names; S.cfg = cfg;
        if (!apply(&S.hx, cfg) || hxhim_set_hash_function(&S.hx, "where", where_hash, hn) != HXHIM_SUCCESS || hxhim_set_histogram_bucket_gen_function(&S.hx, edge_buckets, nullptr) != HXHIM_SUCCESS) return false;
        if (hxhim::Open(&S.hx) != HXHIM_SUCCESS) return false;
        S.opened = true;
        { size_t total = 1; hxhim::GetDatastoreCount(&S.hx, &total); hn[0] = (int) total; }
        note("open " + db + (cfg.hread ? " r" : "") + (cfg.hwrite ? " w" : ""));
        load(cfg.hread, true);
        return true;
    }
    // several ranks: everything is stored before anybody asks
    void together() {
        hxhim::Results::Destroy(q.chance(1, 2) ? hxhim::FlushPuts(&S.hx) : hxhim::Flush(&S.hx)); note("flush");
        barrier(); performed(); barrier();
        ask(); hxhim::Results *res = q.chance(1, 2) ? hxhim::FlushHistograms(&S.hx) : hxhim::Flush(&S.hx); compare(res);
        barrier();
    }
    void run() {
        names = {"t1", std::string("n\0l", 3)};
        if (r.chance(1, 2)) names.push_back(rnd_bytes(r, 2 + r.below(30), 2) + "z");
        if (r.chance(1, 3)) names.assign(1, std::string(names[r.below(names.size())]));
        std::string dbs[3] = {cfg.base + "A", cfg.base + "B", cfg.base + "C"}; db = dbs[0];
        const int sessions = cfg.backend == MEM ? 1 : 1 + (int) r.below(4);
        for (int ses = 0; ses < sessions; ses++) {
            if (!open()) return bad("track:open", "Open failed");
            if (ses) reopened++;
            const int steps = 2 + (int) r.below(8);
            for (int i = 0; i < steps; i++) {
                int n = (int) q.below(10); for (int k = 0; k < n; k++) put();
                if (n) note(std::to_string(n) + " puts");
                uint64_t x = r.below(10);
                if (many() && (x < 5 || (x > 5 && x < 8))) together();
                else if (x < 4) { ask(); hxhim::Results *res = hxhim::Flush(&S.hx); performed(); note("flush"); compare(res); }
                else if (x < 5 && !cfg.async) { ask(); hxhim::Results *res = hxhim::FlushHistograms(&S.hx); note("flush histograms"); compare(res); continue; }
                else if (x < 6) { hxhim::Results *res = hxhim::Sync(&S.hx); performed(); if (cfg.hwrite) write(); note("sync"); compare(res); }
                else if (x < 8) { // reading and deleting changes no counts
                    for (int k = 0; k < 4; k++) { Val s = vbyte("s" + std::to_string(r.below(6))), p = vbyte(names[r.below(names.size())]); if (r.chance(1, 2)) S.get(s, p, HXHIM_DATA_DOUBLE); else S.del(s, p); }
                    ask(); hxhim::Results *res = hxhim::Flush(&S.hx); performed(); note("read/delete"); compare(res);
                } else if (x < 9 || cfg.backend == MEM) {
                    bool w = r.chance(1, 2), rd = r.chance(2, 3), cr = r.chance(2, 3); std::string to = dbs[r.below(3)];
                    if (many()) together(); else ask();
                    note("change to " + to + (w ? " w" : "") + (rd ? " r" : "") + (cr ? " c" : ""));
                    // the results share the histograms of the datastores that were left
                    hxhim::Results *res = hxhim::ChangeDatastoreName(&S.hx, to, w, rd, cr);
                    performed(); compare(res);
                    if (cfg.hwrite || w) write();
                    db = to; load(rd, cr);
                } else continue;
                S.arena.clear();
            }
            ask(); hxhim::Results *res = hxhim::Flush(&S.hx); performed(); if (many()) { hxhim::Results::Destroy(res); hq.clear(); together(); } else compare(res);
            S.close();
            if (cfg.hwrite) write();
            if (r.chance(1, 2)) db = dbs[r.below(3)];
        }
        out().stat("counted", counted); out().stat("not_counted", uncounted); out().stat("reopened", reopened);
        if (counted > 3) out().dist("nontrivial", fnv(trace + cfg.str()));
        out().sample(cfg.str() + " :: " + trace);
        barrier();
        if (mpi.rank == 0) for (auto &d : dbs) for (int i = 0; i < hn[0]; i++) rmtree(cfg.dir + "/" + d + "-" + std::to_string(i));
    }
};

inline void run_mode(const Args &a, Mpi &mpi, long c, Rng &r, Cfg &f) {
    if (a.mode == "switch") {
        f.per_server = 1 + r.below(3); f.ops = 1 + r.below(8); f.track.clear(); f.mpi = mpi.size > 1;
        f.async = r.chance(1, 5) ? 1 + r.below(3) : 0; f.backend = r.chance(3, 4) ? LDB : RDB;
        if (mpi.size > 1) { f.cr = 1 + r.below(3); f.sr = 1 + r.below(3); f.listeners = 1 + (int) r.below(2); }
        { Switch l(r, f, mpi); l.run(); }
        return;
    }
    if (a.mode == "track") {
        uint64_t x = r.below(20); f.backend = x < 9 ? MEM : x < 17 ? LDB : RDB; f.per_server = 1 + r.below(3); f.ops = 1 + r.below(8); f.async = r.chance(1, 5) ? 1 + r.below(3) : 0;
        if (mpi.size > 1) { f.mpi = true; f.cr = 1 + r.below(3); f.sr = 1 + r.below(3); f.listeners = 1 + (int) r.below(3); f.backend = x < 12 ? MEM : x < 17 ? LDB : RDB; }
        { Track l(r, f, mpi); l.run(); }
        return;
    }
    if (a.mode == "stats") {
        uint64_t x = r.below(20); f.backend = x < 12 ? MEM : x < 17 ? LDB : RDB; f.per_server = 2;
        if (mpi.size > 1) { f.mpi = true; f.cr = 1 + r.below(2); f.sr = 1 + r.below(2); }
        if (mpi.size == 1 && r.chance(1, 2)) { Counts l(r, f); l.run(); }
        else { f.backend = r.chance(19, 20) ? MEM : LDB; f.per_server = 1 + r.below(3); f.hash = HASHES[r.below(9)]; f.ops = 1 + r.below(8); f.async = r.chance(1, 5) ? 1 + r.below(3) : 0; Stamps l(r, f, mpi); l.run(); }
    } else if (a.mode == "limits") {
        f.per_server = 1 + r.below(3); f.ops = 1 + r.below(7); f.async = r.chance(1, 5) ? 1 + r.below(3) : 0;
        if (mpi.size > 1) { f.mpi = true; f.cr = 1 + r.below(3); f.sr = 1 + r.below(3); f.listeners = 1 + (int) r.below(3); }
        static const size_t sizes[] = {1, 150, 250, 400, 700, 1500, 65536};
        f.size = r.chance(1, 2) ? sizes[r.below(7)] : 60 + r.below(900);
        uint64_t x = r.below(20); f.backend = x < 18 ? MEM : x < 19 ? LDB : RDB;
        { Limits l(r, f, mpi); l.run(); }
    } else if (a.mode == "xform") {
        f.per_server = r.chance(1, 2) ? 1 : 1 + r.below(3); f.hash = f.per_server == 1 ? "DATASTORE_0" : HASHES[r.below(9)]; f.ops = 1 + r.below(8); f.async = r.chance(1, 5) ? 1 + r.below(3) : 0; f.track.clear();
        if (mpi.size > 1) { f.mpi = true; f.cr = 1 + r.below(2); f.sr = 1 + r.below(2); f.listeners = 1 + (int) r.below(2); f.hash = HASHES[r.below(9)]; }
        uint64_t x = r.below(20); f.backend = x < 10 ? MEM : x < 17 ? LDB : RDB;
        { Xform l(r, f, mpi); l.run(); }
    }
    if (mpi.size > 1) MPI_Barrier(MPI_COMM_WORLD);
    if (f.backend != MEM && mpi.rank == 0) for (size_t i = 0; i < f.per_server * (mpi.size > 1 ? 3 * (size_t) mpi.size : 1); i++) rmtree(a.dir + "/" + f.base + "-" + std::to_string(i));
    (void) c;
}
