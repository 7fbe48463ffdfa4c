// included by mpi.cpp: the life of sessions of several ranks (C16), also over communicators of some of the ranks and
// with two sessions at a time.
struct Ranks {
    struct St {
        hxhim_t hx{}; bool have = false, running = false, usable = true; Cfg cfg; MPI_Comm comm = MPI_COMM_NULL; int rank = 0, size = 1; std::string tag;
        std::map<Key, Val> model, queued; size_t total = 0; std::vector<int> host;
    };
    Rng &r; Mpi &mpi; Rng q; std::string dir, trace; std::deque<std::string> arena; std::vector<hxhim::Results *> held;
    Ranks(Rng &r, Mpi &m, const std::string &d, long c) : r(r), mpi(m), q(r.next() + 1237u * (unsigned) m.rank), dir(d + "/ranks" + std::to_string(c)) {}
    void note(const std::string &s) { if (trace.size() < 1200) trace += s + "; "; }
    void bad(const std::string &k, const std::string &m) { out().fail(k, m + " | " + trace); }
    void *keep(const std::string &s) { arena.push_back(s); arena.back().reserve(40); return (void *) arena.back().data(); }
    void drop(hxhim::Results *res) { if (!res) return; if (q.chance(1, 4)) held.push_back(res); else if (q.chance(1, 2)) collect(res); else hxhim::Results::Destroy(res); }
    Val subj() { return vbyte(std::to_string(mpi.rank) + "." + std::to_string(q.below(12))); }
    void ops(St &s) {
        int n = (int) q.below(10);
        for (int i = 0; i < n; i++) {
            Val a = subj(), b = rnd_val(q), c = rnd_val(q, 60, false);
            switch (q.below(7)) {
                case 0: case 1: case 2: case 3:
                    if (hxhim::Put(&s.hx, keep(a.b), a.b.size(), a.t, keep(b.b), b.b.size(), b.t, keep(c.b), c.b.size(), c.t, HXHIM_PUT_SPO) != HXHIM_SUCCESS) bad("ranks:put", "valid Put refused");
                    s.queued[Key{a, b}] = c; break;
                case 4: hxhim::Get(&s.hx, keep(a.b), a.b.size(), a.t, keep(b.b), b.b.size(), b.t, c.t); break;
                case 5: hxhim::GetOp(&s.hx, keep(a.b), a.b.size(), a.t, keep(b.b), b.b.size(), b.t, c.t, q.below(5), (hxhim_getop_t) q.below(HXHIM_GETOP_INVALID)); break;
                default: { std::string h = q.chance(1, 2) ? "h" : "none"; hxhim::Histogram(&s.hx, (int) q.below(s.total), (const char *) keep(h), h.size()); } break;
            }
        }
        note("q" + std::to_string(n));
    }
    void done(St &s) { for (auto &x : s.queued) s.model[x.first] = x.second; s.queued.clear(); }
    void verify(St &s) {
        if (!s.usable) return;
        for (auto &m : s.model) hxhim::Get(&s.hx, keep(m.first.s.b), m.first.s.b.size(), m.first.s.t, keep(m.first.p.b), m.first.p.b.size(), m.first.p.t, m.second.t);
        size_t found = 0; std::set<Key> seen;
        for (auto &g : collect(hxhim::FlushGets(&s.hx))) { auto it = s.model.find(Key{g.s, g.p}); if (it != s.model.end() && g.status == HXHIM_SUCCESS && g.has_o && same(it->second, g.o) && seen.insert(it->first).second) found++; }
        out().stat("verified_records", (long) found);
        if (found < s.model.size()) bad("ranks:lost", std::to_string(found) + " of " + std::to_string(s.model.size()) + " stored records read back");
    }
    void open(St &t, int which) {
        Cfg c;
        c.backend = r.chance(1, 2) ? MEM : r.chance(2, 3) ? LDB : RDB; c.per_server = 1 + r.below(3); c.ops = 1 + r.below(6); c.size = r.chance(1, 3) ? 64 : 4096;
        c.hash = HASHES[r.below(9)]; c.async = r.chance(1, 3) ? 1 + r.below(4) : 0; c.mpi = true; c.listeners = 1 + (int) r.below(3); c.cr = 1 + r.below(3); c.sr = 1 + r.below(3);
        c.dir = dir; c.base = t.tag + backend_name(c.backend) + std::to_string(r.below(2)); c.hread = r.chance(1, 2); c.hwrite = r.chance(1, 2); c.first_n = r.below(4);
        if (r.chance(1, 2)) c.track = {"h", "p"};
        // the layout of the range servers of this communicator
        const size_t servers = c.cr <= c.sr ? (size_t) t.size : ((size_t) t.size / c.cr) * c.sr + std::min((size_t) t.size % c.cr, c.sr);
        const size_t total = servers * c.per_server;
        std::vector<int> host; for (size_t d = 0; d < total; d++) host.push_back(hxhim::Datastore::get_rank((int) d, t.size, c.cr, c.sr, c.per_server));
        std::set<int> fails; std::string file, why = "good";
        const uint64_t kind = r.below(8), pick = r.next();
        if (c.backend != MEM && kind == 0) { c.dir = dir + "/file"; for (int h : host) fails.insert(h); why = "no directory"; }
        if (c.backend != MEM && kind == 1) {
            c.base = t.tag + "blocked"; const size_t d = pick % total; file = dir + "/" + c.base + "-" + std::to_string(d); fails.insert(host[d]); why = "a file for datastore " + std::to_string(d);
            if (t.rank == 0) { FILE *f = fopen(file.c_str(), "w"); if (f) fclose(f); }
        }
        if (c.backend != MEM && kind == 2) { c.base = t.tag + "missing"; c.create = false; for (int h : host) fails.insert(h); why = "not there"; }
        // directories that are not there yet, and storage of their own for each rank
        if (c.backend != MEM && kind > 2) {
            const uint64_t where = pick % 4;
            if (where == 1) c.dir = dir + "/" + t.tag + "new" + std::to_string(pick % 64) + "/deeper";
            if (where == 2) c.dir = dir + "/node" + std::to_string(mpi.rank) + (pick & 256 ? "/local" : "");
            out().stat(where == 1 ? "opens_new_directory" : where == 2 ? "opens_own_directories" : "opens_shared_directory");
        }
        MPI_Barrier(t.comm);
        if (!apply(&t.hx, c)) bad("ranks:options", "a valid option was refused");
        note("open" + std::to_string(which) + "(" + c.str() + " " + std::to_string(c.cr) + ":" + std::to_string(c.sr) + " of " + std::to_string(t.size) + "," + why + ")");
        int rc = hxhim::Open(&t.hx);
        out().stat(fails.empty() ? "opens_good" : "opens_bad");
        if (fails.count(t.rank)) { if (rc == HXHIM_SUCCESS) bad("ranks:badopen", "Open succeeded on a rank although " + why); out().stat("ranks_failed"); }
        else if (rc != HXHIM_SUCCESS) bad("ranks:open", "a valid Open failed: " + std::to_string(rc) + " " + why);
        if (rc == HXHIM_SUCCESS && !fails.empty()) { if (hxhim::Close(&t.hx) != HXHIM_SUCCESS) bad("ranks:close", "Close of a rank after the others failed"); t.have = false; }
        if (rc != HXHIM_SUCCESS) { if (q.chance(1, 2)) hxhim::Close(&t.hx); t.have = false; }
        else if (fails.empty()) {
            t.running = true; t.usable = true; t.cfg = c; t.model.clear(); t.queued.clear(); t.host = host;
            if (hxhim::GetDatastoreCount(&t.hx, &t.total) != HXHIM_SUCCESS || t.total != total) { bad("ranks:count", std::to_string(t.total) + " datastores instead of " + std::to_string(total)); t.total = total; }
        }
        MPI_Barrier(t.comm);
        if (!file.empty() && t.rank == 0) { rmtree(dir + "/" + c.base); for (size_t d = 0; d < total; d++) { std::string f = dir + "/" + c.base + "-" + std::to_string(d); unlink(f.c_str()); rmtree(f); } }
    }
    void run() {
        if (mpi.rank == 0) { mkdir(dir.c_str(), 0755); FILE *f = fopen((dir + "/file").c_str(), "w"); if (f) fclose(f); }
        MPI_Barrier(MPI_COMM_WORLD);
        St s[2]; const int n = r.chance(1, 3) ? 2 : 1;
        for (int i = 0; i < n; i++) {
            St &t = s[i];
            // all ranks, some of them, or one
            uint64_t k = r.below(8); std::vector<int> color; for (int j = 0; j < mpi.size; j++) color.push_back(k < 4 ? 0 : k < 7 ? (int) r.below(2) : j);
            const bool reorder = r.chance(1, 4);
            MPI_Comm_split(MPI_COMM_WORLD, color[mpi.rank], reorder ? -mpi.rank : mpi.rank, &t.comm);
            MPI_Comm_rank(t.comm, &t.rank); MPI_Comm_size(t.comm, &t.size);
            t.tag = std::string(1, (char) ('A' + i)) + std::to_string(color[mpi.rank]);
            note("communicator of " + std::to_string(t.size));
            if (t.size != mpi.size) out().stat("part_communicators");
        }
        const int steps = 6 + (int) r.below(20);
        for (int step = 0; step < steps; step++) {
            const int which = (int) r.below(n); St &t = s[which];
            const uint64_t x = r.below(100), y = r.next();
            const std::string nm = t.tag + "c" + std::to_string(y % 3);
            // (a failed open leaves all ranks of the communicator without a session)
            if (!t.have) { t.hx = hxhim_t{}; if (hxhim::Init(&t.hx, t.comm) != HXHIM_SUCCESS) { bad("ranks:init", "Init failed"); break; } t.have = true; t.running = false; if (x < 90) open(t, which); continue; }
            if (!t.running) { if (x < 30) { if (hxhim::Close(&t.hx) != HXHIM_SUCCESS) bad("ranks:close", "Close before Open failed"); t.have = false; note("close unopened"); } else open(t, which); continue; }
            if (x < 40) ops(t);
            else if (x < 62) {
                switch (q.below(6)) {
                    case 0: drop(hxhim::FlushPuts(&t.hx)); done(t); break;
                    case 1: drop(hxhim::FlushGets(&t.hx)); break;
                    case 2: drop(hxhim::FlushGetOps(&t.hx)); break;
                    case 3: drop(hxhim::FlushHistograms(&t.hx)); break;
                    default: drop(hxhim::Flush(&t.hx)); done(t); if (q.chance(1, 2)) verify(t); break;
                }
                note("flush");
            } else if (x < 70) { note("sync"); drop(hxhim::Sync(&t.hx)); done(t); verify(t); }
            else if (x < 78) {
                note("change " + nm);
                if (y & 64) { size_t *z = nullptr; (void) z; drop(hxhim::ChangeDatastoreName(&t.hx, nm, y & 8, y & 16, y & 32)); }
                else drop(hxhim::ChangeHash(&t.hx, nm, ident_hash, nullptr));
                t.model.clear(); t.queued.clear(); out().stat("changes");
            } else {
                note(t.queued.empty() ? "close" : "close with work"); out().stat(t.queued.empty() ? "closed_idle" : "closed_with_work");
                if (hxhim::Close(&t.hx) != HXHIM_SUCCESS) bad("ranks:close", "Close failed");
                t.have = t.running = false;
            }
            if (q.chance(1, 8) && !held.empty()) { collect(held.back()); held.pop_back(); }
        }
        for (int i = 0; i < n; i++) {
            St &t = s[i];
            if (t.have) {
                if (t.running && t.queued.empty()) verify(t);
                if (hxhim::Close(&t.hx) != HXHIM_SUCCESS) bad("ranks:close", "last Close failed");
                if (hxhim::Close(&t.hx) == HXHIM_SUCCESS) bad("ranks:twice", "a second Close succeeded");
            }
        }
        for (auto *h : held) { if (q.chance(1, 2)) collect(h); else hxhim::Results::Destroy(h); }
        MPI_Barrier(MPI_COMM_WORLD);
        for (int i = 0; i < n; i++) MPI_Comm_free(&s[i].comm);
        out().stat("steps", steps);
        out().dist("nontrivial", fnv(trace));
        if (mpi.rank == 0) { out().sample(trace); rmtree(dir); }
        MPI_Barrier(MPI_COMM_WORLD);
    }
};
