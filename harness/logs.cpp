// Logging (C27): what was asked to be logged against what each output received.
//   log      random sequences of calls of the log's interface, all outputs compared after every call
//   threads  several threads log at the same time
//   session  the log of hxhim sessions
#include "sess.hpp"
#include <atomic>
#include <thread>
#include <climits>
#include <poll.h>
#include <pty.h>
#include <termios.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/utsname.h>
#include <time.h>
using namespace vf;

typedef std::string S;
static S num(long long x) { return std::to_string(x); }

static const struct { int v; const char *pri; } LEVELS[] = {
    {MLOG_EMERG, "EMRG"}, {MLOG_ALERT, "ALRT"}, {MLOG_CRIT, "CRIT"}, {MLOG_ERR, "ERR "}, {MLOG_WARN, "WARN"}, {MLOG_NOTE, "NOTE"}, {MLOG_INFO, "INFO"}, {MLOG_DBG, "DBUG"},
    {MLOG_DBG0, "D0--"}, {MLOG_DBG1, "D1--"}, {MLOG_DBG2, "D2--"}, {MLOG_DBG3, "D3--"}, {MLOG_DBG0 | MLOG_DBG2, "D02-"}, {MLOG_DBG1 | MLOG_DBG3, "D13-"},
    {MLOG_DBG0 | MLOG_DBG1 | MLOG_DBG2, "D012"}, {MLOG_DBG1 | MLOG_DBG2 | MLOG_DBG3, "D123"}, {MLOG_DBG2 | MLOG_DBG3, "D23-"}, {MLOG_DBG0 | MLOG_DBG3, "D03-"}};
static const int NLEVELS = sizeof LEVELS / sizeof *LEVELS;
static const char *pri_of(int v) { for (auto &l : LEVELS) if (l.v == v) return l.pri; return "D---"; }
static bool is_debug(int lvl) { return lvl < MLOG_INFO; }
// the documented filter: levels by rank, debug streams by bit
static bool passes(int lvl, int mask) { return is_debug(lvl) ? (lvl & mask) != 0 : lvl >= mask; }

// ---- outputs -------------------------------------------------------------------------------------------------------
static S slurp(const S &f) {
    S s; int fd = open(f.c_str(), O_RDONLY); char b[65536]; ssize_t n;
    if (fd < 0) return s;
    while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n);
    close(fd); return s;
}
// one of the process's standard streams, as the log sees it: a file or a terminal. File descriptors 1 and 2 stay what they are.
struct Stream {
    FILE *f = nullptr; S path; size_t pos = 0; int master = -1;
    bool tty() const { return master >= 0; }
    bool make(const S &p, bool terminal) {
        path = p; pos = 0;
        if (terminal) {
            int sl; struct termios t;
            if (openpty(&master, &sl, nullptr, nullptr, nullptr)) { master = -1; return false; }
            tcgetattr(sl, &t); cfmakeraw(&t); tcsetattr(sl, TCSANOW, &t);
            fcntl(master, F_SETFL, O_NONBLOCK);
            f = fdopen(sl, "w");
        } else {
            unlink(p.c_str());
            f = fopen(p.c_str(), "a");
        }
        if (f) setvbuf(f, nullptr, _IONBF, 0);
        return f != nullptr;
    }
    // whole: leave a line of another thread that is still being written (a write is not atomic for a concurrent read)
    S take(bool whole = false) {
        S s; char b[8192]; ssize_t n;
        if (tty()) { while ((n = read(master, b, sizeof b)) > 0) s.append(b, n); return s; }
        S all = slurp(path);
        if (all.size() < pos) return "(file shrank)";
        s = all.substr(pos);
        if (whole) { size_t e = s.rfind('\n'); s.resize(e == S::npos ? 0 : e + 1); }
        pos += s.size();
        return s;
    }
    void end() { if (f) fclose(f); if (master >= 0) close(master); f = nullptr; master = -1; }
};
struct Udp {
    int fd = -1, port = 0;
    bool make() {
        fd = socket(AF_INET, SOCK_DGRAM, 0);
        struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        socklen_t l = sizeof a;
        if (fd < 0 || bind(fd, (sockaddr *) &a, sizeof a) || getsockname(fd, (sockaddr *) &a, &l)) return false;
        port = ntohs(a.sin_port);
        return true;
    }
    // waits only where something has to come
    S take(bool expect) {
        struct pollfd p = {fd, POLLIN, 0};
        if (poll(&p, 1, expect ? 5000 : 0) <= 0) return "";
        S b(70000, 0); ssize_t n = recv(fd, &b[0], b.size(), 0);
        b.resize(n < 0 ? 0 : n); return b;
    }
    ~Udp() { if (fd >= 0) close(fd); }
};

// ---- model ---------------------------------------------------------------------------------------------------------
struct Fac { int mask = 0; bool named = false, lnamed = false; S a, l; };
struct Model {
    bool open = false;
    S tag; int def = 0, smask = 0, flags = 0;
    bool file = false; S name; size_t fpos = 0;      // file: a log file is being written
    bool keepname = false;                           // a name is remembered (also when it could not be opened)
    size_t mblen = 0; S all;                         // bytes logged since the buffer exists
    std::vector<Fac> facs;
    bool ucon = false; std::vector<int> udps;        // indices of sockets
};

static S pad4(S s) { while (s.size() < 4) s += ' '; return s; }

struct Case {
    long c; Rng &r; S dir, desc, key, msg; bool bad = false; long n = 0, lines = 0; uint64_t h = 1469598103934665603ull;
    Model m; Stream so, se; FILE *oldout = stdout, *olderr = stderr; std::vector<Udp> udp;
    S node_full, node; int steps = 0;
    time_t last_ts = 0;
    Case(long c_, Rng &r_, const S &d) : c(c_), r(r_), dir(d), udp(2) {}
    void fail(const S &k, const S &x) { if (!bad) { bad = true; key = k; msg = x + " | step " + num(steps) + " of: " + desc; } }
    void mix(uint64_t x) { h = fnv(&x, sizeof x, h); }
    void say(const S &x) { if (desc.size() < 900) desc += x; h = fnv(x, h); }
    // a bulk of the text of one line, after the time
    S rest(int fac, int lvl, const S &text) {
        const Fac &f = m.facs[fac];
        return " " + node + " " + m.tag + " " + pad4(f.named ? f.a : num(fac)) + " " + pri_of(lvl) + " " + text;
    }
    // the time a line starts with
    bool stamp(const S &line, time_t lo, time_t hi) {
        int Y, M, D, hh, mm, ss, cc;
        if (line.size() < 22 || sscanf(line.c_str(), "%4d/%2d/%2d-%2d:%2d:%2d.%2d", &Y, &M, &D, &hh, &mm, &ss, &cc) != 7) return false;
        struct tm t; memset(&t, 0, sizeof t); t.tm_year = Y - 1900; t.tm_mon = M - 1; t.tm_mday = D; t.tm_hour = hh; t.tm_min = mm; t.tm_sec = ss; t.tm_isdst = -1;
        time_t x = mktime(&t);
        return x >= lo - 1 && x <= hi + 1;
    }
    // compares one full line with what it has to be: the text up to the limit of a line, ended by one newline
    bool line_ok(const S &got, int fac, int lvl, const S &text, time_t lo, time_t hi) {
        if (!stamp(got, lo, hi)) return false;
        S want = got.substr(0, 22) + rest(fac, lvl, text);
        if (want.back() != '\n') want += '\n';
        if (want.size() <= 4090) return got == want;
        if (got == want) return true;
        return got.size() <= 4096 && got.size() >= 4090 && got.back() == '\n' && want.compare(0, got.size() - 1, got, 0, got.size() - 1) == 0;
    }
    S mb() { S b(m.mblen + 1, 0); int k = mlog_mbcopy(&b[0], 0, (int) m.mblen + 1); b.resize(k < 0 ? 0 : k); return b; }
    // looks at every output after at most one message: wanted says whether it had to be recorded
    void look(bool wanted, int fac, int lvl, int flags, const S &text, time_t lo, bool loose = false) {
        if (bad) return;
        time_t hi = time(nullptr);
        n++;
        S file, so_, se_, full; std::vector<S> u(udp.size());
        bool to_err = wanted && ((m.flags | flags) & MLOG_STDERR || (m.smask && passes(lvl, m.smask))), to_out = wanted && ((m.flags | flags) & MLOG_STDOUT);
        if (m.keepname && !m.name.empty()) { S a = slurp(m.name); if (a.size() < m.fpos) return fail("log:file", "the log file lost lines"); file = a.substr(m.fpos); m.fpos = a.size(); }
        so_ = so.take(); se_ = se.take();
        std::vector<int> on(udp.size(), 0);
        if (wanted && m.ucon) for (int i : m.udps) on[i]++;
        std::vector<std::vector<S>> dg(udp.size());
        for (size_t i = 0; i < udp.size(); i++) {
            for (int k = 0; k < on[i]; k++) dg[i].push_back(udp[i].take(true));
            S extra = udp[i].take(false);
            if (!extra.empty()) return fail("log:ucon", "an endpoint received a line it should not: " + extra.substr(0, 80));
        }
        if (!wanted || !m.file) { if (!file.empty()) return fail("log:file", wanted ? "the closed log file was written" : "a filtered message is in the log file: " + file.substr(0, 120)); }
        if (!to_err && !se_.empty()) return fail("log:stderr", "unexpected on stderr: " + se_.substr(0, 160));
        if (!to_out && !so_.empty()) return fail("log:stdout", "unexpected on stdout: " + so_.substr(0, 160));
        if (!m.open) return;
        if (wanted) {
            // some output that carries the whole line
            S buf = m.mblen ? mb() : "";
            std::vector<std::pair<S, S>> fulls;
            if (m.file) fulls.push_back({"file", file});
            if (to_err && !se.tty()) fulls.push_back({"stderr", se_});
            if (to_out && !so.tty()) fulls.push_back({"stdout", so_});
            for (auto &v : dg) for (auto &x : v) fulls.push_back({"endpoint", x});
            for (auto &f : fulls) {
                if (loose ? !(stamp(f.second, lo, hi) && f.second.back() == '\n' && f.second.find(text) != S::npos) : !line_ok(f.second, fac, lvl, text, lo, hi))
                    return fail("log:" + f.first, "expected ..." + rest(fac, lvl, text.substr(0, 100)) + " but got: " + f.second.substr(0, 260) + " (" + num(f.second.size()) + " bytes)");
                if (f.second != fulls[0].second) return fail("log:" + f.first, "outputs differ: " + f.second.substr(0, 120) + " / " + fulls[0].second.substr(0, 120));
                n++;
            }
            if (!fulls.empty()) full = fulls[0].second;
            else if (m.mblen && !loose) {
                // only the buffer has it: its length follows from the text
                S w = S(22, '.') + rest(fac, lvl, text); if (w.back() != '\n') w += '\n';
                if (w.size() > 4090) {
                    // the last bytes: whatever the limit of a line is, they start with what was there before
                    full.clear();
                    for (size_t L = 4090; L <= 4096 && full.empty(); L++) {
                        S t = buf.size() >= L ? buf.substr(buf.size() - L) : S(L - buf.size(), '?') + buf;
                        S x = w; if (w.size() > L) { x = w.substr(0, L - 1) + "\n"; } else if (w.size() < L) continue;
                        if (buf.size() < L) { const size_t from = std::max<size_t>(22, L - buf.size()); if (x.compare(from, S::npos, buf, from - (L - buf.size()), S::npos) == 0) full = x.substr(0, L - buf.size()) + buf; }
                        else if (t.compare(22, S::npos, x, 22, S::npos) == 0) full = t;
                    }
                    if (full.empty()) return fail("log:buffer", "long line not found at the end of the buffer");
                } else if (buf.size() >= w.size()) full = buf.substr(buf.size() - w.size());
                else full = w.substr(0, w.size() - buf.size()) + buf;
                S x = full; if (buf.size() >= full.size() && !line_ok(x, fac, lvl, text, lo, hi)) return fail("log:buffer", "expected ..." + rest(fac, lvl, text.substr(0, 100)) + " at the end of the buffer: " + x.substr(0, 200));
            } else if (m.mblen) { full = buf.size() > m.all.size() ? buf.substr(m.all.size()) : ""; if (m.all.size() + 4096 > m.mblen) { m.all = buf; full = ""; } }
            lines++;
            // terminals get the line without the time, the node and the tag
            S shortl;
            size_t skip = 22 + 1 + node.size() + 1 + m.tag.size() + 1;
            if (full.size() > skip) shortl = full.substr(skip);
            if (to_err && se.tty() && !full.empty() && se_ != shortl && se_ != full.substr(skip)) return fail("log:stderr-tty", "terminal got " + num(se_.size()) + " of " + num(shortl.size()) + " bytes: " + se_.substr(0, 100) + " instead of " + shortl.substr(0, 100));
            if (to_out && so.tty() && !full.empty() && so_ != shortl) return fail("log:stdout-tty", "terminal got: " + so_.substr(0, 160));
            if (to_err && se.tty() && se_.empty()) return fail("log:stderr-tty", "nothing on the terminal");
            if (to_out && so.tty() && so_.empty()) return fail("log:stdout-tty", "nothing on the terminal");
            if (m.mblen) m.all += full;
        }
        buffer();
    }
    void buffer() {
        if (bad || !m.open) return;
        if (!m.mblen) { if (mlog_mbcount() != 0) fail("log:mbcount", "there is no buffer but mlog_mbcount() is not 0"); return; }
        const size_t have = std::min(m.mblen, m.all.size());
        const S want = m.all.substr(m.all.size() - have);
        if ((size_t) mlog_mbcount() != have) return fail("log:mbcount", "mlog_mbcount() = " + num(mlog_mbcount()) + " of " + num(have));
        S got = mb();
        if (got != want) return fail("log:buffer", "the buffer does not hold the newest " + num(have) + " bytes: ..." + got.substr(got.size() > 120 ? got.size() - 120 : 0));
        // any part of it
        int off = r.chance(1, 2) ? 0 : (int) r.range(0, (int64_t) have + 5), len = (int) r.range(1, (int64_t) have + 5);
        S b((size_t) len, 'x'); char *exact = (char *) malloc(len); memset(exact, 'x', len);
        int k = mlog_mbcopy(exact, off, len); b.assign(exact, len); free(exact);
        size_t end = have - std::min<size_t>(off, have), cnt = std::min<size_t>(len, end);
        if (k != (int) cnt || b.substr(0, cnt) != want.substr(end - cnt, cnt)) return fail("log:mbcopy", "mlog_mbcopy(offset " + num(off) + ", length " + num(len) + ") of " + num(have) + " returned " + num(k));
        for (size_t i = cnt; i < (size_t) len; i++) if (b[i] != 'x') return fail("log:mbcopy", "bytes after the copied ones changed");
        char *p1 = nullptr, *p2 = nullptr; int l1 = 0, l2 = 0;
        if (mlog_dmesg(&p1, &l1, &p2, &l2)) return fail("log:dmesg", "mlog_dmesg failed");
        S d; if (l1) d.assign(p1, l1); if (l2) d.append(p2, l2);
        if (d != want) return fail("log:dmesg", "mlog_dmesg does not give the newest bytes");
        n += 4;
        if (r.chance(1, 3)) find(want, p1, p2, l2);
    }
    // the buffer found again in a dump of memory that holds it
    void find(const S &want, char *p1, char *p2, int l2) {
        const size_t H = 24;
        const char *start = (l2 ? p2 : p1) - H;
        if (memcmp(start, ">CpMdUl<", 8)) return;
        S img(start, H + m.mblen);
        const bool swap = r.chance(1, 3);
        if (swap) for (int i = 8; i < 24; i += 4) { std::swap(img[i], img[i + 3]); std::swap(img[i + 1], img[i + 2]); }
        S pre(4 * r.below(20), 0), post(r.below(40), 'p');
        for (auto &x : pre) x = (char) r.below(256);
        if (r.chance(1, 3) && pre.size() >= 12) memcpy(&pre[4 * r.below(pre.size() / 4 - 1)], ">CpMdUl<", 8);
        S dump = pre + img + post;
        // a dump that ends inside of the buffer has no whole buffer
        size_t cut = r.chance(1, 3) ? dump.size() - post.size() - 1 - r.below(img.size()) : dump.size();
        char *b = (char *) malloc(cut ? cut : 1); memcpy(b, dump.data(), cut);
        char *q1 = nullptr, *q2 = nullptr; int k1 = 0, k2 = 0;
        int rc = mlog_findmesgbuf(b, (int) cut, &q1, &k1, &q2, &k2);
        if (rc == 0) {
            bool inside = k1 >= 0 && k2 >= 0 && (!k1 || (q1 >= b && q1 + k1 <= b + cut)) && (!k2 || (q2 >= b && q2 + k2 <= b + cut));
            if (!inside) fail("log:find-outside", "mlog_findmesgbuf found a buffer that ends outside of the " + num(cut) + " bytes searched (buffer of " + num(m.mblen) + ")");
            else if (cut == dump.size()) {
                S d; if (k1) d.assign(q1, k1); if (k2) d.append(q2, k2);
                if (d != want) fail("log:find", S("mlog_findmesgbuf found other bytes") + (swap ? " (other byte order)" : ""));
            }
        } else if (cut == dump.size() && !post.empty()) fail("log:find", S("mlog_findmesgbuf did not find the buffer") + (swap ? " (other byte order)" : ""));
        out().stat("dumps_searched");
        free(b);
    }
    S text() {
        size_t len = r.chance(1, 12) ? r.range(3950, 4300) : r.chance(1, 12) ? r.range(4300, 9000) : r.chance(1, 10) ? 0 : r.below(90);
        S t(len, 0);
        for (auto &x : t) x = r.chance(1, 40) ? '\n' : (char) r.range(32, 126);
        if (!t.empty() && r.chance(1, 6)) t.back() = '\n';
        return t;
    }
    void log_one(int flags, const S &t) {
        const int fac0 = flags & MLOG_FACMASK, lvl = flags & MLOG_PRIMASK, fac = m.open && fac0 < (int) m.facs.size() ? fac0 : 0;
        const bool want = m.open && passes(lvl, m.facs[fac].mask);
        const time_t lo = time(nullptr);
        if ((mlog_filter(flags) != 0) != want) return fail("log:filter", "mlog_filter(" + num(lvl >> 16) + ") is wrong for mask " + (m.open ? S(pri_of(m.facs[fac].mask)) : S("closed")));
        int evaluated = 0;
        errno = 4242;
        const int how = (int) r.below(3);
        S shown = t;
        if (how == 0) { mlog(flags, "%s%.*s", (evaluated++, ""), (int) t.size(), t.c_str()); if ((evaluated != 0) != want) return fail("log:macro", "arguments of a filtered message were evaluated, or of a recorded one not"); }
        else if (how == 1) (mlog)(flags, "%s", t.c_str());
        else { int x = (int) r.next(); (mlog)(flags, "%d %s|%5.2f%%", x, t.c_str(), 1.5); shown = num(x) + " " + t + "| 1.50%"; }
        if (errno != 4242) return fail("log:errno", "logging changed errno");
        say(want ? "L" : "l"); mix(flags); mix(t.size());
        look(want, fac, lvl, flags, shown, lo);
    }
    S level_text(int &v) {
        if (r.chance(1, 6)) { static const char *const no[] = {"", "BOGUS", "WARNING", "E", "NOPE", "D4", "INF"}; v = -1; return no[r.below(7)]; }
        int i = (int) r.below(NLEVELS); v = LEVELS[i].v; S t = LEVELS[i].pri;
        if (v == MLOG_DBG && r.chance(1, 2)) t = "DEBUG";
        while (!t.empty() && t.back() == ' ') t.pop_back();
        if (t[0] == 'D' && t != "DBUG" && t != "DEBUG" && r.chance(1, 2)) { while (t.back() == '-') t.pop_back(); }
        else if (r.chance(1, 3)) for (auto &x : t) x = (char) tolower(x);
        return t;
    }
    S masks() {
        S s;
        for (size_t i = 0; i < m.facs.size(); i++) {
            if (i) s += ",";
            const Fac &f = m.facs[i];
            s += f.lnamed ? f.l : f.named ? f.a : num(i);
            s += "=";
            S p = pri_of(f.mask); for (char x : p) { if (x == ' ' || x == '-') break; s += x; }
        }
        return s + "\n";
    }
    void check_masks() {
        if (bad) return;
        S want = masks(); const bool term = r.chance(1, 2); if (term) want += '\0';
        int tot = mlog_getmasks(nullptr, 0, 0, !term);
        if (tot != (m.open ? (int) want.size() : 0)) return fail("log:getmasks", "the length of the masks is " + num(tot) + " of " + num(want.size()));
        if (!m.open) return;
        int disc = r.chance(1, 2) ? 0 : (int) r.below(want.size() + 3), len = r.chance(1, 2) ? (int) want.size() : (int) r.range(1, want.size() + 5);
        char *b = (char *) malloc(len); memset(b, 'x', len);
        int k = mlog_getmasks(b, disc, len, !term);
        S got(b, len); free(b);
        S part = (size_t) disc < want.size() ? want.substr(disc, len) : "";
        if (k != (int) part.size() || got.substr(0, part.size()) != part) return fail("log:getmasks", "masks from " + num(disc) + " to " + num(len) + ": " + got.substr(0, 200) + " instead of " + part.substr(0, 200) + " (" + num(k) + ")");
        n++;
    }
    void set_masks() {
        S s; struct Chunk { bool fac; S f; S lt; int v; }; std::vector<Chunk> cs;
        static const char *const names[] = {"MLOG", "alpha", "BETA", "gam", "a very long facility", "nobody", "a", "al"};
        int k = (int) r.below(4);
        if (r.chance(1, 4)) s += r.chance(1, 2) ? "  " : "\t";
        const S lead = s;
        for (int i = 0; i < k; i++) {
            Chunk ch; ch.fac = r.chance(2, 3); ch.lt = level_text(ch.v);
            if (ch.fac) { ch.f = names[r.below(8)]; if (r.chance(1, 3)) for (auto &x : ch.f) x = (char) toupper(x); }
            if (i) s += ",";
            if (r.chance(1, 10)) s += ",";
            s += (ch.fac ? ch.f + "=" : "") + ch.lt;
            if (!ch.fac && ch.lt.empty()) continue;   // an empty entry
            cs.push_back(ch);
        }
        if (k && r.chance(1, 4)) s += "\n";
        // trailing white space belongs to nothing; a text of only white space is empty
        bool nothing = true; for (char x : s) if (x != ' ' && x != '\t') nothing = false;
        S arg = s; int len = -1;
        if (r.chance(1, 2)) { len = (int) s.size(); arg += "zz"; }
        char *b = (char *) malloc(arg.size() + 1); memcpy(b, arg.c_str(), arg.size() + 1);
        // an ending of only white space in an empty last entry is an unknown priority
        if (!s.empty() && s.back() == '\n' && k && cs.size() && !cs.back().fac && cs.back().lt.empty()) {}
        const time_t lo = time(nullptr);
        if (m.open && !nothing) {
            // every message about an entry that is wrong is looked at, one call per entry
            free(b);
            S prefix = lead;
            for (auto &ch : cs) {
                S one = prefix + (ch.fac ? ch.f + "=" : "") + ch.lt + (r.chance(1, 5) ? " \n" : ""); prefix = "";
                S a = one; int L = -1; if (r.chance(1, 2)) { L = (int) one.size(); a += "zz"; }
                char *p = (char *) malloc(a.size() + 1); memcpy(p, a.c_str(), a.size() + 1);
                mlog_setmasks(p, L); free(p);
                apply(ch.fac, ch.f, ch.v, lo);
                if (bad) return;
            }
            return;
        }
        mlog_setmasks(b, len);
        free(b);
    }
    // several entries at once, all of them right
    void set_masks_list() {
        S s; int k = (int) r.range(1, 5); std::vector<std::pair<int, int>> set;
        for (int i = 0; i < k; i++) {
            int v; S t; do t = level_text(v); while (v < 0);
            if (i) s += ",";
            int f = -1;
            if (r.chance(2, 3)) {
                std::vector<int> named; for (size_t j = 0; j < m.facs.size(); j++) if (m.facs[j].named && !m.facs[j].a.empty()) named.push_back((int) j);
                if (!named.empty()) { f = named[r.below(named.size())]; S nm = m.facs[f].lnamed && r.chance(1, 2) ? m.facs[f].l : m.facs[f].a; f = lookup(nm); s += nm + "="; }
            }
            s += t; set.push_back({f, v});
            if (r.chance(1, 8)) s += ",";
        }
        if (s.back() != ',' && r.chance(1, 4)) s += " ";
        char *p = strdup(s.c_str()); mlog_setmasks(p, r.chance(1, 2) ? -1 : (int) s.size()); free(p);
        for (auto &x : set) for (size_t j = 0; j < m.facs.size(); j++) if (x.first < 0 || (int) j == x.first) m.facs[j].mask = x.second;
        say("M");
        look(false, 0, 0, 0, "", time(nullptr));
    }
    int lookup(const S &nm) {
        for (size_t j = 0; j < m.facs.size(); j++) {
            if (m.facs[j].named && !strcasecmp(m.facs[j].a.c_str(), nm.c_str())) return (int) j;
            if (m.facs[j].lnamed && !strcasecmp(m.facs[j].l.c_str(), nm.c_str())) return (int) j;
        }
        return -1;
    }
    void apply(bool fac, const S &f, int v, time_t lo) {
        int j = fac ? lookup(f) : -1;
        if (v < 0 || (fac && j < 0)) { bool w = passes(MLOG_ERR, m.facs[0].mask); look(w, 0, MLOG_ERR, 0, "unknown", lo, true); say("e"); return; }
        for (size_t i = 0; i < m.facs.size(); i++) if (!fac || (int) i == j) m.facs[i].mask = v;
        say("m"); mix(v);
        look(false, 0, 0, 0, "", lo);
    }
    void do_open() {
        static const char *const tags[] = {"hxhim", "x", "tag with spaces", "a[b]", "", "averyveryveryverylongtagthatgoesonandon"};
        S tag = tags[r.below(6)]; int hint = (int) r.below(6); if (r.chance(1, 8)) hint = (int) r.range(30, 80);
        int def = LEVELS[r.below(NLEVELS)].v, sm = r.chance(1, 2) ? 0 : LEVELS[r.below(NLEVELS)].v;
        bool file = r.chance(3, 4); S fname = dir + "/log" + num(r.below(3));
        int mblen = r.chance(1, 3) ? 0 : r.chance(1, 2) ? (int) r.range(16, 300) : r.chance(1, 2) ? (int) r.range(300, 5000) : (int) r.range(5000, 40000);
        int flags = 0;
        if (r.chance(1, 4)) flags |= MLOG_STDERR;
        if (r.chance(1, 4)) flags |= MLOG_STDOUT;
        if (r.chance(1, 3)) flags |= MLOG_LOGPID;
        if (r.chance(1, 3)) flags |= MLOG_FQDN;
        bool uon = r.chance(1, 4), uenv = r.chance(1, 4);
        if (uon) flags |= MLOG_UCON_ON;
        if (uenv) flags |= MLOG_UCON_ENV;
        std::vector<int> us;
        if (uenv) {
            S e; int k = (int) r.below(3);
            for (int i = 0; i < k; i++) { int u = (int) r.below(2); e += S(i ? ";" : "") + "127.0.0.1:" + num(udp[u].port); us.push_back(u); }
            if (k && r.chance(1, 3)) e += ";";
            setenv("MLOG_UCON", e.c_str(), 1);
        }
        int wrong = r.chance(1, 5) ? (int) r.range(1, 6) : 0;
        S save = fname;
        if (wrong == 1) def |= 1;
        if (wrong == 2) sm |= 0x1000000;
        if (wrong == 3) mblen = (int) r.range(-5, 15);
        if (wrong == 3 && mblen == 0) mblen = 15;
        if (wrong == 4) hint = -1;
        if (wrong == 5) { file = true; fname = dir + "/none/log"; }
        S t0 = slurp(fname);
        int rc = mlog_open(wrong == 6 ? nullptr : (char *) S(tag).c_str(), hint, def, sm, file ? (char *) S(fname).c_str() : nullptr, mblen, flags, 0);
        unsetenv("MLOG_UCON");
        say(wrong || m.open ? "o" : "O");
        const bool ok = !wrong && !m.open;
        if ((rc == 0) != ok) return fail("log:open", "mlog_open returned " + num(rc) + (wrong ? " for impossible arguments " + num(wrong) : m.open ? " on an open log" : ""));
        if (!ok) { if (wrong == 5 && !m.open) { S e = se.take(); if (e.empty()) fail("log:open", "no message about a log file that could not be opened"); } look(false, 0, 0, 0, "", time(nullptr)); return; }
        m = Model(); m.open = true; m.tag = flags & MLOG_LOGPID ? tag + "[" + num(getpid()) + "]" : tag;
        m.def = def; m.smask = sm; m.flags = flags; m.file = m.keepname = file; if (file) { m.name = fname; m.fpos = t0.size(); }
        m.mblen = mblen; m.facs.resize(std::max(1, hint)); for (auto &f : m.facs) f.mask = def;
        m.facs[0].named = true; m.facs[0].a = "MLOG"; m.ucon = uon; m.udps = us;
        node = flags & MLOG_FQDN ? node_full : node_full.substr(0, node_full.find('.'));
        look(false, 0, 0, 0, "", time(nullptr));
    }
    void do_reopen() {
        int k = (int) r.below(6); int rc; bool good = m.open;
        S target;
        if (k == 0) { rc = mlog_reopen(nullptr); if (m.open) { m.file = m.keepname = false; m.name = ""; } }
        else if (k <= 2) {
            bool rotated = false;
            if (m.open && m.file && r.chance(1, 2)) { rename(m.name.c_str(), (m.name + ".old").c_str()); rotated = true; }
            rc = mlog_reopen((char *) "");
            if (m.open && m.keepname) { if (rotated) m.fpos = 0; struct stat st; good = stat(m.name.c_str(), &st) == 0; m.file = good; }
        } else {
            target = k == 5 ? dir + "/none/log" : dir + "/log" + num(r.below(3));
            struct stat st; size_t sz = stat(target.c_str(), &st) ? 0 : st.st_size;
            rc = mlog_reopen((char *) target.c_str());
            if (m.open) { m.keepname = true; m.name = target; m.fpos = sz; m.file = good = k != 5; }
        }
        if ((rc == 0) != good) return fail("log:reopen", "mlog_reopen returned " + num(rc));
        if (m.open && !good) se.take();
        say("R" + num(k));
        look(false, 0, 0, 0, "", time(nullptr));
    }
    void do_names() {
        static const char *const an[] = {"alpha", "BETA", "gam", "a", "al", "BIGNAME"}; static const char *const ln[] = {"a very long facility", "other long", "gamma"};
        const char *a = r.chance(1, 6) ? nullptr : an[r.below(6)], *l = r.chance(1, 2) ? nullptr : ln[r.below(3)];
        if (r.chance(1, 2)) {
            int f = (int) r.below(m.facs.size() + 4); if (r.chance(1, 10)) f = (int) r.below(120);
            int rc = mlog_namefacility(f, (char *) a, (char *) l);
            if (rc != (m.open ? 0 : -1)) return fail("log:name", "mlog_namefacility returned " + num(rc));
            if (m.open) name(f, a, l);
        } else {
            int rc = mlog_allocfacility((char *) a, (char *) l);
            int want = m.open ? (int) m.facs.size() : -1;
            if (rc != want) return fail("log:alloc", "mlog_allocfacility returned " + num(rc) + " instead of " + num(want));
            if (m.open) name(want, a, l);
        }
        say("n");
    }
    void name(int f, const char *a, const char *l) {
        grow(f);
        Fac &x = m.facs[f]; x.named = a; x.a = a ? a : ""; x.lnamed = a && l; x.l = x.lnamed ? l : "";
    }
    void grow(int f) { while ((int) m.facs.size() <= f) { Fac n; n.mask = m.def; m.facs.push_back(n); } }
    void do_child() {
        // leaving through the log
        const bool abrt = r.chance(1, 2); const int st = (int) r.range(0, 60), lvl = LEVELS[r.below(NLEVELS)].v; const S t = text(); const bool reopen = r.chance(1, 2) && (m.file || !m.keepname);
        const time_t lo = time(nullptr);
        fflush(oldout);
        pid_t p = fork();
        if (p == 0) {
            alarm(0); signal(SIGABRT, SIG_DFL); signal(SIGALRM, SIG_DFL); alarm(60);
            int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2);
            if (reopen) mlog_reopen((char *) "");
            static int pipefd; static S mark; mark = dir + "/hook"; (void) pipefd;
            if (abrt) { if (mlog_abort_hook([]() { int f = open(mark.c_str(), O_CREAT | O_WRONLY, 0600); close(f); })) _exit(99); mlog_abort(lvl, "%s", t.c_str()); }
            mlog_exit(st, lvl, "%s", t.c_str());
        }
        int w = 0; waitpid(p, &w, 0);
        struct stat sb; const bool hook = stat((dir + "/hook").c_str(), &sb) == 0; unlink((dir + "/hook").c_str());
        say(abrt ? "A" : "X");
        if (abrt ? !(WIFSIGNALED(w) && WTERMSIG(w) == SIGABRT) : !(WIFEXITED(w) && WEXITSTATUS(w) == st)) return fail("log:exit", S(abrt ? "mlog_abort" : "mlog_exit") + " ended the process with " + num(w));
        if (hook != (abrt && m.open)) return fail("log:hook", "the abort hook was " + S(hook ? "" : "not ") + "called");
        // the message is in the file and on stderr; the buffer of this process knows nothing of it
        const bool want = m.open && passes(lvl, m.facs[0].mask);
        S pid = "[" + num(getpid()) + "]"; S keep = m.tag;
        if (reopen && m.open && m.flags & MLOG_LOGPID) m.tag = m.tag.substr(0, m.tag.rfind('[')) + "[" + num(p) + "]";
        S file; if (m.open && m.file) { S a = slurp(m.name); file = a.substr(std::min(a.size(), m.fpos)); m.fpos = a.size(); }
        S e = se.take(), o = so.take(); bool bados = !(m.open && m.flags & MLOG_STDOUT && want) && !o.empty();
        for (size_t i = 0; i < udp.size(); i++) if (want && m.ucon) for (int u : m.udps) if (u == (int) i) udp[i].take(true);
        if (want) {
            if (m.file && !line_ok(file, 0, lvl, t, lo, time(nullptr))) fail("log:exit-file", "the last message is not in the log file: " + file.substr(0, 200));
            if (!se.tty() && !line_ok(e, 0, lvl, t, lo, time(nullptr))) fail("log:exit-stderr", "the last message is not on stderr: " + e.substr(0, 200));
            if (e.empty()) fail("log:exit-stderr", "the last message is not on stderr");
        } else if (!file.empty() || !e.empty()) fail("log:exit", "a filtered message was recorded: " + (file + e).substr(0, 200));
        if (bados) fail("log:exit", "unexpected on stdout");
        m.tag = keep; (void) pid;
        n++;
    }
    void run() {
        struct utsname u; uname(&u); node_full = u.nodename;
        mkdir(dir.c_str(), 0700);
        for (auto &x : udp) if (!x.make()) { out().stat("no_udp"); }
        mlog_close();
        const bool t1 = r.chance(1, 4), t2 = r.chance(1, 4);
        if (!so.make(dir + "/stdout", t1) || !se.make(dir + "/stderr", t2)) { so.end(); se.end(); if (!so.make(dir + "/stdout", false) || !se.make(dir + "/stderr", false)) abort(); }
        stdout = so.f; stderr = se.f;
        const int N = (int) r.range(10, 60);
        for (steps = 0; steps < N && !bad; steps++) {
            const int k = (int) r.below(40);
            if (k < 20) log_one((r.chance(1, 8) ? (int) r.below(200) : (int) r.below(m.facs.size() + 2)) | LEVELS[r.below(NLEVELS)].v | (r.chance(1, 8) ? (int) MLOG_STDERR : 0) | (r.chance(1, 8) ? MLOG_STDOUT : 0), text());
            else if (k < 23) { int f = (int) r.below(m.facs.size() + 3), i = (int) r.below(NLEVELS); int rc = mlog_setlogmask(f, LEVELS[i].v | (r.chance(1, 4) ? 0x0100ffff : 0));
                int want = -1; if (m.open) { grow(f); want = m.facs[f].mask; m.facs[f].mask = LEVELS[i].v; }
                say("s"); mix(i);
                if (rc != want) fail("log:setlogmask", "mlog_setlogmask returned " + num(rc) + " instead of " + num(want)); }
            else if (k < 26) { if (m.open) { if (r.chance(1, 2)) set_masks(); else set_masks_list(); } else { mlog_setmasks((char *) "WARN", -1); } check_masks(); }
            else if (k < 28) check_masks();
            else if (k < 30) do_names();
            else if (k < 32) do_reopen();
            else if (k == 32) { if (m.open && r.chance(1, 2)) { mlog_close(); mlog_close(); m.open = false; m.file = false; m.facs.clear(); m.ucon = false; m.udps.clear(); say("C"); look(false, 0, 0, 0, "", time(nullptr)); } }
            else if (k == 33) { int rc = mlog_ucon_on(); if (rc != (m.open ? 0 : -1)) fail("log:ucon", "mlog_ucon_on"); if (m.open) m.ucon = true; say("u"); }
            else if (k == 34) { int rc = mlog_ucon_off(); if (rc != (m.open ? 0 : -1)) fail("log:ucon", "mlog_ucon_off"); m.ucon = false; say("U"); }
            else if (k == 35) { int i = (int) r.below(2); bool wrong = r.chance(1, 6); int rc = mlog_ucon_add((char *) "127.0.0.1", wrong ? (r.chance(1, 2) ? 0 : 65536) : udp[i].port); if (rc != (m.open && !wrong ? 0 : -1)) fail("log:ucon", "mlog_ucon_add"); if (m.open && !wrong) m.udps.push_back(i); say("+"); }
            else if (k == 36) { int i = (int) r.below(2); int rc = mlog_ucon_rm((char *) "127.0.0.1", udp[i].port); auto it = std::find(m.udps.begin(), m.udps.end(), i); bool had = m.open && it != m.udps.end(); if (rc != (had ? 0 : -1)) fail("log:ucon", "mlog_ucon_rm"); if (had) m.udps.erase(it); say("-"); }
            else if (k == 37 && r.chance(1, 3)) do_child();
            else do_open();
            if (m.open && m.facs.size() > 200) { mlog_close(); m = Model(); }
        }
        if (!bad) {
            // texts of levels
            for (auto &l : LEVELS) if (mlog_str2pri(l.v == MLOG_ERR ? "ERR" : l.pri) != l.v) fail("log:str2pri", S("mlog_str2pri(") + l.pri + ")");
        }
        if (r.chance(1, 2)) mlog_close();   // otherwise the next case closes it
        else mlog_reopen(nullptr);
        stdout = oldout; stderr = olderr;
        mlog_close();
        so.end(); se.end();
        rmtree(dir);
    }
};

static void mode_log(const Args &a) {
    run_cases(a, [&](long c, Rng &r) {
        Case k(c, r, a.dir + "/c" + num(c));
        k.run();
        if (k.bad) out().fail(k.key, k.msg);
        out().stat("comparisons", k.n); out().stat("lines_recorded", k.lines);
        if (k.lines > 2) out().dist("nontrivial", k.h);
        if (c < 2 || c % 1000 == 1) out().sample("log case " + num(c) + ": " + num(k.lines) + " lines recorded, " + num(k.n) + " comparisons; steps (Log, l filtered, Open, o refused, Reopen, set masks M/m/s, names n, endpoints u U + -, Close, eXit/Abort): " + k.desc);
    });
}

// ---- threads -------------------------------------------------------------------------------------------------------
static void mode_threads(const Args &a) {
    run_cases(a, [&](long c, Rng &r) {
        S dir = a.dir + "/t" + num(c); mkdir(dir.c_str(), 0700);
        mlog_close();
        FILE *old = stderr; Stream se; if (!se.make(dir + "/stderr", false)) abort();
        stderr = se.f;
        const int T = (int) r.range(2, 5), N = (int) r.range(20, 120), mblen = (int) r.range(400, 60000); const bool err = r.chance(1, 2);
        S file = dir + "/log";
        mlog_open((char *) "thr", T + 1, MLOG_INFO, 0, (char *) file.c_str(), mblen, err ? (int) MLOG_STDERR : 0, 0);
        for (int t = 0; t < T; t++) mlog_namefacility(t + 1, (char *) ("F" + num(t)).c_str(), nullptr);
        std::atomic<int> go(0), left(T);
        std::vector<uint64_t> seeds; for (int t = 0; t < T; t++) seeds.push_back(r.next());
        std::vector<std::vector<S>> sent(T); std::vector<S> seen;
        std::vector<std::thread> th;
        for (int t = 0; t < T; t++) th.emplace_back([&, t]() {
            Rng q(seeds[t]); S body;
            go.fetch_add(1, std::memory_order_relaxed); while (go.load(std::memory_order_relaxed) < T) std::this_thread::yield();
            for (int i = 0; i < N; i++) {
                body.assign(q.chance(1, 10) ? q.below(3000) : q.below(40), (char) ('a' + t));
                const bool dbg = q.chance(1, 6);
                (mlog)((t + 1) | (dbg ? MLOG_DBG : MLOG_WARN), "<%d.%d>%s", t, i, body.c_str());
                if (!dbg) sent[t].push_back("<" + num(t) + "." + num(i) + ">" + body);
                if (q.chance(1, 20)) std::this_thread::yield();
            }
            left.fetch_sub(1, std::memory_order_relaxed);
        });
        std::thread rd([&]() {
            Rng q(seeds[0] + 1);
            while (left.load(std::memory_order_relaxed) > 0 && seen.size() < 400) {
                int len = (int) q.range(1, 500); S b(len, 0); int k = mlog_mbcopy(&b[0], 0, len);
                if (k > 0) { b.resize(k); seen.push_back(b); }
                mlog_mbcount(); char t[200]; mlog_getmasks(t, 0, sizeof t, 0);
                std::this_thread::yield();
            }
        });
        for (auto &t : th) t.join();
        rd.join();
        S buf(mblen, 0); int k = mlog_mbcopy(&buf[0], 0, mblen); buf.resize(k < 0 ? 0 : k);
        mlog_close();
        stderr = old;
        S all = slurp(file), e = se.take(); se.end();
        S bad, key; std::vector<size_t> at(T, 0), at2(T, 0); long lines = 0; uint64_t h = 0;
        auto parse = [&](const S &txt, std::vector<size_t> &pos, const char *what) {
            size_t p = 0; int last = -1;
            while (p < txt.size() && bad.empty()) {
                size_t q = txt.find('\n', p); if (q == S::npos) { bad = S(what) + ": no newline at the end"; break; }
                S l = txt.substr(p, q - p); p = q + 1;
                size_t b = l.find('<'); int t = -1;
                if (b == S::npos || sscanf(l.c_str() + b, "<%d.", &t) != 1 || t < 0 || t >= T) { bad = S(what) + ": broken line: " + l.substr(0, 160); break; }
                if (pos[t] >= sent[t].size() || l.substr(b) != sent[t][pos[t]]) { bad = S(what) + ": line out of order, repeated or changed: " + l.substr(0, 160); break; }
                S head = l.substr(22, b - 22); struct utsname u; uname(&u); S nd = u.nodename; nd = nd.substr(0, nd.find('.'));
                if (head != " " + nd + " thr " + pad4("F" + num(t)) + " WARN ") { bad = S(what) + ": header of another message: " + l.substr(0, 160); break; }
                pos[t]++; lines++;
                if (t != last) { h = fnv(&lines, sizeof lines, h); h = fnv(&t, sizeof t, h); last = t; }
            }
            for (int t = 0; t < T && bad.empty(); t++) if (pos[t] != sent[t].size()) bad = S(what) + ": messages of thread " + num(t) + " are missing: " + num(pos[t]) + " of " + num(sent[t].size());
        };
        parse(all, at, "file");
        if (bad.empty() && err) parse(e, at2, "stderr");
        if (bad.empty() && !err && !e.empty()) bad = "stderr: " + e.substr(0, 200);
        if (bad.empty() && buf != all.substr(all.size() - std::min<size_t>(all.size(), mblen))) bad = "buffer: it does not hold the newest bytes";
        for (auto &s : seen) if (bad.empty() && all.find(s) == S::npos) bad = "buffer: what was read while logging was never there: " + s.substr(0, 120);
        if (!bad.empty()) out().fail("threads:" + bad.substr(0, bad.find(':')), bad + " | " + num(T) + " threads, " + num(N) + " messages, buffer " + num(mblen));
        out().stat("lines_recorded", lines); out().stat("reads_while_logging", (long) seen.size());
        out().dist("nontrivial", h ^ fnv(&T, sizeof T));
        if (c < 2) out().sample("threads case " + num(c) + ": " + num(T) + " threads, " + num(lines) + " lines, " + num(seen.size()) + " reads of the buffer meanwhile");
        rmtree(dir);
    });
}

// ---- sessions ------------------------------------------------------------------------------------------------------
static void mode_session(const Args &a) {
    run_cases(a, [&](long c, Rng &r) {
        S dir = a.dir + "/s" + num(c); mkdir(dir.c_str(), 0700);
        mlog_close();
        FILE *old = stderr; Stream se; if (!se.make(dir + "/stderr", false)) abort();
        stderr = se.f;
        S bad, key, desc; long lines = 0, markers = 0; int mark = 0;
        auto fail = [&](const S &k, const S &x) { if (key.empty()) { key = k; bad = x; } };
        struct One { hxhim_t hx{}; int level = 0; bool open = false; std::deque<S> keep; };
        std::vector<One> ss(r.range(1, 3));
        int current = -1;                 // level of the log, set by the session that opened it
        // everything on stderr has to come from the log, in the current level
        auto look = [&](int lvl) {
            S t = se.take(true); size_t p = 0; S tag = " hxhim[" + num(getpid()) + "] ";
            while (p < t.size()) {
                size_t q = t.find('\n', p); if (q == S::npos) q = t.size();
                S l = t.substr(p, q - p); p = q + 1;
                int Y; if (l.size() < 22 || l[4] != '/' || sscanf(l.c_str(), "%4d/", &Y) != 1) continue;   // second line of a message
                lines++;
                size_t k = l.find(tag); if (k == S::npos) { fail("session:tag", "line without the tag of the session: " + l.substr(0, 160)); continue; }
                size_t f = l.find(' ', k + tag.size()); while (f != S::npos && l[f] == ' ') f++;
                S pri = l.substr(f, 4); int v = -2; for (auto &x : LEVELS) if (pri == x.pri) v = x.v;
                if (v == -2) fail("session:line", "line without a level: " + l.substr(0, 160));
                else if (lvl < 0 || !passes(v, lvl)) fail("session:level", S("line of level ") + pri + " with level " + (lvl < 0 ? "closed" : pri_of(lvl)) + ": " + l.substr(0, 160));
            }
        };
        auto marker = [&](bool open) {
            look(current);
            S t = "marker" + num(mark++);
            (mlog)(HXHIM_CLIENT_EMERG, "%s", t.c_str());
            S g = se.take(true);
            const bool have = g.find(t) != S::npos;
            if (have != open) fail("session:marker", S("a message was ") + (have ? "recorded although no session is open" : "not recorded although a session is open"));
            markers++;
        };
        auto nopen = [&]() { int n = 0; for (auto &s : ss) n += s.open; return n; };
        const int steps = (int) r.range(4, 20);
        for (int i = 0; i < steps && key.empty(); i++) {
            One &s = ss[r.below(ss.size())]; const size_t id = &s - &ss[0];
            if (!s.open) {
                const int how = (int) r.below(6);
                if (hxhim::Init(&s.hx, MPI_COMM_WORLD) != HXHIM_SUCCESS) { fail("session:init", "Init failed"); break; }
                Cfg g; g.dir = dir; g.base = "d" + num(id); g.async = r.chance(1, 2) ? r.range(1, 4) : 0; g.per_server = r.range(1, 2); g.backend = how == 0 ? LDB : MEM; g.create = how != 0;
                apply(&s.hx, g);
                int lv = LEVELS[r.below(NLEVELS)].v; hxhim_set_debug_level(&s.hx, lv);
                if (how == 1) { hxhim::Close(&s.hx); desc += "i"; marker(nopen() > 0); continue; }   // never opened
                const int before = nopen(), was = current;
                if (!before) current = lv;
                int rc = hxhim::Open(&s.hx);
                if (how == 0) {
                    if (rc == HXHIM_SUCCESS) fail("session:open", "opened a datastore that does not exist");
                    desc += "f";
                    look(current);
                    if (!before) current = -1; else current = was;
                    marker(nopen() > 0);
                    continue;
                }
                if (rc != HXHIM_SUCCESS) { fail("session:open", "Open failed"); break; }
                s.open = true; s.level = lv; desc += "O" + num(id) + (g.async ? "a" : "");
                if (!before) { long l0 = lines; look(current); if (passes(MLOG_INFO, lv) && lines == l0) fail("session:silent", "nothing was logged at level INFO while opening"); }
                marker(true);
            } else if (r.chance(2, 3)) {
                const int k = (int) r.range(1, 6);
                for (int j = 0; j < k; j++) {
                    s.keep.push_back("k" + num(r.below(9))); S &b = s.keep.back();
                    hxhim::Put(&s.hx, (void *) b.data(), b.size(), HXHIM_DATA_POINTER, (void *) b.data(), b.size(), HXHIM_DATA_POINTER, (void *) b.data(), b.size(), HXHIM_DATA_POINTER, HXHIM_PUT_SPO);
                }
                if (r.chance(1, 2)) { hxhim::Results::Destroy(hxhim::Flush(&s.hx)); s.keep.clear(); }
                desc += "w" + num(id);
                look(current);
            } else {
                if (r.chance(1, 2)) { hxhim::Results::Destroy(hxhim::FlushPuts(&s.hx)); }
                s.open = false;
                if (hxhim::Close(&s.hx) != HXHIM_SUCCESS) fail("session:close", "Close failed");
                s.keep.clear();
                desc += "C" + num(id);
                look(current);
                if (!nopen()) current = -1;
                marker(nopen() > 0);
            }
        }
        for (auto &s : ss) if (s.open) { hxhim::Results::Destroy(hxhim::FlushPuts(&s.hx)); hxhim::Close(&s.hx); s.open = false; }
        if (key.empty()) { look(current); current = -1; marker(false); }
        mlog_close();
        stderr = old; se.end();
        if (!key.empty()) out().fail(key, bad + " | " + desc);
        out().stat("lines_seen", lines); out().stat("markers", markers);
        out().dist("nontrivial", fnv(desc));
        if (c < 2) out().sample("session case " + num(c) + ": " + num(lines) + " lines, " + num(markers) + " markers; (Open n, failed open, initialised only, work, Close) " + desc);
        rmtree(dir);
    });
}

int main(int argc, char **argv) {
    Args a = Args::parse(argc, argv);
    setenv("TZ", "UTC", 1);
    if (a.mode == "session") { Mpi mpi(&argc, &argv); mode_session(a); out().done(); return 0; }
    if (a.mode == "threads") mode_threads(a); else mode_log(a);
    out().done();
    return 0;
}
