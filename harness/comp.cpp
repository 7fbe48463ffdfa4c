// Component monitors: key encoding (keys), number encoding (elen), wire messages (msg), blob ownership (blob),
// histograms (histo), result lists (results). No session and no MPI is needed.
#include "vf.hpp"
#include <algorithm>
#include <atomic>
#include <cmath>
#include <deque>
#include <limits>
#include <memory>
#include <new>
#include "datastore/constants.hpp"
#include "datastore/triplestore.hpp"
#include "datastore/datastores.hpp"
#include "message/Messages.hpp"
#include "utils/Blob.hpp"
#include "utils/Histogram.hpp"
#include "utils/elen.hpp"
#include "utils/elen.h"
#include "utils/memory.hpp"
#include "utils/mlog2.h"
#include "hxhim/private/Results.hpp"

using namespace vf;
typedef hxhim_data_t T;

// ---- live allocation counting (the plain flavour; AddressSanitizer and LeakSanitizer do it in the other)
static std::atomic<long> g_live{0};
#if !defined(__SANITIZE_ADDRESS__)
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); g_live++; return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { if (p) { g_live--; free(p); } }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
#endif

// what one case observed; handed to Out only after the allocation balance was taken
struct Obs {
    long n = 0; uint64_t h = 1469598103934665603ull; bool bad = false;
    char key[80] = "", msg[900] = "", desc[400] = "";
    void say(const std::string &m) { snprintf(desc, sizeof desc, "%s", m.c_str()); }
    long c[8] = {0};
    void fail(const char *k, const std::string &m) {
        if (bad) return;
        bad = true;
        snprintf(key, sizeof key, "%s", k); snprintf(msg, sizeof msg, "%s", m.c_str());
    }
    template <typename X> void mix(const X &x) { h = fnv(&x, sizeof x, h); }
    void mix(const std::string &s) { h = fnv(s, h); }
};
static std::string S(size_t x) { return std::to_string(x); }
static std::string bytes(Rng &r, size_t n) {
    std::string s(n, 0);
    int a = (int) r.below(3);
    static const unsigned char sp[] = {0, 0xff, 1, 0xfe, 'a', 'b', 7, 8};
    for (auto &c : s) c = a == 0 ? (char) sp[r.below(8)] : a == 1 ? (char) r.below(256) : (char) (r.chance(1, 2) ? 0xff : 0);
    return s;
}
static std::string str(const Blob &b) { return b.data() && b.size() ? std::string((char *) b.data(), b.size()) : std::string(); }

// ------------------------------------------------------------------ keys
struct Tup { std::string s, p; int st, pt; bool operator==(const Tup &o) const { return s == o.s && p == o.p && st == o.st && pt == o.pt; } };

static void mode_keys(long c, Rng &r, Obs &o) {
    std::vector<Tup> t;
    auto ty = [&]() { return (int) (r.chance(1, 6) ? r.below(16) : r.below(HXHIM_DATA_MAX_KNOWN + 1)); };
    size_t base = c % 97 == 5 ? 65530 + r.below(12) : c % 13 == 3 ? 250 + r.below(12) : r.below(14);
    std::string b = bytes(r, base);
    int st = ty(), pt = ty();
    size_t splits = std::min<size_t>(base + 1, 14);
    for (size_t i = 0; i < splits; i++) {
        size_t cut = base < 14 ? i : r.below(base + 1);
        t.push_back({b.substr(0, cut), b.substr(cut), st, pt});
    }
    t.push_back({b, "", pt, st});
    t.push_back({b, "", st, pt + 1 > 15 ? 0 : pt + 1});
    t.push_back({"", b, st, pt});
    for (int i = 0; i < 4; i++) t.push_back({bytes(r, r.below(6)), bytes(r, r.below(6)), ty(), ty()});
    // subjects and predicates that look like (parts of) an encoded key
    {
        Tup &x = t[r.below(t.size())];
        Blob k, s((void *) x.s.data(), x.s.size(), (T) x.st), p((void *) x.p.data(), x.p.size(), (T) x.pt);
        sp_to_key(s, p, &k);
        std::string e = str(k);
        if (e.size() < 4096) {
            size_t cut = r.below(e.size() + 1);
            Tup y{e.substr(0, cut), e.substr(cut), ty(), ty()}, z{e, bytes(r, r.below(3)), x.st, x.pt};
            t.push_back(y); t.push_back(z);
        }
    }
    std::vector<std::string> enc;
    for (auto &x : t) {
        Blob s((void *) x.s.data(), x.s.size(), (T) x.st), p((void *) x.p.data(), x.p.size(), (T) x.pt), k;
        std::string s0 = x.s, p0 = x.p;
        if (sp_to_key(s, p, &k) != HXHIM_SUCCESS) { o.fail("keys:encode", "sp_to_key failed"); return; }
        if (s0 != x.s || p0 != x.p) o.fail("keys:input-changed", "encoding changed its input");
        std::string e = str(k);
        if (e.compare(0, x.s.size() + x.p.size(), x.s + x.p) != 0) o.fail("keys:prefix", "key does not begin with subject and predicate bytes: " + hex(e));
        // decode, once referring to the key and once copying from an exact-size copy that is gone afterwards
        Blob ds, dp;
        if (key_to_sp(k, ds, dp, false) != HXHIM_SUCCESS || str(ds) != x.s || str(dp) != x.p || (int) ds.data_type() != x.st || (int) dp.data_type() != x.pt)
            o.fail("keys:decode", "tuple (" + hex(x.s) + "," + S(x.st) + "," + hex(x.p) + "," + S(x.pt) + ") decodes to (" + hex(str(ds)) + "," + S(ds.data_type()) + "," + hex(str(dp)) + "," + S(dp.data_type()) + ")");
        if (ds.will_clean() || dp.will_clean()) o.fail("keys:reference-owned", "references to the key own memory");
        {
            char *m = (char *) malloc(e.size());
            memcpy(m, e.data(), e.size());
            Blob kk(m, e.size(), HXHIM_DATA_BYTE), cs, cp;
            if (key_to_sp(kk, cs, cp, true) != HXHIM_SUCCESS) o.fail("keys:decode-copy", "key_to_sp failed");
            if (memcmp(m, e.data(), e.size())) o.fail("keys:key-changed", "decoding changed the key");
            memset(m, 0x5a, e.size());
            free(m);
            if (str(cs) != x.s || str(cp) != x.p || (int) cs.data_type() != x.st || (int) cp.data_type() != x.pt)
                o.fail("keys:decode-copy", "copied tuple (" + hex(x.s) + "," + hex(x.p) + ") came back as (" + hex(str(cs)) + "," + hex(str(cp)) + ")");
        }
        enc.push_back(e);
        o.mix(e);
    }
    for (size_t i = 0; i < t.size(); i++)
        for (size_t j = i + 1; j < t.size(); j++) {
            o.n++;
            if ((enc[i] == enc[j]) != (t[i] == t[j]))
                o.fail("keys:ambiguous", "tuples (" + hex(t[i].s) + "," + S(t[i].st) + "," + hex(t[i].p) + "," + S(t[i].pt) + ") and (" + hex(t[j].s) + "," + S(t[j].st) + "," + hex(t[j].p) + "," + S(t[j].pt) + ") share a key or differ although equal");
        }
    // grouping: in byte order, all keys with one subject+predicate prefix are adjacent and after every smaller prefix
    std::vector<size_t> ord(t.size());
    for (size_t i = 0; i < ord.size(); i++) ord[i] = i;
    std::sort(ord.begin(), ord.end(), [&](size_t a, size_t b2) { return enc[a] < enc[b2]; });
    const std::string pre = t[0].s + t[0].p;
    int phase = 0;
    for (size_t i : ord) {
        bool in = enc[i].compare(0, pre.size(), pre) == 0;
        if (in && phase == 2) o.fail("keys:group", "keys with a common prefix are not adjacent");
        if (in) phase = 1; else if (phase == 1) phase = 2;
    }
    o.c[0] += (long) t.size();
    o.say(S(t.size()) + " tuples over the bytes " + hex(b, 20) + "; e.g. (" + hex(t[1].s, 12) + "," + S(t[1].st) + "," + hex(t[1].p, 12) + "," + S(t[1].pt) + ") -> " + hex(enc[1], 40));
}

// ------------------------------------------------------------------ elen
static const char NEGS[] = "!#$%&'()*,-/", POSS[] = ":;<=>?@AZ_az~";

template <typename I, typename EC, typename DC>
static void ints(Rng &r, Obs &o, char neg, char pos, const char *name, EC ec, DC dc) {
    typedef std::numeric_limits<I> L;
    std::vector<I> v = {0, 1, (I) L::min(), (I) L::max(), (I) (L::max() - 1), (I) (L::min() + 1), (I) -1};
    for (int i = 0; i < 24; i++) {
        // every magnitude
        uint64_t x = r.next() >> r.below(64);
        v.push_back((I) x); v.push_back((I) (0 - x));
    }
    uint64_t p10 = 1; for (size_t k = r.below(20); k; k--) p10 *= 10;
    for (int d = -1; d <= 1; d++) { v.push_back((I) (p10 + d)); v.push_back((I) (0 - p10 + d)); }
    std::vector<std::string> e;
    for (I x : v) {
        std::string s = elen::encode::integers<I>(x, neg, pos);
        char *cs = ec(x, neg, pos);
        if (s != cs) o.fail("elen:c-interface", std::string(name) + " " + std::to_string(x) + " encodes to " + s + " but in C to " + cs);
        try {
            I back = elen::decode::integers<I>(s, nullptr, neg, pos);
            if (back != x) o.fail("elen:int-roundtrip", std::string(name) + " " + std::to_string(x) + " -> " + s + " -> " + std::to_string(back));
            if (dc(cs, nullptr, neg, pos) != x) o.fail("elen:int-roundtrip-c", std::string(name) + " " + std::to_string(x));
        } catch (const std::exception &ex) { o.fail("elen:int-throw", std::string(name) + " " + std::to_string(x) + " -> " + s + ": " + ex.what()); }
        free(cs);
        if (elen::encode::integers<I>(x, neg, pos) != s) o.fail("elen:int-unequal", "equal numbers encode differently");
        e.push_back(s); o.mix(s);
        if (e.size() == 11) o.say(std::string(name) + " symbols " + neg + pos + ": " + std::to_string(x) + " -> " + s);
    }
    for (size_t i = 0; i < v.size(); i++)
        for (size_t j = 0; j < v.size(); j++) {
            o.n++;
            bool lt = e[i] < e[j];
            if (lt != (v[i] < v[j])) o.fail("elen:int-order", std::string(name) + " " + std::to_string(v[i]) + " (" + e[i] + ") and " + std::to_string(v[j]) + " (" + e[j] + ") are ordered differently");
            if ((i ^ j) & 1 && (lex_comp(e[i], e[j]) != lt || (lex_comp((const void *) e[i].c_str(), (const void *) e[j].c_str()) != 0) != lt)) o.fail("elen:lex_comp", "lex_comp(" + e[i] + "," + e[j] + ")");
        }
}

enum FK { FLOATING, SMALL, LARGE };
static std::string dstr(double x) { char b[40]; snprintf(b, sizeof b, "%.17g", x); return b; }

template <typename F, typename EC, typename DC>
static void reals(Rng &r, Obs &o, char neg, char pos, const char *name, FK kind, EC ec, DC dc) {
    const int maxp = sizeof(F) == 4 ? elen::encode::FLOAT_PRECISION : elen::encode::DOUBLE_PRECISION;
    const int p = r.chance(1, 2) ? maxp : 1 + (int) r.below(maxp);
    const double eps = std::numeric_limits<F>::epsilon(), q = std::pow(10.0, -p);
    std::vector<F> v;
    auto add = [&](double x) { F f = (F) x; if (f == 0) f = 0; if (std::isfinite(f)) v.push_back(f); };
    add(0);
    if (kind == FLOATING) {
        for (double s : {1.0, -1.0}) {
            add(s * std::numeric_limits<F>::max()); add(s * std::numeric_limits<F>::min()); add(s * std::numeric_limits<F>::denorm_min());
            add(s); add(s * 10); add(s * 0.1);
        }
        for (int i = 0; i < 30; i++) {
            int lim = sizeof(F) == 4 ? 37 : 307;
            double m = (1 + 9 * r.unit()) * std::pow(10.0, (double) r.range(r.chance(1, 3) ? -lim : -6, r.chance(1, 3) ? lim : 6));
            add(r.chance(1, 2) ? m : -m);
        }
        // near the mantissa boundary and powers of ten
        for (int i = 0; i < 6; i++) {
            double e10 = (double) r.range(-30, 30);
            add(std::pow(10.0, e10 + 0.5) * (1 + (r.unit() - .5) * 1e-3)); add(-std::pow(10.0, e10) * (1 + (r.unit() - .5) * 1e-3));
        }
    } else if (kind == SMALL) {
        for (int i = 0; i < 40; i++) { double m = r.unit(); if (r.chance(1, 4)) m *= std::pow(10.0, -(double) r.below(8)); if (r.chance(1, 6)) m = 1 - m * q; if (m >= 1) m = 0.5; F f = (F) m; if (f >= 1) continue; add(r.chance(1, 2) ? m : -m); }
    } else {
        for (int i = 0; i < 40; i++) {
            double m = std::pow(10.0, r.unit() * (r.chance(1, 3) ? (sizeof(F) == 4 ? 38.4 : 308.0) : 9.3)); if (r.chance(1, 3)) m = std::floor(m); if (r.chance(1, 4)) m = (double) r.below(1000) + 1 - q * r.unit(); if (r.chance(1, 6)) m = r.unit();
            add(r.chance(1, 2) ? m : -m);
        }
        for (double s : {1.0, -1.0}) { add(s * std::numeric_limits<F>::max()); add(s * 2147483647.0); add(s * 2147483648.0); add(s * 18446744073709551616.0); add(s * (9.99 + 9e-9)); }
    }
    std::vector<std::string> e;
    for (F x : v) {
        std::string s = kind == FLOATING ? elen::encode::floating_point<F>(x, p, neg, pos) : kind == SMALL ? elen::encode::small_decimals<F>(x, p, neg, pos) : elen::encode::large_decimals<F>(x, p, neg, pos);
        char *cs = ec(x, p, neg, pos);
        if (s != cs) o.fail("elen:c-interface", std::string(name) + " " + dstr(x) + " encodes to " + s + " but in C to " + cs);
        try {
            F back = kind == FLOATING ? elen::decode::floating_point<F>(s, neg, pos) : kind == SMALL ? elen::decode::small_decimals<F>(s, neg, pos) : elen::decode::large_decimals<F>(s, neg, pos);
            double err = std::fabs((double) back - (double) x);
            double tol = kind == FLOATING ? (20 * q + 8 * eps) * std::fabs((double) x) + 2 * (double) std::numeric_limits<F>::denorm_min()
                       : kind == SMALL ? 1.01 * q + 4 * eps : 1.5 * q + 4 * eps * (1 + std::fabs((double) x));
            if (!(err <= tol)) o.fail("elen:real-roundtrip", std::string(name) + " precision " + S(p) + " " + dstr(x) + " -> " + s + " -> " + dstr(back));
            F cb = dc(cs, neg, pos);
            if (!(cb == back)) o.fail("elen:real-roundtrip-c", std::string(name) + " " + dstr(x) + " -> " + dstr(cb) + " in C, " + dstr(back) + " in C++");
        } catch (const std::exception &ex) { o.fail("elen:real-throw", std::string(name) + " precision " + S(p) + " " + dstr(x) + " -> " + s + ": " + ex.what()); }
        free(cs);
        e.push_back(s); o.mix(s);
        if (e.size() == 9) o.say(std::string(name) + " precision " + S(p) + " symbols " + neg + pos + ": " + dstr(x) + " -> " + s);
    }
    for (size_t i = 0; i < v.size(); i++)
        for (size_t j = 0; j < v.size(); j++) {
            double a = v[i], b = v[j];
            double gap = kind == FLOATING ? (40 * q + 16 * eps) * std::max(std::fabs(a), std::fabs(b)) : kind == SMALL ? 2.5 * q + 8 * eps : 4 * q + 8 * eps * (1 + std::max(std::fabs(a), std::fabs(b)));
            bool far = std::fabs(a - b) > gap;
            if (kind == FLOATING && ((a < 0) != (b < 0) || a == 0 || b == 0) && a != b) far = true;
            if (a == b && e[i] != e[j]) o.fail("elen:real-unequal", std::string(name) + " " + dstr(a) + " encodes differently");
            if (!far) continue;
            o.n++;
            if ((e[i] < e[j]) != (a < b)) o.fail("elen:real-order", std::string(name) + " precision " + S(p) + " " + dstr(a) + " (" + e[i] + ") and " + dstr(b) + " (" + e[j] + ") are ordered differently");
        }
}

static void mode_elen(long c, Rng &r, Obs &o) {
    char neg = elen::NEG_SYMBOL, pos = elen::POS_SYMBOL;
    if (r.chance(1, 2)) { neg = NEGS[r.below(sizeof NEGS - 1)]; pos = POSS[r.below(sizeof POSS - 1)]; }
    switch (c % 9) {
        case 0: ints<int8_t>(r, o, neg, pos, "int8", elen_encode_int8_t, elen_decode_int8_t); ints<uint8_t>(r, o, neg, pos, "uint8", elen_encode_uint8_t, elen_decode_uint8_t); break;
        case 1: ints<int16_t>(r, o, neg, pos, "int16", elen_encode_int16_t, elen_decode_int16_t); ints<uint16_t>(r, o, neg, pos, "uint16", elen_encode_uint16_t, elen_decode_uint16_t); break;
        case 2: ints<int32_t>(r, o, neg, pos, "int32", elen_encode_int32_t, elen_decode_int32_t); ints<uint32_t>(r, o, neg, pos, "uint32", elen_encode_uint32_t, elen_decode_uint32_t); break;
        case 3: ints<int64_t>(r, o, neg, pos, "int64", elen_encode_int64_t, elen_decode_int64_t); ints<uint64_t>(r, o, neg, pos, "uint64", elen_encode_uint64_t, elen_decode_uint64_t); break;
        case 4: case 5: reals<double>(r, o, neg, pos, "double", FLOATING, elen_encode_double, elen_decode_double); break;
        case 6: reals<float>(r, o, neg, pos, "float", FLOATING, elen_encode_float, elen_decode_float); break;
        case 7: reals<double>(r, o, neg, pos, "small double", SMALL, elen_encode_small_double, elen_decode_small_double); reals<float>(r, o, neg, pos, "small float", SMALL, elen_encode_small_float, elen_decode_small_float); break;
        default: reals<double>(r, o, neg, pos, "large double", LARGE, elen_encode_large_double, elen_decode_large_double); reals<float>(r, o, neg, pos, "large float", LARGE, elen_encode_large_float, elen_decode_large_float); break;
    }
}

// ------------------------------------------------------------------ messages
static int gen_three(const double *first, const size_t n, double **b, size_t *s, void *) {
    if (!n) return HISTOGRAM_ERROR;
    *s = 3; *b = alloc_array<double>(4); double m = *std::min_element(first, first + n);
    for (int i = 0; i < 4; i++) (*b)[i] = m + i * 2.5;
    return HISTOGRAM_SUCCESS;
}
static std::shared_ptr<Histogram::Histogram> mkhist(Rng &r) {
    Histogram::Config cfg{1 + r.below(6), r.chance(1, 2) ? gen_three : histogram_square_root_choice, nullptr};
    auto h = std::shared_ptr<Histogram::Histogram>(construct<Histogram::Histogram>(cfg, bytes(r, r.below(9))), Histogram::deleter);
    for (size_t n = r.below(12); n; n--) h->add((double) r.range(-40, 40) / 4);
    return h;
}
static std::string hbytes(const Histogram::Histogram &h) {
    void *b = nullptr; size_t n = 0;
    if (!h.pack(&b, &n)) return "unpackable";
    std::string s((char *) b, n); dealloc(b); return s;
}

// the caller's buffers: kept at stable exact-size addresses
struct Bufs {
    std::vector<std::pair<char *, size_t>> v;
    ~Bufs() { for (auto &x : v) free(x.first); }
    Blob make(Rng &r, bool empty_ok) {
        size_t n = r.chance(1, 5) ? r.below(400) : r.below(20);
        if (!empty_ok && !n) n = 1;
        if (empty_ok && r.chance(1, 6)) return Blob(nullptr, 0, (T) r.below(HXHIM_DATA_MAX_KNOWN + 1));
        std::string s = bytes(r, n);
        char *m = (char *) malloc(n ? n : 1);
        memcpy(m, s.data(), n);
        v.push_back({m, n});
        return Blob(m, n, (T) r.below(HXHIM_DATA_MAX_KNOWN + 1));
    }
    // one that owns its memory, as the datastores make them
    Blob own(Rng &r) { std::string s = bytes(r, 1 + r.below(30)); return Blob(s.size(), s.data(), (T) r.below(HXHIM_DATA_MAX_KNOWN + 1)); }
};
struct BV { std::string b; int t; void *ptr; bool null; };
static BV bv(const Blob &b) { return {str(b), (int) b.data_type(), b.data(), !b.data()}; }
static bool eqv(const BV &a, const Blob &b) { return a.b == str(b) && a.t == (int) b.data_type() && a.b.size() == b.size(); }

// packs twice into buffers with different contents and a guard behind: every announced byte must be written, none beyond
template <typename M>
static std::string pack_checked(Obs &o, const M *m, const char *what) {
    size_t sz = m->size();
    std::string res[2];
    for (int k = 0; k < 2; k++) {
        std::vector<unsigned char> buf(sz + 64, k ? 0xff : 0x00);
        for (size_t i = 0; i < 64; i++) buf[sz + i] = 0xa5;
        void *p = buf.data(); size_t n = 0;
        int rc = Message::Packer::pack(m, &p, &n);
        if (rc != MESSAGE_SUCCESS || n != sz) { o.fail("msg:pack", std::string(what) + ": pack rc=" + S(rc) + " size " + S(n) + " announced " + S(sz)); return ""; }
        if (p != buf.data()) { o.fail("msg:pack-buffer", std::string(what) + ": did not pack into the buffer it was given"); dealloc(p); return ""; }
        for (size_t i = 0; i < 64; i++) if (buf[sz + i] != 0xa5) { o.fail("msg:overrun", std::string(what) + ": wrote past the announced size"); break; }
        res[k].assign((char *) buf.data(), sz);
    }
    if (res[0] != res[1]) {
        size_t i = 0; while (res[0][i] == res[1][i]) i++;
        o.fail("msg:unwritten", std::string(what) + ": byte " + S(i) + " of the announced " + S(sz) + " was never written");
    }
    // let the packer allocate
    void *p = nullptr; size_t n = 0;
    if (Message::Packer::pack(m, &p, &n) != MESSAGE_SUCCESS || n != sz || !p || (sz && memcmp(p, res[0].data(), sz))) o.fail("msg:pack-alloc", std::string(what) + ": packing into a new buffer differs");
    dealloc(p);
    return res[0];
}
// unpacks from an exact-size heap copy that is gone before the fields are looked at
template <typename M, typename B>
static M *unpack_checked(Obs &o, const std::string &w, const char *what, B *) {
    char *b = (char *) malloc(w.size() ? w.size() : 1);
    memcpy(b, w.data(), w.size());
    B *out = nullptr;
    int rc = Message::Unpacker::unpack(&out, b, w.size());
    if (memcmp(b, w.data(), w.size())) o.fail("msg:buffer-changed", std::string(what) + ": unpacking changed the buffer");
    memset(b, 0x5a, w.size());
    free(b);
    if (rc != MESSAGE_SUCCESS || !out) { o.fail("msg:unpack", std::string(what) + ": unpack rc=" + S(rc)); return nullptr; }
    M *m = dynamic_cast<M *>(out);
    if (!m) { o.fail("msg:kind", std::string(what) + ": came back as another kind"); destruct(out); }
    return m;
}

#define CHK(cond, key, txt) do { if (!(cond)) o.fail(key, std::string(what) + " slot " + S(i) + " of " + S(n) + ": " + txt); } while (0)

template <typename M> static void head(Obs &o, const M *a, const M *b, const char *what) {
    if (a->direction != b->direction || a->op != b->op || a->src != b->src || a->dst != b->dst || a->count != b->count || b->max_count < a->count)
        o.fail("msg:header", std::string(what) + ": header changed: src " + std::to_string(a->src) + "/" + std::to_string(b->src) + " dst " + std::to_string(a->dst) + "/" + std::to_string(b->dst) + " count " + S(a->count) + "/" + S(b->count));
}

static void mode_msg(long c, Rng &r, Obs &o) {
    using namespace Message;
    Bufs bufs;
    const size_t n = r.chance(1, 8) ? 0 : r.chance(1, 2500) ? 65530 + r.below(30) : 1 + r.below(r.chance(1, 6) ? (r.chance(1, 10) ? 700 : 200) : 9), max = n + r.below(5);
    const int src = (int) r.range(-1, 1 << 20), dst = (int) r.range(-1, 1 << 20);
    const bool generic = r.chance(1, 2); // through the untyped interface the transports use
    auto status = [&]() { return r.chance(2, 3) ? DATASTORE_SUCCESS : r.chance(1, 2) ? DATASTORE_ERROR : DATASTORE_UNSET; };
    int kind = (int) (c % 10);
    o.mix(kind); o.mix(n);
    o.say("message kind " + S(kind) + " with " + S(n) + " slots, src " + std::to_string(src) + " dst " + std::to_string(dst) + (generic ? ", untyped interface" : ", typed interface"));
    auto wire = [&](auto *m, const char *what) {
        typedef typename std::remove_pointer<decltype(m)>::type M;
        std::string w;
        M *out = nullptr;
        if (generic) {
            if constexpr (std::is_base_of<::Message::Request::Request, M>::value) {
                w = pack_checked(o, static_cast<const ::Message::Request::Request *>(m), what);
                if (!o.bad) out = unpack_checked<M>(o, w, what, (::Message::Request::Request *) nullptr);
                if (out) { ::Message::Response::Response *wrong = nullptr; if (::Message::Unpacker::unpack(&wrong, (void *) w.data(), w.size()) == MESSAGE_SUCCESS) o.fail("msg:direction", std::string(what) + ": request accepted as response"); }
            } else {
                w = pack_checked(o, static_cast<const ::Message::Response::Response *>(m), what);
                if (!o.bad) out = unpack_checked<M>(o, w, what, (::Message::Response::Response *) nullptr);
                if (out) { ::Message::Request::Request *wrong = nullptr; if (::Message::Unpacker::unpack(&wrong, (void *) w.data(), w.size()) == MESSAGE_SUCCESS) o.fail("msg:direction", std::string(what) + ": response accepted as request"); }
            }
        } else {
            w = pack_checked(o, m, what);
            if (!o.bad) out = unpack_checked<M>(o, w, what, (M *) nullptr);
        }
        o.mix(w.size()); o.n += (long) n; o.c[0] += (long) w.size();
        if (out) head(o, m, out, what);
        return out;
    };
    std::vector<BV> ss, ps, os; std::vector<int> st; std::vector<size_t> rec; std::vector<int> ops, ots;
    if (kind == 0) {
        const char *what = "PUT request";
        ::Message::Request::BPut *m = construct<::Message::Request::BPut>(max); m->src = src; m->dst = dst;
        for (size_t i = 0; i < n; i++) { Blob a = bufs.make(r, true), b = bufs.make(r, true), d = bufs.make(r, true); ss.push_back(bv(a)); ps.push_back(bv(b)); os.push_back(bv(d)); m->add(a, b, d); }
        if (auto *x = wire(m, what)) {
            for (size_t i = 0; i < n && i < x->count; i++) {
                CHK(eqv(ss[i], x->subjects[i]) && eqv(ps[i], x->predicates[i]) && eqv(os[i], x->objects[i]), "msg:fields", "blob changed");
                CHK(x->orig.subjects[i] == ss[i].ptr && x->orig.predicates[i] == ps[i].ptr, "msg:orig", "original address changed");
            }
            destruct(x);
        }
        destruct(m);
    } else if (kind == 1) {
        const char *what = "GET request";
        ::Message::Request::BGet *m = construct<::Message::Request::BGet>(max); m->src = src; m->dst = dst;
        for (size_t i = 0; i < n; i++) { Blob a = bufs.make(r, true), b = bufs.make(r, true); ss.push_back(bv(a)); ps.push_back(bv(b)); ots.push_back((int) r.below(12)); m->add(a, b, (T) ots.back()); }
        if (auto *x = wire(m, what)) {
            for (size_t i = 0; i < n && i < x->count; i++) {
                CHK(eqv(ss[i], x->subjects[i]) && eqv(ps[i], x->predicates[i]) && (int) x->object_types[i] == ots[i], "msg:fields", "field changed");
                CHK(x->orig.subjects[i] == ss[i].ptr && x->orig.predicates[i] == ps[i].ptr, "msg:orig", "original address changed");
            }
            destruct(x);
        }
        destruct(m);
    } else if (kind == 2) {
        const char *what = "GETOP request";
        ::Message::Request::BGetOp *m = construct<::Message::Request::BGetOp>(max); m->src = src; m->dst = dst;
        for (size_t i = 0; i < n; i++) {
            Blob a = bufs.make(r, false), b = bufs.make(r, true);
            ss.push_back(bv(a)); ps.push_back(bv(b)); ots.push_back((int) r.below(12)); rec.push_back(r.chance(1, 5) ? r.next() : r.below(50)); ops.push_back((int) r.below(HXHIM_GETOP_INVALID));
            m->add(a, b, (T) ots.back(), rec.back(), (hxhim_getop_t) ops.back());
        }
        if (auto *x = wire(m, what)) {
            for (size_t i = 0; i < n && i < x->count; i++) {
                CHK((int) x->ops[i] == ops[i] && (int) x->object_types[i] == ots[i] && x->num_recs[i] == rec[i], "msg:fields", "operation, type or record count changed");
                if (ops[i] != HXHIM_GETOP_FIRST && ops[i] != HXHIM_GETOP_LAST)
                    CHK(eqv(ss[i], x->subjects[i]) && eqv(ps[i], x->predicates[i]), "msg:fields", "subject or predicate changed");
            }
            destruct(x);
        }
        destruct(m);
    } else if (kind == 3) {
        const char *what = "DELETE request";
        ::Message::Request::BDelete *m = construct<::Message::Request::BDelete>(max); m->src = src; m->dst = dst;
        for (size_t i = 0; i < n; i++) { Blob a = bufs.make(r, true), b = bufs.make(r, true); ss.push_back(bv(a)); ps.push_back(bv(b)); m->add(a, b); }
        if (auto *x = wire(m, what)) {
            for (size_t i = 0; i < n && i < x->count; i++) {
                CHK(eqv(ss[i], x->subjects[i]) && eqv(ps[i], x->predicates[i]), "msg:fields", "field changed");
                CHK(x->orig.subjects[i] == ss[i].ptr && x->orig.predicates[i] == ps[i].ptr, "msg:orig", "original address changed");
            }
            destruct(x);
        }
        destruct(m);
    } else if (kind == 4) {
        const char *what = "HISTOGRAM request";
        ::Message::Request::BHistogram *m = construct<::Message::Request::BHistogram>(max); m->src = src; m->dst = dst;
        for (size_t i = 0; i < n; i++) { Blob a = bufs.make(r, true); ss.push_back(bv(a)); m->add(a); }
        if (auto *x = wire(m, what)) {
            for (size_t i = 0; i < n && i < x->count; i++) CHK(str(x->names[i]) == ss[i].b && x->names[i].size() == ss[i].b.size(), "msg:fields", "name changed");
            destruct(x);
        }
        destruct(m);
    } else {
        // responses; half of the time through a second response that steals the slots in another order, as the local range server does
        std::vector<size_t> order(n);
        for (size_t i = 0; i < n; i++) order[i] = i;
        const bool steal = r.chance(1, 2);
        if (steal) for (size_t i = n; i > 1; i--) std::swap(order[i - 1], order[r.below(i)]);
        auto sp = [&](auto *m, const char *what) {
            typedef typename std::remove_pointer<decltype(m)>::type M;
            m->src = src; m->dst = dst;
            for (size_t i = 0; i < n; i++) {
                Blob a = bufs.make(r, true), b = bufs.make(r, true);
                ss.push_back(bv(a)); ps.push_back(bv(b)); st.push_back(status());
                if constexpr (std::is_same<M, ::Message::Response::BGet>::value) {
                    Blob d = st.back() == DATASTORE_SUCCESS && r.chance(9, 10) ? bufs.own(r) : Blob();
                    os.push_back(bv(d));
                    m->add(a, b, std::move(d), st.back());
                } else m->add(a, b, st.back());
            }
            if (steal) {
                M *z = construct<M>(n); z->src = src; z->dst = dst;
                for (size_t i = 0; i < n; i++) z->steal(m, order[i]);
                if (z->count != n) o.fail("msg:steal", std::string(what) + ": " + S(z->count) + " slots after stealing " + S(n));
                destruct(m); m = z;
            }
            if (auto *x = wire(m, what)) {
                for (size_t i = 0; i < n && i < x->count; i++) {
                    size_t k = order[i];
                    CHK(x->statuses[i] == st[k], "msg:status", "status changed");
                    CHK(x->orig.subjects[i].data() == ss[k].ptr && x->orig.subjects[i].size() == ss[k].b.size() && (int) x->orig.subjects[i].data_type() == ss[k].t &&
                        x->orig.predicates[i].data() == ps[k].ptr && x->orig.predicates[i].size() == ps[k].b.size() && (int) x->orig.predicates[i].data_type() == ps[k].t, "msg:orig", "original subject or predicate changed");
                    CHK(!x->orig.subjects[i].will_clean() && !x->orig.predicates[i].will_clean(), "msg:ownership", "response owns the client's memory");
                    if constexpr (std::is_same<M, ::Message::Response::BGet>::value)
                        if (st[k] == DATASTORE_SUCCESS) CHK(eqv(os[k], x->objects[i]), "msg:fields", "object changed");
                }
                destruct(x);
            }
            destruct(m);
        };
        if (kind == 5) sp(construct<::Message::Response::BPut>(max), "PUT response");
        else if (kind == 6) sp(construct<::Message::Response::BDelete>(max), "DELETE response");
        else if (kind == 7) sp(construct<::Message::Response::BGet>(max), "GET response");
        else if (kind == 8) {
            const char *what = "GETOP response";
            typedef ::Message::Response::BGetOp M;
            M *m = construct<M>(max); m->src = src; m->dst = dst;
            std::vector<std::vector<BV>> S3, P3, O3;
            for (size_t i = 0; i < n; i++) {
                size_t k = r.chance(1, 5) ? 0 : n < 20 && r.chance(1, 60) ? r.below(400) : r.below(6);
                st.push_back(status());
                Blob *a = alloc_array<Blob>(k), *b = alloc_array<Blob>(k), *d = alloc_array<Blob>(k);
                S3.emplace_back(); P3.emplace_back(); O3.emplace_back();
                for (size_t j = 0; j < k; j++) {
                    a[j] = bufs.own(r); b[j] = bufs.own(r);
                    if (st.back() == DATASTORE_SUCCESS) d[j] = bufs.own(r);
                    S3.back().push_back(bv(a[j])); P3.back().push_back(bv(b[j])); O3.back().push_back(bv(d[j]));
                }
                m->add(a, b, d, k, st.back());
            }
            if (steal) {
                M *z = construct<M>(n); z->src = src; z->dst = dst;
                for (size_t i = 0; i < n; i++) z->steal(m, order[i]);
                destruct(m); m = z;
            }
            if (auto *x = wire(m, what)) {
                for (size_t i = 0; i < n && i < x->count; i++) {
                    size_t k = order[i];
                    CHK(x->statuses[i] == st[k], "msg:status", "status changed");
                    CHK(x->num_recs[i] == S3[k].size(), "msg:fields", "record count changed");
                    for (size_t j = 0; j < S3[k].size() && j < x->num_recs[i]; j++) {
                        CHK(eqv(S3[k][j], x->subjects[i][j]) && eqv(P3[k][j], x->predicates[i][j]), "msg:fields", "record changed");
                        if (st[k] == DATASTORE_SUCCESS) CHK(eqv(O3[k][j], x->objects[i][j]), "msg:fields", "object changed");
                    }
                }
                destruct(x);
            }
            destruct(m);
        } else {
            const char *what = "HISTOGRAM response";
            typedef ::Message::Response::BHistogram M;
            M *m = construct<M>(max); m->src = src; m->dst = dst;
            std::vector<std::string> hb;
            for (size_t i = 0; i < n; i++) {
                st.push_back(status());
                auto h = mkhist(r); hb.push_back(hbytes(*h));
                if (st.back() == DATASTORE_SUCCESS) m->add(h, st.back()); else m->add(nullptr, st.back());
            }
            if (steal) {
                M *z = construct<M>(n); z->src = src; z->dst = dst;
                for (size_t i = 0; i < n; i++) z->steal(m, order[i]);
                destruct(m); m = z;
            }
            if (auto *x = wire(m, what)) {
                for (size_t i = 0; i < n && i < x->count; i++) {
                    size_t k = order[i];
                    CHK(x->statuses[i] == st[k], "msg:status", "status changed");
                    if (st[k] == DATASTORE_SUCCESS) {
                        CHK(x->histograms[i] != nullptr, "msg:histogram", "histogram lost");
                        if (x->histograms[i]) CHK(hbytes(*x->histograms[i]) == hb[k], "msg:histogram", "histogram changed");
                    }
                }
                destruct(x);
            }
            destruct(m);
        }
    }
}

// The answers that datastores give: what they announce, what is packed and what arrives.
static std::string answer_dir;
static int answer_gen(const double *, const size_t, double **b, size_t *n, void *) { *n = 3; *b = (double *) ::operator new[](4 * sizeof(double)); for (int i = 0; i < 4; i++) (*b)[i] = i * 10; return HISTOGRAM_SUCCESS; }
static void mode_answer(long c, Rng &r, Obs &o) {
    std::unique_ptr<::Datastore::Datastore> ds;
    auto *cb = ::Datastore::Transform::default_callbacks();
    const int backend = r.chance(1, 25) ? 1 + (int) r.below(2) : 0;
    if (backend == 0) ds.reset(new ::Datastore::InMemory(0, 0, cb));
    else if (backend == 1) ds.reset(new ::Datastore::LevelDB(0, 0, cb, true));
    else ds.reset(new ::Datastore::RocksDB(0, 0, cb, true));
    const std::string path = answer_dir + "/an" + std::to_string(c);
    if (!ds->Open(path)) { o.fail("msg:answer-open", "a datastore did not open"); return; }
    if (r.chance(1, 2)) { ::Histogram::Config hc{1 + r.below(4), answer_gen, nullptr}; ds->AddHistogram("h", hc); }
    Bufs bufs;
    std::deque<Blob> subs, preds; // (a vector would copy them through their conversions)
    auto text = [&](const std::string &s, T t) { char *m = (char *) malloc(s.size()); memcpy(m, s.data(), s.size()); bufs.v.push_back({m, s.size()}); return Blob(m, s.size(), t); };
    auto value = [&]() {
        switch (r.below(5)) { case 0: { double d = (double) r.range(-500, 500) / 4; return text(std::string((char *) &d, 8), HXHIM_DATA_DOUBLE); } case 1: { uint64_t u = r.below(3000); return text(std::string((char *) &u, 8), HXHIM_DATA_UINT64); } case 2: { float x = (float) r.range(-500, 500) / 4; return text(std::string((char *) &x, 4), HXHIM_DATA_FLOAT); }
            default: return text(bytes(r, 1 + r.below(r.chance(1, 6) ? 300 : 20)), r.chance(1, 4) ? HXHIM_DATA_POINTER : HXHIM_DATA_BYTE); }
    };
    for (int i = 0, k = 1 + (int) r.below(4); i < k; i++) subs.push_back(value());
    for (int i = 0, k = 1 + (int) r.below(r.chance(1, 6) ? 120 : 25); i < k; i++) preds.push_back(r.chance(1, 8) ? text("h", HXHIM_DATA_BYTE) : value());
    auto any = [&](std::deque<Blob> &v) -> Blob & { return v[r.below(v.size())]; };
    const bool generic = r.chance(1, 2);
    auto wire = [&](auto *m, const char *what) {
        typedef typename std::remove_pointer<decltype(m)>::type M;
        M *out = nullptr; std::string w;
        if (generic) { w = pack_checked(o, static_cast<const ::Message::Response::Response *>(m), what); if (!o.bad) out = unpack_checked<M>(o, w, what, (::Message::Response::Response *) nullptr); }
        else { w = pack_checked(o, m, what); if (!o.bad) out = unpack_checked<M>(o, w, what, (M *) nullptr); }
        o.mix(w.size()); o.n += (long) m->count; o.c[0] += (long) w.size();
        if (out) head(o, m, out, what);
        return out;
    };
    std::string tr;
    auto eqb = [](const Blob &a, const Blob &b) { return str(a) == str(b) && a.size() == b.size() && a.data_type() == b.data_type(); };
    auto orig = [](const Blob &a, const Blob &b) { return a.data() == b.data() && a.size() == b.size() && a.data_type() == b.data_type(); };
    for (int step = 0, steps = 3 + (int) r.below(5); step < steps && !o.bad; step++) {
        const size_t n = 1 + r.below(r.chance(1, 8) ? 60 : 8);
        const int kind = step == 0 ? 0 : (int) r.below(5);
        tr += "PGRDH"[kind] + S(n) + " ";
        if (kind == 0) {
            const char *what = "answer to PUTs"; ::Message::Request::BPut q(step ? n : n + 40); q.src = 3; q.dst = 5;
            for (size_t i = 0; i < (step ? n : n + 40); i++) q.add(any(subs), any(preds), value());
            auto *m = ds->operate(&q); if (!m) { o.fail("msg:answer", "no answer to PUTs"); break; }
            if (auto *x = wire(m, what)) { for (size_t i = 0; i < x->count; i++) CHK(x->statuses[i] == m->statuses[i] && orig(m->orig.subjects[i], x->orig.subjects[i]) && orig(m->orig.predicates[i], x->orig.predicates[i]), "msg:answer-fields", "slot changed"); destruct(x); }
            destruct(m);
        } else if (kind == 1) {
            const char *what = "answer to GETs"; ::Message::Request::BGet q(n);
            for (size_t i = 0; i < n; i++) q.add(any(subs), any(preds), HXHIM_DATA_BYTE);
            auto *m = ds->operate(&q); if (!m) { o.fail("msg:answer", "no answer to GETs"); break; }
            if (auto *x = wire(m, what)) { for (size_t i = 0; i < x->count; i++) { CHK(x->statuses[i] == m->statuses[i] && orig(m->orig.subjects[i], x->orig.subjects[i]), "msg:answer-fields", "slot changed"); if (m->statuses[i] == DATASTORE_SUCCESS) { CHK(eqb(m->objects[i], x->objects[i]), "msg:answer-fields", "object changed"); o.c[1]++; } } destruct(x); }
            destruct(m);
        } else if (kind == 2) {
            const char *what = "answer to GETOPs"; ::Message::Request::BGetOp q(n);
            for (size_t i = 0; i < n; i++) { const bool null = r.chance(1, 3); Blob &p = any(preds); hxhim_getop_t op = null ? (r.chance(1, 2) ? HXHIM_GETOP_LOWEST : HXHIM_GETOP_HIGHEST) : (hxhim_getop_t) r.below(HXHIM_GETOP_INVALID); q.add(any(subs), null ? Blob(nullptr, 0, p.data_type()) : p, HXHIM_DATA_BYTE, r.chance(1, 4) ? 10 + r.below(60) : r.below(6), op); }
            auto *m = ds->operate(&q); if (!m) { o.fail("msg:answer", "no answer to GETOPs"); break; }
            if (auto *x = wire(m, what)) {
                for (size_t i = 0; i < x->count; i++) {
                    CHK(x->statuses[i] == m->statuses[i] && x->num_recs[i] == m->num_recs[i], "msg:answer-fields", "slot changed");
                    for (size_t j = 0; j < m->num_recs[i] && j < x->num_recs[i]; j++) { CHK(eqb(m->subjects[i][j], x->subjects[i][j]) && eqb(m->predicates[i][j], x->predicates[i][j]), "msg:answer-fields", "record changed"); if (m->statuses[i] == DATASTORE_SUCCESS) { CHK(eqb(m->objects[i][j], x->objects[i][j]), "msg:answer-fields", "object changed"); o.c[1]++; } }
                }
                destruct(x);
            }
            destruct(m);
        } else if (kind == 3) {
            const char *what = "answer to DELETEs"; ::Message::Request::BDelete q(n);
            for (size_t i = 0; i < n; i++) q.add(any(subs), any(preds));
            auto *m = ds->operate(&q); if (!m) { o.fail("msg:answer", "no answer to DELETEs"); break; }
            if (auto *x = wire(m, what)) { for (size_t i = 0; i < x->count; i++) CHK(x->statuses[i] == m->statuses[i] && orig(m->orig.subjects[i], x->orig.subjects[i]) && orig(m->orig.predicates[i], x->orig.predicates[i]), "msg:answer-fields", "slot changed"); destruct(x); }
            destruct(m);
        } else {
            const char *what = "answer to HISTOGRAMs"; ::Message::Request::BHistogram q(n);
            for (size_t i = 0; i < n; i++) q.add(text(r.chance(1, 2) ? "h" : "none", HXHIM_DATA_BYTE));
            auto *m = ds->operate(&q); if (!m) { o.fail("msg:answer", "no answer to HISTOGRAMs"); break; }
            if (auto *x = wire(m, what)) {
                for (size_t i = 0; i < x->count; i++) { CHK(x->statuses[i] == m->statuses[i], "msg:answer-fields", "status changed"); if (m->statuses[i] == DATASTORE_SUCCESS && m->histograms[i]) CHK(x->histograms[i] && hbytes(*x->histograms[i]) == hbytes(*m->histograms[i]), "msg:answer-fields", "histogram changed"); }
                destruct(x);
            }
            destruct(m);
        }
    }
    o.mix(tr); o.mix(backend);
    o.say(std::string(backend == 0 ? "in memory" : backend == 1 ? "leveldb" : "rocksdb") + ", requests: " + tr);
    ds->Close(false); ds.reset();
    if (backend) rmtree(path);
}

// ------------------------------------------------------------------ blobs
// Model: what each blob refers to and whether it will free it. A reference may only be read while its owner still holds the memory.
static void mode_blob(long c, Rng &r, Obs &o) {
    struct M { int mem = -1; int t = HXHIM_DATA_INVALID; bool own = false; };
    struct Mem { void *p; std::string b; bool heap; bool freed; };
    std::vector<Mem> mem; // every piece of memory of this case
    const int K = 4;
    {
        std::deque<std::string> ext; // caller's memory, must never change or be freed
        std::vector<std::pair<size_t, std::string>> leaked;
        Blob b[K]; M m[K];
        std::string trace;
        auto lookup = [&](int i) -> std::string { return m[i].mem < 0 ? std::string() : mem[m[i].mem].b; };
        auto release = [&](int i) { if (m[i].own && m[i].mem >= 0) mem[m[i].mem].freed = true; m[i] = M(); };
        auto alive = [&](int i) { return m[i].mem < 0 || !mem[m[i].mem].freed; };
        size_t steps = 6 + r.below(40);
        for (size_t s = 0; s < steps && !o.bad; s++) {
            int i = (int) r.below(K), j = (int) r.below(K), t = (int) r.below(HXHIM_DATA_MAX_KNOWN + 1);
            int what = (int) r.below(15);
            char tb[40]; snprintf(tb, sizeof tb, "%d(%d,%d) ", what, i, j); trace += tb;
            switch (what) {
                case 0: { // reference to caller memory
                    ext.push_back(bytes(r, 1 + r.below(40)));
                    mem.push_back({(void *) ext.back().data(), ext.back(), false, false});
                    release(i); b[i] = ReferenceBlob((void *) ext.back().data(), ext.back().size(), (T) t);
                    m[i] = {(int) mem.size() - 1, t, false};
                    break;
                }
                case 1: { // copy
                    std::string d = bytes(r, r.below(40));
                    release(i); b[i] = RealBlob(d.size(), d.data(), (T) t);
                    mem.push_back({b[i].data(), d, true, false});
                    if (b[i].data() && b[i].data() == d.data()) o.fail("blob:alias", "a copied blob refers to the original");
                    m[i] = {(int) mem.size() - 1, t, true};
                    break;
                }
                case 2: { // take ownership of an allocation
                    std::string d = bytes(r, 1 + r.below(40));
                    void *p = ::alloc(d.size()); memcpy(p, d.data(), d.size());
                    release(i); b[i] = RealBlob(p, d.size(), (T) t);
                    mem.push_back({p, d, true, false});
                    m[i] = {(int) mem.size() - 1, t, true};
                    break;
                }
                case 3: // move assignment
                    b[i] = std::move(b[j]);
                    if (i != j) { release(i); m[i] = m[j]; m[j] = M(); }
                    break;
                case 4: // reference assignment
                    if (!alive(j)) break;
                    b[i] = b[j];
                    if (i != j) { M x = m[j]; if (m[i].own && m[i].mem >= 0) mem[m[i].mem].freed = true; m[i] = x; m[i].own = false; }
                    break;
                case 5: { // move construction and back
                    Blob tmp(std::move(b[j]));
                    if (b[j].data() || b[j].size() || b[j].will_clean()) o.fail("blob:move", "moved-from blob still holds data");
                    if (tmp.will_clean() != m[j].own) o.fail("blob:move", "move construction changed ownership");
                    b[j] = std::move(tmp);
                    break;
                }
                case 6: { // copy construction is a reference
                    Blob tmp(b[j]);
                    if (tmp.data() != b[j].data() || tmp.size() != b[j].size() || tmp.data_type() != b[j].data_type() || tmp.will_clean()) o.fail("blob:copy", "copy construction is not a reference");
                    break;
                }
                case 7: b[i].dealloc(); release(i); break;
                case 8: // clear forgets; the owner has to release it itself
                    if (m[i].own && m[i].mem >= 0) leaked.push_back({(size_t) m[i].mem, ""});
                    b[i].clear(); m[i] = M();
                    break;
                case 9: { // hand ownership to the caller and take it back
                    if (!m[i].own) break;
                    bool was = b[i].set_clean(false);
                    if (!was) o.fail("blob:set_clean", "set_clean returned the wrong previous value");
                    if (b[i].set_clean(true)) o.fail("blob:set_clean", "set_clean did not take effect");
                    break;
                }
                case 10: { T old = b[i].set_type((T) t); if ((int) old != m[i].t) o.fail("blob:type", "set_type returned the wrong previous type"); m[i].t = t; break; }
                case 11: { // pack/unpack by value
                    if (!alive(j)) break;
                    bool ty = r.chance(1, 2), cp = r.chance(1, 2);
                    std::string d = lookup(j); int dt = m[j].t;
                    size_t n = b[j].pack_size(ty);
                    char *buf = (char *) malloc(n), *cur = buf;
                    if (Blob::pack_size(d.size(), ty) != n) o.fail("blob:pack_size", "pack_size differs");
                    if (!b[j].pack(cur, ty) || cur != buf + n) o.fail("blob:pack", "packed " + S(cur - buf) + " of " + S(n) + " bytes");
                    cur = buf;
                    Blob tmp; if (!ty) tmp.set_type((T) dt);
                    if (!tmp.unpack(cur, ty, cp) || cur != buf + n) o.fail("blob:unpack", "consumed " + S(cur - buf) + " of " + S(n) + " bytes");
                    if (cp) {
                        memset(buf, 0x11, n); free(buf);
                        if (str(tmp) != d || tmp.size() != d.size() || (int) tmp.data_type() != dt) o.fail("blob:roundtrip", "content, length or type changed over pack/unpack: " + hex(d) + " -> " + hex(str(tmp)));
                        if (tmp.will_clean() != !d.empty()) o.fail("blob:unpack-owner", "an unpacked copy does not own its memory");
                        release(i); b[i] = std::move(tmp);
                        mem.push_back({b[i].data(), d, true, false});
                        m[i] = {(int) mem.size() - 1, dt, !d.empty()};
                    } else {
                        if (str(tmp) != d || (int) tmp.data_type() != dt || tmp.will_clean()) o.fail("blob:roundtrip-ref", "content, type or ownership changed over pack/unpack without copy");
                        tmp.clear(); free(buf);
                    }
                    break;
                }
                case 12: { // pack/unpack by reference, into a blob that may own something
                    if (!alive(j)) break;
                    bool ty = r.chance(1, 2);
                    size_t n = b[j].pack_ref_size(ty);
                    std::vector<char> buf(n); char *cur = buf.data();
                    if (!b[j].pack_ref(cur, ty) || cur != buf.data() + n) o.fail("blob:pack_ref", "packed " + S(cur - buf.data()) + " of " + S(n) + " bytes");
                    if (i == j) break;
                    cur = buf.data();
                    M x = m[j]; int had = m[i].t;
                    if (!b[i].unpack_ref(cur, ty) || cur != buf.data() + n) o.fail("blob:unpack_ref", "wrong number of bytes consumed");
                    release(i);
                    m[i] = x; m[i].own = false; if (!ty) m[i].t = had;
                    break;
                }
                case 13: { // unpack into a blob that already holds something
                    if (!alive(j)) break;
                    std::string d = lookup(j); int dt = m[j].t;
                    size_t n = b[j].pack_size(true);
                    char *buf = (char *) malloc(n), *cur = buf;
                    b[j].pack(cur, true); cur = buf;
                    b[i].unpack(cur, true, true);
                    free(buf);
                    release(i);
                    mem.push_back({b[i].data(), d, true, false});
                    m[i] = {(int) mem.size() - 1, dt, !d.empty()};
                    break;
                }
                case 14: { // compare
                    if (!alive(i) || !alive(j)) break;
                    bool eq = lookup(i) == lookup(j) && m[i].t == m[j].t;
                    if ((b[i] == b[j]) != eq || (b[i] != b[j]) == eq) o.fail("blob:compare", "equality does not compare content, length and type");
                    break;
                }
            }
            o.n++;
            for (int k = 0; k < K; k++) {
                void *p = nullptr; size_t len = 0; T ty = HXHIM_DATA_INVALID;
                b[k].get(&p, &len, &ty);
                std::string want = lookup(k);
                void *wp = m[k].mem < 0 ? nullptr : mem[m[k].mem].p;
                if (p != b[k].data() || len != b[k].size() || ty != b[k].data_type()) o.fail("blob:get", "get disagrees with the accessors");
                if (want.empty() ? len != 0 : p != wp || len != want.size()) o.fail("blob:state", "blob " + S(k) + " refers to the wrong memory after " + trace);
                if ((int) ty != m[k].t) o.fail("blob:state", "blob " + S(k) + " has type " + S(ty) + " instead of " + S(m[k].t) + " after " + trace);
                if (b[k].will_clean() && !m[k].own) o.fail("blob:owner", "blob " + S(k) + " would free memory that is not its own, after " + trace);
                if (!b[k].will_clean() && m[k].own && !want.empty()) o.fail("blob:owner", "blob " + S(k) + " lost ownership, after " + trace);
                if (!want.empty() && alive(k) && memcmp(p, want.data(), len)) o.fail("blob:content", "content of blob " + S(k) + " changed after " + trace);
            }
        }
        for (auto &l : leaked) { ::dealloc(mem[l.first].p); }
        for (size_t k = 0; k < mem.size(); k++) if (!mem[k].heap && mem[k].b != std::string((char *) mem[k].p, mem[k].b.size())) o.fail("blob:reference-changed", "memory that was only referred to changed");
        o.mix(trace);
        o.say("operations(destination,source): " + trace);
    }
}

// ------------------------------------------------------------------ histograms
static int gen_custom(const double *first, const size_t n, double **b, size_t *s, void *extra) {
    // nonuniform, from the first values and the extra argument
    size_t k = (size_t) (uintptr_t) extra;
    *s = k; *b = alloc_array<double>(k + 1);
    double x = n ? *std::min_element(first, first + n) : 0;
    for (size_t i = 0; i < k; i++) { (*b)[i] = x; x += (double) (i + 1) * 0.75; }
    return HISTOGRAM_SUCCESS;
}

static void mode_histo(long c, Rng &r, Obs &o) {
    static const HistogramBucketGenerator_t G[] = {histogram_n_buckets, histogram_square_root_choice, histogram_sturges_formula, histogram_rice_rule, histogram_scotts_normal_reference_rule, histogram_uniform_logn, gen_custom};
    static const char *const N[] = {"n_buckets", "square_root", "sturges", "rice", "scott", "logn", "custom"};
    const int g = (int) (c % 7);
    const size_t extra = g == 5 ? 2 + r.below(9) : 1 + r.below(12);
    const size_t first_n = r.chance(1, 10) ? 1 : 1 + r.below(r.chance(1, 6) ? 300 : 25);
    std::string name = bytes(r, r.below(12));
    Histogram::Config cfg{first_n, G[g], (void *) (uintptr_t) extra};
    std::unique_ptr<Histogram::Histogram> h(r.chance(1, 2) ? new Histogram::Histogram(cfg, name) : new Histogram::Histogram(&cfg, name));
    std::vector<double> vals;
    double scale = r.chance(1, 3) ? 1000 : 20;
    auto value = [&]() {
        switch (r.below(5)) { case 0: return std::floor(r.unit() * scale); case 1: return -scale / 2 + r.unit() * scale; case 2: return scale * r.unit() * r.unit(); case 3: return vals.empty() ? 1.5 : vals[r.below(vals.size())]; default: return r.unit() * scale; }
    };
    const bool same = r.chance(1, 12);
    size_t total = r.chance(1, 5) ? r.below(first_n + 1) : first_n + r.below(200);
    // a range that makes log(range) small or negative is outside of what the logn rule is defined for
    std::string what = std::string(N[g]) + " first_n=" + S(first_n) + " extra=" + S(extra);
    o.say(what + ", " + S(total) + " values");
    std::unique_ptr<Histogram::Histogram> twin; size_t twin_at = r.below(total + 1);
    for (size_t k = 0; k <= total && !o.bad; k++) {
        // what is visible after k values
        double *b = nullptr; size_t *cn = nullptr, sz = 0;
        std::string nm; h->get_name(nm);
        if (nm != name) o.fail("histo:name", "name changed");
        const char *np = nullptr; size_t nl = 0; h->get_name(&np, &nl);
        if (std::string(np, nl) != name) o.fail("histo:name", "name changed");
        if (k < first_n) {
            if (h->get(&b, &cn, &sz) == HISTOGRAM_SUCCESS) o.fail("histo:early", what + ": buckets reported after " + S(k) + " values");
            size_t fn = 0, cs = 0; double *ca = nullptr;
            h->get_cache(&fn, &ca, &cs);
            if (fn != first_n || cs != k) o.fail("histo:cache", what + ": cache has " + S(cs) + " values of " + S(k));
            for (size_t i = 0; i < k && i < cs; i++) if (ca[i] != vals[i]) o.fail("histo:cache", what + ": cached value changed");
        } else {
            if (h->get(&b, &cn, &sz) != HISTOGRAM_SUCCESS || !b || !cn || !sz) { o.fail("histo:get", what + ": no buckets after " + S(k) + " values"); break; }
            // the first n values determine the buckets
            double *eb = nullptr; size_t es = 0;
            if (G[g](vals.data(), first_n, &eb, &es, (void *) (uintptr_t) extra) != HISTOGRAM_SUCCESS || es != sz) o.fail("histo:buckets", what + ": " + S(sz) + " buckets, generator makes " + S(es));
            else for (size_t i = 0; i < sz; i++) if (eb[i] != b[i]) o.fail("histo:buckets", what + ": bucket " + S(i) + " is not the generated one");
            dealloc_array(eb);
            double mn = *std::min_element(vals.begin(), vals.begin() + first_n), mx = *std::max_element(vals.begin(), vals.begin() + first_n);
            if (g < 6 && b[0] != mn) o.fail("histo:left", what + ": first bucket starts at " + dstr(b[0]) + " instead of the minimum " + dstr(mn));
            for (size_t i = 1; i < sz; i++) if (b[i] < b[i - 1]) o.fail("histo:order", what + ": buckets not in order");
            // documented number of buckets
            double wantsz = -1, n = (double) first_n;
            if (g == 0) wantsz = (double) extra; else if (g == 1) wantsz = std::sqrt(n); else if (g == 2) wantsz = std::log2(n) + 2; else if (g == 3) wantsz = std::cbrt(n) + 2; else if (g == 6) wantsz = (double) extra;
            else if (g == 4 && first_n > 2 && mx > mn) {
                double mean = 0, sq = 0; for (size_t i = 0; i < first_n; i++) mean += vals[i]; mean /= n;
                for (size_t i = 0; i < first_n; i++) sq += (vals[i] - mean) * (vals[i] - mean);
                wantsz = (mx - mn) / (3.5 * std::sqrt(sq / (n - 1)) / std::cbrt(n)); if (wantsz < 1) wantsz = 1;
            } else if (g == 5 && mx - mn > 2) wantsz = std::ceil((mx - mn) * std::log((double) extra) / std::log(mx - mn));
            if (wantsz > 0 && (sz > std::floor(wantsz + 1e-9) + (g == 5 ? 1 : 0) || sz + 1e-9 < std::floor(wantsz - 1e-9) - (g == 5 ? 1 : 0))) o.fail("histo:bucket-count", what + ": " + S(sz) + " buckets instead of " + dstr(wantsz));
            if (g >= 1 && g <= 5 && mx > mn) {
                double width = (mx - mn) / (double) sz;
                for (size_t i = 0; i < sz; i++) if (std::fabs(b[i] - (mn + width * (double) i)) > 1e-6 * (1 + std::fabs(mx) + std::fabs(mn))) { o.fail("histo:width", what + ": bucket " + S(i) + " starts at " + dstr(b[i])); break; }
            }
            // counts, recounted
            std::vector<size_t> want(sz, 0); size_t in = 0;
            for (double v : vals) { size_t i = sz; while (i > 0 && b[i - 1] > v) i--; if (i) { want[i - 1]++; in++; } }
            size_t sum = 0;
            for (size_t i = 0; i < sz; i++) { sum += cn[i]; if (cn[i] != want[i]) { o.fail("histo:count", what + ": bucket " + S(i) + " of " + S(sz) + " counts " + S(cn[i]) + " of the " + S(k) + " values, should be " + S(want[i])); break; } }
            if (sum != in) o.fail("histo:sum", what + ": counts sum to " + S(sum) + " of " + S(in) + " values in range");
            o.c[1]++;
        }
        // pack
        size_t ps = h->pack_size();
        void *pb = nullptr; size_t pn = 0;
        if (!h->pack(&pb, &pn) || pn != ps) { o.fail("histo:pack", what + ": pack_size " + S(ps) + " packed " + S(pn)); dealloc(pb); break; }
        if (k == twin_at || r.chance(1, 40)) {
            // a short buffer is refused, an exact one restores, extra bytes are left alone
            if (ps) {
                size_t cut = r.below(ps);
                char *sh = (char *) malloc(cut ? cut : 1); memcpy(sh, pb, cut);
                Histogram::Histogram t2;
                if (t2.unpack(sh, cut)) o.fail("histo:truncated", what + ": restored from " + S(cut) + " of " + S(ps) + " bytes");
                free(sh);
            }
            std::vector<char> big(ps + 16, 0x7e); char *cur = big.data(); size_t avail = big.size(), used = 0;
            if (!h->pack(cur, avail, &used) || used != ps || avail != 16 || cur != big.data() + ps || memcmp(big.data(), pb, ps)) o.fail("histo:pack-in-place", what + ": packing in place differs");
            for (size_t i = ps; i < big.size(); i++) if (big[i] != 0x7e) o.fail("histo:overrun", what + ": wrote past pack_size");
            if (ps) { char *c2 = big.data(); size_t a2 = ps - 1; if (h->pack(c2, a2, nullptr)) o.fail("histo:pack-short", what + ": packed into too small a buffer"); }
            char *ex = (char *) malloc(ps ? ps : 1); memcpy(ex, pb, ps);
            std::unique_ptr<Histogram::Histogram> t(r.chance(1, 2) ? new Histogram::Histogram() : new Histogram::Histogram(cfg, "other"));
            if (r.chance(1, 3)) for (int q = 0; q < 5; q++) { if (!r.chance(1, 2)) break; std::unique_ptr<Histogram::Histogram> full(new Histogram::Histogram(Histogram::Config{2, gen_three, nullptr}, "x")); for (int z = 0; z < 6; z++) full->add(z); t = std::move(full); }
            char *cc = ex; size_t av = ps, us = 0;
            if (!t->unpack(cc, av, &us) || us != ps || av != 0 || cc != ex + ps) o.fail("histo:unpack", what + ": restoring consumed " + S(us) + " of " + S(ps));
            free(ex);
            t->set_generator(cfg);
            std::string again = hbytes(*t);
            if (again != std::string((char *) pb, ps)) o.fail("histo:restore", what + ": restored histogram differs after " + S(k) + " values");
            if (k == twin_at) { twin = std::move(t); o.c[0]++; }
        }
        std::string packed((char *) pb, pn); dealloc(pb);
        if (twin && k > twin_at && hbytes(*twin) != packed) o.fail("histo:restore-add", what + ": adding to the restored histogram differs, restored at " + S(twin_at) + " now " + S(k));
        if (k == total) { o.mix(packed); break; }
        double v = same ? 4.25 : value();
        vals.push_back(v);
        int rc = h->add(v);
        if (rc != HISTOGRAM_SUCCESS) o.fail("histo:add", what + ": add failed");
        if (twin && twin->add(v) != rc) o.fail("histo:restore-add", what + ": add to the restored histogram returns something else");
        o.n++;
    }
}

// ------------------------------------------------------------------ result lists
struct ER { int op, status, rs; std::string s, p, ob; int st, pt, ot; bool obj; std::string hist; };

static void mode_results(long c, Rng &r, Obs &o) {
    using namespace hxhim::Result;
    std::vector<std::unique_ptr<std::string>> keep;
    auto fill = [&](Blob &b, std::string &val, int &t) {
        val = bytes(r, 1 + r.below(20)); t = (int) r.below(HXHIM_DATA_MAX_KNOWN);
        if (r.chance(1, 2)) b = RealBlob(val.size(), val.data(), (T) t);
        else { keep.emplace_back(new std::string(val)); b = ReferenceBlob((void *) keep.back()->data(), val.size(), (T) t); }
    };
    auto make = [&](std::vector<ER> &e) -> Result * {
        ER x{}; x.rs = (int) r.range(0, 1000);
        int ds = r.chance(2, 3) ? DATASTORE_SUCCESS : r.chance(1, 2) ? DATASTORE_ERROR : DATASTORE_UNSET;
        x.status = ds == DATASTORE_SUCCESS ? HXHIM_SUCCESS : HXHIM_ERROR;
        switch (r.below(6)) {
            case 0: { x.op = HXHIM_PUT; Put *p = construct<Put>(nullptr, x.rs, ds); fill(p->subject, x.s, x.st); fill(p->predicate, x.p, x.pt); e.push_back(x); return p; }
            case 1: { x.op = HXHIM_GET; Get *p = construct<Get>(nullptr, x.rs, ds); fill(p->subject, x.s, x.st); fill(p->predicate, x.p, x.pt); if (ds == DATASTORE_SUCCESS) { fill(p->object, x.ob, x.ot); x.obj = true; } e.push_back(x); return p; }
            case 2: {
                GetOp *top = nullptr, *prev = nullptr;
                for (size_t k = 1 + r.below(5); k; k--) {
                    x.op = HXHIM_GETOP; GetOp *p = construct<GetOp>(nullptr, x.rs, ds); fill(p->subject, x.s, x.st); fill(p->predicate, x.p, x.pt);
                    x.obj = false; if (ds == DATASTORE_SUCCESS) { fill(p->object, x.ob, x.ot); x.obj = true; }
                    e.push_back(x); if (prev) prev->next = p; else top = p; prev = p;
                }
                return top;
            }
            case 3: { x.op = HXHIM_DELETE; Delete *p = construct<Delete>(nullptr, x.rs, ds); fill(p->subject, x.s, x.st); fill(p->predicate, x.p, x.pt); e.push_back(x); return p; }
            case 4: { x.op = HXHIM_SYNC; e.push_back(x); return construct<Sync>(nullptr, x.rs, ds); }
            default: { x.op = HXHIM_HISTOGRAM; Hist *p = construct<Hist>(nullptr, x.rs, ds); if (ds == DATASTORE_SUCCESS) { p->histogram = mkhist(r); x.hist = hbytes(*p->histogram); } e.push_back(x); return p; }
        }
    };
    struct L { hxhim::Results *res; std::vector<ER> e; size_t pos = (size_t) -1; bool lost = false; };
    std::vector<L> lists(1 + r.below(3));
    for (auto &l : lists) l.res = construct<hxhim::Results>();
    // what is at the position of the list; adding and appending may invalidate the position (lost) until it is set again
    std::vector<std::pair<void *, std::string>> held; // memory handed out stays valid until the list is destroyed
    auto here = [&](L &l) {
        if (l.lost) return;
        hxhim_results_t cr; cr.hx = nullptr; cr.res = l.res;
        const bool at = l.pos != (size_t) -1;
        if (l.res->ValidIterator() != at || (hxhim_results_valid_iterator(&cr) == HXHIM_SUCCESS) != at) { o.fail("results:position", at ? "the position in the list was lost" : "a list without a position has one"); return; }
        enum hxhim_op_t op = HXHIM_INVALID; int st = -1; void *p = nullptr; size_t z = 0; T t = HXHIM_DATA_INVALID;
        if ((l.res->Op(&op) == HXHIM_SUCCESS) != at || (l.res->Status(&st) == HXHIM_SUCCESS) != at) { o.fail("results:position", "accessors do not agree with the position"); return; }
        if (!at) return;
        const ER &x = l.e[l.pos];
        if (op != x.op || st != x.status) { o.fail("results:position", "at position " + S(l.pos) + " of " + S(l.e.size()) + " is another result"); return; }
        if (l.res->Subject(&p, &z, &t) == HXHIM_SUCCESS) { if (std::string((char *) p, z) != x.s) o.fail("results:position", "another subject at position " + S(l.pos)); held.emplace_back(p, x.s); }
        if (x.obj && l.res->Object(&p, &z, &t) == HXHIM_SUCCESS) { if (std::string((char *) p, z) != x.ob) o.fail("results:position", "another object at position " + S(l.pos)); held.emplace_back(p, x.ob); }
        o.n++;
    };
    auto walk = [&](L &l) {
        hxhim_results_t cr; cr.hx = nullptr; cr.res = l.res;
        const bool c = r.chance(1, 2);
        int rc = HXHIM_SUCCESS;
        if (l.lost || r.chance(1, 4)) { l.lost = false; if (c) rc = hxhim_results_goto_head(&cr); else l.res->GoToHead(); l.pos = l.e.empty() ? (size_t) -1 : 0; }
        else { if (c) rc = hxhim_results_goto_next(&cr); else l.res->GoToNext(); if (l.pos != (size_t) -1 && ++l.pos == l.e.size()) l.pos = (size_t) -1; }
        if (c && (rc == HXHIM_SUCCESS) != (l.pos != (size_t) -1)) o.fail("results:goto", "the return code does not say whether there is a result");
    };
    auto check = [&](L &l) {
        if (l.res->Size() != l.e.size()) { o.fail("results:size", "list reports " + S(l.res->Size()) + " results, has " + S(l.e.size())); return; }
        size_t n = 0; int pokes = 0;
        for (l.res->GoToHead(); l.res->ValidIterator(); l.res->GoToNext()) {
            if (n >= l.e.size()) { o.fail("results:extra", "more results than were added"); break; }
            const ER &x = l.e[n]; std::string at = "result " + S(n) + " of " + S(l.e.size()) + " op " + S(x.op);
            for (int rep = 0; rep < 2; rep++) { // accessors, twice in any order
                enum hxhim_op_t op = HXHIM_INVALID; int st = -1, rs = -1;
                if (l.res->Op(&op) != HXHIM_SUCCESS || op != x.op) o.fail("results:op", at + ": wrong operation " + S(op));
                if (l.res->Status(&st) != HXHIM_SUCCESS || st != x.status) o.fail("results:status", at + ": wrong status " + S(st));
                if (l.res->RangeServer(&rs) != HXHIM_SUCCESS || rs != x.rs) o.fail("results:range-server", at + ": wrong range server");
                bool sp = x.op == HXHIM_PUT || x.op == HXHIM_GET || x.op == HXHIM_GETOP || x.op == HXHIM_DELETE;
                void *p = nullptr; size_t z = 0; T t = HXHIM_DATA_INVALID;
                if ((l.res->Subject(&p, &z, &t) == HXHIM_SUCCESS) != sp) o.fail("results:accessor", at + ": subject available only for triples");
                else if (sp && (std::string((char *) p, z) != x.s || (int) t != x.st)) o.fail("results:subject", at + ": wrong subject");
                p = nullptr; z = 0; t = HXHIM_DATA_INVALID;
                if ((l.res->Predicate(&p, &z, &t) == HXHIM_SUCCESS) != sp) o.fail("results:accessor", at + ": predicate available only for triples");
                else if (sp && (std::string((char *) p, z) != x.p || (int) t != x.pt)) o.fail("results:predicate", at + ": wrong predicate");
                p = nullptr; z = 0; t = HXHIM_DATA_INVALID;
                if ((l.res->Object(&p, &z, &t) == HXHIM_SUCCESS) != x.obj) o.fail("results:accessor", at + ": object available only for successful reads");
                else if (x.obj && (std::string((char *) p, z) != x.ob || (int) t != x.ot)) o.fail("results:object", at + ": wrong object");
                Histogram::Histogram *h = nullptr;
                bool hh = x.op == HXHIM_HISTOGRAM && x.status == HXHIM_SUCCESS;
                if ((l.res->Histogram(&h) == HXHIM_SUCCESS) != hh) o.fail("results:accessor", at + ": histogram available only for successful requests");
                else if (hh && (!h || hbytes(*h) != x.hist)) o.fail("results:histogram", at + ": wrong histogram");
                const char *nm = nullptr; size_t nl = 0, hs = 0, *cn = nullptr; double *bk = nullptr;
                int rc = l.res->Histogram(&nm, &nl, &bk, &cn, &hs);
                if (rc == HXHIM_SUCCESS && !hh) o.fail("results:accessor", at + ": histogram arrays of another kind");
                // null output arguments are allowed
                if (l.res->Op(nullptr) != HXHIM_SUCCESS || l.res->Status(nullptr) != HXHIM_SUCCESS || l.res->RangeServer(nullptr) != HXHIM_SUCCESS) o.fail("results:null-args", at + ": optional arguments refused");
                if (sp && (l.res->Subject(nullptr, nullptr, nullptr) != HXHIM_SUCCESS || l.res->Predicate(nullptr, nullptr, nullptr) != HXHIM_SUCCESS)) o.fail("results:null-args", at + ": optional arguments refused");
                struct hxhim::Result::Timestamps *ts = nullptr;
                if (l.res->Timestamps(&ts) != HXHIM_SUCCESS || !ts) o.fail("results:timestamps", at + ": no timestamps");
                o.n++;
            }
            n++;
            // restarting in the middle does not disturb the list
            if (pokes < 2 && r.chance(1, 12)) { pokes++; n = 0; l.res->GoToHead(); if (!l.res->ValidIterator()) break; enum hxhim_op_t op; l.res->Op(&op); if (op != l.e[0].op) o.fail("results:restart", "restarted list begins elsewhere"); n = 1; }
        }
        if (n != l.e.size()) o.fail("results:lost", "iteration saw " + S(n) + " of " + S(l.e.size()) + " results");
        if (l.res->Op(nullptr) == HXHIM_SUCCESS || l.res->Status(nullptr) == HXHIM_SUCCESS || l.res->Subject(nullptr, nullptr, nullptr) == HXHIM_SUCCESS || l.res->Object(nullptr, nullptr, nullptr) == HXHIM_SUCCESS)
            o.fail("results:past-end", "accessors succeed past the end");
        l.res->GoToNext(); // past the end: no effect
        if (l.res->ValidIterator()) o.fail("results:past-end", "iterator became valid past the end");
        // the C interface over the same list
        hxhim_results_t cr; cr.hx = nullptr; cr.res = l.res;
        size_t cs = 0; if (hxhim_results_size(&cr, &cs) != HXHIM_SUCCESS || cs != l.e.size()) o.fail("results:c-size", "C interface reports another size");
        size_t k = 0;
        for (int g = hxhim_results_goto_head(&cr); g == HXHIM_SUCCESS && hxhim_results_valid_iterator(&cr) == HXHIM_SUCCESS; hxhim_results_goto_next(&cr)) {
            if (k >= l.e.size()) { o.fail("results:c-extra", "C iteration too long"); break; }
            const ER &x = l.e[k++]; enum hxhim_op_t op = HXHIM_INVALID; int st = -1, rs = -1; void *p = nullptr; size_t z = 0; T t = HXHIM_DATA_INVALID;
            if (hxhim_result_op(&cr, &op) != HXHIM_SUCCESS || op != x.op || hxhim_result_status(&cr, &st) != HXHIM_SUCCESS || st != x.status || hxhim_result_range_server(&cr, &rs) != HXHIM_SUCCESS || rs != x.rs) o.fail("results:c-fields", "C accessors disagree");
            bool sp = x.op == HXHIM_PUT || x.op == HXHIM_GET || x.op == HXHIM_GETOP || x.op == HXHIM_DELETE;
            if ((hxhim_result_subject(&cr, &p, &z, &t) == HXHIM_SUCCESS) != sp || (sp && (std::string((char *) p, z) != x.s || (int) t != x.st))) o.fail("results:c-fields", "C subject differs");
            if ((hxhim_result_predicate(&cr, &p, &z, &t) == HXHIM_SUCCESS) != sp || (sp && (std::string((char *) p, z) != x.p || (int) t != x.pt))) o.fail("results:c-fields", "C predicate differs");
            if ((hxhim_result_object(&cr, &p, &z, &t) == HXHIM_SUCCESS) != x.obj || (x.obj && (std::string((char *) p, z) != x.ob || (int) t != x.ot))) o.fail("results:c-fields", "C object differs");
        }
        if (k != l.e.size()) o.fail("results:c-lost", "C iteration saw " + S(k) + " of " + S(l.e.size()));
        l.pos = (size_t) -1; l.lost = false;
    };
    std::string tr;
    for (size_t s = 3 + r.below(25); s && !o.bad; s--) {
        L &l = lists[r.below(lists.size())];
        switch (r.below(13)) {
            case 0: case 1: case 2: { l.res->Add(make(l.e)); l.lost = true; tr += "a"; break; }
            case 3: {
                L &x = lists[r.below(lists.size())];
                if (&x == &l) { l.res->Append(nullptr); break; }
                l.res->Append(x.res); l.e.insert(l.e.end(), x.e.begin(), x.e.end()); x.e.clear(); l.lost = x.lost = true;
                if (x.res->Size()) o.fail("results:append", "the appended list is not empty");
                if (r.chance(1, 3)) { hxhim::Results::Destroy(x.res); x.res = construct<hxhim::Results>(); x.pos = (size_t) -1; x.lost = false; tr += "d"; }
                tr += "p"; break;
            }
            case 4: l.res->Add(nullptr); tr += "n"; break;
            case 5: check(l); tr += "c"; break;
            case 6: case 7: here(l); tr += "h"; break;
            default: walk(l); here(l); tr += "w"; break;
        }
    }
    for (auto &l : lists) { if (!o.bad) check(l); o.mix(l.e.size()); for (auto &x : l.e) { o.mix(x.op); o.mix(x.s); } }
    if (!o.bad) for (auto &h : held) if (memcmp(h.first, h.second.data(), h.second.size())) { o.fail("results:held", "memory of a result changed while its list exists"); break; }
    o.mix(tr);
    o.say(S(lists.size()) + " lists, steps (add, aPpend, Destroy, null, check, here, walk): " + tr);
    for (auto &l : lists) hxhim::Results::Destroy(l.res);
}

int main(int argc, char **argv) {
    Args a = Args::parse(argc, argv);
    mlog_open((char *) "hxhim", 0, MLOG_EMERG, MLOG_EMERG, NULL, 0, 0, 0);
    answer_dir = a.dir;
    void (*fn)(long, Rng &, Obs &) = a.mode == "keys" ? mode_keys : a.mode == "elen" ? mode_elen : a.mode == "msg" ? mode_msg : a.mode == "answer" ? mode_answer : a.mode == "blob" ? mode_blob : a.mode == "histo" ? mode_histo : mode_results;
    static const char *const names[][3] = {{"keys", "keys_encoded", ""}, {"msg", "bytes_packed", ""}, {"answer", "bytes_packed", "records_answered"}, {"histo", "restored", "recounts"}};
    run_cases(a, [&](long c, Rng &rng) {
        Obs o;
        const Rng saved = rng;
        for (int attempt = 0; attempt < 2; attempt++) {
            o = Obs();
            Rng r = saved;
            const long before = g_live;
            fn(c, r, o);
            const long after = g_live;
            if (o.bad || after == before || a.mode == "answer") break; // (storage libraries keep what they like)
            // first use of something that stays allocated (locale facets) shows once
            if (attempt) o.fail((a.mode + ":leak").c_str(), std::to_string(after - before) + " allocations of this case were never released (or released twice, if negative)");
        }
        if (o.bad) out().fail(o.key, o.msg);
        out().stat("comparisons", o.n);
        for (auto &n : names) if (a.mode == n[0]) for (int i = 0; i < 2; i++) if (n[i + 1][0]) out().stat(n[i + 1], o.c[i]);
        if (o.n) out().dist("nontrivial", o.h);
        if (c < 2 || (c % 1000) == 1) out().sample(a.mode + " case " + std::to_string(c) + ": " + std::to_string(o.n) + " comparisons; " + o.desc);
    });
    out().done();
    mlog_close();
    return 0;
}
