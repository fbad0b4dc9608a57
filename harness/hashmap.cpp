// P10 HashMap/HashSet against std::map, P11 hash consistency.
#include <time.h>
#include "common26.hpp"
#include "tracked.hpp"
#include <pystd2026_hashtable.hpp>

// ---- hash algorithms that provoke collisions
struct HConst {
    void feed_bytes(const char *, size_t) noexcept {}
    size_t get_hash_value() const noexcept { return 0; }
    void reset() noexcept {}
};
struct HAllOnes {
    void feed_bytes(const char *, size_t) noexcept {}
    size_t get_hash_value() const noexcept { return ~(size_t)0; }
    void reset() noexcept {}
};
template<unsigned SHIFT, unsigned BITS> struct HBits {
    size_t v = 0;
    void feed_bytes(const char *b, size_t n) noexcept {
        for(size_t i = 0; i < n; i++)
            v = v * 31 + (unsigned char)b[i];
    }
    size_t get_hash_value() const noexcept { return (v & ((size_t(1) << BITS) - 1)) << SHIFT; }
    void reset() noexcept { v = 0; }
};
struct HFnv {
    size_t v = 1469598103934665603ull;
    void feed_bytes(const char *b, size_t n) noexcept {
        for(size_t i = 0; i < n; i++)
            v = (v ^ (unsigned char)b[i]) * 1099511628211ull;
    }
    size_t get_hash_value() const noexcept { return v; }
    void reset() noexcept { v = 1469598103934665603ull; }
};

// ---- key and value types
template<class K> struct KOps;
template<> struct KOps<int32_t> {
    static int32_t mk(int i) { return i * 17 - 40; }
    static int id(const int32_t &k) { return (k + 40) / 17; }
};
template<> struct KOps<uint64_t> {
    static uint64_t mk(int i) { return (uint64_t)i << 33; }
    static int id(const uint64_t &k) { return (int)(k >> 33); }
};
template<> struct KOps<uint8_t> {
    static uint8_t mk(int i) { return (uint8_t)i; }
    static int id(const uint8_t &k) { return k; }
};
template<> struct KOps<P::CString> {
    static P::CString mk(int i) {
        char b[80];
        snprintf(b, sizeof b, i % 3 ? "k%d" : "a key that is long enough to be allocated %d", i);
        return P::CString(b);
    }
    static int id(const P::CString &k) {
        const char *p = strrchr(k.c_str(), ' ');
        return atoi(p ? p + 1 : k.c_str() + 1);
    }
};
template<> struct KOps<P::U8String> {
    static P::U8String mk(int i) {
        char b[80];
        snprintf(b, sizeof b, "\xC3\xA4%d", i);
        return P::U8String(b);
    }
    static int id(const P::U8String &k) { return atoi(k.c_str() + 2); }
};
template<> struct KOps<vt::Tracked> {
    static vt::Tracked mk(int i) { return vt::Tracked(i); }
    static int id(const vt::Tracked &k) { return k.val(); }
};
template<> struct KOps<vt::VeryAligned> {
    static vt::VeryAligned mk(int i) { return vt::VeryAligned(i); }
    static int id(const vt::VeryAligned &k) { return k.val(); }
};

template<class K, class V, class H> struct Hist {
    using Map = P::HashMap<K, V, H>;
    static void check(vh::Case &c, Map &map, const std::map<int, int> &m, int dom, bool full) {
        EXPECT(map.size() == m.size() && map.is_empty() == m.empty(), "size", "size %zu want %zu", map.size(), m.size());
        if(!full)
            return;
        std::map<int, int> seen;
        size_t n = 0;
        auto e = map.end();
        for(auto it = map.begin(); it != e; ++it) {
            auto kv = *it;
            ++n;
            EXPECT(n <= m.size(), "iterate-extra", "iteration yields more than %zu entries", m.size());
            EXPECT((uintptr_t)kv.key % alignof(K) == 0 && (uintptr_t)kv.value % alignof(V) == 0, "alignment", "entry at a misaligned address");
            seen[KOps<K>::id(*kv.key)] = KOps<V>::id(*kv.value);
        }
        EXPECT(seen == m && n == m.size(), "iterate", "iteration gave %zu entries (%zu distinct), want %zu", n, seen.size(), m.size());
        for(int i = 0; i < dom; i++) {
            auto it = m.find(i);
            V *v = map.lookup(KOps<K>::mk(i));
            EXPECT((v != nullptr) == (it != m.end()), "lookup", "lookup of key %d: found %d", i, v != nullptr);
            if(v)
                EXPECT(KOps<V>::id(*v) == it->second, "value", "key %d has value %d want %d", i, KOps<V>::id(*v), it->second);
            EXPECT(map.contains(KOps<K>::mk(i)) == (it != m.end()), "contains", "contains(%d)", i);
        }
    }
    static void run(vh::Case &c) {
        auto &r = c.rng;
        // shape of the history
        int dom = r.chance(1, 4) ? 3 : r.chance(1, 2) ? 24 : 200;
        if(sizeof(K) == 1 && dom > 200)
            dom = 200;
        int steps = r.chance(1, 5) ? 400 + r.below(900) : 10 + r.below(120);
        unsigned rmw = r.below(4); // how removal-heavy
        c.note("domain %d steps %d removals %u", dom, steps, rmw);
        Map *map = new Map;
        std::map<int, int> m;
        struct D {
            Map *&p;
            ~D() { delete p; }
        } d{map};
        int nextv = 1;
        auto nv = [&] { return KOps<V>::mk(nextv % 200); };
        for(int st = 0; st < steps; st++) {
            int k = r.below(dom);
            unsigned op = r.below(20);
            if(op < 8) {
                if(r.below(4) < rmw && r.chance(2, 3))
                    op = 8;
                else
                    op = 0;
            }
            switch(op) {
            case 0: {
                c.note("insert(%d,%d)", k, nextv % 200);
                V &ref = map->insert(KOps<K>::mk(k), nv());
                EXPECT(KOps<V>::id(ref) == nextv % 200, "insert-ref", "insert returned a reference to value %d", KOps<V>::id(ref));
                m[k] = nextv++ % 200;
                break;
            }
            case 8:
            case 9:
            case 10: {
                c.note("remove(%d)", k);
                map->remove(KOps<K>::mk(k));
                m.erase(k);
                break;
            }
            case 11: {
                c.note("[%d]=%d", k, nextv % 200);
                (*map)[KOps<K>::mk(k)] = nv();
                m[k] = nextv++ % 200;
                break;
            }
            case 12: {
                if(m.count(k)) {
                    EXPECT(KOps<V>::id(map->at(KOps<K>::mk(k))) == m[k], "at", "at(%d)", k);
                    EXPECT(KOps<V>::id((*map)[KOps<K>::mk(k)]) == m[k], "index", "[%d]", k);
                } else
                    EXPECT(throws_py([&] { map->at(KOps<K>::mk(k)); }), "at-missing", "at(%d) of a missing key returned", k);
                break;
            }
            case 13: {
                V *v = map->lookup(KOps<K>::mk(k));
                EXPECT((v != nullptr) == (m.count(k) != 0), "lookup", "lookup(%d)", k);
                if(v && r.chance(1, 3)) {
                    *v = nv();
                    m[k] = nextv++ % 200;
                }
                break;
            }
            case 14: {
                if(!m.empty() && r.chance(1, 3)) { // key refers to the map's own storage
                    auto it = map->begin();
                    int n = r.below(m.size());
                    while(n--)
                        ++it;
                    K *own = (*it).key;
                    int id = KOps<K>::id(*own);
                    if(r.chance(1, 2)) {
                        c.note("insert(own key %d,%d)", id, nextv % 200);
                        map->insert(*own, nv());
                        m[id] = nextv++ % 200;
                    } else {
                        c.note("remove(own key %d)", id);
                        map->remove(*own);
                        m.erase(id);
                    }
                }
                break;
            }
            case 15: {
                if(r.chance(1, 8)) {
                    c.note("clear()");
                    map->clear();
                    m.clear();
                }
                break;
            }
            case 16: {
                if(r.chance(1, 5)) {
                    // rounds of filling and emptying: only what removal leaves behind accumulates
                    int rounds = 1 + r.below(r.chance(1, 4) ? 200 : 12), per = 1 + r.below(6);
                    unsigned how = r.below(4);
                    c.note("%d rounds of %d insertions, removals, clear %u", rounds, per, how);
                    for(int q = 0; q < rounds; q++) {
                        int ks[8];
                        for(int j = 0; j < per; j++) {
                            ks[j] = r.below(200);
                            map->insert(KOps<K>::mk(ks[j]), nv());
                            m[ks[j]] = nextv++ % 200;
                        }
                        if(how == 3) { // everything goes, one by one
                            for(auto &x : m)
                                map->remove(KOps<K>::mk(x.first));
                            m.clear();
                        } else
                            for(int j = 0; j < per; j++) {
                                map->remove(KOps<K>::mk(ks[j]));
                                m.erase(ks[j]);
                            }
                        if(how == 1 || (how > 1 && m.empty() && r.chance(1, 3))) {
                            map->clear();
                            m.clear();
                        }
                        int probe = r.below(205);
                        EXPECT(map->contains(KOps<K>::mk(probe)) == (m.count(probe) != 0), "contains", "contains(%d) in a round", probe);
                        EXPECT(map->size() == m.size(), "size", "size %zu want %zu", map->size(), m.size());
                    }
                    c.cover("fill-empty-rounds", rounds);
                } else if(r.chance(1, 6)) {
                    c.note("move construct");
                    Map *n = new Map(P::move(*map));
                    delete map;
                    map = n;
                } else if(r.chance(1, 6)) {
                    c.note("move assign over a filled map");
                    Map *n = new Map;
                    int q = r.below(30);
                    for(int i = 0; i < q; i++)
                        n->insert(KOps<K>::mk(i), KOps<V>::mk(i));
                    *n = P::move(*map);
                    delete map;
                    map = n;
                } else if(r.chance(1, 8)) {
                    c.note("self move assign");
                    Map &alias = *map;
                    alias = P::move(*map);
                }
                break;
            }
            case 17: { // value argument refers to the map's own storage
                if constexpr(requires(V a) { V(a); }) {
                    if(!m.empty()) {
                        int src = std::next(m.begin(), r.below(m.size()))->first;
                        c.note("insert(%d, own value of %d)", k, src);
                        map->insert(KOps<K>::mk(k), *map->lookup(KOps<K>::mk(src)));
                        m[k] = m[src];
                    }
                }
                break;
            }
            case 18: { // the key lives in the map's value storage
                if constexpr(P::is_same_v<K, V>) {
                    if(!m.empty()) {
                        int src = std::next(m.begin(), r.below(m.size()))->first;
                        c.note("insert(key = own value of %d)", src);
                        int id = KOps<K>::id(*map->lookup(KOps<K>::mk(src)));
                        map->insert(*map->lookup(KOps<K>::mk(src)), nv());
                        m[id] = nextv++ % 200;
                    }
                }
                break;
            }
            default:
                check(c, *map, m, dom > 200 ? dom : 200, r.chance(1, 4));
            }
            EXPECT(map->size() == m.size(), "size", "size %zu want %zu", map->size(), m.size());
        }
        check(c, *map, m, 205, true);
        c.cover("map-operations", steps);
        delete map;
        map = nullptr;
    }
};
#define MAPSUITE(name, K, V, H, w)                                                                                     \
    VH_SUITE("P10", name, w) { Hist<K, V, H>::run(c); }
using B0_2 = HBits<0, 2>;
using B6_3 = HBits<6, 3>;
using B58 = HBits<58, 6>;
using B0_6 = HBits<0, 6>;
MAPSUITE(map_int_int, int32_t, int32_t, P::SimpleHash, 2)
MAPSUITE(map_int_const, int32_t, int32_t, HConst, 1)
MAPSUITE(map_int_ones, uint64_t, uint64_t, HAllOnes, 1)
MAPSUITE(map_int_low2, int32_t, uint64_t, B0_2, 1)
MAPSUITE(map_int_bits6, int32_t, P::CString, B6_3, 1)
MAPSUITE(map_u64_high, uint64_t, int32_t, B58, 1)
MAPSUITE(map_int_bloom, uint64_t, int32_t, B0_6, 1)
MAPSUITE(map_byte, uint8_t, uint64_t, HFnv, 1)
MAPSUITE(map_str_int, P::CString, int32_t, P::SimpleHash, 2)
MAPSUITE(map_str_str, P::CString, P::CString, P::SimpleHash, 2)
MAPSUITE(map_u8_str, P::U8String, P::CString, HConst, 1)
VH_SUITE("P10", map_aligned, 1) {
    switch(c.rng.below(3)) {
    case 0:
        return Hist<vt::VeryAligned, uint8_t, P::SimpleHash>::run(c);
    case 1:
        return Hist<uint8_t, vt::VeryAligned, P::SimpleHash>::run(c);
    default:
        return Hist<vt::VeryAligned, vt::VeryAligned, HFnv>::run(c);
    }
}
VH_ALSO(P28, map_aligned, 1)
#define TMAPSUITE(name, K, V, H, w)                                                                                    \
    static void name(vh::Case &c) {                                                                                    \
        vt::mon().reset();                                                                                             \
        Hist<K, V, H>::run(c);                                                                                         \
        vt::verify_none_live(c);                                                                                       \
    }                                                                                                                  \
    static vh::RegS reg9_##name{vh::Suite{"P09", #name, w, name, 0}};                                                  \
    static vh::RegS reg10_##name{vh::Suite{"P10", #name, w, name, 0}};
TMAPSUITE(map_tracked_const, vt::Tracked, vt::Tracked, HConst, 1)
TMAPSUITE(map_tracked, vt::Tracked, vt::Tracked, P::SimpleHash, 1)
TMAPSUITE(map_tracked_low2, vt::Tracked, vt::Tracked, B0_2, 1)

// long churn with few live entries: every operation must terminate
VH_SUITE("P10", map_churn, 1) {
    auto &r = c.rng;
    int live = 1 + r.below(30), rounds = c.thorough ? 4000 : 800;
    c.note("churn: %d live keys, %d rounds", live, rounds);
    P::HashMap<int32_t, int32_t> m;
    std::vector<int> q;
    int next = r.below(1000000);
    for(int i = 0; i < rounds; i++) {
        m.insert(next, i);
        q.push_back(next++);
        if((int)q.size() > live) {
            size_t p = r.chance(1, 2) ? 0 : r.below(q.size());
            m.remove(q[p]);
            EXPECT(!m.contains(q[p]), "churn-removed", "removed key is still there");
            q.erase(q.begin() + p);
        }
        if(i % 16 == 0) {
            EXPECT(m.size() == q.size(), "churn-size", "size %zu want %zu", m.size(), q.size());
            for(int k : q)
                EXPECT(m.contains(k), "churn-lookup", "key %d lost", k);
            EXPECT(!m.contains(-5), "churn-missing", "missing key found");
        }
    }
}

// large tables: many growths, long chains, removal of a random half
VH_SUITE("P10", map_big, 1) {
    auto &r = c.rng;
    if(!r.chance(1, c.thorough ? 2 : 12)) {
        c.note("skipped");
        return;
    }
    size_t n = 1000 + r.below(c.thorough ? 60000 : 9000);
    unsigned mode = r.below(4), shift = r.below(40);
    c.note("%zu keys, mode %u, shift %u", n, mode, shift);
    P::HashMap<uint64_t, uint32_t> m;
    std::vector<uint64_t> keys(n);
    std::set<uint64_t> uniq;
    for(size_t i = 0; i < n; i++) {
        keys[i] = mode == 0 ? i : mode == 1 ? (uint64_t)i << shift : mode == 2 ? r.next() : i * 0x10001;
        uniq.insert(keys[i]);
    }
    keys.assign(uniq.begin(), uniq.end());
    n = keys.size();
    for(size_t i = n; i > 1; i--)
        std::swap(keys[i - 1], keys[r.below(i)]);
    for(size_t i = 0; i < n; i++)
        m.insert(keys[i], (uint32_t)i);
    EXPECT(m.size() == n, "size", "size %zu want %zu", m.size(), n);
    for(size_t i = 0; i < n; i++) {
        auto *v = m.lookup(keys[i]);
        EXPECT(v && *v == i, "lookup", "key %llu", (unsigned long long)keys[i]);
    }
    std::vector<bool> gone(n);
    size_t left = n;
    for(size_t i = 0; i < n; i++)
        if(r.chance(1, 2)) {
            m.remove(keys[i]);
            gone[i] = true;
            --left;
        }
    EXPECT(m.size() == left, "size", "size %zu want %zu", m.size(), left);
    for(size_t i = 0; i < n; i++) {
        auto *v = m.lookup(keys[i]);
        EXPECT(gone[i] ? !v : v && *v == i, "lookup", "key %llu after removals", (unsigned long long)keys[i]);
    }
    size_t k = 0;
    auto e = m.end();
    for(auto it = m.begin(); it != e; ++it)
        ++k;
    EXPECT(k == left, "iterate", "iteration gave %zu of %zu", k, left);
    c.cover("large-table-keys", n);
}

template<class K, class H> static void set_history(vh::Case &c) {
    auto &r = c.rng;
    P::HashSet<K, H> s;
    std::set<int> m;
    int dom = r.chance(1, 2) ? 20 : 150;
    int steps = 10 + r.below(200);
    for(int st = 0; st < steps; st++) {
        int k = r.below(dom);
        switch(r.below(8)) {
        case 0:
        case 1:
        case 2: {
            c.note("insert %d", k);
            bool isnew = m.insert(k).second;
            auto res = s.insert(KOps<K>::mk(k));
            EXPECT(res.second == isnew, "set-insert", "insert(%d) reported %d", k, res.second);
            break;
        }
        case 3:
        case 4:
            c.note("remove %d", k);
            s.remove(KOps<K>::mk(k));
            m.erase(k);
            break;
        case 5:
            if(r.chance(1, 10)) {
                c.note("clear");
                s.clear();
                m.clear();
            } else if(r.chance(1, 10)) {
                int rounds = 1 + r.below(r.chance(1, 4) ? 150 : 12);
                unsigned how = r.below(3);
                c.note("%d rounds of insertion and removal, clear %u", rounds, how);
                for(int q = 0; q < rounds; q++) {
                    int key = r.below(200);
                    s.insert(KOps<K>::mk(key));
                    s.remove(KOps<K>::mk(key));
                    m.erase(key);
                    if(how == 1 || (how == 2 && m.empty())) {
                        s.clear();
                        m.clear();
                    }
                    EXPECT(!s.contains(KOps<K>::mk(key)), "set-contains", "contains(%d) after removal", key);
                }
            }
            break;
        case 6: {
            std::set<int> got;
            size_t n = 0;
            auto e = s.end();
            for(auto it = s.begin(); it != e; ++it) {
                ++n;
                got.insert(KOps<K>::id(*it));
                EXPECT(n <= m.size(), "set-iterate", "too many entries");
            }
            EXPECT(got == m && n == m.size(), "set-iterate", "iteration gave %zu of %zu", n, m.size());
            if(r.chance(1, 6)) {
                c.note("move");
                P::HashSet<K, H> t(P::move(s));
                P::HashSet<K, H> u;
                u.insert(KOps<K>::mk(1));
                u = P::move(t);
                s = P::move(u);
            }
            break;
        }
        default:
            EXPECT(s.contains(KOps<K>::mk(k)) == (m.count(k) != 0), "set-contains", "contains(%d)", k);
        }
        EXPECT(s.size() == m.size() && s.is_empty() == m.empty(), "set-size", "size %zu want %zu", s.size(), m.size());
    }
    for(int k = 0; k < dom; k++)
        EXPECT(s.contains(KOps<K>::mk(k)) == (m.count(k) != 0), "set-contains", "contains(%d)", k);
}
VH_SUITE("P10", set_int, 1) { set_history<int32_t, P::SimpleHash>(c); }
VH_SUITE("P10", set_str, 1) { set_history<P::CString, P::SimpleHash>(c); }
VH_SUITE("P10", set_const, 1) { set_history<P::CString, HConst>(c); }
static void set_tracked(vh::Case &c) {
    vt::mon().reset();
    set_history<vt::Tracked, B0_2>(c);
    vt::verify_none_live(c);
}
static vh::RegS r9st{vh::Suite{"P09", "set_tracked", 1, set_tracked, 0}};
static vh::RegS r10st{vh::Suite{"P10", "set_tracked", 1, set_tracked, 0}};

// ------------------------------------------------------------------ P11
static std::string *rec_sink;
struct Recorder { // records exactly what is fed
    void feed_bytes(const char *b, size_t n) noexcept {
        if(rec_sink)
            rec_sink->append(b, n);
    }
    size_t get_hash_value() const noexcept { return 7; }
    void reset() noexcept {}
};
template<class T> static std::string fed(const T &o) {
    std::string s;
    rec_sink = &s;
    P::Hasher<Recorder> h;
    h.feed_hash(o);
    rec_sink = nullptr;
    return s;
}
template<class H, class T> static size_t hv(const T &o) {
    P::Hasher<H> h;
    h.feed_hash(o);
    return h.get_hash_value();
}
VH_SUITE("P11", string_hashes, 3) {
    auto &r = c.rng;
    for(int k = 0; k < 6; k++) {
        std::string s = gtext(r, gsize(r, 200));
        // make it UTF-8 often so that the U8 types take part
        bool u8 = true;
        for(auto &ch : s)
            if((unsigned char)ch >= 0x80) {
                if(r.chance(1, 2))
                    ch = 'x';
            }
        if(r.chance(1, 4))
            s += "\xC3\xA4\xF0\x9F\x92\xA9\xE2\x82\xAC";
        vh::Exact e(s);
        c.note("text %s", vh::show(s).c_str());
        c.mixs(s.data(), s.size());
        P::CStringView v(e.p, e.n);
        P::CString cs(e.p, e.n);
        P::CString roomy(cs);
        roomy.reserve(1000);
        roomy += "zz";
        roomy.remove(roomy.size() - 2, roomy.size());
        P::ZStringView z(cs.c_str());
        std::string want = fed(v);
        EXPECT(fed(cs) == want, "feed-cstring", "CString feeds %s, view %s", vh::show(fed(cs)).c_str(), vh::show(want).c_str());
        EXPECT(fed(roomy) == want, "feed-capacity", "fed data depends on the capacity");
        EXPECT(fed(z) == want, "feed-zview", "ZStringView feeds %s, CStringView %s", vh::show(fed(z)).c_str(), vh::show(want).c_str());
        EXPECT(fed(cs.view()) == want, "feed-view", "view of CString differs");
        EXPECT(fed(v) == want, "feed-twice", "second feed differs");
        size_t h = hv<P::SimpleHash>(v);
        EXPECT(hv<P::SimpleHash>(cs) == h && hv<P::SimpleHash>(z) == h && hv<P::SimpleHash>(roomy) == h && hv<P::SimpleHash>(v) == h,
               "hash-equal", "SimpleHash of equal strings differs");
        // part of a larger string
        std::string big = "pre" + s + "post";
        vh::Exact be(big);
        EXPECT(fed(P::CStringView(be.p + 3, s.size())) == want, "feed-substring", "substring view feeds differently");
        P::Bytes by(e.p, e.n);
        EXPECT(hv<P::SimpleHash>(by) == hv<P::SimpleHash>(P::Bytes(by)), "hash-bytes", "copies of Bytes hash differently");
        {
            // the same bytes after a different history
            std::string junk = gbytes(r, 1 + r.below(9));
            P::Bytes hist(r.below(300) + 1);
            hist.append(junk.data(), junk.data() + junk.size());
            P::Bytes body(e.p, e.n);
            hist += body;
            hist.append(junk.data(), junk.data() + junk.size());
            hist.pop_back(junk.size());
            hist.pop_front(junk.size());
            EXPECT(hist == by, "hash-bytes", "the histories do not end in the same bytes");
            EXPECT(fed(hist) == fed(by) && hv<P::SimpleHash>(hist) == hv<P::SimpleHash>(by), "hash-bytes",
                   "equal Bytes with different histories feed %s and %s", vh::show(fed(hist)).c_str(), vh::show(fed(by)).c_str());
        }
        try {
            P::U8String us(e.p, e.n);
            EXPECT(fed(us) == want && hv<P::SimpleHash>(us) == h, "feed-u8string", "U8String feeds differently");
            EXPECT(fed(us.view()) == want && hv<P::SimpleHash>(us.view()) == h, "feed-u8view", "U8StringView feeds differently");
            c.cover("utf8-texts");
        } catch(const P::PyException &) {
            u8 = false;
        }
        (void)u8;
        // every byte matters
        if(!s.empty()) {
            std::string t = s;
            size_t p = r.below(t.size());
            do
                t[p] = (char)(1 + r.below(255));
            while(t[p] == s[p]);
            vh::Exact te(t);
            EXPECT(fed(P::CStringView(te.p, te.n)) != want, "feed-ignores-byte", "byte %zu is not fed", p);
            EXPECT(hv<P::SimpleHash>(P::CStringView(te.p, te.n)) != h, "hash-ignores-byte", "SimpleHash ignores byte %zu of %zu", p, s.size());
            EXPECT(fed(P::CString(te.p, te.n)) != want, "feed-ignores-byte", "byte %zu is not fed", p);
        }
        {
            std::string t = s + "q";
            EXPECT(fed(P::CString(t.data(), t.size())) != want, "feed-ignores-length", "longer string feeds the same");
            EXPECT(hv<P::SimpleHash>(P::CString(t.data(), t.size())) != h, "hash-ignores-length", "longer string hashes the same");
        }
        // how the bytes are chunked does not matter, nor does an earlier use of a reset hasher
        P::SimpleHash a, b;
        a.feed_bytes(e.p, e.n);
        size_t pos = 0;
        while(pos < e.n) {
            size_t n = 1 + r.below(e.n - pos);
            b.feed_bytes(e.p + pos, n);
            pos += n;
        }
        EXPECT(a.get_hash_value() == b.get_hash_value(), "hash-chunks", "chunking changes the hash");
        EXPECT(a.get_hash_value() == a.get_hash_value(), "hash-get", "get_hash_value changes the state");
        P::SimpleHash fresh;
        a.reset();
        EXPECT(a.get_hash_value() == fresh.get_hash_value(), "hash-reset", "reset hasher differs from a fresh one");
        a.feed_bytes(e.p, e.n);
        EXPECT(a.get_hash_value() == b.get_hash_value(), "hash-reset", "hash after a reset differs");
        P::Hasher<P::SimpleHash> hr;
        hr.feed_hash(cs);
        hr.reset();
        hr.feed_hash(v);
        EXPECT(hr.get_hash_value() == h, "hasher-reset", "Hasher::reset");
    }
}
template<class T> static void int_hash(vh::Case &c, T a, T b) {
    std::string fa = fed(a), fb = fed(b);
    EXPECT((fa == fb) == (a == b), "int-feed", "integers of %zu bytes: equal data for different values", sizeof(T));
    EXPECT(fed(a) == fa, "int-feed", "second feed differs");
    EXPECT(fa.size() == sizeof(T), "int-feed-size", "%zu byte integer feeds %zu bytes", sizeof(T), fa.size());
    EXPECT((hv<P::SimpleHash>(a) == hv<P::SimpleHash>(b)) == (a == b), "int-hash", "hash of %zu byte integers", sizeof(T));
}
VH_SUITE("P11", integer_hashes, 1) {
    auto &r = c.rng;
    for(int k = 0; k < 20; k++) {
        uint64_t a = r.next(), b = r.chance(1, 3) ? a : a ^ (1ull << r.below(64));
        c.mix(a);
        c.mix(b);
        // keep the low byte non-zero so that SimpleHash has no leading zeros
        a |= 1;
        b |= 1;
        int_hash<int8_t>(c, a, b);
        int_hash<uint8_t>(c, a, b);
        int_hash<int16_t>(c, a, b);
        int_hash<uint16_t>(c, a, b);
        int_hash<int32_t>(c, a, b);
        int_hash<uint32_t>(c, a, b);
        int_hash<int64_t>(c, a, b);
        int_hash<uint64_t>(c, a, b);
    }
    c.note("20 pairs of integers of every width");
}

// ------------------------------------------------------------------ P16
// With a hash that spreads well, the number of key comparisons per operation stays small whatever
// the history: the table grows in time and gets rid of tombstones.
static uint64_t key_cmps, key_hashes, key_copies;
static double cpu_seconds() {
    struct timespec t;
    clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
struct CntKey {
    uint64_t v = 0;
    CntKey() = default;
    explicit CntKey(uint64_t v) noexcept : v(v) {}
    CntKey(const CntKey &o) noexcept : v(o.v) { ++key_copies; }
    CntKey(CntKey &&o) noexcept : v(o.v) { ++key_copies; }
    CntKey &operator=(const CntKey &o) noexcept {
        v = o.v;
        ++key_copies;
        return *this;
    }
    bool operator==(const CntKey &o) const noexcept {
        ++key_cmps;
        return v == o.v;
    }
    template<class Hs> void feed_hash(Hs &h) const noexcept {
        ++key_hashes;
        h.feed_bytes((const char *)&v, sizeof v);
    }
};
VH_SUITE("P16", hashmap_steps, 1) {
    auto &r = c.rng;
    size_t n = c.thorough ? 5000 + r.below(60000) : r.chance(1, 6) ? 60000 + r.below(60000) : 3000 + r.below(9000);
    unsigned mode = r.below(3);
    c.note("%zu keys, mode %u", n, mode);
    P::HashMap<CntKey, uint32_t, HFnv> m;
    std::vector<uint64_t> live;
    uint64_t next = r.next();
    auto fresh = [&] { return mode == 0 ? next++ : mode == 1 ? next += (1u << 20) : r.next(); };
    double worst = 0;
    auto phase = [&](const char *what, size_t ops, double limit, auto &&f) {
        key_cmps = key_hashes = key_copies = 0;
        const double t0 = cpu_seconds();
        for(size_t i = 0; i < ops; i++)
            f();
        const double spent = cpu_seconds() - t0;
        double avg = ops ? (double)key_cmps / ops : 0;
        if(ops >= 500) {
            EXPECT(key_hashes <= 24 * ops, "hashmap-steps", "%s: %.1f key hashes per operation on average", what, (double)key_hashes / ops);
            EXPECT(key_copies <= 24 * ops, "hashmap-steps", "%s: %.1f key copies per operation on average", what, (double)key_copies / ops);
            // Walking past slots in use or once used calls nothing of the key; a whole table is hundreds of times
            // the work of a normal operation, which takes about a microsecond here.
            if(n >= 30000 && !vh::on_valgrind())
                EXPECT(spent <= 200e-6 * ops, "hashmap-steps", "%s: %.0f microseconds per operation", what, spent / ops * 1e6);
        }
        worst = std::max(worst, avg);
        if(ops >= 500)
            EXPECT(avg <= limit, "hashmap-steps", "%s: %.1f key comparisons per operation on average, limit %.0f", what, avg, limit);
        c.cover("hash-operations", ops);
    };
    auto ins = [&] {
        uint64_t k = fresh();
        m.insert(CntKey{k}, 1);
        live.push_back(k);
    };
    auto del = [&] {
        size_t i = r.below(live.size());
        m.remove(CntKey{live[i]});
        live[i] = live.back();
        live.pop_back();
    };
    phase("filling", n, 16, ins);
    phase("finding", n, 8, [&] { m.lookup(CntKey{live[r.below(live.size())]}); });
    phase("missing", n, 8, [&] { m.lookup(CntKey{r.next()}); });
    phase("emptying", n - n / 10, 8, del);
    phase("finding after removals", n, 8, [&] { m.lookup(CntKey{live[r.below(live.size())]}); });
    phase("missing after removals", n, 8, [&] { m.lookup(CntKey{r.next()}); });
    phase("churn", 2 * n, 24, [&] {
        ins();
        del();
    });
    phase("missing after churn", n, 8, [&] { m.lookup(CntKey{r.next()}); });
    EXPECT(m.size() == live.size(), "size", "size %zu want %zu", m.size(), live.size());
    c.mix((uint64_t)(worst * 100));
    c.cover("hashmap-worst-average-x100", (uint64_t)(worst * 100));
}
