// P12 BTree, BTreeSet, BTreeMap against std::set / std::map.
#include "common26.hpp"
#include "tracked.hpp"
#include <pystd2026_btree.hpp>
#include <cmath>

template<class K> struct KO;
template<> struct KO<int> {
    static int mk(int i) { return i * 3 - 50; }
    static int id(const int &v) { return (v + 50) / 3; }
};
template<> struct KO<uint64_t> {
    static uint64_t mk(int i) { return 0x8000000000000000ull + (uint64_t)i; }
    static int id(const uint64_t &v) { return (int)(v - 0x8000000000000000ull); }
};
template<> struct KO<P::CString> {
    static P::CString mk(int i) {
        char b[64];
        snprintf(b, sizeof b, i % 2 ? "%06d" : "%06d with a long tail so that it is allocated", i);
        return P::CString(b);
    }
    static int id(const P::CString &v) { return atoi(v.c_str()); }
};
template<> struct KO<vt::Tracked> {
    static vt::Tracked mk(int i) { return vt::Tracked(i); }
    static int id(const vt::Tracked &v) { return v.val(); }
};
template<> struct KO<vt::VeryAligned> {
    static vt::VeryAligned mk(int i) { return vt::VeryAligned(i); }
    static int id(const vt::VeryAligned &v) { return v.val(); }
};
// equal keys carry distinguishable payloads: re-insertion keeps one of them
struct Pair {
    int k = 0, tag = 0;
    bool operator==(const Pair &o) const noexcept { return k == o.k; }
    bool operator<(const Pair &o) const noexcept { return k < o.k; }
    int operator<=>(const Pair &o) const noexcept { return k < o.k ? -1 : k > o.k; }
};
template<> struct KO<Pair> {
    static Pair mk(int i) { return Pair{i, 0}; }
    static int id(const Pair &v) { return v.k; }
};

template<class T, class M> static void tree_same(vh::Case &c, T &t, const M &m, int dom) {
    using K = P::remove_cvref_t<decltype(*t.begin())>;
    EXPECT(t.size() == m.size() && (bool)t.is_empty() == m.empty(), "size", "size %zu want %zu", t.size(), m.size());
    auto it = m.begin();
    size_t n = 0;
    for(auto &v : t) {
        EXPECT(it != m.end(), "iterate-extra", "traversal yields more than %zu values", m.size());
        EXPECT((uintptr_t)&v % alignof(K) == 0, "alignment", "value at a misaligned address");
        EXPECT(KO<K>::id(v) == *it, "iterate", "traversal item %zu is %d want %d", n, KO<K>::id(v), *it);
        ++it;
        ++n;
    }
    EXPECT(it == m.end(), "iterate-short", "traversal yields %zu of %zu values", n, m.size());
    for(int i = -1; i <= dom; i++) {
        auto *p = t.lookup(KO<K>::mk(i));
        EXPECT((p != nullptr) == (m.count(i) != 0), "lookup", "lookup(%d) found %d", i, p != nullptr);
        if(p)
            EXPECT(KO<K>::id(*p) == i, "lookup-value", "lookup(%d) gave %d", i, KO<K>::id(*p));
        EXPECT(t.contains(KO<K>::mk(i)) == (m.count(i) != 0), "contains", "contains(%d)", i);
    }
}
template<class K, size_t E> static void tree_history(vh::Case &c) {
    auto &r = c.rng;
    using T = P::BTree<K, E>;
    T *t = new T;
    struct D {
        T *&p;
        ~D() { delete p; }
    } d{t};
    std::set<int> m;
    int dom = r.chance(1, 3) ? 8 : r.chance(1, 2) ? 60 : 250;
    int steps = r.chance(1, 6) ? 500 + r.below(800) : 20 + r.below(150);
    c.note("fan-out %zu domain %d steps %d", E, dom, steps);
    if(r.chance(1, 4))
        t->reserve(r.below(100));
    int seqpos = 0;
    unsigned phase = 0;
    for(int s = 0; s < steps; s++) {
        if(s % 60 == 0)
            phase = r.below(6);
        int k = r.below(dom);
        bool ins;
        switch(phase) {
        case 0: // ascending inserts
            ins = true;
            k = seqpos++ % dom;
            break;
        case 1: // descending inserts
            ins = true;
            k = dom - 1 - seqpos++ % dom;
            break;
        case 2:
            ins = r.chance(1, 4);
            break;
        case 3: // drain from one end
            ins = false;
            if(!m.empty())
                k = *m.begin();
            break;
        case 4:
            ins = false;
            if(!m.empty())
                k = r.chance(1, 2) ? *m.rbegin() : *std::next(m.begin(), m.size() / 2);
            break;
        default:
            ins = r.chance(3, 5);
        }
        if(ins) {
            c.note("insert %d", k);
            if(r.chance(1, 2))
                t->insert(KO<K>::mk(k));
            else {
                K v = KO<K>::mk(k);
                t->insert(v);
            }
            m.insert(k);
        } else if(r.chance(1, 8) && m.count(k)) {
            c.note("remove own element %d", k);
            t->remove(*t->lookup(KO<K>::mk(k)));
            m.erase(k);
        } else {
            c.note("remove %d", k);
            t->remove(KO<K>::mk(k));
            m.erase(k);
        }
        if(r.chance(1, 60) && !m.empty()) {
            int e = *std::next(m.begin(), r.below(m.size()));
            c.note("insert own element %d", e);
            t->insert(*t->lookup(KO<K>::mk(e)));
        }
        if(r.chance(1, 80)) {
            c.note("move");
            T *n = new T(P::move(*t));
            delete t;
            t = n;
            if(r.chance(1, 2)) {
                T *n2 = new T;
                for(int i = 0; i < 10; i++)
                    n2->insert(KO<K>::mk(i));
                *n2 = P::move(*t);
                delete t;
                t = n2;
            }
        }
        if(r.chance(1, 12) || s + 1 == steps)
            tree_same(c, *t, m, dom);
        else {
            EXPECT(t->size() == m.size(), "size", "size %zu want %zu", t->size(), m.size());
            EXPECT((t->lookup(KO<K>::mk(k)) != nullptr) == (m.count(k) != 0), "lookup", "lookup(%d) after the operation", k);
        }
    }
    // drain completely, then use again
    if(r.chance(1, 2)) {
        unsigned how = r.below(3);
        c.note("drain %u", how);
        while(!m.empty()) {
            int k = how == 0 ? *m.begin() : how == 1 ? *m.rbegin() : *std::next(m.begin(), r.below(m.size()));
            c.note("remove %d", k);
            t->remove(KO<K>::mk(k));
            m.erase(k);
            EXPECT(t->size() == m.size(), "size", "size %zu want %zu while draining", t->size(), m.size());
            if(r.chance(1, 10))
                tree_same(c, *t, m, dom);
        }
        tree_same(c, *t, m, dom);
        for(int i = 0; i < 20; i++) {
            int k = r.below(dom);
            c.note("insert %d", k);
            t->insert(KO<K>::mk(k));
            m.insert(k);
        }
        tree_same(c, *t, m, dom);
    }
    c.cover("tree-operations", steps);
}
#define TREE(name, K, E, w) VH_SUITE("P12", name, w) { tree_history<K, E>(c); }
TREE(tree_int3, int, 3, 2)
TREE(tree_int5, int, 5, 2)
TREE(tree_int7, int, 7, 1)
TREE(tree_u64_9, uint64_t, 9, 1)
TREE(tree_int31, int, 31, 1)
TREE(tree_str3, P::CString, 3, 1)
TREE(tree_str5, P::CString, 5, 1)
TREE(tree_str11, P::CString, 11, 1)
TREE(tree_pair5, Pair, 5, 1)
TREE(tree_aligned3, vt::VeryAligned, 3, 1)
template<size_t E> static void tracked_tree(vh::Case &c) {
    vt::mon().reset();
    tree_history<vt::Tracked, E>(c);
    vt::verify_none_live(c);
}
static void tree_tracked3(vh::Case &c) { tracked_tree<3>(c); }
static void tree_tracked5(vh::Case &c) { tracked_tree<5>(c); }
static void tree_tracked9(vh::Case &c) { tracked_tree<9>(c); }
#define TT(n)                                                                                                          \
    static vh::RegS a##n{vh::Suite{"P09", #n, 1, n, 0}};                                                               \
    static vh::RegS b##n{vh::Suite{"P12", #n, 1, n, 0}};
TT(tree_tracked3)
TT(tree_tracked5)
TT(tree_tracked9)

// bigger trees: at least four levels
VH_SUITE("P12", tree_big, 1) {
    auto &r = c.rng;
    int n = 200 + r.below(c.thorough ? 6000 : 1200);
    unsigned order = r.below(4);
    c.note("big tree: %d values, order %u", n, order);
    std::vector<int> v(n);
    for(int i = 0; i < n; i++)
        v[i] = i;
    if(order == 1)
        std::reverse(v.begin(), v.end());
    if(order >= 2)
        for(int i = n; i > 1; i--)
            std::swap(v[i - 1], v[r.below(i)]);
    P::BTree<int, 3> t3;
    P::BTree<int, 7> t7;
    std::set<int> m;
    for(int x : v) {
        t3.insert(KO<int>::mk(x));
        t7.insert(KO<int>::mk(x));
        m.insert(x);
    }
    tree_same(c, t3, m, n);
    tree_same(c, t7, m, n);
    unsigned rem = r.below(4);
    for(int i = n; i > 1 && rem >= 2; i--)
        std::swap(v[i - 1], v[r.below(i)]);
    size_t left = r.below(n);
    size_t done = 0;
    while(m.size() > left) {
        int k = rem == 0 ? *m.begin() : rem == 1 ? *m.rbegin() : v[done];
        ++done;
        c.note("remove %d", k);
        t3.remove(KO<int>::mk(k));
        t7.remove(KO<int>::mk(k));
        m.erase(k);
        if(done % 97 == 0) {
            tree_same(c, t3, m, n);
            tree_same(c, t7, m, n);
        }
    }
    tree_same(c, t3, m, n);
    tree_same(c, t7, m, n);
    c.cover("big-tree-values", n);
}

template<size_t E> static void set_map_history(vh::Case &c) {
    auto &r = c.rng;
    P::BTreeSet<P::CString, E> s;
    P::BTreeMap<int, P::CString, E> mp;
    std::set<int> m;
    std::map<int, int> mm;
    int dom = r.chance(1, 2) ? 12 : 80;
    int steps = 20 + r.below(150);
    for(int st = 0; st < steps; st++) {
        int k = r.below(dom);
        switch(r.below(6)) {
        case 0:
        case 1:
            c.note("set insert %d", k);
            s.insert(KO<P::CString>::mk(k));
            m.insert(k);
            break;
        case 2:
            c.note("set remove %d", k);
            s.remove(KO<P::CString>::mk(k));
            m.erase(k);
            break;
        case 3:
        case 4:
            c.note("map insert %d=%d", k, st);
            mp.insert(k, KO<P::CString>::mk(st));
            mm[k] = st;
            break;
        default:
            c.note("map remove %d", k);
            mp.remove(k);
            mm.erase(k);
        }
        EXPECT(s.size() == m.size() && s.is_empty() == m.empty(), "set-size", "size %zu want %zu", s.size(), m.size());
        EXPECT(s.contains(KO<P::CString>::mk(k)) == (m.count(k) != 0), "set-contains", "contains(%d)", k);
        auto *p = mp.lookup(k);
        EXPECT((p != nullptr) == (mm.count(k) != 0), "map-lookup", "lookup(%d)", k);
        if(p)
            EXPECT(KO<P::CString>::id(*p) == mm[k], "map-value", "value of %d is %d want %d", k, KO<P::CString>::id(*p), mm[k]);
        if(p && r.chance(1, 5)) {
            *p = KO<P::CString>::mk(st + 5000);
            mm[k] = st + 5000;
        }
    }
    for(int k = -1; k <= dom; k++) {
        EXPECT(s.contains(KO<P::CString>::mk(k)) == (m.count(k) != 0), "set-contains", "contains(%d)", k);
        auto *p = mp.lookup(k);
        EXPECT((p != nullptr) == (mm.count(k) != 0) && (!p || KO<P::CString>::id(*p) == mm[k]), "map-lookup", "lookup(%d)", k);
    }
}
VH_SUITE("P12", setmap3, 1) { set_map_history<3>(c); }
VH_SUITE("P12", setmap7, 1) { set_map_history<7>(c); }

// ------------------------------------------------------------------ P16: steps per operation
static uint64_t ncmp;
struct Cnt {
    int v = 0;
    bool operator==(const Cnt &o) const noexcept {
        ++ncmp;
        return v == o.v;
    }
    bool operator<(const Cnt &o) const noexcept {
        ++ncmp;
        return v < o.v;
    }
    int operator<=>(const Cnt &o) const noexcept {
        ++ncmp;
        return v < o.v ? -1 : v > o.v;
    }
};
template<size_t E> static void tree_steps(vh::Case &c) {
    auto &r = c.rng;
    int n = 50 + r.below(c.thorough ? 20000 : 3000);
    unsigned order = r.below(3);
    c.note("fan-out %zu, %d values, order %u", E, n, order);
    P::BTree<Cnt, E> t;
    std::vector<int> v(n);
    for(int i = 0; i < n; i++)
        v[i] = order == 1 ? n - i : i;
    if(order == 2)
        for(int i = n; i > 1; i--)
            std::swap(v[i - 1], v[r.below(i)]);
    // height of a B-tree of n values with at least floor(E/2) values per node
    double h = log((n + 2) / 2.0) / log(E / 2 + 1) + 2;
    double per_node = log2(E) + 4;
    uint64_t lim_lookup = 3 * h * per_node + 20, lim_insert = 3 * h * (2 * per_node + 6) + 30, lim_remove = 4 * h * (4 * per_node + 10) + 60;
    uint64_t worst = 0;
    for(int i = 0; i < n; i++) {
        ncmp = 0;
        t.insert(Cnt{v[i]});
        worst = std::max(worst, ncmp);
        EXPECT(ncmp <= lim_insert, "btree-insert-steps", "%llu comparisons in one insert, n %d limit %llu", (unsigned long long)ncmp, i, (unsigned long long)lim_insert);
    }
    for(int i = 0; i < 200; i++) {
        ncmp = 0;
        (void)t.lookup(Cnt{(int)r.below(n + 2)});
        EXPECT(ncmp <= lim_lookup, "btree-lookup-steps", "%llu comparisons in one lookup of %d values, limit %llu", (unsigned long long)ncmp, n,
               (unsigned long long)lim_lookup);
    }
    for(int i = 0; i < n; i++) {
        ncmp = 0;
        t.remove(Cnt{v[(i * 7) % n]});
        EXPECT(ncmp <= lim_remove, "btree-remove-steps", "%llu comparisons in one remove, n %d limit %llu", (unsigned long long)ncmp, n,
               (unsigned long long)lim_remove);
    }
    c.cover("btree-insert-max-comparisons", worst);
}
VH_SUITE("P16", btree_steps3, 1) { tree_steps<3>(c); }
VH_SUITE("P16", btree_steps11, 1) { tree_steps<11>(c); }
VH_SUITE("P16", btree_steps63, 1) { tree_steps<63>(c); }
