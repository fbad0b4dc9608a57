// Exceptions out of user code: element copies, conversions, iterators, comparators and predicates that throw
// at some step.  Whatever was constructed must still be destroyed exactly once, nothing may leak, and the
// containers must stay usable and consistent.
#include "common26.hpp"
#include "tracked.hpp"
#include <map>
#include <set>
#include <memory>
#include <pystd2026_btree.hpp>
#include <pystd2026_hashtable.hpp>
#include <pystd2026_heapsort.hpp>
#include <pystd2026_introsort.hpp>
#include <pystd2026_mergesort.hpp>
#include <pystd2026_nth_element.hpp>
#include <pystd2026_partial_sort.hpp>
#include <pystd2026_rotate.hpp>
#include <pystd2026_shellsort.hpp>
#include <pystd2026_stablepartition.hpp>
#include <pystd2026_variant.hpp>
using vh::Case;

namespace {
struct Boom {};
long fuse = -1; // steps until the next throw, -1: never
uint64_t thrown;
void step() {
    if(fuse > 0 && --fuse == 0) {
        fuse = -1;
        ++thrown;
        throw Boom{};
    }
}
// copying may throw, moving may not
struct Fickle {
    vt::Tracked t;
    Fickle() noexcept {}
    Fickle(int v) noexcept : t(v) {}
    Fickle(const Fickle &o) : t((step(), o.t)) {}
    Fickle(Fickle &&o) noexcept : t(P::move(o.t)) {}
    Fickle &operator=(const Fickle &o) {
        step();
        t = o.t;
        return *this;
    }
    Fickle &operator=(Fickle &&o) noexcept {
        t = P::move(o.t);
        return *this;
    }
    int val() const { return t.val(); }
    bool operator==(const Fickle &o) const { return val() == o.val(); }
    bool operator<(const Fickle &o) const { return val() < o.val(); }
    int operator<=>(const Fickle &o) const { return val() < o.val() ? -1 : val() > o.val(); }
    template<typename H> void feed_hash(H &h) const { h.feed_hash((int32_t)(val() % 7)); }
};
// converting from this may throw
struct Source {
    int v;
    operator Fickle() const {
        step();
        return Fickle(v);
    }
};
template<typename F> bool blows(F f) {
    try {
        f();
    } catch(const Boom &) {
        fuse = -1;
        return true;
    } catch(const P::PyException &) {
        fuse = -1;
        return true;
    }
    fuse = -1;
    return false;
}
struct ThrowCmp {
    bool down = false;
    int compare(const vt::Tracked &a, const vt::Tracked &b) const {
        step();
        int x = a.val(), y = b.val();
        int r = x < y ? -1 : x > y;
        return down ? -r : r;
    }
    bool equal(const vt::Tracked &a, const vt::Tracked &b) const { return compare(a, b) == 0; }
};
struct ThrowPred {
    int lim;
    bool operator()(const vt::Tracked &a) const {
        step();
        return a.val() < lim;
    }
};
const char bad_text[] = "\xC3\x28";
} // namespace

VH_SUITE("P09", throwing_vector, 2) {
    auto &r = c.rng;
    thrown = 0, fuse = -1;
    {
        P::Vector<Source> src;
        size_t n = gsize(r, 80);
        for(size_t i = 0; i < n; ++i)
            src.push_back(Source{(int)r.below(100)});
        fuse = r.chance(4, 5) ? 1 + (long)r.below(n + 2) : -1;
        long at = fuse;
        c.mix(n);
        c.mix(at);
        if(r.chance(1, 2)) {
            c.note("Vector from a range of %zu, conversion %ld throws", n, at);
            bool b = blows([&] {
                P::Vector<Fickle> v(src.begin(), src.end());
                EXPECT(v.size() == n, "throwing.range", "%zu of %zu elements", v.size(), n);
            });
            EXPECT(b == (at > 0 && (size_t)at <= n), "throwing.lost-exception", "exception %s", b ? "made up" : "lost");
        } else {
            P::Vector<Fickle> v;
            size_t had = r.below(20);
            for(size_t i = 0; i < had; ++i)
                v.emplace_back((int)i);
            c.note("append a range of %zu to %zu, conversion %ld throws", n, had, at);
            bool b = blows([&] { v.append(src.begin(), src.end()); });
            size_t want = had + (b ? (size_t)at - 1 : n);
            EXPECT(v.size() == want, "throwing.append", "%zu elements instead of %zu", v.size(), want);
            for(size_t i = 0; i < v.size(); ++i)
                EXPECT(v[i].val() == (i < had ? (int)i : src[i - had].v), "throwing.append-value", "element %zu is %d", i,
                       v[i].val());
            v.emplace_back(7);
            EXPECT(v.back().val() == 7, "throwing.append-after", "vector not usable after an exception");
        }
    }
    fuse = -1;
    c.cover("exceptions", thrown);
    vt::verify_none_live(c);
}

VH_SUITE("P09", throwing_wrappers, 2) {
    auto &r = c.rng;
    thrown = 0, fuse = -1;
    {
        typedef P::Variant<Fickle, int, P::CString> V;
        Fickle f((int)r.below(100));
        P::Optional<Fickle> o(f), e;
        V v{Fickle(5)};
        for(int i = 0; i < 8; ++i) {
            fuse = r.chance(1, 2) ? 1 : -1;
            int op = r.below(6);
            c.mix(op * 2 + (fuse > 0));
            blows([&] {
                switch(op) {
                case 0: {
                    P::Optional<Fickle> x(f);
                    EXPECT(x && x.value().val() == f.val(), "throwing.optional", "wrong value");
                    break;
                }
                case 1: {
                    P::Optional<Fickle> x((const P::Optional<Fickle> &)o);
                    EXPECT(x && x.value().val() == f.val(), "throwing.optional", "wrong value");
                    break;
                }
                case 2: {
                    V x((const V &)v);
                    EXPECT(x.index() == v.index(), "throwing.variant", "wrong alternative");
                    break;
                }
                case 3: {
                    V x(v);
                    EXPECT(x.index() == v.index(), "throwing.variant", "wrong alternative");
                    break;
                }
                case 4: {
                    auto p = P::unique_ptr<Fickle>(new Fickle(f));
                    EXPECT(p->val() == f.val(), "throwing.unique", "wrong value");
                    break;
                }
                case 5: {
                    P::Vector<P::Optional<Fickle>> x;
                    x.push_back(P::Optional<Fickle>(f));
                    x.push_back(P::Optional<Fickle>((const P::Optional<Fickle> &)o));
                    break;
                }
                }
            });
            EXPECT(o && o.value().val() == f.val() && !e, "throwing.source", "the source of a failed copy changed");
        }
    }
    fuse = -1;
    c.cover("exceptions", thrown);
    vt::verify_none_live(c);
}

// Strings made from text that may be malformed: the library's own exceptions in the middle of container operations.
VH_SUITE("P28", throwing_text, 2) {
    auto &r = c.rng;
    P::Vector<P::Bytes> chunks;
    size_t n = gsize(r, 40), bad = n ? r.below(n + n / 4 + 1) : 0;
    std::vector<std::string> m;
    for(size_t i = 0; i < n; ++i) {
        std::string s = i == bad ? std::string(bad_text) : "a text that is long enough to be allocated " + std::to_string(r.below(1000));
        m.push_back(s);
        chunks.push_back(P::Bytes(s.data(), s.size()));
    }
    c.mix(n);
    c.mix(bad);
    c.note("%zu chunks, number %zu is malformed", n, bad);
    const int op = r.below(4);
    bool b = blows([&] {
        switch(op) {
        case 0: {
            P::Vector<P::U8String> v(chunks.begin(), chunks.end());
            EXPECT(v.size() == n, "throwing.text", "%zu of %zu strings", v.size(), n);
            break;
        }
        case 1: {
            P::Vector<P::U8String> v;
            v.append(chunks.begin(), chunks.end());
            EXPECT(v.size() == n, "throwing.text", "%zu of %zu strings", v.size(), n);
            break;
        }
        case 2: {
            P::HashMap<P::U8String, P::Bytes> h;
            P::HashSet<P::U8String> s;
            for(auto &x : chunks) {
                h.insert(P::U8String(x), x);
                s.insert(P::U8String(x));
            }
            break;
        }
        case 3: {
            P::BTree<P::U8String, 5> t;
            for(auto &x : chunks)
                t.insert(P::U8String(x));
            break;
        }
        }
    });
    EXPECT(b == (bad < n), "throwing.text-lost", "%s", b ? "exception without malformed text" : "malformed text was accepted");
    for(size_t i = 0; i < n; ++i)
        EXPECT(chunks[i].size() == m[i].size() && memcmp(chunks[i].data(), m[i].data(), m[i].size()) == 0,
               "throwing.text-source", "the source changed");
    c.cover(b ? "refused" : "accepted");
}

VH_SUITE("P09", throwing_sorts, 2) {
    auto &r = c.rng;
    thrown = 0, fuse = -1;
    {
        size_t n = gsize(r, 300);
        std::unique_ptr<vt::Tracked[]> a(new vt::Tracked[n + 1]);
        int range = r.chance(1, 3) ? 4 : 1000;
        for(size_t i = 0; i < n; ++i)
            a[i] = vt::Tracked((int)r.below(range));
        auto b = a.get(), e = b + n;
        P::Span<vt::Tracked> sp(b, n);
        ThrowCmp cmp{r.chance(1, 4)};
        ThrowPred pred{(int)r.below(range)};
        fuse = 1 + (long)r.below(r.chance(1, 3) ? 10 : n * 9 + 2);
        int op = r.below(8);
        std::unique_ptr<vt::Tracked[]> out(new vt::Tracked[n + 1]);
        c.mix(op);
        c.mix(n);
        c.mix(fuse);
        c.note("algorithm %d on %zu elements, step %ld throws", op, n, fuse);
        size_t k = n ? r.below(n) : 0;
        blows([&] {
            switch(op) {
            case 0: P::find_if_not(b, e, pred); break;
            case 1: P::partition(sp.begin(), sp.end(), pred); break;
            case 2: P::stable_partition(b, e, pred); break;
            case 3: P::stable_partition(sp, pred); break;
            case 4: P::partition(b, e, pred); break;
            case 5: P::find_if(b, e, pred); break;
            case 6: P::is_sorted(b, e, cmp); break;
            case 7: P::merge_pass(b, b + k, b + k, e, out.get(), cmp); break;
            }
        });
        for(size_t i = 0; i < n; ++i)
            a[i].val();
        // every slot still takes a new value
        for(size_t i = 0; i < n; ++i)
            a[i] = vt::Tracked((int)i);
    }
    fuse = -1;
    c.cover("exceptions", thrown);
    vt::verify_none_live(c);
}

VH_SUITE("P10", throwing_keys, 2) {
    auto &r = c.rng;
    thrown = 0, fuse = -1;
    {
        P::HashMap<Fickle, vt::Tracked> h;
        std::map<int, int> m;
        int keys = 1 + (int)r.below(60);
        int ops = 20 + (int)r.below(200);
        for(int i = 0; i < ops; ++i) {
            int k = r.below(keys), v = r.below(1000), op = r.below(8);
            if(op < 5) {
                fuse = r.chance(1, 2) ? 1 : -1;
                Fickle key(k);
                bool b = blows([&] { h.insert(key, vt::Tracked(v)); });
                c.mix(b);
                if(!b)
                    m[k] = v;
                // growing copies the key first: a failed insert leaves the map as it was
            } else {
                h.remove(Fickle(k));
                m.erase(k);
            }
            EXPECT(h.size() == m.size(), "throwing.map-size", "after operation %d: size %zu instead of %zu", i, h.size(),
                   m.size());
            auto *p = h.lookup(Fickle(k));
            auto it = m.find(k);
            EXPECT((p != nullptr) == (it != m.end()) && (!p || p->val() == it->second), "throwing.map-value",
                   "key %d has the wrong value", k);
        }
        size_t seen = 0;
        for(auto kv : h) {
            auto it = m.find(kv.key->val());
            EXPECT(it != m.end() && it->second == kv.value->val(), "throwing.map-iteration", "key %d", kv.key->val());
            ++seen;
        }
        EXPECT(seen == m.size(), "throwing.map-iteration", "%zu of %zu entries visited", seen, m.size());
    }
    fuse = -1;
    c.cover("exceptions", thrown);
    vt::verify_none_live(c);
}

VH_SUITE("P12", throwing_btree, 2) {
    auto &r = c.rng;
    thrown = 0, fuse = -1;
    {
        P::BTree<Fickle, 5> t;
        std::set<int> m;
        int keys = 1 + (int)r.below(120);
        int ops = 20 + (int)r.below(250);
        for(int i = 0; i < ops; ++i) {
            int k = r.below(keys);
            const Fickle key(k);
            fuse = r.chance(1, 3) ? 1 : -1;
            bool ins = r.chance(5, 8);
            bool b = blows([&] {
                if(ins)
                    t.insert(key);
                else
                    t.remove(key);
            });
            c.mix(b);
            if(!b) {
                if(ins)
                    m.insert(k);
                else
                    m.erase(k);
            }
            EXPECT(t.size() == m.size(), "throwing.tree-size", "after operation %d: size %zu instead of %zu", i, t.size(),
                   m.size());
            EXPECT((t.lookup(Fickle(k)) != nullptr) == (m.count(k) != 0), "throwing.tree-lookup", "key %d", k);
        }
        auto it = m.begin();
        for(const auto &x : t) {
            EXPECT(it != m.end() && *it == x.val(), "throwing.tree-iteration", "wrong entry %d", x.val());
            ++it;
        }
        EXPECT(it == m.end(), "throwing.tree-iteration", "entries missing");
    }
    fuse = -1;
    c.cover("exceptions", thrown);
    vt::verify_none_live(c);
}
