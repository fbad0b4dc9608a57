// P04: FixedVector and FixedCString.
#include "common26.hpp"
#include "tracked.hpp"
using P::CStringView;
using P::FixedCString;
using P::FixedVector;
using vh::Case;
using vh::Exact;
using vh::show;

namespace {
template<typename V, typename T, size_t N> void same(Case &c, V &v, const std::vector<int> &m, const char *op) {
    EXPECT(v.size() == m.size(), "fixedvector.size", "after %s: size %zu, expected %zu (cap %zu)", op, v.size(),
           m.size(), N);
    EXPECT(v.size() <= N && v.capacity() == N, "fixedvector.capacity", "after %s", op);
    EXPECT(v.is_empty() == m.empty() && v.is_full() == (m.size() == N), "fixedvector.state", "after %s", op);
    for(size_t i = 0; i < m.size(); i++)
        EXPECT(v[i].val() == m[i], "fixedvector.contents", "after %s: [%zu] = %d expected %d", op, i, v[i].val(), m[i]);
    size_t k = 0;
    for(auto &e : v) {
        EXPECT(k < m.size() && e.val() == m[k], "fixedvector.iter", "after %s: iteration", op);
        ++k;
    }
    EXPECT(k == m.size(), "fixedvector.iter", "after %s: iteration length", op);
    if(!m.empty()) {
        EXPECT(v.front().val() == m.front() && v.back().val() == m.back(), "fixedvector.ends", "after %s: front/back",
               op);
        EXPECT(((uintptr_t)&v[0]) % alignof(T) == 0, "fixedvector.align", "misaligned");
        EXPECT(v.data() == &v[0] && v.span().size() == m.size() && &v.unsafe_at(0) == &v[0], "fixedvector.data",
               "data/span");
    } else {
        const auto &cv = v;
        EXPECT(throws_py([&] { v.front(); }) && throws_py([&] { v.back(); }), "fixedvector.empty-access",
               "front/back of empty did not throw");
        EXPECT(throws_py([&] { cv.front(); }) && throws_py([&] { cv.back(); }), "fixedvector.empty-access",
               "front/back of a const empty one did not throw");
    }
    {
        const auto &cv = v;
        EXPECT(throws_py([&] { cv[m.size()]; }), "fixedvector.index-oob", "[size()] const did not throw");
        if(!m.empty())
            EXPECT(cv.front().val() == m.front() && cv.back().val() == m.back() && cv[m.size() / 2].val() == m[m.size() / 2] &&
                       cv.span().size() == m.size(),
                   "fixedvector.const-access", "const front/back/[]");
    }
    EXPECT(throws_py([&] { v[m.size()]; }), "fixedvector.index-oob", "[size()] did not throw");
    EXPECT(throws_py([&] { v[N + 3]; }), "fixedvector.index-oob", "[N+3] did not throw");
}

template<typename T, size_t N> void history(Case &c) {
    auto &r = c.rng;
    {
        typedef FixedVector<T, N> V;
        V v[2];
        std::vector<int> m[2];
        int steps = 10 + r.below(c.thorough ? 150 : 60);
        int fresh = 0;
        for(int s = 0; s < steps; s++) {
            int i = r.below(2), j = r.below(2);
            V &x = v[i];
            auto &y = m[i];
            bool full = y.size() == N;
            int val = ++fresh;
            const char *op = "?";
            switch(r.below(14)) {
            case 0: {
                op = "push_back";
                c.note("v%d.push_back(%d)", i, val);
                bool th = throws_py([&] { x.push_back(T(val)); });
                EXPECT(th == full, "fixedvector.push-full", "push_back to size %zu cap %zu: threw=%d", y.size(), N, th);
                if(!full)
                    y.push_back(val);
                break;
            }
            case 1: {
                op = "push_back(const&)";
                c.note("v%d.push_back(const %d)", i, val);
                const T t(val);
                bool th = throws_py([&] { x.push_back(t); });
                EXPECT(th == full, "fixedvector.push-full", "push_back const");
                EXPECT(t.val() == val, "fixedvector.copy-source", "copying changed the source");
                if(!full)
                    y.push_back(val);
                break;
            }
            case 2: {
                op = "try_push_back";
                c.note("v%d.try_push_back(%d)", i, val);
                bool ok;
                if(r.chance(1, 2)) {
                    ok = x.try_push_back(T(val));
                } else {
                    const T t(val);
                    ok = x.try_push_back(t);
                }
                EXPECT(ok == !full, "fixedvector.try_push", "try_push_back returned %d at size %zu cap %zu", ok,
                       y.size(), N);
                if(!full)
                    y.push_back(val);
                break;
            }
            case 3: {
                op = "emplace_back";
                c.note("v%d.emplace_back(%d)", i, val);
                if(r.chance(1, 4)) {
                    bool ok = x.try_emplace_back();
                    EXPECT(ok == !full, "fixedvector.try_emplace", "try_emplace_back without arguments");
                    val = T{}.val();
                } else if(r.chance(1, 2)) {
                    bool ok = x.try_emplace_back(val);
                    EXPECT(ok == !full, "fixedvector.try_emplace", "try_emplace_back");
                } else {
                    bool th = throws_py([&] { x.emplace_back(val); });
                    EXPECT(th == full, "fixedvector.emplace-full", "emplace_back");
                }
                if(!full)
                    y.push_back(val);
                break;
            }
            case 4:
            case 5:
            case 6: {
                op = "insert";
                size_t at = r.chance(1, 10) ? y.size() + 1 + r.below(4) : r.below(y.size() + 1);
                c.note("v%d.insert(%zu,%d)", i, at, val);
                bool bad = full || at > y.size();
                bool th = throws_py([&] { x.insert(at, T(val)); });
                EXPECT(th == bad, "fixedvector.insert-refusal", "insert at %zu of size %zu cap %zu: threw=%d", at,
                       y.size(), N, th);
                if(!bad)
                    y.insert(y.begin() + at, val);
                break;
            }
            case 7:
                op = "pop_back";
                c.note("v%d.pop_back", i);
                x.pop_back();
                if(!y.empty())
                    y.pop_back();
                break;
            case 8:
                op = "pop_front";
                c.note("v%d.pop_front", i);
                x.pop_front();
                if(!y.empty())
                    y.erase(y.begin());
                break;
            case 9: {
                op = "delete_at";
                size_t at = r.chance(1, 8) ? y.size() + r.below(3) : r.below(y.size() + 1);
                c.note("v%d.delete_at(%zu)", i, at);
                bool th = throws_py([&] { x.delete_at(at); });
                EXPECT(th == (at >= y.size()), "fixedvector.delete-refusal", "delete_at(%zu) of %zu: threw=%d", at,
                       y.size(), th);
                if(!th)
                    y.erase(y.begin() + at);
                break;
            }
            case 10: {
                op = "move_append";
                c.note("v%d.move_append(v%d)", i, j);
                bool bad = i == j || m[i].size() + m[j].size() > N;
                bool th = throws_py([&] { x.move_append(v[j]); });
                EXPECT(th == bad, "fixedvector.move_append-refusal", "move_append sizes %zu %zu cap %zu: threw=%d",
                       m[i].size(), m[j].size(), N, th);
                if(!bad) {
                    y.insert(y.end(), m[j].begin(), m[j].end());
                    // the elements of the source have been moved from; give it new contents
                    v[j] = V();
                    m[j].clear();
                }
                break;
            }
            case 11: {
                op = "move assign";
                c.note("v%d = move(v%d)", i, j);
                if(i == j) {
                    V &self = x;
                    x = P::move(self);
                } else {
                    x = P::move(v[j]);
                    y = m[j];
                    m[j].clear();
                    same<V, T, N>(c, v[j], m[j], "being moved from");
                }
                break;
            }
            case 12: {
                op = "move construct";
                c.note("move construct from v%d", j);
                V t(P::move(v[j]));
                same<V, T, N>(c, t, m[j], "move construction");
                std::vector<int> e;
                same<V, T, N>(c, v[j], e, "being moved from");
                v[j] = P::move(t);
                break;
            }
            default:
                op = "write";
                if(y.empty())
                    break;
                size_t k = r.below(y.size());
                c.note("v%d[%zu]=%d", i, k, val);
                x[k] = T(val);
                y[k] = val;
            }
            c.cover(op);
            same<V, T, N>(c, v[0], m[0], op);
            same<V, T, N>(c, v[1], m[1], op);
        }
    }
    vt::verify_none_live(c);
}
} // namespace

VH_SUITE("P04", fixedvector_history, 4) {
    switch(c.rng.below(8)) {
    case 7:
        return history<vt::VeryAligned, 3>(c);
    case 0:
        return history<vt::Tracked, 1>(c);
    case 1:
        return history<vt::Tracked, 2>(c);
    case 2:
        return history<vt::Tracked, 3>(c);
    case 3:
        return history<vt::Tracked, 8>(c);
    case 4:
        return history<vt::Plain, 5>(c);
    case 5:
        return history<vt::Heap, 4>(c);
    default:
        return history<vt::Tracked, 13>(c);
    }
}
VH_ALSO(P09, fixedvector_history, 3)

namespace {
template<size_t N> void fsame(Case &c, FixedCString<N> &s, const std::string &m, const char *op) {
    EXPECT(s.size() == m.size(), "fixedcstring.size", "after %s: size %zu expected %zu (max %zu)", op, s.size(),
           m.size(), N);
    EXPECT(s.size() <= N, "fixedcstring.capacity", "after %s", op);
    EXPECT(s.is_empty() == m.empty(), "fixedcstring.is_empty", "after %s", op);
    EXPECT(s.c_str()[m.size()] == 0, "fixedcstring.terminator", "after %s: no NUL at size()", op);
    EXPECT(memcmp(s.c_str(), m.data(), m.size()) == 0, "fixedcstring.contents", "after %s: %s expected %s", op,
           show(s.c_str(), s.size()).c_str(), show(m).c_str());
    EXPECT(s.view().size() == m.size() && s.view().data() == s.c_str(), "fixedcstring.view", "after %s", op);
    EXPECT(s == m.c_str(), "fixedcstring.eq", "after %s: == own text is false", op);
    EXPECT(s == CStringView(m.data(), m.size()), "fixedcstring.eq", "after %s: == own text view is false", op);
    for(size_t i = 0; i < m.size(); i++)
        EXPECT(s[i] == m[i], "fixedcstring.index", "after %s: [%zu]", op, i);
    EXPECT(throws_py([&] { (void)s[N + 1]; }), "fixedcstring.index-oob", "[N+1] accepted");
    EXPECT(throws_py([&] { (void)s[N + 100]; }), "fixedcstring.index-oob", "[N+100] accepted");
}
template<size_t N> void fhistory(Case &c) {
    auto &r = c.rng;
    FixedCString<N> s[2];
    std::string m[2];
    int steps = 10 + r.below(40);
    for(int k = 0; k < steps; k++) {
        int i = r.below(2), j = 1 - i;
        auto &x = s[i];
        auto &y = m[i];
        size_t n = r.chance(1, 5) ? N + 1 + r.below(4) : r.chance(1, 3) ? N : r.below(N + 1);
        std::string t = gtext(r, n);
        Exact e(t);
        const char *op = "?";
        switch(r.below(11)) {
        case 0: {
            op = "construct(const char*)";
            c.note("f%d = F(%s)", i, show(t).c_str());
            bool th = throws_py([&] { x = FixedCString<N>(t.c_str()); });
            EXPECT(th == (n > N), "fixedcstring.too-long", "ctor of %zu chars, max %zu: threw=%d", n, N, th);
            if(!th)
                y = t;
            break;
        }
        case 1: {
            op = "construct(ptr,n)";
            c.note("f%d = F(%s,%zu)", i, show(t).c_str(), n);
            bool th = throws_py([&] { x = FixedCString<N>(e.p, (uint32_t)n); });
            EXPECT(th == (n > N), "fixedcstring.too-long", "ctor(n) of %zu chars, max %zu: threw=%d", n, N, th);
            if(!th)
                y = t;
            break;
        }
        case 2: {
            op = "= view";
            c.note("f%d = view %s", i, show(t).c_str());
            bool th = throws_py([&] { x = CStringView(e.p, e.n); });
            EXPECT(th == (n > N), "fixedcstring.too-long", "= view of %zu, max %zu: threw=%d", n, N, th);
            if(!th)
                y = t;
            break;
        }
        case 3: {
            op = "= own prefix";
            size_t q = r.below(y.size() + 1);
            c.note("f%d = own prefix %zu of %s", i, q, show(y).c_str());
            x = CStringView(x.c_str(), q);
            y.resize(q);
            break;
        }
        case 4:
            op = "copy";
            c.note("f%d = f%d", i, j);
            x = s[j];
            y = m[j];
            break;
        case 5:
            op = "move";
            c.note("f%d = move f%d", i, j);
            x = P::move(s[j]);
            y = m[j];
            m[j].clear();
            break;
        case 6: {
            op = "copy/move construct";
            c.note("ctor from f%d", i);
            FixedCString<N> a(x), b(P::move(a));
            fsame<N>(c, b, y, "copy+move ctor");
            fsame<N>(c, a, "", "moved from");
            break;
        }
        case 7:
            op = "pop_back";
            c.note("f%d.pop_back", i);
            x.pop_back();
            if(!y.empty())
                y.pop_back();
            break;
        case 8: {
            op = "self assign";
            auto &self = x;
            x = self;
            x = P::move(self);
            x = x.view();
            if(!y.empty()) {
                size_t from = r.below(y.size() + 1), len = r.below(y.size() - from + 1);
                c.note("f%d = own [%zu, +%zu)", i, from, len);
                CStringView part(x.c_str() + from, len);
                // refused, or done right
                if(!throws_py([&] { x = part; }))
                    y = y.substr(from, len);
            }
            break;
        }
        case 9: {
            op = "other size";
            FixedCString<N + 7> big;
            FixedCString<N> &tgt = x;
            std::string bt = gtext(r, r.below(N + 8));
            big = CStringView(bt.data(), bt.size());
            c.note("f%d = bigger %s", i, show(bt).c_str());
            if(bt.size() <= N) {
                tgt = big;
                y = bt;
            } else
                EXPECT(throws_py([&] { tgt = big.view(); }), "fixedcstring.too-long", "bigger accepted");
            break;
        }
        default: {
            op = "compare";
            std::string o = y;
            if(r.chance(1, 2))
                o = gtext(r, r.below(N + 3));
            else if(!o.empty() && r.chance(1, 2))
                o.pop_back();
            else if(r.chance(1, 2))
                o += 'x';
            c.note("f%d == %s", i, show(o).c_str());
            Exact eo(o);
            EXPECT((x == CStringView(eo.p, eo.n)) == (o == y), "fixedcstring.eq", "%s == %s", show(y).c_str(),
                   show(o).c_str());
            Exact eo0(o + std::string(1, '\0'));
            EXPECT((x == (const char *)eo0.p) == (o == y), "fixedcstring.eq", "%s == (char*)%s", show(y).c_str(),
                   show(o).c_str());
        }
        }
        c.cover(op);
        fsame<N>(c, s[0], m[0], op);
        fsame<N>(c, s[1], m[1], op);
    }
}
} // namespace
VH_SUITE("P04", fixedcstring_history, 2) {
    switch(c.rng.below(5)) {
    case 0:
        return fhistory<1>(c);
    case 1:
        return fhistory<2>(c);
    case 2:
        return fhistory<8>(c);
    case 3:
        return fhistory<16>(c);
    default:
        return fhistory<33>(c);
    }
}
