// P08: Vector and Stack against std::vector; P09: the same histories with lifetime monitoring.
#include "common26.hpp"
#include "tracked.hpp"
#include <list>
using P::Stack;
using P::Vector;
using vh::Case;

namespace {
template<typename T> void same(Case &c, Vector<T> &v, const std::vector<int> &m, const char *op) {
    EXPECT(v.size() == m.size(), "vector.size", "after %s: size %zu, expected %zu", op, v.size(), m.size());
    EXPECT(v.is_empty() == m.empty(), "vector.empty", "after %s: is_empty", op);
    EXPECT(v.capacity() >= v.size(), "vector.capacity", "after %s: capacity %zu < size %zu", op, v.capacity(), v.size());
    const Vector<T> &cv = v;
    for(size_t i = 0; i < m.size(); i++)
        EXPECT(v[i].val() == m[i], "vector.contents", "after %s: [%zu] of %zu = %d, expected %d", op, i, m.size(),
               v[i].val(), m[i]);
    size_t k = 0;
    for(auto &e : cv) {
        EXPECT(k < m.size() && e.val() == m[k], "vector.iteration", "after %s: iteration differs at %zu", op, k);
        ++k;
    }
    EXPECT(k == m.size() && cv.end() - cv.begin() == (ptrdiff_t)m.size() && cv.cend() - cv.cbegin() == (ptrdiff_t)k,
           "vector.iteration", "after %s: iteration length", op);
    if(!m.empty()) {
        EXPECT(v.front().val() == m.front() && cv.back().val() == m.back() && cv.front().val() == m.front() &&
                   v.back().val() == m.back(),
               "vector.ends", "after %s: front/back", op);
        EXPECT(((uintptr_t)&v[0]) % alignof(T) == 0, "vector.alignment", "after %s: storage at %p, alignment %zu", op,
               (void *)&v[0], alignof(T));
        size_t i = c.rng.below(m.size());
        EXPECT(v.at(i).val() == m[i] && cv.at(i).val() == m[i] && v.unsafe_at(i).val() == m[i] &&
                   cv.unsafe_at(i).val() == m[i] && v.span()[i].val() == m[i] && cv.span()[i].val() == m[i] &&
                   v.data() + i == &v[i],
               "vector.access", "after %s: at/unsafe_at/span/data [%zu]", op, i);
    } else {
        EXPECT(throws_py([&] { v.front(); }) && throws_py([&] { v.back(); }) && throws_py([&] { cv.front(); }) &&
                   throws_py([&] { cv.back(); }),
               "vector.empty-access", "front/back of an empty vector did not throw");
    }
    EXPECT(v.span().size() == m.size() && cv.span().size() == m.size(), "vector.span", "after %s: span size", op);
    size_t oob = c.rng.chance(1, 2) ? m.size() : m.size() + c.rng.below(20);
    EXPECT(throws_py([&] { v[oob]; }) && throws_py([&] { cv[oob]; }) && throws_py([&] { v.at(oob); }),
           "vector.index-oob", "[%zu] of %zu did not throw", oob, m.size());
    EXPECT(throws_py([&] { v[(size_t)-1]; }), "vector.index-oob", "[-1] did not throw");
}

template<typename T> void history(Case &c) {
    auto &r = c.rng;
    enum { NV = 3 };
    {
        std::vector<Vector<T>> v(NV);
        std::vector<int> m[NV];
        int fresh = 0;
        int steps = 10 + r.below(c.thorough ? 160 : 70);
        size_t limit = c.thorough && r.chance(1, 20) ? 20000 : 400;
        for(int s = 0; s < steps; s++) {
            int i = r.below(NV), j = r.below(NV);
            auto &x = v[i];
            auto &y = m[i];
            int val = ++fresh;
            const char *op = "?";
            switch(r.below(22)) {
            case 0:
            case 1:
                op = "push_back(&&)";
                c.note("v%d.push_back(%d)", i, val);
                x.push_back(T(val));
                y.push_back(val);
                break;
            case 2: {
                op = "push_back(const&)";
                c.note("v%d.push_back(const %d)", i, val);
                const T t(val);
                x.push_back(t);
                y.push_back(val);
                EXPECT(t.val() == val, "vector.copy-source", "push_back of a const object changed it");
                break;
            }
            case 3: {
                op = "push_back(own element)";
                if(y.empty())
                    continue;
                size_t k = r.below(y.size());
                c.note("v%d.push_back(v%d[%zu]) size=%zu cap=%zu", i, i, k, x.size(), x.capacity());
                x.push_back(x[k]);
                y.push_back(y[k]);
                break;
            }
            case 4: {
                op = "emplace_back";
                c.note("v%d.emplace_back(%d)", i, val);
                if(r.chance(1, 3)) {
                    x.emplace_back();
                    y.push_back(T().val());
                } else {
                    x.emplace_back(val);
                    y.push_back(val);
                }
                break;
            }
            case 5: {
                op = "emplace_back(own element)";
                if(y.empty())
                    continue;
                size_t k = r.below(y.size());
                c.note("v%d.emplace_back(v%d[%zu]) size=%zu cap=%zu", i, i, k, x.size(), x.capacity());
                const T &ref = x[k];
                x.emplace_back(ref);
                y.push_back(y[k]);
                break;
            }
            case 6: {
                op = "fill to capacity, then push own element";
                if(x.capacity() > limit || y.empty())
                    continue;
                c.note("v%d fill %zu -> %zu, then own element", i, x.size(), x.capacity());
                while(x.size() < x.capacity()) {
                    int w = ++fresh;
                    x.push_back(T(w));
                    y.push_back(w);
                }
                size_t k = r.below(y.size());
                if(r.chance(1, 3)) {
                    x.push_back(x[k]);
                } else if(r.chance(1, 2)) { // the element moves to the end of its own vector
                    x.push_back(P::move(x[k]));
                    EXPECT(x.size() == y.size() + 1, "vector.size", "push_back of a moved own element: size %zu, expected %zu", x.size(),
                           y.size() + 1);
                    y.push_back(y[k]);
                    int w = ++fresh;
                    x[k] = T(w);
                    y[k] = w;
                    break;
                } else
                    x.emplace_back((const T &)x[k]);
                y.push_back(y[k]);
                break;
            }
            case 7: {
                op = "append(range)";
                size_t n = gsize(r, limit);
                c.note("v%d.append(%zu new)", i, n);
                std::vector<T> src;
                for(size_t k = 0; k < n; k++)
                    src.emplace_back(++fresh);
                std::vector<int> ref;
                for(auto &e : src)
                    ref.push_back(e.val());
                if(r.chance(1, 2)) {
                    x.append(src.data(), src.data() + src.size());
                } else {
                    x.append((const T *)src.data(), (const T *)src.data() + src.size());
                }
                y.insert(y.end(), ref.begin(), ref.end());
                for(size_t k = 0; k < n; k++)
                    EXPECT(src[k].val() == ref[k], "vector.copy-source", "append changed its source");
                break;
            }
            case 8: {
                op = "append(other vector)";
                if(i == j || m[j].size() > limit)
                    continue;
                size_t a = r.below(m[j].size() + 1), b = a + r.below(m[j].size() - a + 1);
                c.note("v%d.append(v%d[%zu:%zu])", i, j, a, b);
                x.append(v[j].begin() + a, v[j].begin() + b);
                y.insert(y.end(), m[j].begin() + a, m[j].begin() + b);
                break;
            }
            case 9: {
                op = "assign";
                if(i == j)
                    continue;
                size_t a = r.below(m[j].size() + 1), b = a + r.below(m[j].size() - a + 1);
                c.note("v%d.assign(v%d[%zu:%zu])", i, j, a, b);
                x.assign(v[j].cbegin() + a, v[j].cbegin() + b);
                y.assign(m[j].begin() + a, m[j].begin() + b);
                break;
            }
            case 10: {
                op = "append/assign own range";
                // refused with an exception, or done right
                size_t a = r.below(y.size() + 1), b = a + r.below(y.size() - a + 1);
                bool app = r.chance(1, 2);
                c.note("v%d.%s(v%d[%zu:%zu])", i, app ? "append" : "assign", i, a, b);
                std::vector<int> part(y.begin() + a, y.begin() + b);
                bool th = throws_py([&] {
                    if(app)
                        x.append(x.begin() + a, x.begin() + b);
                    else
                        x.assign(x.begin() + a, x.begin() + b);
                });
                if(!th) {
                    if(app)
                        y.insert(y.end(), part.begin(), part.end());
                    else
                        y = part;
                }
                break;
            }
            case 11:
            case 12: {
                op = "pop_back";
                c.note("v%d.pop_back", i);
                auto o = x.pop_back();
                EXPECT((bool)o == !y.empty(), "vector.pop_back", "pop_back of size %zu returned %d", y.size(), (bool)o);
                if(o) {
                    EXPECT(o->val() == y.back(), "vector.pop_back", "pop_back returned %d, expected %d", o->val(),
                           y.back());
                    y.pop_back();
                }
                break;
            }
            case 13:
                op = "clear";
                if(!r.chance(1, 3))
                    continue;
                c.note("v%d.clear", i);
                x.clear();
                y.clear();
                break;
            case 14: {
                op = "reserve";
                size_t n = gsize(r, limit);
                c.note("v%d.reserve(%zu)", i, n);
                x.reserve(n);
                EXPECT(x.capacity() >= n, "vector.reserve", "reserve(%zu) left capacity %zu", n, x.capacity());
                if(n > x.size()) {
                    // the reservation is usable: no relocation until it is used up
                    const T *base = x.data();
                    size_t before = x.size();
                    if(n - before < 64) {
                        while(x.size() < n) {
                            int w = ++fresh;
                            x.push_back(T(w));
                            y.push_back(w);
                        }
                        EXPECT(x.data() == base, "vector.reserve", "relocated within the reserved capacity");
                    }
                }
                break;
            }
            case 15: {
                op = "append_with_default";
                size_t n = gsize(r, limit);
                c.note("v%d.append_with_default(%zu)", i, n);
                x.append_with_default(n);
                for(size_t k = 0; k < n; k++)
                    y.push_back(T{}.val());
                break;
            }
            case 16: {
                op = "copy construct";
                c.note("v%d = copy of v%d (through a temporary)", i, j);
                {
                    const Vector<T> &src = v[j];
                    Vector<T> t(src);
                    same(c, t, m[j], "copy");
                    // independence
                    if(t.size()) {
                        t.push_back(T(-1));
                        t[0] = T(-2);
                    }
                    same(c, v[j], m[j], "changing the copy");
                    Vector<T> t2((const Vector<T> &)v[j]);
                    x = P::move(t2);
                }
                y = std::vector<int>(m[j]);
                break;
            }
            case 17: {
                op = "move construct and back";
                c.note("v%d moved out and back", i);
                Vector<T> t(P::move(x));
                EXPECT(x.size() == 0 && x.is_empty(), "vector.moved-from", "moved-from vector has size %zu", x.size());
                same(c, t, y, "move construct");
                if(r.chance(1, 2))
                    x.push_back(T(5)); // usable
                x = P::move(t);
                EXPECT(t.size() == 0, "vector.moved-from", "moved-from vector has size %zu", t.size());
                break;
            }
            case 18: {
                op = "move assign";
                c.note("v%d = move(v%d)", i, j);
                x = P::move(v[j]);
                if(i != j) {
                    y = std::move(m[j]);
                    m[j].clear();
                    same(c, v[j], m[j], "moved-from");
                }
                break;
            }
            case 19: {
                op = "iterator construct";
                size_t n = gsize(r, limit);
                std::vector<T> src;
                std::vector<int> ref;
                for(size_t k = 0; k < n; k++) {
                    src.emplace_back(++fresh);
                    ref.push_back(fresh);
                }
                c.note("v%d = Vector(first,last) of %zu", i, n);
                Vector<T> t((const T *)src.data(), (const T *)src.data() + n);
                same(c, t, ref, op);
                if(r.chance(1, 2)) {
                    x = P::move(t);
                    y = ref;
                }
                break;
            }
            case 20: {
                op = "assign to element";
                if(y.empty())
                    continue;
                size_t k = r.below(y.size()), k2 = r.below(y.size());
                c.note("v%d[%zu] = %s", i, k, k2 & 1 ? "new" : "copy of own element");
                if(k2 & 1) {
                    x[k] = T(val);
                    y[k] = val;
                } else {
                    x[k] = (const T &)x[k2];
                    y[k] = y[k2];
                }
                break;
            }
            case 21: {
                op = "compare";
                bool eq = m[i] == m[j];
                c.note("v%d == v%d -> %d", i, j, eq);
                EXPECT((v[i] == v[j]) == eq && (v[i] != v[j]) == !eq, "vector.equality", "v%d == v%d: expected %d", i, j,
                       eq);
                Vector<T> t((const Vector<T> &)v[i]);
                EXPECT(t == v[i] && !(t != v[i]), "vector.equality", "copy is not equal");
                if(t.size()) {
                    size_t k = r.below(t.size());
                    t[k] = T(-5);
                    EXPECT(t != v[i] && !(v[i] == t), "vector.equality", "changed element %zu of %zu not noticed", k,
                           t.size());
                    t.pop_back();
                    EXPECT(t != v[i] && v[i] != t, "vector.equality", "different sizes are equal");
                }
                break;
            }
            }
            c.mix(r.s[0]);
            same(c, x, y, op);
            if(i != j)
                same(c, v[j], m[j], op);
            if(x.size() > limit) {
                x.clear();
                y.clear();
            }
        }
    }
    vt::verify_none_live(c);
}

template<typename T> void stack_history(Case &c) {
    auto &r = c.rng;
    {
        Stack<T> st[2];
        std::vector<int> m[2];
        int steps = 10 + r.below(c.thorough ? 200 : 80);
        int fresh = 0;
        for(int s = 0; s < steps; s++) {
            int i = r.below(2);
            auto &x = st[i];
            auto &y = m[i];
            switch(r.below(9)) {
            case 0:
            case 1:
            case 2:
            case 3: {
                int val = ++fresh;
                c.note("s%d.push(%d)", i, val);
                const T t(val);
                x.push(t);
                y.push_back(val);
                break;
            }
            case 4:
            case 5:
                c.note("s%d.pop", i);
                if(!y.empty()) {
                    x.pop();
                    y.pop_back();
                }
                break;
            case 6:
                if(y.empty())
                    continue;
                c.note("s%d.push(top)", i);
                x.push(x.top());
                y.push_back(y.back());
                break;
            case 7:
                c.note("s%d moved", i);
                if(r.chance(1, 2)) {
                    st[1 - i] = P::move(x);
                    m[1 - i] = y;
                    y.clear();
                } else {
                    Stack<T> t(P::move(x));
                    EXPECT(t.size() == y.size(), "stack.move", "moved stack has size %zu of %zu", t.size(), y.size());
                    x = P::move(t);
                }
                break;
            case 8:
                if(!r.chance(1, 4))
                    continue;
                c.note("s%d.clear", i);
                x.clear();
                y.clear();
                break;
            }
            for(int k = 0; k < 2; k++) {
                EXPECT(st[k].size() == m[k].size() && st[k].is_empty() == m[k].empty(), "stack.size",
                       "size %zu, expected %zu", st[k].size(), m[k].size());
                const Stack<T> &cs = st[k];
                if(m[k].empty()) {
                    EXPECT(throws_py([&] { st[k].top(); }) && throws_py([&] { cs.top(); }), "stack.empty-top",
                           "top of an empty stack did not throw");
                } else {
                    EXPECT(st[k].top().val() == m[k].back() && cs.top().val() == m[k].back(), "stack.top",
                           "top is %d, expected %d", st[k].top().val(), m[k].back());
                }
            }
            c.mix(r.s[0]);
        }
        for(int k = 0; k < 2; k++) {
            while(!m[k].empty()) {
                EXPECT(st[k].top().val() == m[k].back(), "stack.order", "draining: %d, expected %d", st[k].top().val(),
                       m[k].back());
                st[k].pop();
                m[k].pop_back();
            }
            EXPECT(st[k].is_empty(), "stack.drain", "not empty after draining");
        }
    }
    vt::verify_none_live(c);
}
struct alignas(16) Odd { // size not a power of two
    short v = 0;
    char pad[40];
    Odd() noexcept = default;
    Odd(int x) noexcept : v((short)x) {}
    int val() const { return v; }
    bool operator==(const Odd &o) const { return v == o.v; }
};
} // namespace

VH_SUITE("P08", vector_tracked, 4) { history<vt::Tracked>(c); }
VH_SUITE("P08", vector_heap, 3) { history<vt::Heap>(c); }
VH_SUITE("P08", vector_plain, 2) { history<vt::Plain>(c); }
VH_SUITE("P08", vector_aligned, 3) {
    if(c.rng.chance(1, 3))
        return history<vt::VeryAligned>(c);
    history<vt::Aligned>(c);
}
VH_SUITE("P08", vector_odd, 1) { history<Odd>(c); }
VH_SUITE("P08", stack_tracked, 2) { stack_history<vt::Tracked>(c); }
VH_SUITE("P08", stack_heap, 1) { stack_history<vt::Heap>(c); }
VH_ALSO(P09, vector_tracked, 6)
VH_ALSO(P09, stack_tracked, 2)

// nested vectors: elements own vectors that are moved around by growth
VH_SUITE("P08", vector_nested, 2) {
    auto &r = c.rng;
    {
        Vector<Vector<vt::Tracked>> v;
        std::vector<std::vector<int>> m;
        int fresh = 0;
        for(int s = 0, n = 10 + r.below(60); s < n; s++) {
            switch(r.below(5)) {
            case 0:
                c.note("push_back(new vector)");
                v.push_back(Vector<vt::Tracked>());
                m.emplace_back();
                break;
            case 1:
            case 2:
                if(m.empty())
                    continue;
                {
                    size_t k = r.below(m.size());
                    int w = ++fresh;
                    c.note("v[%zu].push_back(%d)", k, w);
                    v[k].push_back(vt::Tracked(w));
                    m[k].push_back(w);
                }
                break;
            case 3: {
                if(m.empty())
                    continue;
                size_t k = r.below(m.size());
                c.note("push_back(v[%zu])", k);
                v.push_back((const Vector<vt::Tracked> &)v[k]);
                m.push_back(std::vector<int>(m[k]));
                break;
            }
            case 4: {
                if(m.empty())
                    continue;
                c.note("pop_back");
                auto o = v.pop_back();
                EXPECT(o && o->size() == m.back().size(), "vector.nested-pop", "pop_back of a nested vector");
                same(c, *o, m.back(), "nested pop");
                m.pop_back();
                break;
            }
            }
            EXPECT(v.size() == m.size(), "vector.nested-size", "size");
            for(size_t k = 0; k < m.size(); k++)
                same(c, v[k], m[k], "nested");
            c.mix(r.s[0]);
        }
    }
    vt::verify_none_live(c);
}
VH_ALSO(P09, vector_nested, 2)
