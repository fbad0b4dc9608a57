// P01: Bytes against std::string as the ideal byte sequence.
#include "common26.hpp"
using P::Bytes;
using vh::Case;
using vh::show;

namespace {
void same(Case &c, const Bytes &b, const std::string &m, const char *op) {
    EXPECT(b.size() == m.size(), "bytes.size", "after %s: size %zu, expected %zu", op, b.size(), m.size());
    EXPECT(b.is_empty() == m.empty(), "bytes.is_empty", "after %s", op);
    EXPECT(b.capacity() >= b.size(), "bytes.capacity", "after %s: capacity below size", op);
    if(!m.empty())
        EXPECT(memcmp(b.data(), m.data(), m.size()) == 0, "bytes.contents", "after %s: got %s expected %s", op,
               show(b.data(), b.size()).c_str(), show(m).c_str());
    EXPECT((size_t)(b.end() - b.begin()) == m.size(), "bytes.iter", "after %s: begin/end", op);
    EXPECT(b.span().size() == m.size(), "bytes.span", "after %s: span size", op);
    size_t i = 0;
    for(char ch : b) {
        EXPECT(i < m.size() && ch == m[i], "bytes.iter", "after %s: iteration at %zu", op, i);
        ++i;
    }
}
void queries(Case &c, const Bytes &b, const std::string &m) {
    auto &r = c.rng;
    if(!m.empty()) {
        size_t i = r.below(m.size());
        EXPECT(b[i] == m[i], "bytes.index", "[%zu]", i);
        EXPECT(b.unsafe_at(i) == m[i], "bytes.index", "unsafe_at(%zu)", i);
        EXPECT(b.front() == m[0], "bytes.front", "front of %s", show(m).c_str());
        EXPECT(b.back() == m.back(), "bytes.back", "back of %s gave %d", show(m).c_str(), b.back());
        EXPECT(b.is_ptr_within(b.data() + i), "bytes.within", "is_ptr_within");
    } else {
        EXPECT(throws_py([&] { (void)b.front(); }), "bytes.front-empty", "front() of empty buffer did not throw");
        EXPECT(throws_py([&] { (void)b.back(); }), "bytes.back-empty", "back() of empty buffer did not throw");
    }
    EXPECT(!b.is_ptr_within(b.data() + b.size()), "bytes.within", "one past the end is not within");
    size_t off = m.size() + gsize(r, 40);
    EXPECT(throws_py([&] { (void)b[off]; }), "bytes.index-oob", "[%zu] of size %zu did not throw", off, m.size());
    EXPECT(throws_py([&] { (void)b[(size_t)-1 - r.below(3)]; }), "bytes.index-oob", "huge index did not throw");
}
} // namespace

VH_SUITE("P01", bytes_history, 6) {
    auto &r = c.rng;
    const int N = 3;
    Bytes b[N];
    std::string m[N];
    int steps = 5 + r.below(c.thorough ? 120 : 50);
    for(int s = 0; s < steps; s++) {
        int i = r.below(N), j = r.below(N);
        Bytes &x = b[i];
        std::string &y = m[i];
        const char *op = "?";
        switch(r.below(27)) {
        case 0: {
            char ch = (char)r.below(256);
            op = "append(char)";
            c.note("b%d.append(0x%02x)", i, (unsigned char)ch);
            x.append(ch);
            y.push_back(ch);
            break;
        }
        case 1: {
            char ch = (char)r.below(256);
            op = "push_back";
            size_t n = gsize(r, 70);
            c.note("b%d.push_back x%zu", i, n);
            for(size_t k = 0; k < n; k++) {
                x.push_back(ch + k);
                y.push_back(ch + k);
            }
            break;
        }
        case 2: {
            std::string t = gbytes(r, gsize(r));
            vh::Exact e(t);
            op = "append(range)";
            c.note("b%d.append(%s)", i, show(t).c_str());
            x.append(e.p, e.p + e.n);
            y += t;
            break;
        }
        case 3: { // self range
            if(y.empty())
                break;
            size_t a = r.below(y.size()), z = a + r.below(y.size() - a + 1);
            op = "append(own range)";
            c.note("b%d.append(own [%zu,%zu))", i, a, z);
            std::string t = y.substr(a, z - a);
            x.append(x.data() + a, x.data() + z);
            y += t;
            break;
        }
        case 4: {
            std::string t = gbytes(r, gsize(r));
            vh::Exact e(t);
            op = "assign";
            c.note("b%d.assign(%s)", i, show(t).c_str());
            x.assign(e.p, e.n);
            y = t;
            break;
        }
        case 5: { // assign own part
            if(y.empty())
                break;
            size_t a = r.below(y.size()), n = r.below(y.size() - a + 1);
            op = "assign(own part)";
            c.note("b%d.assign(own %zu,%zu)", i, a, n);
            std::string t = y.substr(a, n);
            x.assign(x.data() + a, n);
            y = t;
            break;
        }
        case 6: {
            std::string t = gbytes(r, gsize(r, 80));
            vh::Exact e(t);
            op = "insert";
            size_t at = y.empty() ? 0 : r.below(y.size());
            c.note("b%d.insert(%zu,%s)", i, at, show(t).c_str());
            if(y.empty()) {
                EXPECT(throws_py([&] { x.insert(at, e.p, e.n); }), "bytes.insert-oob", "insert into empty accepted");
            } else {
                x.insert(at, e.p, e.n);
                y.insert(at, t);
            }
            break;
        }
        case 7: {
            size_t at = y.size() + 1 + gsize(r, 40);
            op = "insert(oob)";
            c.note("b%d.insert(%zu oob)", i, at);
            EXPECT(throws_py([&] { x.insert(at, "abc", 3); }), "bytes.insert-oob", "insert at %zu of %zu accepted", at,
                   y.size());
            break;
        }
        case 8: {
            size_t n = gsize(r, 100);
            op = "extend";
            c.note("b%d.extend(%zu)", i, n);
            size_t old = x.size();
            x.extend(n);
            EXPECT(x.size() == old + n, "bytes.extend", "size after extend(%zu) of %zu: %zu", n, old, x.size());
            std::string t = gbytes(r, n);
            if(n)
                memcpy(x.data() + old, t.data(), n);
            y += t;
            break;
        }
        case 9: {
            size_t n = gsize(r, 100);
            op = "shrink";
            c.note("b%d.shrink(%zu)", i, n);
            x.shrink(n);
            y.resize(n > y.size() ? 0 : y.size() - n);
            break;
        }
        case 10: {
            size_t n = gsize(r, 200);
            op = "resize";
            c.note("b%d.resize(%zu)", i, n);
            size_t old = x.size();
            if(r.chance(1, 2))
                x.resize_to(n);
            else
                x.resize(n);
            EXPECT(x.size() == n, "bytes.resize", "size after resize(%zu): %zu", n, x.size());
            if(n > old) {
                std::string t = gbytes(r, n - old);
                memcpy(x.data() + old, t.data(), n - old);
                y += t;
            } else
                y.resize(n);
            break;
        }
        case 11: {
            size_t n = r.chance(1, 3) ? gsize(r, 60) : r.below(y.size() + 2);
            op = "pop_back";
            c.note("b%d.pop_back(%zu)", i, n);
            x.pop_back(n);
            y.resize(n >= y.size() ? 0 : y.size() - n);
            break;
        }
        case 12: {
            size_t n = r.chance(1, 3) ? gsize(r, 60) : r.below(y.size() + 2);
            op = "pop_front";
            c.note("b%d.pop_front(%zu)", i, n);
            x.pop_front(n);
            y.erase(0, n);
            break;
        }
        case 13: {
            size_t a = r.below(y.size() + 1), z = a + r.below(y.size() - a + 1);
            op = "remove";
            c.note("b%d.remove(%zu,%zu)", i, a, z);
            x.remove(a, z);
            y.erase(a, z - a);
            break;
        }
        case 14: {
            size_t a, z;
            if(r.chance(1, 2)) {
                a = r.below(y.size() + 1);
                z = y.size() + 1 + gsize(r, 30);
            } else {
                z = r.below(y.size() + 1);
                a = z + 1 + gsize(r, 30);
            }
            op = "remove(oob)";
            c.note("b%d.remove(%zu,%zu oob)", i, a, z);
            EXPECT(throws_py([&] { x.remove(a, z); }), "bytes.remove-oob", "remove(%zu,%zu) of size %zu accepted", a, z,
                   y.size());
            break;
        }
        case 15: {
            op = "copy assign";
            c.note("b%d = b%d", i, j);
            x = b[j];
            y = m[j];
            break;
        }
        case 16: {
            op = "move assign";
            c.note("b%d = move(b%d)", i, j);
            if(i != j) {
                x = P::move(b[j]);
                y = m[j];
                m[j].clear();
                same(c, b[j], m[j], "being moved from");
            } else {
                Bytes &self = x;
                x = P::move(self);
            }
            break;
        }
        case 17: {
            op = "copy construct";
            c.note("copy of b%d", j);
            Bytes t(b[j]);
            same(c, t, m[j], "copy");
            std::string tm = m[j];
            t.append('x');
            tm.push_back('x');
            same(c, t, tm, "append to copy");
            same(c, b[j], m[j], "append to the copy");
            if(!tm.empty())
                t.data()[0] = 'Q';
            same(c, b[j], m[j], "writing to the copy");
            break;
        }
        case 18: {
            op = "move construct";
            c.note("b%d = Bytes(move(b%d))", i, j);
            Bytes t(P::move(b[j]));
            std::string tm = m[j];
            m[j].clear();
            same(c, b[j], m[j], "being moved from");
            same(c, t, tm, "move construction");
            x = P::move(t);
            y = tm;
            same(c, t, "", "being moved from");
            t.append('a');
            same(c, t, "a", "append to moved-from");
            break;
        }
        case 19: {
            op = "+=";
            c.note("b%d += b%d", i, j);
            if(m[i].size() + m[j].size() > 4000)
                break;
            std::string t = m[j];
            x += b[j];
            y += t;
            break;
        }
        case 20: {
            op = "clear";
            c.note("b%d.clear()", i);
            x.clear();
            y.clear();
            break;
        }
        case 21: {
            size_t n = gsize(r, 600);
            op = "reserve";
            c.note("b%d.reserve(%zu)", i, n);
            x.reserve(n);
            EXPECT(x.capacity() >= n, "bytes.reserve", "capacity %zu after reserve(%zu)", x.capacity(), n);
            break;
        }
        case 22: {
            op = "construct";
            std::string t = gbytes(r, gsize(r));
            vh::Exact e(t);
            switch(r.below(4)) {
            case 0:
                c.note("b%d = Bytes(ptr,%zu)", i, e.n);
                x = Bytes((const char *)e.p, e.n);
                y = t;
                break;
            case 1:
                c.note("b%d = Bytes(range %zu)", i, e.n);
                x = Bytes((const char *)e.p, (const char *)e.p + e.n);
                y = t;
                break;
            case 2: {
                char f = (char)r.below(256);
                c.note("b%d = Bytes(%zu, fill %d)", i, e.n, f);
                x = Bytes(e.n, f);
                y = std::string(e.n, f);
                break;
            }
            default:
                c.note("b%d = Bytes(%zu)", i, e.n);
                x = Bytes((size_t)e.n);
                y.clear();
                EXPECT(x.capacity() >= e.n, "bytes.ctor-capacity", "Bytes(%zu) capacity %zu", e.n, x.capacity());
            }
            if(e.n)
                EXPECT(throws_py([&] { Bytes bad((const char *)e.p + e.n, (const char *)e.p); }), "bytes.bad-range",
                       "reversed range accepted");
            break;
        }
        case 23: {
            op = "write";
            if(y.empty())
                break;
            size_t k = r.below(y.size());
            x.data()[k] = 'W';
            x.span()[k] = (char)(s + 1);
            y[k] = (char)(s + 1);
            c.note("b%d[%zu]=%d", i, k, s + 1);
            break;
        }
        default: { // comparisons
            op = "compare";
            c.note("cmp b%d b%d", i, j);
            if(r.chance(1, 2)) { // make them nearly equal
                b[j] = b[i];
                m[j] = m[i];
                if(!m[j].empty() && r.chance(2, 3)) {
                    size_t k = r.below(m[j].size());
                    char v = (char)r.below(256);
                    b[j].data()[k] = v;
                    m[j][k] = v;
                }
                if(r.chance(1, 3)) {
                    b[j].append('z');
                    m[j].push_back('z');
                }
            }
            int e = ulex(m[i], m[j]);
            EXPECT((b[i] == b[j]) == (e == 0), "bytes.eq", "== of %s and %s", show(m[i]).c_str(), show(m[j]).c_str());
            EXPECT((b[i] != b[j]) == (e != 0), "bytes.eq", "!= of %s and %s", show(m[i]).c_str(), show(m[j]).c_str());
            EXPECT((b[i] < b[j]) == (e < 0), "bytes.less", "%s < %s gave %d", show(m[i]).c_str(), show(m[j]).c_str(),
                   b[i] < b[j]);
            EXPECT((b[j] < b[i]) == (e > 0), "bytes.less", "%s < %s gave %d", show(m[j]).c_str(), show(m[i]).c_str(),
                   b[j] < b[i]);
            EXPECT(sgn(b[i] <=> b[j]) == e, "bytes.spaceship", "%s <=> %s", show(m[i]).c_str(), show(m[j]).c_str());
            EXPECT(sgn(b[j] <=> b[i]) == -e, "bytes.spaceship", "%s <=> %s", show(m[j]).c_str(), show(m[i]).c_str());
            EXPECT((b[i] > b[j]) == (e > 0), "bytes.less", "%s > %s", show(m[i]).c_str(), show(m[j]).c_str());
            EXPECT((b[i] <= b[j]) == (e <= 0), "bytes.less", "%s <= %s", show(m[i]).c_str(), show(m[j]).c_str());
            break;
        }
        }
        c.cover(op);
        same(c, x, y, op);
        queries(c, x, y);
        for(int k = 0; k < N; k++)
            same(c, b[k], m[k], "an operation on another buffer");
        if(y.size() > 5000) {
            x.clear();
            y.clear();
        }
    }
}

// long single-byte growth with big sizes
VH_SUITE("P01", bytes_growth, 1) {
    auto &r = c.rng;
    Bytes b;
    std::string m;
    size_t target = r.below(20000);
    c.note("grow to %zu", target);
    while(m.size() < target) {
        size_t n = 1 + r.below(700);
        std::string t = gbytes(r, n);
        switch(r.below(4)) {
        case 0:
            for(char ch : t)
                b.append(ch);
            m += t;
            break;
        case 1:
            b.append(t.data(), t.data() + n);
            m += t;
            break;
        case 2: {
            Bytes o(t.data(), n);
            b += o;
            m += t;
            break;
        }
        default:
            if(m.empty())
                break;
            size_t at = r.below(m.size());
            b.insert(at, t.data(), n);
            m.insert(at, t);
        }
    }
    same(c, b, m, "growth");
    while(!m.empty()) {
        size_t n = 1 + r.below(900);
        if(r.chance(1, 2)) {
            b.pop_front(n);
            m.erase(0, n);
        } else {
            b.pop_back(n);
            m.resize(n >= m.size() ? 0 : m.size() - n);
        }
        same(c, b, m, "drain");
    }
}
