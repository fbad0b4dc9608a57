// P02: CString histories. P03: view queries.
#include "common26.hpp"
#include <memory>
using P::CString;
using P::CStringView;
using P::ZStringView;
using vh::Case;
using vh::Exact;
using vh::show;

namespace {
void same(Case &c, const CString &b, const std::string &m, const char *op) {
    EXPECT(b.size() == m.size(), "cstring.size", "after %s: size %zu, expected %zu (%s)", op, b.size(), m.size(),
           show(m).c_str());
    EXPECT(b.length() == m.size(), "cstring.size", "after %s: length()", op);
    EXPECT(b.is_empty() == m.empty(), "cstring.is_empty", "after %s", op);
    const char *p = b.c_str();
    EXPECT(p[m.size()] == 0, "cstring.terminator", "after %s: no NUL at [size()]", op);
    EXPECT(memcmp(p, m.data(), m.size()) == 0, "cstring.contents", "after %s: got %s expected %s", op,
           show(p, b.size()).c_str(), show(m).c_str());
    EXPECT(strlen(p) == m.size(), "cstring.embedded-nul", "after %s: strlen %zu size %zu", op, strlen(p), m.size());
    EXPECT(b.data() == p, "cstring.data", "data()");
    auto v = b.view();
    EXPECT(v.data() == p && v.size() == m.size(), "cstring.view", "view()");
    auto z = b.zview();
    EXPECT(z.c_str() == p && z.size() == m.size(), "cstring.zview", "zview() size %zu, expected %zu", z.size(), m.size());
    if(!m.empty())
        EXPECT(b.back() == m.back(), "cstring.back", "back()");
    else
        EXPECT(throws_py([&] { (void)b.back(); }), "cstring.back", "back() of empty string did not throw");
}
const char *WS = " \n\t\r";
std::string mstrip(const std::string &s) {
    size_t a = s.find_first_not_of(WS);
    if(a == std::string::npos)
        return "";
    size_t z = s.find_last_not_of(WS);
    return s.substr(a, z - a + 1);
}
std::vector<std::string> msplit(const std::string &s, const char *seps) {
    std::vector<std::string> r;
    size_t i = 0;
    while(true) {
        i = s.find_first_not_of(seps, i);
        if(i == std::string::npos)
            break;
        size_t e = s.find_first_of(seps, i);
        if(e == std::string::npos)
            e = s.size();
        r.push_back(s.substr(i, e - i));
        i = e;
    }
    return r;
}
std::string gtextn(vh::Rng &r, size_t maxn = 300) { return gtext(r, gsize(r, maxn)); }
} // namespace

VH_SUITE("P02", cstring_history, 6) {
    auto &r = c.rng;
    const int N = 3;
    CString b[N];
    std::string m[N];
    int steps = 5 + r.below(c.thorough ? 120 : 50);
    for(int s = 0; s < steps; s++) {
        int i = r.below(N), j = r.below(N);
        CString &x = b[i];
        std::string &y = m[i];
        const char *op = "?";
        switch(r.below(28)) {
        case 0: {
            char ch = (char)(1 + r.below(255));
            op = "append(char)";
            c.note("s%d.append(0x%02x)", i, (unsigned char)ch);
            if(r.chance(1, 2))
                x.append(ch);
            else
                x.push_back(ch);
            y.push_back(ch);
            break;
        }
        case 1: {
            char ch = (char)(1 + r.below(255));
            op = "+= char";
            size_t n = gsize(r, 40);
            c.note("s%d += char x%zu", i, n);
            for(size_t k = 0; k < n; k++) {
                x += ch;
                y += ch;
            }
            break;
        }
        case 2: {
            std::string t = gtextn(r);
            Exact e(t);
            op = "append(ptr,n)";
            c.note("s%d.append(%s)", i, show(t).c_str());
            switch(r.below(3)) {
            case 0:
                x.append(e.p, e.n);
                break;
            case 1:
                x.append(t.c_str());
                break;
            default:
                x.append((const char *)e.p, (const char *)e.p + e.n);
            }
            y += t;
            break;
        }
        case 3: {
            op = "append(own part)";
            if(y.empty() || y.size() > 2000)
                break;
            size_t a = r.below(y.size()), n = r.below(y.size() - a + 1);
            c.note("s%d.append(own %zu,%zu)", i, a, n);
            std::string t = y.substr(a, n);
            x.append(x.c_str() + a, n);
            y += t;
            break;
        }
        case 4: {
            std::string t = gtextn(r);
            op = "+= const char*";
            c.note("s%d += %s", i, show(t).c_str());
            x += t.c_str();
            y += t;
            break;
        }
        case 5: {
            op = "+= own tail";
            if(y.size() > 2000)
                break;
            size_t a = r.below(y.size() + 1);
            c.note("s%d += own c_str()+%zu", i, a);
            std::string t = y.substr(a);
            x += x.c_str() + a;
            y += t;
            break;
        }
        case 6: {
            op = "+= CString";
            if(m[i].size() + m[j].size() > 4000)
                break;
            c.note("s%d += s%d", i, j);
            std::string t = m[j];
            x += b[j];
            y += t;
            break;
        }
        case 7: {
            std::string t = gtextn(r, 80);
            Exact e(t);
            size_t at = r.below(y.size() + 1);
            op = "insert";
            c.note("s%d.insert(%zu,%s)", i, at, show(t).c_str());
            x.insert(at, CStringView(e.p, e.n));
            y.insert(at, t);
            break;
        }
        case 8: {
            op = "insert(own part)";
            if(y.size() > 2000)
                break;
            size_t at = r.below(y.size() + 1);
            size_t a = r.below(y.size() + 1), n = r.below(y.size() - a + 1);
            c.note("s%d.insert(%zu, own %zu,%zu)", i, at, a, n);
            std::string t = y.substr(a, n);
            x.insert(at, CStringView(x.c_str() + a, n));
            y.insert(at, t);
            break;
        }
        case 9: {
            op = "insert(oob)";
            size_t at = y.size() + 1 + gsize(r, 50);
            c.note("s%d.insert(%zu oob)", i, at);
            EXPECT(throws_py([&] { x.insert(0, CStringView("a\0b", 3)); }), "cstring.insert-nul", "NUL inserted");
            EXPECT(throws_py([&] { x.insert(at, CStringView("abc")); }), "cstring.insert-oob",
                   "insert at %zu of size %zu accepted", at, y.size());
            break;
        }
        case 10: {
            size_t a = r.below(y.size() + 1), z = a + r.below(y.size() - a + 1);
            op = "remove";
            c.note("s%d.remove(%zu,%zu)", i, a, z);
            x.remove(a, z);
            y.erase(a, z - a);
            break;
        }
        case 11: {
            op = "remove(oob)";
            size_t a, z;
            if(r.chance(1, 2)) {
                a = r.below(y.size() + 1);
                z = y.size() + 1 + (r.chance(1, 2) ? 0 : gsize(r, 30));
            } else {
                z = r.below(y.size() + 1);
                a = z + 1 + gsize(r, 30);
            }
            c.note("s%d.remove(%zu,%zu oob)", i, a, z);
            EXPECT(throws_py([&] { x.remove(a, z); }), "cstring.remove-oob", "remove(%zu,%zu) of size %zu accepted", a,
                   z, y.size());
            break;
        }
        case 12: {
            op = "strip";
            if(r.chance(1, 2)) { // give it something to strip
                std::string pre = gtext(r, r.below(4)), post;
                for(auto &ch : pre)
                    ch = WS[r.below(4)];
                post = std::string(r.below(20), WS[r.below(4)]);
                x.insert(0, CStringView(pre.data(), pre.size()));
                x += post.c_str();
                y = pre + y + post;
                if(r.chance(1, 8)) {
                    x.clear();
                    x += (pre + post).c_str();
                    y = pre + post;
                }
            }
            c.note("s%d.strip() of %s", i, show(y).c_str());
            x.strip();
            y = mstrip(y);
            break;
        }
        case 13: {
            op = "pop_back";
            size_t n = 1 + r.below(4);
            c.note("s%d.pop_back x%zu", i, n);
            while(n--) {
                x.pop_back();
                if(!y.empty())
                    y.pop_back();
                same(c, x, y, op);
            }
            break;
        }
        case 14: {
            op = "substr";
            size_t a = r.below(y.size() + 1);
            if(r.chance(1, 4)) {
                c.note("substr(%zu)", a);
                same(c, x.substr(a), y.substr(a), op);
            } else {
                size_t n = r.below(y.size() - a + 1);
                c.note("substr(%zu,%zu)", a, n);
                same(c, x.substr(a, n), y.substr(a, n), op);
            }
            break;
        }
        case 15: {
            op = "substr(oob)";
            size_t a = y.size() + 1 + gsize(r, 30);
            c.note("substr(%zu oob)", a);
            EXPECT(throws_py([&] { (void)x.substr(a); }), "cstring.substr-oob", "substr(%zu) of size %zu accepted", a,
                   y.size());
            EXPECT(throws_py([&] { (void)x.substr(a, r.below(4)); }), "cstring.substr-oob",
                   "substr(%zu,n) of size %zu accepted", a, y.size());
            break;
        }
        case 16: {
            op = "clear";
            c.note("s%d.clear()", i);
            x.clear();
            y.clear();
            break;
        }
        case 17: {
            op = "copy assign";
            c.note("s%d = s%d", i, j);
            x = b[j];
            y = m[j];
            break;
        }
        case 18: {
            op = "move";
            c.note("s%d = move(s%d)", i, j);
            if(i != j) {
                if(r.chance(1, 2)) {
                    x = P::move(b[j]);
                } else {
                    CString t(P::move(b[j]));
                    x = P::move(t);
                }
                y = m[j];
                // a moved-from string may be assigned to
                std::string t = gtextn(r, 40);
                switch(r.below(3)) {
                case 0:
                    b[j] = t.c_str();
                    break;
                case 1:
                    b[j] = CString(t.c_str());
                    break;
                default: {
                    CString tmp(t.c_str());
                    b[j] = tmp;
                }
                }
                m[j] = t;
            } else {
                CString &self = x;
                x = P::move(self);
            }
            break;
        }
        case 19: {
            std::string t = gtextn(r);
            op = "= const char*";
            c.note("s%d = %s", i, show(t).c_str());
            x = t.c_str();
            y = t;
            break;
        }
        case 20: {
            op = "= own tail";
            size_t a = r.below(y.size() + 1);
            c.note("s%d = own c_str()+%zu", i, a);
            x = x.c_str() + a;
            y = y.substr(a);
            break;
        }
        case 21: {
            op = "= own view";
            size_t a = r.below(y.size() + 1), n = r.below(y.size() - a + 1);
            c.note("s%d = own view %zu,%zu", i, a, n);
            x = CString(CStringView(x.c_str() + a, n));
            y = y.substr(a, n);
            break;
        }
        case 22: {
            op = "construct";
            std::string t = gtextn(r);
            Exact e(t);
            c.note("construct from %s", show(t).c_str());
            CString k1(t.c_str()), k2(e.p, e.n), k3{CStringView(e.p, e.n)}, k4(P::Bytes(e.p, e.n)), k5(k2);
            same(c, k1, t, "CString(const char*)");
            same(c, k2, t, "CString(ptr,n)");
            same(c, k3, t, "CString(view)");
            same(c, k4, t, "CString(Bytes)");
            same(c, k5, t, "copy");
            k5 += 'x';
            same(c, k2, t, "editing a copy");
            same(c, k5, t + "x", "editing a copy");
            x = r.chance(1, 2) ? k3 : k4;
            y = t;
            break;
        }
        case 23: {
            op = "embedded NUL";
            std::string t = gtextn(r, 60);
            t.insert(r.below(t.size() + 1), 1, '\0');
            Exact e(t);
            c.note("embedded NUL %s", show(t).c_str());
            EXPECT(throws_py([&] { CString k(e.p, e.n); }), "cstring.nul-accepted", "CString(ptr,n) accepted %s",
                   show(t).c_str());
            EXPECT(throws_py([&] { CString k(P::Bytes(e.p, e.n)); }), "cstring.nul-accepted",
                   "CString(Bytes) accepted %s", show(t).c_str());
            EXPECT(throws_py([&] { x.append('\0'); }), "cstring.nul-accepted", "append('\\0') accepted");
            same(c, x, y, "refused append");
            EXPECT(throws_py([&] { x += '\0'; }), "cstring.nul-accepted", "+= '\\0' accepted");
            same(c, x, y, "refused +=");
            // append of a range with a NUL: refused; nothing beyond the NUL gets in
            EXPECT(throws_py([&] { x.append(e.p, e.n); }), "cstring.nul-accepted", "append(range with NUL) accepted");
            std::string now(x.c_str());
            std::string full = y + t.substr(0, t.find('\0'));
            EXPECT(now.size() == x.size() && now.size() >= y.size() && full.compare(0, now.size(), now) == 0,
                   "cstring.refused-append", "after refused append: %s", show(now).c_str());
            y = now;
            break;
        }
        case 24: {
            op = "mutable_data";
            if(y.empty())
                break;
            size_t k = r.below(y.size());
            x.mutable_data()[k] = 'M';
            y[k] = 'M';
            c.note("s%d[%zu]='M'", i, k);
            break;
        }
        case 25: {
            op = "reserve";
            size_t n = gsize(r, 500);
            c.note("s%d.reserve(%zu)", i, n);
            x.reserve(n);
            break;
        }
        case 26: {
            op = "resize";
            size_t n = r.below(y.size() + 1), old = y.size();
            if(r.chance(1, 3))
                n += r.below(60);
            c.note("s%d.resize(%zu)", i, n);
            x.resize(n);
            EXPECT(x.size() == n && x.c_str()[n] == 0, "cstring.resize", "resize(%zu) gave size %zu", n, x.size());
            y.resize(std::min(n, old));
            // what fills the new space is not specified, only that it is not NUL
            for(size_t k = old; k < n; k++) {
                EXPECT(x[k] != 0, "cstring.resize-nul", "NUL at %zu after resize", k);
                y += x[k];
            }
            break;
        }
        default: {
            op = "compare";
            c.note("cmp s%d s%d", i, j);
            if(r.chance(1, 2)) {
                b[j] = b[i];
                m[j] = m[i];
                if(r.chance(1, 2)) {
                    char ch = (char)(1 + r.below(255));
                    b[j] += ch;
                    m[j] += ch;
                } else if(!m[j].empty()) {
                    size_t k = r.below(m[j].size());
                    char ch = (char)(1 + r.below(255));
                    b[j].mutable_data()[k] = ch;
                    m[j][k] = ch;
                }
            }
            int e = ulex(m[i], m[j]);
            auto A = show(m[i]), B = show(m[j]);
            EXPECT((b[i] == b[j]) == (e == 0), "cstring.eq", "%s == %s", A.c_str(), B.c_str());
            EXPECT((b[i] == m[j].c_str()) == (e == 0), "cstring.eq", "%s == (char*)%s", A.c_str(), B.c_str());
            EXPECT((b[i] == b[j].view()) == (e == 0), "cstring.eq", "%s == view %s", A.c_str(), B.c_str());
            EXPECT(sgn(b[i] <=> b[j]) == e, "cstring.spaceship", "%s <=> %s", A.c_str(), B.c_str());
            EXPECT((b[i] < b[j]) == (e < 0), "cstring.spaceship", "%s < %s", A.c_str(), B.c_str());
            EXPECT((b[i] >= b[j]) == (e >= 0), "cstring.spaceship", "%s >= %s", A.c_str(), B.c_str());
        }
        }
        c.cover(op);
        same(c, x, y, op);
        if(!y.empty()) {
            size_t k = r.below(y.size());
            EXPECT(x[k] == y[k], "cstring.index", "[%zu]", k);
            EXPECT(x.front() == y[0], "cstring.front", "front()");
        }
        size_t off = y.size() + 1 + gsize(r, 30);
        EXPECT(throws_py([&] { (void)x[off]; }), "cstring.index-oob", "[%zu] of size %zu accepted", off, y.size());
        for(int k = 0; k < N; k++)
            same(c, b[k], m[k], "an operation on another string");
        if(y.size() > 5000) {
            x.clear();
            y.clear();
        }
    }
}

// ------------------------------------------------------------------ P03
namespace {
bool collect(const CStringView &p, void *ctx) {
    ((std::vector<std::string> *)ctx)->push_back(std::string(p.data(), p.size()));
    return true;
}
struct Limited {
    size_t left;
    std::vector<std::string> got;
};
bool collect_limited(const CStringView &p, void *ctx) {
    auto *l = (Limited *)ctx;
    l->got.push_back(std::string(p.data(), p.size()));
    return --l->left > 0;
}
std::string join(const std::vector<std::string> &v) {
    std::string r;
    for(auto &s : v)
        r += show(s) + " ";
    return r;
}
} // namespace

VH_SUITE("P03", view_queries, 8) {
    auto &r = c.rng;
    unsigned alpha = r.below(3);
    auto gen = [&](size_t n) {
        std::string s = gtext(r, n);
        if(alpha == 0)
            for(auto &ch : s)
                ch = "ab"[r.below(2)];
        return s;
    };
    for(int rep = 0; rep < 12; rep++) {
        std::string h = gen(gsize(r, 60));
        std::string n;
        switch(r.below(5)) {
        case 0: // a real substring
        case 1: {
            size_t a = r.below(h.size() + 1);
            n = h.substr(a, r.chance(1, 2) ? std::string::npos : r.below(5));
            break;
        }
        case 2: // near miss
            n = h.substr(r.below(h.size() + 1));
            if(!n.empty())
                n[r.below(n.size())] ^= 1;
            if(n.find('\0') != std::string::npos)
                n = "q";
            break;
        case 3:
            n = h;
            if(r.chance(1, 2))
                n += gen(1 + r.below(3));
            break;
        default:
            n = gen(r.below(6));
        }
        Exact eh(h), en(n);
        CStringView H(eh.p, eh.n), N(en.p, en.n);
        c.note("h=%s n=%s", show(h).c_str(), show(n).c_str());
        auto hs = show(h), ns = show(n);
        EXPECT(H.size() == h.size() && H.is_empty() == h.empty(), "view.size", "size of %s", hs.c_str());
        EXPECT(H.data() == eh.p && H.begin() == eh.p && H.end() == eh.p + eh.n, "view.data", "begin/end/data");
        EXPECT(H.find(N) == h.find(n), "view.find", "find %s in %s gave %zd expected %zd", ns.c_str(), hs.c_str(),
               (ssize_t)H.find(N), (ssize_t)h.find(n));
        EXPECT(H.starts_with(N) == (h.compare(0, n.size(), n) == 0 && n.size() <= h.size()), "view.starts_with",
               "%s starts_with %s gave %d", hs.c_str(), ns.c_str(), H.starts_with(N));
        EXPECT(H.starts_with(n.c_str()) == (h.compare(0, n.size(), n) == 0 && n.size() <= h.size()),
               "view.starts_with", "%s starts_with(char*) %s", hs.c_str(), ns.c_str());
        EXPECT((H == N) == (h == n), "view.eq", "%s == %s", hs.c_str(), ns.c_str());
        EXPECT((H == n.c_str()) == (h == n), "view.eq", "%s == (char*)%s", hs.c_str(), ns.c_str());
        EXPECT((H < N) == (ulex(h, n) < 0), "view.less", "%s < %s gave %d", hs.c_str(), ns.c_str(), H < N);
        EXPECT((N < H) == (ulex(n, h) < 0), "view.less", "%s < %s gave %d", ns.c_str(), hs.c_str(), N < H);
        char ch = h.empty() || r.chance(1, 4) ? 'q' : h[r.below(h.size())];
        EXPECT(H.find(ch) == h.find(ch), "view.find-char", "find %d in %s", ch, hs.c_str());
        if(!h.empty()) {
            size_t i = r.below(h.size());
            EXPECT(H[i] == h[i] && H.at(i) == h[i] && H.unsafe_at(i) == h[i], "view.index", "[%zu]", i);
            EXPECT(H.front() == h[0], "view.front", "front");
        } else
            EXPECT(throws_py([&] { (void)H.front(); }), "view.front", "front of empty view did not throw PyException");
        size_t off = h.size() + (r.chance(1, 2) ? 0 : gsize(r, 30));
        EXPECT(throws_py([&] { (void)H[off]; }), "view.index-oob", "[%zu] of %zu accepted", off, h.size());
        EXPECT(throws_py([&] { (void)H.at(off); }), "view.index-oob", "at(%zu) of %zu accepted", off, h.size());
        // substr
        for(int k = 0; k < 3; k++) {
            size_t p = r.below(h.size() + 1);
            if(h.empty())
                continue;
            if(p == h.size())
                p = h.size() - 1;
            size_t cnt;
            switch(r.below(4)) {
            case 0:
                cnt = (size_t)-1;
                break;
            case 1:
                cnt = (size_t)-2 - r.below(4);
                break;
            default:
                cnt = r.below(h.size() + 3);
            }
            auto sv = H.substr(p, cnt);
            std::string e = h.substr(p, cnt);
            EXPECT(std::string(sv.data(), sv.size()) == e, "view.substr", "substr(%zu,%zu) of %s gave %s", p, cnt,
                   hs.c_str(), show(sv.data(), sv.size()).c_str());
            EXPECT(sv.data() == eh.p + p, "view.substr", "substr does not point into the original");
        }
        {
            EXPECT(H.substr(h.size()).size() == 0 && H.substr(h.size(), 5).size() == 0, "view.substr-end", "substr(size) is not empty");
            size_t p = h.size() + 1 + gsize(r, 20);
            EXPECT(throws_py([&] { (void)H.substr(p); }), "view.substr-oob", "substr(%zu) of %zu accepted", p,
                   h.size());
            EXPECT(throws_py([&] { (void)H.substr(p, 1); }), "view.substr-oob", "substr(%zu,1) of %zu accepted", p,
                   h.size());
        }
        // overlap of two non-empty sub-ranges of the same buffer
        if(h.size() >= 2) {
            size_t a1 = r.below(h.size()), n1 = 1 + r.below(h.size() - a1);
            size_t a2 = r.below(h.size()), n2 = 1 + r.below(h.size() - a2);
            if(r.chance(1, 4) && a1 + n1 < h.size()) {
                a2 = a1 + n1;
                n2 = 1 + r.below(h.size() - a2);
            }
            CStringView v1(eh.p + a1, n1), v2(eh.p + a2, n2);
            bool e = a1 < a2 + n2 && a2 < a1 + n1;
            EXPECT(v1.overlaps(v2) == e, "view.overlaps", "[%zu,+%zu) vs [%zu,+%zu) gave %d", a1, n1, a2, n2,
                   v1.overlaps(v2));
            EXPECT(v2.overlaps(v1) == e, "view.overlaps", "[%zu,+%zu) vs [%zu,+%zu)", a2, n2, a1, n1);
        }
        // casing (ASCII; bytes above 127 are left alone in the C locale)
        {
            std::string u = h, l = h;
            for(auto &x : u)
                if(x >= 'a' && x <= 'z')
                    x -= 32;
            for(auto &x : l)
                if(x >= 'A' && x <= 'Z')
                    x += 32;
            auto U = H.upper(), L = H.lower();
            EXPECT(U == u.c_str() && U.size() == u.size(), "view.upper", "upper of %s: %s", hs.c_str(),
                   show(U.data(), U.size()).c_str());
            EXPECT(L == l.c_str() && L.size() == l.size(), "view.lower", "lower of %s: %s", hs.c_str(),
                   show(L.data(), L.size()).c_str());
        }
        // splitting
        {
            std::vector<std::string> got;
            H.split(collect, &got);
            auto e = msplit(h, WS);
            EXPECT(got == e, "view.split", "split of %s: %s", hs.c_str(), join(got).c_str());
            if(!e.empty()) {
                Limited l{1 + r.below(e.size()), {}};
                size_t want = l.left;
                H.split(collect_limited, &l);
                e.resize(want);
                EXPECT(l.got == e, "view.split-stop", "split with early stop after %zu of %s: %s", want, hs.c_str(),
                       join(l.got).c_str());
            }
        }
        // CString queries
        {
            CString S(H);
            EXPECT(S.find(N) == h.find(n), "cstring.find", "find %s in %s", ns.c_str(), hs.c_str());
            EXPECT(S.rfind(ch) == h.rfind(ch), "cstring.rfind", "rfind %d in %s gave %zd", ch, hs.c_str(),
                   (ssize_t)S.rfind(ch));
            char sep = h.empty() || r.chance(1, 4) ? ',' : h[r.below(h.size())];
            char seps[2] = {sep, 0};
            auto parts = S.split_by(sep);
            auto e = msplit(h, seps);
            EXPECT(parts.size() == e.size(), "cstring.split_by", "split_by %d of %s: %zu parts", sep, hs.c_str(),
                   parts.size());
            for(size_t k = 0; k < e.size(); k++)
                EXPECT(parts[k] == e[k].c_str() && parts[k].size() == e[k].size(), "cstring.split_by",
                       "split_by part %zu of %s", k, hs.c_str());
            if(!e.empty()) {
                Limited l{1 + r.below(e.size()), {}};
                size_t want = l.left;
                S.split_by(sep, collect_limited, &l);
                e.resize(want);
                EXPECT(l.got == e, "cstring.split_by-stop", "split_by early stop");
            }
            auto ws = S.split();
            auto e2 = msplit(h, WS);
            EXPECT(ws.size() == e2.size(), "cstring.split", "split of %s: %zu parts", hs.c_str(), ws.size());
            for(size_t k = 0; k < e2.size(); k++)
                EXPECT(ws[k] == e2[k].c_str(), "cstring.split", "split part %zu of %s", k, hs.c_str());
            EXPECT(S.upper() == H.upper() && S.lower() == H.lower(), "cstring.case", "CString casing of %s",
                   hs.c_str());
            CStringView full(S), full2(S.view());
            EXPECT(full == full2 && full.size() == h.size(), "view.of-cstring", "view of CString");
        }
        // ZStringView
        {
            ZStringView z(h.c_str());
            EXPECT(z.size() == h.size(), "zview.size", "ZStringView(%s).size() = %zu", hs.c_str(), z.size());
            EXPECT(z.c_str() == h.c_str() && z.view() == H, "zview.view", "view() of %s", hs.c_str());
            ZStringView z2(h.c_str(), h.size());
            EXPECT(z2.size() == h.size() && z == z2, "zview.size", "sized ctor");
            ZStringView zn(n.c_str(), n.size());
            EXPECT((z == zn) == (h == n), "zview.eq", "%s == %s", hs.c_str(), ns.c_str());
            EXPECT((z == n.c_str()) == (h == n), "zview.eq", "%s == %s", hs.c_str(), ns.c_str());
            size_t p = r.below(h.size() + 1);
            auto sub = z.subview(p);
            EXPECT(sub.size() == h.size() - p && sub == h.c_str() + p, "zview.subview", "subview(%zu) of %s", p,
                   hs.c_str());
            size_t q = h.size() + 1 + gsize(r, 20);
            EXPECT(throws_py([&] { (void)z.subview(q); }), "zview.subview-oob", "subview(%zu) of %zu", q, h.size());
        }
        if(h.size() >= 1)
            EXPECT(throws_py([&] { CStringView bad((const char *)eh.p + 1, (const char *)eh.p); }), "view.bad-range",
                   "reversed range accepted");
        {
            CStringView rng((const char *)eh.p, (const char *)eh.p + eh.n);
            EXPECT(rng == H, "view.range-ctor", "range ctor");
            CStringView sp(P::Span<const char>(eh.p, eh.n));
            EXPECT(sp == H, "view.span-ctor", "span ctor");
        }
    }
}
VH_ALSO(P02, view_queries, 2)
// Views and buffers that show nothing: default constructed, empty with and without an address, and
// texts, in all combinations. Null pointers must not reach functions that do not take them.
namespace {
void nothing_shown(Case &c) {
    using namespace pystd2026;
    auto &r = c.rng;
    std::vector<std::string> t = {"", "", "", "a", "\xc3\xa4", "a b", ""};
    for(size_t k = r.below(8); k; --k)
        t[6] += std::string(r.chance(1, 2) ? "a" : r.chance(1, 2) ? "b " : "\xe2\x82\xac");
    std::vector<std::unique_ptr<vh::Exact>> keep;
    auto cv = [&](size_t i) {
        if(i == 0)
            return CStringView();
        keep.push_back(std::make_unique<vh::Exact>(t[i]));
        return i == 1 ? CStringView("", (size_t)0) : CStringView(keep.back()->p, keep.back()->n);
    };
    auto zv = [&](size_t i) {
        if(i == 0)
            return ZStringView();
        keep.push_back(std::make_unique<vh::Exact>(t[i] + '\0'));
        return i == 1 ? ZStringView(nullptr, 0) : i == 2 ? ZStringView("") : ZStringView(keep.back()->p);
    };
    auto uv = [&](size_t i) {
        if(i == 0)
            return U8StringView();
        keep.push_back(std::make_unique<vh::Exact>(t[i]));
        return i == 1 ? U8StringView("", (size_t)0) : U8StringView(keep.back()->p, keep.back()->n);
    };
    auto S = [](const auto &x) { return std::string(x.data() ? x.data() : "", x.size()); };
    size_t i = r.below(t.size()), j = r.below(t.size());
    const std::string &a = t[i], &b = t[j];
    c.note("kind %zu %s and kind %zu %s", i, show(a).c_str(), j, show(b).c_str());
    c.mix(i * 16 + j);
    c.mixs(t[6].data(), t[6].size());
    {
        CStringView x = cv(i), y = cv(j);
        EXPECT(x.size() == a.size() && x.is_empty() == a.empty(), "empty-view.size", "size %zu", x.size());
        EXPECT((x == y) == (a == b) && (x == b.c_str()) == (a == b), "empty-view.equal", "== is wrong");
        EXPECT((x < y) == (a < b), "empty-view.less", "< is wrong");
        EXPECT(sgn(x.natural_order(y)) == -sgn(y.natural_order(x)), "empty-view.natural", "natural_order is not antisymmetric");
        EXPECT(x.find(y) == a.find(b), "empty-view.find", "find is wrong");
        EXPECT(x.find('a') == a.find('a'), "empty-view.find", "find of a character is wrong");
        EXPECT(x.starts_with(y) == (a.compare(0, b.size(), b) == 0), "empty-view.starts_with", "starts_with is wrong");
        EXPECT(x.starts_with(b.c_str()) == (a.compare(0, b.size(), b) == 0), "empty-view.starts_with", "starts_with is wrong");
        EXPECT(S(x.substr()) == a && S(x.substr(0, 0)) == "" && S(x.substr(a.size())) == "", "empty-view.substr", "substr is wrong");
        EXPECT(throws_py([&] { x.substr(a.size() + 1); }), "empty-view.substr", "substr past the end");
        EXPECT(throws_py([&] { (void)x[a.size()]; }), "empty-view.index", "index past the end");
        EXPECT(a.size() || throws_py([&] { (void)x.front(); }), "empty-view.front", "front of nothing");
        if(i != j)
            EXPECT(!x.overlaps(y), "empty-view.overlaps", "separate views overlap");
        EXPECT(x.upper().size() == a.size() && x.lower().size() == a.size(), "empty-view.case", "case mapping changed the size");
        size_t n = 0;
        x.split([](const CStringView &, void *p) { ++*(size_t *)p; return true; }, &n);
        for(char ch : x)
            n += ch == 'a';
        CString s(x);
        EXPECT(std::string(s.c_str()) == a, "empty-view.cstring", "CString of it is %s", s.c_str());
        s = y;
        EXPECT(std::string(s.c_str()) == b, "empty-view.assign", "CString assigned from it is %s", s.c_str());
        s += x;
        EXPECT(std::string(s.c_str()) == b + a, "empty-view.append", "CString with it added is %s", s.c_str());
        s.append(x.data(), x.size());
        EXPECT(std::string(s.c_str()) == b + a + a, "empty-view.append", "CString with it appended is %s", s.c_str());
        s.append(x.begin(), x.end());
        EXPECT(std::string(s.c_str()) == b + a + a + a, "empty-view.append", "CString with its range appended is %s", s.c_str());
        s.insert(0, y);
        EXPECT(std::string(s.c_str()) == b + b + a + a + a, "empty-view.insert", "CString with it inserted is %s", s.c_str());
        EXPECT(s.find(y) == (b + b + a + a + a).find(b), "empty-view.find", "CString::find of it is wrong");
        EXPECT((s == x) == (b + b + a + a + a == a), "empty-view.equal", "CString == view is wrong");
        FixedCString<64> f(x.data(), (uint32_t)x.size()), g;
        EXPECT(std::string(f.c_str()) == a, "empty-view.fixed", "FixedCString of it is %s", f.c_str());
        g = y;
        EXPECT(std::string(g.c_str()) == b && (g == y) && (g == x) == (a == b), "empty-view.fixed", "FixedCString assigned from it is %s", g.c_str());
        Path p("x.y");
        p.replace_extension(x);
        EXPECT(std::string(p.c_str()) == "x" + a, "empty-view.extension", "replace_extension gives %s", p.c_str());
        Hasher<SimpleHash> h1, h2;
        h1.feed_hash(x);
        h2.feed_hash(CString(a.c_str()));
        EXPECT(h1.get_hash_value() == h2.get_hash_value(), "empty-view.hash", "the hash differs from that of the CString");
    }
    {
        ZStringView x = zv(i), y = zv(j);
        EXPECT(x.size() == a.size(), "empty-zview.size", "size %zu", x.size());
        EXPECT((x == b.c_str()) == (a == b), "empty-zview.equal", "== text is wrong");
        if(y.c_str())
            EXPECT((x == y) == (a == b), "empty-zview.equal", "== is wrong");
        else
            EXPECT((x == y) == (a == b), "empty-zview.equal", "== a view without an address is wrong");
        EXPECT(S(x.view()) == a, "empty-zview.view", "view is wrong");
        EXPECT(x.subview(0).size() == a.size() && x.subview(a.size()).size() == 0, "empty-zview.subview", "subview is wrong");
        EXPECT(throws_py([&] { x.subview(a.size() + 1); }), "empty-zview.subview", "subview past the end");
        Hasher<SimpleHash> h1, h2;
        h1.feed_hash(x);
        h2.feed_hash(CString(a.c_str()));
        EXPECT(h1.get_hash_value() == h2.get_hash_value(), "empty-zview.hash", "the hash differs from that of the CString");
    }
    {
        U8StringView x = uv(i), y = uv(j), copy(x);
        EXPECT(x.size_bytes() == a.size(), "empty-u8view.size", "size %zu", x.size_bytes());
        EXPECT((x == y) == (a == b) && (x == b.c_str()) == (a == b) && copy == x, "empty-u8view.equal", "== is wrong");
        EXPECT(S(x.raw_view()) == a, "empty-u8view.raw", "raw_view is wrong");
        if(i != j)
            EXPECT(!x.overlaps(y), "empty-u8view.overlaps", "separate views overlap");
        size_t n = 0;
        for(auto it = x.begin(); it != x.end(); ++it)
            n += *it == 'a';
        auto sp = x.split_ascii();
        while(auto w = sp.next())
            n += w->size_bytes();
        EXPECT(x.upper().lower().size_bytes() >= 0, "empty-u8view.case", "");
        U8String s(x);
        EXPECT(std::string(s.c_str()) == a, "empty-u8view.string", "U8String of it is %s", s.c_str());
        EXPECT(!s.overlaps(y) && !s.contains(y), "empty-u8view.contains", "a string contains a foreign view");
        EXPECT(throws_py([&] { s.remove(y); }), "empty-u8view.remove", "a foreign view was removed");
        s.insert(s.cbegin(), y);
        EXPECT(std::string(s.c_str()) == b + a, "empty-u8view.insert", "U8String with it inserted is %s", s.c_str());
        s = y;
        EXPECT(std::string(s.c_str()) == b, "empty-u8view.assign", "U8String assigned from it is %s", s.c_str());
        Hasher<SimpleHash> h1, h2;
        h1.feed_hash(x);
        h2.feed_hash(CString(a.c_str()));
        EXPECT(h1.get_hash_value() == h2.get_hash_value(), "empty-u8view.hash", "the hash differs from that of the CString");
    }
    {
        Bytes x, y(b.data(), b.size()), z(nullptr, (size_t)0), w((const char *)nullptr, (const char *)nullptr);
        EXPECT(x == z && x == w && (x == y) == b.empty() && (x < y) == !b.empty() && (x <=> y) == (b.empty() ? 0 : -1),
               "empty-bytes.compare", "comparison is wrong");
        Bytes k(x), m;
        m = x;
        m += x;
        m += y;
        y += x;
        EXPECT(m == y && m.size() == b.size() && k.is_empty(), "empty-bytes.append", "size %zu", m.size());
        m.append(nullptr, nullptr);
        m.assign(nullptr, 0);
        EXPECT(m.is_empty(), "empty-bytes.assign", "size %zu after assigning nothing", m.size());
        x.pop_back();
        x.pop_front();
        x.remove(0, 0);
        x.shrink(0);
        x.extend(0);
        x.resize_to(0);
        x.clear();
        EXPECT(x.size() == 0 && x.span().size() == 0 && x.begin() == x.end(), "empty-bytes.size", "size %zu", x.size());
        EXPECT(throws_py([&] { x.front(); }) && throws_py([&] { x.back(); }) && throws_py([&] { (void)x[0]; }), "empty-bytes.access",
               "access to nothing");
        if(!b.empty()) {
            y.insert(0, nullptr, 0);
            EXPECT(y.size() == b.size(), "empty-bytes.insert", "size %zu", y.size());
        }
        Hasher<SimpleHash> h1, h2;
        h1.feed_hash(x);
        h2.feed_hash(CStringView());
        EXPECT(h1.get_hash_value() == h2.get_hash_value(), "empty-bytes.hash", "hash of nothing differs");
        U8String u{Bytes()};
        CString s{Bytes()};
        EXPECT(u.is_empty() && s.is_empty(), "empty-bytes.strings", "strings of nothing are not empty");
    }
    {
        Span<int> x, y(x);
        EXPECT(x.size() == 0 && x.is_empty() && x.begin() == x.end() && x.subspan(0).size() == 0 && x.subspan(0, 0).size() == 0 && y.size() == 0,
               "empty-span", "a span of nothing has elements");
        EXPECT(throws_py([&] { (void)x[0]; }) && throws_py([&] { x.subspan(1); }) && throws_py([&] { x.subspan(0, 1); }), "empty-span", "access to nothing");
        Vector<int> v, w(v), z(x.begin(), x.end());
        v.append(x.begin(), x.end());
        v.assign(x.begin(), x.end());
        v.append_with_default(0);
        v.clear();
        EXPECT(v.is_empty() && v == w && v == z && !v.pop_back() && v.span().size() == 0 && v.begin() == v.end(), "empty-vector", "a vector of nothing has elements");
        EXPECT(throws_py([&] { v.front(); }) && throws_py([&] { v.back(); }) && throws_py([&] { (void)v[0]; }), "empty-vector", "access to nothing");
        MMapping mm, mo;
        mm = P::move(mo);
        EXPECT(mm.span().size() == 0, "empty-mapping", "a mapping of nothing has bytes");
        Path p, q(""), e = p / q;
        EXPECT(p.is_empty() && e.is_empty() && !p.is_abs() && p.split().is_empty() && p.filename().is_empty() && p.extension().is_empty() && !p.exists() &&
                   !p.is_dir() && !p.is_file() && !p.load_bytes(),
               "empty-path", "a path of nothing is something");
    }
    for(auto &s : {CString(), CString(""), CString(CStringView())})
        EXPECT(s.size() == 0 && s.view().size() == 0 && s.zview().size() == 0 && s == "" && s.split().is_empty() && s.split_by(' ').is_empty() &&
                   s.rfind('a') == (size_t)-1 && s.substr(0).is_empty() && s.upper().is_empty(),
               "empty-cstring", "an empty string is not empty");
}
} // namespace
VH_SUITE("P03", views_of_nothing, 1) { nothing_shown(c); }
VH_ALSO(P28, views_of_nothing, 1)

// long, nearly periodic needles and haystacks: what skip tables and failure functions get wrong
VH_SUITE("P03", find_long, 1) {
    auto &r = c.rng;
    std::string period;
    for(size_t k = 1 + r.below(r.chance(1, 3) ? 300 : 6), al = r.chance(1, 6) ? 256 : 2 + r.below(3); k; --k)
        period += al == 256 ? (char)(1 + r.below(255)) : (char)('a' + r.below(al));
    auto periodic = [&](size_t n) {
        std::string s;
        while(s.size() < n)
            s += period;
        s.resize(n);
        for(size_t k = r.below(3); k && n; --k)
            s[r.below(n)] = r.chance(1, 4) ? (char)(1 + r.below(255)) : period[r.below(period.size())];
        return s;
    };
    for(int rounds = 0; rounds < 6; rounds++) {
        const size_t top = r.chance(1, 8) ? 70000 : r.chance(1, 2) ? 2500 : 400;
        std::string h = periodic(r.below(top)), n;
        if(r.chance(1, 3))
            n = periodic(r.below(std::min<size_t>(top, 5000)));
        else if(!h.empty()) {
            size_t at = r.below(h.size()), len = r.chance(1, 4) ? h.size() - at : r.below(std::min<size_t>(h.size() - at, 3000) + 1);
            n = h.substr(at, len);
            if(!n.empty() && r.chance(1, 3)) // once in the haystack, late
                n[r.below(n.size())] ^= 3;
            if(!n.empty() && r.chance(1, 3)) {
                size_t to = h.size() - n.size();
                to -= std::min<size_t>(to, r.below(3) * r.below(300));
                h.replace(to, n.size(), n);
            }
        }
        for(auto &x : n)
            if(!x)
                x = 1;
        for(auto &x : h)
            if(!x)
                x = 1;
        c.mixs(h.data(), h.size());
        c.mixs(n.data(), n.size());
        c.note("period %zu haystack %zu needle %zu", period.size(), h.size(), n.size());
        vh::Exact eh(h), en(n);
        CStringView vh_(eh.p, eh.n), vn(en.p, en.n);
        size_t want = h.find(n);
        EXPECT(vh_.find(vn) == want, "find.long", "find gives %zd, expected %zd (haystack %zu, needle %zu)", (ssize_t)vh_.find(vn), (ssize_t)want, h.size(), n.size());
        CString s(vh_);
        EXPECT(s.find(vn) == want, "find.long", "CString::find gives %zd, expected %zd", (ssize_t)s.find(vn), (ssize_t)want);
        EXPECT(vh_.starts_with(vn) == (want == 0), "starts_with.long", "starts_with");
        c.cover("find.needle-bytes", n.size());
        if(want != std::string::npos)
            c.cover("find.found-at", want);
    }
}
