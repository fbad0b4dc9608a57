// Sizes around and above two to the power of sixteen (and now and then a megabyte) for every
// container and string: counters, offsets or limits that are too narrow only show up here.
#include "common26.hpp"
#include "tracked.hpp"
#include <map>
#include <set>
#include <memory>
#include <pystd2026_btree.hpp>
#include <pystd2026_hashtable.hpp>
using vh::Case;

namespace {
// moderate sizes mostly, every few cases one beyond 16 bits
size_t big_size(Case &c, unsigned odds = 4, size_t cap = (size_t)-1) {
    auto &r = c.rng;
    static const size_t b[] = {65534, 65535, 65536, 65537, 65538, 66000, 70000, 131071, 131072, 131073};
    size_t n;
    if(r.chance(1, odds)) {
        switch(r.below(6)) {
        case 0:
            n = 65536 + r.below(200000);
            break;
        case 1:
            n = r.chance(1, c.thorough ? 3 : 8) ? 1048576 + r.below(100000) : 65537 + r.below(3000);
            break;
        default:
            n = b[r.below(sizeof b / sizeof *b)];
        }
        if(n > cap)
            n = cap;
        c.cover("sizes-beyond-16-bits", n > 65535);
    } else {
        n = 1000 + r.below(r.chance(1, 3) ? 40000 : 4000);
        if(n > cap)
            n = cap;
    }
    c.note("size %zu", n);
    c.mix(n);
    return n;
}
std::string rnd(vh::Rng &r, size_t n, unsigned mode) {
    std::string s(n, 0);
    uint64_t x = r.next() | 1;
    for(auto &ch : s) {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        unsigned v = (unsigned)(x >> 33);
        switch(mode) {
        case 0:
            ch = (char)v; // any byte
            break;
        case 1:
            ch = (char)(1 + v % 255); // no NUL
            break;
        case 2:
            ch = "ab"[v & 1];
            break;
        case 3:
            ch = v % 40 ? (char)('a' + v % 26) : " \n\t,"[v / 40 % 4]; // words
            break;
        default:
            ch = 'a';
        }
    }
    return s;
}
size_t some_at(vh::Rng &r, size_t n) { // an offset, often near the end or near 65536
    if(!n)
        return 0;
    switch(r.below(5)) {
    case 0:
        return n - 1 - r.below(n < 20 ? n : 20);
    case 1:
        return n > 65560 ? 65530 + r.below(20) : r.below(n);
    case 2:
        return r.below(n < 20 ? n : 20);
    default:
        return r.below(n);
    }
}
size_t some_len(vh::Rng &r, size_t max) { return r.chance(1, 3) ? r.below(max + 1) : r.below(std::min<size_t>(max, 40) + 1); }

void same_bytes(Case &c, const char *p, size_t n, const std::string &m, const char *what) {
    EXPECT(n == m.size(), "large.size", "%s: %zu bytes, expected %zu", what, n, m.size());
    if(n && memcmp(p, m.data(), n) != 0) {
        size_t i = 0;
        while(p[i] == m[i])
            ++i;
        c.fail("large.contents", "%s: byte %zu of %zu is %d, expected %d", what, i, n, p[i], m[i]);
    }
    c.ok();
}
} // namespace

// ------------------------------------------------------------------ P01
VH_SUITE("P01", bytes_large, 1) {
    auto &r = c.rng;
    size_t n = big_size(c);
    std::string m = rnd(r, n, r.below(4));
    P::Bytes b(m.data(), m.size());
    same_bytes(c, b.data(), b.size(), m, "construction");
    for(int s = 0; s < 14; s++) {
        size_t at = some_at(r, m.size()), len = some_len(r, std::min<size_t>(m.size() - at, 70000));
        std::string t = rnd(r, some_len(r, 70000), 0);
        int op = r.below(14);
        c.note("op %d at %zu len %zu text %zu", op, at, len, t.size());
        c.mix(op * 1000003 + at * 31 + t.size());
        switch(op) {
        case 0:
            b.append(t.data(), t.data() + t.size());
            m += t;
            break;
        case 1:
            b.insert(at, t.data(), t.size());
            m.insert(at, t);
            break;
        case 2:
            b.remove(at, at + len);
            m.erase(at, len);
            break;
        case 3:
            b.pop_front(len);
            m.erase(0, len);
            break;
        case 4:
            b.pop_back(len);
            m.resize(m.size() - std::min(m.size(), len));
            break;
        case 5: {
            P::Bytes o(t.data(), t.size());
            b += o;
            m += t;
            break;
        }
        case 6: {
            P::Bytes o(b);
            same_bytes(c, o.data(), o.size(), m, "copy");
            P::Bytes o2(P::move(b));
            same_bytes(c, o2.data(), o2.size(), m, "move");
            b = P::move(o2);
            b = b;
            break;
        }
        case 7:
            for(size_t i = 0; i < 200; i++)
                b.append((char)i);
            for(size_t i = 0; i < 200; i++)
                m += (char)i;
            break;
        case 8: {
            b.extend(len);
            EXPECT(b.size() == m.size() + len, "large.size", "extend by %zu", len);
            memset(b.data() + m.size(), 'e', len);
            m.append(len, 'e');
            break;
        }
        case 9:
            b.shrink(len);
            m.resize(m.size() - len);
            break;
        case 10: {
            size_t to = r.below(200000), keep = std::min(to, m.size());
            b.resize(to);
            EXPECT(b.size() == to, "large.size", "resize to %zu", to);
            if(to > keep)
                memset(b.data() + keep, 'r', to - keep);
            m.resize(keep);
            m.append(to - keep, 'r');
            break;
        }
        case 11:
            b.assign(t.data(), t.size());
            m = t;
            break;
        case 12:
            if(m.size() < 600000) {
                b += b;
                m += std::string(m);
            }
            break;
        default: {
            // one differing byte somewhere, or one text a prefix of the other
            std::string d = m;
            if(!d.empty() && r.chance(3, 4))
                d[at] = (char)(d[at] ^ (1u << r.below(8)));
            else
                d.resize(d.size() - len);
            P::Bytes o(d.data(), d.size());
            int w = ulex(m, d);
            EXPECT((b == o) == (w == 0), "large.compare", "== of %zu and %zu bytes that differ at %zu", m.size(), d.size(), at);
            EXPECT((b < o) == (w < 0) && (o < b) == (w > 0), "large.compare", "< of %zu and %zu bytes that differ at %zu", m.size(),
                   d.size(), at);
            EXPECT(sgn(b <=> o) == w, "large.compare", "<=> of %zu and %zu bytes that differ at %zu", m.size(), d.size(), at);
        }
        }
        same_bytes(c, b.data(), b.size(), m, "after the operation");
        if(m.size()) {
            size_t i = some_at(r, m.size());
            EXPECT(b[i] == m[i] && b.front() == m.front() && b.back() == m.back(), "large.index", "element %zu", i);
        }
        EXPECT(throws_py([&] { (void)b[m.size()]; }), "large.index", "element %zu of as many", m.size());
    }
}

// ------------------------------------------------------------------ P02
VH_SUITE("P02", cstring_large, 1) {
    auto &r = c.rng;
    size_t n = big_size(c);
    std::string m = rnd(r, n, 1 + r.below(3));
    P::CString s(m.data(), m.size());
    for(int k = 0; k < 12; k++) {
        size_t at = some_at(r, m.size()), len = some_len(r, std::min<size_t>(m.size() - at, 70000));
        std::string t = rnd(r, some_len(r, 70000), 1);
        int op = r.below(14);
        c.note("op %d at %zu len %zu text %zu", op, at, len, t.size());
        c.mix(op * 1000003 + at * 31 + t.size());
        switch(op) {
        case 0:
            s.append(t.data(), t.size());
            m += t;
            break;
        case 1:
            s.append(t.data(), t.data() + t.size());
            m += t;
            break;
        case 2:
            s += t.c_str();
            m += t;
            break;
        case 3: {
            P::CString o(t.data(), t.size());
            s += o;
            m += t;
            break;
        }
        case 4:
            s.insert(at, P::CStringView(t.data(), t.size()));
            m.insert(at, t);
            break;
        case 5:
            s.remove(at, at + len);
            m.erase(at, len);
            break;
        case 6: {
            P::CString o = s.substr(at, len);
            std::string w = m.substr(at, len);
            same_bytes(c, o.c_str(), o.size(), w, "substr");
            EXPECT(o.c_str()[o.size()] == 0, "large.nul", "substr not terminated");
            break;
        }
        case 7: {
            std::string pad(some_len(r, 70000), ' ');
            s.insert(0, P::CStringView(pad.data(), pad.size()));
            s.append(pad.data(), pad.size());
            s.append('\n');
            s.strip();
            m = pad + m + pad + "\n";
            size_t a = m.find_first_not_of(" \t\n\r"), z = m.find_last_not_of(" \t\n\r");
            m = a == std::string::npos ? "" : m.substr(a, z - a + 1);
            break;
        }
        case 8:
            for(size_t i = 0; i < 50 && m.size(); i++) {
                s.pop_back();
                m.pop_back();
            }
            break;
        case 9: {
            size_t to = r.below(200000);
            s.resize(to);
            m.resize(to, ' ');
            break;
        }
        case 10:
            s = t.c_str();
            m = t;
            break;
        case 11: // own text
            if(m.size() < 600000) {
                s.append(s.c_str() + at, len);
                m += m.substr(at, len);
                s += s;
                m += std::string(m);
            }
            break;
        case 12: {
            P::CString o(s), o2;
            o2 = o;
            o = P::move(s);
            s = P::move(o);
            EXPECT(s == o2, "large.copy", "copies differ");
            break;
        }
        default: {
            std::string d = m;
            if(!d.empty())
                d[at] = d[at] == 'q' ? 'r' : 'q';
            P::CString o(d.data(), d.size());
            int w = ulex(m, d);
            EXPECT((s == o) == (w == 0) && sgn(s <=> o) == w && (s < o) == (w < 0), "large.compare", "%zu bytes, differ at %zu",
                   m.size(), at);
            EXPECT((s == d.c_str()) == (w == 0), "large.compare", "== with a C string, differ at %zu", at);
        }
        }
        same_bytes(c, s.c_str(), s.size(), m, "after the operation");
        EXPECT(s.c_str()[m.size()] == 0 && strlen(s.c_str()) == m.size(), "large.nul", "NUL at %zu of %zu", strlen(s.c_str()), m.size());
    }
}

// ------------------------------------------------------------------ P03
VH_SUITE("P03", view_large, 1) {
    auto &r = c.rng;
    size_t n = big_size(c);
    std::string m = rnd(r, n, 1 + r.below(4));
    size_t mark = some_at(r, n);
    if(r.chance(2, 3))
        m[mark] = '#';
    vh::Exact e(m);
    P::CStringView v(e.p, e.n);
    EXPECT(v.size() == n, "large.size", "view of %zu", n);
    c.mixs(m.data() + mark, 1);
    c.note("mark at %zu", mark);
    EXPECT(v.find('#') == m.find('#'), "large.find", "find(char) %zu, expected %zu", v.find('#'), m.find('#'));
    {
        size_t at = some_at(r, n), len = 1 + r.below(std::min<size_t>(n - at, 60));
        std::string nd = m.substr(at, len);
        if(r.chance(1, 3))
            nd.back() ^= 1;
        vh::Exact ne(nd);
        P::CStringView nv(ne.p, ne.n);
        EXPECT(v.find(nv) == m.find(nd), "large.find", "find of %zu bytes: %zu, expected %zu", len, v.find(nv), m.find(nd));
        if(nd.find('\0') == std::string::npos) {
            P::CString cs(m.data(), m.size());
            EXPECT(cs.find(nv) == m.find(nd), "large.find", "CString::find %zu, expected %zu", cs.find(nv), m.find(nd));
        }
    }
    {
        P::CString cs(m.data(), m.size());
        EXPECT(cs.rfind('#') == m.rfind('#'), "large.rfind", "rfind %zu, expected %zu", cs.rfind('#'), m.rfind('#'));
        char ch = m[some_at(r, n)];
        EXPECT(cs.rfind(ch) == m.rfind(ch) && v.find(ch) == m.find(ch), "large.rfind", "rfind(%d)", ch);
        std::vector<std::string> want;
        for(size_t i = 0; i < n;) {
            while(i < n && strchr(" \t\n\r", m[i]))
                ++i;
            size_t a = i;
            while(i < n && !strchr(" \t\n\r", m[i]))
                ++i;
            if(i > a)
                want.push_back(m.substr(a, i - a));
        }
        auto parts = cs.split();
        // (\v, \f are plain text to some definitions: only compare where none occurs)
        if(m.find('\v') == std::string::npos && m.find('\f') == std::string::npos) {
            EXPECT(parts.size() == want.size(), "large.split", "%zu parts, expected %zu", parts.size(), want.size());
            for(size_t i = 0; i < want.size(); i++)
                EXPECT(parts[i].size() == want[i].size() && memcmp(parts[i].c_str(), want[i].data(), want[i].size()) == 0, "large.split",
                       "part %zu", i);
        }
        char sep = r.chance(1, 2) ? '#' : m[some_at(r, n)];
        std::vector<std::string> w2;
        for(size_t a = 0;;) {
            size_t z = m.find(sep, a);
            if(z == std::string::npos) {
                w2.push_back(m.substr(a));
                break;
            }
            w2.push_back(m.substr(a, z - a));
            a = z + 1;
        }
        auto p2 = cs.split_by(sep);
        // the treatment of empty parts is settled elsewhere: here the non-empty ones in order
        std::vector<std::string> g2;
        for(auto &x : p2)
            if(x.size())
                g2.push_back(std::string(x.c_str(), x.size()));
        w2.erase(std::remove(w2.begin(), w2.end(), std::string()), w2.end());
        EXPECT(g2 == w2, "large.split_by", "split_by(%d): %zu non-empty parts, expected %zu", sep, g2.size(), w2.size());
        auto U = cs.upper(), L = v.lower();
        std::string u = m, l = m;
        for(auto &x : u)
            x = x >= 'a' && x <= 'z' ? x - 32 : x;
        for(auto &x : l)
            x = x >= 'A' && x <= 'Z' ? x + 32 : x;
        same_bytes(c, U.c_str(), U.size(), u, "upper");
        same_bytes(c, L.c_str(), L.size(), l, "lower");
    }
    {
        size_t at = some_at(r, n), len = some_len(r, n - at);
        auto sv = v.substr(at, len);
        std::string w = m.substr(at, len);
        same_bytes(c, sv.data(), sv.size(), w, "substr");
        auto tail = v.substr(at);
        same_bytes(c, tail.data(), tail.size(), m.substr(at), "substr to the end");
    }
    {
        std::string d = m;
        size_t at = some_at(r, n);
        if(r.chance(2, 3))
            d[at] = d[at] == 'Q' ? 'R' : 'Q';
        if(r.chance(1, 4))
            d.resize(at);
        vh::Exact de(d);
        P::CStringView dv(de.p, de.n);
        int w = ulex(m, d);
        EXPECT((v == dv) == (w == 0) && (v < dv) == (w < 0) && (dv < v) == (w > 0), "large.compare",
               "views of %zu and %zu bytes that differ at %zu", n, d.size(), at);
        EXPECT(v.starts_with(dv) == (m.compare(0, d.size(), d) == 0 && d.size() <= n), "large.starts_with", "starts_with of %zu bytes",
               d.size());
    }
    EXPECT(v[n - 1] == m[n - 1] && throws_py([&] { (void)v[n]; }), "large.index", "last element");
}

// ------------------------------------------------------------------ P04
namespace {
// Capacities at and around the places where a narrower size would no longer do.
template<size_t CAP> void fixed_large_with(Case &c) {
    auto &r = c.rng;
    typedef P::FixedVector<int, CAP> FV;
    std::unique_ptr<FV> v(new FV), o(new FV);
    std::vector<int> m;
    bool full = r.chance(1, 3);
    size_t n = full ? CAP : CAP - CAP / 11 + r.below(CAP / 11);
    c.note("%zu elements", n);
    c.mix(n);
    for(size_t i = 0; i < n; i++) {
        if(i & 1)
            v->push_back((int)i);
        else
            EXPECT(v->try_push_back((int)i), "large.push", "refused at %zu", i);
        m.push_back((int)i);
    }
    for(int k = 0; k < 12; k++) {
        size_t at = some_at(r, m.size());
        int op = r.below(7);
        c.mix(op * 100003 + at);
        switch(op) {
        case 0: {
            bool th = throws_py([&] { v->insert(at, -5); });
            EXPECT(th == (m.size() == CAP), "large.capacity", "insert with %zu of %zu: threw=%d", m.size(), CAP, th);
            if(!th)
                m.insert(m.begin() + at, -5);
            break;
        }
        case 1: {
            v->delete_at(at);
            m.erase(m.begin() + at);
            break;
        }
        case 2:
            v->pop_front();
            m.erase(m.begin());
            break;
        case 3:
            v->pop_back();
            m.pop_back();
            break;
        case 4: {
            bool ok = v->try_emplace_back(77);
            EXPECT(ok == (m.size() < CAP), "large.capacity", "try_emplace_back with %zu of %zu: %d", m.size(), CAP, ok);
            if(ok)
                m.push_back(77);
            break;
        }
        case 5:
            *o = P::move(*v);
            EXPECT(v->size() == 0 && o->size() == m.size(), "large.move", "moved %zu", m.size());
            std::swap(v, o);
            break;
        default: {
            FV *t = o.get();
            while(t->size())
                t->pop_back();
            size_t room = CAP - m.size(), add = r.below(room + 3);
            for(size_t i = 0; i < add; i++)
                t->push_back((int)i);
            bool th = throws_py([&] { v->move_append(*t); });
            EXPECT(th == (add > room), "large.capacity", "move_append of %zu to %zu: threw=%d", add, m.size(), th);
            if(!th)
                for(size_t i = 0; i < add; i++)
                    m.push_back((int)i);
        }
        }
        EXPECT(v->size() == m.size(), "large.size", "%zu, expected %zu", v->size(), m.size());
        EXPECT(v->is_full() == (m.size() == CAP), "large.size", "is_full with %zu", m.size());
        EXPECT(memcmp(v->data(), m.data(), m.size() * sizeof(int)) == 0, "large.contents", "op %d at %zu", op, at);
        EXPECT(throws_py([&] { (void)(*v)[m.size()]; }), "large.index", "index past the end");
    }
    typedef P::FixedCString<CAP> FC;
    std::unique_ptr<FC> s(new FC);
    std::string t = rnd(r, CAP - 1 + r.below(4), 1);
    bool th = throws_py([&] { *s = P::CStringView(t.data(), t.size()); });
    EXPECT(th == (t.size() > CAP), "large.capacity", "FixedCString<%zu> assigned %zu: threw=%d", CAP, t.size(), th);
    if(!th) {
        same_bytes(c, s->c_str(), s->size(), t, "FixedCString");
        EXPECT(s->c_str()[t.size()] == 0 && *s == P::CStringView(t.data(), t.size()) && *s == t.c_str(), "large.nul", "FixedCString");
        std::string d = t;
        size_t where = t.size() - 1 - r.below(t.size() < 400 ? t.size() : 400);
        d[where] ^= 3;
        EXPECT(!(*s == P::CStringView(d.data(), d.size())), "large.compare", "FixedCString differs at %zu", where);
        FC copy(*s);
        copy.pop_back();
        t.pop_back();
        same_bytes(c, copy.c_str(), copy.size(), t, "FixedCString pop_back");
    } else {
        EXPECT(s->size() == 0 && s->c_str()[0] == 0, "large.capacity", "refused assignment changed the string");
    }
}
} // namespace
VH_SUITE("P04", fixed_large, 1) {
    switch(c.rng.below(7)) {
    case 0:
        return fixed_large_with<255>(c);
    case 1:
        return fixed_large_with<256>(c);
    case 2:
        return fixed_large_with<257>(c);
    case 3:
        return fixed_large_with<65535>(c);
    case 4:
        return fixed_large_with<65536>(c);
    case 5:
        return fixed_large_with<65537>(c);
    default:
        return fixed_large_with<66000>(c);
    }
}

// ------------------------------------------------------------------ P05, P06
namespace {
void put8(std::string &s, uint32_t x) {
    if(x < 0x80)
        s += (char)x;
    else if(x < 0x800) {
        s += (char)(0xC0 | x >> 6);
        s += (char)(0x80 | (x & 63));
    } else if(x < 0x10000) {
        s += (char)(0xE0 | x >> 12);
        s += (char)(0x80 | (x >> 6 & 63));
        s += (char)(0x80 | (x & 63));
    } else {
        s += (char)(0xF0 | x >> 18);
        s += (char)(0x80 | (x >> 12 & 63));
        s += (char)(0x80 | (x >> 6 & 63));
        s += (char)(0x80 | (x & 63));
    }
}
std::vector<uint32_t> cps_of_bytes(vh::Rng &r, size_t bytes, std::string &out) {
    std::vector<uint32_t> v;
    unsigned mode = r.below(3);
    out.clear();
    while(out.size() < bytes) {
        uint32_t x;
        unsigned k = mode == 0 ? 0 : mode == 1 ? r.below(4) : 1 + r.below(3);
        x = k == 0 ? (r.chance(1, 30) ? " \n,"[r.below(3)] : 'a' + r.below(26))
            : k == 1 ? 0x80 + r.below(0x780)
            : k == 2 ? (r.chance(1, 2) ? 0x800 + r.below(0xD000) : 0xE000 + r.below(0x2000))
                     : 0x10000 + r.below(0x100000);
        size_t w = k + 1;
        if(out.size() + w > bytes)
            x = 'z';
        put8(out, x);
        v.push_back(x);
    }
    return v;
}
} // namespace
VH_SUITE("P05", utf8_large, 1) {
    auto &r = c.rng;
    std::string s;
    size_t n = big_size(c);
    cps_of_bytes(r, n, s);
    for(int k = 0; k < 4; k++) {
        std::string t = s;
        bool valid = true, nul = false;
        size_t at = some_at(r, n);
        unsigned kind = r.below(6);
        switch(kind) {
        case 0:
            break;
        case 1:
            t[at] = (char)0xFF;
            valid = false;
            break;
        case 2: // a stray continuation byte between characters
            while(at < n && ((unsigned char)t[at] & 0xC0) == 0x80)
                ++at;
            t.insert(at, 1, (char)0x80);
            valid = false;
            break;
        case 3: // cut inside the last character
            t += "\xF0\x9F\x92\xA9";
            t.resize(t.size() - 1 - r.below(3));
            valid = false;
            break;
        case 4: // a surrogate
            while(at < n && ((unsigned char)t[at] & 0xC0) == 0x80)
                ++at;
            t.insert(at, "\xED\xA0\x80");
            valid = false;
            break;
        default:
            while(at < n && ((unsigned char)t[at] & 0xC0) == 0x80)
                ++at;
            t.insert(at, 1, '\0');
            nul = true;
        }
        c.note("kind %u at %zu", kind, at);
        c.mix(kind * 1000003 + at);
        vh::Exact e(t);
        bool th = throws_py([&] {
            P::U8StringView v(e.p, e.n);
            EXPECT(v.size_bytes() == t.size() && memcmp(v.data(), t.data(), t.size()) == 0, "large.contents", "view");
        });
        EXPECT(th == !valid, "large.utf8-view", "U8StringView of %zu bytes, kind %u at %zu: threw=%d", t.size(), kind, at, th);
        th = throws_py([&] {
            P::U8String v(e.p, e.n);
            same_bytes(c, v.c_str(), v.size_bytes(), t, "U8String");
        });
        EXPECT(th == (!valid || nul), "large.utf8-string", "U8String of %zu bytes, kind %u at %zu: threw=%d", t.size(), kind, at, th);
        th = throws_py([&] { P::U8String v(P::Bytes(t.data(), t.size())); });
        EXPECT(th == (!valid || nul), "large.utf8-bytes", "U8String from Bytes, kind %u at %zu: threw=%d", kind, at, th);
    }
}
VH_SUITE("P06", u8_large, 1) {
    auto &r = c.rng;
    std::string s;
    size_t n = big_size(c);
    auto m = cps_of_bytes(r, n, s);
    P::U8String u(s.data(), s.size());
    auto verify = [&](const char *what) {
        s.clear();
        for(auto x : m)
            put8(s, x);
        same_bytes(c, u.c_str(), u.size_bytes(), s, what);
    };
    size_t i = 0;
    for(auto it = u.cbegin(); it != u.cend(); ++it, ++i)
        if(!(i < m.size() && *it == m[i]))
            c.fail("large.forward", "code point %zu of %zu", i, m.size());
    EXPECT(i == m.size(), "large.forward", "%zu code points, expected %zu", i, m.size());
    for(auto it = u.crbegin(); it != u.crend(); ++it) {
        if(!(i > 0 && *it == m[i - 1]))
            c.fail("large.reverse", "code point %zu of %zu", i, m.size());
        --i;
    }
    EXPECT(i == 0, "large.reverse", "%zu code points left", i);
    for(int k = 0; k < 8; k++) {
        int op = r.below(8);
        size_t at = some_at(r, m.size());
        c.note("op %d at %zu of %zu", op, at, m.size());
        c.mix(op * 1000003 + at);
        std::string ts;
        auto t = cps_of_bytes(r, some_len(r, 70000), ts);
        size_t off = 0; // byte offset of the code point at
        for(size_t q = 0; q < at; q++)
            off += m[q] < 0x80 ? 1 : m[q] < 0x800 ? 2 : m[q] < 0x10000 ? 3 : 4;
        switch(op) {
        case 0: {
            auto it = u.cbegin();
            for(size_t q = 0; q < at; q++)
                ++it;
            u.insert(it, P::U8StringView(ts.data(), ts.size()));
            m.insert(m.begin() + at, t.begin(), t.end());
            break;
        }
        case 1:
            if(m.size()) {
                u.pop_front();
                m.erase(m.begin());
            }
            break;
        case 2:
            if(m.size()) {
                u.pop_back();
                m.pop_back();
            }
            break;
        case 3: {
            uint32_t x = 0x10000 + r.below(0x1000);
            u.append_codepoint(x);
            m.push_back(x);
            break;
        }
        case 4: {
            P::U8String o(ts.data(), ts.size());
            u += o;
            m.insert(m.end(), t.begin(), t.end());
            break;
        }
        case 5: { // remove a part
            if(m.empty())
                break;
            size_t len = some_len(r, std::min<size_t>(m.size() - at, 30000));
            auto a = u.cbegin();
            for(size_t q = 0; q < at; q++)
                ++a;
            auto z = a;
            for(size_t q = 0; q < len; q++)
                ++z;
            u.remove(P::U8StringView(a, z));
            m.erase(m.begin() + at, m.begin() + at + len);
            break;
        }
        case 6: {
            std::string bs;
            for(auto x : m)
                put8(bs, x);
            size_t lenb = 0, q = at;
            size_t cnt = some_len(r, m.size() - at);
            for(; q < at + cnt; q++)
                lenb += m[q] < 0x80 ? 1 : m[q] < 0x800 ? 2 : m[q] < 0x10000 ? 3 : 4;
            P::U8String sub = u.substr(off, lenb);
            same_bytes(c, sub.c_str(), sub.size_bytes(), bs.substr(off, lenb), "substr");
            EXPECT(!u.contains(sub.view()), "large.contains", "a copy lies elsewhere");
            EXPECT(u.contains(P::U8StringView(u.c_str() + off, lenb)), "large.contains", "own part at %zu not found", off);
            break;
        }
        default: {
            auto parts = u.split_ascii();
            std::vector<std::string> want;
            std::string cur;
            for(auto x : m)
                if(x == ' ' || x == '\n' || x == '\t' || x == '\r') {
                    if(cur.size())
                        want.push_back(cur);
                    cur.clear();
                } else
                    put8(cur, x);
            if(cur.size())
                want.push_back(cur);
            EXPECT(parts.size() == want.size(), "large.split", "%zu parts, expected %zu", parts.size(), want.size());
            for(size_t q = 0; q < want.size(); q++)
                EXPECT(parts[q].size_bytes() == want[q].size() && memcmp(parts[q].c_str(), want[q].data(), want[q].size()) == 0,
                       "large.split", "part %zu", q);
        }
        }
        verify("after the operation");
    }
}
// ------------------------------------------------------------------ P07
VH_SUITE("P07", case_large, 1) {
    auto &r = c.rng;
    size_t n = big_size(c);
    // letters whose mapping is simple, plus one that grows
    std::string s, up, lo;
    while(s.size() < n) {
        switch(r.below(6)) {
        case 0:
            s += "ß";
            up += "SS";
            lo += "ß";
            break;
        case 1:
            s += "Ä";
            up += "Ä";
            lo += "ä";
            break;
        case 2:
            s += "ж";
            up += "Ж";
            lo += "ж";
            break;
        case 3:
            s += "ﬃ";
            up += "FFI";
            lo += "ﬃ";
            break;
        case 4:
            s += "漢";
            up += "漢";
            lo += "漢";
            break;
        default: {
            char ch = (char)('a' + r.below(26));
            s += ch;
            up += (char)(ch - 32);
            lo += ch;
        }
        }
    }
    vh::Exact e(s);
    P::U8StringView v(e.p, e.n);
    P::U8String u(s.data(), s.size());
    auto a = v.upper(), b = v.lower(), x = u.upper(), y = u.lower();
    same_bytes(c, a.c_str(), a.size_bytes(), up, "view upper");
    same_bytes(c, b.c_str(), b.size_bytes(), lo, "view lower");
    same_bytes(c, x.c_str(), x.size_bytes(), up, "string upper");
    same_bytes(c, y.c_str(), y.size_bytes(), lo, "string lower");
}

// ------------------------------------------------------------------ P08, P09
namespace {
template<typename T> struct Val;
template<> struct Val<int> {
    static int mk(int v) { return v; }
    static int val(const int &v) { return v; }
};
template<> struct Val<vt::Tracked> {
    static vt::Tracked mk(int v) { return vt::Tracked(v); }
    static int val(const vt::Tracked &v) { return v.val(); }
};
template<> struct Val<P::CString> {
    static P::CString mk(int v) {
        char b[64];
        snprintf(b, sizeof b, "%d", v);
        return P::CString(b);
    }
    static int val(const P::CString &v) { return atoi(v.c_str()); }
};
template<typename T> void vector_large(Case &c, size_t cap) {
    auto &r = c.rng;
    {
        size_t n = big_size(c, 5, cap);
        typedef Val<T> V;
        P::Vector<T> v;
        std::vector<int> m;
        if(r.chance(1, 3))
            v.reserve(n / 2);
        auto same = [&](const char *what) {
            EXPECT(v.size() == m.size(), "large.size", "%s: %zu elements, expected %zu", what, v.size(), m.size());
            for(size_t i = 0; i < m.size(); i++)
                if(V::val(v.unsafe_at(i)) != m[i])
                    c.fail("large.contents", "%s: element %zu of %zu is %d, expected %d", what, i, m.size(), V::val(v.unsafe_at(i)), m[i]);
            c.ok();
        };
        for(size_t i = 0; i < n; i++) {
            if(i % 3 == 0)
                v.push_back(V::mk((int)i));
            else if(i % 3 == 1)
                v.emplace_back(V::mk((int)i));
            else {
                T t = V::mk((int)i);
                v.push_back(t);
            }
            m.push_back((int)i);
        }
        same("growth");
        for(int k = 0; k < 6; k++) {
            int op = r.below(8);
            c.mix(op);
            c.note("op %d", op);
            switch(op) {
            case 0: {
                P::Vector<T> o(v);
                EXPECT(o.size() == v.size(), "large.size", "copy");
                v = P::move(o);
                break;
            }
            case 1: {
                P::Vector<T> o(P::move(v));
                v = P::move(o);
                break;
            }
            case 2:
                for(int i = 0; i < 500 && m.size(); i++) {
                    auto x = v.pop_back();
                    EXPECT(x && V::val(x.value()) == m.back(), "large.pop_back", "pop_back of %zu", m.size());
                    m.pop_back();
                }
                break;
            case 3: {
                if(m.empty())
                    break;
                size_t a = some_at(r, m.size()), z = a + r.below(m.size() - a);
                P::Vector<T> part(v.begin() + a, v.begin() + z);
                EXPECT(part.size() == z - a, "large.size", "range construction");
                v.append(part.begin(), part.end());
                std::vector<int> t(m.begin() + a, m.begin() + z);
                m.insert(m.end(), t.begin(), t.end());
                break;
            }
            case 4: { // own elements
                if(m.empty() || m.size() > 300000)
                    break;
                size_t a = some_at(r, m.size()), z = a + r.below(m.size() - a);
                bool th = throws_py([&] { v.append(v.begin() + a, v.begin() + z); });
                if(!th)
                    for(size_t i = a; i < z; i++)
                        m.push_back(m[i]);
                break;
            }
            case 5: {
                if(m.empty())
                    break;
                size_t a = some_at(r, m.size());
                v.push_back(v[a]);
                m.push_back(m[a]);
                break;
            }
            case 6: {
                P::Vector<T> o(v);
                EXPECT(o == v, "large.compare", "copies differ");
                if(m.size()) {
                    size_t a = some_at(r, m.size());
                    o[a] = V::mk(-77);
                    EXPECT(!(o == v) && o != v, "large.compare", "difference at %zu not seen", a);
                }
                break;
            }
            default: {
                if(m.empty())
                    break;
                size_t a = some_at(r, m.size()), z = a + r.below(m.size() - a);
                P::Vector<T> o(v);
                v.assign(o.begin() + a, o.begin() + z);
                std::vector<int> t(m.begin() + a, m.begin() + z);
                m = t;
            }
            }
            same("after the operation");
            EXPECT(throws_py([&] { (void)v[m.size()]; }), "large.index", "element past the end");
            if(m.size())
                EXPECT(V::val(v.front()) == m.front() && V::val(v.back()) == m.back(), "large.ends", "front or back");
        }
        if(r.chance(1, 3)) {
            v.clear();
            EXPECT(v.is_empty(), "large.clear", "%zu after clear", v.size());
        }
        P::Stack<T> st;
        size_t k = m.size() / 2;
        for(size_t i = 0; i < k; i++)
            st.push(V::mk(m[i]));
        for(size_t i = k; i-- > 0;) {
            EXPECT(V::val(st.top()) == m[i], "large.stack", "top at depth %zu", i);
            st.pop();
        }
        EXPECT(st.is_empty(), "large.stack", "not empty");
    }
    vt::verify_none_live(c);
}
} // namespace
VH_SUITE("P08", vector_large_int, 1) { vector_large<int>(c, 300000); }
VH_SUITE("P08", vector_large_text, 1) { vector_large<P::CString>(c, 70000); }
VH_SUITE("P09", vector_large_tracked, 1) { vector_large<vt::Tracked>(c, 68000); }

// ------------------------------------------------------------------ P10
namespace {
template<typename Vt> void map_large(Case &c, size_t cap) {
    auto &r = c.rng;
    {
        size_t n = big_size(c, 4, cap);
        typedef Val<Vt> V;
        P::HashMap<uint64_t, Vt> h;
        std::map<uint64_t, int> m;
        unsigned mode = r.below(3);
        auto key = [&](size_t i) { return mode == 0 ? (uint64_t)i : mode == 1 ? (uint64_t)i * 0x9E3779B97F4A7C15ull : (uint64_t)i << 16; };
        for(size_t i = 0; i < n; i++) {
            h.insert(key(i), V::mk((int)i));
            m[key(i)] = (int)i;
        }
        auto same = [&](const char *what) {
            EXPECT(h.size() == m.size(), "large.size", "%s: %zu entries, expected %zu", what, h.size(), m.size());
            size_t seen = 0;
            std::set<uint64_t> dup;
            for(auto kv : h) {
                auto it = m.find(*kv.key);
                if(it == m.end() || it->second != V::val(*kv.value) || !dup.insert(*kv.key).second)
                    c.fail("large.iteration", "%s: entry %llu", what, (unsigned long long)*kv.key);
                ++seen;
            }
            EXPECT(seen == m.size(), "large.iteration", "%s: %zu entries visited of %zu", what, seen, m.size());
            for(auto &kv : m) {
                auto *p = h.lookup(kv.first);
                if(!p || V::val(*p) != kv.second)
                    c.fail("large.lookup", "%s: key %llu", what, (unsigned long long)kv.first);
            }
            c.ok();
        };
        same("growth");
        for(int k = 0; k < 2; k++) {
            int op = r.below(5);
            c.note("op %d", op);
            c.mix(op);
            size_t a = some_at(r, n), z = a + r.below(n - a);
            switch(op) {
            case 0:
                for(size_t i = a; i < z; i++) {
                    h.remove(key(i));
                    m.erase(key(i));
                    if(h.contains(key(i)))
                        c.fail("large.remove", "key %zu is still there", i);
                }
                break;
            case 1:
                for(size_t i = a; i < z; i++) {
                    h.insert(key(i), V::mk(-(int)i));
                    m[key(i)] = -(int)i;
                }
                break;
            case 2: {
                P::HashMap<uint64_t, Vt> o(P::move(h));
                h = P::move(o);
                break;
            }
            case 3:
                for(size_t i = 0; i < 300; i++) {
                    uint64_t x = key(n + 10 + i);
                    if(h.contains(x) != (m.count(x) != 0))
                        c.fail("large.phantom", "absent key found");
                    h.remove(x);
                    m.erase(x);
                }
                break;
            default:
                h.clear();
                m.clear();
                for(size_t i = a; i < z; i++) {
                    h[key(i)] = V::mk((int)i);
                    m[key(i)] = (int)i;
                }
            }
            same("after the operation");
        }
    }
    vt::verify_none_live(c);
}
} // namespace
VH_SUITE("P10", map_large_text, 1) { map_large<P::CString>(c, 100000); }
VH_SUITE("P10", map_large_int, 1) { map_large<int>(c, 200000); }
VH_SUITE("P10", set_large, 1) {
    auto &r = c.rng;
    size_t n = big_size(c, 4, 100000);
    P::HashSet<P::CString> h;
    std::set<std::string> m;
    for(size_t i = 0; i < n; i++) {
        char b[32];
        snprintf(b, sizeof b, "%zu", i * 7);
        h.insert(P::CString(b));
        m.insert(b);
    }
    for(size_t i = 0; i < n / 5; i++) {
        char b[32];
        snprintf(b, sizeof b, "%zu", (size_t)r.below(n) * 7);
        h.remove(P::CString(b));
        m.erase(b);
    }
    EXPECT(h.size() == m.size(), "large.size", "set of %zu, expected %zu", h.size(), m.size());
    for(size_t i = 0; i < n; i++) {
        char b[32];
        snprintf(b, sizeof b, "%zu", i * 7);
        if(h.contains(P::CString(b)) != (m.count(b) != 0))
            c.fail("large.lookup", "text %s", b);
    }
    size_t seen = 0;
    for(auto &x : h) {
        if(!m.count(std::string(x.c_str(), x.size())))
            c.fail("large.iteration", "unknown text");
        ++seen;
    }
    EXPECT(seen == m.size(), "large.iteration", "%zu visited of %zu", seen, m.size());
}
VH_SUITE("P09", map_large_tracked, 1) { map_large<vt::Tracked>(c, 68000); }

// ------------------------------------------------------------------ P11
namespace {
struct Sink {
    static std::string *out;
    void feed_bytes(const char *b, size_t n) noexcept { out->append(b, n); }
    size_t get_hash_value() const noexcept { return 7; }
    void reset() noexcept {}
};
std::string *Sink::out;
template<class T> std::string fed(const T &o) {
    std::string s;
    Sink::out = &s;
    P::Hasher<Sink> h;
    h.feed_hash(o);
    return s;
}
template<class T> size_t hv(const T &o) {
    P::Hasher<P::SimpleHash> h;
    h.feed_hash(o);
    return h.get_hash_value();
}
} // namespace
VH_SUITE("P11", hash_large, 1) {
    auto &r = c.rng;
    size_t n = big_size(c);
    std::string s;
    cps_of_bytes(r, n, s);
    P::CString cs(s.data(), s.size());
    P::U8String us(s.data(), s.size());
    vh::Exact e(s);
    P::CStringView v(e.p, e.n);
    P::U8StringView uv(e.p, e.n);
    P::ZStringView z(cs.c_str());
    std::string w = fed(v);
    EXPECT(w.find(s) != std::string::npos, "large.feed", "%zu bytes fed for %zu", w.size(), n);
    EXPECT(fed(cs) == w && fed(us) == w && fed(uv) == w && fed(z) == w, "large.feed", "types feed different data for %zu bytes", n);
    size_t h = hv(v);
    EXPECT(hv(cs) == h && hv(us) == h && hv(uv) == h && hv(z) == h, "large.hash", "types hash differently for %zu bytes", n);
    for(int k = 0; k < 4; k++) {
        size_t at = some_at(r, n);
        std::string d = s;
        d[at] = d[at] == '!' ? '?' : '!';
        c.mix(at);
        P::CStringView dv(d.data(), d.size());
        EXPECT(fed(dv) != w && hv(dv) != h, "large.hash", "byte %zu of %zu does not influence the hash", at, n);
    }
    P::CStringView shorter(e.p, e.n - 1);
    EXPECT(hv(shorter) != h, "large.hash", "the last byte does not influence the hash");
}

// ------------------------------------------------------------------ P12
namespace {
template<size_t E> void tree_large(Case &c, size_t cap) {
    auto &r = c.rng;
    size_t n = big_size(c, 4, cap);
    P::BTree<int, E> t;
    std::vector<int> v(n);
    for(size_t i = 0; i < n; i++)
        v[i] = (int)i;
    unsigned mode = r.below(3);
    if(mode == 1)
        std::reverse(v.begin(), v.end());
    if(mode == 2)
        for(size_t i = n; i > 1; i--)
            std::swap(v[i - 1], v[r.below(i)]);
    std::vector<char> in(n, 1);
    for(int x : v)
        t.insert(x);
    size_t count = n;
    auto same = [&](const char *what) {
        EXPECT(t.size() == count && (bool)t.is_empty() == (count == 0), "large.size", "%s: %zu values, expected %zu", what, t.size(),
               count);
        for(size_t i = 0; i < n; i++) {
            const int *p = t.lookup((int)i);
            if((p != nullptr) != (bool)in[i] || (p && *p != (int)i) || t.contains((int)i) != (bool)in[i])
                c.fail("large.lookup", "%s: value %zu of %zu", what, i, n);
        }
        size_t i = 0, seen = 0;
        for(auto &x : t) {
            while(i < n && !in[i])
                ++i;
            if(i >= n || x != (int)i)
                c.fail("large.iteration", "%s: %d where %zu was expected", what, x, i);
            ++i;
            ++seen;
        }
        EXPECT(seen == count, "large.iteration", "%s: %zu visited of %zu", what, seen, count);
        EXPECT(!t.contains(-1) && !t.contains((int)n), "large.phantom", "%s: absent value found", what);
    };
    same("insertion");
    size_t k = r.chance(1, 3) ? n : r.below(n);
    unsigned order = r.below(3);
    for(size_t i = 0; i < k; i++) {
        int x = order == 0 ? (int)i : order == 1 ? (int)(n - 1 - i) : v[i];
        t.remove(x);
        count -= in[x];
        in[x] = 0;
    }
    same("removal");
    for(size_t i = 0; i < 1000; i++) {
        int x = (int)r.below(n);
        t.insert(x);
        count += !in[x];
        in[x] = 1;
    }
    same("insertion again");
}
} // namespace
VH_SUITE("P12", tree_large3, 1) { tree_large<3>(c, 70000); }
// More nodes than fit in 16 bits (thorough: in 20 bits).
VH_SUITE("P12", tree_huge, 1) {
    auto &r = c.rng;
    P::BTree<int, 3> t;
    int n = (int)(c.thorough && r.chance(1, 20) ? 2300000 : 140000 + r.below(30000)), step = r.chance(1, 2) ? 1 : 7919;
    while(n % 7919 == 0)
        ++n;
    c.note("%d values, step %d", n, step);
    c.mix(n * 2 + (step == 1));
    for(int64_t i = 0; i < n; i++)
        t.insert((int)(i * step % n));
    EXPECT((int)t.size() == n, "large.size", "%zu values, expected %d", t.size(), n);
    int want = 0;
    for(auto &x : t)
        if(x != want++)
            c.fail("large.iteration", "%d where %d was expected", x, want - 1);
    EXPECT(want == n, "large.iteration", "%d visited of %d", want, n);
    for(int k = 0; k < 20000; k++) {
        int x = (int)r.below(n);
        const int *p = t.lookup(x);
        EXPECT(p && *p == x, "large.lookup", "value %d of %d", x, n);
    }
    int gone = 0;
    for(int i = 0; i < n; i += 97, ++gone)
        t.remove(i);
    EXPECT((int)t.size() == n - gone && !t.contains(0) && t.contains(1), "large.size", "%zu values after removing %d of %d", t.size(), gone, n);
    want = 0;
    for(auto &x : t) {
        want += want % 97 == 0;
        if(x != want++)
            c.fail("large.iteration", "%d where %d was expected after removals", x, want - 1);
    }
}
VH_SUITE("P12", tree_large11, 1) { tree_large<11>(c, 140000); }
VH_SUITE("P12", tree_large255, 1) { tree_large<255>(c, 140000); }

// ------------------------------------------------------------------ P13
VH_SUITE("P13", owners_large, 1) {
    auto &r = c.rng;
    size_t n = big_size(c);
    P::unique_arr<int> a(n), b;
    for(size_t i = 0; i < n; i++)
        a[i] = (int)i;
    EXPECT(a.size() == n && a.size_bytes() == n * 4, "large.size", "unique_arr of %zu", n);
    b = P::move(a);
    EXPECT(b.size() == n && a.size() == 0 && !a.get(), "large.move", "unique_arr move");
    P::Span<int> s(b.get(), n);
    EXPECT(s.size() == n && s.size_bytes() == 4 * n, "large.span", "span of %zu", n);
    for(int k = 0; k < 20; k++) {
        size_t at = some_at(r, n), len = some_len(r, n - at);
        c.mix(at * 31 + len);
        EXPECT(b[at] == (int)at && s[at] == (int)at && s.at(at) == (int)at, "large.index", "element %zu of %zu", at, n);
        auto t = s.subspan(at, len);
        EXPECT(t.size() == len && (len == 0 || (t[0] == (int)at && t[len - 1] == (int)(at + len - 1))), "large.subspan",
               "subspan %zu+%zu of %zu", at, len, n);
        auto u = s.subspan(at);
        EXPECT(u.size() == n - at && u.end() == s.end(), "large.subspan", "subspan %zu to the end of %zu", at, n);
        EXPECT(throws_py([&] { (void)s.subspan(at, n - at + 1); }), "large.subspan", "subspan past the end");
    }
    EXPECT(throws_py([&] { (void)b[n]; }) && throws_py([&] { (void)s[n]; }), "large.index", "index past the end");
}

// ------------------------------------------------------------------ P18
VH_SUITE("P18", natural_large, 1) {
    auto &r = c.rng;
    size_t n = big_size(c);
    // a long common part, then numbers of many digits that differ in one place
    std::string pre = rnd(r, r.below(n), 3), d(n - pre.size(), '0');
    for(auto &x : d)
        x = (char)('0' + r.below(10));
    if(d.empty())
        d = "1";
    if(d[0] == '0')
        d[0] = '7';
    std::string e = d;
    size_t at = some_at(r, d.size());
    int want = 0;
    switch(r.below(4)) {
    case 0:
        break;
    case 1:
        e[at] = e[at] == '9' ? '8' : (char)(e[at] + 1);
        want = d[at] < e[at] ? -1 : 1;
        break;
    case 2: // more digits
        e += '0';
        want = -1;
        break;
    default: // leading zeros do not change the value
        e = std::string(1 + r.below(70000), '0') + e;
        e[e.size() - d.size() + at] = e[e.size() - d.size() + at] == '9' ? '8' : (char)(e[e.size() - d.size() + at] + 1);
        want = d[at] < e[e.size() - d.size() + at] ? -1 : 1;
    }
    std::string x = pre + "-" + d, y = pre + "-" + e;
    c.note("prefix %zu digits %zu and %zu, want %d", pre.size(), d.size(), e.size(), want);
    c.mix(want + 5 + at);
    vh::Exact ex(x), ey(y);
    P::CStringView vx(ex.p, ex.n), vy(ey.p, ey.n);
    EXPECT(sgn(vx.natural_order(vy)) == want && sgn(vy.natural_order(vx)) == -want, "large.natural",
           "natural_order of %zu and %zu bytes: %d and %d, expected %d", x.size(), y.size(), vx.natural_order(vy), vy.natural_order(vx), want);
}
VH_ALSO(P02, view_large, 1)
