// Histories over the 2025 epoch written down as text. Compiled twice: once with the namespace
// renamed, against the released sources kept under data/, and once against the current tree.
// Nothing here may depend on addresses, uninitialised memory or behaviour the release leaves
// undefined; what the release does with valid calls, right or wrong, is what counts.
#include "vh.hpp"
#include "epoch25.hpp"
#ifdef E25_2026_FIRST
#include "tasks26_includes.hpp"
#endif
#include <pystd2025.hpp>
#include <pystd2025_btree.hpp>
#include <pystd2025_threading.hpp>
#ifdef E25_2026_AFTER
#include "tasks26_includes.hpp"
#endif
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>

namespace {
namespace E = pystd2025;
using vh::Rng;
struct Out {
    std::string s;
    void f(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
        char b[400];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(b, sizeof b, fmt, ap);
        va_end(ap);
        s += b;
        s += '\n';
    }
    void b(const char *tag, const char *p, size_t n) {
        s += tag;
        s += ' ';
        s += std::to_string(n);
        s += ':';
        s += n <= 100 ? vh::show(p, n) : vh::show(p, 60) + "#" + std::to_string(digest(p, n));
        s += '\n';
    }
    static uint64_t digest(const char *p, size_t n) {
        uint64_t h = 1469598103934665603ull;
        for(size_t i = 0; i < n; i++)
            h = (h ^ (unsigned char)p[i]) * 1099511628211ull;
        return h;
    }
};
// what an operation threw is part of what was observed
template<class F> void tr(Out &o, const char *what, F &&f) {
    try {
        f();
    } catch(const E::PyException &e) {
        o.b(what, "", 0);
        o.b(" threw", e.what().c_str(), e.what().size_bytes());
    } catch(const char *m) {
        o.b(what, m, strlen(m));
    }
}
void put(Out &o, const char *t, const E::Bytes &b) {
    o.b(t, b.data() ? b.data() : "", b.size());
    o.f(" cap %zu empty %d", b.capacity(), b.is_empty());
}
void put(Out &o, const char *t, const E::CString &s) { o.b(t, s.c_str(), s.size()); }
void put(Out &o, const char *t, const E::U8String &s) { o.b(t, s.c_str(), s.size_bytes()); }
void put(Out &o, const char *t, const E::CStringView &s) { o.b(t, s.data() ? s.data() : "", s.size()); }
void put(Out &o, const char *t, const E::Path &s) { o.b(t, s.c_str(), s.size()); }

std::string raw(Rng &r, size_t n) {
    std::string s;
    unsigned mode = r.below(3);
    for(size_t i = 0; i < n; i++)
        s += mode == 0 ? (char)r.below(256) : mode == 1 ? "ab"[r.below(2)] : "\x00\x7f\x80\xff"[r.below(4)];
    return s;
}
std::string text(Rng &r, size_t n) { // no NUL
    std::string s;
    unsigned mode = r.below(4);
    for(size_t i = 0; i < n; i++)
        s += mode == 0   ? (char)(1 + r.below(255))
             : mode == 1 ? "ab"[r.below(2)]
             : mode == 2 ? " \t\n\rax\v\f"[r.below(8)]
                         : "abcXYZ019 _-.,/"[r.below(15)];
    return s;
}
std::string u8(Rng &r, size_t n) { // valid, no NUL
    static const char *cps[] = {"a", "Z", "0", " ", "\n", "\t", "ß", "ä", "Ö", "İ", "ﬁ", "ǅ", "ς", "Ω", "€", "😀", "𐐀", "ა", "x", ".", "\xed\x9f\xbf", "\xf4\x8f\xbf\xbf"};
    std::string s;
    for(size_t i = 0; i < n; i++)
        s += r.chance(1, 3) ? cps[r.below(6)] : cps[r.below(sizeof cps / sizeof *cps)];
    return s;
}
size_t sz(Rng &r) {
    static const size_t b[] = {0, 1, 2, 7, 8, 9, 14, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129};
    return r.chance(1, 2) ? b[r.below(19)] : r.below(60);
}
E::Bytes mkb(const std::string &s) { return E::Bytes(s.data(), s.size()); }
E::CString mkc(const std::string &s) { return E::CString(s.data(), s.size()); }

// ---------------------------------------------------------------- strings
void t_bytes(Out &o, Rng &r, const std::string &) {
    E::Bytes v[3];
    v[1] = mkb(raw(r, sz(r)));
    int n = 5 + r.below(60);
    for(int k = 0; k < n; k++) {
        E::Bytes &a = v[r.below(3)], &b = v[r.below(3)];
        unsigned op = r.below(26);
        o.f("%u", op);
        tr(o, "bytes", [&] {
            switch(op) {
            case 0: a.append((char)r.below(256)); break;
            case 1: for(size_t q = sz(r); q > 0; q--) a.push_back((char)q); break;
            case 2: { std::string t = raw(r, sz(r)); a.append(t.data(), t.data() + t.size()); break; }
            case 3: a.clear(); break;
            case 4: a.reserve(sz(r) * 2); break;
            case 5: { size_t q = sz(r), at = a.size(); a.extend(q); memset(a.data() + at, (int)q, q); break; }
            case 6: a.shrink(sz(r)); break;
            case 7: { size_t q = sz(r), at = a.size(); a.resize(q); if(q > at) memset(a.data() + at, 'r', q - at); break; }
            case 8: { std::string t = raw(r, sz(r)); a.assign(t.data(), t.size()); break; }
            case 9: { std::string t = raw(r, sz(r)); a.insert(r.below(a.size() + 3), t.data(), t.size()); break; }
            case 10: a.pop_back(r.chance(1, 2) ? 1 : r.below(a.size() + 3)); break;
            case 11: if(a.size() > 1) a.pop_front(r.below(a.size())); break;
            case 12: if(!a.is_empty()) o.f("%d", a[r.below(a.size())]); break;
            case 13: o.f("%d", a[a.capacity() + r.below(3)]); break;
            case 14: a = b; break;
            case 15: a += b; break;
            case 16: if(&a != &b) a = E::move(b); break;
            case 17: o.f("eq %d lt %d", a == b, a < b); break;
            case 18: { E::SimpleHash h; a.feed_hash(h); o.f("%zu", h.get_hash_value()); break; }
            case 19: o.f("%d", a.front()); break;
            case 20: if(a.is_empty() || a.size() == a.capacity()) o.f("%d", a.back()); break;
            case 21: { E::BytesView w = a.view(); o.f("%zu %d", w.size(), w.is_empty()); put(o, "sub", E::CStringView(w.begin(), w.end())); break; }
            case 22: { size_t f = r.below(a.size() + 1), t = r.below(a.size() + 1); a.remove(f, t); break; }
            case 23: { E::Bytes c(a); a = E::move(c); break; }
            case 24: { E::Bytes c((size_t)sz(r), 'f'); a = E::move(c); break; }
            case 25: {
                std::string t = raw(r, sz(r));
                E::Bytes c(t.data(), t.data() + t.size());
                put(o, "c", c);
                if(!t.empty())
                    E::Bytes(t.data() + 1, t.data());
                break;
            }
            }
        });
        put(o, "a", a);
    }
}
void t_cstring(Out &o, Rng &r, const std::string &) {
    E::CString v[3] = {E::CString(), mkc(text(r, sz(r))), mkc(text(r, sz(r)))};
    int n = 5 + r.below(60);
    for(int k = 0; k < n; k++) {
        E::CString &a = v[r.below(3)], &b = v[r.below(3)];
        unsigned op = r.below(30);
        o.f("%u", op);
        tr(o, "cstring", [&] {
            switch(op) {
            case 0: a.append((char)r.below(256)); break;
            case 1: { std::string t = text(r, sz(r)); a.append(t.data(), t.size()); break; }
            case 2: { std::string t = text(r, sz(r)); a.append(t.c_str()); break; }
            case 3: { std::string t = text(r, sz(r)); a.append(t.data(), t.data() + t.size()); break; }
            case 4: a += b; break;
            case 5: a += (char)(1 + r.below(255)); break;
            case 6: { std::string t = text(r, sz(r)); a += t.c_str(); break; }
            case 7: { std::string t = text(r, sz(r)); a = t.c_str(); break; }
            case 8: a.strip(); break;
            case 9: put(o, "sub", a.substr(r.below(a.size() + 1))); break;
            case 10: { size_t at = r.below(a.size() + 1); put(o, "sub", a.substr(at, r.below(a.size() - at + 1))); break; }
            case 11: if(!a.is_empty()) o.f("%d", a[r.below(a.size())]); break;
            case 12: if(&a != &b) { E::CString t(E::move(b)); b = E::move(a); a = E::move(t); } break;
            case 13: o.f("eq %d lt %d veq %d ceq %d", a == b, a < b, a == b.view(), a == b.c_str()); break;
            case 14: { E::SimpleHash h; a.feed_hash(h); o.f("%zu", h.get_hash_value()); break; }
            case 15: for(auto &x : a.split()) put(o, "w", x); break;
            case 16: for(auto &x : a.split_by(r.chance(1, 2) ? 'a' : ' ')) put(o, "w", x); break;
            case 17: {
                struct C { Out *o; int left; } c{&o, (int)r.below(5)};
                auto cb = [](const E::CStringView &p, void *x) { C *c = (C *)x; put(*c->o, "cb", p); return c->left-- > 0; };
                if(r.chance(1, 2)) a.split(cb, &c); else a.split_by('b', cb, &c);
                break;
            }
            case 18: o.f("%d", a.front()); break;
            case 19: o.f("%d", a.back()); break;
            case 20: a.pop_back(); break;
            case 21: a.push_back((char)r.below(256)); break;
            case 22: a.insert(r.below(a.size() + 1), b.view()); break;
            case 23: { size_t q = r.below(a.size() + 1), w = r.below(a.size() - q + 1); a.insert(r.below(a.size() + 1), E::CStringView(a.c_str() + q, w)); break; }
            case 24: { std::string t = text(r, r.below(4)); o.f("find %zu", a.find(E::CStringView(t.c_str()))); break; }
            case 25: o.f("rfind %zu", a.rfind("ab \n/.\0"[r.below(7)])); break;
            case 26: a.reserve(sz(r)); break;
            case 27: { size_t f = r.below(a.size() + 1), t = r.below(a.size() + 1); a.remove(f, t); break; }
            case 28: put(o, "up", a.upper()); put(o, "low", a.lower()); break;
            case 29: {
                std::string t = raw(r, r.below(20));
                E::CString c(t.data(), t.size());
                put(o, "c", c);
                E::CString d(mkb(t));
                put(o, "d", d);
                a = E::move(d);
                break;
            }
            }
        });
        put(o, "a", a);
        o.f(" len %zu empty %d", a.length(), a.is_empty());
    }
}
void t_cview(Out &o, Rng &r, const std::string &) {
    for(int k = 0; k < 12; k++) {
        std::string hay = text(r, sz(r)), other = r.chance(1, 2) ? text(r, sz(r)) : hay.substr(0, r.below(hay.size() + 1)) + text(r, r.below(2));
        E::CStringView a(hay.c_str()), b(other.c_str(), r.chance(1, 3) ? (size_t)-1 : r.below(other.size() + 1)), e;
        put(o, "a", a);
        put(o, "b", b);
        tr(o, "cview", [&] {
            o.f("%d %d %d %d %d", a == b, a == other.c_str(), a < b, b < a, a.is_empty());
            o.f("%d %d", a.starts_with(other.c_str()), b.starts_with(hay.c_str()));
            o.f("%zu %zu", a.find('a'), a.find('\0'));
            o.f("%zu %zu", a.find(b), b.find(a));
            o.f("%zu", e.find(a));
        });
        tr(o, "starts", [&] { o.f("%d", a.starts_with(b)); });
        tr(o, "starts", [&] { o.f("%d", b.starts_with(a)); });
        tr(o, "front", [&] { o.f("%d", b.front()); });
        tr(o, "at", [&] { o.f("%d", a.at(r.below(a.size() + 1))); });
        tr(o, "at", [&] { o.f("%d", a[a.size() + 1]); });
        tr(o, "at", [&] { o.f("%d", e[0]); });
        tr(o, "substr", [&] { put(o, "s", a.substr(r.below(a.size() + 2), r.chance(1, 3) ? (size_t)-1 : r.below(70))); });
        tr(o, "case", [&] { put(o, "u", a.upper()); put(o, "l", b.lower()); });
        tr(o, "range", [&] { E::CStringView q(hay.data() + hay.size(), hay.data() + r.below(hay.size() + 1)); put(o, "q", q); });
        size_t x = r.below(hay.size() + 1), y = r.below(hay.size() + 1), l1 = r.below(hay.size() - x + 1), l2 = r.below(hay.size() - y + 1);
        E::CStringView p(hay.data() + x, l1), q(hay.data() + y, l2);
        o.f("overlap %d %d", p.overlaps(q), q.overlaps(p));
        E::CString c(p);
        put(o, "c", c);
        o.f("%d", c == q);
    }
}
void t_utf8(Out &o, Rng &r, const std::string &) {
    for(int k = 0; k < 10; k++) {
        std::string s = u8(r, r.below(12));
        if(r.chance(2, 3) && !s.empty())
            for(int q = r.below(3); q >= 0; q--) {
                size_t at = r.below(s.size());
                switch(r.below(4)) {
                case 0: s[at] = (char)r.below(256); break;
                case 1: s.erase(at, 1); break;
                case 2: s.insert(at, 1, "\x80\xbf\xc0\xc2\xe0\xed\xf0\xf4\xf5\xff\x00"[r.below(11)]); break;
                case 3: s.insert(at, "\xed\xa0\x80"); break;
                }
                if(s.empty())
                    break;
            }
        tr(o, "u8", [&] {
            E::U8String x(s.data(), s.size());
            put(o, "ok", x);
            for(auto it = x.cbegin(); it != x.cend(); ++it)
                o.f("U%x", *it);
        });
        tr(o, "u8z", [&] { put(o, "z", E::U8String(s.c_str())); });
        tr(o, "u8b", [&] { put(o, "b", E::U8String(mkb(s))); });
    }
}
bool is_x(uint32_t c) { return c == 'x' || c == 0x20AC || c == '.'; }
void t_u8string(Out &o, Rng &r, const std::string &) {
    E::U8String v[3] = {E::U8String(), E::U8String(u8(r, sz(r)).c_str()), E::U8String(u8(r, r.below(10)).c_str())};
    int n = 5 + r.below(40);
    for(int k = 0; k < n; k++) {
        E::U8String &a = v[r.below(3)], &b = v[r.below(3)];
        unsigned op = r.below(22);
        o.f("%u", op);
        auto nth = [&](E::U8String &s, size_t i) { auto it = s.cbegin(); while(i-- && it != s.cend()) ++it; return it; };
        tr(o, "u8string", [&] {
            switch(op) {
            case 0: a += b; break;
            case 1: a = b; break;
            case 2: if(&a != &b) { E::U8String t(E::move(b)); b = E::move(a); a = E::move(t); } break;
            case 3: o.f("%d %d %d", a == b, a < b, a == b.c_str()); break;
            case 4: { size_t at = r.below(a.size_bytes() + 1); put(o, "sub", a.substr(at, r.below(a.size_bytes() - at + 1))); break; }
            case 5: { E::Vector<E::U8String> q; for(size_t i = r.below(5); i > 0; i--) q.push_back(b); put(o, "join", a.join(q)); break; }
            case 6: { E::SimpleHash h; a.feed_hash(h); o.f("%zu", h.get_hash_value()); break; }
            case 7: for(auto &x : a.split_ascii()) put(o, "w", x); break;
            case 8: {
                struct C { Out *o; int left; } c{&o, (int)r.below(4)};
                a.split([](const E::U8StringView &p, void *x) { C *c = (C *)x; put(*c->o, "cb", p.raw_view()); return c->left-- > 0; }, is_x, &c);
                break;
            }
            case 9: for(auto it = a.crbegin(); it != a.crend(); ++it) o.f("R%x", *it); break;
            case 10: for(auto it = a.cbegin(); it != a.cend();) { auto p = it++; o.f("P%x", *p); } break;
            case 11: { auto it = a.cend(); size_t q = r.below(4); while(q-- && it != a.cbegin()) { --it; o.f("B%x", *it); } break; }
            case 12: a.insert(nth(a, r.below(6)), b.view()); break;
            case 13: a.insert(nth(a, r.below(6)), E::U8StringView{nth(a, 1), a.cend()}); break;
            case 14: { size_t p = r.below(5); a.remove(E::U8StringView{nth(a, p), nth(a, p + r.below(4))}); break; }
            case 15: if(&a != &b) a.remove(b.view()); break;
            case 16: a.pop_front(); break;
            case 17: a.pop_back(); break;
            case 18: {
                static const uint32_t cp[] = {1, 'A', 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xffff, 0x10000, 0x10ffff, 0x110000, 0xffffffff};
                uint32_t c = r.chance(1, 2) ? cp[r.below(13)] : 1 + (uint32_t)r.below(0x10ffff);
                a.append_codepoint(c);
                break;
            }
            case 19: { E::U8StringView w{nth(a, r.below(3)), a.cend()}; o.f("%d %d %zu %d", a.contains(w), a.overlaps(w), w.size_bytes(), w == a.c_str()); break; }
            case 20: put(o, "up", a.upper()); put(o, "low", a.lower()); break;
            case 21: { E::U8StringView w{nth(a, r.below(3)), a.cend()}; E::U8String c(w); put(o, "c", c); put(o, "u", w.upper()); put(o, "l", w.lower()); break; }
            }
        });
        put(o, "a", a);
    }
}
void t_unicode(Out &o, Rng &r, const std::string &) {
    uint32_t base = r.chance(1, 8) ? 0x10F000 + (uint32_t)r.below(0x2000) : r.chance(1, 2) ? (uint32_t)r.below(0x30) * 0x1000 / 4 : (uint32_t)r.below(0x11) * 0x10000 + (uint32_t)r.below(16) * 0x1000;
    for(uint32_t c = base; c < base + 4096; c++) {
        auto u = E::uppercase_unicode(c), l = E::lowercase_unicode(c);
        if(u.codepoints[0] != c || u.codepoints[1] || u.codepoints[2] || l.codepoints[0] != c || l.codepoints[1] || l.codepoints[2])
            o.f("%x u %x %x %x l %x %x %x", c, u.codepoints[0], u.codepoints[1], u.codepoints[2], l.codepoints[0], l.codepoints[1], l.codepoints[2]);
    }
    o.f("base %x", base);
}
// ---------------------------------------------------------------- containers
// an element that writes down what happens to it
struct Ev {
    static Out *log;
    int v = 0;
    bool live = true;
    Ev() noexcept { if(log) log->s += "d"; }
    Ev(int x) noexcept : v(x) { if(log) log->s += "i"; }
    Ev(const Ev &e) noexcept : v(e.v) { if(log) log->s += "c"; }
    Ev(Ev &&e) noexcept : v(e.v) { e.v = -1; if(log) log->s += "m"; }
    Ev &operator=(const Ev &e) noexcept { v = e.v; if(log) log->s += "C"; return *this; }
    Ev &operator=(Ev &&e) noexcept { int t = e.v; e.v = -1; v = t; if(log) log->s += "M"; return *this; }
    ~Ev() { if(log) log->s += "x"; }
    bool operator==(const Ev &e) const { return v == e.v; }
    bool operator<(const Ev &e) const { return v < e.v; }
};
Out *Ev::log;
struct EvScope {
    EvScope(Out &o) { Ev::log = &o; }
    ~EvScope() { Ev::log = nullptr; }
};
template<class T> struct El;
template<> struct El<int> {
    static int mk(int i) { return i; }
    static void show(Out &o, const int &x) { o.s += std::to_string(x) + ","; }
};
template<> struct El<Ev> {
    static Ev mk(int i) { return Ev(i); }
    static void show(Out &o, const Ev &x) { o.s += std::to_string(x.v) + ","; }
};
template<> struct El<E::U8String> {
    static E::U8String mk(int i) { return E::U8String(("text \xC3\xA4 " + std::to_string(i)).c_str()); }
    static void show(Out &o, const E::U8String &x) { o.s += std::string(x.c_str(), x.size_bytes()) + ","; }
};
template<class V> void dump(Out &o, V &v) {
    using T = E::remove_reference_t<decltype(*v.begin())>;
    for(auto &x : v)
        El<T>::show(o, x);
    o.f("| %zu cap %zu empty %d", v.size(), v.capacity(), v.is_empty());
}
template<class T> void vec(Out &o, Rng &r) {
    EvScope es(o);
    {
        E::Vector<T> v[3];
        int n = 5 + r.below(60);
        for(int k = 0; k < n; k++) {
            E::Vector<T> &a = v[r.below(3)], &b = v[r.below(3)];
            unsigned op = r.below(18);
            int x = r.below(50);
            o.f("%u", op);
            tr(o, "vector", [&] {
                switch(op) {
                case 0: { T t = El<T>::mk(x); a.push_back(t); break; }
                case 1: a.push_back(El<T>::mk(x)); break;
                case 2: for(size_t q = sz(r); q > 0; q--) a.push_back(El<T>::mk((int)q)); break;
                case 3: a.emplace_back(El<T>::mk(x)); break;
                case 4: if(!b.is_empty() && &a != &b) a.append(b.begin(), b.begin() + r.below(b.size() + 1)); break;
                case 5: if(!b.is_empty() && &a != &b) a.assign(b.begin(), b.end()); break;
                case 6: if(!a.is_empty()) { if(r.chance(1, 2)) a.append(a.begin(), a.end()); else a.assign(a.begin(), a.end()); } break;
                case 7: { auto p = a.pop_back(); o.f("got %d", (bool)p); if(p) El<T>::show(o, *p); break; }
                case 8: if(r.chance(1, 4)) a.clear(); break;
                case 9: El<T>::show(o, a.front()); break;
                case 10: El<T>::show(o, a.back()); break;
                case 11: El<T>::show(o, a[r.below(a.size() + 2)]); break;
                case 12: El<T>::show(o, ((const E::Vector<T> &)a).at(r.below(a.size() + 2))); break;
                case 13: if(&a != &b) a = E::move(b); break;
                case 14: o.f("eq %d %d", a == b, a != b); break;
                case 15: { E::Vector<T> c(a); a = E::move(c); break; }
                case 16: a.reserve(r.below(80)); break;
                case 17: if(!a.is_empty()) { E::Vector<T> c(a.cbegin(), a.cbegin() + r.below(a.size() + 1)); dump(o, c); } break;
                }
            });
            dump(o, a);
            if(!a.is_empty() && a.size() == a.capacity() && r.chance(1, 2)) {
                a.push_back(a[r.below(a.size())]);
                dump(o, a);
            }
        }
    }
    o.f("end");
}
void t_vec_int(Out &o, Rng &r, const std::string &) { vec<int>(o, r); }
void t_vec_ev(Out &o, Rng &r, const std::string &) { vec<Ev>(o, r); }
void t_vec_u8(Out &o, Rng &r, const std::string &) { vec<E::U8String>(o, r); }
template<class T, size_t N> void fvec(Out &o, Rng &r) {
    EvScope es(o);
    {
        E::FixedVector<T, N> a, b;
        int n = 5 + r.below(60);
        for(int k = 0; k < n; k++) {
            unsigned op = r.below(14);
            int x = r.below(50);
            o.f("%u", op);
            tr(o, "fixedvector", [&] {
                switch(op) {
                case 0: { T t = El<T>::mk(x); o.f("%d", a.try_push_back(t)); break; }
                case 1: o.f("%d", a.try_push_back(El<T>::mk(x))); break;
                case 2: { T t = El<T>::mk(x); a.push_back(t); break; }
                case 3: a.push_back(El<T>::mk(x)); break;
                case 4:
                case 5: a.insert(r.below(a.size() + 2), El<T>::mk(x)); break;
                case 6: a.pop_back(); break;
                case 7: a.pop_front(); break;
                case 8: a.delete_at(r.below(a.size() + 2)); break;
                case 9: if(r.chance(1, 3)) a.move_append(a); else { E::FixedVector<T, N> c; for(size_t q = r.below(N + 1); q > 0; q--) c.push_back(El<T>::mk((int)q)); a.move_append(c); } break;
                case 10: El<T>::show(o, a.front()); El<T>::show(o, a.back()); break;
                case 11: El<T>::show(o, a[r.below(a.size() + 2)]); break;
                case 12: b = E::move(a); break;
                case 13: { E::FixedVector<T, N> c(E::move(b)); a = E::move(c); break; }
                }
            });
            dump(o, a);
            o.f("full %d", a.is_full());
        }
    }
    o.f("end");
}
void t_fvec_int(Out &o, Rng &r, const std::string &) { r.chance(1, 2) ? fvec<int, 5>(o, r) : fvec<int, 1>(o, r); }
void t_fvec_ev(Out &o, Rng &r, const std::string &) { fvec<Ev, 7>(o, r); }
void t_fvec_u8(Out &o, Rng &r, const std::string &) { fvec<E::U8String, 4>(o, r); }
template<size_t N> void fcs(Out &o, Rng &r) {
    E::FixedCString<N> a, b;
    E::FixedCString<N + 3> w;
    for(int k = 0; k < 30; k++) {
        unsigned op = r.below(11);
        std::string t = text(r, r.below(N + 3));
        o.f("%u", op);
        tr(o, "fixedcstring", [&] {
            switch(op) {
            case 0: a = E::FixedCString<N>(t.c_str()); break;
            case 1: a = E::FixedCString<N>(t.c_str(), (uint32_t)t.size()); break;
            case 2: b = a; break;
            case 3: b = E::move(a); break;
            case 4: w = a; o.b("w", w.c_str(), w.size()); break;
            case 5: a = E::CStringView(t.c_str()); break;
            case 6: a = a.view(); break;
            case 7: o.f("%d %d", a == E::CStringView(t.c_str()), a == b.c_str()); break;
            case 8: o.f("%d", a[r.below(a.size() + 1)]); break;
            case 9: o.f("%d", a[N + 1 + r.below(3)]); break;
            case 10: a.pop_back(); break;
            }
        });
        o.b("a", a.c_str(), a.size());
        o.f("empty %d", a.is_empty());
    }
}
void t_fcs(Out &o, Rng &r, const std::string &) { r.chance(1, 2) ? fcs<9>(o, r) : fcs<40>(o, r); }

void t_wrappers(Out &o, Rng &r, const std::string &) {
    EvScope es(o);
    {
        E::Optional<Ev> a, b;
        E::Variant<int, Ev, E::U8String> v, w;
        E::unique_ptr<Ev> p, q;
        E::unique_arr<int> ua(4), ub;
        for(int i = 0; i < 4; i++)
            ua[i] = i * 3;
        E::Expected<int, E::U8String> ex;
        int n = 5 + r.below(40);
        for(int k = 0; k < n; k++) {
            unsigned op = r.below(30);
            int x = r.below(50);
            o.f("%u", op);
            tr(o, "wrap", [&] {
                switch(op) {
                case 0: a = Ev(x); break;
                case 1: { Ev e(x); a = e; break; }
                case 2: a = b; break;
                case 3: b = E::move(a); break;
                case 4: a.reset(); break;
                case 5: o.f("%d", (*a).v); break;
                case 6: o.f("%d", a->v); break;
                case 7: o.f("%d", ((const E::Optional<Ev> &)b).value().v); break;
                case 8: { E::Optional<Ev> c(a), d(E::move(b)); o.f("%d %d %d", (bool)c, (bool)d, (bool)b); break; }
                case 9: { E::Variant<int, Ev, E::U8String> c(Ev{x}); v = E::move(c); break; }
                case 10: { E::U8String t("v"); E::Variant<int, Ev, E::U8String> c(t); v = c; break; }
                case 11: { const int t = x; E::Variant<int, Ev, E::U8String> c(t); v = c; break; }
                case 12: w = v; break;
                case 13: w = E::move(v); break;
                case 14: v.insert(Ev{x}); break;
                case 15: v.insert(E::U8String("inserted")); break;
                case 16: v.insert(x); break;
                case 17: o.f("%d", v.get<int>()); break;
                case 18: o.f("%d", ((const decltype(v) &)w).get<Ev>().v); break;
                case 19: put(o, "u", v.get<E::U8String>()); break;
                case 20: o.f("%d %d %d", v.contains<int>(), w.contains<Ev>(), v.get_if<E::U8String>() != nullptr); break;
                case 21: p = E::unique_ptr<Ev>(new Ev(x)); break;
                case 22: q = E::move(p); break;
                case 23: p.reset(r.chance(1, 2) ? new Ev(x) : nullptr); break;
                case 24: delete q.release(); break;
                case 25: if(p) o.f("%d %d", p->v, (*p).v); break;
                case 26: o.f("%d", ua[r.below(6)]); break;
                case 27: ub = E::move(ua); o.f("%zu %zu", ua.size(), ub.size_bytes()); ua = E::move(ub); break;
                case 28: { E::Expected<int, E::U8String> y(E::U8String("bad")); ex = E::move(y); put(o, "e", ex.error()); break; }
                case 29: { E::Expected<int, E::U8String> y(E::Unexpected<E::U8String>(E::U8String("un"))), z(5); o.f("%d %d %d %d", y.has_error(), z.has_value(), (bool)y, (bool)ex); break; }
                }
            });
            o.f("a %d b %d v %d w %d p %d q %d", a ? a->v : -9, b ? b->v : -9, v.index(), w.index(), p ? p->v : -9, q ? q->v : -9);
        }
        int z = 4;
        E::Optional<int *> op(&z), oe;
        o.f("%d %d %d", (bool)op, (bool)oe, op.value());
        tr(o, "null", [&] { o.f("%d", oe.value()); });
        oe = op;
        op.reset();
        o.f("%d %d", (bool)op, oe.value());
    }
    o.f("end");
}
// both compilations put their maps at the same place: the salt is the map's address
char *arena() { return e25_arena(); }
template<class K> struct Key;
template<> struct Key<int32_t> { static int32_t mk(int i) { return i * 7 - 50; } };
template<> struct Key<uint64_t> { static uint64_t mk(int i) { return (uint64_t)i << 40 | (uint64_t)i; } };
template<> struct Key<uint8_t> { static uint8_t mk(int i) { return (uint8_t)i; } };
template<> struct Key<E::U8String> { static E::U8String mk(int i) { return E::U8String(("key \xE2\x82\xAC " + std::to_string(i)).c_str()); } };
void showk(Out &o, int32_t k) { o.s += std::to_string(k) + ","; }
void showk(Out &o, uint64_t k) { o.s += std::to_string(k) + ","; }
void showk(Out &o, uint8_t k) { o.s += std::to_string(k) + ","; }
void showk(Out &o, const E::U8String &k) { o.s += std::string(k.c_str(), k.size_bytes()) + ","; }
template<class K, class V> void map(Out &o, Rng &r) {
    using M = E::HashMap<K, V>;
    M &m = *new(arena()) M;
    size_t cap = 16, tomb = 0;
    auto grown = [&] { // follows the release: growth happens before an insertion at 0.7 load
        if(double(m.size()) / cap >= 0.7) {
            cap *= 2;
            tomb = 0;
        }
    };
    int dom = 5 + r.below(r.chance(1, 3) ? 250 : 30), n = 5 + r.below(250);
    if(sizeof(K) == 1 && dom > 200)
        dom = 200;
    for(int k = 0; k < n; k++) {
        unsigned op = r.below(12);
        int i = r.below(dom);
        o.f("%u", op);
        tr(o, "map", [&] {
            switch(op) {
            case 0: case 1: case 2: case 3: grown(); El<V>::show(o, m.insert(Key<K>::mk(i), El<V>::mk(k))); break;
            case 4: if(m.size() + tomb + 2 < cap) { ++tomb; m.remove(Key<K>::mk(i)); } break;
            case 5: { if(!m.contains(Key<K>::mk(i))) grown(); m[Key<K>::mk(i)] = El<V>::mk(k); break; }
            case 6: El<V>::show(o, m.at(Key<K>::mk(i))); break;
            case 7: o.f("%d", m.contains(Key<K>::mk(i))); break;
            case 8: { V *p = m.lookup(Key<K>::mk(i)); if(p) El<V>::show(o, *p); break; }
            case 9: if(r.chance(1, 10)) { m.clear(); tomb = 0; } break;
            case 10:
            case 11:
                if(r.chance(1, 5)) {
                    auto e = m.end();
                    for(auto it = m.begin(); it != e; ++it) {
                        auto kv = *it;
                        showk(o, *kv.key);
                        El<V>::show(o, *kv.value);
                    }
                }
                break;
            }
        });
        o.f("size %zu empty %d", m.size(), m.is_empty());
    }
    m.~M();
}
void t_map_int(Out &o, Rng &r, const std::string &) { map<int32_t, int>(o, r); }
void t_map_u64(Out &o, Rng &r, const std::string &) { map<uint64_t, E::U8String>(o, r); }
void t_map_u8(Out &o, Rng &r, const std::string &) { map<uint8_t, int>(o, r); }
void t_map_str(Out &o, Rng &r, const std::string &) { map<E::U8String, int>(o, r); }
void t_set(Out &o, Rng &r, const std::string &) {
    using S = E::HashSet<E::U8String>;
    S &s = *new(arena()) S;
    int removed = 0;
    for(int k = r.below(120); k > 0; k--) {
        auto key = Key<E::U8String>::mk(r.below(60));
        switch(r.below(6)) {
        case 0: if(removed < 3) { ++removed; s.remove(key); } break;
        case 1: o.f("%d", s.contains(key)); break;
        case 2: if(r.chance(1, 20)) { s.clear(); removed = 0; } break;
        default: { auto x = s.insert(key); o.f("%d", x.second); }
        }
        o.f("%zu %d", s.size(), s.is_empty());
    }
    auto e = s.end();
    for(auto it = s.begin(); it != e; ++it)
        put(o, "k", *it);
    s.~S();
}
void t_hash(Out &o, Rng &r, const std::string &) {
    for(int k = 0; k < 20; k++) {
        E::Hasher<> h;
        for(int q = r.below(4); q >= 0; q--)
            switch(r.below(10)) {
            case 0: h.feed_hash((int8_t)r.next()); break;
            case 1: h.feed_hash((uint8_t)r.next()); break;
            case 2: h.feed_hash((int16_t)r.next()); break;
            case 3: h.feed_hash((uint16_t)r.next()); break;
            case 4: h.feed_hash((int32_t)r.next()); break;
            case 5: h.feed_hash((uint32_t)r.next()); break;
            case 6: h.feed_hash((int64_t)r.next()); break;
            case 7: h.feed_hash((uint64_t)r.next()); break;
            case 8: { std::string t = raw(r, sz(r)); h.feed_bytes(t.data(), t.size()); break; }
            case 9: h.feed_hash(E::U8String(u8(r, sz(r)).c_str())); break;
            }
        o.f("%zu", h.get_hash_value());
    }
}
template<size_t N> void bt(Out &o, Rng &r) {
    E::BTree<int, N> t;
    int dom = 5 + r.below(r.chance(1, 3) ? 500 : 40), n = 5 + r.below(200);
    bool removals = r.chance(1, 2);
    unsigned order = r.below(4);
    for(int k = 0; k < n; k++) {
        int i = order == 0 ? k : order == 1 ? n - k : (int)r.below(dom);
        if(removals && r.chance(1, 4)) {
            o.f("remove %d", i);
            t.remove(i);
        } else {
            o.f("insert %d", i);
            t.insert(i);
        }
        const int *p = t.lookup((int)r.below(dom));
        o.f("%d size %zu empty %d", p ? *p : -1, t.size(), t.is_empty());
    }
    for(int i = 0; i < dom; i++)
        o.s += t.lookup(i) ? '1' : '0';
    o.f("end");
}
void t_btree(Out &o, Rng &r, const std::string &) {
    switch(r.below(4)) {
    case 0: return bt<3>(o, r);
    case 1: return bt<5>(o, r);
    case 2: return bt<11>(o, r);
    case 3: return bt<31>(o, r);
    }
}
void t_stack_span(Out &o, Rng &r, const std::string &) {
    E::Stack<int> s;
    std::vector<int> a;
    for(int k = 0; k < 20; k++) {
        tr(o, "stack", [&] {
            switch(r.below(4)) {
            case 0: s.pop(); break;
            case 1: o.f("%d", s.top()); break;
            default: s.push(k); a.push_back(k * 5 % 7);
            }
        });
        o.f("%zu %d", s.size(), s.is_empty());
    }
    E::Span<int> sp(a.data(), a.size()), es;
    for(int k = 0; k < 10; k++) {
        tr(o, "span", [&] { o.f("%d", sp[r.below(a.size() + 2)]); });
        tr(o, "span", [&] { o.f("%d", es.at(0)); });
        tr(o, "subspan", [&] {
            auto q = sp.subspan(r.below(a.size() + 2), r.chance(1, 3) ? (size_t)-1 : r.below(a.size() + 2));
            for(auto &x : q)
                o.s += std::to_string(x) + ",";
            o.f("%zu %d", q.size(), q.is_empty());
        });
    }
    std::string t = raw(r, sz(r));
    E::BytesView v(t.data(), t.size()), ev;
    for(int k = 0; k < 10; k++) {
        tr(o, "bytesview", [&] { o.f("%d", v[r.below(t.size() + 2)]); });
        tr(o, "bytesview", [&] { o.f("%d", ev.at(0)); });
        tr(o, "subview", [&] {
            auto q = v.subview(r.below(t.size() + 2), r.chance(1, 3) ? (size_t)-1 : r.below(t.size() + 2));
            o.b("q", q.data(), q.size());
        });
    }
}
// ---------------------------------------------------------------- algorithms and loops
void t_algo(Out &o, Rng &r, const std::string &) {
    for(int k = 0; k < 10; k++) {
        size_t n = r.chance(1, 2) ? r.below(6) : r.below(60);
        E::Vector<int> v;
        unsigned uniq = 1 + r.below(r.chance(1, 2) ? 4 : 1000);
        for(size_t i = 0; i < n; i++)
            v.push_back((int)r.below(uniq) - 5);
        auto sh = [&] {
            for(auto &x : v)
                o.s += std::to_string(x) + ",";
            o.s += '\n';
        };
        sh();
        int x = (int)r.below(uniq) - 5;
        int *b = v.begin(), *e = v.end();
        if(n == 0)
            continue;
        o.f("find %td", E::find(b, e, x) - b);
        o.f("find_if %td", E::find_if((const int *)b, (const int *)e, [&](int y) { return y > x; }) - b);
        o.f("find_if_not %td", E::find_if_not(b, e, [&](int y) { return y > x; }) - b);
        o.f("min %td", E::min_element(b, e) - b);
        o.f("part %td", E::partition(b, e, [&](int y) { return y % 2 == 0; }) - b);
        sh();
        if(r.chance(1, 2))
            E::insertion_sort(b, e);
        else
            E::insertion_sort(E::Span<int>(b, n));
        sh();
        int *l = E::lower_bound(b, e, x);
        o.f("lb %td", l - b);
        o.f("lb2 %td", E::lower_bound(b, e, x, [](int p, int q) { return p < q; }) - b);
        if(n > 1)
            E::swap(v[0], v[n - 1]);
        sh();
        double d[] = {-1.5, 0.0, -0.0, 1e300, (double)x, __builtin_nan("")};
        double p = d[r.below(6)], lo = -2, hi = 3;
        o.f("clamp %a %lld %lld %lld", E::clamp(p, lo, hi), (long long)E::clamp((int64_t)x, (int64_t)-2, (int64_t)4),
            (long long)E::clamp((int64_t)-100, (int64_t)-2, (int64_t)4), (long long)E::clamp((int64_t)100, (int64_t)-2, (int64_t)4));
        o.f("mm %d %d", E::maxval(x, 3), E::minval(x, 3));
    }
    EvScope es(o);
    {
        E::Vector<Ev> v;
        for(size_t i = r.below(12); i > 0; i--)
            v.push_back(Ev((int)r.below(9)));
        if(!v.is_empty())
            E::insertion_sort(v.begin(), v.end());
        dump(o, v);
    }
}
struct Gen {
    int n;
    Out *o;
    E::Optional<E::U8String> next() {
        o->f("next %d", n);
        if(n <= 0)
            return {};
        return E::Optional<E::U8String>(E::U8String(std::to_string(n--).c_str()));
    }
};
void t_loops(Out &o, Rng &r, const std::string &) {
    for(int k = 0; k < 8; k++) {
        int64_t a = r.range(-20, 20), b = r.range(-20, 40), st = r.range(1, 9);
        E::Range g = r.chance(1, 3) ? E::Range(b) : r.chance(1, 2) ? E::Range(a, b) : E::Range(a, b, st);
        int lim = 100;
        if(r.chance(1, 2)) {
            for(auto &x : E::LoopView(g)) {
                o.s += std::to_string(x) + ",";
                if(--lim == 0)
                    break;
            }
            auto y = g.next();
            o.f("| %d", (bool)y);
        } else
            for(auto &x : E::Loopsume(E::move(g))) {
                o.s += std::to_string(x) + ",";
                if(--lim == 0)
                    break;
            }
        o.f(".");
    }
    E::Range back(5, 0, -1), def;
    o.f("%d %d", (bool)back.next(), (bool)def.next());
    Gen g{(int)r.below(6), &o};
    for(auto &x : E::LoopView(g))
        put(o, "g", x);
    E::Vector<E::U8String> v;
    for(size_t i = r.below(5); i > 0; i--)
        v.push_back(Key<E::U8String>::mk((int)i));
    if(!v.is_empty())
        for(auto x : E::EnumerateView(v)) {
            o.f("%zu", x.i);
            put(o, "v", x.value);
        }
}
void t_format(Out &o, Rng &r, const std::string &) {
    for(int k = 0; k < 10; k++) {
        std::string t = text(r, r.chance(1, 4) ? 900 + r.below(110) : sz(r));
        int i = (int)r.next();
        E::CString acc("[");
        E::Bytes bs;
        tr(o, "format", [&] {
            switch(r.below(5)) {
            case 0: put(o, "f", E::cformat("%d %s", i % 100000, t.substr(0, 1000).c_str())); break;
            case 1: put(o, "f", E::cformat("%08x|%-10d|%c", (unsigned)i, i, 'c')); break;
            case 2: E::format_append(acc, "%s", t.c_str()); put(o, "a", acc); E::format_append(acc, "%%%5.2f", i / 7.0); put(o, "a", acc); break;
            case 3: E::format_append(bs, "%s%c", t.c_str(), r.below(2) ? 'x' : 0); put(o, "b", bs); break;
            case 4: put(o, "f", E::cformat("%s", "")); put(o, "g", E::cformat("%c", 0)); break;
            }
        });
    }
    tr(o, "exc", [&] { throw E::PyException("message with \xC3\xA4"); });
    tr(o, "exc", [&] { throw E::PyException(E::U8String("\xC3\xA4 text")); });
    tr(o, "exc", [&] { E::bootstrap_throw("boot"); });
}
// ---------------------------------------------------------------- files
std::string ptext(Rng &r) {
    static const char *w[] = {"a", "b.c", ".", "..", "x.tar.gz", ".hid", "d.", "long name", "\xC3\xA4"};
    std::string s = r.chance(1, 4) ? "/" : "";
    for(size_t i = 0, n = r.below(4); i < n; i++)
        s += std::string(i ? (r.chance(1, 8) ? "//" : "/") : "") + w[r.below(9)];
    return s + std::string(r.chance(1, 4) ? 1 + r.below(2) : 0, '/');
}
void t_path(Out &o, Rng &r, const std::string &) {
    for(int k = 0; k < 12; k++) {
        std::string s = ptext(r), t = ptext(r);
        E::Path p(s.c_str()), q(mkc(t)), e;
        put(o, "p", p);
        put(o, "q", q);
        o.f("%d %d %d", p.is_abs(), p.is_empty(), e.is_empty());
        tr(o, "path", [&] {
            put(o, "ext", p.extension());
            put(o, "name", p.filename());
            for(auto &x : p.split())
                put(o, "part", x);
            put(o, "join", p / q);
            put(o, "join", p / t.c_str());
            put(o, "join", p / mkc(t));
            put(o, "join", e / q);
            put(o, "join", q / e);
        });
        tr(o, "ext", [&] {
            p.replace_extension(r.chance(1, 3) ? "" : r.chance(1, 2) ? ".new" : "x");
            put(o, "rep", p);
            q.replace_extension(E::CStringView(".q"));
            put(o, "rep", q);
        });
    }
}
void t_files(Out &o, Rng &r, const std::string &dir) {
    std::string f = dir + "/f" + std::to_string(r.below(1000)), g = f + ".other";
    size_t n = r.chance(1, 4) ? 4090 + r.below(12) : sz(r);
    std::string data = r.chance(1, 2) ? raw(r, n) : u8(r, n);
    if(r.chance(1, 2))
        for(auto &c : data)
            if(r.chance(1, 20))
                c = '\n';
    int fd = open(f.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    (void)!write(fd, data.data(), data.size());
    close(fd);
    E::Path p(f.c_str()), q(g.c_str()), d(dir.c_str());
    o.f("%d %d %d %d %d %d", p.exists(), p.is_file(), p.is_dir(), q.exists(), d.is_dir(), d.is_file());
    tr(o, "files", [&] {
        auto b = p.load_bytes();
        o.f("%d", (bool)b);
        if(b)
            o.b("b", b->data() ? b->data() : "", b->size());
        auto t = p.load_text();
        o.f("%d", (bool)t);
        if(t)
            put(o, "t", *t);
        auto x = q.load_bytes();
        auto y = q.load_text();
        o.f("%d %d", (bool)x, (bool)y);
        auto m = E::mmap_file(f.c_str());
        o.f("%d", (bool)m);
        if(m) {
            auto v = m->view();
            o.b("m", v.data(), v.size());
            E::MMapping mm(E::move(*m));
            o.f("%zu %zu", mm.view().size(), m->view().size());
        }
        auto mn = E::mmap_file(g.c_str());
        o.f("%d", (bool)mn);
    });
    tr(o, "lines", [&] {
        E::File l(f.c_str(), "rb");
        while(!l.eof()) {
            auto x = l.readline_bytes();
            put(o, "l", x);
        }
    });
    tr(o, "iter", [&] {
        E::File l(f.c_str(), "rb");
        for(auto &&x : l)
            o.b("i", x.data() ? x.data() : "", x.size());
    });
    o.f("rename %d", p.rename_to(q));
    o.f("%d %d", p.exists(), q.is_file());
    o.f("rename %d", q.rename_to(d));
    o.f("rename %d", p.rename_to(q));
    unlink(g.c_str());
    unlink(f.c_str());
}
void t_glob(Out &o, Rng &r, const std::string &dir) {
    static const char *pats[] = {"*", "*.txt", "f?", "?", "*a*", "d1/*", "d?/f*", "**/f1", "**/*.txt", "d1/**/f1", "d1/**/*", ".hidden", "d1", "d1/d2/f1", "nothing*",
                                 "**/**/x", "a**", "f*t", "d*/d2/*.txt", "**/d2/f?", "f1*", "*1", "d2/**/f1", ""};
    for(int k = 0; k < 6; k++) {
        const char *pat = pats[r.below(sizeof pats / sizeof *pats)];
        std::string start = dir + "/tree" + (r.chance(1, 4) ? "/d1" : r.chance(1, 8) ? "/missing" : "");
        o.f("%s", pat);
        std::vector<std::string> got;
        size_t stop = r.chance(1, 6) ? r.below(3) : 500;
        tr(o, "glob", [&] {
            E::Path p(start.c_str());
            auto g = p.glob(pat);
            while(got.size() < stop) {
                auto x = g.next();
                if(!x)
                    break;
                std::string s(x->c_str(), x->size());
                got.push_back(s.compare(0, dir.size(), dir) == 0 ? s.substr(dir.size()) : s);
            }
            o.f("more %d", stop == 500 && (bool)g.next());
        });
        if(stop == 500)
            std::sort(got.begin(), got.end());
        o.f("%zu", got.size());
        if(stop == 500)
            for(auto &s : got)
                o.f("%s", s.c_str());
    }
}
void t_regex(Out &o, Rng &r, const std::string &) {
    static const char *pats[] = {"a", "(a)(b)", "a+b*", "[a-c]+", "^x", "x$", "(\\w+) (\\w+)", ".", "(.)(.)(.)", "\\d{2,3}", "((", "a{2", "[", "*a", "\xC3\xA4+", "(?:ab)+", "(a|b)c", "\\p{Lu}", "(x)?y", "$", "^",
                                 "(\xE2\x82\xAC)", "\\s", "\\S+", "(a*)", "(?i)Z", "\\"};
    for(int k = 0; k < 8; k++) {
        std::string t = r.chance(1, 2) ? u8(r, r.below(20)) : std::string("abc x12 xyab") .substr(r.below(8));
        const char *pat = pats[r.below(sizeof pats / sizeof *pats)];
        o.b(pat, t.data(), t.size());
        tr(o, "regex", [&] {
            E::U8Regex re{E::U8String(pat)};
            E::U8String s(t.c_str());
            E::U8Match m = E::regex_search(re, s);
            size_t n = m.num_groups();
            o.f("groups %zu", n);
            for(size_t i = 0; i <= n; i++) {
                if(!strcmp(pat, "(x)?y") && i)
                    break; // what an unset group gives is undefined in the release
                tr(o, "sub", [&] { put(o, "sub", m.get_submatch(i)); });
                tr(o, "group", [&] { put(o, "group", m.group(i).raw_view()); });
            }
            tr(o, "sub", [&] { m.get_submatch(n + 1 + r.below(3)); });
            tr(o, "group", [&] { m.group(n + 2 + r.below(3)); });
            E::U8Match m2(E::move(m));
            o.f("groups %zu", m2.num_groups());
        });
    }
}
struct Sh {
    E::Mutex m;
    int n = 0;
};
void *thr(void *p) {
    Sh &s = *(Sh *)p;
    for(int i = 0; i < 50; i++) {
        E::LockGuard<E::Mutex> g(s.m);
        ++s.n;
    }
    return nullptr;
}
void t_threads(Out &o, Rng &r, const std::string &) {
    Sh s;
    o.f("%d", s.m.try_lock());
    o.f("%d", s.m.try_lock());
    s.m.unlock();
    s.m.lock();
    s.m.unlock();
    {
        E::Thread a(thr, &s), b(thr, &s);
        if(r.chance(1, 2))
            a.join();
    }
    o.f("%d", s.n);
}
// what the release answers with a deliberate end of the process
void t_fatal(Out &, Rng &r, const std::string &dir) {
    switch(r.below(7)) {
    case 0: E::internal_failure("on purpose"); break;
    case 1: (void)E::clamp((int64_t)1, (int64_t)5, (int64_t)2); break;
    case 2: (void)E::clamp(1.0, 5.0, 2.0); break;
    case 3: { E::File f((dir + "/there is none").c_str(), "rb"); break; }
    case 4: { E::Expected<int, E::U8String> e(4); (void)e.error(); break; }
    case 5: { E::Expected<int, E::U8String> e; (void)e.error(); break; }
    case 6: { E::Expected<int, E::U8String> e(4); (void)e.value(); break; }
    }
}
} // namespace

#define T25(n) {#n, t_##n},
static const struct {
    const char *name;
    void (*fn)(Out &, Rng &, const std::string &);
} table[] = {T25(bytes) T25(cstring) T25(cview) T25(utf8) T25(u8string) T25(unicode) T25(vec_int) T25(vec_ev) T25(vec_u8) T25(fvec_int) T25(fvec_ev) T25(fvec_u8) T25(fcs) T25(wrappers) T25(map_int) T25(map_u64) T25(map_u8) T25(map_str) T25(set) T25(hash) T25(btree) T25(stack_span) T25(algo) T25(loops) T25(format) T25(path) T25(files) T25(glob) T25(regex) T25(threads) T25(fatal)};

size_t E25_FN(count)() { return sizeof table / sizeof *table; }
const char *E25_FN(name)(size_t i) { return table[i].name; }
std::string E25_FN(trace)(size_t i, uint64_t seed, const std::string &dir) {
    Out o;
    Rng r(seed);
    tr(o, "history", [&] { table[i].fn(o, r, dir); });
    return o.s;
}
