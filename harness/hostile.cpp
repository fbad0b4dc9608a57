// P28: programs that mix objects of every kind and pass hostile arguments. There is no model
// here: the oracle is the sanitizer (or memcheck) plus "only PyException comes out" and the
// structural promises of the types (terminator, well-formed UTF-8, sizes within capacity).
#include "common26.hpp"
#include <pystd2026_hashtable.hpp>
#include <pystd2026_btree.hpp>
#include <pystd2026_variant.hpp>
#include <pystd2026_regex.hpp>
#include <pystd2026_introsort.hpp>
#include <pystd2026_mergesort.hpp>
#include <pystd2026_nth_element.hpp>
#include <pystd2026_partial_sort.hpp>
#include <pystd2026_heapsort.hpp>
#include <pystd2026_shellsort.hpp>
#include <pystd2026_indirect_sort.hpp>
#include <pystd2026_stablepartition.hpp>
#include <pystd2026_rotate.hpp>
#include <unistd.h>
#include <fcntl.h>

namespace {
volatile uint64_t sink;
void eat(const void *p, size_t n) {
    uint64_t h = n;
    for(size_t i = 0; i < n; i++)
        h = h * 31 + ((const unsigned char *)p)[i];
    if(h & 1) // a branch, so that undefined bytes are noticed
        sink = sink + h;
    else
        sink = sink ^ h;
}
bool wellformed(const char *cp, size_t n) {
    const unsigned char *p = (const unsigned char *)cp;
    for(size_t i = 0; i < n;) {
        unsigned b = p[i];
        size_t len = b < 0x80 ? 1 : b >= 0xC2 && b <= 0xDF ? 2 : b >= 0xE0 && b <= 0xEF ? 3 : b >= 0xF0 && b <= 0xF4 ? 4 : 0;
        if(!len || i + len > n)
            return false;
        for(size_t k = 1; k < len; k++)
            if((p[i + k] & 0xC0) != 0x80)
                return false;
        if((b == 0xE0 && p[i + 1] < 0xA0) || (b == 0xED && p[i + 1] > 0x9F) || (b == 0xF0 && p[i + 1] < 0x90) ||
           (b == 0xF4 && p[i + 1] > 0x8F))
            return false;
        i += len;
    }
    return true;
}
// An index that is often wrong.
size_t bad_index(vh::Rng &r, size_t size) {
    switch(r.below(14)) {
    case 0: return size;
    case 1: return size + 1;
    case 2: return size + 1 + r.below(100);
    case 3: return (size_t)-1;
    case 4: return (size_t)-1 - r.below(3);
    case 5: return (size_t)1 << (8 * (1 + r.below(7)));
    case 6: return (size_t)INT64_MAX + r.below(2);
    case 7: return size / 2;
    case 8: return (size_t)0 - size;
    default: return size ? r.below(size) : 0;
    }
}
std::string utext(vh::Rng &r, size_t n) {
    static const char *const bits[] = {"a", "b", "A", " ", "\n", "\t", "\xc3\xa4", "\xc3\x9f", "\xc4\xb0", "\xe2\x82\xac", "\xf0\x9f\x98\x80",
                                       "\xef\xac\x83", "0", "9", "(", ")", "*", "+", "[", "]", "\\", ".", "?", "|", "^", "$", "{", "}", "\\1", "-"};
    std::string s;
    for(size_t i = 0; i < n; i++)
        s += bits[r.below(sizeof bits / sizeof *bits)];
    return s;
}
std::string malformed(vh::Rng &r, size_t n) {
    std::string s = utext(r, n);
    for(size_t k = 0; k < 1 + r.below(3) && s.size(); k++) {
        size_t i = r.below(s.size());
        switch(r.below(4)) {
        case 0: s[i] = (char)r.below(256); break;
        case 1: s.erase(i, 1); break;
        case 2: s.insert(i, 1, (char)(0x80 + r.below(128))); break;
        default: s.resize(i); break;
        }
    }
    return s;
}

struct Bag {
    vh::Case &c;
    vh::Rng &r;
    P::Bytes by[2];
    P::CString cs[3];
    P::U8String us[3];
    P::Vector<P::CString> vc[2];
    P::Vector<int> vi[2];
    P::HashMap<P::CString, P::U8String> hm;
    P::HashSet<P::U8String> hs;
    P::BTreeMap<P::CString, P::CString, 3> bm;
    P::Optional<P::U8String> ou;
    P::FixedCString<16> fs;
    P::FixedVector<P::CString, 4> fv;
    P::Path pa;
    P::Variant<bool, int64_t, P::CString, P::Vector<P::CString>> var;
    explicit Bag(vh::Case &c_) : c(c_), r(c_.rng), var(false) {}

    void look(const P::Bytes &b) { eat(b.data(), b.size()); }
    void look(const P::CString &s) {
        EXPECT(s.c_str()[s.size()] == 0, "hostile.terminator", "a CString is not terminated");
        EXPECT(strlen(s.c_str()) == s.size(), "hostile.embedded-nul", "a CString holds a NUL before its end");
        eat(s.c_str(), s.size() + 1);
    }
    void look(const P::U8String &s) {
        EXPECT(strlen(s.c_str()) == s.size_bytes(), "hostile.embedded-nul", "a U8String holds a NUL or has no terminator");
        EXPECT(wellformed(s.c_str(), s.size_bytes()), "hostile.utf8", "malformed text in a U8String: %s", vh::show(s.c_str(), s.size_bytes()).c_str());
        eat(s.c_str(), s.size_bytes() + 1);
    }
    void look(const P::CStringView &v) { eat(v.data(), v.size()); }
    void look(const P::U8StringView &v) {
        if(v.size_bytes())
            EXPECT(wellformed(v.data(), v.size_bytes()), "hostile.utf8", "malformed text in a view");
        eat(v.data(), v.size_bytes());
    }
    void everything() {
        for(auto &x : by) look(x);
        for(auto &x : cs) look(x);
        for(auto &x : us) look(x);
        for(auto &v : vc)
            for(auto &x : v) look(x);
        for(auto &v : vi) eat(v.data(), v.size() * sizeof(int));
        size_t n = 0;
        for(const auto &kv : hm) {
            look(*kv.key);
            look(*kv.value);
            n++;
        }
        EXPECT(n == hm.size(), "hostile.map-size", "size %zu but %zu entries", hm.size(), n);
        n = 0;
        for(const auto &k : hs) {
            look(k);
            n++;
        }
        EXPECT(n == hs.size(), "hostile.map-size", "size %zu but %zu keys", hs.size(), n);
        if(ou) look(*ou);
        EXPECT(fs.size() <= 16 && fs.c_str()[fs.size()] == 0, "hostile.fixed", "FixedCString size %u", (unsigned)fs.size());
        for(auto &x : fv) look(x);
        eat(pa.c_str(), strlen(pa.c_str()));
    }
    P::CString &S() { return cs[r.below(3)]; }
    P::U8String &U() { return us[r.below(3)]; }
    // a view that may show any part of anything that lives, or nothing
    P::CStringView V() {
        switch(r.below(7)) {
        case 0: return P::CStringView();
        case 1: {
            auto &s = S();
            return s.view();
        }
        case 2: case 3: {
            auto &s = S();
            size_t a = r.below(s.size() + 1), b = a + r.below(s.size() - a + 1);
            return P::CStringView(s.c_str() + a, s.c_str() + b);
        }
        case 4: {
            auto &u = U();
            return P::CStringView(u.c_str(), u.size_bytes());
        }
        case 5: {
            auto &b = by[r.below(2)];
            return P::CStringView(b.data(), b.size());
        }
        default: return P::CStringView("literal text");
        }
    }
    P::ValidU8Iterator at(const P::U8String &u) {
        auto it = u.cbegin();
        size_t n = r.below(6);
        while(n-- && it != u.cend())
            ++it;
        return it;
    }
    P::U8StringView W() {
        switch(r.below(5)) {
        case 0: return P::U8StringView();
        case 1: return U().view();
        case 2: case 3: {
            auto &u = U();
            auto a = at(u);
            auto b = a;
            size_t n = r.below(4);
            while(n-- && b != u.cend())
                ++b;
            return P::U8StringView(a, b);
        }
        default: return P::U8StringView("\xc3\xa4xyz", 5);
        }
    }
    void bytes_op() {
        auto &b = by[r.below(2)];
        auto &o = by[r.below(2)];
        size_t k = r.below(14);
        c.note("bytes %zu", k);
        switch(k) {
        case 0: { // own contents and other contents
            auto v = V();
            if(v.size() < 400) b.append(v.data(), v.data() + v.size());
            break;
        }
        case 1: {
            auto v = V();
            if(!b.is_ptr_within(v.data())) // its own bytes: asserted against
                b.insert(bad_index(r, b.size()), v.data(), v.size() < 400 ? v.size() : 1);
            break;
        }
        case 2: {
            size_t a = bad_index(r, b.size()), z = bad_index(r, b.size());
            b.remove(a, z);
            break;
        }
        case 3: b.pop_front(bad_index(r, b.size())); break;
        case 4: b.pop_back(bad_index(r, b.size())); break;
        case 5: sink = sink + b[bad_index(r, b.size())]; break;
        case 6: sink = sink + b.front() + b.back(); break;
        case 7: {
            size_t old = b.size(), n = r.below(70);
            if(old < 1000) {
                b.extend(n);
                memset(b.data() + old, 'x', n);
            }
            break;
        }
        case 8: b.shrink(bad_index(r, b.size())); break;
        case 9: if(b.size() + o.size() < 2000) b += o; break;
        case 10: b = o; break;
        case 11: { P::Bytes t(P::move(b)); b = P::Bytes(o); o = P::move(t); break; }
        case 12: {
            auto v = V();
            b.assign(v.data(), v.size());
            break;
        }
        case 13: sink = sink + (b < o) + (b == o) + ((b <=> o) < 0); break;
        }
        look(b);
        look(o);
    }
    void cstring_op() {
        auto &s = S();
        auto &o = S();
        size_t k = r.below(24);
        c.note("cstring %zu", k);
        if(s.size() > 600) s = P::CString("short");
        switch(k) {
        case 0: s.insert(bad_index(r, s.size()) % (s.size() + 1), V()); break;
        case 1: s.remove(bad_index(r, s.size()), bad_index(r, s.size())); break;
        case 2: look(s.substr(bad_index(r, s.size()), bad_index(r, s.size()))); break;
        case 3: s += o; break;
        case 4: s += (char)r.below(256); break;
        case 5: s += o.c_str() + r.below(o.size() + 1); break;
        case 6: { auto v = V(); if(v.data()) s.append(v.data(), v.data() + v.size()); break; }
        case 7: { auto v = V(); if(v.data()) s.append(v.data(), r.below(v.size() + 1)); break; }
        case 8: s = P::CString(V()); break;
        case 9: s.strip(); break;
        case 10: if(s.size()) s.pop_back(); break;
        case 11: s = o; break;
        case 12: { P::CString t(P::move(s)); s = o; o = P::move(t); break; }
        case 13: s = o.c_str() + r.below(o.size() + 1); break;
        case 14: sink = sink + s.find(V()) + s.rfind((char)r.below(256)); break;
        case 15: { auto v = s.split(); for(auto &x : v) look(x); break; }
        case 16: { auto v = s.split_by(s.size() ? s.c_str()[r.below(s.size())] : 'x'); for(auto &x : v) look(x); vc[r.below(2)] = P::move(v); break; }
        case 17: sink = sink + (s == V()) + (s < o) + (s == o.c_str()); break;
        case 18: look(P::CString(by[r.below(2)])); break;
        case 19: s.clear(); break;
        case 20: s.reserve(r.below(500)); break;
        case 21: sink = sink + s.back(); break;
        case 22: {
            auto z = s.zview();
            auto y = z.subview(bad_index(r, s.size()));
            eat(y.c_str(), y.size() + 1);
            break;
        }
        case 23: s.insert(bad_index(r, s.size()) % (s.size() + 1), CStr(s)); break;
        }
        look(s);
        look(o);
    }
    P::CStringView CStr(P::CString &s) { return s.view(); }
    void view_op() {
        auto v = V();
        auto w = V();
        size_t k = r.below(12);
        c.note("view %zu (%zu, %zu)", k, v.size(), w.size());
        switch(k) {
        case 0: look(v.substr(bad_index(r, v.size()), bad_index(r, v.size()))); break;
        case 1: sink = sink + v.find(w); break;
        case 2: sink = sink + v.find((char)r.below(256)); break;
        case 3: sink = sink + v.starts_with(w) + v.starts_with("lit"); break;
        case 4: sink = sink + v[bad_index(r, v.size())]; break;
        case 5: sink = sink + v.front(); break;
        case 6: sink = sink + (v == w) + (v < w) + v.overlaps(w); break;
        case 7: look(v.upper()); look(v.lower()); break;
        case 8: sink = sink + v.natural_order(w) + w.natural_order(v); break;
        case 9: v.split([](const P::CStringView &x, void *p) { ((Bag *)p)->look(x); return true; }, this); break;
        case 10: v.split([](const P::CStringView &x, void *) { eat(x.data(), x.size()); return false; }, nullptr); break;
        case 11: {
            auto x = v.substr(r.below(v.size() + 1));
            auto y = x.substr(0, r.below(x.size() + 1));
            look(y);
            break;
        }
        }
    }
    void u8_op() {
        auto &u = U();
        auto &o = U();
        size_t k = r.below(28);
        c.note("u8 %zu", k);
        if(u.size_bytes() > 400) u = P::U8String("short");
        switch(k) {
        case 0: { auto t = malformed(r, r.below(8)); vh::Exact e(t); u = P::U8String(e.p, e.n); break; }
        case 1: { auto t = malformed(r, r.below(8)); vh::Exact e(t); P::U8StringView v(e.p, e.n); look(v); u = P::U8String(v); break; }
        case 2: { auto t = utext(r, r.below(12)); u = P::U8String(t.c_str()); break; }
        case 3: u = P::U8String(P::Bytes(by[r.below(2)])); break;
        case 4: { auto it = at(u); u.insert(it, W()); break; }
        case 5: u.remove(W()); break;
        case 6: if(u.size_bytes()) u.pop_front(); break;
        case 7: if(u.size_bytes()) u.pop_back(); break;
        case 8: u.append_codepoint((uint32_t)r.next()); break;
        case 9: { static const uint32_t cps[] = {0, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x110000, 0xffffffff};
            u.append_codepoint(cps[r.below(14)]); break; }
        case 10: u += o; break;
        case 11: look(u.substr(bad_index(r, u.size_bytes()), bad_index(r, u.size_bytes()))); break;
        case 12: look(u.view().upper()); look(u.view().lower()); break;
        case 13: { auto v = u.split_ascii(); for(auto &x : v) look(x); o = u.join(v); break; }
        case 14: sink = sink + u.contains(W()) + u.overlaps(W()); break;
        case 15: u = W(); break;
        case 16: { P::U8String t(P::move(u)); u = o; o = P::move(t); break; }
        case 17: u = o; break;
        case 18: sink = sink + (u == o.c_str()) + (u.view() == W()) + (u < o); break;
        case 19: { uint64_t h = 0; for(auto it = u.cbegin(); it != u.cend(); ++it) h += *it; sink = sink + h; break; }
        case 20: { uint64_t h = 0; for(auto it = u.crbegin(); it != u.crend(); ++it) h += *it; sink = sink + h; break; }
        case 21: { auto it = u.cend(); uint64_t h = 0; while(it != u.cbegin()) { --it; h += *it; } sink = sink + h; break; }
        case 22: { auto cl = u.view().split_ascii(); size_t n = 0; while(auto x = cl.next()) { look(*x); if(++n > r.below(6)) break; } break; }
        case 23: u.split([](const P::U8StringView &x, void *p) { ((Bag *)p)->look(x); return true; }, [](uint32_t cp) { return cp == 0xe4 || cp == 'b'; }, this); break;
        case 24: { auto a = P::uppercase_unicode((uint32_t)r.below(0x120000)); sink = sink + a.codepoints[0] + a.codepoints[1] + a.codepoints[2]; break; }
        case 25: { auto a = P::lowercase_unicode((uint32_t)r.next()); sink = sink + a.codepoints[0] + a.codepoints[1] + a.codepoints[2]; break; }
        case 26: u.reserve(r.below(300)); break;
        case 27: { auto w = W(); if(w.size_bytes()) { auto s = w.raw_view(); look(s); } break; }
        }
        look(u);
        look(o);
    }
    void vector_op() {
        auto &v = vc[r.below(2)];
        auto &o = vc[r.below(2)];
        auto &n = vi[r.below(2)];
        size_t k = r.below(20);
        c.note("vector %zu", k);
        if(v.size() > 40) v.clear();
        switch(k) {
        case 0: v.push_back(S()); break;
        case 1: if(v.size()) v.push_back(v[r.below(v.size())]); break;
        case 2: if(v.size()) v.emplace_back(v[r.below(v.size())]); break;
        case 3: { auto x = v.pop_back(); if(x) look(*x); break; }
        case 4: look(v[bad_index(r, v.size())]); break;
        case 5: look(v.front()); look(v.back()); break;
        case 6: v.append(o.begin(), o.end()); break;
        case 7: v.assign(o.begin(), o.end()); break;
        case 8: v = P::Vector<P::CString>(o); break;
        case 9: v.reserve(r.below(100)); break;
        case 10: v.append_with_default(r.below(5)); break;
        case 11: sink = sink + (v == o); break;
        case 12: P::introsort(v.begin(), v.end()); break;
        case 13: { auto sp = n.span(); look_span(sp); break; }
        case 14: n.push_back((int)r.next()); if(n.size()) n.push_back(n[n.size() - 1]); break;
        case 15: P::mergesort(n.begin(), n.end()); break;
        case 16: if(n.size()) P::nth_element(n.begin(), n.end(), r.below(n.size())); break;
        case 17: sink = sink + n[bad_index(r, n.size())]; break;
        case 18: n.append_with_default(r.below(6)); break;
        case 19: v = P::move(o); break;
        }
        for(auto &x : v) look(x);
        if(n.size() > 200) n.clear();
    }
    template<class T> void look_span(T sp) {
        auto s2 = sp.subspan(bad_index(r, sp.size()), bad_index(r, sp.size()));
        for(size_t i = 0; i < s2.size(); i++)
            sink = sink + s2[i];
        sink = sink + sp[bad_index(r, sp.size())];
    }
    void assoc_op() {
        size_t k = r.below(16);
        c.note("assoc %zu", k);
        if(hm.size() > 60) hm = P::HashMap<P::CString, P::U8String>();
        switch(k) {
        case 0: case 1: hm.insert(S(), U()); break;
        case 2: hm.remove(S()); break;
        case 3: if(auto *p = hm.lookup(S())) look(*p); break;
        case 4: look(hm.at(S())); break;
        case 5: look(hm[S()]); break;
        case 6: { // an argument inside the map itself
            auto it = hm.begin();
            if(it != hm.end()) hm.insert(*(*it).key, *(*it).value);
            break;
        }
        case 7: { auto it = hm.begin(); if(it != hm.end()) hm.remove(*(*it).key); break; }
        case 8: hs.insert(U()); break;
        case 9: hs.remove(U()); break;
        case 10: sink = sink + hs.contains(U()) + hm.contains(S()); break;
        case 11: bm.insert(S(), S()); break;
        case 12: bm.remove(S()); break;
        case 13: if(auto *p = bm.lookup(S())) look(*p); break;
        case 14: { P::HashMap<P::CString, P::U8String> t(P::move(hm)); hm = P::move(t); break; }
        case 15: if(hs.size() > 40) hs = P::HashSet<P::U8String>(); break;
        }
    }
    void small_op() {
        size_t k = r.below(26);
        c.note("small %zu", k);
        switch(k) {
        case 0: ou = U(); break;
        case 1: ou.reset(); break;
        case 2: look(*ou); break;
        case 3: look(ou.value()); break;
        case 4: { P::Optional<P::U8String> t(P::move(ou)); ou = t; break; }
        case 5: fs = V(); break;
        case 6: if(fs.size()) fs.pop_back(); break;
        case 7: { auto i = (uint32_t)bad_index(r, fs.size()); if(i <= fs.size() || i > 16) sink = sink + fs[i]; break; }
        case 8: { P::FixedCString<16> t(fs); fs = P::move(t); sink = sink + (fs == V()) + (fs == "abc"); break; }
        case 9: fv.push_back(S()); break;
        case 10: fv.insert(bad_index(r, fv.size()), P::CString(S())); break;
        case 11: fv.delete_at(bad_index(r, fv.size())); break;
        case 12: if(fv.size()) fv.pop_front(); break;
        case 13: look(fv[bad_index(r, fv.size())]); look(fv.front()); break;
        case 14: var = P::CString(S()); break;
        case 15: { P::Vector<P::CString> t(vc[0]); var = P::move(t); break; }
        case 16: var = (int64_t)r.next(); break;
        case 17: look(var.get<P::CString>()); break;
        case 18: { auto t = var; var = P::move(t); break; }
        case 19: sink = sink + var.get<int64_t>(); break;
        case 20: { P::CString f = P::cformat("%s|%d|%*d|%-20s", S().c_str(), (int)r.next(), (int)r.below(300), 7, U().c_str()); look(f); break; }
        case 22: {
            P::FixedVector<P::CString, 4> t, u;
            t.push_back(S());
            t.push_back(t.front());
            u = P::move(t);
            if(fv.size() + u.size() <= 4 || r.chance(1, 8)) fv.move_append(u);
            if(fv.size()) look(fv.back());
            fv = P::move(fv);
            sink = sink + fv.try_push_back(S()) + fv.try_emplace_back("x");
            break;
        }
        case 23: { auto &s = S(); s.resize(r.below(200)); look(s); s.push_back('e'); look(s); break; }
        case 24: {
            P::unique_ptr<P::CString> a(new P::CString(S())), b;
            b = P::move(a);
            b = P::move(b);
            if(b) look(*b);
            b.reset(new P::CString(*b));
            look(*b);
            break;
        }
        case 25: {
            P::Optional<P::U8String> t(U());
            ou = t;
            ou = P::move(t);
            const auto &co = ou;
            look(co.value());
            ou = ou;
            ou = P::move(ou);
            break;
        }
        case 21: P::format_append(S(), "%.*s", (int)r.below(1500), U().c_str()); break;
        }
    }
    // every algorithm over the strings and numbers of the program, whatever they are by now
    void sort_op() {
        size_t k = r.below(14);
        c.note("sort %zu", k);
        auto &v = vc[r.below(2)];
        auto &w = vi[r.below(2)];
        for(size_t i = r.below(40); i > 0; i--) w.push_back((int)(r.next() % 50));
        for(size_t i = r.below(12); i > 0; i--) v.push_back(S());
        auto cmp = P::DefaultComparator<P::CString>{};
        auto b = v.begin(), e = v.end();
        size_t n = v.size();
        switch(k) {
        case 0: P::introsort(b, e, cmp); break;
        case 1: P::mergesort(b, e, cmp); break;
        case 2: P::heapsort(b, e, cmp); break;
        case 3: P::shell_sort(b, e, cmp); break;
        case 4: P::insertion_sort(b, e, cmp); break;
        case 5: if(n) P::nth_element(b, e, r.below(n)); break;
        case 6: P::partial_sort(b, e, r.below(n + 1)); break;
        case 7: P::rotate(b, b + r.below(n + 1), e); break;
        case 8: { auto m = P::stable_partition(b, e, [](const P::CString &x) { return x.size() & 1; }); sink = sink + (m - b); break; }
        case 9: { auto idx = P::indirect_stable_sort(b, e); for(auto i : idx) look(v[i]); break; }
        case 10: P::introsort(w.begin(), w.end()); break;
        case 11: P::mergesort(w.begin(), w.end()); break;
        case 12: { P::swap(vc[0], vc[1]); P::swap(vi[0], vi[1]); break; }
        case 13: { auto i = P::find(b, e, S()); if(i != e) look(*i); auto m = P::min_element(b, e); if(m != e) look(*m); break; }
        }
        for(auto &x : v) look(x);
        if(v.size() > 60) v.clear();
        if(w.size() > 300) w.clear();
    }
    void regex_op() {
        c.note("regex");
        auto &p = U();
        auto &t = U();
        P::U8Regex re(p);
        auto m = P::regex_search(re, t);
        size_t n = m.num_groups();
        for(int i = 0; i < 4; i++) {
            size_t g = bad_index(r, n);
            try {
                auto v = m.group(g);
                look(v);
                look(m.get_submatch(g));
            } catch(const P::PyException &) {
            }
        }
        c.cover("patterns accepted");
    }
    void path_op() {
        size_t k = r.below(9);
        c.note("path %zu", k);
        switch(k) {
        case 0: pa = P::Path(S().c_str()); break;
        case 1: pa = pa / S(); break;
        case 2: pa = pa / pa; break;
        case 3: look(pa.extension()); break;
        case 4: { auto f = pa.filename(); eat(f.c_str(), strlen(f.c_str())); break; }
        case 5: { auto v = pa.split(); for(auto &x : v) look(x); break; }
        case 6: pa.replace_extension(V()); break;
        case 7: sink = sink + pa.is_abs(); break;
        case 8: pa = P::Path(V().size() ? P::CString(S()) : P::CString()); break;
        }
        if(strlen(pa.c_str()) > 300) pa = P::Path();
    }
};
} // namespace

VH_SUITE("P28", mixed_programs, 6) {
    Bag b(c);
    size_t steps = 30 + c.rng.below(c.thorough ? 400 : 120), refused = 0;
    for(size_t i = 0; i < steps; i++) {
        try {
            switch(c.rng.below(16)) {
            case 0: case 1: b.bytes_op(); break;
            case 2: case 3: case 4: b.cstring_op(); break;
            case 5: case 6: b.view_op(); break;
            case 7: case 8: case 9: b.u8_op(); break;
            case 10: case 11: b.vector_op(); break;
            case 12: case 13: b.assoc_op(); break;
            case 14: if(c.rng.chance(1, 2)) b.small_op(); else b.sort_op(); break;
            default: if(c.rng.chance(1, 2)) b.path_op(); else b.regex_op(); break;
            }
        } catch(const P::PyException &e) {
            refused++;
            eat(e.what().c_str(), e.what().size_bytes() + 1);
        }
    }
    b.everything();
    c.ok();
    c.cover("steps", steps);
    c.cover("steps refused", refused);
}

// Files with hostile contents through every reader, and the text that was read through the string functions.
VH_SUITE("P28", exception_texts, 1) {
    auto &r = c.rng;
    for(int k = 0; k < 30; k++) {
        std::string m = r.chance(1, 2) ? gbytes(r, r.below(60)) : gtext(r, r.below(60)), want;
        m = m.substr(0, m.find('\0'));
        for(char ch : m)
            want += (unsigned char)ch > 127 ? '?' : ch;
        vh::Exact e(m + std::string(1, '\0'));
        P::PyException ex((const char *)e.p);
        EXPECT(std::string(ex.what().c_str(), ex.what().size_bytes()) == want, "exception.message", "message %s became %s",
               vh::show(m).c_str(), ex.what().c_str());
        P::PyException copy(ex);
        EXPECT(copy.what() == ex.what(), "exception.copy", "the copy of an exception says %s", copy.what().c_str());
        bool caught = false;
        try {
            throw P::PyException(ex);
        } catch(const P::PyException &got) {
            caught = std::string(got.what().c_str()) == want;
        }
        EXPECT(caught, "exception.caught", "the exception that arrived has another message");
    }
}
VH_SUITE("P28", hostile_files, 1) {
    auto &r = c.rng;
    std::string dir = vh::scratch_dir() + "/h";
    vh::rm_rf_scratch(dir);
    (void)!system(("mkdir -p " + dir).c_str());
    std::string f = dir + "/" + (r.chance(1, 2) ? "x.txt" : "w\xc3\xa4.x");
    std::string data = r.chance(1, 2) ? malformed(r, gsize(r, 9000)) : gbytes(r, gsize(r, 9000));
    if(r.chance(1, 6)) data = std::string(4096 * r.below(3), 'q');
    int fd = open(f.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
    (void)!write(fd, data.data(), data.size());
    close(fd);
    c.note("%zu bytes %s", data.size(), vh::show(data).c_str());
    P::Path p(f.c_str());
    auto b = p.load_bytes();
    if(b) eat(b->data(), b->size());
    auto t = p.load_text();
    if(t) {
        EXPECT(wellformed(t->c_str(), t->size_bytes()), "hostile.utf8", "load_text delivered malformed text");
        auto v = t->split_ascii();
        P::HashMap<P::U8String, size_t> counts;
        for(auto &w : v)
            if(auto *n = counts.lookup(w)) ++*n; else counts.insert(w, 1);
        P::U8String up = t->view().upper();
        eat(up.c_str(), up.size_bytes());
        c.cover("valid texts");
    }
    {
        P::File fl(f.c_str(), "rb");
        for(auto &&line : fl)
            eat(line.data(), line.size());
    }
    if(auto m = P::mmap_file(f.c_str())) {
        auto v = m->span();
        eat(v.data(), v.size());
    }
    if(b) {
        try {
            P::CString s(*b);
            auto v = s.split();
            for(auto &x : v) eat(x.c_str(), x.size());
        } catch(const P::PyException &) {
        }
    }
    c.ok();
}
