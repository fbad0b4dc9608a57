// Sizes above two to the power of thirty-two: counters, offsets, lengths or differences held in 32
// bits go wrong only here.  Long texts are a few megabytes of file mapped again and again, so that
// views over more than four gigabytes cost hardly any memory.
#include "common26.hpp"
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>
#include <memory>
#include <pystd2026_hashtable.hpp>
#ifndef PYSTD_NO_ALGO
#include <pystd2026_nth_element.hpp>
#include <pystd2026_rotate.hpp>
#endif
size_t vh_rss_limit_mb = 20000;
using vh::Case;

namespace {
constexpr size_t G4 = size_t{1} << 32;
constexpr size_t G2 = size_t{1} << 31;
size_t huge_size(Case &c) {
    size_t n = G4 + 5000 + c.rng.below(3000000);
    c.note("size %zu", n);
    c.mix(n);
    c.cover("sizes-beyond-32-bits");
    return n;
}
// false where there is no memory to spare for such sizes
bool room(Case &c) {
    FILE *f = fopen("/proc/meminfo", "r");
    char line[200];
    size_t kb = 0;
    while(f && fgets(line, sizeof line, f))
        if(sscanf(line, "MemAvailable: %zu", &kb) == 1)
            break;
    if(f)
        fclose(f);
    if(kb < 11u << 20) {
        c.cover("skipped-for-lack-of-memory");
        return false;
    }
    return true;
}
// n bytes of one letter, ending at a page that must not be touched
struct Mapped {
    static constexpr size_t BLOCK = size_t{32} << 20;
    char *base, *p;
    size_t n, total;
    Mapped(size_t n_, char fill) : n(n_) {
        size_t len = (n + BLOCK - 1) / BLOCK * BLOCK;
        total = len + BLOCK;
        base = (char *)mmap(nullptr, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        std::string name = vh::scratch_dir() + "/huge";
        int fd = open(name.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
        std::string block(BLOCK, fill);
        if(base == MAP_FAILED || fd < 0 || write(fd, block.data(), BLOCK) != (ssize_t)BLOCK)
            abort();
        unlink(name.c_str());
        for(size_t k = 0; k < len; k += BLOCK)
            if(mmap(base + k, BLOCK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_FIXED | MAP_NORESERVE, fd, 0) == MAP_FAILED)
                abort();
        close(fd);
        p = base + len - n;
    }
    ~Mapped() { munmap(base, total); }
    Mapped(const Mapped &) = delete;
};
// a long run of one letter with a few others in it
struct Sparse {
    size_t n;
    char fill;
    std::map<size_t, char> m;
    char at(size_t i) const {
        auto f = m.find(i);
        return f == m.end() ? fill : f->second;
    }
    void erase(size_t from, size_t to) {
        std::map<size_t, char> k;
        for(auto &e : m)
            if(e.first < from)
                k.insert(e);
            else if(e.first >= to)
                k[e.first - (to - from)] = e.second;
        m = k;
        n -= to - from;
    }
    void insert(size_t i, const std::string &s) {
        std::map<size_t, char> k;
        for(auto &e : m)
            k[e.first < i ? e.first : e.first + s.size()] = e.second;
        for(size_t j = 0; j < s.size(); j++)
            k[i + j] = s[j];
        m = k;
        n += s.size();
    }
    void push(const std::string &s) { insert(n, s); }
    std::vector<size_t> places(vh::Rng &r) const {
        std::vector<size_t> v{0, 1, G2 - 1, G2, G4 - 1, G4, G4 + 1, n - 1, n - 2};
        for(auto &e : m) {
            v.push_back(e.first);
            v.push_back(e.first + 1);
            if(e.first)
                v.push_back(e.first - 1);
        }
        for(int i = 0; i < 40; i++)
            v.push_back(r.below(n));
        std::vector<size_t> w;
        for(auto x : v)
            if(x < n)
                w.push_back(x);
        return w;
    }
};
Sparse marks(vh::Rng &r, size_t n, char fill, const char *letters = "bcdefgh") {
    Sparse s{n, fill, {}};
    for(size_t x : {size_t{0}, G2 - 1, G2, G4 - 1, G4, G4 + 3, n - 1, n - 7, (size_t)r.below(n), G4 + r.below(n - G4)})
        s.m[x] = letters[r.below(strlen(letters))];
    return s;
}
template<class T> void put(T *p, const Sparse &s) {
    for(auto &e : s.m)
        p[e.first] = e.second;
}
template<class F> void same(Case &c, const Sparse &s, size_t size, F &&get, const char *key, const char *what) {
    EXPECT(size == s.n, key, "%s: size %zu, expected %zu", what, size, s.n);
    for(size_t x : s.places(c.rng))
        EXPECT(get(x) == s.at(x), key, "%s: element %zu is %d, expected %d", what, x, get(x), s.at(x));
}
template<class F> bool throws(F &&f) {
    try {
        f();
    } catch(const P::PyException &) {
        return true;
    }
    return false;
}
#define STEP(op)                                                                                                       \
    c.note("%s", op);                                                                                                  \
    c.mixs(op, strlen(op))
} // namespace

VH_SUITE("P01", huge_bytes, 1) {
    if(!room(c))
        return;
    auto &r = c.rng;
    size_t n = huge_size(c);
    Sparse m = marks(r, n, 'a');
    auto chk = [&](const P::Bytes &b, const char *what) {
        same(c, m, b.size(), [&](size_t i) { return b[i]; }, "huge.bytes", what);
        EXPECT(b.back() == m.at(m.n - 1) && b.front() == m.at(0), "huge.bytes", "%s: ends", what);
        EXPECT((size_t)(b.end() - b.begin()) == m.n && b.span().size() == m.n, "huge.bytes", "%s: range of %zu", what, b.span().size());
        EXPECT(b.is_ptr_within(b.data() + G4) && b.is_ptr_within(b.data() + m.n - 1) && !b.is_ptr_within(b.data() + m.n), "huge.bytes",
               "%s: is_ptr_within", what);
        EXPECT(throws([&] { (void)b[m.n]; }), "huge.refusal", "%s: reading past the end", what);
    };
    switch(c.index % 3) {
    case 0: {
        STEP("append, shrink, remove, pop");
        P::Bytes b(n, 'a');
        put(b.data(), m);
        chk(b, "fill");
        b.append('z');
        m.push("z");
        chk(b, "append");
        b.append("12345", "12345" + 5);
        m.push("12345");
        b.shrink(2);
        m.erase(m.n - 2, m.n);
        chk(b, "shrink");
        b.remove(G4 - 2, G4 + 2);
        m.erase(G4 - 2, G4 + 2);
        chk(b, "remove");
        b.pop_front(3);
        m.erase(0, 3);
        chk(b, "pop_front");
        b.pop_back(3);
        m.erase(m.n - 3, m.n);
        chk(b, "pop_back");
        b.resize_to(G4 + 10);
        m.erase(G4 + 10, m.n);
        chk(b, "resize");
        b.pop_front(G4);
        m.erase(0, G4);
        EXPECT(b.size() == 10 && m.n == 10, "huge.bytes", "pop_front of 2^32: %zu left", b.size());
        for(size_t i = 0; i < 10; i++)
            EXPECT(b[i] == m.at(i), "huge.bytes", "pop_front of 2^32");
        break;
    }
    case 1: {
        STEP("copy, compare, assign");
        Mapped src(n, 'a');
        put(src.p, m);
        P::Bytes b(src.p, n);
        chk(b, "from memory");
        P::Bytes d(src.p, src.p + n);
        if(c.thorough)
            EXPECT((b <=> d) == 0 && !(b < d), "huge.compare", "equal contents");
        EXPECT(b == d, "huge.compare", "equal contents");
        size_t at = G4 + r.below(n - G4);
        char old = d.data()[at];
        d.data()[at] = old + 1;
        EXPECT(!(b == d) && (b <=> d) < 0 && b < d, "huge.compare", "they differ at %zu", at);
        if(c.thorough) {
            EXPECT(!(d < b) && (d <=> b) > 0, "huge.compare", "they differ at %zu", at);
            d.data()[at] = old;
            d.pop_back();
            EXPECT(!(b == d) && (b <=> d) > 0 && d < b, "huge.compare", "one is shorter by one");
        }
        d.clear();
        d.assign(src.p, n);
        chk(d, "assign");
        break;
    }
    default: {
        STEP("insert, extend, +=");
        P::Bytes b;
        b.reserve(n + 100);
        EXPECT(b.capacity() >= n + 100, "huge.capacity", "capacity %zu after reserve(%zu)", b.capacity(), n + 100);
        b.extend(n);
        EXPECT(b.size() == n, "huge.bytes", "extend(%zu): size %zu", n, b.size());
        memset(b.data(), 'a', n);
        put(b.data(), m);
        b.insert(G4 + 1, "hello", 5);
        m.insert(G4 + 1, "hello");
        chk(b, "insert");
        b.insert(3, "abc", 3);
        m.insert(3, "abc");
        chk(b, "insert near the front");
        b += P::Bytes("tail", 4);
        m.push("tail");
        chk(b, "+=");
        P::Bytes d(P::move(b));
        chk(d, "move");
        P::Bytes e;
        e = d;
        d.clear();
        chk(e, "copy assignment");
    }
    }
}
VH_SUITE("P02", huge_cstring, 1) {
    if(!room(c))
        return;
    auto &r = c.rng;
    size_t n = huge_size(c);
    Sparse m = marks(r, n, 'a');
    auto chk = [&](const P::CString &s, const char *what) {
        same(c, m, s.size(), [&](size_t i) { return s[i]; }, "huge.cstring", what);
        EXPECT(s.c_str()[m.n] == 0, "huge.terminator", "%s: no terminator", what);
        EXPECT(s.back() == m.at(m.n - 1) && s.view().size() == m.n && s.zview().size() == m.n, "huge.cstring", "%s: end", what);
    };
    switch(c.index % 4) {
    case 0: {
        STEP("search and edit");
        P::CString s;
        s.resize(n);
        memset(s.mutable_data(), 'a', n);
        put(s.mutable_data(), m);
        chk(s, "resize");
        size_t at = G4 + 100 + r.below(n - G4 - 200);
        for(size_t i = 0; i < 3; i++) {
            s.mutable_data()[at + i] = "xyz"[i];
            m.m[at + i] = "xyz"[i];
        }
        EXPECT(s.find("xyz") == at, "huge.find", "find: %zu, expected %zu", s.find("xyz"), at);
        EXPECT(s.rfind('x') == at, "huge.find", "rfind: %zu, expected %zu", s.rfind('x'), at);
        EXPECT(s.substr(at - 1, 5).size() == 5 && s.substr(at, 3) == "xyz", "huge.substr", "substr at %zu", at);
        EXPECT(s.substr(G4).size() == n - G4, "huge.substr", "substr to the end");
        EXPECT(throws([&] { s.substr(n + 1); }) && throws([&] { s.substr(G4, n); }), "huge.substr", "substr outside");
        s.append('q');
        m.push("q");
        s += "rst";
        m.push("rst");
        chk(s, "append");
        s.pop_back();
        m.erase(m.n - 1, m.n);
        chk(s, "pop_back");
        s.insert(G4 + 2, P::CStringView("insert"));
        m.insert(G4 + 2, "insert");
        chk(s, "insert");
        s.remove(G4 - 3, G4 + 4);
        m.erase(G4 - 3, G4 + 4);
        chk(s, "remove");
        s.resize(G4 + 1);
        m.erase(G4 + 1, m.n);
        chk(s, "resize");
        break;
    }
    case 1: {
        STEP("strip");
        size_t lead = r.chance(1, 2) ? n - 10 : 5;
        P::CString s;
        s.resize(n);
        memcpy(s.mutable_data() + lead, "a b", 3);
        s.strip();
        EXPECT(s.size() == 3 && s == "a b", "huge.strip", "strip with %zu leading blanks leaves %zu characters", lead, s.size());
        break;
    }
    case 2: {
        STEP("split");
        Mapped src(n, 'a');
        std::set<size_t> at{G4 - 5, G4 + 1, G4 + 2, n - 20};
        if(r.chance(1, 2))
            at.insert(n - 1);
        for(auto x : at)
            src.p[x] = ',';
        P::CString s(src.p, n);
        std::vector<std::pair<size_t, size_t>> got, want;
        struct Ctx {
            const char *base;
            std::vector<std::pair<size_t, size_t>> *v;
        } ctx{s.c_str(), &got};
        s.split_by(
            ',',
            [](const P::CStringView &v, void *p) {
                auto *x = (Ctx *)p;
                x->v->push_back({v.data() - x->base, v.size()});
                return true;
            },
            &ctx);
        size_t from = 0;
        at.insert(n);
        for(auto x : at) {
            if(x > from)
                want.push_back({from, x - from});
            from = x + 1;
        }
        EXPECT(got == want, "huge.split", "%zu pieces, expected %zu", got.size(), want.size());
        break;
    }
    default: {
        STEP("copy and case");
        Mapped src(n, 'a');
        put(src.p, m);
        P::CString s{P::CStringView(src.p, n)};
        chk(s, "from a view");
        if(!c.thorough) {
            P::CString t;
            t.resize(n);
            memcpy(t.mutable_data(), src.p, n);
            t.mutable_data()[G4 + 2] = '!';
            EXPECT((s <=> t) > 0, "huge.compare", "they differ above 2^32");
            break;
        }
        P::CString t = s.upper();
        EXPECT(t.size() == n, "huge.upper", "upper gives %zu characters", t.size());
        for(size_t x : m.places(r))
            EXPECT(t[x] == toupper(m.at(x)), "huge.upper", "upper: character %zu", x);
        EXPECT(!(s == t) && (s <=> t) > 0, "huge.compare", "differing case");
    }
    }
}
VH_SUITE("P03", huge_views, 1) {
    if(!room(c))
        return;
    auto &r = c.rng;
    size_t n = huge_size(c);
    Mapped src(n, 'a');
    P::CStringView v(src.p, n);
    size_t at = G4 + 100 + r.below(n - G4 - 200);
    c.mix(at);
    switch(c.index % 3) {
    case 0: {
        STEP("find, substr");
        EXPECT(v.size() == n && v.find('x') == (size_t)-1, "huge.find", "a letter that is not there");
        memcpy(src.p + at, "xyz", 3);
        EXPECT(v.find('x') == at, "huge.find", "find(char): %zu, expected %zu", v.find('x'), at);
        EXPECT(v.find(P::CStringView("axyza")) == at - 1, "huge.find", "find: %zu, expected %zu", v.find(P::CStringView("axyza")), at - 1);
        memcpy(src.p + n - 3, "end", 3);
        EXPECT(v.find(P::CStringView("end")) == n - 3, "huge.find", "find at the very end");
        P::CStringView s = v.substr(at, 3);
        EXPECT(s.data() == src.p + at && s.size() == 3, "huge.substr", "substr");
        EXPECT(v.substr(2).size() == n - 2 && v.substr(G4).size() == n - G4 && v.substr(1, G4 + 1).size() == G4 + 1, "huge.substr", "sizes");
        EXPECT(v.substr(G4, n).size() == n - G4 && v.substr(n).size() == 0 && throws([&] { v.substr(n + 1); }), "huge.substr", "limits");
        EXPECT(v[at] == 'x' && v.at(n - 1) == 'd' && throws([&] { (void)v[n]; }), "huge.index", "index");
        P::CStringView far(src.p + G4 + 50, 10), front(src.p, 10);
        EXPECT(v.overlaps(far) && far.overlaps(v) && !front.overlaps(far), "huge.overlaps", "overlaps");
        break;
    }
    case 1: {
        STEP("compare");
        Mapped other(n, 'a');
        P::CStringView w(other.p, n);
        if(c.thorough)
            EXPECT(v == w && !(v < w) && v.starts_with(w) && v.natural_order(w) == 0, "huge.compare", "equal texts");
        other.p[at] = 'b';
        EXPECT(!(v == w) && v < w && !(w < v) && !v.starts_with(w) && v.natural_order(w) < 0, "huge.compare", "they differ at %zu", at);
        if(!c.thorough)
            break;
        EXPECT(w.natural_order(v) > 0, "huge.compare", "they differ at %zu", at);
        P::CStringView x = v.substr(0, at), y = v.substr(0, at + 1);
        EXPECT(x < y && !(y < x) && !(x == y) && y.starts_with(x) && !x.starts_with(y) && x.natural_order(y) < 0, "huge.compare",
               "one is longer by one");
        break;
    }
    default: {
        STEP("split and zero terminated");
        std::set<size_t> blanks{G4 - 5, G4 + 1, at, n - 3};
        for(auto x : blanks)
            src.p[x] = " \n\t"[r.below(3)];
        std::vector<std::pair<size_t, size_t>> got, want;
        struct Ctx {
            const char *base;
            std::vector<std::pair<size_t, size_t>> *v;
        } ctx{src.p, &got};
        v.split(
            [](const P::CStringView &s, void *p) {
                auto *x = (Ctx *)p;
                x->v->push_back({s.data() - x->base, s.size()});
                return true;
            },
            &ctx);
        size_t from = 0;
        blanks.insert(n);
        for(auto x : blanks) {
            if(x > from)
                want.push_back({from, x - from});
            from = x + 1;
        }
        EXPECT(got == want, "huge.split", "%zu pieces, expected %zu", got.size(), want.size());
        src.p[n - 1] = 0;
        P::ZStringView z(src.p);
        EXPECT(z.size() == n - 1 && z.view().size() == n - 1, "huge.zview", "size %zu, expected %zu", z.size(), n - 1);
        EXPECT(z.subview(G4).size() == n - 1 - G4 && z.subview(G4).c_str() == src.p + G4, "huge.zview", "subview");
        EXPECT(z.subview(n - 1).size() == 0 && throws([&] { z.subview(n); }), "huge.zview", "limits");
    }
    }
}
VH_SUITE("P04", huge_fixed, 1) {
    if(!room(c))
        return;
    constexpr size_t N = G4 + 1000;
    using V = P::FixedVector<char, N>;
    std::unique_ptr<V> v(new V);
    c.note("capacity %zu", N);
    c.mix(c.index);
    c.cover("sizes-beyond-32-bits");
    EXPECT(v->capacity() == N && v->is_empty(), "huge.fixed", "capacity %zu", v->capacity());
    Sparse m{0, 'a', {}};
    for(size_t i = 0; i < N; i++)
        if(!v->try_push_back('a'))
            c.fail("huge.fixed", "refused at %zu", i);
    m.n = N;
    for(size_t x : {size_t{0}, G2, G4 - 1, G4, G4 + 5, N - 1}) {
        (*v)[x] = 'b';
        m.m[x] = 'b';
    }
    auto chk = [&](const char *what) { same(c, m, v->size(), [&](size_t i) { return (*v)[i]; }, "huge.fixed", what); };
    chk("fill");
    EXPECT(!v->try_push_back('x') && v->is_full() && throws([&] { (void)(*v)[N]; }), "huge.fixed", "refusals");
    chk("refused");
    v->delete_at(G4 + 2);
    m.erase(G4 + 2, G4 + 3);
    chk("delete_at");
    v->insert(G4 + 1, 'c');
    m.insert(G4 + 1, "c");
    chk("insert");
    v->pop_back();
    m.erase(m.n - 1, m.n);
    chk("pop_back");
    v->pop_front();
    m.erase(0, 1);
    chk("pop_front");
}
VH_SUITE("P05", huge_valid, 1) {
    if(!room(c))
        return;
    auto &r = c.rng;
    size_t n = huge_size(c);
    Mapped src(n, 'a');
    auto valid = [&](const char *p, size_t k) { return !throws([&] { P::U8StringView v(p, k); }); };
    static const char *const ok[] = {"\xc3\xa4", "\xe2\x82\xac", "\xf0\x9f\x98\x80"};
    static const char *const bad[] = {"\xc0\xaf", "\xe2\x82", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\x80", "\xff", "\xf0\x9f\x98"};
    size_t at = c.index % 2 ? G4 - 1 : G4 + 100 + r.below(n - G4 - 200);
    const char *g = ok[r.below(3)], *b = bad[r.below(7)];
    c.note("good or bad characters at %zu", at);
    c.mix(at);
    memcpy(src.p + at, g, strlen(g));
    memcpy(src.p + n - strlen(g), g, strlen(g));
    EXPECT(valid(src.p, n), "huge.valid", "a valid text is refused");
    EXPECT(!valid(src.p, n - 1), "huge.valid", "a text cut inside its last character is accepted");
    memset(src.p + at, 'a', 4);
    memcpy(src.p + at, b, strlen(b));
    EXPECT(!valid(src.p, n), "huge.valid", "a damaged text is accepted");
}
VH_SUITE("P06", huge_u8, 1) {
    if(!room(c))
        return;
    auto &r = c.rng;
    size_t n = huge_size(c);
    size_t at = G4 + 100 + r.below(n - G4 - 200);
    c.mix(at);
    if(c.index % 2) {
        STEP("iterate");
        Mapped src(n, 'a');
        memcpy(src.p + at, "\xe2\x82\xac", 3);
        P::U8StringView v(src.p, n);
        EXPECT(v.size_bytes() == n, "huge.u8", "size %zu", v.size_bytes());
        size_t count = 0, where = 0;
        for(auto i = v.begin(); i != v.end(); ++i, ++count)
            if(*i == 0x20ac)
                where = count;
        EXPECT(count == n - 2 && where == at, "huge.u8", "%zu characters, the odd one at %zu", count, where);
    } else {
        STEP("edit");
        Sparse m = marks(r, n, 'a');
        P::U8String s;
        {
            Mapped src(n, 'a');
            put(src.p, m);
            s = P::U8String(src.p, n);
        }
        auto chk = [&](const char *what) {
            same(c, m, s.size_bytes(), [&](size_t i) { return s.c_str()[i]; }, "huge.u8", what);
            EXPECT(s.c_str()[m.n] == 0 && s.view().size_bytes() == m.n, "huge.u8", "%s: end", what);
        };
        chk("construction");
        s.append_codepoint(0x20ac);
        m.push("\xe2\x82\xac");
        chk("append_codepoint");
        {
            auto it = s.crbegin();
            EXPECT(*it == 0x20ac, "huge.u8", "last character");
            for(int i = 0; i < 20; i++) {
                ++it;
                EXPECT(*it == (uint32_t)m.at(m.n - 4 - i), "huge.u8", "character %d from the end", i);
            }
        }
        s.pop_back();
        m.erase(m.n - 3, m.n);
        chk("pop_back");
        s.pop_front();
        m.erase(0, 1);
        chk("pop_front");
        P::U8String cut = s.substr(G4, 5);
        for(size_t i = 0; i < 5; i++)
            EXPECT(cut.c_str()[i] == m.at(G4 + i), "huge.u8", "substr");
        P::U8StringView piece(s.c_str() + G4 + 2, 3);
        EXPECT(s.contains(piece) && s.overlaps(piece), "huge.u8", "contains its own piece");
    }
}
VH_SUITE("P08", huge_vector, 1) {
    if(!room(c))
        return;
    auto &r = c.rng;
    size_t n = huge_size(c);
    Sparse m = marks(r, n, 'a');
    auto chk = [&](const P::Vector<char> &v, const char *what) {
        same(c, m, v.size(), [&](size_t i) { return v[i]; }, "huge.vector", what);
        EXPECT(v.back() == m.at(m.n - 1) && v.front() == m.at(0) && (size_t)(v.end() - v.begin()) == m.n && v.span().size() == m.n,
               "huge.vector", "%s: ends", what);
        EXPECT(throws([&] { (void)v[m.n]; }) && v.capacity() >= m.n, "huge.vector", "%s: past the end", what);
    };
    P::Vector<char> v;
    v.append_with_default(n);
    memset(v.data(), 'a', n);
    put(v.data(), m);
    chk(v, "append_with_default");
    v.push_back('x');
    m.push("x");
    chk(v, "push_back");
    v.emplace_back('y');
    m.push("y");
    v.push_back(v[G4]);
    m.push(std::string(1, m.at(G4)));
    chk(v, "own element");
    v.pop_back();
    m.erase(m.n - 1, m.n);
    chk(v, "pop_back");
    if(c.index % 2) {
        P::Vector<char> w(v);
        chk(w, "copy");
        if(c.thorough)
            EXPECT(v == w, "huge.vector", "equal");
        w[G4 + 2] = '?';
        EXPECT(v != w, "huge.vector", "they differ above 2^32");
    } else {
        P::Vector<char> w(P::move(v));
        chk(w, "move");
        v = P::move(w);
        chk(v, "move back");
        P::Span<char> sp = v.span();
        EXPECT(sp.subspan(G4).size() == m.n - G4 && sp.subspan(G4, 3)[0] == m.at(G4) && sp.subspan(1, G4 + 1).size() == G4 + 1,
               "huge.span", "subspan");
        EXPECT(throws([&] { sp.subspan(m.n + 1); }) && throws([&] { sp.subspan(G4, m.n); }), "huge.span", "subspan outside");
    }
}
VH_SUITE("P11", huge_hash, 1) {
    if(!room(c))
        return;
    size_t n = huge_size(c);
    Mapped src(n, 'a');
    size_t at = G4 + 10 + c.rng.below(n - G4 - 10);
    c.mix(at);
    auto hash = [](const auto &x) {
        P::Hasher<P::SimpleHash> h;
        h.feed_hash(x);
        return h.get_hash_value();
    };
    P::CStringView v(src.p, n);
    const size_t plain = hash(v);
    src.p[at] = 'b';
    P::CString s;
    s.resize(n);
    memcpy(s.mutable_data(), src.p, n);
    const size_t other = hash(s);
    EXPECT(plain != other, "huge.hash", "byte %zu does not count", at);
    if(c.thorough) {
        EXPECT(hash(v) == other, "huge.hash", "CString and view differ");
        P::U8StringView u(src.p, n);
        EXPECT(hash(u) == other, "huge.hash", "U8StringView and view differ");
    }
}
VH_SUITE("P13", huge_spans, 1) {
    if(!room(c))
        return;
    size_t n = huge_size(c);
    P::unique_arr<char> a(n);
    EXPECT(a.size() == n && a.size_bytes() == n, "huge.unique_arr", "size %zu", a.size());
    a[G4 + 3] = 'x';
    a[n - 1] = 'y';
    EXPECT(a.get()[G4 + 3] == 'x' && a.unsafe_at(n - 1) == 'y' && throws([&] { a[n] = 1; }), "huge.unique_arr", "index");
    P::unique_arr<char> b;
    b = P::move(a);
    EXPECT(b.size() == n && b[G4 + 3] == 'x', "huge.unique_arr", "move");
    P::unique_arr<uint64_t> w(G2 / 4 + 1000); // bytes above 2^32
    EXPECT(w.size_bytes() == (G2 / 4 + 1000) * 8, "huge.unique_arr", "size_bytes %zu", w.size_bytes());
    Mapped src(n, 'a');
    P::Span<char> s(src.p, n);
    src.p[G4 + 7] = 'q';
    EXPECT(s.size() == n && s.size_bytes() == n && (size_t)(s.end() - s.begin()) == n && s[G4 + 7] == 'q' && s.at(G4 + 7) == 'q', "huge.span",
           "span of %zu", s.size());
    EXPECT(throws([&] { (void)s[n]; }), "huge.span", "index outside");
    auto t = s.subspan(G4 + 7);
    EXPECT(t.size() == n - G4 - 7 && t[0] == 'q', "huge.span", "subspan");
    P::Span<uint64_t> q((uint64_t *)(src.base), (n + 4096) / 8);
    EXPECT(q.size_bytes() == (n + 4096) / 8 * 8, "huge.span", "size_bytes");
}
VH_SUITE("P17", huge_search, 1) {
    if(!room(c))
        return;
    auto &r = c.rng;
    size_t n = huge_size(c);
    Mapped src(n, 'b');
    char *b = src.p, *e = src.p + n;
    size_t at = G4 + 100 + r.below(n - G4 - 200);
    c.mix(at);
    auto pos = [&](const char *p) { return (size_t)(p - b); };
    P::DefaultComparator<char> cmp;
    switch(c.index % 3) {
    case 0: {
        STEP("find and extremes");
        b[at] = 'x';
        EXPECT(P::find(b, e, 'x') == b + at, "huge.find", "find: %zu, expected %zu", pos(P::find(b, e, 'x')), at);
        EXPECT(P::find_if_not(b, e, [](char x) { return x == 'b'; }) == b + at, "huge.find", "find_if_not");
        EXPECT(P::max_element(b, e, cmp) == b + at, "huge.extremes", "max_element: %zu, expected %zu", pos(P::max_element(b, e, cmp)), at);
        EXPECT(!P::is_sorted(b, e, cmp), "huge.is_sorted", "not sorted at %zu", at);
        if(c.thorough) {
            b[at] = 'a';
            EXPECT(P::min_element(b, e) == b + at, "huge.extremes", "min_element: %zu, expected %zu", pos(P::min_element(b, e)), at);
            b[at] = 'b';
            EXPECT(P::is_sorted(b, e, cmp), "huge.is_sorted", "sorted");
        }
        break;
    }
    case 1: {
        STEP("lower_bound");
        memset(b + at, 'c', n - at);
        EXPECT(P::lower_bound(b, e, 'c') == b + at, "huge.lower_bound", "%zu, expected %zu", pos(P::lower_bound(b, e, 'c')), at);
        EXPECT(P::lower_bound(b, e, 'b') == b && P::lower_bound(b, e, 'd') == e, "huge.lower_bound", "ends");
        size_t k = P::partition(P::Span<char>(b, n), [](char x) { return x == 'b'; });
        EXPECT(k == at && b[at - 1] == 'b' && b[at] == 'c', "huge.partition", "partition: %zu, expected %zu", k, at);
        b[5] = 'd'; // belongs to the second part
        k = P::partition(P::Span<char>(b, n), [](char x) { return x == 'b'; });
        EXPECT(k == at - 1 && b[at - 2] == 'b' && b[at - 1] != 'b' && b[5] == 'b', "huge.partition", "partition: %zu, expected %zu", k,
               at - 1);
        break;
    }
    default: {
        STEP("rotate by one");
        b[n - 1] = 'z';
        b[at] = 'y';
        P::rotate_last_to_front(b, e);
        EXPECT(b[0] == 'z' && b[at + 1] == 'y' && b[at] == 'b' && b[n - 1] == 'b', "huge.rotate", "last to front");
        P::rotate_first_to_back(b, e);
        EXPECT(b[n - 1] == 'z' && b[at] == 'y' && b[0] == 'b', "huge.rotate", "first to back");
    }
    }
}
VH_SUITE("P22", huge_files, 1) {
    if(!room(c))
        return;
    auto &r = c.rng;
    size_t n = huge_size(c);
    std::string p = vh::scratch_dir() + "/hugefile";
    struct Gone {
        std::string p;
        ~Gone() { unlink(p.c_str()); }
    } gone{p};
    int fd = open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    if(fd < 0 || ftruncate(fd, n))
        abort();
    Sparse m = marks(r, n, '\0');
    for(auto &e : m.m)
        if(pwrite(fd, &e.second, 1, e.first) != 1)
            abort();
    close(fd);
    if(c.index % 2 == 0) {
        STEP("mmap_file");
        auto o = P::mmap_file(p.c_str());
        EXPECT((bool)o, "huge.mmap", "nothing mapped");
        auto s = o.value().span();
        same(c, m, s.size(), [&](size_t i) { return s[i]; }, "huge.mmap", "mmap_file");
        o.reset();
        std::string maps;
        char buf[4096];
        int f = open("/proc/self/maps", O_RDONLY);
        for(ssize_t k; (k = read(f, buf, sizeof buf)) > 0;)
            maps.append(buf, k);
        close(f);
        EXPECT(maps.find("hugefile") == std::string::npos, "huge.mmap-leak", "still mapped");
    } else {
        STEP("load_bytes");
        auto o = P::Path(p.c_str()).load_bytes();
        EXPECT((bool)o, "huge.load", "nothing loaded");
        auto &b = o.value();
        same(c, m, b.size(), [&](size_t i) { return b[i]; }, "huge.load", "load_bytes");
    }
}
VH_SUITE("P24", huge_loops, 1) {
    if(!room(c))
        return;
    size_t n = huge_size(c);
    if(c.index % 2 == 0) {
        STEP("enumerate");
        Mapped src(n, 'a');
        size_t at = G4 + c.rng.below(n - G4), where = 0, count = 0, last = 0;
        src.p[at] = 'b';
        P::Span<char> s(src.p, n);
        P::EnumerateView<P::Span<char>> en(s);
        for(auto e : en) {
            if(e.value == 'b')
                where = e.i;
            last = e.i;
            ++count;
        }
        EXPECT(count == n && last == n - 1 && where == at, "huge.enumerate", "%zu items, last index %zu, the odd one at %zu, not %zu", count,
               last, where, at);
    } else {
        STEP("range");
        P::Range range((int64_t)n);
        size_t sum = 0, count = 0;
        for(auto i : P::LoopView(range)) {
            sum += (size_t)i;
            ++count;
        }
        EXPECT(count == n && sum == n / 2 * (n - 1) + (n % 2 ? (n - 1) / 2 : 0), "huge.range", "%zu items", count);
    }
}
VH_SUITE("P25", huge_format, 1) {
    if(!room(c))
        return;
    size_t n = (size_t)INT32_MAX - 1 - c.rng.below(1000);
    c.note("width %zu", n);
    c.mix(n);
    P::CString s = P::cformat("%*d", (int)n, 42);
    EXPECT(s.size() == n && s[n - 1] == '2' && s[n - 2] == '4' && s[n - 3] == ' ' && s[0] == ' ', "huge.format", "size %zu, expected %zu",
           s.size(), n);
}
