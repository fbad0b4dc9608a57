// P05 UTF-8 validity, P06 U8String against a code point sequence, P07 case mapping.
#include "common26.hpp"
#include "../data/casemap.inc"
#include <unordered_map>
#include <locale.h>

typedef std::vector<uint32_t> CPs;

static void enc(std::string &o, uint32_t c) {
    if(c < 0x80)
        o += (char)c;
    else if(c < 0x800) {
        o += (char)(0xC0 + c / 64);
        o += (char)(0x80 + c % 64);
    } else if(c < 0x10000) {
        o += (char)(0xE0 + c / 4096);
        o += (char)(0x80 + c / 64 % 64);
        o += (char)(0x80 + c % 64);
    } else {
        o += (char)(0xF0 + c / 262144);
        o += (char)(0x80 + c / 4096 % 64);
        o += (char)(0x80 + c / 64 % 64);
        o += (char)(0x80 + c % 64);
    }
}
static std::string enc(const CPs &v) {
    std::string s;
    for(auto c : v)
        enc(s, c);
    return s;
}
// Unicode table 3-7, well-formed UTF-8 byte sequences
static bool well_formed(const std::string &s, CPs *out = nullptr) {
    size_t i = 0, n = s.size();
    auto in = [&](size_t k, unsigned a, unsigned b) {
        return k < n && (unsigned char)s[k] >= a && (unsigned char)s[k] <= b;
    };
    auto B = [&](size_t k) { return (uint32_t)(unsigned char)s[k]; };
    while(i < n) {
        uint32_t b = B(i);
        if(b <= 0x7f) {
            if(out)
                out->push_back(b);
            i += 1;
        } else if(b >= 0xC2 && b <= 0xDF && in(i + 1, 0x80, 0xBF)) {
            if(out)
                out->push_back((b - 0xC0) * 64 + (B(i + 1) - 0x80));
            i += 2;
        } else if((b == 0xE0 && in(i + 1, 0xA0, 0xBF) && in(i + 2, 0x80, 0xBF)) ||
                  (((b >= 0xE1 && b <= 0xEC) || b == 0xEE || b == 0xEF) && in(i + 1, 0x80, 0xBF) &&
                   in(i + 2, 0x80, 0xBF)) ||
                  (b == 0xED && in(i + 1, 0x80, 0x9F) && in(i + 2, 0x80, 0xBF))) {
            if(out)
                out->push_back((b - 0xE0) * 4096 + (B(i + 1) - 0x80) * 64 + (B(i + 2) - 0x80));
            i += 3;
        } else if((b == 0xF0 && in(i + 1, 0x90, 0xBF) && in(i + 2, 0x80, 0xBF) && in(i + 3, 0x80, 0xBF)) ||
                  (b >= 0xF1 && b <= 0xF3 && in(i + 1, 0x80, 0xBF) && in(i + 2, 0x80, 0xBF) && in(i + 3, 0x80, 0xBF)) ||
                  (b == 0xF4 && in(i + 1, 0x80, 0x8F) && in(i + 2, 0x80, 0xBF) && in(i + 3, 0x80, 0xBF))) {
            if(out)
                out->push_back((b - 0xF0) * 262144 + (B(i + 1) - 0x80) * 4096 + (B(i + 2) - 0x80) * 64 +
                               (B(i + 3) - 0x80));
            i += 4;
        } else
            return false;
    }
    return true;
}
static uint32_t gcp(vh::Rng &r) {
    switch(r.below(10)) {
    case 0: {
        static const uint32_t b[] = {1, 0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xcfff, 0xd000, 0xd7ff, 0xe000,
                                     0xfffd, 0xffff, 0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff, 0x20ac};
        return b[r.below(sizeof b / sizeof *b)];
    }
    case 1:
        return 0x80 + r.below(0x800 - 0x80);
    case 2: {
        uint32_t c = 0x800 + r.below(0xF800);
        return c >= 0xD800 && c < 0xE000 ? 0x4e00 : c;
    }
    case 3:
        return 0x10000 + r.below(0x100000);
    case 4:
        return " \t\n\r"[r.below(4)];
    case 5:
        return r.chance(1, 2) ? casemap_up[r.below(sizeof casemap_up / 16)][0]
                              : casemap_lo[r.below(sizeof casemap_lo / 16)][0];
    default:
        return 'a' + r.below(4);
    }
}
static CPs gcps(vh::Rng &r, size_t n) {
    CPs v(n);
    for(auto &c : v)
        c = gcp(r);
    return v;
}

// ------------------------------------------------------------------ P05
static void check_valid(vh::Case &c, const std::string &s) {
    bool want = well_formed(s);
    bool hasnul = s.find('\0') != std::string::npos;
    {
        vh::Exact e(s);
        bool acc = false;
        try {
            P::U8StringView v(e.p, e.n);
            acc = true;
            EXPECT(v.size_bytes() == s.size() && v.data() == e.p, "view-bounds", "view of %s", vh::show(s).c_str());
        } catch(const P::PyException &) {
        }
        EXPECT(acc == want, want ? "view-rejects-valid" : "view-accepts-invalid", "U8StringView(%s): accepted %d",
               vh::show(s).c_str(), acc);
        acc = false;
        try {
            P::U8String u(e.p, e.n);
            acc = true;
            EXPECT(u.size_bytes() == s.size() && !memcmp(u.c_str(), s.data(), s.size()) && u.c_str()[s.size()] == 0,
                   "string-bytes", "U8String(%s) changed bytes", vh::show(s).c_str());
        } catch(const P::PyException &) {
        }
        EXPECT(acc == (want && !hasnul), want ? "string-rejects-valid" : "string-accepts-invalid",
               "U8String(%s): accepted %d", vh::show(s).c_str(), acc);
    }
    {
        bool acc = false;
        try {
            P::Bytes b(s.data(), s.size());
            P::U8String u(P::move(b));
            acc = true;
            EXPECT(u.size_bytes() == s.size() && !memcmp(u.c_str(), s.data(), s.size()) && u.c_str()[s.size()] == 0,
                   "bytes-string-bytes", "U8String(Bytes %s) changed bytes", vh::show(s).c_str());
        } catch(const P::PyException &) {
        }
        EXPECT(acc == (want && !hasnul), want ? "bytes-rejects-valid" : "bytes-accepts-invalid",
               "U8String(Bytes %s): accepted %d", vh::show(s).c_str(), acc);
    }
    if(!hasnul) {
        bool acc = false;
        vh::Exact e(s + std::string(1, 0));
        try {
            P::U8String u(e.p);
            acc = true;
            EXPECT(u.size_bytes() == s.size(), "cstr-bytes", "U8String(%s)", vh::show(s).c_str());
        } catch(const P::PyException &) {
        }
        EXPECT(acc == want, "cstr-accept", "U8String(\"%s\"): accepted %d", vh::show(s).c_str(), acc);
        try {
            P::U8StringView v(e.p, -1);
            EXPECT(want && v.size_bytes() == s.size(), "view-cstr", "U8StringView(%s,-1)", vh::show(s).c_str());
        } catch(const P::PyException &) {
            EXPECT(!want, "view-cstr", "U8StringView(%s,-1) rejected", vh::show(s).c_str());
        }
    }
    c.cover(want ? "valid" : "invalid");
}
VH_SUITE("P05", utf8_random, 4) {
    auto &r = c.rng;
    for(int k = 0; k < 12; k++) {
        CPs v = gcps(r, gsize(r, 120));
        if(r.chance(1, 10) && !v.empty())
            v[r.below(v.size())] = 0;
        std::string s = enc(v);
        if(r.chance(3, 4)) {
            unsigned muts = 1 + r.below(2);
            for(unsigned m = 0; m < muts && !s.empty(); m++) {
                size_t p = r.chance(1, 3) ? s.size() - 1 - r.below(std::min<size_t>(4, s.size())) : r.below(s.size());
                switch(r.below(6)) {
                case 0:
                    s[p] = (char)r.below(256);
                    break;
                case 1:
                    s.erase(p, 1);
                    break;
                case 2:
                    s.insert(p, 1, (char)(0x80 + r.below(128)));
                    break;
                case 3:
                    s.resize(p);
                    break;
                case 4: {
                    static const char *bad[] = {"\xC0\x80", "\xC1\xBF", "\xE0\x80\x80", "\xE0\x9F\xBF", "\xED\xA0\x80",
                                                "\xED\xBF\xBF", "\xF0\x8F\xBF\xBF", "\xF4\x90\x80\x80", "\xF5\x80\x80\x80",
                                                "\xF8\x88\x80\x80\x80", "\xFC\x84\x80\x80\x80\x80", "\xFE", "\xFF", "\xC2",
                                                "\xE2\x82", "\xF0\x9F\x92", "\x80", "\xBF"};
                    s.insert(p, bad[r.below(18)]);
                    break;
                }
                default:
                    s[p] ^= 1 << r.below(8);
                }
            }
        }
        c.note("text %s", vh::show(s).c_str());
        c.mixs(s.data(), s.size());
        check_valid(c, s);
    }
}
// every lead byte with every second byte and boundary third/fourth bytes, all truncations
VH_SUITE("P05", utf8_systematic, 1) {
    static const unsigned char tb[] = {0x00, 0x41, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xff};
    // consecutive cases of this suite walk through the lead bytes
    unsigned lead = c.rng.below(256), len = 1 + c.rng.below(4);
    if(lead < 0xC0 && c.rng.chance(2, 3))
        lead = 0xC0 + c.rng.below(64);
    const char *pre[] = {"", "a", "\xC3\xA4", "\xF0\x9F\x92\xA9"};
    std::string p = pre[c.rng.below(4)], q = pre[c.rng.below(4)];
    c.note("lead %02x len %u prefix %s suffix %s", lead, len, vh::show(p).c_str(), vh::show(q).c_str());
    c.mix(lead * 8 + len);
    c.mixs(p.data(), p.size());
    c.mixs(q.data(), q.size());
    auto one = [&](std::string s) {
        std::string t = p + s + q;
        bool want = well_formed(t), acc = false;
        char buf[16];
        // exact end in an ASan-visible buffer
        vh::Exact e(t);
        try {
            P::U8StringView v(e.p, e.n);
            acc = true;
        } catch(const P::PyException &) {
        }
        (void)buf;
        EXPECT(acc == want, want ? "view-rejects-valid" : "view-accepts-invalid", "U8StringView(%s): accepted %d",
               vh::show(t).c_str(), acc);
    };
    if(len == 1) {
        for(unsigned a = 0; a < 256; a++)
            one(std::string(1, (char)a));
        return;
    }
    for(unsigned b = 0; b < 256; b++) {
        std::string s2 = {(char)lead, (char)b};
        if(len == 2) {
            one(s2);
            continue;
        }
        for(unsigned char x : tb) {
            std::string s3 = s2 + (char)x;
            if(len == 3) {
                one(s3);
                continue;
            }
            for(unsigned char y : tb)
                if((b & 15) == 15 || (b & 15) == 0 || y == 0x80 || y == 0x7f)
                    one(s3 + (char)y);
        }
    }
}

// ------------------------------------------------------------------ P06
static P::U8String mk(const CPs &v) {
    std::string s = enc(v);
    return P::U8String(s.data(), s.size());
}
static void check_same(vh::Case &c, const P::U8String &u, const CPs &m, const char *where) {
    std::string s = enc(m);
    EXPECT(u.size_bytes() == s.size() && !memcmp(u.c_str(), s.data(), s.size()) && u.c_str()[s.size()] == 0,
           "contents", "%s: got %s want %s", where, vh::show(u.c_str(), u.size_bytes()).c_str(), vh::show(s).c_str());
    EXPECT(u.is_empty() == s.empty(), "is_empty", "%s", where);
}
static void check_iter(vh::Case &c, const P::U8String &u, const CPs &m) {
    CPs f;
    auto it = u.cbegin();
    unsigned mode = c.rng.below(4);
    size_t guard = 0;
    while(it != u.cend() && guard++ <= m.size()) {
        if(mode == 0) {
            f.push_back(*it);
            ++it;
        } else if(mode == 1) {
            f.push_back(*(it++));
        } else if(mode == 2) {
            auto cp = it;
            ++it;
            f.push_back(*cp);
        } else {
            uint32_t a = *it, b = *it;
            EXPECT(a == b, "iterate-twice", "dereferencing twice differs");
            f.push_back(a);
            auto old = it++;
            EXPECT(*old == a && old < it && old != it && (it <=> old) > 0 && !(old == it), "iter-order", "post-increment/ordering");
        }
    }
    EXPECT(f == m && it == u.cend(), "iterate-forward", "forward iteration of %s gave %zu items",
           vh::show(enc(m)).c_str(), f.size());
    CPs b;
    it = u.cend();
    while(b.size() < m.size() && it > u.cbegin()) {
        --it;
        b.push_back(*it);
    }
    std::reverse(b.begin(), b.end());
    EXPECT(b == m && it == u.cbegin(), "iterate-backward", "stepping back over %s", vh::show(enc(m)).c_str());
    // zig-zag
    if(!m.empty()) {
        size_t pos = 0;
        it = u.cbegin();
        for(int k = 0; k < 20; k++) {
            if(pos < m.size() && (pos == 0 || c.rng.chance(1, 2))) {
                if(c.rng.chance(1, 2))
                    EXPECT(*it == m[pos], "zigzag", "at %zu", pos);
                ++it;
                ++pos;
            } else {
                --it;
                --pos;
                EXPECT(*it == m[pos], "zigzag", "after stepping back to %zu got %x want %x", pos, *it, m[pos]);
            }
        }
    }
    CPs rv;
    auto ri = u.crbegin();
    guard = 0;
    while(ri != u.crend() && guard++ <= m.size()) {
        if(mode & 1) {
            rv.push_back(*ri);
            ++ri;
        } else {
            auto o = ri++;
            rv.push_back(*o);
        }
    }
    std::reverse(rv.begin(), rv.end());
    EXPECT(rv == m && ri == u.crend(), "iterate-reverse", "reverse iteration of %s: %zu items", vh::show(enc(m)).c_str(),
           rv.size());
    auto v = u.view();
    CPs vv;
    for(auto cp : v) {
        vv.push_back(cp);
        if(vv.size() > m.size())
            break;
    }
    EXPECT(vv == m, "iterate-view", "view iteration");
    const auto &sv = v;
    const auto &su = u;
    EXPECT(v == sv && !(v != sv) && u == su && !(u != su) && !(u < su) && (u <=> su) == 0, "self-compare", "compared with itself: %s",
           vh::show(enc(m)).c_str());
    c.cover("codepoints-iterated", m.size() * 4);
}
static bool isws(uint32_t x) { return x == ' ' || x == '\n' || x == '\t' || x == '\r'; }
static std::vector<CPs> wsplit(const CPs &m, bool (*sp)(uint32_t)) {
    std::vector<CPs> o;
    CPs cur;
    for(auto x : m)
        if(sp(x)) {
            if(!cur.empty())
                o.push_back(cur);
            cur.clear();
        } else
            cur.push_back(x);
    if(!cur.empty())
        o.push_back(cur);
    return o;
}
static P::ValidU8Iterator at(const P::U8String &u, size_t k) {
    auto it = u.cbegin();
    while(k--)
        ++it;
    return it;
}
VH_SUITE("P06", u8string_history, 3) {
    auto &r = c.rng;
    const int N = 3;
    P::U8String *u[N];
    CPs m[N];
    for(int i = 0; i < N; i++) {
        m[i] = gcps(r, gsize(r, 60));
        u[i] = new P::U8String(mk(m[i]));
        c.note("s%d = %s", i, vh::show(enc(m[i])).c_str());
    }
    struct Del {
        P::U8String **u;
        ~Del() {
            for(int i = 0; i < N; i++)
                delete u[i];
        }
    } del{u};
    int steps = 4 + r.below(14);
    for(int st = 0; st < steps; st++) {
        int i = r.below(N), j = r.below(N);
        P::U8String &s = *u[i];
        size_t a = r.below(m[i].size() + 1), b = a + r.below(m[i].size() - a + 1);
        unsigned op = r.below(24);
        c.mix(op * 64 + i * 8 + j);
        c.mix(a * 1000 + b);
        switch(op) {
        case 0: {
            uint32_t cp = gcp(r);
            if(r.chance(1, 6)) {
                static const uint32_t bad[] = {0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0x110000, 0xFFFFFFFF, 0x7fffffff};
                cp = bad[r.below(7)];
                c.note("s%d.append_codepoint(%x) must be refused", i, cp);
                EXPECT(throws_py([&] { s.append_codepoint(cp); }), "append-bad", "append_codepoint(%x) accepted", cp);
            } else {
                c.note("s%d.append_codepoint(%x)", i, cp);
                s.append_codepoint(cp);
                m[i].push_back(cp);
            }
            break;
        }
        case 1:
            c.note("s%d += s%d", i, j);
            s += *u[j];
            {
                CPs t = m[j];
                m[i].insert(m[i].end(), t.begin(), t.end());
            }
            break;
        case 2: {
            CPs t = gcps(r, r.below(8));
            c.note("s%d.insert(%zu,%s)", i, a, vh::show(enc(t)).c_str());
            std::string e = enc(t);
            vh::Exact x(e);
            s.insert(at(s, a), P::U8StringView(x.p, x.n));
            m[i].insert(m[i].begin() + a, t.begin(), t.end());
            break;
        }
        case 3: { // insert a view into itself
            size_t k = r.below(m[i].size() + 1);
            c.note("s%d.insert(%zu, itself[%zu..%zu))", i, k, a, b);
            CPs t(m[i].begin() + a, m[i].begin() + b);
            s.insert(at(s, k), P::U8StringView(at(s, a), at(s, b)));
            m[i].insert(m[i].begin() + k, t.begin(), t.end());
            break;
        }
        case 4:
            c.note("s%d.remove(%zu..%zu)", i, a, b);
            s.remove(P::U8StringView(at(s, a), at(s, b)));
            m[i].erase(m[i].begin() + a, m[i].begin() + b);
            break;
        case 5: {
            c.note("s%d.remove(foreign view)", i);
            P::U8String o = mk(CPs{'a', 'b'});
            EXPECT(throws_py([&] { s.remove(o.view()); }), "remove-foreign", "foreign view was accepted");
            break;
        }
        case 6:
            c.note("s%d.pop_front()", i);
            s.pop_front();
            if(!m[i].empty())
                m[i].erase(m[i].begin());
            break;
        case 7:
            c.note("s%d.pop_back()", i);
            s.pop_back();
            if(!m[i].empty())
                m[i].pop_back();
            break;
        case 8: {
            CPs pre(m[i].begin(), m[i].begin() + a), mid(m[i].begin() + a, m[i].begin() + b);
            size_t off = enc(pre).size(), len = enc(mid).size();
            c.note("s%d.substr(%zu,%zu)", i, off, len);
            P::U8String t = s.substr(off, len);
            check_same(c, t, mid, "substr");
            break;
        }
        case 9: { // arbitrary byte ranges: valid or refused
            size_t n = s.size_bytes();
            size_t off = r.below(n + 3), len = r.chance(1, 8) ? (size_t)-1 - 1 - r.below(20) : r.below(n + 3);
            c.note("s%d.substr(%zu,%zu) bytes", i, off, len);
            std::string full = enc(m[i]);
            bool inr = off <= n && len <= n - off;
            bool ok = inr && well_formed(full.substr(off, len));
            bool acc = false;
            std::string got;
            try {
                P::U8String t = s.substr(off, len);
                acc = true;
                got = std::string(t.c_str(), t.size_bytes());
            } catch(const P::PyException &) {
            }
            EXPECT(acc == ok && (!ok || got == full.substr(off, len)), "substr-bytes", "substr(%zu,%zu) of %s: accepted %d got %s", off,
                   len, vh::show(full).c_str(), acc, vh::show(got).c_str());
            break;
        }
        case 10: {
            c.note("s%d = s%d", i, j);
            s = *u[j];
            m[i] = m[j];
            check_same(c, *u[j], m[j], "copy source");
            break;
        }
        case 11: {
            c.note("s%d = move(s%d)", i, j);
            if(i != j) {
                s = P::move(*u[j]);
                m[i] = m[j];
                *u[j] = mk(m[j]);
            }
            break;
        }
        case 12: {
            c.note("s%d = view of s%d [own range if same]", i, j);
            size_t x = r.below(m[j].size() + 1), y = x + r.below(m[j].size() - x + 1);
            CPs t(m[j].begin() + x, m[j].begin() + y);
            s = P::U8StringView(at(*u[j], x), at(*u[j], y));
            m[i] = t;
            break;
        }
        case 13: {
            c.note("split_ascii s%d", i);
            auto want = wsplit(m[i], isws);
            auto got = s.split_ascii();
            EXPECT(got.size() == want.size(), "split-count", "split_ascii of %s: %zu pieces want %zu", vh::show(enc(m[i])).c_str(), got.size(),
                   want.size());
            for(size_t k = 0; k < want.size(); k++)
                check_same(c, got[k], want[k], "split piece");
            // closure form
            auto v = s.view();
            auto cl = v.split_ascii();
            size_t k = 0;
            for(;; k++) {
                auto p = cl.next();
                if(!p)
                    break;
                EXPECT(k < want.size(), "closure-count", "too many pieces");
                check_same(c, P::U8String(*p), want[k], "closure piece");
                EXPECT(s.contains(*p), "closure-inside", "piece outside string");
            }
            EXPECT(k == want.size(), "closure-count", "%zu pieces want %zu", k, want.size());
            EXPECT(!cl.next(), "closure-end", "yields after the end");
            break;
        }
        case 14: {
            c.note("split s%d by predicate, stopping early", i);
            static auto pred = [](uint32_t x) { return x == 'b' || x >= 0x10000 || x == 0x20ac; };
            auto want = wsplit(m[i], [](uint32_t x) { return pred(x); });
            struct Ctx {
                vh::Case *c;
                std::vector<std::string> got;
                size_t stop;
            } ctx{&c, {}, r.chance(1, 3) ? 1 + r.below(3) : (size_t)-1};
            s.split(
                [](const P::U8StringView &p, void *x) -> bool {
                    Ctx *t = (Ctx *)x;
                    t->got.push_back(std::string(p.data(), p.size_bytes()));
                    return t->got.size() < t->stop;
                },
                [](uint32_t x) { return pred(x); }, &ctx);
            size_t n = std::min(want.size(), ctx.stop);
            EXPECT(ctx.got.size() == n, "split-cb-count", "%zu pieces want %zu", ctx.got.size(), n);
            for(size_t k = 0; k < n; k++)
                EXPECT(ctx.got[k] == enc(want[k]), "split-cb", "piece %zu", k);
            break;
        }
        case 15: {
            size_t n = r.below(5);
            c.note("join %zu with s%d", n, i);
            P::Vector<P::U8String> v;
            CPs want;
            for(size_t k = 0; k < n; k++) {
                int q = r.below(N);
                v.push_back(*u[q]);
                if(k)
                    want.insert(want.end(), m[i].begin(), m[i].end());
                want.insert(want.end(), m[q].begin(), m[q].end());
            }
            check_same(c, s.join(v), want, "join");
            break;
        }
        case 16: {
            bool same = r.chance(1, 3);
            CPs t = same ? m[i] : m[j];
            if(r.chance(1, 3) && !t.empty())
                t[r.below(t.size())] = gcp(r);
            if(r.chance(1, 4) && !t.empty())
                t.pop_back();
            P::U8String o = mk(t);
            c.note("compare s%d with %s", i, vh::show(enc(t)).c_str());
            int w = m[i] < t ? -1 : m[i] > t ? 1 : 0;
            EXPECT((s == o) == (w == 0) && (s != o) == (w != 0), "equal", "== of %s and %s", vh::show(enc(m[i])).c_str(), vh::show(enc(t)).c_str());
            EXPECT(sgn(s <=> o) == w, "spaceship", "<=> of %s and %s gave %d", vh::show(enc(m[i])).c_str(), vh::show(enc(t)).c_str(), s <=> o);
            EXPECT((s < o) == (w < 0) && (s > o) == (w > 0) && (s <= o) == (w <= 0), "less", "ordering");
            std::string z = enc(t);
            vh::Exact x(z + std::string(1, '\0'));
            EXPECT((s == x.p) == (w == 0), "equal-cstr", "== const char*");
            EXPECT((s.view() == x.p) == (w == 0), "view-equal-cstr", "view == const char* for %s and %s", vh::show(enc(m[i])).c_str(), vh::show(z).c_str());
            EXPECT((s.view() == o.view()) == (w == 0), "view-equal", "view == view");
            break;
        }
        case 17: {
            P::U8StringView v(at(s, a), at(s, b));
            c.note("views of s%d [%zu..%zu)", i, a, b);
            EXPECT(s.contains(v), "contains", "own view not contained");
            CPs mid(m[i].begin() + a, m[i].begin() + b);
            check_same(c, P::U8String(v), mid, "string from view");
            EXPECT(v.size_bytes() == enc(mid).size(), "view-size", "size of a view");
            EXPECT(v == enc(mid).c_str(), "view-eq", "view compare");
            if(i != j && u[j] != u[i]) {
                EXPECT(!u[j]->contains(v), "contains-foreign", "foreign view contained");
                if(b > a)
                    EXPECT(!u[j]->overlaps(v), "overlaps-foreign", "foreign view overlaps");
            }
            size_t x = r.below(m[i].size() + 1), y = x + r.below(m[i].size() - x + 1);
            P::U8StringView w(at(s, x), at(s, y));
            if(b > a && y > x)
                EXPECT(v.overlaps(w) == (a < y && x < b), "overlaps", "[%zu,%zu) and [%zu,%zu): %d", a, b, x, y, v.overlaps(w));
            break;
        }
        case 18: {
            if(b > a) {
                c.note("bad range of s%d", i);
                EXPECT(throws_py([&] { P::U8StringView v(at(s, b), at(s, a)); }), "bad-range", "reversed range accepted");
            }
            break;
        }
        case 19: {
            c.note("copy/move construct s%d", i);
            P::U8String cp(s);
            P::U8String mv(P::move(cp));
            check_same(c, mv, m[i], "move construct");
            cp = mv;
            check_same(c, cp, m[i], "assign to moved-from");
            mv += mk(CPs{'x'});
            check_same(c, cp, m[i], "independent copy");
            break;
        }
        case 20: {
            size_t n = r.below(300);
            c.note("s%d.reserve(%zu)", i, n);
            s.reserve(n);
            break;
        }
        case 21: {
            c.note("default objects");
            P::U8String d;
            check_same(c, d, CPs{}, "default");
            P::U8StringView v;
            EXPECT(v.size_bytes() == 0 && !(v != P::U8StringView(d.cbegin(), d.cend())), "default-view", "default view");
            P::U8String e(v);
            check_same(c, e, CPs{}, "string of default view");
            EXPECT(!v.split_ascii().next(), "default-split", "default view yields pieces");
            v = s.view();
            EXPECT(v == s.view() && v.size_bytes() == s.size_bytes() && v.data() == s.c_str(), "view-assign", "assigned view");
            auto &sv = v;
            v = P::move(sv);
            CPs vv;
            for(auto it = v.cbegin(); it != v.cend() && vv.size() <= m[i].size(); ++it)
                vv.push_back(*it);
            EXPECT(vv == m[i], "view-assign", "assigned view yields %zu code points, expected %zu", vv.size(), m[i].size());
            EXPECT(throws_py([&] { P::U8StringView w(P::U8StringView().cbegin(), s.cend()); }), "view-range", "a view from nullptr");
            if(!m[i].empty())
                EXPECT(throws_py([&] { P::U8StringView w(s.cend(), s.cbegin()); }), "view-range", "a view backwards");
            v = P::U8StringView();
            EXPECT(v.size_bytes() == 0, "view-assign", "emptied view");
            d.pop_back();
            d.pop_front();
            check_same(c, d, CPs{}, "pop empty");
            s += d;
            break;
        }
        case 22: { // embedded NUL is refused everywhere
            std::string z("a\0b", 3);
            P::U8StringView v(z.data(), z.size());
            c.note("embedded NUL into s%d", i);
            EXPECT(throws_py([&] { P::U8String q(v); }), "nul", "string from a view with NUL");
            EXPECT(throws_py([&] { s.insert(s.cbegin(), v); }), "nul-insert", "insert of a view with NUL");
            EXPECT(throws_py([&] { s = v; }), "nul-assign", "assignment of a view with NUL");
            EXPECT(throws_py([&] { P::U8String q(z.data(), z.size()); }), "nul", "string with NUL");
            EXPECT(throws_py([&] { s.append_codepoint(0); }) || true, "nul", "x");
            break;
        }
        default:
            check_iter(c, s, m[i]);
        }
        for(int k = 0; k < N; k++)
            check_same(c, *u[k], m[k], "after the operation");
    }
    for(int k = 0; k < N; k++)
        check_iter(c, *u[k], m[k]);
}
// views over heap buffers without terminator
VH_SUITE("P06", u8view_exact, 1) {
    auto &r = c.rng;
    for(int k = 0; k < 6; k++) {
        CPs m = gcps(r, gsize(r, 60));
        if(r.chance(1, 5) && !m.empty())
            m[r.below(m.size())] = 0;
        std::string s = enc(m);
        vh::Exact e(s);
        c.note("text %s", vh::show(s).c_str());
        c.mixs(s.data(), s.size());
        P::U8StringView v(e.p, e.n);
        CPs f;
        for(auto x : v)
            f.push_back(x);
        EXPECT(f == m, "view-iterate", "iteration");
        auto want = wsplit(m, isws);
        auto cl = v.split_ascii();
        size_t n = 0;
        for(;; n++) {
            auto p = cl.next();
            if(!p)
                break;
            EXPECT(n < want.size() && std::string((*p).data(), (*p).size_bytes()) == enc(want[n]), "view-split", "piece %zu", n);
        }
        EXPECT(n == want.size(), "view-split", "count");
        auto rv = v.raw_view();
        EXPECT(rv.size() == s.size() && rv.data() == e.p, "raw_view", "raw view");
        std::string t = s;
        if(r.chance(1, 2) && !t.empty())
            t[r.below(t.size())] ^= 1;
        vh::Exact z(t + std::string(1, '\0'));
        bool eq = s == std::string(z.p);
        EXPECT((v == z.p) == eq, "view-eq-cstr", "view == cstr: %s vs %s", vh::show(s).c_str(), vh::show(t).c_str());
        vh::Exact e2(s);
        EXPECT(v == P::U8StringView(e2.p, e2.n), "view-eq", "equal views");
    }
}

// ------------------------------------------------------------------ P07
struct Maps {
    std::unordered_map<uint32_t, const uint32_t *> up, lo;
    Maps() {
        for(auto &e : casemap_up)
            up[e[0]] = e + 1;
        for(auto &e : casemap_lo)
            lo[e[0]] = e + 1;
    }
};
static const Maps &maps() {
    static Maps m;
    return m;
}
static void want_of(bool upper, uint32_t cp, uint32_t out[3]) {
    auto &m = upper ? maps().up : maps().lo;
    auto it = m.find(cp);
    out[0] = cp;
    out[1] = out[2] = 0;
    if(it != m.end())
        for(int i = 0; i < 3; i++)
            out[i] = it->second[i];
}
static const uint64_t BLOCK = 0x110000 / 64;
// every code point, a block of them per case (consecutive case indices cover all blocks)
VH_SUITE_F("P07", casemap_all, 1, vh::NOLEAK) {
    uint64_t blk = (c.index / 2) % 64;
    c.mix(blk);
    c.note("code points %llx..", (unsigned long long)(blk * BLOCK));
    for(uint32_t cp = blk * BLOCK; cp < (blk + 1) * BLOCK; cp++) {
        uint32_t w[3];
        auto g = P::uppercase_unicode(cp);
        want_of(true, cp, w);
        EXPECT(!memcmp(g.codepoints, w, sizeof w), "upper", "uppercase_unicode(%x) = %x %x %x want %x %x %x", cp, g.codepoints[0],
               g.codepoints[1], g.codepoints[2], w[0], w[1], w[2]);
        g = P::lowercase_unicode(cp);
        want_of(false, cp, w);
        EXPECT(!memcmp(g.codepoints, w, sizeof w), "lower", "lowercase_unicode(%x) = %x %x %x want %x %x %x", cp, g.codepoints[0],
               g.codepoints[1], g.codepoints[2], w[0], w[1], w[2]);
    }
    c.cover("codepoints-mapped", BLOCK);
    if(blk == 63)
        for(uint32_t cp : {0x110000u, 0x7fffffffu, 0x80000000u, 0xffffffffu, 0x120000u}) {
            EXPECT(P::uppercase_unicode(cp).codepoints[0] == cp && P::lowercase_unicode(cp).codepoints[0] == cp, "beyond",
                   "value %x changed", cp);
        }
}
VH_SUITE_F("P07", casemap_strings, 1, 0) {
    auto &r = c.rng;
    for(int k = 0; k < 8; k++) {
        CPs m = gcps(r, gsize(r, 100));
        if(r.chance(1, 2))
            for(auto &x : m)
                if(r.chance(1, 2))
                    x = r.chance(1, 3) ? casemap_up[r.below(110)][0] : r.chance(1, 2) ? casemap_up[r.below(sizeof casemap_up / 16)][0] : casemap_lo[r.below(sizeof casemap_lo / 16)][0];
        if(r.chance(1, 5)) { // the longest growth: three-for-one everywhere
            for(auto &x : m)
                x = r.chance(1, 2) ? 0x390 : 0xfb03;
        }
        std::string s = enc(m);
        c.mixs(s.data(), s.size());
        c.note("text %s", vh::show(s).c_str());
        CPs up, lo;
        for(auto x : m) {
            uint32_t w[3];
            want_of(true, x, w);
            for(auto q : w)
                if(q)
                    up.push_back(q);
            want_of(false, x, w);
            for(auto q : w)
                if(q)
                    lo.push_back(q);
        }
        vh::Exact e(s);
        P::U8StringView v(e.p, e.n);
        P::U8String u = mk(m);
        check_same(c, v.upper(), up, "view upper");
        check_same(c, v.lower(), lo, "view lower");
        check_same(c, u.upper(), up, "string upper");
        check_same(c, u.lower(), lo, "string lower");
        check_same(c, u, m, "source unchanged");
    }
}

// the mapping of a code point does not depend on what is around it
VH_SUITE_F("P07", casemap_contexts, 1, 0) {
    auto &r = c.rng;
    static const uint32_t special[] = {0x3a3, 0x3a3, 0x3c3, 0x3c2, 0x391, 'i', 'I', 'j', 'J', 'a', 'A', 's', 'S', 'n', 'N', 't', 'f',
                                       0x130, 0x131, 0x12e, 0x12f, 0x307, 0x300, 0x301, 0x303, 0x308, 0x345, 0x1fb3, 0x3b1, 0x399, 0xdf,
                                       0x1e9e, 0x149, 0x1f0, 0x2bc, 0x1c4, 0x1c5, 0x1c6, 0xfb01, 0xfb06, 0x587, 0x2170, 0x24d0, 0x10d0,
                                       0x1c90, 0x13a0, 0xab70, 0x10428, 0x1e900};
    static const uint32_t around[] = {' ', '.', ',', '\'', '-', '\n', '1', '_', 0xad, 0x2019, 0x200d, 0x180e, 0x1f600, 0x4e00, 0xa0, 0x2028, 0xfeff};
    for(int k = 0; k < 200; k++) {
        uint32_t pool[6];
        int np = 2 + r.below(5);
        for(int i = 0; i < np; i++)
            pool[i] = r.chance(1, 2)   ? special[r.below(sizeof special / 4)]
                      : r.chance(1, 2) ? around[r.below(sizeof around / 4)]
                      : r.chance(1, 2) ? casemap_up[r.below(sizeof casemap_up / 16)][0]
                                       : casemap_lo[r.below(sizeof casemap_lo / 16)][0];
        CPs m;
        for(int n = 1 + r.below(8); n; --n)
            m.push_back(pool[r.below(np)]);
        std::string s = enc(m);
        c.mixs(s.data(), s.size());
        CPs up, lo;
        for(auto x : m) {
            uint32_t w[3];
            want_of(true, x, w);
            for(auto q : w)
                if(q)
                    up.push_back(q);
            want_of(false, x, w);
            for(auto q : w)
                if(q)
                    lo.push_back(q);
        }
        std::string wu = enc(up), wl = enc(lo);
        vh::Exact e(s);
        P::U8StringView v(e.p, e.n);
        auto a = v.upper(), b = v.lower();
        EXPECT(wu == a.c_str(), "context-upper", "upper(%s) = %s want %s", vh::show(s).c_str(), vh::show(std::string(a.c_str())).c_str(), vh::show(wu).c_str());
        EXPECT(wl == b.c_str(), "context-lower", "lower(%s) = %s want %s", vh::show(s).c_str(), vh::show(std::string(b.c_str())).c_str(), vh::show(wl).c_str());
    }
    c.cover("texts-of-special-letters", 200);
}

// ... nor on the locale the program has chosen
VH_SUITE_F("P07", casemap_locales, 1, vh::NOLEAK) {
    static const char *const names[] = {"tr_TR.ISO-8859-9", "tr_TR.UTF-8", "lt_LT.UTF-8", "de_DE.ISO-8859-1", "el_GR.ISO-8859-7"};
    auto &r = c.rng;
    const char *name = names[c.index % 5];
    c.note("locale %s", name);
    c.mix(c.index);
    struct Back {
        ~Back() { setlocale(LC_ALL, "C"); }
    } back;
    const char *where = getenv("VH_LOCPATH");
    if(!where || setenv("LOCPATH", where, 1) || !setlocale(LC_ALL, name)) {
        c.cover("locale-not-available");
        return;
    }
    auto one = [&](uint32_t cp) {
        uint32_t w[3];
        auto g = P::uppercase_unicode(cp);
        want_of(true, cp, w);
        EXPECT(!memcmp(g.codepoints, w, sizeof w), "locale-upper", "in %s uppercase_unicode(%x) = %x %x %x want %x %x %x", name, cp,
               g.codepoints[0], g.codepoints[1], g.codepoints[2], w[0], w[1], w[2]);
        g = P::lowercase_unicode(cp);
        want_of(false, cp, w);
        EXPECT(!memcmp(g.codepoints, w, sizeof w), "locale-lower", "in %s lowercase_unicode(%x) = %x %x %x want %x %x %x", name, cp,
               g.codepoints[0], g.codepoints[1], g.codepoints[2], w[0], w[1], w[2]);
    };
    for(uint32_t cp = 0; cp < 0x600; cp++)
        one(cp);
    for(auto &e : casemap_up)
        one(e[0]);
    for(auto &e : casemap_lo)
        one(e[0]);
    c.cover(name);
    CPs m, up, lo;
    for(int n = 1 + r.below(40); n; --n)
        m.push_back(r.chance(1, 2) ? (uint32_t)"iIjJlLsSkK"[r.below(10)] : (uint32_t)(1 + r.below(0x1ff)));
    for(auto x : m) {
        uint32_t w[3];
        want_of(true, x, w);
        for(auto q : w)
            if(q)
                up.push_back(q);
        want_of(false, x, w);
        for(auto q : w)
            if(q)
                lo.push_back(q);
    }
    std::string s = enc(m);
    c.mixs(s.data(), s.size());
    vh::Exact e(s);
    P::U8StringView v(e.p, e.n);
    check_same(c, v.upper(), up, "view upper");
    check_same(c, v.lower(), lo, "view lower");
}
