// P24: ranges and loop adaptors. P25: formatting.
#include "common26.hpp"
#include "tracked.hpp"
#include <cstdarg>
#include <climits>
using vh::Case;
using vh::show;

namespace {
int64_t edge(vh::Rng &r) {
    switch(r.below(8)) {
    case 0: return INT64_MAX - (int64_t)r.below(4);
    case 1: return INT64_MIN + (int64_t)r.below(4);
    case 2: return (int64_t)r.next();
    case 3: return (int64_t)1 << r.below(63);
    default: return (int64_t)r.below(60) - 30;
    }
}
// what Python's range produces, cut off after limit values
std::vector<int64_t> pyrange(int64_t a, int64_t b, int64_t s, size_t limit, bool &cut) {
    std::vector<int64_t> v;
    cut = false;
    for(__int128 x = a; s > 0 ? x < b : x > b; x += s) {
        if(v.size() == limit) {
            cut = true;
            break;
        }
        v.push_back((int64_t)x);
    }
    return v;
}
} // namespace
VH_SUITE("P24", range_values, 6) {
    auto &r = c.rng;
    int64_t a, b, s;
    switch(r.below(4)) {
    case 0: { // near each other
        a = edge(r);
        __int128 t = (__int128)a + (int64_t)r.below(400) - 200;
        b = t > INT64_MAX ? INT64_MAX : t < INT64_MIN ? INT64_MIN : (int64_t)t;
        s = (int64_t)r.below(15) - 7;
        break;
    }
    case 1: // big steps
        a = edge(r), b = edge(r), s = edge(r);
        if(r.chance(1, 2))
            s = (int64_t)((INT64_MAX >> r.below(6)) - r.below(3)) * (r.chance(1, 2) ? 1 : -1);
        break;
    default:
        a = (int64_t)r.below(80) - 40, b = (int64_t)r.below(80) - 40, s = (int64_t)r.below(13) - 6;
    }
    if(s == 0)
        s = 1;
    int form = r.below(6);
    if(form == 0)
        a = 0, s = 1;
    if(form == 1)
        s = 1;
    bool cut;
    size_t limit = 300;
    auto want = pyrange(a, b, s, limit, cut);
    c.note("range(%lld, %lld, %lld)", (long long)a, (long long)b, (long long)s);
    c.mix(a), c.mix(b), c.mix(s);
    P::Range g = form == 0 ? P::Range(b) : form == 1 ? P::Range(a, b) : P::Range(a, b, s);
    size_t i = 0;
    auto check = [&](int64_t v) {
        EXPECT(i < want.size(), "range.extra", "range(%lld, %lld, %lld): value %zu is %lld but there are only %zu", (long long)a,
               (long long)b, (long long)s, i, (long long)v, want.size());
        EXPECT(v == want[i], "range.value", "range(%lld, %lld, %lld): value %zu is %lld, expected %lld", (long long)a,
               (long long)b, (long long)s, i, (long long)v, (long long)want[i]);
        ++i;
    };
    bool stopped = false;
    switch(r.below(4)) {
    case 0:
        for(auto &v : P::LoopView(g)) {
            check(v);
            if(i == limit) {
                stopped = true;
                break;
            }
        }
        break;
    case 1: {
        P::Range h(P::move(g));
        g = h; // assignment makes an independent copy
        for(auto &v : P::Loopsume(P::move(h))) {
            check(v);
            if(i == limit) {
                stopped = true;
                break;
            }
        }
        EXPECT(i == want.size(), "range.short", "%zu of %zu values", i, want.size());
        i = 0;
        stopped = false;
        while(i < limit) {
            auto v = g.next();
            if(!v)
                break;
            check(*v);
        }
        stopped = i == limit;
        break;
    }
    case 2: {
        P::LoopView lv(g);
        size_t k = 0;
        for(auto [ix, v] : P::EnumerateView(lv)) {
            EXPECT(ix == k, "enumerate.index", "index %zu, expected %zu", (size_t)ix, k);
            ++k;
            check(v);
            if(i == limit) {
                stopped = true;
                break;
            }
        }
        break;
    }
    default:
        while(i < limit) {
            auto v = g.next();
            if(!v)
                break;
            check(*v);
        }
        stopped = i == limit;
    }
    EXPECT(i == want.size(), "range.short", "range(%lld, %lld, %lld): %zu of %zu values", (long long)a, (long long)b,
           (long long)s, i, want.size());
    if(!stopped)
        for(int k = 0; k < 3; k++)
            EXPECT(!g.next() , "range.restart", "range(%lld, %lld, %lld) goes on after its end", (long long)a, (long long)b,
                   (long long)s);
    P::Range none;
    EXPECT(!none.next(), "range.default", "a default Range yields something");
    c.cover("range-values", i);
}
namespace {
// a generator that remembers how it was used
struct Log {
    int calls = 0, after_end = 0;
};
template<typename T> struct Source {
    std::vector<int> keys;
    size_t pos = 0;
    Log *log = nullptr;
    Source() noexcept = default;
    Source(std::vector<int> k, Log *l) : keys(std::move(k)), log(l) {}
    Source(Source &&o) noexcept = default;
    Source &operator=(Source &&o) noexcept = default;
    P::Optional<T> next() {
        ++log->calls;
        if(pos >= keys.size()) {
            if(pos > keys.size())
                ++log->after_end;
            ++pos;
            return {};
        }
        return P::Optional<T>(T(keys[pos++]));
    }
};
int val(const vt::Tracked &t) { return t.val(); }
int val(int i) { return i; }
template<typename T> void loop_case(Case &c) {
    auto &r = c.rng;
    std::vector<int> keys;
    for(size_t n = r.below(r.chance(1, 6) ? 200 : 10); n; --n)
        keys.push_back((int)r.below(1000));
    for(int k : keys)
        c.mix(k);
    size_t stop = r.chance(1, 4) ? 1 + r.below(keys.size() + 1) : (size_t)-1;
    int op = r.below(4);
    c.note("%zu items, way %d, stop after %zu", keys.size(), op, stop);
    c.mix(op), c.mix(stop);
    {
        Log log;
        Source<T> src(keys, &log);
        size_t i = 0;
        auto visit = [&](T &v) {
            EXPECT(i < keys.size(), "loop.extra", "item %zu of %zu", i, keys.size());
            EXPECT(val(v) == keys[i], "loop.value", "item %zu is %d, expected %d", i, val(v), keys[i]);
            ++i;
            return i >= stop;
        };
        switch(op) {
        case 0:
            for(auto &v : P::LoopView(src))
                if(visit(v))
                    break;
            break;
        case 1:
            for(auto &v : P::Loopsume(P::move(src)))
                if(visit(v))
                    break;
            break;
        case 2: {
            P::LoopView lv(src);
            for(auto [ix, v] : P::EnumerateView(lv)) {
                EXPECT(ix == i, "enumerate.index", "index %zu at %zu", (size_t)ix, i);
                if(visit(v))
                    break;
            }
            break;
        }
        case 3: {
            P::Loopsume lv(P::move(src));
            for(auto [ix, v] : P::EnumerateView(lv)) {
                EXPECT(ix == i, "enumerate.index", "index %zu at %zu", (size_t)ix, i);
                if(visit(v))
                    break;
            }
            break;
        }
        }
        size_t want = std::min(keys.size(), std::max<size_t>(stop, 1));
        EXPECT(i == want, "loop.short", "%zu items visited, expected %zu", i, want);
        // one call per item, and one more that said it was over
        bool ended = i < stop;
        EXPECT((size_t)log.calls == i + (ended && (keys.empty() || i == keys.size()) ? 1 : 0), "loop.calls",
               "%d calls of next() for %zu items", log.calls, i);
        EXPECT(log.after_end == 0, "loop.after-end", "next() called after the end");
    }
    vt::verify_none_live(c);
    c.cover("items-visited", keys.size());
}
} // namespace
VH_SUITE("P24", loops_plain, 2) { loop_case<int>(c); }
VH_SUITE("P24", loops_tracked, 2) { loop_case<vt::Tracked>(c); }
VH_ALSO(P09, loops_tracked, 1)
VH_SUITE("P24", enumerate_containers, 2) {
    auto &r = c.rng;
    std::vector<int> m;
    P::Vector<int> v;
    for(size_t n = r.chance(1, 100) ? 65000 + r.below(3000) : r.below(40); n; --n) {
        m.push_back((int)r.below(100));
        v.push_back(m.back());
        c.mix(m.back());
    }
    size_t k = 0;
    for(auto [i, x] : P::EnumerateView(v)) {
        EXPECT(i == k && k < m.size() && x == m[k], "enumerate.vector", "entry %zu: (%zu, %d)", k, (size_t)i, x);
        EXPECT(&x == &v[k], "enumerate.reference", "entry %zu is not the element", k);
        x += 1000;
        ++k;
    }
    EXPECT(k == m.size(), "enumerate.short", "%zu of %zu", k, m.size());
    for(size_t i = 0; i < m.size(); i++)
        EXPECT(v[i] == m[i] + 1000, "enumerate.reference", "writing through entry %zu was lost", i);
    const P::Vector<int> &cv = v;
    k = 0;
    for(auto [i, x] : P::EnumerateView(cv)) {
        EXPECT(i == k && &x == &cv[k], "enumerate.const", "entry %zu", k);
        ++k;
    }
    EXPECT(k == m.size(), "enumerate.short", "%zu of %zu", k, m.size());
    P::Span<int> sp(v.data(), v.size());
    k = 0;
    for(auto [i, x] : P::EnumerateView(sp)) {
        EXPECT(i == k && &x == v.data() + k, "enumerate.span", "entry %zu", k);
        ++k;
    }
    EXPECT(k == m.size(), "enumerate.short", "%zu of %zu", k, m.size());
}

// ------------------------------------------------------------------ P25
namespace {
struct Deliveries {
    int n = 0;
    std::string text;
    bool nul = true, boom = false;
};
void with_cb(Deliveries *d, const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    struct End {
        va_list &a;
        ~End() { va_end(a); }
    } e{ap};
    P::cformat_with_cb(
        [](const char *b, size_t n, void *ctx) {
            auto *d = (Deliveries *)ctx;
            ++d->n;
            d->text.append(b, n);
            if(d->boom)
                throw 5;
        },
        d, fmt, ap);
}
std::string expect_text(const char *fmt, ...) {
    va_list ap, a2;
    va_start(ap, fmt);
    va_copy(a2, ap);
    int n = vsnprintf(nullptr, 0, fmt, ap);
    std::vector<char> b(n + 1);
    vsnprintf(b.data(), n + 1, fmt, a2);
    va_end(ap);
    va_end(a2);
    return std::string(b.data(), n);
}
size_t len(vh::Rng &r) {
    static const size_t b[] = {0, 1, 1000, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1030, 2046, 2047, 2048, 2049, 4096};
    switch(r.below(8)) {
    case 0: return r.below(r.chance(1, 10) ? 300000 : 6000);
    case 1: case 2: case 3: return b[r.below(16)];
    default: return r.below(40);
    }
}
std::string filler(vh::Rng &r, size_t n) {
    std::string s(n, 'x');
    for(size_t i = 0; i < n; i++)
        s[i] = (char)('a' + (i * 7 + i / 26) % 26);
    if(n && r.chance(1, 3))
        s[r.below(n)] = "%\n\\s\x80\xff"[r.below(6)];
    return s;
}
template<typename... A> void one_format(Case &c, const char *fmt, A... a) {
    auto &r = c.rng;
    std::string want = expect_text(fmt, a...);
    c.mixs(want.data(), want.size());
    c.mixs(fmt, strlen(fmt));
    c.note("%s: %zu bytes", fmt, want.size());
    vh::Exact f(std::string(fmt) + '\0');
    {
        P::CString s = P::cformat(f.p, a...);
        EXPECT(s.size() == want.size() && memcmp(s.c_str(), want.data(), want.size()) == 0 && s.c_str()[s.size()] == 0,
               "format.text", "cformat(%s): %zu bytes %s, expected %zu bytes", fmt, s.size(),
               show(std::string(s.c_str(), s.size())).substr(0, 200).c_str(), want.size());
    }
    {
        Deliveries d;
        with_cb(&d, f.p, a...);
        EXPECT(d.n == 1, "format.deliveries", "cformat_with_cb(%s) called back %d times", fmt, d.n);
        EXPECT(d.text == want, "format.text", "cformat_with_cb(%s): %zu bytes, expected %zu", fmt, d.text.size(), want.size());
    }
    {
        std::string old = gtext(r, gsize(r, 100));
        P::CString s(old.data(), old.size());
        P::format_append(s, f.p, a...);
        EXPECT(std::string(s.c_str(), s.size()) == old + want, "format.append", "format_append(%s) after %zu bytes: %zu bytes", fmt,
               old.size(), s.size());
        P::Vector<char> v;
        for(char ch : old)
            v.push_back(ch);
        P::format_append(v, f.p, a...);
        EXPECT(std::string(v.data(), v.size()) == old + want, "format.append", "format_append(%s) to a Vector: %zu bytes", fmt,
               v.size());
    }
    if(r.chance(1, 4)) { // a throwing callback must not leak the buffer
        Deliveries d;
        d.boom = true;
        bool th = false;
        try {
            with_cb(&d, f.p, a...);
        } catch(int) {
            th = true;
        }
        EXPECT(th && d.n == 1, "format.throwing", "exception from the callback lost");
    }
    c.cover(want.size() >= 1024 ? "long-texts" : "short-texts");
}
} // namespace
VH_SUITE("P25", format_texts, 6) {
    auto &r = c.rng;
    std::string a = filler(r, len(r)), b = filler(r, len(r));
    int i = (int)r.next();
    long long l = (long long)r.next();
    double d = (double)(int64_t)r.next() / (1 + r.below(100000));
    switch(r.below(14)) {
    case 0: return one_format(c, "%s", a.c_str());
    case 1: return one_format(c, "%s%s", a.c_str(), b.c_str());
    case 2: return one_format(c, "%d", i);
    case 3: return one_format(c, "[%s|%d|%lld|%g]", a.c_str(), i, l, d);
    case 4: return one_format(c, "%.*s", (int)len(r), a.c_str());
    case 5: return one_format(c, "%*d", (int)len(r), i);
    case 6: return one_format(c, "%-*s|%d", (int)len(r), a.c_str(), i);
    case 7: return one_format(c, "%x %llX %zu %o %hhd", i, l, (size_t)l, i, (char)i);
    case 8: return one_format(c, "%.3f %e %g %a", d, d, d, d);
    case 9: return one_format(c, "%f", d * 1e290);
    case 10: return one_format(c, "100%%");
    case 11: return one_format(c, "");
    case 12: return one_format(c, "%d %d %d %d %d %d %d %d %f %f %f %f %f %f %f %f %f %f %s", i, 1, 2, 3, 4, 5, 6, 7, d, 1.5, 2.5, 3.5, 4.5,
                               5.5, 6.5, 7.5, 8.5, 9.5, a.c_str());
    default: return one_format(c, "%2$s %1$d", i, a.c_str());
    }
}
VH_SUITE("P25", format_special, 1) {
    auto &r = c.rng;
    // the format itself is long
    std::string f = filler(r, len(r));
    for(auto &ch : f)
        if(ch == '%')
            ch = 'p';
    c.mixs(f.data(), f.size());
    vh::Exact e(f + '\0');
    P::CString s = P::cformat(e.p);
    EXPECT(std::string(s.c_str(), s.size()) == f, "format.text", "plain format of %zu bytes gave %zu", f.size(), s.size());
    // the destination is an argument
    P::format_append(s, "<%s>", s.c_str());
    EXPECT(std::string(s.c_str(), s.size()) == f + "<" + f + ">", "format.append-self", "appending a string to itself: %zu bytes of %zu",
           s.size(), 2 * f.size() + 2);
    // text that cannot be converted is reported
    P::CString before("before");
    bool th = throws_py([&] { P::format_append(before, "%ls", L"\x0101"); });
    EXPECT(th, "format.error", "conversion error not reported");
    EXPECT(before == "before", "format.error", "failed format_append changed the string");
}
// formatting while a formatted text is being delivered, several levels deep, and results kept
namespace {
struct Nest {
    Case *c;
    int depth;
    std::string want;
    std::vector<P::CString> *kept;
    std::vector<std::string> *texts;
};
void nest(Nest *, const char *fmt, ...);
void delivered(const char *b, size_t n, void *ctx) {
    Nest *d = (Nest *)ctx;
    Case &c = *d->c;
    auto &r = c.rng;
    EXPECT(std::string(b, n) == d->want, "format.nested", "depth %d: %zu bytes delivered, expected %zu", d->depth, n, d->want.size());
    for(int k = 1 + (int)r.below(2); k; --k) {
        std::string a = filler(r, len(r));
        if(d->depth > 0 && r.chance(2, 3)) {
            Nest in{d->c, d->depth - 1, expect_text("%d<%s>", d->depth, a.c_str()), d->kept, d->texts};
            nest(&in, "%d<%s>", d->depth, a.c_str());
        } else {
            d->kept->push_back(P::cformat("[%s]", a.c_str()));
            d->texts->push_back("[" + a + "]");
        }
        EXPECT(std::string(b, n) == d->want, "format.nested", "depth %d: the text changed while it was being delivered", d->depth);
    }
    c.cover("nested-deliveries");
}
void nest(Nest *d, const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    struct End {
        va_list &a;
        ~End() { va_end(a); }
    } e{ap};
    P::cformat_with_cb(delivered, d, fmt, ap);
}
} // namespace
VH_SUITE("P25", format_nested, 2) {
    auto &r = c.rng;
    std::vector<P::CString> kept;
    std::vector<std::string> texts;
    std::string a = filler(r, len(r));
    c.mixs(a.data(), a.size());
    c.note("outer text of %zu bytes", a.size());
    Nest d{&c, 1 + (int)r.below(3), expect_text("%s!", a.c_str()), &kept, &texts};
    nest(&d, "%s!", a.c_str());
    for(size_t i = 0; i < kept.size(); i++)
        EXPECT(std::string(kept[i].c_str(), kept[i].size()) == texts[i], "format.nested", "result %zu of %zu changed", i, kept.size());
}

// a conversion may put a zero into the text: the callback gets all of it, a CString refuses it
namespace {
struct Taken {
    std::string text;
    int times = 0;
};
void take(const char *b, size_t n, void *ctx) {
    auto *t = (Taken *)ctx;
    t->text.assign(b, n);
    ++t->times;
}
void deliver(Taken *t, int err, const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    errno = err;
    P::cformat_with_cb(take, t, fmt, ap);
    va_end(ap);
}
} // namespace
VH_SUITE("P25", format_zero, 1) {
    auto &r = c.rng;
    std::string a = filler(r, len(r)), b = filler(r, len(r));
    c.mixs(a.data(), a.size());
    c.mixs(b.data(), b.size());
    Taken t;
    int err = (int)r.below(40);
    switch(r.below(3)) {
    case 0: {
        std::string want = a + '\0' + b;
        c.note("%zu bytes, a zero, %zu bytes", a.size(), b.size());
        deliver(&t, 0, "%s%c%s", a.c_str(), 0, b.c_str());
        EXPECT(t.times == 1 && t.text == want, "format.zero", "%zu bytes delivered instead of %zu", t.text.size(), want.size());
        EXPECT(throws_py([&] { P::cformat("%s%c%s", a.c_str(), 0, b.c_str()); }), "format.zero-accepted",
               "a CString with a zero inside");
        P::CString before("before");
        bool th = throws_py([&] { P::format_append(before, "%s%c%s", a.c_str(), 0, b.c_str()); });
        EXPECT(th && before == "before", "format.zero-accepted", "a zero was appended to a CString");
        break;
    }
    case 1: {
        std::string want = a + strerror(err) + b;
        deliver(&t, err, "%s%m%s", a.c_str(), b.c_str());
        EXPECT(t.times == 1 && t.text == want, "format.errno", "%zu bytes delivered instead of %zu", t.text.size(), want.size());
        break;
    }
    default: {
        int at = -1;
        deliver(&t, 0, "%s%n%s", a.c_str(), &at, b.c_str());
        EXPECT(t.times == 1 && t.text == a + b && at == (int)a.size(), "format.count", "%%n gave %d instead of %zu", at, a.size());
    }
    }
}
