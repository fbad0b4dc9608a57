// P14-P17: sorting, partitioning, rotation, selection and searching. P09 through tracked elements.
#include "common26.hpp"
#include "tracked.hpp"
#include <cmath>
#include <numeric>
#include <pystd2026_bucketsort.hpp>
#include <pystd2026_heapsort.hpp>
#include <pystd2026_indirect_sort.hpp>
#include <pystd2026_introsort.hpp>
#include <pystd2026_mergesort.hpp>
#include <pystd2026_nth_element.hpp>
#include <pystd2026_partial_sort.hpp>
#include <pystd2026_radixsort.hpp>
#include <pystd2026_rotate.hpp>
#include <pystd2026_shellsort.hpp>
#include <pystd2026_stablepartition.hpp>
using P::Span;
using vh::Case;

namespace {
// ---------------------------------------------------------------- elements
struct Tr { // lifetime monitored
    vt::Tracked t;
    int seq = -1;
    Tr() noexcept {}
    Tr(int k, int s) noexcept : t(k), seq(s) {}
    int key() const { return t.val(); }
    bool operator==(const Tr &o) const { return key() == o.key(); }
    bool operator<(const Tr &o) const { return key() < o.key(); }
    bool operator>(const Tr &o) const { return key() > o.key(); }
    int operator<=>(const Tr &o) const { return key() < o.key() ? -1 : key() > o.key(); }
};
struct Pl { // plain struct
    int k = -123456, seq = -1;
    Pl() noexcept = default;
    Pl(int a, int b) noexcept : k(a), seq(b) {}
    int key() const { return k; }
    bool operator==(const Pl &o) const { return k == o.k; }
    bool operator<(const Pl &o) const { return k < o.k; }
    bool operator>(const Pl &o) const { return k > o.k; }
    int operator<=>(const Pl &o) const { return k < o.k ? -1 : k > o.k; }
};
struct Big : Pl { // bigger than a cache line
    char pad[88];
    Big() noexcept { memset(pad, 0, sizeof pad); }
    Big(int a, int b) noexcept : Pl(a, b) { memset(pad, a, sizeof pad); }
};
struct Own { // owns memory through a library string
    P::CString s;
    int k = -123456, seq = -1;
    Own() noexcept {}
    Own(int a, int b) noexcept : k(a), seq(b) {
        char buf[80];
        snprintf(buf, sizeof buf, "%d-a-string-that-needs-to-be-allocated-from-the-heap", a);
        s = P::CString(buf);
    }
    int key() const { return s.size() ? atoi(s.c_str()) : -777777; }
    bool operator==(const Own &o) const { return key() == o.key(); }
    bool operator<(const Own &o) const { return key() < o.key(); }
    bool operator>(const Own &o) const { return key() > o.key(); }
    int operator<=>(const Own &o) const { return key() < o.key() ? -1 : key() > o.key(); }
};
typedef std::pair<int, int> KS;

// comparator: strict weak orders of several shapes; counts and watches the stack
struct Stats {
    uint64_t compares = 0, budget = ~0ull;
    const char *base = nullptr;
    size_t depth = 0;
    const void *lo = nullptr, *hi = nullptr; // addresses that may be compared, 0 = any
    std::vector<std::pair<const char *, const char *>> allowed;
};
Stats st;
inline void tick() {
    ++st.compares;
    const char *p = (const char *)__builtin_frame_address(0);
    if(st.base && p < st.base && (size_t)(st.base - p) > st.depth)
        st.depth = st.base - p;
    if(st.compares > st.budget) {
        st.budget = ~0ull;
        vh::cur->fail("sort.too-many-steps", "more than the allowed number of comparisons (%llu)",
                      (unsigned long long)st.compares);
    }
}
enum { ASC, DESC, MOD3, HALF, LEX, CONST_, NORDERS };
inline int order(int kind, int ka, int sa, int kb, int sb) {
    switch(kind) {
    case ASC:
        break;
    case DESC:
        return ka > kb ? -1 : ka < kb;
    case MOD3:
        ka = ((ka % 3) + 3) % 3, kb = ((kb % 3) + 3) % 3;
        break;
    case HALF:
        ka >>= 2, kb >>= 2;
        break;
    case LEX: // finer than operator==
        if(ka != kb)
            break;
        return sa > sb ? -1 : sa < sb;
    case CONST_:
        return 0;
    }
    return ka < kb ? -1 : ka > kb;
}
template<typename T> struct Cmp {
    int kind = ASC;
    int scale = 1; // compare() may return any negative or positive number
    int compare(const T &a, const T &b) const {
        tick();
        return order(kind, a.key(), a.seq, b.key(), b.seq) * scale;
    }
    bool equal(const T &a, const T &b) const { return order(kind, a.key(), a.seq, b.key(), b.seq) == 0; }
};

// ---------------------------------------------------------------- inputs
const std::vector<int> *forced; // set: the input to use
size_t giant;                  // set: the length to use where the algorithm is fast enough
bool exceptions;               // set: inputs that are regular but for very few elements
size_t pick_size(Case &c, size_t big) {
    auto &r = c.rng;
    if(forced)
        return forced->size();
    if(giant && big > 700)
        return giant;
    switch(r.below(12)) {
    case 0:
    case 1:
    case 2:
        return r.below(8);
    case 3:
    case 4:
        return r.below(70);
    case 5: {
        static const size_t b[] = {15, 16, 17, 18, 31, 32, 33, 34, 63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 255, 256, 257, 258};
        return b[r.below(sizeof b / sizeof *b)];
    }
    case 6: {
        static const size_t b[] = {4, 5, 6, 10, 11, 23, 24, 57, 58, 132, 133, 301, 302, 511, 512, 513};
        return b[r.below(sizeof b / sizeof *b)];
    }
    case 7: {
        static const size_t b[] = {700, 701, 702, 999, 1000, 1001, 1577, 1578, 1579};
        return std::min(big, b[r.below(sizeof b / sizeof *b)]);
    }
    case 8:
        return r.below(std::min<size_t>(big, 1200));
    case 9:
        return r.chance(1, 4) ? r.below(big + 1) : r.below(300);
    default:
        return r.below(200);
    }
}
std::vector<int> pick_keys(Case &c, size_t n, int lo = -1000000, int hi = 1000000) {
    auto &r = c.rng;
    if(forced && forced->size() == n) {
        for(auto v : *forced)
            c.mix((uint64_t)v + 77);
        c.mix(n);
        std::string s;
        for(auto v : *forced)
            s += std::to_string(v) + " ";
        c.note("n=%zu [%s]", n, s.c_str());
        return *forced;
    }
    std::vector<int> k(n);
    int mode = exceptions ? 14 : r.below(15);
    const int regular = (int)r.below(4);
    int uniq = 1 + (int)r.below(r.chance(1, 2) ? 4 : 40);
    for(size_t i = 0; i < n; i++) {
        int v;
        switch(mode) {
        case 0:
        case 1:
            v = (int)r.range(lo, hi);
            break;
        case 2:
        case 3:
            v = (int)r.below(uniq);
            break;
        case 4:
            v = 7;
            break;
        case 5:
            v = (int)i;
            break;
        case 6:
            v = (int)(n - i);
            break;
        case 7: // organ pipe
            v = (int)(i < n / 2 ? i : n - i);
            break;
        case 8: // sawtooth
            v = (int)(i % (size_t)(uniq + 1));
            break;
        case 9: // almost sorted
            v = (int)i + (r.chance(1, 20) ? (int)r.range(-10, 10) : 0);
            break;
        case 10: // two runs
            v = (int)(i < n / 2 ? 2 * i : 2 * (i - n / 2) + 1);
            break;
        case 11: // valley
            v = (int)(i < n / 2 ? n - i : i);
            break;
        case 12: // mostly equal, a few others
            v = r.chance(1, 10) ? (int)r.below(5) : 3;
            break;
        case 14: // regular, with exceptions put in below
            v = regular == 0 ? 3 : regular == 1 ? (int)i : regular == 2 ? (int)(n - i) : (int)(i / 8);
            break;
        default: // big steps
            v = (int)((i * 7919) % (n ? n : 1));
            break;
        }
        k[i] = std::max(lo, std::min(hi, v));
    }
    if(mode == 14 && n)
        for(size_t e = 1 + r.below(4); e; --e) {
            size_t at = r.chance(1, 6) ? n - 1 : r.below(n);
            if(r.chance(1, 3))
                std::swap(k[at], k[r.below(n)]);
            else
                k[at] = std::max(lo, std::min(hi, r.chance(1, 2) ? (int)r.range(lo, hi) : k[at] + (int)r.range(-2, 2)));
        }
    static const char *names[] = {"random", "random", "few-unique", "few-unique", "all-equal", "sorted", "reversed",
                                  "organ-pipe", "sawtooth", "almost-sorted", "two-runs", "valley", "mostly-equal", "stride", "regular-with-exceptions"};
    c.note("n=%zu %s", n, names[mode]);
    if(n <= 40) {
        std::string s;
        for(auto v : k)
            s += std::to_string(v) + " ";
        c.note("[%s]", s.c_str());
    }
    for(auto v : k)
        c.mix((uint64_t)v + 77);
    c.mix(n);
    return k;
}

// Runs a case on every way to fill the last four places of a short input with few values.
template<typename F> void all_short(Case &c, F f) {
    size_t n = c.rng.below(7);
    if(c.rng.chance(1, 6))
        n = 7 + c.rng.below(12);
    std::vector<int> keys(n);
    int alphabet = n <= 4 ? 4 : 2 + c.rng.below(3);
    for(auto &k : keys)
        k = (int)c.rng.below(alphabet);
    size_t free_ = std::min<size_t>(n, 4), at = c.rng.below(n - free_ + 1), total = 1;
    for(size_t i = 0; i < free_; i++)
        total *= alphabet;
    struct Reset {
        ~Reset() { forced = nullptr; }
    } reset;
    for(size_t t = 0; t < total; t++) {
        size_t v = t;
        for(size_t i = 0; i < free_; i++, v /= alphabet)
            keys[at + i] = (int)(v % alphabet);
        forced = &keys;
        f();
        forced = nullptr;
    }
    c.cover("short-inputs-enumerated", total);
}

// n elements between two groups of guard elements in one exact-size allocation
template<typename T> struct Arr {
    size_t n, g;
    T *raw;
    std::vector<KS> before;
    Arr(Case &c, const std::vector<int> &keys, size_t guards) : n(keys.size()), g(guards) {
        (void)c;
        raw = (T *)malloc((n + 2 * g) * sizeof(T) + (n + 2 * g == 0));
        for(size_t i = 0; i < g; i++) {
            // alternating extremes, so that any overrun has something to pull in
            new(raw + i) T(i & 1 ? 2000000 : -2000000, -5);
            new(raw + g + n + i) T(i & 1 ? 2000000 : -2000000, -5);
        }
        for(size_t i = 0; i < n; i++) {
            new(raw + g + i) T(keys[i], (int)i);
            before.push_back({keys[i], (int)i});
        }
    }
    Arr(const Arr &) = delete;
    ~Arr() {
        for(size_t i = 0; i < n + 2 * g; i++)
            raw[i].~T();
        free(raw);
    }
    T *b() { return raw + g; }
    T *e() { return raw + g + n; }
    std::vector<KS> now() {
        std::vector<KS> v;
        v.reserve(n);
        for(size_t i = 0; i < n; i++)
            v.push_back({raw[g + i].key(), raw[g + i].seq});
        return v;
    }
    void check_guards(Case &c, const char *alg) {
        for(size_t i = 0; i < g; i++) {
            int want = i & 1 ? 2000000 : -2000000;
            EXPECT(raw[i].key() == want && raw[i].seq == -5, "sort.outside-touched",
                   "%s changed the element %zu before the range", alg, g - i);
            EXPECT(raw[g + n + i].key() == want && raw[g + n + i].seq == -5, "sort.outside-touched",
                   "%s changed the element %zu after the range", alg, i);
        }
    }
    void check_perm(Case &c, const std::vector<KS> &now, const char *alg) {
        // every element exactly once
        std::vector<char> seen(n, 0);
        for(size_t i = 0; i < n; i++) {
            int s = now[i].second;
            EXPECT(s >= 0 && (size_t)s < n && !seen[s] && before[s].first == now[i].first, "sort.not-a-permutation",
                   "%s: element %zu (key %d, origin %d) is lost, duplicated or damaged", alg, i, now[i].first, s);
            seen[s] = 1;
        }
    }
};
std::string brief(const std::vector<KS> &v) {
    std::string s;
    for(size_t i = 0; i < v.size() && i < 60; i++)
        s += std::to_string(v[i].first) + "#" + std::to_string(v[i].second) + " ";
    return s;
}
void check_sorted(Case &c, const std::vector<KS> &now, int kind, bool stable, const char *alg, size_t from = 0,
                  size_t to = (size_t)-1) {
    to = std::min(to, now.size());
    for(size_t i = from + 1; i < to; i++) {
        int o = order(kind, now[i - 1].first, now[i - 1].second, now[i].first, now[i].second);
        EXPECT(o <= 0, "sort.not-sorted", "%s (order %d) n=%zu: position %zu: %d#%d before %d#%d; %s", alg, kind,
               now.size(), i, now[i - 1].first, now[i - 1].second, now[i].first, now[i].second,
               now.size() <= 60 ? brief(now).c_str() : "");
        if(stable && o == 0)
            EXPECT(now[i - 1].second < now[i].second, "sort.not-stable",
                   "%s (order %d) n=%zu: equal elements #%d and #%d changed places (position %zu)", alg, kind, now.size(),
                   now[i - 1].second, now[i].second, i);
    }
}

enum Alg { INSERTION, HEAP, SHELL, INTRO, MERGE, NALG };
const char *alg_name[] = {"insertion_sort", "heapsort", "shell_sort", "introsort", "mergesort"};
template<typename T, typename C> void run_alg(int alg, int form, T *b, T *e, const C &cmp) {
    (void)form;
    switch(alg) {
    case INSERTION:
        P::insertion_sort(b, e, cmp);
        break;
    case HEAP:
        P::heapsort(b, e, cmp);
        break;
    case SHELL:
        P::shell_sort(b, e, cmp);
        break;
    case INTRO:
        P::introsort(b, e, cmp);
        break;
    case MERGE:
        if(form)
            P::mergesort(Span<T>(b, e - b), cmp);
        else
            P::mergesort(b, e, cmp);
        break;
    }
}
template<typename T> void run_default(int alg, int form, T *b, T *e) {
    Span<T> s(b, e - b);
    switch(alg) {
    case INSERTION:
        form ? P::insertion_sort(s) : P::insertion_sort(b, e);
        break;
    case HEAP:
        form ? P::heapsort(s) : P::heapsort(b, e);
        break;
    case SHELL:
        P::shell_sort(b, e);
        break;
    case INTRO:
        form ? P::introsort(s) : P::introsort(b, e);
        break;
    case MERGE:
        form ? P::mergesort(s) : P::mergesort(b, e);
        break;
    }
}
inline void arm(uint64_t budget) {
    st = Stats();
    st.budget = budget;
    st.base = (const char *)__builtin_frame_address(0);
}
inline double lg(size_t n) { return n < 2 ? 1 : std::log2((double)n); }

template<typename T> void sort_case(Case &c, bool stable_only, size_t big) {
    auto &r = c.rng;
    {
        int alg = stable_only ? (r.chance(1, 2) ? MERGE : INSERTION) : (int)r.below(NALG);
        size_t n = pick_size(c, alg == INSERTION ? std::min<size_t>(big, 700) : big);
        auto keys = pick_keys(c, n);
        bool dflt = r.chance(1, 4);
        int kind = dflt ? ASC : (int)r.below(NORDERS);
        int form = r.below(2);
        int scale = r.chance(1, 2) ? 1 : 1 + (int)r.below(100000);
        size_t g = r.chance(1, 2) ? 0 : 1 + r.below(4);
        c.note("%s %s order=%d form=%d guards=%zu", alg_name[alg], dflt ? "default" : "custom", kind, form, g);
        c.mix(alg * 100 + kind * 10 + form + dflt * 5);
        Arr<T> a(c, keys, g);
        arm((uint64_t)n * n * 4 + 10000);
        if(dflt)
            run_default(alg, form, a.b(), a.e());
        else
            run_alg(alg, form, a.b(), a.e(), Cmp<T>{kind, scale});
        auto now = a.now();
        a.check_guards(c, alg_name[alg]);
        a.check_perm(c, now, alg_name[alg]);
        check_sorted(c, now, kind, alg == INSERTION || alg == MERGE, alg_name[alg]);
        c.cover(alg_name[alg]);
        c.cover("comparisons", st.compares);
        if(n > 1 && r.chance(1, 4))
            EXPECT(P::is_sorted((const T *)a.b(), (const T *)a.e(), Cmp<T>{kind, 1}), "is_sorted.wrong",
                   "is_sorted denies a sorted range");
    }
    vt::verify_none_live(c);
}

template<typename T> void indirect_case(Case &c, bool stable, size_t big) {
    auto &r = c.rng;
    {
        size_t n = pick_size(c, big);
        auto keys = pick_keys(c, n);
        bool dflt = r.chance(1, 3);
        int kind = dflt ? ASC : (int)r.below(NORDERS);
        c.note("%s order=%d", stable ? "indirect_stable_sort" : "indirect_sort", kind);
        c.mix(kind * 10 + stable);
        Arr<T> a(c, keys, 0);
        arm((uint64_t)n * n * 4 + 10000);
        P::Vector<size_t> ix;
        Cmp<T> cmp{kind, 1};
        const T *b = a.b(), *e = a.e();
        if(stable)
            ix = dflt ? P::indirect_stable_sort(b, e) : P::indirect_stable_sort(b, e, cmp);
        else
            ix = dflt ? P::indirect_sort(b, e) : P::indirect_sort(b, e, cmp);
        EXPECT(ix.size() == n, "indirect.size", "%zu indices for %zu elements", ix.size(), n);
        EXPECT(a.now() == a.before, "indirect.source-changed", "the data was changed");
        std::vector<char> seen(n, 0);
        std::vector<KS> v;
        for(size_t i = 0; i < n; i++) {
            size_t k = ix[i];
            EXPECT(k < n && !seen[k], "indirect.not-a-permutation", "index %zu at %zu", k, i);
            seen[k] = 1;
            v.push_back(a.before[k]);
        }
        check_sorted(c, v, kind, stable, stable ? "indirect_stable_sort" : "indirect_sort");
    }
    vt::verify_none_live(c);
}

// integers: default comparators, exact multiset
template<typename T> std::vector<T> int_input(Case &c, size_t n) {
    auto &r = c.rng;
    std::vector<T> v(n);
    int mode = exceptions ? 9 : r.below(10);
    const T step = (T)(r.chance(1, 2) ? 0 : 1 + r.below(3));
    T base = (T)r.next();
    T mask = (T)r.next() & (T)r.next();
    for(size_t i = 0; i < n; i++) {
        switch(mode) {
        case 0:
            v[i] = (T)r.next();
            break;
        case 1:
            v[i] = base;
            break;
        case 2: // common high bits
            v[i] = (T)(base ^ (T)r.below(4));
            break;
        case 3: // only some bits vary
            v[i] = (T)(base ^ ((T)r.next() & mask));
            break;
        case 4:
            v[i] = (T)((T)r.below(3) << (8 * (sizeof(T) - 1)));
            break;
        case 5:
            v[i] = (T)i;
            break;
        case 6:
            v[i] = (T)(n - i);
            break;
        case 7: // extremes
            v[i] = r.chance(1, 2) ? std::numeric_limits<T>::max() : r.chance(1, 2) ? std::numeric_limits<T>::min() : (T)r.below(3);
            break;
        case 8:
            v[i] = r.chance(1, 30) ? (T)r.next() : base;
            break;
        case 9: // small values, with exceptions put in below
            v[i] = (T)(step ? i / 16 % 50 * step : 5);
            break;
        }
    }
    if(mode == 9 && n)
        for(size_t e = 1 + r.below(4); e; --e) {
            size_t at = r.chance(1, 6) ? n - 1 : r.below(n);
            v[at] = r.chance(1, 2) ? (T)r.next() : (T)(v[at] ^ (T)((T)1 << r.below(8 * sizeof(T))));
        }
    for(size_t i = 0; i < n; i++)
        c.mix((uint64_t)v[i] + 3);
    c.mix(n);
    c.note("n=%zu mode %d size %zu", n, mode, sizeof(T));
    if(n <= 40) {
        std::string s;
        for(auto x : v)
            s += std::to_string(x) + " ";
        c.note("[%s]", s.c_str());
    }
    return v;
}
template<typename T, typename F> void int_sort(Case &c, const char *name, size_t n, F f) {
    auto in = int_input<T>(c, n);
    T *p = (T *)malloc(n * sizeof(T) + (n == 0));
    memcpy(p, in.data(), n * sizeof(T));
    f(p, p + n);
    std::vector<T> out(p, p + n), want(in);
    free(p);
    std::sort(want.begin(), want.end());
    size_t bad = 0;
    while(bad < n && out[bad] == want[bad])
        ++bad;
    EXPECT(bad == n, "sort.integers", "%s of %zu %zu-byte integers: position %zu is %s, expected %s", name, n, sizeof(T), bad,
           std::to_string(out[bad]).c_str(), std::to_string(want[bad]).c_str());
    c.cover(name);
}
template<typename T> void ints_case(Case &c, size_t big) {
    auto &r = c.rng;
    int alg = r.below(7);
    size_t n = pick_size(c, alg == 0 ? 600 : big);
    int form = r.below(2);
    c.mix(alg);
    switch(alg) {
    case 5:
        if constexpr(std::is_unsigned_v<T>) {
            int_sort<T>(c, "radix_sort", n, [&](T *b, T *e) {
                form ? P::radix_sort(Span<T>(b, e - b)) : P::radix_sort(b, e);
            });
            break;
        }
        [[fallthrough]];
    case 6:
        if constexpr(std::is_unsigned_v<T>) {
            int_sort<T>(c, "bucketsort", n, [&](T *b, T *e) { P::bucketsort(b, e); });
            break;
        }
        alg = INTRO;
        [[fallthrough]];
    default:
        int_sort<T>(c, alg_name[alg], n, [&](T *b, T *e) { run_default(alg, form, b, e); });
    }
}

// floating point with the total order and the NaN-ignoring comparators
template<typename F> void float_case(Case &c, size_t big) {
    auto &r = c.rng;
    int alg = r.below(NALG);
    size_t n = pick_size(c, alg == INSERTION ? 600 : big);
    bool total = r.chance(1, 2);
    std::vector<F> in(n);
    const F special[] = {(F)0.0,      (F)-0.0,       (F)INFINITY, (F)-INFINITY, (F)NAN, (F)-NAN, std::numeric_limits<F>::denorm_min(),
                         std::numeric_limits<F>::max(), (F)1, (F)-1};
    int mode = r.below(3);
    for(auto &x : in) {
        if(mode == 0 || (mode == 1 && r.chance(1, 3)))
            x = special[r.below(10)];
        else
            x = (F)r.range(-50, 50) / 4;
        if(!total && std::isnan(x))
            x = 2;
    }
    c.note("%s n=%zu %s mode %d", alg_name[alg], n, total ? "total order" : "ignore nan", mode);
    for(auto x : in) {
        uint64_t u = 0;
        memcpy(&u, &x, sizeof x);
        c.mix(u);
    }
    F *p = (F *)malloc(n * sizeof(F) + (n == 0));
    memcpy(p, in.data(), n * sizeof(F));
    P::FloatTotalOrderComparator<F> ct;
    P::FloatIgnoreNanComparator<F> ci;
    int form = r.below(2);
    if(total)
        run_alg(alg, form, p, p + n, ct);
    else
        run_alg(alg, form, p, p + n, ci);
    std::vector<F> out(p, p + n);
    free(p);
    auto bits = [](F x) {
        typename std::conditional<sizeof(F) == 4, uint32_t, uint64_t>::type u;
        memcpy(&u, &x, sizeof x);
        return (uint64_t)u;
    };
    std::multiset<uint64_t> a, b;
    for(auto x : in)
        a.insert(bits(x));
    for(auto x : out)
        b.insert(bits(x));
    EXPECT(a == b, "sort.not-a-permutation", "%s: the values changed", alg_name[alg]);
    for(size_t i = 1; i < n; i++)
        EXPECT((total ? ct.compare(out[i - 1], out[i]) : ci.compare(out[i - 1], out[i])) <= 0, "sort.not-sorted",
               "%s of floats: [%zu] %g > %g", alg_name[alg], i, (double)out[i - 1], (double)out[i]);
    if(total) {
        // NaNs last, and -0 before +0 as compare() says
        size_t k = 0;
        while(k < n && !std::isnan(out[k]))
            ++k;
        for(size_t i = k; i < n; i++)
            EXPECT(std::isnan(out[i]), "sort.nan-order", "a number sorts after a NaN");
    }
}
size_t BIG(Case &c) { return c.thorough ? 12000 : 2500; }
} // namespace

// ---------------------------------------------------------------- P14, P15
VH_SUITE("P14", sort_tracked, 3) { sort_case<Tr>(c, false, BIG(c) / 2); }
VH_SUITE("P14", sort_plain, 4) { sort_case<Pl>(c, false, BIG(c)); }
VH_SUITE("P14", sort_big, 2) { sort_case<Big>(c, false, BIG(c)); }
VH_SUITE("P14", sort_own, 1) { sort_case<Own>(c, false, BIG(c) / 4); }
VH_SUITE("P14", sort_indirect, 2) { indirect_case<Pl>(c, false, BIG(c)); }
VH_SUITE("P14", sort_i8, 1) { ints_case<int8_t>(c, BIG(c)); }
VH_SUITE("P14", sort_u8, 2) { ints_case<uint8_t>(c, BIG(c)); }
VH_SUITE("P14", sort_u16, 2) { ints_case<uint16_t>(c, BIG(c) * 2); }
VH_SUITE("P14", sort_i32, 1) { ints_case<int32_t>(c, BIG(c)); }
VH_SUITE("P14", sort_u32, 2) { ints_case<uint32_t>(c, BIG(c)); }
VH_SUITE("P14", sort_i64, 1) { ints_case<int64_t>(c, BIG(c)); }
VH_SUITE("P14", sort_u64, 2) { ints_case<uint64_t>(c, BIG(c)); }
VH_SUITE("P14", sort_double, 2) { float_case<double>(c, BIG(c)); }
VH_SUITE("P14", sort_float, 1) { float_case<float>(c, BIG(c)); }
VH_ALSO(P09, sort_tracked, 5)
// short inputs over a tiny alphabet, covering every weak order of up to seven elements over time
VH_SUITE("P14", sort_short, 3) {
    auto &r = c.rng;
    for(int t = 0; t < 40; t++) {
        size_t n = r.below(9);
        std::vector<int> keys(n);
        for(auto &k : keys)
            k = (int)r.below(n < 6 ? 3 : 5);
        int kind = r.chance(1, 3) ? (int)r.below(NORDERS) : ASC;
        for(int alg = 0; alg < NALG; alg++) {
            Arr<Pl> a(c, keys, 2);
            arm(~0ull);
            run_alg(alg, 0, a.b(), a.e(), Cmp<Pl>{kind, 1});
            auto now = a.now();
            a.check_guards(c, alg_name[alg]);
            a.check_perm(c, now, alg_name[alg]);
            check_sorted(c, now, kind, alg == INSERTION || alg == MERGE, alg_name[alg]);
        }
        for(auto k : keys)
            c.mix(k + 1);
        c.mix(n * 10 + kind);
    }
    c.note("40 short inputs");
}
VH_SUITE("P15", stable_plain, 4) { sort_case<Pl>(c, true, BIG(c)); }
VH_SUITE("P15", stable_tracked, 2) { sort_case<Tr>(c, true, BIG(c) / 2); }
VH_SUITE("P15", stable_big, 1) { sort_case<Big>(c, true, BIG(c)); }
VH_SUITE("P15", stable_short, 2) {
    all_short(c, [&] {
        if(c.rng.chance(1, 6))
            indirect_case<Pl>(c, true, 10);
        else if(c.rng.chance(1, 4))
            sort_case<Tr>(c, true, 10);
        else
            sort_case<Pl>(c, true, 10);
    });
}
VH_SUITE("P14", sort_short_all, 2) {
    all_short(c, [&] {
        if(c.rng.chance(1, 8))
            indirect_case<Pl>(c, false, 10);
        else if(c.rng.chance(1, 4))
            sort_case<Tr>(c, false, 10);
        else
            sort_case<Pl>(c, false, 10);
    });
}
VH_SUITE("P15", stable_indirect, 3) { indirect_case<Pl>(c, true, BIG(c)); }
VH_ALSO(P14, stable_indirect, 1)
// lengths around and above two to the power of sixteen
namespace {
struct Giant {
    explicit Giant(Case &c, unsigned odds) {
        auto &r = c.rng;
        static const size_t b[] = {65535, 65536, 65537, 65538, 66000, 70000, 99999, 131071, 131072, 131073};
        if(r.chance(1, c.thorough ? 4 : odds)) {
            giant = r.chance(1, 3) ? 65537 + r.below(140000) : b[r.below(sizeof b / sizeof *b)];
            c.cover("giant-inputs");
        }
    }
    ~Giant() { giant = 0; }
};
} // namespace
VH_SUITE("P14", sort_giant, 1) {
    Giant g(c, 25);
    switch(c.rng.below(8)) {
    case 0:
    case 1:
    case 2:
        return sort_case<Pl>(c, false, 2500);
    case 3:
        return indirect_case<Pl>(c, c.rng.chance(1, 2), 2500);
    case 4:
        return ints_case<uint16_t>(c, 2500);
    case 5:
        return ints_case<uint32_t>(c, 2500);
    case 6:
        return ints_case<uint64_t>(c, 2500);
    default:
        return float_case<double>(c, 2500);
    }
}
// large and regular, but for one to four elements: what looks at samples does not see them
namespace {
struct Exceptions {
    explicit Exceptions(Case &c) {
        auto &r = c.rng;
        exceptions = true;
        giant = r.chance(1, 2) ? 0 : r.chance(1, 6) ? 4000 + r.below(c.thorough ? 30000 : 8000) : 300 + r.below(3800);
        c.cover("inputs-with-few-exceptions");
    }
    ~Exceptions() {
        exceptions = false;
        giant = 0;
    }
};
} // namespace
VH_SUITE("P14", sort_exceptions, 3) {
    Exceptions x(c);
    switch(c.rng.below(8)) {
    case 0:
    case 1:
        return sort_case<Pl>(c, false, 2500);
    case 2:
        return indirect_case<Pl>(c, c.rng.chance(1, 2), 2500);
    case 3:
        return ints_case<uint16_t>(c, 2500);
    case 4:
        return ints_case<uint32_t>(c, 2500);
    case 5:
        return ints_case<uint64_t>(c, 2500);
    case 6:
        return ints_case<int64_t>(c, 2500);
    default:
        return sort_case<Tr>(c, false, 2500);
    }
}
VH_SUITE("P15", stable_exceptions, 2) {
    Exceptions x(c);
    c.rng.chance(2, 3) ? sort_case<Pl>(c, true, 2500) : indirect_case<Pl>(c, true, 2500);
}
VH_SUITE("P15", stable_giant, 1) {
    Giant g(c, 40);
    c.rng.chance(2, 3) ? sort_case<Pl>(c, true, 2500) : indirect_case<Pl>(c, true, 2500);
}

// ---------------------------------------------------------------- P17: partitions
namespace {
struct Pred {
    int kind, arg;
    uint64_t salt;
    bool operator()(int key, int seq) const {
        switch(kind) {
        case 0:
            return key < arg;
        case 1:
            return (key & 1) == 0;
        case 2:
            return true;
        case 3:
            return false;
        case 4:
            return ((uint64_t)seq * 0x9E3779B97F4A7C15ull ^ salt) >> 63;
        case 5:
            return seq < arg;
        case 6:
            return seq >= arg;
        case 7:
            return seq % 7 == 0;
        }
        return seq == arg;
    }
};
Pred pick_pred(Case &c, size_t n) {
    auto &r = c.rng;
    Pred p{(int)r.below(9), 0, r.next()};
    p.arg = p.kind == 0 ? (int)r.below(n + 2) : (int)r.below(n + 1);
    c.note("predicate %d/%d", p.kind, p.arg);
    c.mix(p.kind * 1000 + p.arg);
    return p;
}
template<typename T> void partition_case(Case &c, bool stable, size_t big) {
    auto &r = c.rng;
    {
        size_t n = pick_size(c, big);
        auto keys = pick_keys(c, n);
        Pred pr = pick_pred(c, n);
        if(stable) { // moves as many elements as lie between the groups it joins: cut where that becomes too many
            uint64_t moved = 0, before = 0;
            for(size_t i = 0; i < n; i++)
                if(!pr(keys[i], (int)i))
                    ++before;
                else if((moved += i && !pr(keys[i - 1], (int)i - 1) ? before : 0) > 60000000) {
                    keys.resize(n = i);
                    c.note("cut to %zu", n);
                }
        }
        Arr<T> a(c, keys, r.chance(1, 2) ? 0 : 1 + r.below(3));
        arm(~0ull);
        uint64_t calls = 0;
        auto pred = [&](const T &t) {
            ++calls;
            return pr(t.key(), t.seq);
        };
        size_t at;
        const char *name = stable ? "stable_partition" : "partition";
        bool span = r.chance(1, 3);
        if(stable)
            at = span ? P::stable_partition(Span<T>(a.b(), n), pred) : P::stable_partition(a.b(), a.e(), pred) - a.b();
        else
            at = span ? P::partition(Span<T>(a.b(), n), pred) : P::partition(a.b(), a.e(), pred) - a.b();
        auto now = a.now();
        a.check_guards(c, name);
        a.check_perm(c, now, name);
        EXPECT(at <= n, "partition.point", "%s returned a point outside the range: %zu of %zu", name, at, n);
        for(size_t i = 0; i < n; i++)
            EXPECT(pr(now[i].first, now[i].second) == (i < at), "partition.wrong-side",
                   "%s of %zu: element %zu (key %d) is on the wrong side of %zu", name, n, i, now[i].first, at);
        if(stable)
            for(size_t i = 1; i < n; i++)
                if(i != at)
                    EXPECT(now[i - 1].second < now[i].second, "partition.not-stable",
                           "elements #%d and #%d on the same side changed places", now[i - 1].second, now[i].second);
        EXPECT(calls <= 2 * n + 4, "partition.too-many-calls", "%s of %zu called the predicate %llu times", name, n,
               (unsigned long long)calls);
    }
    vt::verify_none_live(c);
}
template<typename T> void rotate_case(Case &c, size_t big) {
    auto &r = c.rng;
    {
        size_t n = pick_size(c, big);
        auto keys = pick_keys(c, n);
        Arr<T> a(c, keys, r.chance(1, 2) ? 0 : 1 + r.below(3));
        int op = r.below(4);
        size_t mid = r.chance(1, 5) ? (r.chance(1, 2) ? 0 : n) : r.chance(1, 5) ? std::min<size_t>(n, 1) : r.below(n + 1);
        if(r.chance(1, 10) && n)
            mid = n - 1;
        c.note("op %d middle %zu", op, mid);
        c.mix(op * 100000 + mid);
        std::vector<KS> want(a.before);
        const char *name = "rotate";
        auto &m = vt::mon();
        uint64_t m0 = m.moves + m.assigns;
        if(op <= 1) {
            std::rotate(want.begin(), want.begin() + mid, want.end());
            T *ret = op == 0 ? P::rotate(a.b(), a.b() + mid, a.e()) : P::rotate(Span<T>(a.b(), n), mid);
            EXPECT((size_t)(ret - a.b()) == n - mid, "rotate.return", "rotate(%zu of %zu) returned %td", mid, n, ret - a.b());
        } else if(op == 2) {
            name = "rotate_last_to_front";
            if(n)
                std::rotate(want.begin(), want.end() - 1, want.end());
            P::rotate_last_to_front(a.b(), a.e());
        } else {
            name = "rotate_first_to_back";
            if(n)
                std::rotate(want.begin(), want.begin() + 1, want.end());
            P::rotate_first_to_back(a.b(), a.e());
        }
        uint64_t moved = m.moves + m.assigns - m0;
        EXPECT(moved <= 3 * n + 8, "rotate.too-many-moves", "%s of %zu did %llu moves", name, n, (unsigned long long)moved);
        auto now = a.now();
        a.check_guards(c, name);
        for(size_t i = 0; i < n; i++)
            EXPECT(now[i] == want[i], "rotate.wrong", "%s(%zu of %zu): position %zu holds #%d, expected #%d", name, mid, n, i,
                   now[i].second, want[i].second);
    }
    vt::verify_none_live(c);
}
template<typename T> void nth_case(Case &c, size_t big) {
    auto &r = c.rng;
    {
        size_t n = pick_size(c, big);
        auto keys = pick_keys(c, n);
        Arr<T> a(c, keys, r.chance(1, 2) ? 0 : 1 + r.below(3));
        size_t nth = r.chance(1, 6) ? n + r.below(3) : r.chance(1, 4) && n ? (r.chance(1, 2) ? 0 : n - 1) : r.below(n + 1);
        int op = r.below(7);
        bool dflt = op == 1 || op == 3 || op == 5;
        int kind = dflt ? ASC : (int)r.below(NORDERS);
        Cmp<T> cmp{kind, 1};
        static const char *names[] = {"nth_element", "nth_element default", "nth_element span", "nth_element span default",
                                      "partial_sort", "partial_sort default", "nth_element_heap"};
        const char *name = names[op];
        c.note("%s nth=%zu order=%d", name, nth, kind);
        c.mix(nth * 10 + op);
        arm((uint64_t)n * n * 4 + 10000);
        T *ret = nullptr;
        bool th = throws_py([&] {
            Span<T> sp(a.b(), n);
            switch(op) {
            case 0:
                ret = P::nth_element(a.b(), a.e(), nth, cmp);
                break;
            case 1:
                ret = P::nth_element(a.b(), a.e(), nth);
                break;
            case 2:
                ret = a.b() + P::nth_element(sp, nth, cmp);
                break;
            case 3:
                ret = a.b() + P::nth_element(sp, nth);
                break;
            case 4:
                ret = P::partial_sort(a.b(), a.e(), nth, cmp);
                break;
            case 5:
                ret = P::partial_sort(a.b(), a.e(), nth);
                break;
            case 6:
                ret = P::nth_element_heap(a.b(), a.e(), nth, cmp);
                break;
            }
        });
        EXPECT(th == (nth >= n), "nth.refusal", "%s(%zu of %zu): threw=%d", name, nth, n, th);
        auto now = a.now();
        a.check_guards(c, name);
        a.check_perm(c, now, name);
        if(!th) {
            EXPECT(ret == a.b() + nth, "nth.return", "%s(%zu of %zu) returned position %td", name, nth, n, ret - a.b());
            auto cmpks = [&](const KS &x, const KS &y) { return order(kind, x.first, x.second, y.first, y.second); };
            for(size_t i = 0; i < n; i++) {
                int o = cmpks(now[i], now[nth]);
                EXPECT(i < nth ? o <= 0 : o >= 0, "nth.wrong-side", "%s(%zu of %zu): element %zu (%d) vs nth (%d)", name, nth,
                       n, i, now[i].first, now[nth].first);
            }
            if(op == 4 || op == 5)
                check_sorted(c, now, kind, false, name, 0, nth + 1);
            auto sorted = a.before;
            std::stable_sort(sorted.begin(), sorted.end(), [&](auto &x, auto &y) { return cmpks(x, y) < 0; });
            EXPECT(cmpks(sorted[nth], now[nth]) == 0, "nth.wrong-value", "%s(%zu of %zu) is %d, expected %d", name, nth, n,
                   now[nth].first, sorted[nth].first);
        }
    }
    vt::verify_none_live(c);
}
template<typename T> void search_case(Case &c, size_t big) {
    auto &r = c.rng;
    {
        size_t n = pick_size(c, big);
        auto keys = pick_keys(c, n);
        int op = r.below(7);
        int kind = r.chance(1, 2) ? ASC : (int)r.below(NORDERS);
        auto ks = keys;
        std::vector<KS> ref;
        if(op == 0) {
            // lower_bound needs a sorted range
            std::stable_sort(ks.begin(), ks.end(), [&](int x, int y) { return order(kind, x, 0, y, 0) < 0; });
            if(kind == LEX)
                kind = ASC, std::stable_sort(ks.begin(), ks.end());
        }
        Arr<T> a(c, ks, 0);
        const T *b = a.b(), *e = a.e();
        Cmp<T> cmp{kind, 1};
        c.note("op %d order %d", op, kind);
        c.mix(op * 10 + kind);
        arm((uint64_t)n * 4 + 100);
        switch(op) {
        case 0: {
            for(int t = 0; t < 12; t++) {
                int probe = n && r.chance(2, 3) ? ks[r.below(n)] + (int)r.range(-1, 1) : (int)r.range(-10, 60);
                T value(probe, 0);
                size_t want = 0;
                while(want < n && order(kind, ks[want], 0, probe, 0) < 0)
                    ++want;
                uint64_t c0 = st.compares;
                const T *got = kind == ASC && r.chance(1, 2) ? P::lower_bound(b, e, value) : P::lower_bound(b, e, value, cmp);
                EXPECT(got == b + want, "lower_bound.wrong", "lower_bound(%d) in %zu elements (order %d) is %td, expected %zu",
                       probe, n, kind, got - b, want);
                EXPECT(st.compares - c0 <= lg(n) + 3, "lower_bound.steps", "%llu comparisons for %zu elements",
                       (unsigned long long)(st.compares - c0), n);
            }
            break;
        }
        case 1:
        case 2: {
            size_t want = 0;
            for(size_t i = 1; i < n; i++) {
                int o = order(kind, ks[i], (int)i, ks[want], (int)want);
                if(op == 1 ? o < 0 : o > 0)
                    want = i;
            }
            const T *got = op == 1 ? P::min_element(b, e, cmp) : P::max_element(b, e, cmp);
            EXPECT(got == (n ? b + want : e), "minmax.wrong", "%s of %zu (order %d) is at %td, expected %zu",
                   op == 1 ? "min_element" : "max_element", n, kind, got - b, want);
            if(op == 1) {
                size_t w2 = std::min_element(ks.begin(), ks.end()) - ks.begin();
                EXPECT(P::min_element(b, e) == b + w2, "minmax.wrong", "min_element with the default comparator");
            }
            break;
        }
        case 3: {
            size_t want = n;
            bool sorted = true;
            for(size_t i = 1; i < n && sorted; i++)
                if(order(kind, ks[i - 1], (int)i - 1, ks[i], (int)i) > 0)
                    sorted = false;
            (void)want;
            EXPECT(P::is_sorted(b, e, cmp) == sorted, "is_sorted.wrong", "is_sorted(%zu, order %d) expected %d", n, kind,
                   sorted);
            // break one place of a sorted range
            if(n >= 2) {
                std::vector<int> s2(ks);
                std::sort(s2.begin(), s2.end());
                size_t i = r.below(n - 1);
                std::swap(s2[i], s2[i + 1]);
                Arr<T> a2(c, s2, 0);
                EXPECT(P::is_sorted((const T *)a2.b(), (const T *)a2.e(), Cmp<T>{ASC, 1}) == (s2[i] == s2[i + 1]),
                       "is_sorted.wrong", "is_sorted misses or invents a swap at %zu of %zu", i, n);
            }
            break;
        }
        default: {
            Pred pr = pick_pred(c, n);
            uint64_t calls = 0;
            auto pred = [&](const T &t) {
                ++calls;
                return pr(t.key(), t.seq);
            };
            size_t w = 0;
            while(w < n && pr(ks[w], (int)w) == (op == 5))
                ++w;
            const T *got;
            if(op == 4)
                got = P::find_if(b, e, pred);
            else if(op == 5)
                got = P::find_if_not(b, e, pred);
            else {
                int target = n && r.chance(3, 4) ? ks[r.below(n)] : (int)r.range(-5, 5);
                w = std::find(ks.begin(), ks.end(), target) - ks.begin();
                T value(target, -9);
                got = P::find(b, e, value);
            }
            EXPECT(got == b + w, "find.wrong", "op %d over %zu elements: %td, expected %zu", op, n, got - b, w);
            EXPECT(calls <= w + 1, "find.too-many-calls", "%llu calls to reach %zu", (unsigned long long)calls, w);
        }
        }
        EXPECT(a.now() == a.before, "search.changed", "the data was changed");
    }
    vt::verify_none_live(c);
}
} // namespace
VH_SUITE("P17", partition_plain, 2) { partition_case<Pl>(c, false, BIG(c)); }
VH_SUITE("P17", partition_tracked, 2) { partition_case<Tr>(c, false, BIG(c) / 2); }
VH_SUITE("P17", stable_partition_tracked, 2) { partition_case<Tr>(c, true, BIG(c) / 4); }
VH_ALSO(P09, partition_tracked, 2)
VH_ALSO(P09, stable_partition_tracked, 2)
VH_SUITE("P15", stable_partition_plain, 3) { partition_case<Pl>(c, true, BIG(c) / 2); }
VH_ALSO(P17, stable_partition_plain, 1)
VH_SUITE("P17", rotate_tracked, 3) { rotate_case<Tr>(c, BIG(c) / 2); }
VH_SUITE("P17", rotate_big, 1) { rotate_case<Big>(c, BIG(c)); }
VH_ALSO(P09, rotate_tracked, 2)
VH_SUITE("P17", nth_tracked, 2) { nth_case<Tr>(c, BIG(c) / 2); }
VH_SUITE("P17", nth_plain, 2) { nth_case<Pl>(c, BIG(c)); }
VH_SUITE("P17", nth_big, 2) { nth_case<Big>(c, BIG(c)); }
VH_ALSO(P09, nth_tracked, 2)
VH_SUITE("P17", short_all, 3) {
    unsigned what = c.rng.below(5);
    all_short(c, [&] {
        switch(what) {
        case 0:
            return partition_case<Pl>(c, false, 10);
        case 1:
            return partition_case<Tr>(c, true, 10);
        case 2:
            return rotate_case<Tr>(c, 10);
        case 3:
            return nth_case<Pl>(c, 10);
        case 4:
            return search_case<Pl>(c, 10);
        }
    });
}
VH_SUITE("P15", stable_partition_short, 1) {
    all_short(c, [&] { partition_case<Pl>(c, true, 10); });
}
VH_SUITE("P17", search_plain, 3) { search_case<Pl>(c, BIG(c)); }
VH_SUITE("P17", search_tracked, 1) { search_case<Tr>(c, BIG(c) / 2); }
VH_SUITE("P17", giant_ranges, 1) {
    Giant g(c, 30);
    switch(c.rng.below(5)) {
    case 0:
        return partition_case<Pl>(c, c.rng.chance(1, 2), 2500);
    case 1:
    case 2:
        return nth_case<Pl>(c, 2500);
    case 3:
        return rotate_case<Pl>(c, 2500);
    default:
        return search_case<Pl>(c, 2500);
    }
}
VH_SUITE("P15", stable_partition_giant, 1) {
    Giant g(c, 60);
    partition_case<Pl>(c, true, 2500);
}
VH_SUITE("P17", find_values, 1) {
    auto &r = c.rng;
    // find over primitive values and strings; swap
    size_t n = r.below(40);
    std::vector<int> v(n);
    for(auto &x : v)
        x = (int)r.below(10);
    int t = (int)r.below(12);
    c.note("find %d in %zu", t, n);
    c.mix(n * 20 + t);
    for(auto x : v)
        c.mix(x);
    size_t w = std::find(v.begin(), v.end(), t) - v.begin();
    EXPECT((size_t)(P::find(v.data(), v.data() + n, t) - v.data()) == w, "find.wrong", "find(%d)", t);
    {
        vt::Tracked a(1), b(2), s;
        P::swap(a, b);
        EXPECT(a.val() == 2 && b.val() == 1, "swap.wrong", "swap gave %d %d", a.val(), b.val());
        P::swap(a, b, s);
        EXPECT(a.val() == 1 && b.val() == 2, "swap.wrong", "swap with scratch gave %d %d", a.val(), b.val());
        P::swap(a, a);
        P::swap(b, b, s);
        EXPECT(a.val() == 1 && b.val() == 2, "swap.self", "self swap gave %d %d", a.val(), b.val());
        int x = 5, y = 6, z;
        P::swap(x, y);
        P::swap(x, x);
        EXPECT(x == 6 && y == 5, "swap.wrong", "int swap");
        P::swap(x, y, z);
        EXPECT(x == 5 && y == 6, "swap.wrong", "int swap with scratch");
    }
    vt::verify_none_live(c);
}

// ---------------------------------------------------------------- P16: work and recursion
namespace {
// McIlroy's adversary: answers comparisons so that a quicksort picks bad pivots
struct Adversary {
    std::vector<int> *val;
    int *solid, *cand, gas;
    int compare(int x, int y) const {
        tick();
        auto &v = *val;
        if(v[x] == gas && v[y] == gas) {
            if(x == *cand)
                v[x] = (*solid)++;
            else
                v[y] = (*solid)++;
        }
        if(v[x] == gas)
            *cand = x;
        else if(v[y] == gas)
            *cand = y;
        return v[x] < v[y] ? -1 : v[x] > v[y];
    }
    bool equal(int x, int y) const { return (*val)[x] == (*val)[y]; }
};
// the same for elements that are not integers
struct AdvStruct {
    Adversary a;
    int compare(const Pl &x, const Pl &y) const { return a.compare(x.k, y.k); }
    bool equal(const Pl &x, const Pl &y) const { return a.equal(x.k, y.k); }
};
struct IntCmp {
    int compare(int a, int b) const {
        tick();
        return a < b ? -1 : a > b;
    }
    bool equal(int a, int b) const { return a == b; }
};
// Budgets are two to three times what the library needs in its worst case.
uint64_t budget(int what, size_t n) {
    double l = lg(n), N = (double)n;
    switch(what) { // worst seen: 1.85, 1.99, 1.9 and 1.4 N lg N
    case HEAP:
        return (uint64_t)(2.7 * N * l + 16 * N + 400);
    case INTRO:
        return (uint64_t)(4.5 * N * l + 32 * N + 800);
    case MERGE:
        return (uint64_t)(2.7 * N * l + 24 * N + 400);
    default: // nth_element
        return (uint64_t)(4 * N * l + 32 * N + 800);
    }
}
const size_t STACK_LIMIT = 192 * 1024;
void finish(Case &c, const char *name, size_t n, uint64_t bud) {
    c.note("%s n=%zu: %llu comparisons of %llu, stack %zu", name, n, (unsigned long long)st.compares,
           (unsigned long long)bud, st.depth);
    EXPECT(st.compares <= bud, "sort.too-many-steps", "%s of %zu: %llu comparisons, allowed %llu", name, n,
           (unsigned long long)st.compares, (unsigned long long)bud);
    EXPECT(st.depth <= STACK_LIMIT, "sort.stack", "%s of %zu used %zu bytes of stack", name, n, st.depth);
    c.cover("steps-measured-runs");
    c.cover("comparisons", st.compares);
}
template<typename T, typename C> void bounded(Case &c, int what, std::vector<T> &v, const C &cmp) {
    size_t n = v.size();
    uint64_t b = budget(what, n);
    arm(b);
    const char *name = what < NALG ? alg_name[what] : "nth_element";
    if(what < NALG)
        run_alg(what, 0, v.data(), v.data() + n, cmp);
    else if(n)
        P::nth_element(v.data(), v.data() + n, c.rng.below(n), cmp);
    finish(c, name, n, b);
}
const int WHATS[] = {HEAP, INTRO, MERGE, NALG};
} // namespace
VH_SUITE("P16", steps_adversary_int, 2) {
    auto &r = c.rng;
    size_t n = 1 + (r.chance(1, 3) ? r.below(c.thorough ? 60000 : 12000) : r.below(3000));
    int what = WHATS[r.below(4)];
    c.note("adversary int n=%zu algorithm %d", n, what);
    c.mix(n * 10 + what);
    std::vector<int> val(n), v(n);
    int solid = 0, cand = 0, gas = (int)n + 5;
    std::fill(val.begin(), val.end(), gas);
    std::iota(v.begin(), v.end(), 0);
    bounded(c, what, v, Adversary{&val, &solid, &cand, gas});
    // the permutation it constructed is also a killer without the adversary
    std::vector<int> k(val);
    bounded(c, what, k, IntCmp());
}
VH_SUITE("P16", steps_adversary_struct, 2) {
    auto &r = c.rng;
    size_t n = 1 + (r.chance(1, 3) ? r.below(c.thorough ? 60000 : 12000) : r.below(3000));
    int what = WHATS[r.below(4)];
    c.note("adversary struct n=%zu algorithm %d", n, what);
    c.mix(n * 10 + what);
    std::vector<int> val(n);
    std::vector<Pl> v(n);
    int solid = 0, cand = 0, gas = (int)n + 5;
    std::fill(val.begin(), val.end(), gas);
    for(size_t i = 0; i < n; i++)
        v[i] = Pl((int)i, (int)i);
    bounded(c, what, v, AdvStruct{Adversary{&val, &solid, &cand, gas}});
}
VH_SUITE("P16", steps_patterns, 4) {
    auto &r = c.rng;
    size_t n = r.chance(1, 2) ? r.below(c.thorough ? 100000 : 20000) : pick_size(c, 3000);
    int what = WHATS[r.below(4)];
    auto keys = pick_keys(c, n);
    if(r.chance(1, 3) && n > 4) { // median of three killer
        size_t h = n / 2;
        c.note("median-of-three killer");
        for(size_t i = 0; i < h; i++) {
            keys[i] = (int)(i & 1 ? h + i + !(h & 1) : i);
            keys[h + i] = (int)(2 * i + 1);
        }
    }
    c.mix(what);
    if(r.chance(1, 2)) {
        bounded(c, what, keys, IntCmp());
    } else {
        std::vector<Pl> v;
        for(size_t i = 0; i < n; i++)
            v.push_back(Pl(keys[i], (int)i));
        bounded(c, what, v, Cmp<Pl>{r.chance(1, 2) ? ASC : (int)r.below(NORDERS), 1});
    }
}
// stack depth and work of the algorithms that do not compare, on big inputs
VH_SUITE("P16", steps_big_rotate, 1) {
    auto &r = c.rng;
    size_t n = 1000 + r.below(c.thorough ? 2000000 : 250000);
    std::vector<Pl> v;
    for(size_t i = 0; i < n; i++)
        v.push_back(Pl((int)i, (int)i));
    struct Watch {
        static void note(Case &) {}
    };
    int op = r.below(3);
    size_t mid = r.chance(1, 2) ? 1 + r.below(3) : r.chance(1, 2) ? n - 1 - r.below(3) : r.below(n);
    c.note("op %d n=%zu mid %zu", op, n, mid);
    c.mix(n * 10 + op);
    if(op == 0) {
        P::rotate(v.data(), v.data() + mid, v.data() + n);
        for(size_t i = 0; i < n; i += 1 + n / 1000)
            EXPECT(v[i].k == (int)((i + mid) % n), "rotate.wrong", "rotate of %zu by %zu: [%zu]", n, mid, i);
    } else if(op == 1) {
        // one element that has to travel over all others
        auto p = P::stable_partition(v.data(), v.data() + n, [&](const Pl &x) { return (size_t)x.k >= n - 1 - mid % 3; });
        EXPECT((size_t)(p - v.data()) == 1 + mid % 3, "partition.point", "stable_partition of %zu", n);
    } else {
        auto p = P::partition(v.data(), v.data() + n, [&](const Pl &x) { return (size_t)x.k >= mid; });
        EXPECT((size_t)(p - v.data()) == n - mid, "partition.point", "partition of %zu at %zu", n, mid);
    }
    c.cover("steps-measured-runs");
}
// integer sorts: recursion must be bounded by the number of bits (ASan would report the overflow)
VH_SUITE("P16", steps_radix, 1) {
    auto &r = c.rng;
    size_t n = 33 + r.below(c.thorough ? 100000 : 20000);
    int op = r.below(4);
    c.note("op %d", op);
    if(op == 0)
        int_sort<uint64_t>(c, "radix_sort", n, [&](auto *b, auto *e) { P::radix_sort(b, e); });
    else if(op == 1)
        int_sort<uint16_t>(c, "radix_sort", n, [&](auto *b, auto *e) { P::radix_sort(b, e); });
    else if(op == 2)
        int_sort<uint64_t>(c, "bucketsort", n, [&](auto *b, auto *e) { P::bucketsort(b, e); });
    else
        int_sort<uint8_t>(c, "bucketsort", n, [&](auto *b, auto *e) { P::bucketsort(b, e); });
    c.cover("steps-measured-runs");
}
// library comparator overloads and indirect sorting under the adversary's permutation
VH_SUITE("P16", steps_indirect, 1) {
    auto &r = c.rng;
    size_t n = 1 + r.below(c.thorough ? 30000 : 6000);
    auto keys = pick_keys(c, n);
    std::vector<Pl> v;
    for(size_t i = 0; i < n; i++)
        v.push_back(Pl(keys[i], (int)i));
    uint64_t b = budget(INTRO, n);
    arm(b);
    bool stable = r.chance(1, 2);
    auto ix = stable ? P::indirect_stable_sort(v.data(), v.data() + n, Cmp<Pl>{ASC, 1})
                     : P::indirect_sort(v.data(), v.data() + n, Cmp<Pl>{ASC, 1});
    EXPECT(ix.size() == n, "indirect.size", "size");
    finish(c, "indirect_sort", n, b);
}
