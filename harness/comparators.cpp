// P18: comparators are consistent orders, clamp stays in range.
#include "common26.hpp"
#include <cmath>
#include <limits>
#include <pystd2026_btree.hpp>
using vh::Case;

namespace {
// The order axioms over a pool of values. cmp returns a sign, eq is the matching equality.
template<typename T, typename C, typename E>
void axioms(Case &c, const char *what, const std::vector<T> &v, C cmp, E eq, bool eq_means_zero = true) {
    size_t n = v.size();
    std::vector<int> m(n * n);
    for(size_t i = 0; i < n; i++)
        for(size_t j = 0; j < n; j++)
            m[i * n + j] = sgn(cmp(v[i], v[j]));
    for(size_t i = 0; i < n; i++) {
        EXPECT(m[i * n + i] == 0, "order.not-reflexive", "%s: value %zu is not equivalent to itself", what, i);
        for(size_t j = 0; j < n; j++) {
            EXPECT(m[i * n + j] == -m[j * n + i], "order.not-antisymmetric", "%s: %zu,%zu: %d and %d", what, i, j,
                   m[i * n + j], m[j * n + i]);
            bool e = eq(v[i], v[j]);
            EXPECT(e == eq(v[j], v[i]), "order.equality-asymmetric", "%s: %zu,%zu", what, i, j);
            if(eq_means_zero)
                EXPECT(e == (m[i * n + j] == 0), "order.equal-disagrees", "%s: %zu,%zu: equal %d, compare %d", what, i, j, e,
                       m[i * n + j]);
            else if(e)
                EXPECT(m[i * n + j] == 0, "order.equal-disagrees", "%s: %zu,%zu: equal but compare %d", what, i, j,
                       m[i * n + j]);
        }
    }
    for(size_t i = 0; i < n; i++)
        for(size_t j = 0; j < n; j++) {
            if(m[i * n + j] > 0)
                continue;
            for(size_t k = 0; k < n; k++) {
                if(m[j * n + k] > 0)
                    continue;
                int want = m[i * n + j] || m[j * n + k] ? -1 : 0;
                EXPECT(m[i * n + k] == want, "order.not-transitive", "%s: %zu<=%zu<=%zu but %d", what, i, j, k, m[i * n + k]);
            }
        }
    c.cover("order-triples", n * n * n);
}
template<typename T> T int_value(vh::Rng &r) {
    using L = std::numeric_limits<T>;
    switch(r.below(4)) {
    case 0:
        return (T)(L::min() + (T)r.below(3));
    case 1:
        return (T)(L::max() - (T)r.below(3));
    case 2:
        return (T)((int)r.below(5) - 2);
    default:
        return (T)r.next();
    }
}
template<typename T> struct Box { // std::vector<bool> is not a vector
    T x;
    operator T() const { return x; }
};
template<typename T> void int_orders(Case &c, const char *what) {
    std::vector<Box<T>> v;
    size_t n = 3 + c.rng.below(8);
    for(size_t i = 0; i < n; i++)
        v.push_back(i && c.rng.chance(1, 4) ? v[c.rng.below(i)] : Box<T>{int_value<T>(c.rng)});
    c.mixs(v.data(), v.size() * sizeof(T));
    c.note("%s x%zu", what, n);
    P::DefaultComparator<T> d;
    P::OnlyLessComparator<T> l;
    axioms(c, what, v, [&](T a, T b) { return d.compare(a, b); }, [&](T a, T b) { return d.equal(a, b); });
    axioms(c, what, v, [&](T a, T b) { return l.compare(a, b); }, [&](T a, T b) { return l.equal(a, b); });
    for(T a : v)
        for(T b : v) {
            int want = a < b ? -1 : a > b;
            EXPECT(sgn(d.compare(a, b)) == want, "default.compare", "DefaultComparator<%s>(%lld, %lld) = %d", what, (long long)a,
                   (long long)b, d.compare(a, b));
            EXPECT(sgn(l.compare(a, b)) == want, "less.compare", "OnlyLessComparator<%s>(%lld, %lld) = %d", what, (long long)a,
                   (long long)b, l.compare(a, b));
        }
}
template<typename T> T float_value(vh::Rng &r) {
    using L = std::numeric_limits<T>;
    static const T sp[] = {T(0.0), T(-0.0), L::infinity(), -L::infinity(), L::quiet_NaN(), -L::quiet_NaN(), L::denorm_min(),
                           -L::denorm_min(), L::min(), -L::min(), L::max(), L::lowest(), T(1), T(-1), L::epsilon(),
                           T(1) + L::epsilon()};
    if(r.chance(2, 3))
        return sp[r.below(sizeof sp / sizeof *sp)];
    T x;
    uint64_t bits = r.next();
    memcpy(&x, &bits, sizeof x);
    return x;
}
template<typename T> void float_orders(Case &c, const char *what) {
    std::vector<T> v, nonan;
    size_t n = 3 + c.rng.below(9);
    for(size_t i = 0; i < n; i++)
        v.push_back(float_value<T>(c.rng));
    c.mixs(v.data(), v.size() * sizeof(T));
    for(T x : v)
        if(!std::isnan(x))
            nonan.push_back(x);
    c.note("%s x%zu", what, n);
    P::FloatTotalOrderComparator<T> t;
    P::FloatIgnoreNanComparator<T> g;
    axioms<T>(c, what, v, [&](T a, T b) { return t.compare(a, b); }, [&](T a, T b) { return t.equal(a, b); });
    axioms<T>(c, what, v, [&](T a, T b) { return P::total_order_compare(a, b); },
              [&](T a, T b) { return P::total_order_equal(a, b); });
    axioms<T>(c, what, nonan, [&](T a, T b) { return g.compare(a, b); }, [&](T a, T b) { return g.equal(a, b); });
    for(T a : v)
        for(T b : v) {
            bool na = std::isnan(a), nb = std::isnan(b);
            int want = na || nb ? (int)na - (int)nb : a < b ? -1 : a > b;
            EXPECT(sgn(t.compare(a, b)) == want, "float.compare", "%s(%a, %a) = %d", what, (double)a, (double)b, t.compare(a, b));
            EXPECT(t.equal(a, b) == (want == 0), "float.equal", "%s equal(%a, %a)", what, (double)a, (double)b);
            if(!na && !nb) {
                EXPECT(sgn(g.compare(a, b)) == want, "float.ignore-nan", "%s(%a, %a)", what, (double)a, (double)b);
                EXPECT(g.equal(a, b) == (a == b), "float.ignore-nan-equal", "%s(%a, %a)", what, (double)a, (double)b);
            }
        }
}
// ------------------------------------------------------------------ texts
std::string near_text(vh::Rng &r, const std::vector<std::string> &pool, bool nat) {
    if(!pool.empty() && r.chance(1, 2)) {
        std::string s = pool[r.below(pool.size())];
        switch(r.below(5)) {
        case 0:
            return s;
        case 1:
            return s.substr(0, r.below(s.size() + 1));
        case 2:
            return s + (nat ? std::string(1, "0019a.~"[r.below(7)]) : gtext(r, 1 + r.below(2)));
        case 3:
            if(!s.empty())
                s[r.below(s.size())] = nat ? "0123789ab/:\xc3"[r.below(12)] : (char)(1 + r.below(255));
            return s;
        default:
            if(nat)
                s.insert(r.below(s.size() + 1), std::string(1 + r.below(3), r.chance(1, 2) ? '0' : '1'));
            return s;
        }
    }
    if(!nat)
        return gtext(r, gsize(r, 40));
    std::string s;
    size_t parts = r.below(5);
    for(size_t i = 0; i < parts; i++)
        switch(r.below(6)) {
        case 0:
            s += std::to_string(r.below(130));
            break;
        case 1: {
            static const char *big[] = {"2147483647", "2147483648", "4294967296", "4294967297", "9223372036854775807",
                                        "9223372036854775808", "18446744073709551615", "18446744073709551616",
                                        "18446744073709551617", "340282366920938463463374607431768211456",
                                        "99999999999999999999999999999999999", "000000000000000000000000000000000001"};
            s += big[r.below(12)];
            break;
        }
        case 2:
            s += std::string(1 + r.below(3), '0');
            break;
        case 3:
            s += gtext(r, 1 + r.below(3));
            break;
        default:
            s += "ab-./:;ABZ~ "[r.below(12)];
        }
    return s;
}
bool digit(char ch) { return ch >= '0' && ch <= '9'; }
// what natural order means: runs of digits are one number, numbers come before other characters
struct Tok {
    bool num;
    std::string digits;
    char ch;
};
std::vector<Tok> tokens(const std::string &s) {
    std::vector<Tok> t;
    for(size_t i = 0; i < s.size();) {
        if(digit(s[i])) {
            size_t j = i;
            while(j < s.size() && digit(s[j]))
                ++j;
            std::string d = s.substr(i, j - i);
            size_t z = d.find_first_not_of('0');
            t.push_back({true, z == std::string::npos ? "" : d.substr(z), 0});
            i = j;
        } else {
            t.push_back({false, "", s[i]});
            ++i;
        }
    }
    return t;
}
int natural_model(const std::string &a, const std::string &b) {
    auto x = tokens(a), y = tokens(b);
    for(size_t i = 0;; i++) {
        if(i == x.size() || i == y.size())
            return i == x.size() ? (i == y.size() ? 0 : -1) : 1;
        if(x[i].num != y[i].num)
            return x[i].num ? -1 : 1;
        if(x[i].num) {
            if(x[i].digits.size() != y[i].digits.size())
                return x[i].digits.size() < y[i].digits.size() ? -1 : 1;
            int k = x[i].digits.compare(y[i].digits);
            if(k)
                return sgn(k);
        } else if(x[i].ch != y[i].ch)
            return (unsigned char)x[i].ch < (unsigned char)y[i].ch ? -1 : 1;
    }
}
bool ascii(const std::string &s) {
    for(unsigned char ch : s)
        if(ch >= 128)
            return false;
    return true;
}
} // namespace

VH_SUITE("P18", order_integers, 3) {
    switch(c.rng.below(12)) {
    case 0: return int_orders<bool>(c, "bool");
    case 1: return int_orders<char>(c, "char");
    case 2: return int_orders<signed char>(c, "signed char");
    case 3: return int_orders<unsigned char>(c, "unsigned char");
    case 4: return int_orders<short>(c, "short");
    case 5: return int_orders<unsigned short>(c, "unsigned short");
    case 6: return int_orders<int>(c, "int");
    case 7: return int_orders<unsigned int>(c, "unsigned int");
    case 8: return int_orders<long>(c, "long");
    case 9: return int_orders<unsigned long>(c, "unsigned long");
    case 10: return int_orders<long long>(c, "long long");
    case 11: return int_orders<unsigned long long>(c, "unsigned long long");
    }
}
VH_SUITE("P18", order_floats, 3) {
    if(c.rng.chance(1, 2))
        float_orders<float>(c, "float");
    else
        float_orders<double>(c, "double");
}
VH_SUITE("P18", order_natural, 4) {
    std::vector<std::string> s;
    size_t n = 3 + c.rng.below(6);
    for(size_t i = 0; i < n; i++) {
        s.push_back(near_text(c.rng, s, true));
        c.mixs(s.back().data(), s.back().size());
        c.note("%zu: %s", i, vh::show(s.back()).c_str());
    }
    std::vector<vh::Exact *> ex;
    std::vector<P::CStringView> v;
    for(auto &x : s) {
        ex.push_back(new vh::Exact(x));
        v.push_back(P::CStringView(ex.back()->p, ex.back()->n));
    }
    struct Free {
        std::vector<vh::Exact *> &e;
        ~Free() {
            for(auto *p : e)
                delete p;
        }
    } fr{ex};
    axioms(c, "natural_order", v, [](auto &a, auto &b) { return a.natural_order(b); }, [](auto &a, auto &b) { return a == b; },
           false);
    for(size_t i = 0; i < n; i++)
        for(size_t j = 0; j < n; j++) {
            int got = sgn(v[i].natural_order(v[j]));
            if(ascii(s[i]) && ascii(s[j]))
                EXPECT(got == natural_model(s[i], s[j]), "natural.wrong", "natural_order(%s, %s) = %d", vh::show(s[i]).c_str(),
                       vh::show(s[j]).c_str(), got);
        }
}
VH_SUITE("P18", order_texts, 4) {
    std::vector<std::string> s;
    size_t n = 3 + c.rng.below(6);
    for(size_t i = 0; i < n; i++) {
        s.push_back(near_text(c.rng, s, false));
        c.mixs(s.back().data(), s.back().size());
        c.note("%zu: %s", i, vh::show(s.back()).c_str());
    }
    std::vector<P::CString> cs;
    std::vector<P::Bytes> bs;
    std::vector<P::CStringView> vs;
    for(auto &x : s) {
        cs.push_back(P::CString(x.data(), x.size()));
        bs.push_back(P::Bytes(x.data(), x.size()));
    }
    for(auto &x : s)
        vs.push_back(P::CStringView(x.data(), x.size()));
    P::DefaultComparator<P::CString> dc;
    P::DefaultComparator<P::Bytes> db;
    P::OnlyLessComparator<P::CStringView> ov;
    P::OnlyLessComparator<P::Bytes> ob;
    axioms(c, "CString", cs, [&](auto &a, auto &b) { return dc.compare(a, b); }, [&](auto &a, auto &b) { return dc.equal(a, b); });
    axioms(c, "Bytes", bs, [&](auto &a, auto &b) { return db.compare(a, b); }, [&](auto &a, auto &b) { return db.equal(a, b); });
    axioms(c, "CStringView", vs, [&](auto &a, auto &b) { return ov.compare(a, b); },
           [&](auto &a, auto &b) { return ov.equal(a, b); });
    axioms(c, "Bytes<", bs, [&](auto &a, auto &b) { return ob.compare(a, b); }, [&](auto &a, auto &b) { return ob.equal(a, b); });
    for(size_t i = 0; i < n; i++)
        for(size_t j = 0; j < n; j++) {
            int want = ulex(s[i], s[j]);
            EXPECT(sgn(cs[i] <=> cs[j]) == want, "cstring.order", "CString %s <=> %s = %d", vh::show(s[i]).c_str(),
                   vh::show(s[j]).c_str(), cs[i] <=> cs[j]);
            EXPECT((cs[i] < cs[j]) == (want < 0) && (cs[i] >= cs[j]) == (want >= 0) && (cs[i] > cs[j]) == (want > 0) &&
                       (cs[i] <= cs[j]) == (want <= 0) && (cs[i] == cs[j]) == (want == 0),
                   "cstring.relational", "%s, %s", vh::show(s[i]).c_str(), vh::show(s[j]).c_str());
            EXPECT(sgn(bs[i] <=> bs[j]) == want && (bs[i] < bs[j]) == (want < 0) && (bs[i] > bs[j]) == (want > 0) &&
                       (bs[i] == bs[j]) == (want == 0),
                   "bytes.order", "Bytes %s, %s", vh::show(s[i]).c_str(), vh::show(s[j]).c_str());
            EXPECT((vs[i] < vs[j]) == (want < 0) && (vs[i] == vs[j]) == (want == 0), "view.order", "view %s, %s",
                   vh::show(s[i]).c_str(), vh::show(s[j]).c_str());
            EXPECT((cs[i] == vs[j]) == (want == 0) && (cs[i] == cs[j].c_str()) == (want == 0), "mixed.equality", "%s, %s",
                   vh::show(s[i]).c_str(), vh::show(s[j]).c_str());
        }
}
VH_SUITE("P18", order_unicode, 2) {
    auto &r = c.rng;
    static const char *cps[] = {"a", "b", "\x7f", "\xc2\x80", "\xc3\xa4", "\xdf\xbf", "\xe0\xa0\x80", "\xed\x9f\xbf", "\xee\x80\x80",
                                "\xef\xbf\xbf", "\xf0\x90\x80\x80", "\xf4\x8f\xbf\xbf"};
    std::vector<std::string> s;
    std::vector<P::U8String> u;
    size_t n = 3 + r.below(5);
    for(size_t i = 0; i < n; i++) {
        std::string t = i && r.chance(1, 3) ? s[r.below(i)] : "";
        size_t k = r.below(4);
        while(k--)
            t += cps[r.below(12)];
        s.push_back(t);
        c.mixs(t.data(), t.size());
        c.note("%zu: %s", i, vh::show(t).c_str());
        u.push_back(P::U8String(t.data(), t.size()));
    }
    P::DefaultComparator<P::U8String> d;
    axioms(c, "U8String", u, [&](auto &a, auto &b) { return d.compare(a, b); }, [&](auto &a, auto &b) { return d.equal(a, b); });
    for(size_t i = 0; i < n; i++)
        for(size_t j = 0; j < n; j++)
            EXPECT(sgn(u[i] <=> u[j]) == ulex(s[i], s[j]), "u8.order", "%s <=> %s", vh::show(s[i]).c_str(), vh::show(s[j]).c_str());
    // iterators into one text are ordered by position
    std::vector<P::ValidU8Iterator> it;
    auto view = u[0].view();
    for(auto p = view.begin();; ++p) {
        it.push_back(p);
        if(p == view.end())
            break;
    }
    for(size_t i = 0; i < it.size(); i++)
        for(size_t j = 0; j < it.size(); j++)
            EXPECT(sgn(it[i] <=> it[j]) == sgn((int64_t)i - (int64_t)j) && (it[i] == it[j]) == (i == j) &&
                       (it[i] != it[j]) == (i != j),
                   "u8.iterator-order", "iterators %zu, %zu", i, j);
}
VH_SUITE("P18", order_sequences, 2) {
    auto &r = c.rng;
    std::vector<std::vector<int>> m;
    size_t n = 3 + r.below(4);
    for(size_t i = 0; i < n; i++) {
        std::vector<int> v;
        if(i && r.chance(1, 2))
            v = m[r.below(i)];
        if(!v.empty() && r.chance(1, 3))
            v[r.below(v.size())] ^= (int)r.below(2);
        else if(r.chance(1, 2))
            v.push_back((int)r.below(3));
        m.push_back(v);
        for(int x : v)
            c.mix(x);
        c.mix(99);
    }
    std::vector<P::Vector<int>> v(n);
    for(size_t i = 0; i < n; i++)
        for(int x : m[i])
            v[i].push_back(x);
    for(size_t i = 0; i < n; i++)
        for(size_t j = 0; j < n; j++)
            EXPECT((v[i] == v[j]) == (m[i] == m[j]), "vector.equality", "vectors %zu and %zu", i, j);
}
VH_SUITE("P18", clamp_values, 3) {
    auto &r = c.rng;
    for(int k = 0; k < 8; k++) {
        int64_t v = int_value<int64_t>(r), a = int_value<int64_t>(r), b = int_value<int64_t>(r);
        if(a > b)
            std::swap(a, b);
        if(r.chance(1, 4))
            v = r.chance(1, 2) ? a : b;
        if(r.chance(1, 4))
            v = (int64_t)((uint64_t)v + r.below(3) - 1);
        c.mix(v), c.mix(a), c.mix(b);
        int64_t got = P::clamp(v, a, b), want = v < a ? a : v > b ? b : v;
        EXPECT(got == want, "clamp.integer", "clamp(%lld, %lld, %lld) = %lld", (long long)v, (long long)a, (long long)b,
               (long long)got);
        double d = float_value<double>(r), x = float_value<double>(r), y = float_value<double>(r);
        if(x > y)
            std::swap(x, y);
        double dg = P::clamp(d, x, y);
        if(std::isnan(d) || std::isnan(x) || std::isnan(y))
            continue; // what NaN does here is not claimed
        double dw = d < x ? x : d > y ? y : d;
        EXPECT(dg == dw, "clamp.double", "clamp(%a, %a, %a) = %a", d, x, y, dg);
    }
}
