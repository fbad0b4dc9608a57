// P13: Optional, Expected, Variant, unique_ptr, unique_arr, Span. P09 through Tracked payloads.
#include "common26.hpp"
#include "tracked.hpp"
#include <pystd2026_variant.hpp>
#include <type_traits>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
using P::Expected;
using P::Optional;
using P::Span;
using P::unique_arr;
using P::unique_ptr;
using P::Unexpected;
using P::Variant;
using vh::Case;

namespace {
// ---------------------------------------------------------------- Optional
template<typename T> void check_opt(Case &c, Optional<T> &o, bool has, int val, const char *op) {
    const Optional<T> &co = o;
    EXPECT((bool)o == has && (bool)co == has, "optional.state", "after %s: engaged=%d, expected %d", op, (bool)o, has);
    if(has) {
        EXPECT((*o).val() == val && (*co).val() == val && o->val() == val && co->val() == val &&
                   o.value().val() == val && co.value().val() == val,
               "optional.value", "after %s: holds %d, expected %d", op, (*co).val(), val);
        EXPECT(((uintptr_t)&*o) % alignof(T) == 0 && &*o == &o.value(), "optional.storage", "misplaced value");
    } else {
        EXPECT(throws_py([&] { *o; }) && throws_py([&] { *co; }) && throws_py([&] { (void)o->val(); }) &&
                   throws_py([&] { (void)co->val(); }) && throws_py([&] { o.value(); }) &&
                   throws_py([&] { co.value(); }),
               "optional.empty-access", "after %s: access to an empty Optional did not throw", op);
    }
}
template<typename T> void optional_history(Case &c) {
    auto &r = c.rng;
    {
        enum { N = 3 };
        struct M {
            bool has = false;
            int val = 0;
        };
        Optional<T> o[N];
        M m[N];
        int fresh = 0;
        for(int s = 0, n = 8 + r.below(c.thorough ? 120 : 50); s < n; s++) {
            int i = r.below(N), j = r.below(N);
            const char *op = "?";
            int val = ++fresh;
            switch(r.below(14)) {
            case 0:
                op = "= T&&";
                c.note("o%d = %d", i, val);
                o[i] = T(val);
                m[i] = M{true, val};
                break;
            case 1: {
                op = "= const T&";
                c.note("o%d = const %d", i, val);
                const T t(val);
                o[i] = t;
                m[i] = M{true, val};
                EXPECT(t.val() == val, "optional.copy-source", "assignment changed its source");
                break;
            }
            case 2:
                op = "reset";
                c.note("o%d.reset", i);
                o[i].reset();
                m[i].has = false;
                break;
            case 3:
            case 4:
                op = "move assign";
                c.note("o%d = move(o%d)", i, j);
                o[i] = P::move(o[j]);
                if(i != j) {
                    m[i] = m[j];
                    m[j].has = false;
                }
                break;
            case 5:
            case 6:
                op = "copy assign";
                c.note("o%d = o%d", i, j);
                o[i] = (const Optional<T> &)o[j];
                m[i] = m[j];
                break;
            case 7: {
                op = "copy construct";
                c.note("copy of o%d", j);
                Optional<T> t((const Optional<T> &)o[j]);
                check_opt(c, t, m[j].has, m[j].val, op);
                Optional<T> t2(o[j]);
                check_opt(c, t2, m[j].has, m[j].val, op);
                t = T(-3);
                break;
            }
            case 8: {
                op = "move construct and back";
                c.note("o%d moved out and back", i);
                Optional<T> t(P::move(o[i]));
                check_opt(c, t, m[i].has, m[i].val, op);
                EXPECT(!o[i], "optional.moved-from", "a moved-from Optional still claims to hold a value");
                o[i] = P::move(t);
                break;
            }
            case 9: {
                op = "construct from value";
                c.note("o%d = Optional(%d)", i, val);
                if(val & 1) {
                    Optional<T> t{T(val)};
                    check_opt(c, t, true, val, op);
                    o[i] = P::move(t);
                } else {
                    const T x(val);
                    Optional<T> t(x);
                    check_opt(c, t, true, val, op);
                    o[i] = P::move(t);
                }
                m[i] = M{true, val};
                break;
            }
            case 10:
                op = "= own value";
                if(!m[i].has)
                    continue;
                c.note("o%d = *o%d", i, i);
                if(val & 1)
                    o[i] = (const T &)*o[i];
                else
                    o[i] = P::move(*o[i]);
                break;
            case 11:
                op = "= other's value";
                if(!m[j].has || i == j)
                    continue;
                c.note("o%d = *o%d", i, j);
                o[i] = (const T &)*o[j];
                m[i] = m[j];
                break;
            case 12:
                op = "write through";
                if(!m[i].has)
                    continue;
                c.note("*o%d = %d", i, val);
                *o[i] = T(val);
                m[i].val = val;
                break;
            case 13:
                op = "= {}";
                c.note("o%d = Optional()", i);
                o[i] = Optional<T>();
                m[i].has = false;
                break;
            }
            for(int k = 0; k < N; k++)
                check_opt(c, o[k], m[k].has, m[k].val, op);
            c.mix(r.s[0]);
        }
    }
    vt::verify_none_live(c);
}

// ---------------------------------------------------------------- Expected
struct Err : vt::Tracked {
    using Tracked::Tracked;
};
typedef Expected<vt::Tracked, Err> Ex;
// true if f ends the process deliberately, or throws
std::string last_child;
bool refuses(Case &c, std::function<void()> f) {
    (void)c;
    auto r = vh::run_child([&](int) {
        try {
            f();
        } catch(const P::PyException &) {
            _exit(99);
        }
        _exit(0);
    });
    last_child = std::to_string(r.code) + " " + r.err.substr(0, 1000);
    if(r.code == 99)
        return true;
    if(r.err.find("runtime error") != std::string::npos)
        return false;
    return r.code == -SIGABRT || r.err.find("ERROR: AddressSanitizer: ABRT") != std::string::npos;
}
} // namespace

VH_SUITE("P13", optional_tracked, 4) { optional_history<vt::Tracked>(c); }
VH_SUITE("P13", optional_heap, 1) { optional_history<vt::Heap>(c); }
VH_SUITE("P13", optional_plain, 1) { optional_history<vt::Plain>(c); }
VH_SUITE("P13", optional_aligned, 1) { optional_history<vt::Aligned>(c); }
VH_SUITE("P13", optional_very_aligned, 1) { optional_history<vt::VeryAligned>(c); }
VH_ALSO(P09, optional_tracked, 3)

VH_SUITE("P13", optional_pointer, 1) {
    auto &r = c.rng;
    int cells[3] = {10, 20, 30};
    Optional<int *> o[2];
    int *m[2] = {};
    for(int s = 0, n = 5 + r.below(40); s < n; s++) {
        int i = r.below(2), j = r.below(2);
        switch(r.below(6)) {
        case 0:
            m[i] = &cells[r.below(3)];
            c.note("o%d = &cell", i);
            o[i] = Optional<int *>(m[i]);
            break;
        case 1:
            c.note("o%d.reset", i);
            o[i].reset();
            m[i] = nullptr;
            break;
        case 2:
            c.note("o%d = o%d", i, j);
            o[i] = (const Optional<int *> &)o[j];
            m[i] = m[j];
            break;
        case 3: {
            c.note("copy of o%d", j);
            Optional<int *> t(o[j]);
            EXPECT((bool)t == (m[j] != nullptr) && (!t || t.value() == m[j]), "optional_ptr.copy", "copy differs");
            break;
        }
        case 4: {
            Optional<int *> t;
            EXPECT(!t && throws_py([&] { *t; }), "optional_ptr.default", "default Optional<T*> is not empty");
            break;
        }
        case 5:
            if(m[i]) {
                *o[i] = (int)r.below(1000);
                EXPECT(*m[i] == *o[i], "optional_ptr.deref", "write through the pointer");
            }
            break;
        }
        for(int k = 0; k < 2; k++) {
            const auto &co = o[k];
            EXPECT((bool)co == (m[k] != nullptr), "optional_ptr.state", "state");
            if(m[k])
                EXPECT(&*o[k] == m[k] && &*co == m[k] && o[k].value() == m[k] && co.value() == m[k], "optional_ptr.value",
                       "pointer differs");
            else
                EXPECT(throws_py([&] { *o[k]; }) && throws_py([&] { *co; }) && throws_py([&] { o[k].value(); }) &&
                           throws_py([&] { co.value(); }),
                       "optional_ptr.empty-access", "access to an empty Optional<T*> did not throw");
        }
        c.mix(r.s[0]);
    }
}

namespace {
void check_exp(Case &c, Ex &e, int st, int val, const char *op) {
    EXPECT(e.has_value() == (st == 1) && e.has_error() == (st == 2) && (bool)e == (st == 1), "expected.state",
           "after %s: has_value %d has_error %d, expected state %d", op, e.has_value(), e.has_error(), st);
    if(st == 1)
        EXPECT(e.value().val() == val, "expected.value", "after %s: value %d, expected %d", op, e.value().val(), val);
    if(st == 2)
        EXPECT(e.error().val() == val, "expected.error", "after %s: error %d, expected %d", op, e.error().val(), val);
}
} // namespace
VH_SUITE("P13", expected_history, 4) {
    auto &r = c.rng;
    {
        enum { N = 3 };
        Ex e[N];
        int st[N] = {}, v[N] = {}; // 0 empty (also after being moved from) 1 value 2 error
        int fresh = 0;
        for(int s = 0, n = 8 + r.below(c.thorough ? 120 : 50); s < n; s++) {
            int i = r.below(N), j = r.below(N);
            int val = ++fresh;
            const char *op = "?";
            switch(r.below(9)) {
            case 0:
                op = "= Expected(V&&)";
                c.note("e%d = value %d", i, val);
                e[i] = Ex(vt::Tracked(val));
                st[i] = 1, v[i] = val;
                break;
            case 1: {
                op = "= Expected(const V&)";
                c.note("e%d = const value %d", i, val);
                const vt::Tracked t(val);
                e[i] = Ex(t);
                st[i] = 1, v[i] = val;
                EXPECT(t.val() == val, "expected.copy-source", "construction changed its source");
                break;
            }
            case 2:
                op = "= Expected(E&&)";
                c.note("e%d = error %d", i, val);
                e[i] = Ex(Err(val));
                st[i] = 2, v[i] = val;
                break;
            case 3: {
                op = "= Expected(const E&)";
                c.note("e%d = const error %d", i, val);
                const Err t(val);
                e[i] = Ex(t);
                st[i] = 2, v[i] = val;
                EXPECT(t.val() == val, "expected.copy-source", "construction changed its source");
                break;
            }
            case 4: {
                op = "= Unexpected";
                c.note("e%d = Unexpected(%d)", i, val);
                const Err er(val);
                Unexpected<Err> u(er);
                EXPECT(u.error().val() == val, "unexpected.error", "Unexpected holds %d", u.error().val());
                if(r.chance(1, 2)) {
                    Unexpected<Err> u2{Err(val + 1000)};
                    u = P::move(u2);
                    Err out(P::move(u).error());
                    EXPECT(out.val() == val + 1000, "unexpected.error", "moved out error %d", out.val());
                    u = Unexpected<Err>(Err(val));
                }
                e[i] = Ex(P::move(u));
                st[i] = 2, v[i] = val;
                break;
            }
            case 5:
                op = "move assign";
                c.note("e%d = move(e%d)", i, j);
                e[i] = P::move(e[j]);
                if(i != j)
                    st[i] = st[j], v[i] = v[j], st[j] = 0;
                break;
            case 6: {
                op = "move construct and back";
                c.note("e%d moved out and back", i);
                Ex t(P::move(e[i]));
                check_exp(c, t, st[i], v[i], "move construct");
                check_exp(c, e[i], 0, 0, "moving out of it");
                e[i] = P::move(t);
                break;
            }
            case 7:
                op = "= Expected()";
                c.note("e%d = Expected()", i);
                e[i] = Ex();
                st[i] = 0;
                break;
            case 8:
                op = "write through";
                if(st[i] == 1) {
                    c.note("e%d.value() = %d", i, val);
                    e[i].value() = vt::Tracked(val);
                    v[i] = val;
                } else if(st[i] == 2) {
                    c.note("e%d.error() = %d", i, val);
                    e[i].error() = Err(val);
                    v[i] = val;
                }
                break;
            }
            for(int k = 0; k < N; k++)
                check_exp(c, e[k], st[k], v[k], op);
            c.mix(r.s[0]);
        }
    }
    vt::verify_none_live(c);
}
VH_ALSO(P09, expected_history, 3)

VH_SUITE("P13", expected_refusals, 1) {
    // what is not there is refused by abort, in a child
    int st = c.rng.below(3);
    bool ask_value = c.rng.chance(1, 2);
    c.note("state %d, asking for the %s", st, ask_value ? "value" : "error");
    c.mix(st * 2 + ask_value);
    if((st == 1 && ask_value) || (st == 2 && !ask_value)) {
        c.ok();
        return;
    }
    bool ref = refuses(c, [&] {
        Ex e = st == 0 ? Ex() : st == 1 ? Ex(vt::Tracked(1)) : Ex(Err(2));
        if(ask_value)
            e.value();
        else
            e.error();
    });
    EXPECT(ref, "expected.access-not-refused", "state %d: asking for the %s was not refused (%s)", st,
           ask_value ? "value" : "error", last_child.c_str());
}

// Expected with payloads of different sizes and alignments
VH_SUITE("P13", expected_layout, 1) {
    auto &r = c.rng;
    int val = 1 + r.below(100000);
    c.note("layout %d", val);
    c.mix(val);
    {
        Expected<vt::Aligned, vt::Heap> a{vt::Aligned(val)};
        Expected<vt::Heap, vt::Aligned> b{vt::Aligned(val)};
        EXPECT(a.has_value() && a.value().val() == val && ((uintptr_t)&a.value()) % alignof(vt::Aligned) == 0,
               "expected.layout", "aligned value");
        EXPECT(b.has_error() && b.error().val() == val && ((uintptr_t)&b.error()) % alignof(vt::Aligned) == 0,
               "expected.layout", "aligned error");
        a = Expected<vt::Aligned, vt::Heap>(vt::Heap(val + 1));
        b = Expected<vt::Heap, vt::Aligned>(vt::Heap(val + 1));
        EXPECT(a.has_error() && a.error().val() == val + 1 && b.has_value() && b.value().val() == val + 1,
               "expected.layout", "after assignment");
        Expected<vt::Aligned, vt::Heap> a2(P::move(a));
        EXPECT(a2.has_error() && a2.error().val() == val + 1, "expected.layout", "after move");
    }
}

// ---------------------------------------------------------------- Variant
namespace {
template<int I> struct alignas(I % 7 == 5 ? 512 : alignof(vt::Tracked)) Alt : vt::Tracked {
    char pad[I * 3 + 1];
    Alt() noexcept : Tracked(1000 + I) {}
    Alt(int v) noexcept : Tracked(v) {}
};
// all 30 alternatives the class supports
template<typename S> struct VarOf;
template<int... I> struct VarOf<std::integer_sequence<int, I...>> {
    using type = Variant<Alt<I>...>;
};
struct VM {
    int idx = 0, val = 0;
    bool moved = false;
};
template<typename V, int N> struct Ops {
    template<int I> static void put(V &v, int val, int how) {
        if(how == 0)
            v.insert(Alt<I>(val));
        else if(how == 1)
            v = V(Alt<I>(val));
        else if(how == 2) {
            Alt<I> t(val);
            v = V(t);
        } else if(how == 3) {
            const Alt<I> t(val);
            v = V(t);
        } else if(how == 4) {
            v = Alt<I>(val); // through conversion
        } else {
            Alt<I> t(val);
            v.insert(t);
        }
    }
    template<int I> static void check(Case &c, V &v, const VM &m, const char *op) {
        const V &cv = v;
        bool is = m.idx == I;
        EXPECT(cv.template contains<Alt<I>>() == is, "variant.contains", "after %s: contains<%d> with index %d", op, I,
               m.idx);
        auto *p = v.template get_if<Alt<I>>();
        auto *cp = cv.template get_if<Alt<I>>();
        EXPECT((p != nullptr) == is && p == cp, "variant.get_if", "after %s: get_if<%d> with index %d", op, I, m.idx);
        if(is) {
            EXPECT((uintptr_t)p % alignof(Alt<I>) == 0, "variant.alignment", "alternative %d at a misaligned address", I);
            EXPECT(&v.template get<Alt<I>>() == p && &cv.template get<Alt<I>>() == p, "variant.get", "get<%d>", I);
            if(!m.moved)
                EXPECT(p->val() == m.val, "variant.value", "after %s: alternative %d holds %d, expected %d", op, I,
                       p->val(), m.val);
        } else if(I % 5 == m.idx % 5) {
            EXPECT(throws_py([&] { v.template get<Alt<I>>(); }) && throws_py([&] { cv.template get<Alt<I>>(); }),
                   "variant.wrong-get", "get<%d> with index %d did not throw", I, m.idx);
        }
    }
    template<int I> static void write(V &v, int val) { v.template get<Alt<I>>() = Alt<I>(val); }
    template<int... I>
    static void put_any(V &v, int idx, int val, int how, std::integer_sequence<int, I...>) {
        ((I == idx ? put<I>(v, val, how) : void()), ...);
    }
    template<int... I> static void write_any(V &v, int idx, int val, std::integer_sequence<int, I...>) {
        ((I == idx ? write<I>(v, val) : void()), ...);
    }
    template<int... I>
    static void check_all(Case &c, V &v, const VM &m, const char *op, std::integer_sequence<int, I...>) {
        EXPECT(v.index() == m.idx, "variant.index", "after %s: index %d, expected %d", op, (int)v.index(), m.idx);
        (check<I>(c, v, m, op), ...);
    }
};
template<int N> void variant_history(Case &c) {
    using Seq = std::make_integer_sequence<int, N>;
    using V = typename VarOf<Seq>::type;
    using O = Ops<V, N>;
    auto &r = c.rng;
    {
        V v[2];
        VM m[2];
        for(auto &x : m)
            x = VM{0, 1000, false};
        int fresh = 0;
        for(int s = 0, n = 6 + r.below(c.thorough ? 100 : 40); s < n; s++) {
            int i = r.below(2), j = r.below(2);
            int val = ++fresh;
            const char *op = "?";
            switch(r.below(10)) {
            case 0:
            case 1:
            case 2:
            case 3: {
                int idx = r.chance(1, 3) && N > 20 ? N - 1 - (int)r.below(4) : (int)r.below(N);
                int how = r.below(6);
                op = "insert/construct";
                c.note("v%d := alternative %d value %d how %d", i, idx, val, how);
                O::put_any(v[i], idx, val, how, Seq());
                m[i] = VM{idx, val, false};
                break;
            }
            case 4:
                op = "move assign";
                c.note("v%d = move(v%d)", i, j);
                v[i] = P::move(v[j]);
                if(i != j) {
                    m[i] = m[j];
                    m[j].moved = true;
                }
                break;
            case 5:
            case 6:
                op = "copy assign";
                c.note("v%d = v%d", i, j);
                v[i] = (const V &)v[j];
                m[i] = m[j];
                break;
            case 7: {
                op = "copy construct";
                c.note("copy of v%d", j);
                V t((const V &)v[j]);
                O::check_all(c, t, m[j], op, Seq());
                V t2(v[j]);
                O::check_all(c, t2, m[j], op, Seq());
                break;
            }
            case 8: {
                op = "move construct and back";
                c.note("v%d moved out and back", i);
                V t(P::move(v[i]));
                O::check_all(c, t, m[i], op, Seq());
                v[i] = P::move(t);
                break;
            }
            case 9:
                op = "write through";
                c.note("get<%d>(v%d) = %d", m[i].idx, i, val);
                O::write_any(v[i], m[i].idx, val, Seq());
                m[i].val = val;
                m[i].moved = false;
                break;
            }
            O::check_all(c, v[i], m[i], op, Seq());
            if(i != j)
                O::check_all(c, v[j], m[j], op, Seq());
            c.mix(r.s[0]);
        }
    }
    vt::verify_none_live(c);
}
} // namespace
VH_SUITE("P13", variant30, 4) { variant_history<30>(c); }
VH_SUITE("P13", variant4, 2) { variant_history<4>(c); }
VH_SUITE("P13", variant1, 1) { variant_history<1>(c); }
VH_ALSO(P09, variant30, 3)
VH_ALSO(P09, variant4, 1)
VH_SUITE("P13", variant_mixed, 2) {
    // library value types of different sizes
    auto &r = c.rng;
    using V = Variant<int32_t, P::CString, P::U8String, double, unique_ptr<int>, P::Vector<int>>;
    using W = Variant<int32_t, P::CString, P::U8String, double>;
    std::string txt = gtext(r, gsize(r, 60));
    for(auto &ch : txt)
        ch = (char)((unsigned char)ch & 0x7f ? (unsigned char)ch & 0x7f : 'x');
    c.note("text '%s'", vh::show(txt).c_str());
    c.mixs(txt.data(), txt.size());
    V v;
    EXPECT(v.contains<int32_t>() && v.get<int32_t>() == 0, "variant.default", "default is not the first alternative");
    v.insert(P::CString(txt.c_str()));
    EXPECT(v.contains<P::CString>() && v.get<P::CString>().size() == txt.size() &&
               !memcmp(v.get<P::CString>().c_str(), txt.c_str(), txt.size() + 1),
           "variant.cstring", "CString alternative");
    V v2(P::move(v));
    EXPECT(v2.get<P::CString>().size() == txt.size(), "variant.cstring", "moved CString alternative");
    v2.insert(unique_ptr<int>(new int(7)));
    EXPECT(*v2.get<unique_ptr<int>>() == 7, "variant.unique_ptr", "unique_ptr alternative");
    v = P::move(v2);
    EXPECT(*v.get<unique_ptr<int>>() == 7, "variant.unique_ptr", "moved unique_ptr alternative");
    P::Vector<int> vec;
    for(int k = 0; k < 40; k++)
        vec.push_back(k);
    v.insert(P::move(vec));
    EXPECT(v.get<P::Vector<int>>().size() == 40 && v.get<P::Vector<int>>()[39] == 39, "variant.vector", "vector");
    v = 5;
    EXPECT(v.get<int32_t>() == 5, "variant.int", "int alternative");
    W w(P::U8String(txt.c_str()));
    W w2((const W &)w);
    W w3;
    w3 = (const W &)w2;
    EXPECT(w3.get<P::U8String>() == w.get<P::U8String>() && w3.get<P::U8String>() == txt.c_str(), "variant.u8string",
           "U8String alternative");
    w3 = 2.5;
    EXPECT(w3.get<double>() == 2.5 && w2.contains<P::U8String>() && throws_py([&] { w3.get<int32_t>(); }),
           "variant.double", "double alternative");
}

// ---------------------------------------------------------------- unique_ptr, unique_arr
VH_SUITE("P13", unique_ptr_history, 3) {
    auto &r = c.rng;
    {
        typedef unique_ptr<vt::Tracked> U;
        enum { N = 3 };
        U u[N];
        vt::Tracked *m[N] = {};
        int v[N] = {};
        int fresh = 0;
        for(int s = 0, n = 6 + r.below(c.thorough ? 120 : 50); s < n; s++) {
            int i = r.below(N), j = r.below(N), val = ++fresh;
            switch(r.below(7)) {
            case 0: {
                c.note("u%d = unique_ptr(%d)", i, val);
                auto *p = new vt::Tracked(val);
                u[i] = U(p);
                m[i] = p, v[i] = val;
                break;
            }
            case 1: {
                c.note("u%d.reset(%d)", i, val);
                auto *p = r.chance(1, 4) ? nullptr : new vt::Tracked(val);
                u[i].reset(p);
                m[i] = p, v[i] = val;
                break;
            }
            case 2: {
                c.note("u%d.release", i);
                auto *p = u[i].release();
                EXPECT(p == m[i], "unique_ptr.release", "release returned another pointer");
                EXPECT(u[i].get() == nullptr && !u[i], "unique_ptr.release", "still holds a pointer after release");
                if(p)
                    EXPECT(p->val() == v[i], "unique_ptr.release", "released object is not alive");
                delete p;
                m[i] = nullptr;
                break;
            }
            case 3:
            case 4:
                c.note("u%d = move(u%d)", i, j);
                u[i] = P::move(u[j]);
                if(i != j)
                    m[i] = m[j], v[i] = v[j], m[j] = nullptr;
                break;
            case 5: {
                c.note("u%d moved out and back", i);
                U t(P::move(u[i]));
                EXPECT(t.get() == m[i] && u[i].get() == nullptr, "unique_ptr.move", "move construction");
                u[i] = P::move(t);
                EXPECT(!t, "unique_ptr.move", "moved-from pointer is not null");
                break;
            }
            case 6:
                if(m[i]) {
                    c.note("*u%d = %d", i, val);
                    *u[i] = vt::Tracked(val);
                    v[i] = val;
                }
                break;
            }
            for(int k = 0; k < N; k++) {
                const U &cu = u[k];
                EXPECT(u[k].get() == m[k] && cu.get() == m[k] && (bool)cu == (m[k] != nullptr), "unique_ptr.state",
                       "pointer differs");
                if(m[k])
                    EXPECT(u[k]->val() == v[k] && (*u[k]).val() == v[k] && cu->val() == v[k], "unique_ptr.value",
                           "value %d expected %d", u[k]->val(), v[k]);
            }
            size_t live = 0;
            for(auto p : m)
                live += p != nullptr;
            EXPECT(vt::mon().live.size() == live, "unique_ptr.lifetime", "%zu objects alive, expected %zu",
                   vt::mon().live.size(), live);
            c.mix(r.s[0]);
        }
    }
    vt::verify_none_live(c);
}
VH_ALSO(P09, unique_ptr_history, 2)

namespace {
int custom_deleted;
struct CustomDel {
    static void del(int *p) {
        if(p) {
            ++custom_deleted;
            free(p);
        }
    }
};
} // namespace
VH_SUITE("P13", unique_ptr_deleter, 1) {
    auto &r = c.rng;
    typedef unique_ptr<int, CustomDel> U;
    custom_deleted = 0;
    int made = 0, released = 0;
    {
        U a, b;
        for(int s = 0, n = r.below(30); s < n; s++) {
            U &x = r.chance(1, 2) ? a : b;
            switch(r.below(4)) {
            case 0:
                ++made;
                x.reset((int *)malloc(sizeof(int)));
                break;
            case 1:
                a = P::move(b);
                break;
            case 2: {
                U t(P::move(x));
                break;
            }
            case 3:
                if(int *p = x.release()) {
                    ++released;
                    free(p);
                }
                break;
            }
        }
    }
    c.mix(made * 100 + released);
    EXPECT(custom_deleted + released == made, "unique_ptr.deleter", "%d created, %d released, %d deleted", made, released,
           custom_deleted);
}

VH_SUITE("P13", unique_arr_history, 3) {
    auto &r = c.rng;
    {
        typedef unique_arr<vt::Tracked> A;
        enum { N = 3 };
        A a[N];
        std::vector<int> m[N];
        bool null[N] = {true, true, true};
        int fresh = 0;
        for(int s = 0, n = 6 + r.below(c.thorough ? 100 : 40); s < n; s++) {
            int i = r.below(N), j = r.below(N);
            switch(r.below(5)) {
            case 0: {
                size_t sz = r.below(20);
                c.note("a%d = unique_arr(%zu)", i, sz);
                a[i] = A(sz);
                m[i].assign(sz, 0);
                break;
            }
            case 1: {
                size_t sz = 1 + r.below(20);
                c.note("a%d = unique_arr(ptr,%zu)", i, sz);
                a[i] = A(new vt::Tracked[sz], sz);
                m[i].assign(sz, 0);
                break;
            }
            case 2:
                c.note("a%d = move(a%d)", i, j);
                a[i] = P::move(a[j]);
                if(i != j) {
                    m[i] = m[j];
                    m[j].clear();
                    EXPECT(a[j].get() == nullptr, "unique_arr.move", "moved-from array is not null");
                }
                break;
            case 3: {
                c.note("a%d moved out and back", i);
                A t(P::move(a[i]));
                EXPECT(t.size() == m[i].size() && a[i].size() == 0 && a[i].get() == nullptr, "unique_arr.move",
                       "move construction");
                a[i] = P::move(t);
                break;
            }
            case 4:
                if(!m[i].empty()) {
                    size_t k = r.below(m[i].size());
                    int val = ++fresh;
                    c.note("a%d[%zu] = %d", i, k, val);
                    a[i][k] = vt::Tracked(val);
                    m[i][k] = val;
                }
                break;
            }
            (void)null;
            size_t live = 0;
            for(int k = 0; k < N; k++) {
                const A &ca = a[k];
                live += m[k].size();
                EXPECT(ca.size() == m[k].size() && ca.size_bytes() == m[k].size() * sizeof(vt::Tracked),
                       "unique_arr.size", "size %zu, expected %zu", ca.size(), m[k].size());
                for(size_t q = 0; q < m[k].size(); q++)
                    EXPECT(a[k][q].val() == m[k][q] && ca[q].val() == m[k][q] && ca.unsafe_at(q).val() == m[k][q] &&
                               ca.get()[q].val() == m[k][q],
                           "unique_arr.value", "[%zu]", q);
                size_t oob = m[k].size() + (r.chance(1, 2) ? 0 : r.below(10));
                EXPECT(throws_py([&] { a[k][oob]; }) && throws_py([&] { ca[oob]; }), "unique_arr.index-oob",
                       "[%zu] of %zu did not throw", oob, m[k].size());
            }
            EXPECT(vt::mon().live.size() == live, "unique_arr.lifetime", "%zu objects alive, expected %zu",
                   vt::mon().live.size(), live);
            c.mix(r.s[0]);
        }
    }
    vt::verify_none_live(c);
}
VH_ALSO(P09, unique_arr_history, 2)

// ---------------------------------------------------------------- Span
VH_SUITE("P13", span_queries, 2) {
    auto &r = c.rng;
    size_t n = gsize(r, 100);
    int *arr = (int *)malloc(n * sizeof(int) + (n == 0));
    for(size_t i = 0; i < n; i++)
        arr[i] = (int)r.below(1000);
    Span<int> s(arr, n);
    c.note("span of %zu", n);
    c.mix(n);
    for(int step = 0; step < 25; step++) {
        // s is always arr[base, base+len)
        size_t base = s.begin() - arr, len = s.size();
        EXPECT(base + len <= n, "span.range", "span [%zu,+%zu) of %zu", base, len, n);
        EXPECT(s.end() - s.begin() == (ptrdiff_t)len && s.cend() - s.cbegin() == (ptrdiff_t)len &&
                   s.is_empty() == (len == 0) && s.size_bytes() == len * sizeof(int) && s.data() == s.begin(),
               "span.basics", "size/begin/end");
        size_t k = 0;
        for(auto &e : s)
            EXPECT(&e == arr + base + k++, "span.iteration", "iteration");
        if(len) {
            size_t i = r.below(len);
            const Span<int> &cs = s;
            EXPECT(&s[i] == arr + base + i && &cs[i] == arr + base + i && &s.at(i) == arr + base + i, "span.index",
                   "[%zu]", i);
        }
        size_t oob = len + (r.chance(1, 2) ? 0 : r.below(100));
        EXPECT(throws_py([&] { s[oob]; }) && throws_py([&] { s.at(oob); }), "span.index-oob", "[%zu] of %zu", oob, len);
        size_t off = r.chance(1, 10) ? len + r.below(4) : r.below(len + 1);
        size_t cnt = r.chance(1, 3)    ? (size_t)-1
                     : r.chance(1, 10) ? (size_t)-1 - r.below(5)
                     : r.chance(1, 6)  ? r.below(len + 4)
                                       : r.below(len - std::min(off, len) + 1);
        bool valid = off <= len && (cnt == (size_t)-1 || cnt <= len - off);
        size_t want = cnt == (size_t)-1 ? len - off : cnt;
        // an empty subspan at the very end may be refused
        bool edge = valid && off == len && len > 0;
        c.note("subspan(%zu,%zu) of %zu", off, cnt, len);
        Span<int> sub;
        bool th = throws_py([&] { sub = cnt == (size_t)-1 && r.chance(1, 2) ? s.subspan(off) : s.subspan(off, cnt); });
        if(!valid)
            EXPECT(th, "span.subspan-refusal", "subspan(%zu,%zu) of %zu was accepted", off, cnt, len);
        else if(!edge && len > 0)
            EXPECT(!th, "span.subspan-refused", "subspan(%zu,%zu) of %zu was refused", off, cnt, len);
        if(!th)
            EXPECT(sub.begin() == s.begin() + off && sub.size() == want, "span.subspan", "subspan(%zu,%zu) of %zu", off,
                   cnt, len);
        if(!th && r.chance(1, 2))
            s = sub;
        else if(r.chance(1, 3))
            s = Span<int>(arr, n);
        c.mix(off * 1000 + len);
    }
    Span<int> e;
    EXPECT(e.is_empty() && e.size() == 0 && throws_py([&] { e[0]; }) && e.begin() == e.end(), "span.default",
           "default span");
    free(arr);
}
