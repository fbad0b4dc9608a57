// Sizes that cannot be: 2^40 up to the largest size_t.  Nothing can hold that much, so such a request
// must be refused with an exception or end the process on purpose; it must never be taken for a small one
// nor give an object that claims room it does not have.  Runs in a child with little address space.
#include "common26.hpp"
#include <malloc.h>
#include <signal.h>
#include <sys/resource.h>
#include <new>
#include <pystd2026_btree.hpp>
using vh::Case;

namespace {
size_t absurd_number(vh::Rng &r, size_t unit) {
    const size_t top = (size_t)-1;
    switch(r.below(6)) {
    case 0: return top - r.below(40);
    case 1: return top / unit + r.below(40);
    case 2: return top / unit - r.below(40);
    case 3: return (size_t{1} << (40 + r.below(24))) + r.below(40);
    case 4: return (size_t{1} << (40 + r.below(24))) - 1 - r.below(40);
    default: return top / (1 + r.below(64)) + r.below(3);
    }
}
size_t absurd(vh::Rng &r, size_t unit) {
    size_t n = absurd_number(r, unit);
    return n < (size_t{1} << 39) ? (size_t)-1 : n;
}
// body returns an error text or nothing
void in_child(Case &c, const char *what, const std::function<std::string()> &body) {
    auto res = vh::run_child([&](int out) {
        signal(SIGABRT, SIG_DFL);
        signal(SIGSEGV, SIG_DFL);
        signal(SIGBUS, SIG_DFL);
        struct rlimit rl = {size_t{6} << 30, size_t{6} << 30}, nc = {0, 0};
        setrlimit(RLIMIT_AS, &rl);
        setrlimit(RLIMIT_CORE, &nc);
        std::string e = body();
        if(!e.empty()) {
            if(write(out, e.data(), e.size()) < 0)
                _exit(4);
            _exit(5);
        }
    });
    EXPECT(res.code == 0 || res.code == -SIGABRT, "absurd-size", "%s: %s (%d) %s", what,
           res.code == 5 ? "wrong result" : res.code == -1000 ? "did not end" : "crashed", res.code, res.out.c_str());
    c.cover(res.code == 0 ? "refused-or-done" : "ended-on-purpose");
}
std::string text_of(const P::Bytes &b) { return b.size() ? std::string(b.data(), b.size()) : std::string(); }
// op is applied to the object; when it throws the object must be as before
template<typename F> bool refused(F f) {
    try {
        f();
    } catch(const P::PyException &) {
        return true;
    } catch(const std::bad_alloc &) {
        return true;
    }
    return false;
}
} // namespace

VH_SUITE("P01", absurd_bytes, 1) {
    auto &r = c.rng;
    std::string m;
    for(int n = r.below(60); n; --n)
        m += (char)('a' + r.below(26));
    size_t n = absurd(r, 1);
    int op = r.below(6);
    static const char *const names[] = {"reserve", "extend", "resize_to", "shrink", "pop_back", "pop_front"};
    c.note("%s(%zu) of %zu bytes", names[op], n, m.size());
    c.mix(op);
    c.mix(n);
    in_child(c, names[op], [&]() -> std::string {
        P::Bytes b(m.data(), m.size());
        bool no = refused([&] {
            switch(op) {
            case 0: b.reserve(n); break;
            case 1: b.extend(n); break;
            case 2: b.resize_to(n); break;
            case 3: b.shrink(n); break;
            case 4: b.pop_back(n); break;
            default: b.pop_front(n); break;
            }
        });
        if(!no && op == 0 && b.capacity() < n)
            return "reserved less than asked for";
        if(!no && op == 1 && (b.size() < m.size() || b.size() - m.size() != n))
            return "extended to " + std::to_string(b.size());
        if(!no && op == 2 && b.size() != n)
            return "resized to " + std::to_string(b.size());
        if(!no && (op == 1 || op == 2))
            return "claims a size that cannot be";
        if(b.capacity() > size_t{8} << 30)
            return "claims a capacity that cannot be";
        std::string want = !no && op > 2 ? "" : m;
        for(int i = 0; i < 100; i++) {
            b.append('x');
            want += 'x';
        }
        return text_of(b) == want ? "" : "other contents afterwards";
    });
}

VH_SUITE("P02", absurd_cstring, 1) {
    auto &r = c.rng;
    std::string m;
    for(int n = r.below(60); n; --n)
        m += (char)('a' + r.below(26));
    size_t n = absurd(r, 1), at = r.below(m.size() + 1);
    int op = r.below(7);
    static const char *const names[] = {"reserve", "resize", "substr from", "substr of", "insert at", "remove to", "remove from"};
    c.note("%s(%zu) of %zu bytes", names[op], n, m.size());
    c.mix(op);
    c.mix(n);
    in_child(c, names[op], [&]() -> std::string {
        P::CString s(m.data(), m.size());
        std::string sub = "?";
        bool no = refused([&] {
            switch(op) {
            case 0: s.reserve(n); break;
            case 1: s.resize(n); break;
            case 2: sub = s.substr(n).c_str(); break;
            case 3: sub = s.substr(at, n).c_str(); break;
            case 4: s.insert(n, P::CStringView("zz")); break;
            case 5: s.remove(at, n); break;
            default: s.remove(n, at); break;
            }
        });
        if(!no && op == 1)
            return "claims a size that cannot be";
        if(!no && op == 3 && n != (size_t)-1 && sub != m.substr(at))
            return "substr gives " + sub;
        if(!no && (op == 2 || op == 4 || op == 5 || op == 6))
            return "accepted";
        for(int i = 0; i < 100; i++) {
            s.append('x');
            m += 'x';
        }
        return s.size() == m.size() && m == s.c_str() ? "" : "other contents afterwards";
    });
}

template<typename T> static void absurd_vector_of(Case &c, T (*make)(int)) {
    auto &r = c.rng;
    int have = r.below(40);
    size_t n = absurd(r, sizeof(T));
    int op = r.below(2);
    c.note("%s(%zu) of %d elements of %zu bytes", op ? "append_with_default" : "reserve", n, have, sizeof(T));
    c.mix(op);
    c.mix(n);
    in_child(c, op ? "append_with_default" : "reserve", [&]() -> std::string {
        P::Vector<T> v;
        for(int i = 0; i < have; i++)
            v.push_back(make(i));
        bool no = refused([&] {
            if(op)
                v.append_with_default(n);
            else
                v.reserve(n);
        });
        if(!no && op)
            return "claims a size that cannot be: " + std::to_string(v.size());
        if(!no && v.capacity() < n)
            return "reserved less than asked for";
        if(v.capacity() > malloc_usable_size(v.data()) / sizeof(T))
            return "claims room for " + std::to_string(v.capacity()) + " elements in " + std::to_string(malloc_usable_size(v.data())) + " bytes";
        for(int i = have; i < have + 100; i++)
            v.push_back(make(i));
        if(v.size() != (size_t)have + 100)
            return "size " + std::to_string(v.size());
        for(int i = 0; i < have + 100; i++)
            if(!(v[i] == make(i)))
                return "element " + std::to_string(i) + " changed";
        return "";
    });
}
namespace {
struct Wide {
    long a[9] = {};
    bool operator==(const Wide &o) const { return a[0] == o.a[0] && a[8] == o.a[8]; }
};
} // namespace
VH_SUITE("P08", absurd_vector, 1) {
    switch(c.rng.below(4)) {
    case 0: absurd_vector_of<uint64_t>(c, [](int i) { return (uint64_t)i * 77; }); break;
    case 1: absurd_vector_of<char>(c, [](int i) { return (char)i; }); break;
    case 2:
        absurd_vector_of<Wide>(c, [](int i) {
            Wide w;
            w.a[0] = w.a[8] = i;
            return w;
        });
        break;
    default: absurd_vector_of<P::CString>(c, [](int i) { return P::CString(std::string(i % 50, 'q').c_str()); }); break;
    }
}

VH_SUITE("P12", absurd_tree, 1) {
    auto &r = c.rng;
    size_t n = absurd(r, 1 + r.below(200));
    int have = r.below(300);
    c.note("reserve(%zu) in a tree of %d", n, have);
    c.mix(n);
    in_child(c, "reserve", [&]() -> std::string {
        P::BTree<int, 5> t;
        for(int i = 0; i < have; i++)
            t.insert(i * 7 % 1009);
        if(!refused([&] { t.reserve(n); }))
            c.cover("accepted");
        for(int i = have; i < have + 300; i++)
            t.insert(i * 7 % 1009);
        if(t.size() != (size_t)have + 300)
            return "size " + std::to_string(t.size());
        for(int i = 0; i < have + 300; i++)
            if(!t.lookup(i * 7 % 1009))
                return "lost a value";
        return "";
    });
}
