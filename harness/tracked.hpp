// Element types that watch their own lifetime. Every construct/copy/move/assign/destroy/read
// is an event checked against the set of live objects (keyed by address).
#pragma once
#include "vh.hpp"
#include <unordered_map>
#include <compare>
namespace vt {
enum State { LIVE = 1, MOVED = 2 };
struct Monitor {
    struct Rec {
        uint64_t id;
        int state;
    };
    std::unordered_map<const void *, Rec> live;
    uint64_t next_id = 0, ctors = 0, dtors = 0, copies = 0, moves = 0, assigns = 0, reads = 0;
    std::string err;
    void bad(const char *key, const void *p) {
        (void)p;
        if(err.empty())
            err = key;
        if(vh::cur)
            vh::cur->soft(key, "lifetime monitor: %s (ctors %llu dtors %llu)", key, (unsigned long long)ctors,
                          (unsigned long long)dtors);
    }
    void born(const void *p) {
        ++ctors;
        auto r = live.emplace(p, Rec{++next_id, LIVE});
        if(!r.second)
            bad("lifetime.construct-over-live-object", p);
    }
    void died(const void *p) {
        ++dtors;
        if(!live.erase(p))
            bad("lifetime.destroy-dead-object", p);
    }
    void use(const void *p, const char *key) {
        ++reads;
        if(!live.count(p))
            bad(key, p);
    }
    void reset() {
        live.clear();
        err.clear();
        ctors = dtors = copies = moves = assigns = reads = 0;
    }
};
inline Monitor &mon() {
    static Monitor m;
    return m;
}
inline void verify_none_live(vh::Case &c) {
    auto &m = mon();
    size_t n = m.live.size();
    c.cover("lifetime.ctor-events", m.ctors);
    c.cover("lifetime.dtor-events", m.dtors);
    bool ok = n == 0 && m.ctors == m.dtors;
    uint64_t a = m.ctors, b = m.dtors;
    // release the monitor's own memory so that it does not look like a leak
    m.reset();
    std::unordered_map<const void *, Monitor::Rec>().swap(m.live);
    if(!ok)
        c.fail("lifetime.not-destroyed", "%zu objects still alive at the end (ctors %llu dtors %llu)", n,
               (unsigned long long)a, (unsigned long long)b);
    c.ok();
}
// Fully instrumented value type that also owns heap memory (so ASan sees double frees).
struct Tracked {
    int *p;
    Tracked() noexcept : p(new int(0)) { mon().born(this); }
    Tracked(int v) noexcept : p(new int(v)) { mon().born(this); }
    Tracked(const Tracked &o) noexcept {
        mon().use(&o, "lifetime.copy-from-dead-object");
        ++mon().copies;
        p = o.p ? new int(*o.p) : nullptr;
        mon().born(this);
    }
    Tracked(Tracked &&o) noexcept {
        mon().use(&o, "lifetime.move-from-dead-object");
        ++mon().moves;
        p = o.p;
        o.p = nullptr;
        mon().born(this);
    }
    Tracked &operator=(const Tracked &o) noexcept {
        mon().use(this, "lifetime.assign-to-dead-object");
        mon().use(&o, "lifetime.copy-from-dead-object");
        ++mon().assigns;
        if(this != &o) {
            delete p;
            p = o.p ? new int(*o.p) : nullptr;
        }
        return *this;
    }
    Tracked &operator=(Tracked &&o) noexcept {
        mon().use(this, "lifetime.assign-to-dead-object");
        mon().use(&o, "lifetime.move-from-dead-object");
        ++mon().assigns;
        if(this != &o) {
            delete p;
            p = o.p;
            o.p = nullptr;
        }
        return *this;
    }
    ~Tracked() {
        mon().died(this);
        delete p;
        p = (int *)0x10; // poison: use after destruction faults
    }
    int val() const {
        mon().use(this, "lifetime.read-dead-object");
        return p ? *p : -777777; // moved-from objects read as a value no test uses
    }
    bool moved_from() const { return !p; }
    bool operator==(const Tracked &o) const { return val() == o.val(); }
    bool operator!=(const Tracked &o) const { return val() != o.val(); }
    bool operator<(const Tracked &o) const { return val() < o.val(); }
    int operator<=>(const Tracked &o) const {
        int a = val(), b = o.val();
        return a < b ? -1 : a > b ? 1 : 0;
    }
    template<typename H> void feed_hash(H &h) const { h.feed_hash((int32_t)val()); }
};
struct Plain {
    int v = 0;
    Plain() noexcept = default;
    Plain(int x) noexcept : v(x) {}
    int val() const { return v; }
    bool operator==(const Plain &o) const { return v == o.v; }
    int operator<=>(const Plain &o) const { return v < o.v ? -1 : v > o.v ? 1 : 0; }
};
// over-aligned
struct alignas(64) Aligned {
    int v = 0;
    char pad[70];
    Aligned() noexcept = default;
    Aligned(int x) noexcept : v(x) {}
    int val() const { return v; }
    bool operator==(const Aligned &o) const { return v == o.v; }
};
// alignment that no allocator gives by accident, not even that of AddressSanitizer
struct alignas(512) VeryAligned {
    int v = 0;
    VeryAligned() noexcept = default;
    VeryAligned(int x) noexcept : v(x) {}
    int val() const { return v; }
    bool operator==(const VeryAligned &o) const noexcept { return v == o.v; }
    bool operator<(const VeryAligned &o) const noexcept { return v < o.v; }
    int operator<=>(const VeryAligned &o) const noexcept { return v < o.v ? -1 : v > o.v; }
    template<typename H> void feed_hash(H &h) const { h.feed_hash((int32_t)v); }
};
// owning, not instrumented
struct Heap {
    std::string s;
    Heap() noexcept {}
    Heap(int x) noexcept : s(std::to_string(x) + "-a-long-enough-string-to-be-allocated") {}
    int val() const { return s.empty() ? -777777 : atoi(s.c_str()); }
    bool operator==(const Heap &o) const { return s == o.s; }
};
} // namespace vt
