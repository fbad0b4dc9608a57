// Harness core: seeded cases, op log in a shared mmap (so that the witness survives a
// crash), violation records, per-case leak accounting and coverage counters.
#pragma once
#include <new>
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <algorithm>

namespace vh {

struct Rng {
    uint64_t s[2];
    explicit Rng(uint64_t seed = 1) {
        auto sm = [&]() {
            seed += 0x9E3779B97F4A7C15ull;
            uint64_t z = seed;
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
            z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
            return z ^ (z >> 31);
        };
        s[0] = sm();
        s[1] = sm();
    }
    uint64_t next() {
        uint64_t a = s[0], b = s[1];
        uint64_t r = a + b;
        b ^= a;
        s[0] = ((a << 24) | (a >> 40)) ^ b ^ (b << 16);
        s[1] = (b << 37) | (b >> 27);
        return r;
    }
    uint64_t below(uint64_t n) { return n ? (next() >> 11) % n : 0; }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a) + 1); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    template<class V> auto &pick(V &v) { return v[below(v.size())]; }
};

struct CaseAbort {}; // thrown by fail()

struct Case {
    uint64_t index = 0;
    Rng rng;
    uint64_t checks = 0;  // oracle comparisons made
    uint64_t digest = 1469598103934665603ull;
    bool failed = false;
    const char *suite = "";
    bool thorough = false;

    void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    void mix(uint64_t v) { digest = (digest ^ v) * 1099511628211ull; }
    void mixs(const void *p, size_t n) {
        for(size_t i = 0; i < n; i++)
            mix(((const unsigned char *)p)[i]);
    }
    // record a violation and keep going
    void soft(const char *key, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
    // record a violation and unwind out of the case
    [[noreturn]] void fail(const char *key, const char *fmt, ...)
        __attribute__((format(printf, 3, 4)));
    void ok() { ++checks; }
    void cover(const char *what, uint64_t n = 1);
};

extern Case *cur; // the running case (for monitors without access to it)

using Fn = void (*)(Case &);
struct Suite {
    const char *prop, *name;
    int weight;
    Fn fn;
    unsigned flags;
};
enum { NOLEAK = 1 /* do not do leak accounting */ };
struct Probe {
    const char *prop, *key;
    Fn fn;
};
std::vector<Suite> &suites();
std::vector<Probe> &probes();
struct RegS {
    RegS(Suite s) { suites().push_back(s); }
};
struct RegP {
    RegP(Probe s) { probes().push_back(s); }
};

#define VH_SUITE_F(prop, name, weight, flags)                                                      \
    static void name(vh::Case &c);                                                                 \
    static vh::RegS reg_##name{vh::Suite{prop, #name, weight, name, flags}};                       \
    static void name([[maybe_unused]] vh::Case &c)
#define VH_SUITE(prop, name, weight) VH_SUITE_F(prop, name, weight, 0)
// the same function also counts for another property
#define VH_ALSO(prop, name, weight)                                                                \
    static vh::RegS reg_##prop##_##name{vh::Suite{#prop, #name, weight, name, 0}};
#define VH_PROBE(prop, key, name)                                                                  \
    static void name(vh::Case &c);                                                                 \
    static vh::RegP regp_##name{vh::Probe{prop, key, name}};                                       \
    static void name([[maybe_unused]] vh::Case &c)

#define EXPECT(cond, key, ...)                                                                     \
    do {                                                                                           \
        if(!(cond))                                                                                \
            c.fail(key, __VA_ARGS__);                                                              \
        c.ok();                                                                                    \
    } while(0)

std::string show(const void *p, size_t n); // printable form
inline std::string show(const std::string &s) { return show(s.data(), s.size()); }

// Exact-size heap copy: reading one byte past the end hits an ASan redzone.
struct Exact {
    char *p;
    size_t n;
    explicit Exact(const std::string &s) : p((char *)malloc(s.size() ? s.size() : 1)), n(s.size()) {
        memcpy(p, s.data(), n);
    }
    Exact(const Exact &) = delete;
    ~Exact() { free(p); }
};

// Runs f in a forked child; returns: exit status (>=0), -signal. Output captured.
struct ChildResult {
    int code = 0; // exit code, or -signal, or -1000 on time out
    std::string out, err;
};
ChildResult run_child(const std::function<void(int)> &f, unsigned cpu_seconds = 20);

bool on_valgrind();
std::string scratch_dir(); // a private scratch directory, removed at exit
void rm_rf_scratch(const std::string &sub); // removes a path below scratch_dir()

} // namespace vh
