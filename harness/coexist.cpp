// P29: what 2026 programs compute, for comparison between builds with and without the 2025 headers.
#include "vh.hpp"
#ifdef E26_2025_FIRST
#include <pystd2025.hpp>
#include <pystd2025_btree.hpp>
#include <pystd2025_threading.hpp>
#endif
#include "tasks26.hpp"
#ifdef E26_2025_AFTER
#include <pystd2025.hpp>
#include <pystd2025_btree.hpp>
#include <pystd2025_threading.hpp>
#endif
#include <sys/stat.h>

VH_SUITE_F("P29", coexist, 1, vh::NOLEAK) {
    std::string dir = vh::scratch_dir() + "/d";
    mkdir(dir.c_str(), 0700);
    vh::Rng r(c.rng.next());
    int t = (int)(c.index % NT);
    std::string s;
    {
        Shared sh(r, dir);
        uint64_t seed = r.next();
        c.note("task %s seed %llu", TASKS[t].name, (unsigned long long)seed);
        vh::Rng q(seed);
        try {
            s = TASKS[t].fn(q, sh);
        } catch(const P::PyException &e) {
            s = "EXCEPTION " + S(e.what());
        }
    }
    vh::rm_rf_scratch(dir);
    for(size_t i; (i = s.find(vh::scratch_dir())) != std::string::npos;)
        s.replace(i, vh::scratch_dir().size(), "@");
    uint64_t dg = 1469598103934665603ull;
    for(unsigned char ch : s)
        dg = (dg ^ ch) * 1099511628211ull;
    FILE *f = fopen("coexist.txt", "a");
    fprintf(f, "%s %016llx %s\n", TASKS[t].name, (unsigned long long)dg, vh::show(s.data(), s.size()).c_str());
    fclose(f);
    c.mixs(s.data(), s.size());
    c.ok();
}
