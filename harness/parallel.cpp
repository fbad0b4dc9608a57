// P27: every task runs alone and next to others; results must agree and ThreadSanitizer must be silent.
#include "tasks26.hpp"
#include <atomic>
#include <time.h>
using vh::Case;

namespace {
struct Step {
    int task;
    uint64_t seed;
};
struct Runner {
    std::vector<Step> steps;
    std::vector<std::string> res;
    Shared *sh;
    std::atomic<int> *ready;
    int total;
    bool noisy;
};
std::string run_step(const Step &s, Shared &sh) {
    vh::Rng r(s.seed);
    try {
        return TASKS[s.task].fn(r, sh);
    } catch(const P::PyException &e) {
        return "EXCEPTION " + S(e.what());
    }
}
void *runner_main(void *p) {
    Runner &w = *(Runner *)p;
    w.ready->fetch_add(1);
    while(w.ready->load() < w.total)
        ;
    for(auto &s : w.steps) {
        if(w.noisy && (s.seed & 3) == 0)
            sched_yield();
        w.res.push_back(run_step(s, *w.sh));
    }
    return nullptr;
}
std::string hexs(const std::string &s) { return vh::show(s.data(), s.size() > 100 ? 100 : s.size()); }
} // namespace

VH_SUITE_F("P27", parallel, 1, vh::NOLEAK) {
    // the work to do
    int nt = 2 + c.rng.below(5);
    unsigned mode = c.rng.below(4);
    std::vector<std::vector<Step>> plan(nt);
    std::vector<int> focus;
    for(int i = 0; i < 3; i++)
        focus.push_back((int)c.rng.below(NT));
    for(int t = 0; t < nt; t++) {
        size_t n = mode == 3 ? NT : 3 + c.rng.below(10);
        for(size_t k = 0; k < n; k++) {
            int task = mode == 0 ? focus[0] : mode == 1 ? focus[c.rng.below(3)] : mode == 2 ? (int)c.rng.below(NT) : (int)k;
            plan[t].push_back({task, c.rng.chance(1, 3) ? 12345u + task : c.rng.next()});
        }
    }
    c.note("threads %d mode %u focus %s %s %s", nt, mode, TASKS[focus[0]].name, TASKS[focus[1]].name, TASKS[focus[2]].name);
    for(auto &p : plan) {
        std::string l;
        for(auto &s : p)
            l += std::string(TASKS[s.task].name) + " ";
        c.note("%s", l.c_str());
    }
    uint64_t shseed = c.rng.next();
    std::string dir = vh::scratch_dir() + "/d" + std::to_string(c.index);
    mkdir(dir.c_str(), 0700);
    // a fresh process, so that whatever is set up on first use is set up under contention
    auto cr = vh::run_child(
        [&](int fd) {
            vh::Rng r(shseed);
            std::string msg;
            {
                Shared sh(r, dir);
                std::atomic<int> ready{0};
                std::vector<std::unique_ptr<Runner>> rs;
                for(int t = 0; t < nt; t++) {
                    auto w = std::make_unique<Runner>();
                    w->steps = plan[t];
                    w->sh = &sh;
                    w->ready = &ready;
                    w->total = nt;
                    w->noisy = shseed & 1;
                    rs.push_back(std::move(w));
                }
                std::vector<pthread_t> th(nt);
                for(int t = 0; t < nt; t++)
                    if(pthread_create(&th[t], nullptr, runner_main, rs[t].get()) != 0)
                        _exit(3);
                for(int t = 0; t < nt; t++)
                    pthread_join(th[t], nullptr);
                size_t n = 0;
                for(int t = 0; t < nt && msg.empty(); t++)
                    for(size_t k = 0; k < plan[t].size(); k++) {
                        std::string alone = run_step(plan[t][k], sh);
                        ++n;
                        if(alone != rs[t]->res[k]) {
                            msg = std::string("DIFF ") + TASKS[plan[t][k].task].name + " together " + hexs(rs[t]->res[k]) +
                                  " alone " + hexs(alone);
                            break;
                        }
                        if(alone.compare(0, 9, "EXCEPTION") == 0) {
                            msg = std::string("EXC ") + TASKS[plan[t][k].task].name + " " + alone;
                            break;
                        }
                    }
                if(msg.empty())
                    msg = "OK " + std::to_string(n);
            }
            (void)!write(fd, msg.data(), msg.size());
            _exit(0);
        },
        60);
    vh::rm_rf_scratch(dir);
    if(cr.code == -1000)
        c.fail("parallel.no-answer", "child used up its cpu time");
    if(cr.code != 0) {
        std::string e = cr.err.substr(0, 1500);
        std::string key = "parallel.child-died";
        if(cr.err.find("data race") != std::string::npos)
            key = "tsan:data-race";
        else if(cr.err.find("ThreadSanitizer") != std::string::npos)
            key = "tsan:report";
        c.fail(key.c_str(), "exit %d: %s", cr.code, e.c_str());
    }
    if(cr.out.compare(0, 3, "EXC") == 0)
        c.fail("parallel.unexpected-exception", "%s", cr.out.c_str());
    EXPECT(cr.out.compare(0, 2, "OK") == 0, "parallel.result-differs", "%s", cr.out.c_str());
    uint64_t n = strtoull(cr.out.c_str() + 3, nullptr, 10);
    c.checks += n;
    c.cover("tasks.compared", n);
}
