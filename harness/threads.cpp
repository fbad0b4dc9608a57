// P26: Mutex, LockGuard and Thread. The workers report events through atomics; the oracle looks at
// who was inside when, how often each function ran and what was finished when join returned.
#include "common26.hpp"
#include <pystd2026_threading.hpp>
#include <atomic>
#include <mutex>
#include <thread>
#include <time.h>
#include <unistd.h>
#include <dirent.h>
using vh::Case;

namespace {
void nap(unsigned us) {
    struct timespec ts = {0, (long)us * 1000};
    nanosleep(&ts, nullptr);
}
// scheduling noise; decided by the worker's own generator
void noise(vh::Rng &r, unsigned level) {
    switch(r.below(8)) {
    case 0:
        sched_yield();
        break;
    case 1:
        for(volatile unsigned i = 0; i < 200 * level; i = i + 1)
            ;
        break;
    case 2:
        if(level > 1)
            nap(1 + r.below(30 * level));
        break;
    }
}
// a Lockable that counts what is done to it
struct LoggedLock {
    std::vector<std::string> *log;
    const char *name;
    bool refuse = false;
    void lock() {
        if(refuse)
            throw 7;
        log->push_back(std::string("+") + name);
    }
    void unlock() { log->push_back(std::string("-") + name); }
};

struct Shared {
    P::Mutex *mtx;
    int nm;
    std::atomic<int> *inside;
    long *counter;      // not atomic: protected by mtx[i]
    std::atomic<int> overlap{0}, wrong_try{0}, odd_exception{0};
    std::atomic<int> ready{0};
    int total = 0;
    std::vector<uint8_t> *order; // entries to mutex 0, written inside it
};
struct Worker {
    Shared *sh;
    int id, rounds, style;
    unsigned level;
    uint64_t seed;
    std::vector<long> done; // per mutex, increments made
    std::atomic<int> runs{0};
    long result = 0;        // plain: visible to the joiner
    long input = 0;         // plain: written before the start
    long seen_input = 0;
};
struct Boom {
    int v;
};
void critical(Worker &w, vh::Rng &r, int i) {
    Shared &sh = *w.sh;
    if(sh.inside[i].fetch_add(1) != 0)
        sh.overlap.fetch_add(1);
    long v = sh.counter[i];
    noise(r, w.level);
    sh.counter[i] = v + 1;
    ++w.done[i];
    if(i == 0 && sh.order->size() < 4000)
        sh.order->push_back((uint8_t)w.id);
    if(sh.inside[i].fetch_sub(1) != 1)
        sh.overlap.fetch_add(1);
}
void *worker_main(void *p) {
    Worker &w = *(Worker *)p;
    Shared &sh = *w.sh;
    w.runs.fetch_add(1);
    w.seen_input = w.input;
    vh::Rng r(w.seed);
    sh.ready.fetch_add(1);
    while(sh.ready.load() < sh.total)
        sched_yield();
    for(int k = 0; k < w.rounds; k++) {
        int i = (int)r.below(sh.nm);
        noise(r, w.level);
        switch(w.style == 9 ? r.below(5) : (unsigned)w.style) {
        case 0: {
            sh.mtx[i].lock();
            critical(w, r, i);
            sh.mtx[i].unlock();
            break;
        }
        case 1: {
            P::LockGuard<P::Mutex> g(sh.mtx[i]);
            critical(w, r, i);
            break;
        }
        case 2: {
            int tries = 0;
            while(!sh.mtx[i].try_lock()) {
                sched_yield();
                if(++tries > 200) {
                    sh.mtx[i].lock();
                    break;
                }
            }
            critical(w, r, i);
            sh.mtx[i].unlock();
            break;
        }
        case 3: {
            try {
                P::LockGuard<P::Mutex> g(sh.mtx[i]);
                critical(w, r, i);
                if(r.below(2))
                    throw Boom{k};
                if(sh.mtx[i].try_lock()) { // we hold it: nobody can take it, not even us
                    sh.wrong_try.fetch_add(1);
                }
            } catch(const Boom &b) {
                if(b.v != k)
                    sh.odd_exception.fetch_add(1);
            }
            break;
        }
        case 4: { // two at once, always in the same order
            int j = (int)r.below(sh.nm);
            if(j == i) {
                P::LockGuard<P::Mutex> g(sh.mtx[i]);
                critical(w, r, i);
            } else {
                int a = i < j ? i : j, b = i < j ? j : i;
                P::LockGuard<P::Mutex> ga(sh.mtx[a]);
                P::LockGuard<P::Mutex> gb(sh.mtx[b]);
                critical(w, r, a);
                critical(w, r, b);
            }
            break;
        }
        }
    }
    w.result = w.input * 3 + w.id;
    return nullptr;
}
} // namespace

VH_SUITE("P26", exclusion, 5) {
    Shared sh;
    sh.nm = 1 + c.rng.below(3);
    int nt = 2 + c.rng.below(5);
    std::vector<uint8_t> order;
    std::vector<long> counter(sh.nm);
    std::atomic<int> inside[3] = {0, 0, 0};
    auto *mtx = new P::Mutex[sh.nm];
    sh.mtx = mtx;
    sh.inside = inside;
    sh.counter = counter.data();
    sh.order = &order;
    sh.total = nt;
    std::vector<std::unique_ptr<Worker>> ws;
    unsigned level = c.rng.below(4);
    c.note("threads %d mutexes %d noise %u", nt, sh.nm, level);
    for(int i = 0; i < nt; i++) {
        auto w = std::make_unique<Worker>();
        w->sh = &sh;
        w->id = i;
        w->rounds = 1 + c.rng.below(level > 1 ? 60 : 300);
        w->style = c.rng.chance(1, 2) ? 9 : (int)c.rng.below(5);
        w->level = level;
        w->seed = c.rng.next();
        w->done.assign(sh.nm, 0);
        w->input = (long)c.rng.below(100000);
        c.note("worker %d rounds %d style %d", i, w->rounds, w->style);
        ws.push_back(std::move(w));
    }
    bool some_by_destructor = c.rng.chance(1, 3);
    {
        std::vector<std::unique_ptr<P::Thread>> ts;
        for(auto &w : ws)
            ts.push_back(std::make_unique<P::Thread>(worker_main, w.get()));
        for(size_t k = 0; k < ts.size(); k++) {
            if(some_by_destructor && c.rng.chance(1, 2)) {
                ts[k].reset();
            } else
                ts[k]->join();
            auto &w = *ws[k];
            EXPECT(w.result == w.input * 3 + w.id, "thread.join-returned-before-the-end", "worker %zu", k);
            EXPECT(w.seen_input == w.input, "thread.wrong-context", "worker %zu", k);
            EXPECT(w.runs.load() == 1, "thread.ran-more-than-once", "worker %zu ran %d times", k, w.runs.load());
        }
    }
    EXPECT(sh.overlap.load() == 0, "mutex.two-inside", "%d overlaps seen", sh.overlap.load());
    EXPECT(sh.wrong_try.load() == 0, "mutex.try_lock-while-held", "%d", sh.wrong_try.load());
    EXPECT(sh.odd_exception.load() == 0, "guard.exception-changed", "%d", sh.odd_exception.load());
    for(int i = 0; i < sh.nm; i++) {
        long want = 0;
        for(auto &w : ws)
            want += w->done[i];
        EXPECT(counter[i] == want, "mutex.lost-update", "counter %d is %ld, %ld increments made", i, counter[i], want);
        EXPECT(mtx[i].try_lock(), "guard.not-released", "mutex %d still held after all threads ended", i);
        mtx[i].unlock();
    }
    size_t switches = 0;
    for(size_t i = 1; i < order.size(); i++)
        switches += order[i] != order[i - 1];
    c.cover("threads.started", nt);
    c.cover("mutex.handovers-between-threads", switches);
    c.mixs(order.data(), order.size()); // distinct cases = distinct interleavings
    delete[] mtx;
}

namespace {
struct TryState {
    P::Mutex m;
    std::atomic<int> phase{0};
    bool by_guard = false, by_exception = false;
    unsigned us = 0;
    static void wait(std::atomic<int> &p, int v) {
        while(p.load() < v)
            sched_yield();
    }
};
void *holder_main(void *p) {
    TryState &s = *(TryState *)p;
    if(s.by_guard) {
        try {
            P::LockGuard<P::Mutex> g(s.m);
            s.phase = 1;
            TryState::wait(s.phase, 2);
            if(s.by_exception)
                throw Boom{1};
        } catch(const Boom &) {
        }
    } else {
        s.m.lock();
        s.phase = 1;
        TryState::wait(s.phase, 2);
        s.m.unlock();
    }
    s.phase = 3;
    TryState::wait(s.phase, 4);
    return nullptr;
}
void *blocked_main(void *p) {
    TryState &s = *(TryState *)p;
    s.phase.fetch_add(1);
    s.m.lock();
    s.phase.fetch_add(1);
    s.m.unlock();
    return nullptr;
}
} // namespace
VH_SUITE("P26", trying, 2) {
    if(c.rng.chance(1, 2)) {
        // held by another thread: refused; released: granted
        TryState s;
        s.by_guard = c.rng.chance(2, 3);
        s.by_exception = c.rng.chance(1, 2);
        c.note("holder guard %d exception %d", s.by_guard, s.by_exception);
        P::Thread t(holder_main, &s);
        TryState::wait(s.phase, 1);
        bool a = s.m.try_lock();
        bool b = s.m.try_lock();
        s.phase = 2;
        TryState::wait(s.phase, 3);
        bool d = s.m.try_lock();
        bool e = s.m.try_lock();
        if(d)
            s.m.unlock();
        bool f = s.m.try_lock();
        if(f)
            s.m.unlock();
        s.phase = 4;
        t.join();
        EXPECT(!a && !b, "mutex.try_lock-while-held", "try_lock succeeded on a mutex another thread holds");
        EXPECT(d, "guard.not-released", "try_lock failed after the holder released");
        EXPECT(!e, "mutex.try_lock-while-held", "second try_lock succeeded");
        EXPECT(f, "mutex.unlock-kept", "try_lock failed after unlock");
    } else {
        // lock blocks while held
        TryState s;
        s.m.lock();
        P::Thread t(blocked_main, &s);
        TryState::wait(s.phase, 1);
        nap(200 + c.rng.below(800));
        int ph = s.phase.load();
        c.note("blocked at phase %d", ph);
        s.m.unlock();
        t.join();
        EXPECT(ph == 1, "mutex.two-inside", "lock returned while another thread held the mutex");
        EXPECT(s.phase.load() == 2, "mutex.lock-never-granted", "phase %d", s.phase.load());
    }
}
VH_SUITE("P26", guards, 1) {
    std::vector<std::string> log, want;
    LoggedLock a{&log, "a"}, b{&log, "b"};
    int n = 1 + c.rng.below(6);
    for(int i = 0; i < n; i++) {
        unsigned k = c.rng.below(5);
        c.note("shape %u", k);
        if(k == 0) {
            P::LockGuard<LoggedLock> g(a);
            log.push_back("x");
            want.insert(want.end(), {"+a", "x", "-a"});
        } else if(k == 1) {
            {
                P::LockGuard<LoggedLock> g(a);
                P::LockGuard<LoggedLock> h(b);
                log.push_back("x");
            }
            want.insert(want.end(), {"+a", "+b", "x", "-b", "-a"});
        } else if(k == 2) {
            try {
                P::LockGuard<LoggedLock> g(a);
                P::LockGuard<LoggedLock> h(b);
                throw Boom{2};
            } catch(const Boom &) {
                log.push_back("c");
            }
            want.insert(want.end(), {"+a", "+b", "-b", "-a", "c"});
        } else if(k == 3) {
            // the second lock is refused: the first is released, the second is not
            b.refuse = true;
            try {
                P::LockGuard<LoggedLock> g(a);
                P::LockGuard<LoggedLock> h(b);
                log.push_back("x");
            } catch(int) {
                log.push_back("c");
            }
            b.refuse = false;
            want.insert(want.end(), {"+a", "-a", "c"});
        } else {
            auto f = [&]() -> int {
                P::LockGuard<LoggedLock> g(b);
                if(n > 3)
                    return 1;
                log.push_back("x");
                return 2;
            };
            f();
            if(n > 3)
                want.insert(want.end(), {"+b", "-b"});
            else
                want.insert(want.end(), {"+b", "x", "-b"});
        }
    }
    std::string g, w;
    for(auto &x : log)
        g += x + " ";
    for(auto &x : want)
        w += x + " ";
    c.mixs(w.data(), w.size());
    EXPECT(g == w, "guard.events", "got %s want %s", g.c_str(), w.c_str());
}

namespace {
struct Job {
    std::atomic<int> runs{0};
    std::atomic<int> phase{0};
    std::atomic<bool> finished{false};
    unsigned us = 0;
    long a = 0, b = 0; // plain: handed over by start and join
    int wait_for = 0;
    pthread_t self{}, creator{};
    bool same = false;
};
void *job_main(void *p) {
    Job &j = *(Job *)p;
    j.runs.fetch_add(1);
    j.self = pthread_self();
    long v = j.a;
    j.phase.fetch_add(1);
    if(j.us)
        nap(j.us);
    while(j.wait_for && j.phase.load() < j.wait_for)
        sched_yield();
    j.b = v * 7 + 1;
    j.finished = true;
    return p;
}
// a detached thread outlives the case's objects
struct Detached {
    std::atomic<int> runs{0}, go{0}, ended{0};
    long a = 0, b = 0;
};
void *detached_main(void *p) {
    Detached &d = *(Detached *)p;
    d.runs.fetch_add(1);
    while(!d.go.load())
        sched_yield();
    d.b = d.a + 1;
    d.ended = 1;
    return nullptr;
}
struct Nest {
    int depth;
    std::atomic<int> *count;
    uint64_t seed;
};
void *nest_main(void *p) {
    Nest &n = *(Nest *)p;
    n.count->fetch_add(1);
    if(n.depth > 0) {
        vh::Rng r(n.seed);
        Nest a{n.depth - 1, n.count, r.next()}, b{n.depth - 1, n.count, r.next()};
        int before = n.count->load();
        {
            P::Thread t1(nest_main, &a);
            P::Thread t2(nest_main, &b);
            if(r.below(2))
                t2.join();
        }
        if(n.count->load() < before + 2)
            n.count->fetch_add(1000000);
    }
    return nullptr;
}
int tasks() {
    int n = 0;
    if(DIR *d = opendir("/proc/self/task")) {
        while(auto *e = readdir(d))
            n += e->d_name[0] != '.';
        closedir(d);
    }
    return n;
}
} // namespace
VH_SUITE("P26", starting_joining, 3) {
    switch(c.rng.below(4)) {
    case 0: { // many jobs, joined in any order, or by the destructor
        size_t n = 1 + c.rng.below(10);
        std::vector<std::unique_ptr<Job>> js;
        std::vector<std::unique_ptr<P::Thread>> ts;
        for(size_t i = 0; i < n; i++) {
            js.push_back(std::make_unique<Job>());
            js[i]->a = (long)c.rng.below(1000000);
            js[i]->us = c.rng.chance(1, 2) ? c.rng.below(700) : 0;
            ts.push_back(std::make_unique<P::Thread>(job_main, js[i].get()));
        }
        c.note("%zu jobs", n);
        std::vector<size_t> ord(n);
        for(size_t i = 0; i < n; i++)
            ord[i] = i;
        for(size_t i = n; i > 1; i--)
            std::swap(ord[i - 1], ord[c.rng.below(i)]);
        for(size_t i : ord) {
            bool dtor = c.rng.chance(1, 2);
            c.note("end %zu by %s", i, dtor ? "destructor" : "join");
            if(!dtor) {
                ts[i]->join();
                if(c.rng.chance(1, 3)) {
                    EXPECT(throws_py([&] { ts[i]->join(); }), "thread.joined-twice", "second join accepted");
                    EXPECT(throws_py([&] { ts[i]->detach(); }), "thread.joined-twice", "detach after join accepted");
                }
            }
            if(dtor || c.rng.chance(1, 2))
                ts[i].reset();
            EXPECT(js[i]->finished.load(), "thread.join-returned-before-the-end", "job %zu of %zu (%s)", i, n,
                   dtor ? "destructor" : "join");
            EXPECT(js[i]->b == js[i]->a * 7 + 1, "thread.result-not-visible", "job %zu", i);
            EXPECT(js[i]->runs.load() == 1, "thread.ran-more-than-once", "job %zu ran %d times", i, js[i]->runs.load());
            EXPECT(!pthread_equal(js[i]->self, pthread_self()), "thread.ran-in-the-caller", "job %zu", i);
        }
        c.cover("threads.started", n);
        break;
    }
    case 1: { // detach does not wait
        auto *d = new Detached;
        d->a = (long)c.rng.below(1000);
        c.note("detach %ld", d->a);
        bool early = c.rng.chance(1, 2);
        {
            P::Thread t(detached_main, d);
            if(early)
                while(!d->runs.load())
                    sched_yield();
            t.detach();
            if(c.rng.chance(1, 2)) {
                EXPECT(throws_py([&] { t.join(); }), "thread.joined-twice", "join after detach accepted");
            }
        } // a destructor that joins here never returns
        EXPECT(!d->ended.load(), "thread.detach-waited", "detached thread had ended");
        d->go = 1;
        while(!d->ended.load())
            sched_yield();
        EXPECT(d->b == d->a + 1, "thread.result-not-visible", "detached");
        EXPECT(d->runs.load() == 1, "thread.ran-more-than-once", "detached ran %d times", d->runs.load());
        delete d;
        for(int i = 0; i < 2000 && tasks() > 2; i++)
            nap(200); // let it leave before the next case
        break;
    }
    case 2: { // threads that start threads
        std::atomic<int> count{0};
        int depth = 1 + c.rng.below(3);
        Nest n{depth, &count, c.rng.next()};
        {
            P::Thread t(nest_main, &n);
        }
        int want = (2 << depth) - 1;
        c.note("depth %d", depth);
        EXPECT(count.load() == want, "thread.ran-more-than-once", "%d functions ran, %d started", count.load(), want);
        c.cover("threads.started", want);
        break;
    }
    case 3: { // an exception passes a live thread object: it is joined
        Job j;
        j.a = (long)c.rng.below(100000);
        j.us = c.rng.below(600);
        c.note("unwinding past a thread %u", j.us);
        try {
            P::Thread t(job_main, &j);
            throw Boom{3};
        } catch(const Boom &) {
        }
        EXPECT(j.finished.load(), "thread.join-returned-before-the-end", "unwinding");
        EXPECT(j.b == j.a * 7 + 1, "thread.result-not-visible", "unwinding");
        c.cover("threads.started", 1);
        break;
    }
    }
}
namespace {
struct Slow {
    P::Mutex m;
    std::atomic<int> inside{0}, overlap{0}, holder_in{0}, ended{0};
    unsigned ms;
    long plain = 0;
};
void *slow_holder(void *p) {
    Slow &s = *(Slow *)p;
    {
        P::LockGuard<P::Mutex> g(s.m);
        s.inside = 1;
        s.holder_in = 1;
        usleep(s.ms * 1000);
        s.plain++;
        s.inside = 0;
    }
    usleep(300000);
    s.ended++;
    return nullptr;
}
void *slow_waiter(void *p) {
    Slow &s = *(Slow *)p;
    while(!s.holder_in.load())
        usleep(1000);
    {
        P::LockGuard<P::Mutex> g(s.m);
        if(s.inside.load())
            s.overlap++;
        s.plain++;
    }
    s.ended++;
    return nullptr;
}
bool slow_done = false;
} // namespace
// waiting for seconds is still waiting: once per process
VH_SUITE("P26", waits_long, 1) {
    if(slow_done)
        return;
    slow_done = true;
    Slow s;
    s.ms = 500 + c.rng.below(c.thorough ? 15000 : 5000);
    bool dtor = c.rng.chance(1, 2);
    c.note("mutex held for %u ms", s.ms);
    {
        P::Thread h(slow_holder, &s), w(slow_waiter, &s);
        while(!s.holder_in.load())
            usleep(1000);
        EXPECT(!s.m.try_lock(), "mutex.try-lock-of-held", "try_lock of a mutex held by another thread");
        if(!dtor) {
            h.join();
            w.join();
            EXPECT(s.ended.load() == 2, "thread.join-returned-before-the-end", "join returned after less than %u ms", s.ms + 300);
        }
    }
    EXPECT(s.ended.load() == 2, "thread.join-returned-before-the-end", "destructor returned after less than %u ms", s.ms + 300);
    EXPECT(!s.overlap.load() && s.plain == 2, "mutex.overlap", "a thread got in while the mutex was held for %u ms", s.ms);
    c.cover("waits.milliseconds", s.ms);
}
namespace {
struct Item {
    int producer, seq;
};
struct Queue {
    P::Mutex m;
    P::Vector<Item> q;
    size_t head = 0;
    int producers_left;
    unsigned level;
};
struct Role {
    Queue *q;
    int id, n;
    uint64_t seed;
    std::vector<Item> got;
};
void *producer_main(void *p) {
    Role &r = *(Role *)p;
    vh::Rng g(r.seed);
    for(int i = 0; i < r.n; i++) {
        noise(g, r.q->level);
        P::LockGuard<P::Mutex> l(r.q->m);
        r.q->q.push_back(Item{r.id, i});
    }
    P::LockGuard<P::Mutex> l(r.q->m);
    --r.q->producers_left;
    return nullptr;
}
void *consumer_main(void *p) {
    Role &r = *(Role *)p;
    vh::Rng g(r.seed);
    while(true) {
        noise(g, r.q->level);
        if(!r.q->m.try_lock()) {
            sched_yield();
            continue;
        }
        bool end = false;
        if(r.q->head >= r.q->q.size())
            end = r.q->producers_left == 0;
        else {
            r.got.push_back(r.q->q[r.q->head++]);
        }
        r.q->m.unlock();
        if(end)
            return nullptr;
    }
}
} // namespace
// every item handed from producers to consumers through a guarded queue arrives exactly once, in order
VH_SUITE("P26", handover, 2) {
    Queue q;
    q.level = c.rng.below(3);
    int np = 1 + c.rng.below(3), nc = 1 + c.rng.below(3);
    q.producers_left = np;
    std::vector<std::unique_ptr<Role>> rs;
    for(int i = 0; i < np + nc; i++) {
        auto r = std::make_unique<Role>();
        r->q = &q;
        r->id = i;
        r->n = 1 + c.rng.below(60);
        r->seed = c.rng.next();
        rs.push_back(std::move(r));
    }
    c.note("producers %d consumers %d", np, nc);
    {
        std::vector<std::unique_ptr<P::Thread>> ts;
        for(int i = 0; i < np + nc; i++)
            ts.push_back(std::make_unique<P::Thread>(i < np ? producer_main : consumer_main, rs[i].get()));
    }
    std::map<std::pair<int, int>, int> seen;
    std::string hist;
    for(int k = np; k < np + nc; k++) {
        std::map<int, int> last;
        for(auto &it : rs[k]->got) {
            seen[{it.producer, it.seq}]++;
            auto f = last.find(it.producer);
            EXPECT(f == last.end() || f->second < it.seq, "handover.order", "item %d of %d after %d", it.seq, it.producer,
                   f == last.end() ? -1 : f->second);
            last[it.producer] = it.seq;
            hist += (char)('a' + it.producer);
        }
        hist += '|';
    }
    c.mixs(hist.data(), hist.size());
    size_t want = 0;
    for(int i = 0; i < np; i++)
        want += rs[i]->n;
    EXPECT(seen.size() == want, "handover.lost", "%zu items arrived, %zu sent", seen.size(), want);
    for(auto &kv : seen)
        EXPECT(kv.second == 1, "handover.duplicated", "item %d/%d arrived %d times", kv.first.first, kv.first.second, kv.second);
    c.cover("handover.items", want);
}
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
// a thread that cannot be created is reported, and nothing is joined afterwards
VH_SUITE("P26", creation_fails, 1) {
    pthread_attr_t a, old;
    pthread_getattr_default_np(&old);
    pthread_attr_init(&a);
    size_t huge = (size_t)1 << (44 + c.rng.below(3));
    c.note("default stack size %zu", huge);
    pthread_attr_setstacksize(&a, huge);
    pthread_setattr_default_np(&a);
    Job j;
    bool threw = false;
    try {
        P::Thread t(job_main, &j);
    } catch(const P::PyException &) {
        threw = true;
    }
    pthread_setattr_default_np(&old);
    pthread_attr_destroy(&a);
    pthread_attr_destroy(&old);
    int runs = j.runs.load();
    EXPECT(threw == (runs == 0), "thread.creation-failure-silent", "threw %d, function ran %d times", threw, runs);
    c.cover(threw ? "creation.refused" : "creation.granted");
}
#endif
#endif
