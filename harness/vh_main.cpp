#include "vh.hpp"
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <dirent.h>
#include <poll.h>
#include <errno.h>
#include <unordered_set>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VH_ASAN 1
#include <sanitizer/allocator_interface.h>
#include <sanitizer/asan_interface.h>
#endif
#endif
extern "C" const char *__asan_default_options() {
    return "abort_on_error=0:exitcode=77:detect_leaks=0:allocator_may_return_null=0:"
           // no hard_rss_limit_mb: it starts a thread that opens descriptors now and then
           "max_allocation_size_mb=2500:quarantine_size_mb=16:"
           "handle_abort=2:handle_segv=1:print_summary=1:malloc_context_size=12:"
           "strict_string_checks=0:detect_stack_use_after_return=1";
}
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1"; }
extern "C" const char *__tsan_default_options() {
    return "halt_on_error=1:exitcode=66:second_deadlock_stack=1:report_signal_unsafe=0";
}

namespace vh {
Case *cur = nullptr;
std::vector<Suite> &suites() {
    static std::vector<Suite> v;
    return v;
}
std::vector<Probe> &probes() {
    static std::vector<Probe> v;
    return v;
}

namespace {
struct Status {
    uint64_t case_index;
    uint64_t done; // cases completed
    uint32_t loglen;
    uint32_t truncated;
    char suite[64];
    char log[60000];
};
Status *st;
FILE *vf;
std::string outdir = ".";
std::map<std::string, uint64_t> counters;
pid_t main_pid;
uint64_t nviol;

void emit_json_string(FILE *f, const char *s, size_t n) {
    fputc('"', f);
    for(size_t i = 0; i < n; i++) {
        unsigned char ch = s[i];
        if(ch == '"' || ch == '\\')
            fprintf(f, "\\%c", ch);
        else if(ch < 32 || ch > 126)
            fprintf(f, "\\u%04x", ch);
        else
            fputc(ch, f);
    }
    fputc('"', f);
}
void record(Case &c, const char *key, const char *msg) {
    c.failed = true;
    ++nviol;
    fprintf(vf, "{\"case\":%llu,\"suite\":\"%s\",\"key\":", (unsigned long long)c.index, c.suite);
    emit_json_string(vf, key, strlen(key));
    fprintf(vf, ",\"msg\":");
    emit_json_string(vf, msg, strlen(msg));
    fprintf(vf, ",\"log\":");
    emit_json_string(vf, st->log, st->loglen);
    fprintf(vf, "}\n");
    fflush(vf);
}
} // namespace

void Case::note(const char *fmt, ...) {
    char b[600];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if(n < 0)
        return;
    if(n >= (int)sizeof b)
        n = sizeof b - 1;
    mixs(b, n);
    if(st->loglen + n + 2 < sizeof st->log) {
        memcpy(st->log + st->loglen, b, n);
        st->loglen += n;
        st->log[st->loglen++] = '\n';
        st->log[st->loglen] = 0;
    } else {
        // keep the most recent operations: drop the first half
        size_t half = st->loglen / 2;
        memmove(st->log, st->log + half, st->loglen - half);
        st->loglen -= half;
        st->truncated = 1;
        if(st->loglen + n + 2 < sizeof st->log) {
            memcpy(st->log + st->loglen, b, n);
            st->loglen += n;
            st->log[st->loglen++] = '\n';
        }
    }
}
void Case::soft(const char *key, const char *fmt, ...) {
    char b[2000];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if(!failed)
        record(*this, key, b);
}
void Case::fail(const char *key, const char *fmt, ...) {
    char b[2000];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if(!failed)
        record(*this, key, b);
    throw CaseAbort{};
}
void Case::cover(const char *what, uint64_t n) { counters[what] += n; }

std::string show(const void *p, size_t n) {
    std::string r = "\"";
    char t[8];
    size_t lim = n > 120 ? 120 : n;
    for(size_t i = 0; i < lim; i++) {
        unsigned char ch = ((const unsigned char *)p)[i];
        if(ch >= 32 && ch < 127 && ch != '"' && ch != '\\')
            r += (char)ch;
        else {
            snprintf(t, sizeof t, "\\x%02x", ch);
            r += t;
        }
    }
    r += '"';
    if(lim < n)
        r += "...(" + std::to_string(n) + ")";
    return r;
}

static std::string scratch;
std::string scratch_dir() {
    if(scratch.empty()) {
        std::string t = outdir + "/scratch-XXXXXX";
        std::vector<char> b(t.begin(), t.end());
        b.push_back(0);
        if(!mkdtemp(b.data())) {
            perror("mkdtemp");
            _exit(3);
        }
        scratch = b.data();
    }
    return scratch;
}
static void rm_rec(const std::string &p) {
    struct stat sb;
    if(lstat(p.c_str(), &sb) != 0)
        return;
    if(S_ISDIR(sb.st_mode)) {
        chmod(p.c_str(), 0700);
        if(DIR *d = opendir(p.c_str())) {
            while(auto *e = readdir(d)) {
                std::string n = e->d_name;
                if(n == "." || n == "..")
                    continue;
                rm_rec(p + "/" + n);
            }
            closedir(d);
        }
        rmdir(p.c_str());
    } else
        unlink(p.c_str());
}
void rm_rf_scratch(const std::string &p) {
    std::string base = scratch_dir() + "/";
    if(p.compare(0, base.size(), base) != 0 || p.find("/..") != std::string::npos)
        return;
    rm_rec(p);
}

ChildResult run_child(const std::function<void(int)> &f, unsigned cpu) {
    ChildResult r;
    int po[2], pe[2];
    if(pipe(po) || pipe(pe)) {
        perror("pipe");
        _exit(3);
    }
    fflush(stdout);
    fflush(stderr);
    fflush(vf);
    pid_t pid = fork();
    if(pid < 0) {
        perror("fork");
        _exit(3);
    }
    if(pid == 0) {
        dup2(po[1], 1);
        dup2(pe[1], 2);
        close(po[0]);
        close(pe[0]);
        struct itimerval off = {};
        setitimer(ITIMER_VIRTUAL, &off, nullptr);
        struct rlimit rl = {cpu, cpu};
        setrlimit(RLIMIT_CPU, &rl);
        f(po[1]);
        fflush(stdout);
        _exit(0);
    }
    close(po[1]);
    close(pe[1]);
    struct pollfd pf[2] = {{po[0], POLLIN, 0}, {pe[0], POLLIN, 0}};
    int open_ = 2;
    while(open_ > 0) {
        if(poll(pf, 2, -1) < 0)
            continue;
        for(int i = 0; i < 2; i++)
            if(pf[i].fd >= 0 && pf[i].revents) {
                char b[4096];
                ssize_t n = read(pf[i].fd, b, sizeof b);
                if(n <= 0) {
                    close(pf[i].fd);
                    pf[i].fd = -1;
                    --open_;
                } else
                    (i ? r.err : r.out).append(b, n);
            }
    }
    int ws = 0;
    while(waitpid(pid, &ws, 0) < 0)
        ;
    r.code = WIFEXITED(ws) ? WEXITSTATUS(ws) : -WTERMSIG(ws);
    if(r.code == -SIGXCPU || r.code == -SIGKILL)
        r.code = -1000;
    return r;
}
} // namespace vh

using namespace vh;

static int case_cpu = 40;
// one tick every half second of user time: cpu and memory limits for the running case
static int statm_fd = -1;
__attribute__((weak)) size_t vh_rss_limit_mb = 3500;
static volatile int ticks = 0;
static void on_vtalrm(int) {
    int e = errno;
    if(++ticks >= 2 * case_cpu) {
        static const char m[] = "\nVH_HANG cpu limit for one case exceeded\n";
        (void)!write(2, m, sizeof m - 1);
        _exit(78);
    }
    char b[80];
    ssize_t n = pread(statm_fd, b, sizeof b - 1, 0);
    if(n > 0) {
        b[n] = 0;
        const char *p = b;
        while(*p && *p != ' ')
            ++p;
        if(strtoull(p, nullptr, 10) * 4096 > vh_rss_limit_mb << 20) {
            static const char m[] = "\nVH_MEMORY resident memory above the limit for one case\n";
            (void)!write(2, m, sizeof m - 1);
            _exit(78);
        }
    }
    errno = e;
}
static uint64_t hash_str(const char *s, uint64_t h = 1469598103934665603ull) {
    while(*s)
        h = (h ^ (unsigned char)*s++) * 1099511628211ull;
    return h;
}

bool vh::on_valgrind() { return getenv("VH_VALGRIND") != nullptr; }
static size_t live_bytes() {
#ifdef VH_ASAN
    return __sanitizer_get_current_allocated_bytes();
#else
    return 0;
#endif
}

static size_t run_one(const Suite &s, uint64_t index, uint64_t seed, bool thorough, Case &out) {
    struct itimerval tv = {{0, 500000}, {0, 500000}};
    ticks = 0;
    st->case_index = index;
    st->loglen = 0;
    st->truncated = 0;
    snprintf(st->suite, sizeof st->suite, "%s", s.name);
    size_t before = 0, after = 0;
    {
        Case c;
        c.index = index;
        c.suite = s.name;
        c.thorough = thorough;
        c.rng = Rng(seed * 0x9E3779B97F4A7C15ull ^ hash_str(s.name) ^ (index * 0xD1B54A32D192ED03ull));
        setitimer(ITIMER_VIRTUAL, &tv, nullptr);
        cur = &c;
        before = live_bytes();
        try {
            s.fn(c);
        } catch(const CaseAbort &) {
        }
        after = live_bytes();
        cur = nullptr;
        out = c;
    }
    struct itimerval off = {};
    setitimer(ITIMER_VIRTUAL, &off, nullptr);
    return after > before ? after - before : 0;
}

static bool running_cases = false;
int main(int argc, char **argv) {
    std::string prop, probe, only;
    uint64_t from = 0, step = 1, n = 0, seed = 1, single = ~0ull;
    bool thorough = false, list = false;
    for(int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto v = [&] { return std::string(argv[++i]); };
        if(a == "--prop") prop = v();
        else if(a == "--probe") probe = v();
        else if(a == "--suite") only = v();
        else if(a == "--from") from = strtoull(v().c_str(), 0, 10);
        else if(a == "--step") step = strtoull(v().c_str(), 0, 10);
        else if(a == "--n") n = strtoull(v().c_str(), 0, 10);
        else if(a == "--seed") seed = strtoull(v().c_str(), 0, 10);
        else if(a == "--case") single = strtoull(v().c_str(), 0, 10);
        else if(a == "--out") outdir = v();
        else if(a == "--case-cpu") case_cpu = atoi(v().c_str());
        else if(a == "--thorough") thorough = true;
        else if(a == "--list") list = true;
        else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 3; }
    }
    main_pid = getpid();
    std::sort(suites().begin(), suites().end(), [](const Suite &a, const Suite &b) {
        int r = strcmp(a.prop, b.prop);
        return r ? r < 0 : strcmp(a.name, b.name) < 0;
    });
    if(list) {
        for(auto &s : suites())
            printf("suite %s %s %d\n", s.prop, s.name, s.weight);
        for(auto &s : probes())
            printf("probe %s %s\n", s.prop, s.key);
        return 0;
    }
    std::vector<Suite> seq;
    for(auto &s : suites())
        // "any": every suite except the ones that count steps on large inputs
        if((prop == s.prop || (prop == "any" && strcmp(s.prop, "P16"))) && (only.empty() || only == s.name))
            for(int w = 0; w < s.weight; w++)
                seq.push_back(s);
    int fd = open((outdir + "/status").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if(fd < 0 || ftruncate(fd, sizeof(Status)) != 0) {
        perror("status");
        return 3;
    }
    st = (Status *)mmap(nullptr, sizeof(Status), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    vf = fopen((outdir + "/violations.jsonl").c_str(), "a");
    if(!vf || st == MAP_FAILED)
        return 3;
    statm_fd = open("/proc/self/statm", O_RDONLY | O_CLOEXEC);
    signal(SIGVTALRM, on_vtalrm);
    atexit([] {
        if(getpid() == main_pid && !scratch.empty())
            rm_rec(scratch);
        if(getpid() == main_pid && running_cases) {
            fflush(stdout);
            fprintf(stderr, "\nVH_EXIT the code under test called exit()\n");
            fflush(stderr);
            _exit(78);
        }
    });

    if(!probe.empty()) {
        for(auto &p : probes())
            if(probe == p.key) {
                Suite s{p.prop, p.key, 1, p.fn, 0};
                Case c;
                size_t l = run_one(s, 0, seed, thorough, c);
                if(l > 0 && !c.failed) {
                    l = run_one(s, 0, seed, thorough, c);
                    if(l)
                        record(c, "leak", "memory leaked");
                }
                return c.failed ? 1 : 0;
            }
        fprintf(stderr, "no such probe\n");
        return 3;
    }
    if(seq.empty()) {
        fprintf(stderr, "no suites for %s\n", prop.c_str());
        return 3;
    }
    std::unordered_set<uint64_t> digests;
    uint64_t evals = 0, nontriv = 0, checks = 0, nsamples = 0;
    std::string samples;
    FILE *sf = fopen((outdir + "/samples.jsonl").c_str(), "a");
    running_cases = true;
    for(uint64_t k = from; k < n; k += step) {
        if(single != ~0ull && k != single)
            continue;
        const Suite &s = seq[k % seq.size()];
        Case c;
        size_t leak = run_one(s, k, seed, thorough, c);
        if(leak > 0 && !c.failed && !(s.flags & NOLEAK)) {
            // A first-use cache is not a leak: the same case again must not grow the heap.
            size_t l2 = run_one(s, k, seed, thorough, c);
            if(l2 > 0 && !c.failed)
                l2 = run_one(s, k, seed, thorough, c);
            if(l2 > 0 && !c.failed) {
                char b[100];
                snprintf(b, sizeof b, "case leaves %zu bytes allocated each time it runs", l2);
                record(c, (std::string("leak@") + s.name).c_str(), b);
            }
        }
        ++evals;
        checks += c.checks;
        counters[std::string("cases.") + s.name]++;
        if(c.checks > 0 && digests.insert(c.digest).second)
            ++nontriv;
        if(nsamples < 3 && c.checks > 0 && sf) {
            ++nsamples;
            fprintf(sf, "{\"suite\":\"%s\",\"case\":%llu,\"log\":", s.name, (unsigned long long)k);
            emit_json_string(sf, st->log, st->loglen > 700 ? 700 : st->loglen);
            fprintf(sf, "}\n");
        }
        st->done++;
        if(nviol >= 20)
            break;
    }
    running_cases = false;
    FILE *f = fopen((outdir + "/summary.jsonl").c_str(), "a");
    fprintf(f, "{\"evaluations\":%llu,\"checks\":%llu,\"counters\":{", (unsigned long long)evals,
            (unsigned long long)checks);
    bool first = true;
    for(auto &kv : counters) {
        fprintf(f, "%s", first ? "" : ",");
        first = false;
        emit_json_string(f, kv.first.data(), kv.first.size());
        fprintf(f, ":%llu", (unsigned long long)kv.second);
    }
    fprintf(f, "}}\n");
    fclose(f);
    FILE *d = fopen((outdir + "/digests.bin").c_str(), "ab");
    for(auto x : digests)
        fwrite(&x, 8, 1, d);
    fclose(d);
    if(sf)
        fclose(sf);
    fclose(vf);
    return nviol ? 1 : 0;
}
