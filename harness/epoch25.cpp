// P29: histories over the 2025 epoch, written down by the released sources (kept under data/,
// namespace renamed) and by the current tree; both are in this one program.
#include "vh.hpp"
#include "epoch25.hpp"
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
using vh::Case;

char *e25_arena() {
    static char *p = [] {
        void *want = (void *)0x200000000000ull;
        void *q = mmap(want, 1 << 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if(q == MAP_FAILED)
            _exit(3);
        return (char *)q;
    }();
    return p;
}

namespace {
void touch(const std::string &p, const char *text = "x") {
    int fd = open(p.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
    (void)!write(fd, text, strlen(text));
    close(fd);
}
const std::string &area() {
    static std::string dir = [] {
        std::string d = vh::scratch_dir() + "/e25";
        mkdir(d.c_str(), 0700);
        std::string t = d + "/tree";
        for(const char *s : {"", "/d1", "/d1/d2", "/d1/d2/d3", "/d2", "/d2/.hid", "/empty", "/d.txt"})
            mkdir((t + s).c_str(), 0700);
        for(const char *s : {"/f1", "/f2", "/f1.txt", "/.hidden", "/ab.txt", "/d1/f1", "/d1/x", "/d1/fx.txt", "/d1/d2/f1",
                             "/d1/d2/a.txt", "/d1/d2/d3/f1", "/d2/f1", "/d2/.hid/f1", "/f10", "/xay", "/d.txt/f1", "/d2/ft", "/f.t"})
            touch(t + s);
        return d;
    }();
    return dir;
}
void reset() {
    std::vector<std::string> rm;
    if(DIR *d = opendir(area().c_str())) {
        while(auto *e = readdir(d)) {
            std::string n = e->d_name;
            if(n != "." && n != ".." && n != "tree")
                rm.push_back(n);
        }
        closedir(d);
    }
    for(auto &n : rm)
        vh::rm_rf_scratch(area() + "/" + n);
}
std::string diff(const std::string &a, const std::string &b) {
    size_t i = 0, line = 1, last = 0, prev = 0;
    while(i < a.size() && i < b.size() && a[i] == b[i]) {
        if(a[i] == '\n') {
            ++line;
            prev = last;
            last = i + 1;
        }
        ++i;
    }
    auto from = [&](const std::string &s) {
        size_t e = s.find('\n', last);
        return s.substr(last, e == std::string::npos ? std::string::npos : e - last);
    };
    std::string before = last > prev ? a.substr(prev, last - prev - 1) : "";
    return "line " + std::to_string(line) + " after [" + before.substr(0, 300) + "] released [" + from(a).substr(0, 500) + "] now [" + from(b).substr(0, 500) +
           "]";
}
std::string fatal_line(const std::string &err) {
    size_t i = err.find("internal failure");
    if(i == std::string::npos)
        return "";
    size_t e = err.find('\n', i);
    return err.substr(i, e == std::string::npos ? std::string::npos : e - i);
}
} // namespace

VH_SUITE_F("P29", epoch25, 1, vh::NOLEAK) {
    size_t n = ref25_count();
    if(cur25_count() != n)
        abort();
    size_t i = (c.index / 8 + c.index * 3) % n; // any shard sees every kind
    uint64_t seed = c.rng.next();
    const char *name = ref25_name(i);
    c.note("history %s seed %llu", name, (unsigned long long)seed);
    c.cover((std::string("history.") + name).c_str());
    bool fatal = !strcmp(name, "fatal");
    const std::string &dir = area();
    reset();
    std::string refchild;
    auto rr = vh::run_child(
        [&](int fd) {
            std::string s = ref25_trace(i, seed, dir);
            size_t o = 0;
            while(o < s.size()) {
                ssize_t w = write(fd, s.data() + o, s.size() - o);
                if(w <= 0)
                    break;
                o += w;
            }
            _exit(0);
        },
        10);
    reset();
    if(fatal) {
        auto cc = vh::run_child(
            [&](int fd) {
                std::string s = cur25_trace(i, seed, dir);
                (void)!write(fd, s.data(), s.size());
                _exit(0);
            },
            10);
        EXPECT(rr.code == cc.code && rr.out == cc.out && fatal_line(rr.err) == fatal_line(cc.err), "epoch25.fatal",
               "released: exit %d, out %s, %s; now: exit %d, out %s, %s", rr.code, vh::show(rr.out).c_str(), fatal_line(rr.err).c_str(), cc.code,
               vh::show(cc.out).c_str(), fatal_line(cc.err).c_str());
        return;
    }
    if(rr.code != 0) { // the release itself does not survive this: nothing to compare with
        c.cover("released.crashed");
        c.cover((std::string("released.crashed.") + name).c_str());
        if(getenv("E25_SHOW"))
            fprintf(stderr, "%s %llu: %d %s\n", name, (unsigned long long)seed, rr.code, rr.err.substr(0, 1500).c_str());
        return;
    }
    std::string a = ref25_trace(i, seed, dir);
    reset();
    if(a != rr.out) { // depends on addresses or stale memory
        c.cover("released.nondeterministic");
        if(getenv("E25_SHOW"))
            fprintf(stderr, "%s %llu: %s\n", name, (unsigned long long)seed, diff(a, rr.out).c_str());
        return;
    }
    std::string b = cur25_trace(i, seed, dir);
    reset();
    if(a != b) {
        std::string key = std::string("epoch25.") + name;
        c.fail(key.c_str(), "%s", diff(a, b).c_str());
    }
    size_t lines = std::count(a.begin(), a.end(), '\n');
    c.checks += lines;
    c.mixs(a.data(), a.size());
    c.cover("lines.compared", lines);
}
