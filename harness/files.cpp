// P20-P22: paths, globbing and file contents.
#include "common26.hpp"
#include <deque>
#include <dirent.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <thread>
#include <unistd.h>
using vh::Case;
using vh::show;

namespace {
std::string norm(std::string s) {
    while(s.size() > 1 && s.back() == '/')
        s.pop_back();
    return s;
}
std::string last_part(const std::string &s) {
    size_t p = s.rfind('/');
    return p == std::string::npos ? s : s.substr(p + 1);
}
std::vector<std::string> parts_of(const std::string &s) {
    std::vector<std::string> v;
    std::string cur;
    for(char ch : s) {
        if(ch == '/') {
            if(!cur.empty())
                v.push_back(cur);
            cur.clear();
        } else
            cur += ch;
    }
    if(!cur.empty())
        v.push_back(cur);
    return v;
}
std::string join(const std::string &a, const std::string &b) {
    if(!b.empty() && b[0] == '/')
        return b;
    if(a.empty())
        return b;
    return norm(a + (a.back() == '/' ? "" : "/") + b);
}
// components that start with a dot and have no other one are not claimed to have (or lack) an extension
bool ext_claimed(const std::string &name) { return name.empty() || name[0] != '.' || name.find_first_not_of('.') != std::string::npos; }
size_t ext_pos(const std::string &path) {
    size_t d = path.rfind('.'), s = path.rfind('/');
    return d == std::string::npos || (s != std::string::npos && d < s) ? std::string::npos : d;
}
bool ext_ok(const std::string &path) {
    std::string n = last_part(path);
    if(!ext_claimed(n))
        return false;
    return !(n.size() && n[0] == '.' && n.rfind('.') == 0);
}
std::string path_text(vh::Rng &r) {
    if(r.chance(1, 8))
        return gtext(r, gsize(r, 120));
    static const char *w[] = {"a", "b", "file", "file.txt", "x.tar.gz", "dir.d", ".", "..", ".hidden", ".h.x", "a.", "with space",
                              "\xc3\xa4.\xc3\xb6", "abc", "d"};
    std::string s;
    if(r.chance(1, 4))
        s += "/";
    size_t n = r.below(5);
    for(size_t i = 0; i < n; i++) {
        if(i)
            s += r.chance(1, 12) ? "//" : "/";
        s += w[r.below(15)];
        if(r.chance(1, 40)) { // long names and paths
            size_t k = r.chance(1, 3) ? r.below(9000) : 200 + r.below(120);
            for(size_t j = 0; j < k; j++)
                s += r.chance(1, 30) ? (r.chance(1, 2) ? '/' : '.') : (char)('a' + r.below(26));
            if(r.chance(1, 3))
                s += ".";
        }
    }
    if(r.chance(1, 4))
        s += std::string(1 + r.below(2), '/');
    return s;
}
std::string str(const P::Path &p) { return std::string(p.c_str(), p.size()); }
std::string str(const P::CString &p) { return std::string(p.c_str(), p.size()); }
P::CString cs(const std::string &s) { return P::CString(s.data(), s.size()); }
P::Path mk(vh::Rng &r, const std::string &s) {
    vh::Exact e(s + '\0');
    if(r.chance(1, 2))
        return P::Path(e.p);
    return P::Path(cs(s));
}
// Asked of the descriptor table itself: listing /proc/self/fd opens a descriptor of its own
// and its count was seen to waver.
size_t open_fds() {
    size_t n = 0;
    for(int fd = 0; fd < 512; fd++)
        if(fcntl(fd, F_GETFD) != -1)
            ++n;
    return n;
}
void put(const std::string &path, const std::string &data) {
    int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    size_t off = 0;
    while(off < data.size()) {
        ssize_t n = write(fd, data.data() + off, data.size() - off);
        if(n <= 0)
            abort();
        off += n;
    }
    close(fd);
}
std::string slurp(const std::string &path) {
    std::string s;
    int fd = open(path.c_str(), O_RDONLY);
    char b[8192];
    ssize_t n;
    while((n = read(fd, b, sizeof b)) > 0)
        s.append(b, n);
    close(fd);
    return s;
}
// a fresh empty directory for this case
struct Dir {
    std::string sub, path;
    Dir() {
        static int n;
        sub = "c" + std::to_string(getpid()) + "_" + std::to_string(n++);
        path = vh::scratch_dir() + "/" + sub;
        mkdir(path.c_str(), 0755);
    }
    ~Dir() { vh::rm_rf_scratch(sub); }
};
} // namespace

// ------------------------------------------------------------------ P20
VH_SUITE("P20", path_text_ops, 6) {
    auto &r = c.rng;
    std::string a = path_text(r), b = path_text(r);
    c.mixs(a.data(), a.size());
    c.mix(777);
    c.mixs(b.data(), b.size());
    c.note("%s and %s", show(a).c_str(), show(b).c_str());
    P::Path p = mk(r, a), q = mk(r, b);
    std::string na = norm(a), nb = norm(b);
    EXPECT(str(p) == na && str(q) == nb, "path.construct", "Path(%s) is %s", show(a).c_str(), show(str(p)).c_str());
    EXPECT(strlen(p.c_str()) == p.size() && p.is_empty() == na.empty(), "path.size", "size of %s", show(a).c_str());
    EXPECT(p.is_abs() == (!na.empty() && na[0] == '/'), "path.is-abs", "is_abs(%s) = %d", show(a).c_str(), p.is_abs());
    std::string want = join(na, nb);
    P::Path j = p / q;
    EXPECT(str(j) == want, "path.join", "%s / %s = %s, expected %s", show(a).c_str(), show(b).c_str(), show(str(j)).c_str(),
           show(want).c_str());
    P::Path j2 = p / b.c_str();
    P::Path j3 = p / cs(b);
    EXPECT(str(j2) == want && str(j3) == want, "path.join", "%s / text %s = %s", show(a).c_str(), show(b).c_str(),
           show(str(j2)).c_str());
    EXPECT(str(p) == na && str(q) == nb, "path.join-modified", "joining changed an operand");
    P::Path self = p / p;
    EXPECT(str(self) == join(na, na), "path.join", "%s with itself: %s", show(a).c_str(), show(str(self)).c_str());
    // parts
    P::Path f = p.filename();
    EXPECT(str(f) == last_part(na), "path.filename", "filename(%s) = %s", show(a).c_str(), show(str(f)).c_str());
    auto sp = p.split();
    std::vector<std::string> got;
    for(auto &x : sp) {
        EXPECT(str(x).find('/') == std::string::npos, "path.split", "split(%s) has %s", show(a).c_str(), show(str(x)).c_str());
        if(x.size())
            got.push_back(str(x));
    }
    EXPECT(got == parts_of(na), "path.split", "split(%s): %zu parts", show(a).c_str(), got.size());
    // recombining
    P::Path re = na.size() && na[0] == '/' ? P::Path("/") : P::Path();
    for(auto &x : sp)
        if(x.size())
            re = re / x;
    std::string canon = na.size() && na[0] == '/' ? "/" : "";
    for(auto &x : parts_of(na))
        canon = join(canon, x);
    EXPECT(str(re) == canon, "path.recombine", "%s recombined is %s", show(a).c_str(), show(str(re)).c_str());
    // extensions
    if(ext_ok(na)) {
        size_t e = ext_pos(na);
        std::string we = e == std::string::npos ? "" : na.substr(e);
        EXPECT(str(p.extension()) == we, "path.extension", "extension(%s) = %s, expected %s", show(a).c_str(),
               show(str(p.extension())).c_str(), show(we).c_str());
        static const char *ex[] = {".txt", "", ".o", ".tar.gz", "x", "."};
        std::string ne = ex[r.below(6)];
        P::Path t = p;
        if(r.chance(1, 2))
            t.replace_extension(ne.c_str());
        else {
            vh::Exact ee(ne);
            t.replace_extension(P::CStringView(ee.p, ee.n));
        }
        std::string wt = na.substr(0, e) + ne;
        EXPECT(str(t) == wt, "path.replace-extension", "replace_extension(%s, %s) = %s", show(a).c_str(), ne.c_str(),
               show(str(t)).c_str());
        EXPECT(str(p) == na, "path.shared", "changing a copy changed the original");
        // with a part of its own text
        P::Path own = p;
        const size_t from = r.below(na.size() + 1), len = r.below(na.size() - from + 1);
        own.replace_extension(P::CStringView(own.c_str() + from, len));
        EXPECT(str(own) == na.substr(0, e) + na.substr(from, len), "path.replace-extension",
               "replace_extension(%s, own bytes %zu+%zu) = %s", show(a).c_str(), from, len, show(str(own)).c_str());
        // what can not be in a path is refused
        P::Path bad = p;
        bool threw = false;
        try {
            bad.replace_extension(P::CStringView("a\0b", 3));
        } catch(P::PyException &) {
            threw = true;
        }
        EXPECT(threw && str(bad) == na, "path.nul", "an extension with a NUL %s, the path is %s",
               threw ? "was refused" : "was accepted", show(str(bad)).c_str());
    }
}
VH_SUITE("P20", path_file_system, 2) {
    auto &r = c.rng;
    Dir d;
    enum { FILE_, DIR_, LINKF, LINKD, DANGLING, MISSING, FULLDIR };
    struct E {
        std::string n;
        int k;
        std::string content;
    };
    std::vector<E> es;
    for(int i = 0; i < 7; i++) {
        E e{"e" + std::to_string(i) + (r.chance(1, 2) ? ".x" : ""), i, ""};
        std::string p = d.path + "/" + e.n;
        switch(i) {
        case FILE_:
            e.content = gbytes(r, r.below(50));
            put(p, e.content);
            break;
        case DIR_:
            mkdir(p.c_str(), 0755);
            break;
        case LINKF:
            e.content = es[FILE_].content;
            if(symlink((d.path + "/" + es[FILE_].n).c_str(), p.c_str()))
                abort();
            break;
        case LINKD:
            if(symlink((d.path + "/" + es[DIR_].n).c_str(), p.c_str()))
                abort();
            break;
        case DANGLING:
            if(symlink((d.path + "/nowhere").c_str(), p.c_str()))
                abort();
            break;
        case FULLDIR:
            mkdir(p.c_str(), 0755);
            put(p + "/inner", "x");
            break;
        }
        es.push_back(e);
    }
    auto check = [&](const std::string &path) {
        struct stat sb;
        bool ex = stat(path.c_str(), &sb) == 0;
        P::Path p(path.c_str());
        EXPECT(p.exists() == ex && p.is_file() == (ex && S_ISREG(sb.st_mode)) && p.is_dir() == (ex && S_ISDIR(sb.st_mode)),
               "path.stat", "%s: exists %d is_file %d is_dir %d", path.c_str(), p.exists(), p.is_file(), p.is_dir());
    };
    for(auto &e : es)
        check(d.path + "/" + e.n);
    check(d.path + "/" + es[FILE_].n + "/below");
    check("");
    check("/");
    check("/dev/null");
    for(int k = 0; k < 3; k++) {
        int s = r.below(7), t = r.below(7);
        std::string from = d.path + "/" + es[s].n, to = d.path + "/" + (r.chance(1, 3) ? "fresh" : es[t].n);
        struct stat a, b, l;
        bool has = lstat(from.c_str(), &l) == 0;
        bool todir = stat(to.c_str(), &b) == 0 && S_ISDIR(b.st_mode);
        bool tohas = lstat(to.c_str(), &a) == 0;
        bool want = has && !todir && !(tohas && S_ISDIR(l.st_mode));
        c.note("rename %s to %s", from.c_str(), to.c_str());
        c.mix(s * 10 + t);
        P::Path pf(from.c_str()), pt(to.c_str());
        bool got = pf.rename_to(pt);
        EXPECT(got == want, "path.rename", "rename %s to %s said %d", from.c_str(), to.c_str(), got);
        EXPECT(str(pf) == from && str(pt) == to, "path.rename", "rename changed a path object");
        struct stat n;
        if(want) {
            EXPECT(lstat(to.c_str(), &n) == 0 && n.st_ino == l.st_ino, "path.rename", "target is not the renamed file");
            if(from != to && !(tohas && a.st_ino == l.st_ino))
                EXPECT(lstat(from.c_str(), &n) != 0, "path.rename", "source still there");
        } else {
            EXPECT((lstat(from.c_str(), &n) == 0) == has, "path.rename", "refused rename touched the source");
            EXPECT((lstat(to.c_str(), &n) == 0) == tohas && (!tohas || n.st_ino == a.st_ino), "path.rename",
                   "refused rename touched the target");
        }
        c.cover("renames");
    }
    for(auto &e : es)
        check(d.path + "/" + e.n);
}

// the same path objects asked again after the files behind them have changed
VH_SUITE("P20", path_changing, 1) {
    auto &r = c.rng;
    Dir d;
    std::vector<std::string> names;
    std::vector<P::Path> ps;
    for(int i = 0; i < 4; i++) {
        names.push_back(d.path + "/n" + std::to_string(i));
        ps.emplace_back(names[i].c_str());
    }
    auto clear = [&](const std::string &p) {
        struct stat sb;
        if(lstat(p.c_str(), &sb) == 0 && (S_ISDIR(sb.st_mode) ? rmdir(p.c_str()) : unlink(p.c_str())))
            abort();
    };
    auto ask = [&](size_t k) {
        struct stat sb;
        bool ex = stat(names[k].c_str(), &sb) == 0;
        bool f = ex && S_ISREG(sb.st_mode), dd = ex && S_ISDIR(sb.st_mode);
        for(int q = 1 + (int)r.below(3); q; --q)
            switch(r.below(3)) {
            case 0:
                EXPECT(ps[k].exists() == ex, "path.stat-again", "n%zu: exists is %d", k, !ex);
                break;
            case 1:
                EXPECT(ps[k].is_file() == f, "path.stat-again", "n%zu: is_file is %d", k, !f);
                break;
            default:
                EXPECT(ps[k].is_dir() == dd, "path.stat-again", "n%zu: is_dir is %d", k, !dd);
            }
        c.cover(f ? "asked-again-about-a-file" : dd ? "asked-again-about-a-directory" : "asked-again-about-nothing");
    };
    for(int step = 0; step < 30; step++) {
        size_t k = r.below(4), j = r.below(4);
        int what = (int)r.below(7);
        c.note("n%zu: %d, n%zu", k, what, j);
        c.mix(k * 100 + what * 10 + j);
        if(r.chance(1, 2))
            ask(k);
        switch(what) {
        case 0:
            clear(names[k]);
            put(names[k], gbytes(r, r.below(20)));
            break;
        case 1:
            clear(names[k]);
            if(mkdir(names[k].c_str(), 0755))
                abort();
            break;
        case 2:
            clear(names[k]);
            break;
        case 3:
            clear(names[k]);
            if(symlink(names[j].c_str(), names[k].c_str()))
                abort();
            break;
        case 4: { // by the library
            struct stat a, b;
            bool has = lstat(names[k].c_str(), &a) == 0, to = lstat(names[j].c_str(), &b) == 0;
            struct stat bt;
            bool todir = stat(names[j].c_str(), &bt) == 0 && S_ISDIR(bt.st_mode);
            bool want = has && !todir && !(to && S_ISDIR(a.st_mode));
            EXPECT(ps[k].rename_to(ps[j]) == want, "path.rename", "rename n%zu to n%zu is %d", k, j, !want);
            ask(j);
            break;
        }
        case 5: // the same path, another file
            ps[k] = P::Path(ps[j]);
            ps[k] = P::Path(names[k].c_str());
            break;
        default:
            break;
        }
        ask(k);
        if(r.chance(1, 2))
            ask(r.below(4));
    }
    for(auto &n : names)
        clear(n);
}

// ------------------------------------------------------------------ P21
namespace {
bool gm(const std::string &t, size_t i, const std::string &p, size_t j) {
    if(j == p.size())
        return i == t.size();
    if(p[j] == '*') {
        if(i == 0 && !t.empty() && t[0] == '.' && j == 0)
            return false;
        for(size_t k = i; k <= t.size(); k++)
            if(gm(t, k, p, j + 1))
                return true;
        return false;
    }
    if(p[j] == '?' && i == 0 && !t.empty() && t[0] == '.')
        return false;
    return i < t.size() && (p[j] == '?' || p[j] == t[i]) && gm(t, i + 1, p, j + 1);
}
struct Node {
    std::string name;
    bool dir;
    std::vector<Node> kids;
};
const char *NAMES[] = {"a", "b", "ab", "aab", "abc", "a.txt", "b.txt", ".h", ".ha", "x", "aaa", "ba", "abab", "a-b", "c.d.e", "b1", "..x"};
void grow(vh::Rng &r, Node &n, int depth, int &budget) {
    size_t k = r.below(depth == 0 ? 7 : 5);
    std::set<std::string> used;
    for(size_t i = 0; i < k && budget > 0; i++) {
        Node m{r.chance(1, 6) ? "n" + std::to_string(r.below(100)) : NAMES[r.below(17)], r.chance(1, 2) && depth < 5, {}};
        if(!used.insert(m.name).second)
            continue;
        --budget;
        if(m.dir)
            grow(r, m, depth + 1, budget);
        n.kids.push_back(m);
    }
}
void build(const Node &n, const std::string &path, size_t &dirs) {
    mkdir(path.c_str(), 0755);
    ++dirs;
    for(auto &m : n.kids)
        if(m.dir)
            build(m, path + "/" + m.name, dirs);
        else
            put(path + "/" + m.name, "");
}
void model(const Node &n, const std::string &pre, const std::vector<std::string> &parts, size_t k, std::vector<std::string> &out) {
    if(parts[k] == "**") {
        model(n, pre, parts, k + 1, out);
        for(auto &m : n.kids)
            if(m.dir && m.name[0] != '.')
                model(m, join(pre, m.name), parts, k, out);
        return;
    }
    for(auto &m : n.kids)
        if(gm(m.name, 0, parts[k], 0)) {
            if(k + 1 == parts.size())
                out.push_back(join(pre, m.name));
            else if(m.dir)
                model(m, join(pre, m.name), parts, k + 1, out);
        }
}
std::string pat_part(vh::Rng &r, const Node &tree) {
    static const char *w[] = {"*", "*", "a*", "*b", "*.txt", "?", "a?", "?*", "*a*", "*a*b", "a*b*", "*?", ".*", ".h*", "a*a", "*ab", "?b*",
                              "*b*b", "*.*", "a.txt", "n*", "**x", "*.*.*"};
    if(r.chance(1, 4))
        return NAMES[r.below(17)];
    if(r.chance(1, 3) && !tree.kids.empty())
        return tree.kids[r.below(tree.kids.size())].name;
    if(r.chance(1, 10)) {
        std::string s;
        for(size_t n = 1 + r.below(6); n; --n)
            s += "ab*?."[r.below(5)];
        return s;
    }
    return w[r.below(20)];
}
std::vector<std::string> all_paths(const Node &n, const std::string &pre) {
    std::vector<std::string> v;
    for(auto &m : n.kids) {
        v.push_back(join(pre, m.name));
        if(m.dir)
            for(auto &x : all_paths(m, join(pre, m.name)))
                v.push_back(x);
    }
    return v;
}
std::string listing(const std::vector<std::string> &v) {
    std::string s;
    for(auto &x : v)
        s += x + " ";
    return s.substr(0, 1500);
}
// Some file systems do not tell the types of directory entries (readdir(3), DT_UNKNOWN).
bool hide_types = false;
size_t types_hidden = 0;
void glob_case(Case &c, bool low_fds, bool mutate, bool no_types = false) {
    auto &r = c.rng;
    struct Hide {
        Hide(bool h) { hide_types = h, types_hidden = 0; }
        ~Hide() { hide_types = false; }
    } hide(no_types);
    Dir d;
    Node root{"", true, {}};
    int budget = low_fds ? 60 : 40;
    grow(r, root, 0, budget);
    if(low_fds) // many directories
        for(int i = 0; i < 30; i++) {
            Node m{"w" + std::to_string(i), true, {}};
            m.kids.push_back(Node{"a", r.chance(1, 2), {}});
            root.kids.push_back(m);
        }
    size_t dirs = 0;
    std::string base = d.path + "/t";
    build(root, base, dirs);
    int ways = r.below(4);
    std::string start = ways == 0 ? "" : ways == 1 ? "t" : ways == 2 ? base : base + "/";
    if(chdir(ways == 0 ? base.c_str() : d.path.c_str()))
        abort();
    struct Back {
        ~Back() {
            if(chdir("/"))
                abort();
        }
    } back;
    P::Path sp = start.empty() ? P::Path() : P::Path(start.c_str());
    int rounds = mutate ? 1 : 3;
    for(int q = 0; q < rounds; q++) {
        std::vector<std::string> parts;
        size_t np = 1 + r.below(4);
        size_t star = r.chance(1, 2) || low_fds ? r.below(np) : 99;
        for(size_t i = 0; i < np; i++)
            parts.push_back(i == star && i + 1 < np ? "**" : pat_part(r, root));
        if(r.chance(1, 12)) // a second one is refused
            parts.insert(parts.begin() + r.below(parts.size()), "**");
        if(low_fds && np == 1) {
            parts.insert(parts.begin(), "**");
        }
        std::string pat;
        int nstar = 0;
        bool badstar = false;
        for(size_t i = 0; i < parts.size(); i++) {
            pat += (i ? "/" : "") + parts[i];
            if(parts[i] == "**")
                ++nstar;
            else if(parts[i].find("**") != std::string::npos)
                badstar = true;
        }
        if(parts.back() == "**")
            continue; // what a final ** means is not claimed
        c.note("tree of %zu directories, start %s, pattern %s", dirs, show(start).c_str(), show(pat).c_str());
        c.mixs(pat.data(), pat.size());
        c.mix(dirs);
        for(auto &x : all_paths(root, ""))
            c.mixs(x.data(), x.size());
        size_t fd0 = open_fds();
        struct rlimit old;
        getrlimit(RLIMIT_NOFILE, &old);
        std::vector<std::string> got, want;
        bool th;
        std::string victim;
        if(low_fds) {
            int lowest = dup(0);
            close(lowest);
            struct rlimit low = {(rlim_t)lowest + 12, old.rlim_max};
            setrlimit(RLIMIT_NOFILE, &low);
        }
        size_t stop = r.chance(1, 8) ? r.below(4) : (size_t)-1;
        {
            vh::Exact pe(pat + '\0');
            P::GlobResult keep; // default constructed: nothing
            EXPECT(!keep.next(), "glob.default", "a default GlobResult yields something");
            th = throws_py([&] {
                P::GlobResult g = sp.glob(pe.p);
                memset(pe.p, '#', pat.size()); // the pattern must have been copied
                if(r.chance(1, 3))
                    keep = P::move(g);
                else if(r.chance(1, 3)) {
                    P::GlobResult moved(P::move(g));
                    keep = P::move(moved);
                }
                P::GlobResult &u = keep.next() ? keep : g; // consumes one if it was moved
                (void)u;
            });
            // a clean run for the comparison
            if(!th) {
                auto all = all_paths(root, "");
                P::GlobResult g = sp.glob(pat.c_str());
                size_t at = mutate && !all.empty() ? r.below(4) : (size_t)-1;
                while(got.size() < stop) {
                    if(got.size() == at && victim.empty()) {
                        victim = all[r.below(all.size())];
                        vh::rm_rf_scratch(d.sub + "/t/" + victim);
                        c.note("removed %s after %zu results", victim.c_str(), at);
                    }
                    auto n = g.next();
                    if(!n)
                        break;
                    got.push_back(str(n.value()));
                    if(got.size() > 5000)
                        break;
                }
                if(stop == (size_t)-1)
                    EXPECT(!g.next() && !g.next(), "glob.restart", "results after the end");
            }
        }
        if(low_fds)
            setrlimit(RLIMIT_NOFILE, &old);
        EXPECT(th == (nstar > 1 || badstar), "glob.refusal", "pattern %s: threw=%d", show(pat).c_str(), th);
        size_t fd1 = open_fds();
        EXPECT(fd1 == fd0, "glob.fd-leak", "%zu descriptors before, %zu after", fd0, fd1);
        if(th)
            continue;
        model(root, norm(start), parts, 0, want);
        std::sort(want.begin(), want.end());
        std::sort(got.begin(), got.end());
        EXPECT(std::adjacent_find(got.begin(), got.end()) == got.end(), "glob.duplicate", "%s yields %s twice", show(pat).c_str(),
               std::adjacent_find(got.begin(), got.end())->c_str());
        std::vector<std::string> extra, missing;
        std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(extra));
        std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(missing));
        EXPECT(extra.empty(), "glob.extra", "%s also yields %s", show(pat).c_str(), listing(extra).c_str());
        if(!victim.empty()) {
            std::string v = join(norm(start), victim);
            std::vector<std::string> m2;
            for(auto &x : missing)
                if(x != v && x.compare(0, v.size() + 1, v + "/") != 0)
                    m2.push_back(x);
            missing = m2;
            c.cover("trees-changed-while-globbing");
        }
        if(stop == (size_t)-1)
            EXPECT(missing.empty(), "glob.missing", "%s does not yield %s", show(pat).c_str(), listing(missing).c_str());
        c.cover("glob-matches", got.size());
        c.cover("entries-of-unknown-type", types_hidden);
        types_hidden = 0;
        if(!victim.empty())
            return;
    }
}
} // namespace
extern "C" dirent *__real_readdir(DIR *);
extern "C" dirent *__wrap_readdir(DIR *d) {
    dirent *e = __real_readdir(d);
    if(e && hide_types) {
        e->d_type = DT_UNKNOWN;
        ++types_hidden;
    }
    return e;
}
VH_SUITE("P21", glob_trees, 6) { glob_case(c, false, false); }
VH_SUITE("P21", glob_few_descriptors, 1) { glob_case(c, !vh::on_valgrind(), false); }
VH_SUITE("P21", glob_changing_tree, 1) { glob_case(c, false, true); }
VH_SUITE("P21", glob_unknown_types, 1) { glob_case(c, false, c.rng.chance(1, 4), true); }
// one directory, many names: the matcher itself
VH_SUITE("P21", glob_names, 3) {
    auto &r = c.rng;
    Dir d;
    std::set<std::string> names;
    size_t n = 1 + r.below(12);
    if(r.chance(1, 120)) { // more than any one read of the directory returns
        n = 2000 + r.below(2000);
        while(names.size() < n)
            names.insert("a" + std::to_string(r.below(100000)) + (r.chance(1, 2) ? "b" : "cc"));
        c.cover("crowded-directories");
    }
    while(names.size() < n) {
        std::string s;
        for(size_t k = 1 + r.below(7); k; --k)
            s += "aabb.c"[r.below(6)];
        if(s != "." && s != "..")
            names.insert(s);
    }
    for(auto &s : names)
        put(d.path + "/" + s, "");
    for(int q = 0; q < 12; q++) {
        std::string p;
        for(size_t k = 1 + r.below(7); k; --k) {
            char ch = "aabb.**?c"[r.below(9)];
            if(ch == '*' && !p.empty() && p.back() == '*')
                ch = 'b';
            p += ch;
        }
        if(p == "." || p == "..")
            continue;
        c.note("pattern %s", p.c_str());
        c.mixs(p.data(), p.size());
        std::set<std::string> want, got;
        for(auto &s : names)
            if(gm(s, 0, p, 0))
                want.insert(s);
        P::GlobResult g = P::Path(d.path.c_str()).glob(p.c_str());
        size_t count = 0;
        while(auto x = g.next()) {
            ++count;
            got.insert(last_part(str(x.value())));
        }
        EXPECT(got == want && count == got.size(), "glob.match", "%s among %s: got %s", p.c_str(),
               listing({names.begin(), names.end()}).c_str(), listing({got.begin(), got.end()}).c_str());
        c.cover("glob-matches", count);
    }
}

// Names up to the longest the file system takes, patterns made from them; deep chains of
// directories (paths of several thousand bytes) and many directories side by side.
VH_SUITE("P21", glob_long, 1) {
    auto &r = c.rng;
    Dir d;
    const unsigned shape = r.below(12);
    auto name = [&](size_t len) {
        static const char *bits[] = {"a", "b", ".", "aab", "\xc3\xa4", "\xff", "-", " "};
        std::string n;
        while(n.size() < len)
            n += r.chance(1, 2) ? "a" : bits[r.below(8)];
        return n.substr(0, len);
    };
    auto pattern = [&](std::string p) { // made from a name: up to three stars, some question marks
        if(p[0] == '.' || p.find('*') != std::string::npos)
            return p;
        std::vector<std::pair<size_t, size_t>> cuts;
        size_t at = r.below(p.size() + 1);
        std::string out = p.substr(0, at);
        for(int stars = 1 + r.below(3); stars && at <= p.size(); --stars) {
            size_t skip = r.chance(1, 4) ? 0 : r.below(p.size() - at + 1), keep = r.below(p.size() - at - skip + 1);
            if(stars == 1 && r.chance(1, 2))
                keep = p.size() - at - skip;
            if(out.empty() || out.back() != '*')
                out += '*';
            out += p.substr(at + skip, keep);
            at += skip + keep;
        }
        for(auto &ch : out)
            if(ch != '*' && r.chance(1, 20))
                ch = '?';
        if(out.size() && r.chance(1, 8)) {
            char &ch = out[r.below(out.size())];
            ch = ch == '*' ? '*' : 'b';
        }
        return out;
    };
    if(shape < 10) {
        std::set<std::string> names;
        size_t n = 1 + r.below(5);
        while(names.size() < n) {
            static const size_t L[] = {15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 253, 254, 255};
            std::string s = name(r.chance(1, 2) ? L[r.below(15)] : 1 + r.below(255));
            if(s != "." && s != "..")
                names.insert(s);
        }
        for(auto &s : names)
            put(d.path + "/" + s, "");
        std::vector<std::string> nv(names.begin(), names.end());
        for(int q = 0; q < 10; q++) {
            std::string p = pattern(nv[r.below(nv.size())]);
            if(p == "." || p == ".." || p.empty())
                continue;
            c.note("pattern %s", show(p).c_str());
            c.mixs(p.data(), p.size());
            std::set<std::string> want, got;
            for(auto &s : names)
                if(gm(s, 0, p, 0))
                    want.insert(s);
            vh::Exact pe(p + '\0');
            P::GlobResult g = P::Path(d.path.c_str()).glob(pe.p);
            size_t count = 0;
            while(auto x = g.next()) {
                ++count;
                got.insert(last_part(str(x.value())));
            }
            EXPECT(got == want && count == got.size(), "glob.match", "%s among %s: got %s", show(p).c_str(),
                   listing(nv).c_str(), listing({got.begin(), got.end()}).c_str());
            c.cover("glob-long-matches", count);
        }
        return;
    }
    // directories
    std::vector<std::string> files, pats;
    if(shape == 10) {
        size_t len = 1 + r.below(200), depth = std::min<size_t>(1 + r.below(120), 3300 / (len + 1));
        std::string at = d.path, rel;
        for(size_t k = 0; k < depth; k++) {
            std::string dn = std::string(1, 'd') + std::string(len - 1, (char)('a' + r.below(3)));
            rel += dn + "/";
            at += "/" + dn;
            if(mkdir(at.c_str(), 0755))
                abort();
            if(k + 1 == depth || r.chance(1, 10)) {
                put(at + "/found.txt", "");
                files.push_back(rel + "found.txt");
            }
        }
        c.note("%zu directories inside each other, names of %zu", depth, len);
        c.mix(depth * 1000 + len);
        c.cover("glob-deep-chains");
    } else {
        size_t n = 200 + r.below(400);
        for(size_t k = 0; k < n; k++) {
            std::string dn = "d" + std::to_string(k);
            if(mkdir((d.path + "/" + dn).c_str(), 0755))
                abort();
            if(r.chance(1, 3)) {
                put(d.path + "/" + dn + "/found.txt", "");
                files.push_back(dn + "/found.txt");
            }
        }
        pats = {"d*/found.txt"};
        c.note("%zu directories side by side", n);
        c.mix(n);
        c.cover("glob-wide-trees");
    }
    pats.push_back("**/found.txt");
    pats.push_back("**/f*.t?t");
    for(auto &p : pats) {
        std::vector<std::string> got;
        P::GlobResult g = P::Path(d.path.c_str()).glob(p.c_str());
        while(auto x = g.next())
            got.push_back(str(x.value()).substr(d.path.size() + 1));
        std::vector<std::string> want = files;
        std::sort(got.begin(), got.end());
        std::sort(want.begin(), want.end());
        EXPECT(got == want, "glob.tree", "%s: %zu of %zu files", p.c_str(), got.size(), want.size());
    }
}

// ------------------------------------------------------------------ P22
namespace {
size_t file_size_pick(vh::Rng &r) {
    static const size_t b[] = {0, 1, 2, 159, 160, 161, 255, 256, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 65535, 65536, 65537};
    if(r.chance(1, 60)) {
        static const size_t g[] = {131071, 131072, 131073, 200001, 262144, 1048575, 1048576, 1048577, 1500000};
        return g[r.below(9)];
    }
    return r.chance(1, 2) ? b[r.below(18)] : r.below(r.chance(1, 4) ? 30000 : 400);
}
std::string file_bytes(vh::Rng &r) {
    size_t n = file_size_pick(r);
    std::string s(n, 0);
    unsigned mode = r.below(5);
    for(auto &ch : s)
        switch(mode) {
        case 0: ch = (char)r.below(256); break;
        case 1: ch = "ab\n"[r.below(3)]; break;
        case 2: ch = r.chance(1, 60) ? '\n' : (char)('a' + r.below(26)); break;
        case 3: ch = "\0\n\r\xff\x1a"[r.below(5)]; break;
        default: ch = (char)('a' + r.below(26));
        }
    return s;
}
bool utf8_ok(const std::string &s) {
    size_t i = 0;
    auto b = [&](size_t k) { return k < s.size() ? (unsigned char)s[k] : 0; };
    auto cont = [&](size_t k) { return b(k) >= 0x80 && b(k) <= 0xbf && k < s.size(); };
    while(i < s.size()) {
        unsigned x = b(i);
        if(x < 0x80)
            i += 1;
        else if(x >= 0xc2 && x <= 0xdf && cont(i + 1))
            i += 2;
        else if(x >= 0xe0 && x <= 0xef && cont(i + 1) && cont(i + 2) && !(x == 0xe0 && b(i + 1) < 0xa0) &&
                !(x == 0xed && b(i + 1) > 0x9f))
            i += 3;
        else if(x >= 0xf0 && x <= 0xf4 && cont(i + 1) && cont(i + 2) && cont(i + 3) && !(x == 0xf0 && b(i + 1) < 0x90) &&
                !(x == 0xf4 && b(i + 1) > 0x8f))
            i += 4;
        else
            return false;
    }
    return true;
}
size_t mappings_of(const std::string &path) {
    std::string m = slurp("/proc/self/maps");
    size_t n = 0;
    for(size_t p = 0; (p = m.find(path + "\n", p)) != std::string::npos; ++p)
        ++n;
    return n;
}
} // namespace
VH_SUITE("P22", file_load, 3) {
    auto &r = c.rng;
    Dir d;
    std::string data = file_bytes(r), p = d.path + "/f";
    put(p, data);
    c.mixs(data.data(), std::min<size_t>(data.size(), 4000));
    c.mix(data.size());
    c.note("%zu bytes: %s", data.size(), show(data.substr(0, 100)).c_str());
    size_t fd0 = open_fds();
    {
        auto b = P::Path(p.c_str()).load_bytes();
        EXPECT((bool)b, "load.failed", "load_bytes of %zu bytes gave nothing", data.size());
        EXPECT(b.value().size() == data.size() && memcmp(b.value().data(), data.data(), data.size()) == 0, "load.bytes",
               "load_bytes of %zu bytes gave %zu", data.size(), b.value().size());
        auto t = P::Path(p.c_str()).load_text();
        bool ok = utf8_ok(data), nul = data.find('\0') != std::string::npos;
        if(!ok)
            EXPECT(!t, "load.invalid-text", "load_text accepted invalid UTF-8");
        else if(!nul)
            EXPECT((bool)t, "load.failed", "load_text refused %zu bytes of valid text", data.size());
        if(t)
            EXPECT(std::string(t.value().c_str(), t.value().size_bytes()) == data, "load.text", "load_text of %zu bytes gave %zu",
                   data.size(), t.value().size_bytes());
        c.cover("bytes-loaded", data.size());
    }
    EXPECT(open_fds() == fd0, "load.fd-leak", "descriptor leaked");
}
VH_SUITE("P22", file_load_text, 2) {
    auto &r = c.rng;
    Dir d;
    static const char *cps[] = {"a", "\n", "\x7f", "\xc2\x80", "\xdf\xbf", "\xe0\xa0\x80", "\xed\x9f\xbf", "\xef\xbf\xbd",
                                "\xf0\x90\x80\x80", "\xf4\x8f\xbf\xbf", "\xef\xbb\xbf", "\r"};
    std::string data;
    size_t n = r.below(r.chance(1, 8) ? 3000 : 12);
    while(n--)
        data += cps[r.below(12)];
    if(r.chance(1, 2) && !data.empty()) { // damage one byte or the end
        if(r.chance(1, 2))
            data[r.below(data.size())] = (char)r.below(256);
        else
            data.pop_back();
    }
    c.mixs(data.data(), std::min<size_t>(data.size(), 4000));
    c.note("%s", show(data.substr(0, 200)).c_str());
    put(d.path + "/f", data);
    size_t fd0 = open_fds();
    {
        auto t = P::Path((d.path + "/f").c_str()).load_text();
        if(!utf8_ok(data))
            EXPECT(!t, "load.invalid-text", "load_text accepted invalid UTF-8");
        else if(data.find('\0') == std::string::npos) {
            EXPECT((bool)t, "load.failed", "load_text refused valid text");
            EXPECT(std::string(t.value().c_str(), t.value().size_bytes()) == data, "load.text", "load_text changed the text");
        }
    }
    EXPECT(open_fds() == fd0, "load.fd-leak", "descriptor leaked");
}
VH_SUITE("P22", file_unusual, 1) {
    auto &r = c.rng;
    Dir d;
    int k = r.below(9);
    c.mix(k);
    c.note("kind %d", k);
    size_t fd0 = open_fds();
    if(k == 6 || k == 7) { // a file with holes
        std::string data(1 + r.below(300000), '\0'), p = d.path + "/sparse";
        int fd = open(p.c_str(), O_CREAT | O_RDWR, 0600);
        if(fd < 0 || ftruncate(fd, data.size()))
            abort();
        for(size_t i = r.below(4); i; i--) {
            size_t at = r.below(data.size());
            data[at] = (char)(1 + r.below(255));
            if(pwrite(fd, &data[at], 1, at) != 1)
                abort();
        }
        close(fd);
        c.note("%zu bytes", data.size());
        auto b = P::Path(p.c_str()).load_bytes();
        EXPECT(b && std::string(b.value().data(), b.value().size()) == data, "load.bytes", "load_bytes of a sparse file of %zu bytes",
               data.size());
        auto m = P::mmap_file(p.c_str());
        EXPECT((bool)m, "mmap.presence", "no mapping of a sparse file of %zu bytes", data.size());
        auto sp = m.value().span();
        EXPECT(std::string(&sp[0], sp.size()) == data, "mmap.bytes", "mapping of a sparse file of %zu bytes", data.size());
        P::File f(p.c_str(), "rb");
        std::string all;
        for(auto &&line : f) {
            P::Bytes l = P::move(line);
            all.append(l.data(), l.size());
        }
        EXPECT(all == data, "file.iteration", "lines of a sparse file of %zu bytes make %zu bytes", data.size(), all.size());
    } else if(k == 8) { // delivered in pieces, with pauses
        std::string data = gbytes(r, r.below(12000)), p = d.path + "/fifo";
        if(r.chance(1, 2))
            for(auto &ch : data)
                ch = r.chance(1, 40) ? '\n' : ch;
        if(mkfifo(p.c_str(), 0600))
            abort();
        const bool lines = r.chance(1, 2);
        const uint64_t seed = r.s[0];
        c.note("%zu bytes in pieces%s", data.size(), lines ? ", by line" : "");
        std::thread w([&] {
            vh::Rng q(seed);
            int fd = open(p.c_str(), O_WRONLY);
            if(fd < 0)
                abort();
            for(size_t i = 0; i < data.size();) {
                size_t n = std::min<size_t>(data.size() - i, 1 + q.below(q.chance(1, 3) ? 4096 : 900));
                if(write(fd, data.data() + i, n) != (ssize_t)n)
                    abort();
                i += n;
                usleep(q.below(300));
            }
            close(fd);
        });
        std::string all;
        bool got = true, shape = true;
        if(lines) {
            P::File f(p.c_str(), "rb");
            for(auto &&line : f) {
                P::Bytes l = P::move(line);
                all.append(l.data(), l.size());
                if(l.size() == 0 || memchr(l.data(), '\n', l.size() - 1) || (l.data()[l.size() - 1] != '\n' && all.size() != data.size()))
                    shape = false;
            }
        } else {
            auto b = P::Path(p.c_str()).load_bytes();
            got = (bool)b;
            if(got)
                all.assign(b.value().data(), b.value().size());
        }
        w.join();
        EXPECT(got && all == data, "load.pieces", "%zu bytes delivered in pieces, got %zu", data.size(), all.size());
        EXPECT(shape, "file.iteration", "a line does not end at its newline");
    } else if(k == 0) { // files that do not exist or cannot be read
        std::string paths[] = {d.path + "/missing", d.path, d.path + "/x/y", "/proc/self/mem", ""};
        if(symlink("nowhere", (d.path + "/dangling").c_str()))
            abort();
        for(auto &p : paths) {
            c.note("%s", p.c_str());
            P::Path q(p.c_str());
            EXPECT(!q.load_bytes(), "load.unreadable", "load_bytes(%s) gave something", p.c_str());
            EXPECT(!q.load_text(), "load.unreadable", "load_text(%s) gave something", p.c_str());
            if(p != "/proc/self/mem")
                EXPECT(!P::mmap_file(p.c_str()), "mmap.unreadable", "mmap_file(%s) gave something", p.c_str());
        }
        EXPECT(!P::Path((d.path + "/dangling").c_str()).load_bytes(), "load.unreadable", "dangling link");
        EXPECT(!P::mmap_file((d.path + "/dangling").c_str()), "mmap.unreadable", "dangling link");
    } else if(k == 1) { // a file whose size says 0
        std::string want = slurp("/proc/version");
        auto b = P::Path("/proc/version").load_bytes();
        EXPECT(b && std::string(b.value().data(), b.value().size()) == want, "load.bytes", "load_bytes(/proc/version)");
    } else if(k == 2) { // a pipe
        int pp[2];
        if(pipe(pp))
            abort();
        std::string data = gbytes(r, r.below(20000));
        if(write(pp[1], data.data(), data.size()) != (ssize_t)data.size())
            abort();
        std::string p = "/proc/self/fd/" + std::to_string(pp[0]);
        FILE *f = fopen(p.c_str(), "rb"); // keep a reader
        close(pp[1]);
        auto b = P::Path(p.c_str()).load_bytes();
        EXPECT(b && std::string(b.value().data(), b.value().size()) == data, "load.bytes", "load_bytes of a pipe with %zu bytes",
               data.size());
        fclose(f);
        close(pp[0]);
    } else { // through links
        std::string data = file_bytes(r);
        put(d.path + "/f", data);
        if(symlink("f", (d.path + "/l").c_str()))
            abort();
        auto b = P::Path((d.path + "/l").c_str()).load_bytes();
        EXPECT(b && std::string(b.value().data(), b.value().size()) == data, "load.bytes", "load_bytes through a link");
    }
    EXPECT(open_fds() == fd0, "load.fd-leak", "descriptor leaked");
}
VH_SUITE("P22", file_lines, 4) {
    auto &r = c.rng;
    Dir d;
    std::string data = file_bytes(r), p = d.path + "/f";
    bool whole = r.chance(1, 12); // all of it, perhaps as one line
    if(data.size() > 8000 && !whole)
        data.resize(8000);
    if(whole && r.chance(1, 2))
        std::replace(data.begin(), data.end(), '\n', 'n');
    if(r.chance(1, 3) && !data.empty())
        data.back() = '\n';
    put(p, data);
    c.mixs(data.data(), data.size());
    c.note("%zu bytes: %s", data.size(), show(data.substr(0, 100)).c_str());
    std::vector<std::string> want;
    for(size_t i = 0; i < data.size();) {
        size_t e = data.find('\n', i);
        e = e == std::string::npos ? data.size() : e + 1;
        want.push_back(data.substr(i, e - i));
        i = e;
    }
    size_t fd0 = open_fds();
    {
        P::File f(p.c_str(), r.chance(1, 2) ? "r" : "rb");
        for(size_t i = 0; i < want.size(); i++) {
            P::Bytes b = f.readline_bytes();
            EXPECT(std::string(b.data(), b.size()) == want[i], "file.readline", "line %zu: %s, expected %s", i,
                   show(std::string(b.data(), b.size())).substr(0, 200).c_str(), show(want[i]).substr(0, 200).c_str());
        }
        for(int k = 0; k < 2; k++)
            EXPECT(f.readline_bytes().size() == 0, "file.readline-end", "a line after the last one");
        EXPECT(f.eof(), "file.eof", "not at the end");
    }
    {
        P::File f(p.c_str(), "rb");
        size_t i = 0;
        for(auto &&line : f) {
            P::Bytes b = P::move(line);
            EXPECT(i < want.size(), "file.iteration", "%zu lines, but iteration yields one more: %s", want.size(),
                   show(std::string(b.data(), b.size())).c_str());
            EXPECT(std::string(b.data(), b.size()) == want[i], "file.iteration", "line %zu is %s", i,
                   show(std::string(b.data(), b.size())).substr(0, 200).c_str());
            ++i;
        }
        EXPECT(i == want.size(), "file.iteration", "%zu of %zu lines", i, want.size());
    }
    EXPECT(open_fds() == fd0, "file.fd-leak", "descriptor leaked");
    c.cover("lines-read", want.size());
}
VH_SUITE("P22", file_mmap, 2) {
    auto &r = c.rng;
    Dir d;
    struct F {
        std::string path, data;
    } f[2];
    for(int i = 0; i < 2; i++) {
        f[i].path = d.path + "/m" + std::to_string(i);
        f[i].data = file_bytes(r);
        put(f[i].path, f[i].data);
        c.mix(f[i].data.size());
    }
    size_t fd0 = open_fds();
    {
        P::MMapping m[3];
        int holds[3] = {-1, -1, -1};
        int n = 3 + r.below(8);
        for(int s = 0; s < n; s++) {
            int a = r.below(3), b = r.below(3), k = r.below(2);
            switch(r.below(4)) {
            case 0:
            case 1: {
                auto o = P::mmap_file(f[k].path.c_str());
                c.note("m%d = map %d", a, k);
                EXPECT((bool)o == !f[k].data.empty(), "mmap.presence", "mmap_file of %zu bytes", f[k].data.size());
                if(o) {
                    m[a] = P::move(o.value());
                    holds[a] = k;
                }
                break;
            }
            case 2:
                c.note("m%d = move m%d", a, b);
                m[a] = P::move(m[b]);
                if(a != b) {
                    holds[a] = holds[b];
                    holds[b] = -1;
                }
                break;
            case 3: {
                c.note("m%d moved through a new one", a);
                P::MMapping t(P::move(m[a]));
                EXPECT(m[a].span().size() == 0, "mmap.moved-from", "moved-from mapping is not empty");
                m[a] = P::move(t);
                break;
            }
            }
            size_t want[2] = {0, 0};
            for(int i = 0; i < 3; i++) {
                auto sp = m[i].span();
                if(holds[i] < 0) {
                    EXPECT(sp.size() == 0, "mmap.moved-from", "empty mapping shows %zu bytes", sp.size());
                } else {
                    ++want[holds[i]];
                    auto &dd = f[holds[i]].data;
                    EXPECT(sp.size() == dd.size() && memcmp(sp.data(), dd.data(), dd.size()) == 0, "mmap.bytes",
                           "mapping of %zu bytes shows %zu", dd.size(), sp.size());
                }
            }
            for(int i = 0; i < 2; i++) {
                // identical neighbouring mappings may be merged into one line
                size_t have = mappings_of(f[i].path);
                EXPECT(have <= want[i] && (have > 0) == (want[i] > 0), "mmap.leak", "%zu mappings of file %d alive, %zu expected",
                       have, i, want[i]);
            }
        }
    }
    for(auto &x : f)
        EXPECT(mappings_of(x.path) == 0, "mmap.leak", "mapping not released");
    EXPECT(open_fds() == fd0, "mmap.fd-leak", "descriptor leaked");
}
// the same paths and several open files over and over: contents that change between the loads, lines
// read alternately from files that are open at the same time
VH_SUITE("P22", file_again, 2) {
    auto &r = c.rng;
    Dir d;
    const size_t N = 3;
    std::string name[N], data[N];
    std::vector<P::Path> ps;
    auto write = [&](size_t k) {
        size_t n = r.chance(1, 3) ? data[k].size() : r.chance(1, 5) ? r.below(9000) : r.below(60);
        std::string s(n, 0);
        for(auto &ch : s)
            ch = r.chance(1, 8) ? '\n' : (char)('a' + r.below(26));
        data[k] = s;
        if(r.chance(1, 3))
            unlink(name[k].c_str());
        put(name[k], s);
        c.mixs(s.data(), std::min<size_t>(s.size(), 500));
        c.note("f%zu holds %zu bytes", k, n);
    };
    for(size_t k = 0; k < N; k++) {
        name[k] = d.path + "/f" + std::to_string(k);
        ps.emplace_back(name[k].c_str());
        write(k);
    }
    size_t fd0 = open_fds();
    for(int step = 0; step < 12; step++) {
        size_t k = r.below(N);
        switch(r.below(4)) {
        case 0: {
            auto b = ps[k].load_bytes();
            EXPECT(b && std::string(b.value().data(), b.value().size()) == data[k], "load.again", "load_bytes of f%zu", k);
            break;
        }
        case 1: {
            auto t = ps[k].load_text();
            EXPECT(t && std::string(t.value().c_str(), t.value().size_bytes()) == data[k], "load.again", "load_text of f%zu", k);
            break;
        }
        case 2: {
            auto m = P::mmap_file(name[k].c_str());
            EXPECT((bool)m == !data[k].empty(), "mmap.again", "mmap_file of f%zu", k);
            if(m) {
                auto sp = m.value().span();
                EXPECT(sp.size() == data[k].size() && memcmp(sp.data(), data[k].data(), sp.size()) == 0, "mmap.again", "mmap_file of f%zu",
                       k);
            }
            break;
        }
        default: { // lines of all of them, in turns
            const size_t M = 2 + r.below(3);
            std::deque<P::File> fs;
            std::vector<size_t> of(M), at(M, 0);
            for(size_t i = 0; i < M; i++) {
                of[i] = r.below(N);
                fs.emplace_back(name[of[i]].c_str(), "rb");
            }
            for(int q = 0; q < 40; q++) {
                size_t i = r.below(M);
                const std::string &s = data[of[i]];
                size_t e = s.find('\n', at[i]);
                e = e == std::string::npos ? s.size() : e + 1;
                P::Bytes b = fs[i].readline_bytes();
                EXPECT(std::string(b.data(), b.size()) == s.substr(at[i], e - at[i]), "file.readline-in-turns",
                       "file %zu of %zu (f%zu) at %zu: %s", i, M, of[i], at[i], show(std::string(b.data(), b.size())).c_str());
                at[i] = e;
                c.cover("lines-read-in-turns");
            }
        }
        }
        write(r.below(N));
    }
    EXPECT(open_fds() == fd0, "load.fd-leak", "descriptor leaked");
}
