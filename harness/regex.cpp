// P23: regular expressions. Two oracles: a small backtracking matcher over generated syntax trees,
// and PCRE2 itself, called directly, for arbitrary pattern texts.
#include "common26.hpp"
#include <memory>
#include <pystd2026_regex.hpp>
#define PCRE2_CODE_UNIT_WIDTH 8
#include <pcre2.h>
using vh::Case;
using vh::show;

namespace {
const char *CPS[] = {"a", "b", "c", "d", "1", "_", " ", "\n", "\xc3\xa4", "\xc3\xb6", "\xe2\x82\xac", "\xf0\x9f\x98\x80"};
const int NCP = 12;
struct Text {
    std::vector<int> cp;           // indices into CPS
    std::vector<size_t> off;       // byte offset of each code point, plus the end
    std::string s;
    explicit Text(std::vector<int> v) : cp(std::move(v)) {
        for(int i : cp) {
            off.push_back(s.size());
            s += CPS[i];
        }
        off.push_back(s.size());
    }
};
enum K { LIT, ANY, SET, SEQ, ALT, REP, CAP, GRP, BOL, EOL, LOOK, NLOOK, BREF, WB, DIGIT, WORD, SPACE };
struct Re {
    K k;
    std::vector<std::unique_ptr<Re>> sub;
    int a = 0, b = 0; // literal, group number, bounds (b < 0: no limit)
    bool neg = false, lazy = false;
    std::set<int> set;
    int minlen() const {
        int m = 0;
        switch(k) {
        case LIT: case ANY: case SET: case DIGIT: case WORD: case SPACE: return 1;
        case SEQ:
            for(auto &x : sub)
                m += x->minlen();
            return m;
        case ALT:
            m = sub[0]->minlen();
            for(auto &x : sub)
                m = std::min(m, x->minlen());
            return m;
        case REP: return a * sub[0]->minlen();
        case CAP: case GRP: return sub[0]->minlen();
        default: return 0;
        }
    }
    std::string text() const {
        std::string s;
        switch(k) {
        case LIT: return CPS[a];
        case ANY: return ".";
        case DIGIT: return neg ? "\\D" : "\\d";
        case WORD: return neg ? "\\W" : "\\w";
        case SPACE: return neg ? "\\S" : "\\s";
        case SET:
            s = neg ? "[^" : "[";
            for(int x : set)
                s += CPS[x];
            return s + "]";
        case SEQ:
            for(auto &x : sub)
                s += x->text();
            return s;
        case ALT:
            for(size_t i = 0; i < sub.size(); i++)
                s += (i ? "|" : "") + sub[i]->text();
            return s;
        case REP:
            s = sub[0]->text();
            if(a == 0 && b < 0) s += "*";
            else if(a == 1 && b < 0) s += "+";
            else if(a == 0 && b == 1) s += "?";
            else if(b < 0) s += "{" + std::to_string(a) + ",}";
            else if(a == b) s += "{" + std::to_string(a) + "}";
            else s += "{" + std::to_string(a) + "," + std::to_string(b) + "}";
            return s + (lazy ? "?" : "");
        case CAP: return "(" + sub[0]->text() + ")";
        case GRP: return "(?:" + sub[0]->text() + ")";
        case BOL: return "^";
        case EOL: return "$";
        case WB: return neg ? "\\B" : "\\b";
        case LOOK: return "(?=" + sub[0]->text() + ")";
        case NLOOK: return "(?!" + sub[0]->text() + ")";
        case BREF: return "\\" + std::to_string(a) + "(?:)";
        }
        return s;
    }
};
typedef std::unique_ptr<Re> R;
R mk(K k, int a = 0) {
    R r(new Re);
    r->k = k;
    r->a = a;
    return r;
}
struct Gen {
    vh::Rng &r;
    int groups = 0;
    std::set<int> open;
    R atom(int depth) {
        switch(r.below(depth > 0 ? 17 : 7)) {
        case 0: return mk(ANY);
        case 1: {
            R x = mk(SET);
            x->neg = r.chance(1, 3);
            for(size_t n = 1 + r.below(3); n; --n)
                x->set.insert((int)r.below(NCP));
            return x;
        }
        case 2: {
            R x = mk(r.chance(1, 3) ? DIGIT : r.chance(1, 2) ? WORD : SPACE);
            x->neg = r.chance(1, 3);
            return x;
        }
        default: return mk(LIT, (int)(r.chance(2, 3) ? r.below(3) : r.below(NCP)));
        case 7: case 8: case 9: case 10: {
            R x = mk(CAP, ++groups);
            int g = groups;
            open.insert(g);
            x->sub.push_back(alt(depth - 1));
            open.erase(g);
            return x;
        }
        case 11: {
            R x = mk(GRP);
            x->sub.push_back(alt(depth - 1));
            return x;
        }
        case 12: {
            R x = mk(r.chance(1, 2) ? LOOK : NLOOK);
            x->sub.push_back(alt(0));
            return x;
        }
        case 13: return mk(r.chance(1, 2) ? BOL : EOL);
        case 14: {
            R x = mk(WB);
            x->neg = r.chance(1, 3);
            return x;
        }
        case 15: {
            if(groups == 0)
                return mk(LIT, 0);
            int g = 1 + (int)r.below(groups);
            return open.count(g) || groups > 9 ? mk(LIT, 1) : mk(BREF, g);
        }
        }
    }
    R seq(int depth) {
        R s = mk(SEQ);
        size_t n = r.below(4) + (depth > 1);
        for(size_t i = 0; i < n; i++) {
            R x = atom(depth);
            bool q = x->k != BOL && x->k != EOL && x->k != LOOK && x->k != NLOOK && x->k != WB && x->k != BREF && x->minlen() > 0;
            if(q && r.chance(1, 3)) {
                R p = mk(REP);
                static const int lim[][2] = {{0, -1}, {1, -1}, {0, 1}, {2, 2}, {1, 2}, {0, 3}, {2, -1}};
                auto &l = lim[r.below(7)];
                p->a = l[0];
                p->b = l[1];
                p->lazy = r.chance(1, 4);
                p->sub.push_back(std::move(x));
                x = std::move(p);
            }
            s->sub.push_back(std::move(x));
        }
        return s;
    }
    R alt(int depth) {
        if(r.chance(2, 3))
            return seq(depth);
        R a = mk(ALT);
        for(size_t n = 2 + r.below(2); n; --n)
            a->sub.push_back(seq(depth));
        return a;
    }
};
struct TooHard {};
struct Matcher {
    const Text &t;
    int steps = 0;
    std::vector<std::pair<int, int>> cap;
    typedef std::function<bool(int)> Next;
    bool word(int i) const { return i >= 0 && i < (int)t.cp.size() && t.cp[i] <= 5; }
    bool one(const Re &x, int i) const {
        if(i >= (int)t.cp.size())
            return false;
        int ch = t.cp[i];
        switch(x.k) {
        case LIT: return ch == x.a;
        case ANY: return ch != 7;
        case SET: return x.set.count(ch) != (size_t)x.neg;
        case DIGIT: return (ch == 4) != x.neg;
        case WORD: return (ch <= 5) != x.neg;
        default: return (ch == 6 || ch == 7) != x.neg;
        }
    }
    bool rep(const Re &x, int n, int i, const Next &next) {
        auto more = [&] { return (x.b < 0 || n < x.b) && m(*x.sub[0], i, [&](int j) { return rep(x, n + 1, j, next); }); };
        if(n < x.a)
            return more();
        if(x.lazy)
            return next(i) || more();
        return more() || next(i);
    }
    bool seq(const Re &x, size_t k, int i, const Next &next) {
        if(k == x.sub.size())
            return next(i);
        return m(*x.sub[k], i, [&](int j) { return seq(x, k + 1, j, next); });
    }
    bool m(const Re &x, int i, const Next &next) {
        if(++steps > 60000)
            throw TooHard();
        switch(x.k) {
        case LIT: case ANY: case SET: case DIGIT: case WORD: case SPACE:
            return one(x, i) && next(i + 1);
        case SEQ: return seq(x, 0, i, next);
        case ALT:
            for(auto &s : x.sub)
                if(m(*s, i, next))
                    return true;
            return false;
        case REP: return rep(x, 0, i, next);
        case GRP: return m(*x.sub[0], i, next);
        case CAP:
            return m(*x.sub[0], i, [&](int j) {
                auto old = cap[x.a];
                cap[x.a] = {i, j};
                if(next(j))
                    return true;
                cap[x.a] = old;
                return false;
            });
        case BOL: return i == 0 && next(i);
        case EOL: {
            int n = (int)t.cp.size();
            return (i == n || (i == n - 1 && t.cp[i] == 7)) && next(i);
        }
        case WB: return ((word(i - 1) != word(i)) != x.neg) && next(i);
        case LOOK: {
            auto save = cap;
            if(!m(*x.sub[0], i, [](int) { return true; }))
                return false;
            if(next(i))
                return true;
            cap = save;
            return false;
        }
        case NLOOK: {
            auto save = cap;
            bool f = m(*x.sub[0], i, [](int) { return true; });
            cap = save;
            return !f && next(i);
        }
        case BREF: {
            auto g = cap[x.a];
            if(g.first < 0)
                return false;
            int n = g.second - g.first;
            if(i + n > (int)t.cp.size())
                return false;
            for(int k = 0; k < n; k++)
                if(t.cp[g.first + k] != t.cp[i + k])
                    return false;
            return next(i + n);
        }
        }
        return false;
    }
    bool search(const Re &re, int groups) {
        for(int s = 0; s <= (int)t.cp.size(); s++) {
            cap.assign(groups + 1, {-1, -1});
            if(m(re, s, [&](int j) {
                   cap[0] = {s, j};
                   return true;
               }))
                return true;
        }
        return false;
    }
};
P::U8String us(const std::string &s) { return P::U8String(s.data(), s.size()); }
// checks everything a match says; want: byte ranges, (size_t)-1 for unset
void check_match(Case &c, P::U8Match &m, const P::U8String &subject, const std::string &text,
                 const std::vector<std::pair<size_t, size_t>> &want, const char *pat) {
    EXPECT(m.num_groups() == want.size() - 1, "regex.num-groups", "%s has %zu groups, got %zu", pat, want.size() - 1, m.num_groups());
    for(size_t g = 0; g < want.size(); g++) {
        if(want[g].first == (size_t)-1) {
            std::string a, b;
            bool t1 = throws_py([&] {
                auto v = m.group(g);
                EXPECT(v.size_bytes() == 0, "regex.unset-group", "unset group %zu of %s has %zu bytes", g, pat, v.size_bytes());
            });
            bool t2 = throws_py([&] {
                auto v = m.get_submatch(g);
                EXPECT(v.size_bytes() == 0, "regex.unset-group", "unset submatch %zu of %s has %zu bytes", g, pat, v.size_bytes());
            });
            (void)t1, (void)t2;
            c.cover("unset-groups");
            continue;
        }
        std::string w = text.substr(want[g].first, want[g].second - want[g].first);
        auto v = m.group(g);
        size_t at = v.raw_view().data() - subject.c_str();
        std::string got(v.raw_view().data(), v.size_bytes());
        EXPECT(at == want[g].first && got == w, "regex.group", "group %zu of %s in %s: %s at %zu, expected %s at %zu", g, pat,
               show(text).c_str(), show(got).c_str(), at, show(w).c_str(), want[g].first);
        P::U8String s = m.get_submatch(g);
        EXPECT(std::string(s.c_str(), s.size_bytes()) == w, "regex.submatch", "submatch %zu of %s: %s, expected %s", g, pat,
               show(std::string(s.c_str(), s.size_bytes())).c_str(), show(w).c_str());
        c.cover("groups-compared");
    }
    for(size_t g : {want.size(), want.size() + 1, want.size() * 2, want.size() + 1000, (size_t)-1, (size_t)1 << 60}) {
        EXPECT(throws_py([&] { m.group(g); }), "regex.group-bound", "group(%zu) of %zu accepted", g, want.size());
        EXPECT(throws_py([&] { m.get_submatch(g); }), "regex.group-bound", "get_submatch(%zu) of %zu accepted", g, want.size());
    }
}
} // namespace

// PCRE2 called directly. Searches that take too long (nested repeats, quadratic scans of long
// subjects) are told apart beforehand, so that neither the oracle nor the library spends its time on them.
namespace {
bool too_long(pcre2_code *code, const std::string &t) {
    auto run = [&] {
        pcre2_match_context *mc = pcre2_match_context_create(nullptr);
        pcre2_set_match_limit(mc, 50000);
        pcre2_match_data *md = pcre2_match_data_create_from_pattern(code, nullptr);
        int rc = pcre2_match(code, (PCRE2_SPTR)t.data(), t.size(), 0, 0, md, mc);
        pcre2_match_data_free(md);
        pcre2_match_context_free(mc);
        return rc == PCRE2_ERROR_MATCHLIMIT;
    };
    if(t.size() <= 400)
        return run();
    auto ch = vh::run_child([&](int) { _exit(run() ? 7 : 0); }, 1);
    return ch.code != 0;
}
} // namespace
VH_SUITE("P23", regex_model, 5) {
    auto &r = c.rng;
    Gen g{r};
    R re = g.alt(2 + (int)r.below(2));
    std::string pat = re->text();
    c.note("pattern %s", show(pat).c_str());
    c.mixs(pat.data(), pat.size());
    P::U8Regex rx(us(pat));
    for(int k = 0; k < 5; k++) {
        std::vector<int> v;
        size_t n = r.below(r.chance(1, 4) ? 30 : 10);
        while(n--)
            v.push_back((int)(r.chance(2, 3) ? r.below(3) : r.below(NCP)));
        Text t(v);
        c.note("subject %s", show(t.s).c_str());
        c.mixs(t.s.data(), t.s.size());
        Matcher m{t};
        bool want;
        try {
            want = m.search(*re, g.groups);
        } catch(TooHard &) {
            continue;
        }
        P::U8String subject = us(t.s);
        bool got = false;
        bool th = throws_py([&] {
            P::U8Match first = P::regex_search(rx, subject);
            P::U8Match mt(P::move(first)); // the moved-to object owns the result
            got = true;
            EXPECT(want, "regex.false-match", "%s matches %s", show(pat).c_str(), show(t.s).c_str());
            std::vector<std::pair<size_t, size_t>> w;
            for(auto &x : m.cap)
                w.push_back(x.first < 0 ? std::make_pair((size_t)-1, (size_t)-1)
                                        : std::make_pair(t.off[x.first], t.off[x.second]));
            check_match(c, mt, subject, t.s, w, show(pat).c_str());
        });
        EXPECT(got == want && th == !want, "regex.missed-match", "%s in %s: match %d, expected %d", show(pat).c_str(),
               show(t.s).c_str(), got, want);
        c.cover(want ? "matches" : "non-matches");
    }
}
VH_SUITE("P23", regex_arbitrary, 4) {
    auto &r = c.rng;
    static const char *tok[] = {"a", "b", "c", "(", ")", "(", ")", "(?:", "[", "]", "[^", "-", "*", "+", "?", "{1,2}", "{", "}", "|", ".",
                                "^", "$", "\\d", "\\w", "\\b", "\\1", "\\2", "(?=", "(?!", "(?<=", "(?<!", "(?<n>", "\\k<n>", "\\K", "\\pL",
                                "(?i)", "\\x{e4}", "\xc3\xa4", "\xe2\x82\xac", "(?>", "*+", "\\", "\\Q", "\\E", "(?R)", "(?(1)", "(*ACCEPT)",
                                "\\p{Foo}", "\\g{1}", "(?|", "\\R", "\\X", "(?s)", "(?x) ", "#"};
    std::string pat;
    for(size_t n = 1 + r.below(9); n; --n)
        pat += tok[r.below(r.chance(1, 2) ? 20 : sizeof tok / sizeof *tok)];
    c.note("pattern %s", show(pat).c_str());
    c.mixs(pat.data(), pat.size());
    int ec = 0;
    size_t eo = 0;
    pcre2_code *code = pcre2_compile((PCRE2_SPTR)pat.data(), pat.size(), PCRE2_UTF, &ec, &eo, nullptr);
    struct FreeCode {
        pcre2_code *p;
        ~FreeCode() { pcre2_code_free(p); }
    } fc{code};
    P::U8String up = us(pat);
    bool th = throws_py([&] {
        P::U8Regex rx(up);
        EXPECT(code != nullptr, "regex.invalid-accepted", "pattern %s was accepted", show(pat).c_str());
        for(int k = 0; k < 4; k++) {
            std::vector<int> v;
            for(size_t n = r.below(12); n; --n)
                v.push_back((int)(r.chance(2, 3) ? r.below(3) : r.below(NCP)));
            Text t(v);
            c.note("subject %s", show(t.s).c_str());
            c.mixs(t.s.data(), t.s.size());
            if(code && too_long(code, t.s)) {
                c.cover("searches-skipped-as-too-long");
                continue;
            }
            pcre2_match_data *md = pcre2_match_data_create_from_pattern(code, nullptr);
            int rc = pcre2_match(code, (PCRE2_SPTR)t.s.data(), t.s.size(), 0, 0, md, nullptr);
            std::vector<std::pair<size_t, size_t>> w;
            size_t *ov = pcre2_get_ovector_pointer(md);
            for(size_t i = 0; i < pcre2_get_ovector_count(md); i++)
                w.push_back({ov[2 * i], ov[2 * i + 1]});
            pcre2_match_data_free(md);
            if(rc >= 0 && w[0].first > w[0].second)
                continue; // \K in an assertion: not a range
            P::U8String subject = us(t.s);
            bool got = false;
            bool nomatch = throws_py([&] {
                P::U8Match m = P::regex_search(rx, subject);
                got = true;
                EXPECT(rc >= 0, "regex.false-match", "%s matches %s", show(pat).c_str(), show(t.s).c_str());
                check_match(c, m, subject, t.s, w, show(pat).c_str());
            });
            EXPECT(got == (rc >= 0) && nomatch == !got, "regex.missed-match", "%s in %s: match %d, PCRE says %d",
                   show(pat).c_str(), show(t.s).c_str(), got, rc);
            c.cover(got ? "matches" : "non-matches");
        }
    });
    EXPECT(th == (code == nullptr), "regex.validity", "pattern %s: threw=%d, PCRE error %d", show(pat).c_str(), th, ec);
    c.cover(code ? "valid-patterns" : "invalid-patterns");
}
// always valid patterns from the whole syntax: lookaround with groups in it, \\K, named, recursive,
// conditional, atomic and branch-reset groups, options, properties; PCRE2 itself is the oracle
namespace {
struct Rich {
    vh::Rng &r;
    int groups = 0;
    int names = 0;
    std::string atom(int d) {
        static const char *leaf[] = {"a", "b", "c", "A", ".", "[ab]", "[^a]", "[a-c]", "\\d", "\\D", "\\w", "\\W", "\\s", "\\S", "\\pL", "\\PL",
                                     "\\p{Lu}", "\\x{e4}", "\xc3\xa4", "\xe2\x82\xac", "\\X", "\\R", "\\N", "\\h", "[[:alpha:]]", "[\xc3\xa4-\xe2\x82\xac]",
                                     "\\x62", "[\\w-]", "\\Qa.b\\E", "\\."};
        static const char *zero[] = {"^", "$", "\\b", "\\B", "\\A", "\\z", "\\Z", "\\K", "\\G"};
        if(d <= 0)
            return r.chance(1, 2) ? leaf[r.below(3)] : leaf[r.below(sizeof leaf / sizeof *leaf)];
        switch(r.below(24)) {
        case 0: case 1: case 2: ++groups; return "(" + alt(d - 1) + ")";
        case 3: return "(?:" + alt(d - 1) + ")";
        case 4: case 5: return (r.chance(2, 3) ? "(?=" : "(?!") + alt(d - 1) + ")";
        case 6: { // fixed length inside
            std::string in;
            int n = 1 + (int)r.below(2);
            for(int k = 0; k < n; k++)
                in += leaf[r.below(8)];
            if(r.chance(1, 2)) {
                ++groups;
                in = "(" + in + ")";
            }
            return (r.chance(2, 3) ? "(?<=" : "(?<!") + in + ")";
        }
        case 7: return "(?>" + alt(d - 1) + ")";
        case 8: {
            ++groups;
            std::string n = "n" + std::to_string(names++);
            return (r.chance(1, 2) ? "(?<" + n + ">" : "(?P<" + n + ">") + alt(d - 1) + ")";
        }
        case 9: return groups ? (r.chance(1, 2) ? "\\g{" + std::to_string(1 + r.below(groups)) + "}" : "\\g{-1}") : "a";
        case 10: return groups && r.chance(1, 2) ? "(?" + std::to_string(1 + r.below(groups)) + ")" : "b";
        case 11: return groups ? "(?(" + std::to_string(1 + r.below(groups)) + ")" + seq(d - 1) + "|" + seq(d - 1) + ")" : "c";
        case 12: { // branch reset: as many groups as the larger branch
            int g0 = groups;
            std::string a = seq(d - 1);
            int ga = groups;
            groups = g0;
            std::string b = seq(d - 1);
            groups = std::max(groups, ga);
            return names ? "(?:" + std::string("a") + ")" : "(?|" + a + "|" + b + ")";
        }
        case 13: return std::string("(?i:") + alt(d - 1) + ")";
        case 14: return std::string(r.chance(1, 2) ? "(?s-i:" : "(?m:") + alt(d - 1) + ")";
        case 15: return r.chance(1, 4) ? "(*ACCEPT)" : r.chance(1, 3) ? "(*COMMIT)" : r.chance(1, 2) ? "(*SKIP)" : "(*FAIL)";
        case 16: case 17: return zero[r.below(sizeof zero / sizeof *zero)];
        default: return atom(0);
        }
    }
    std::string seq(int d) {
        std::string s;
        for(size_t n = 1 + r.below(3); n; --n) {
            std::string a = atom(d);
            if(r.chance(1, 3) && a[0] != '^' && a[0] != '$') {
                static const char *q[] = {"*", "+", "?", "{2}", "{1,3}", "{2,}", "*?", "+?", "??", "*+", "++", "?+"};
                if(a.size() > 1 && a[0] == '\\' && a[1] == 'Q')
                    a = "(?:" + a + ")";
                a += q[r.below(12)];
            }
            s += a;
        }
        return s;
    }
    std::string alt(int d) {
        std::string s = seq(d);
        while(r.chance(1, 4))
            s += "|" + (r.chance(1, 8) ? std::string() : seq(d));
        return s;
    }
};
std::string rich_text(vh::Rng &r, size_t n) {
    static const char *w[] = {"a", "a", "b", "c", "A", "B", "1", "7", " ", "\n", "\r\n", "-", ".", "_", "\xc3\xa4", "\xc3\x84", "\xe2\x82\xac", "\xf0\x9f\x98\x80",
                              "e\xcc\x81", "a.b"};
    std::string s;
    while(s.size() < n)
        s += w[r.chance(1, 2) ? r.below(4) : r.below(sizeof w / sizeof *w)];
    return s;
}
} // namespace
VH_SUITE("P23", regex_rich, 4) {
    auto &r = c.rng;
    Rich g{r};
    std::string pat = g.alt(1 + (int)r.below(3));
    if(r.chance(1, 8)) {
        static const char *opt[] = {"(?i)", "(?s)", "(?m)", "(?x)", "(*CRLF)", "(*ANYCRLF)", "(*UCP)", "(?U)", "(?J)"};
        pat = opt[r.below(9)] + pat;
    }
    c.note("pattern %s", show(pat).c_str());
    c.mixs(pat.data(), pat.size());
    int ec = 0;
    size_t eo = 0;
    pcre2_code *code = pcre2_compile((PCRE2_SPTR)pat.data(), pat.size(), PCRE2_UTF, &ec, &eo, nullptr);
    struct FreeCode {
        pcre2_code *p;
        ~FreeCode() { pcre2_code_free(p); }
    } fc{code};
    P::U8String up = us(pat);
    bool th = throws_py([&] {
        P::U8Regex rx(up);
        EXPECT(code != nullptr, "regex.invalid-accepted", "pattern %s was accepted", show(pat).c_str());
        // matches of one pattern that live at the same time
        std::vector<P::U8String> subjects;
        std::vector<std::string> texts;
        for(int k = 0; k < 4; k++) {
            size_t n = r.chance(1, 40) ? 1000 + r.below(r.chance(1, 3) ? 200000 : 5000) : r.below(r.chance(1, 4) ? 60 : 14);
            std::string t;
            if(n > 400) { // mostly something that does not match, so that the scan gets far
                t = std::string(n, r.chance(1, 2) ? '-' : ' ') + rich_text(r, 12);
                if(r.chance(1, 2))
                    t += std::string(r.below(30), '-');
            } else
                t = rich_text(r, n);
            texts.push_back(t);
            subjects.push_back(us(t));
        }
        std::vector<P::U8Match> alive;
        struct Exp {
            size_t k;
            std::vector<std::pair<size_t, size_t>> w;
        };
        std::vector<Exp> exp;
        for(size_t k = 0; k < texts.size(); k++) {
            auto &t = texts[k];
            c.note("subject %s", show(t.size() > 300 ? t.substr(t.size() - 60) : t).c_str());
            c.mixs(t.data(), t.size());
            if(code && too_long(code, t)) {
                c.cover("searches-skipped-as-too-long");
                continue;
            }
            pcre2_match_data *md = pcre2_match_data_create_from_pattern(code, nullptr);
            int rc = pcre2_match(code, (PCRE2_SPTR)t.data(), t.size(), 0, 0, md, nullptr);
            std::vector<std::pair<size_t, size_t>> w;
            size_t *ov = pcre2_get_ovector_pointer(md);
            for(size_t i = 0; i < pcre2_get_ovector_count(md); i++)
                w.push_back({ov[2 * i], ov[2 * i + 1]});
            pcre2_match_data_free(md);
            bool odd = false;
            if(rc >= 0)
                for(auto &x : w)
                    odd |= x.first > x.second; // \\K in an assertion: not a range
            if(odd)
                continue;
            bool got = false;
            bool nomatch = throws_py([&] {
                P::U8Match m = P::regex_search(rx, subjects[k]);
                got = true;
                EXPECT(rc >= 0, "regex.false-match", "%s matches %s", show(pat).c_str(), show(t).c_str());
                alive.push_back(P::move(m));
                exp.push_back({k, w});
            });
            EXPECT(got == (rc >= 0) && nomatch == !got, "regex.missed-match", "%s in %s: match %d, PCRE says %d", show(pat).c_str(),
                   show(t.size() > 300 ? t.substr(t.size() - 60) : t).c_str(), got, rc);
            c.cover(got ? "matches" : rc == PCRE2_ERROR_NOMATCH ? "non-matches" : "match-errors");
            if(t.size() > 65536)
                c.cover("subjects-over-64k");
        }
        for(size_t i = 0; i < alive.size(); i++)
            check_match(c, alive[i], subjects[exp[i].k], texts[exp[i].k], exp[i].w, show(pat).c_str());
    });
    EXPECT(th == (code == nullptr), "regex.validity", "pattern %s: threw=%d, PCRE error %d", show(pat).c_str(), th, ec);
    c.cover(code ? "valid-patterns" : "invalid-patterns");
}
// many groups, long subjects, several matches of one pattern alive at once
VH_SUITE("P23", regex_big, 1) {
    auto &r = c.rng;
    size_t n = 1 + r.below(60);
    std::string pat;
    std::vector<size_t> opt;
    for(size_t i = 0; i < n; i++) {
        pat += r.chance(1, 3) ? "(x)?" : "(a+?)";
        opt.push_back(pat[pat.size() - 1] == '?' && pat[pat.size() - 2] == ')');
    }
    std::string t1 = std::string(r.below(r.chance(1, 6) ? 150000 : 2000), 'b'), t2 = std::string(r.below(50), '-');
    size_t s1 = t1.size(), s2 = t2.size();
    for(size_t i = 0; i < n; i++)
        if(!opt[i])
            t1 += 'a', t2 += 'a';
    if(t1.size() == s1) // nothing but optional groups matches at once
        s1 = s2 = 0;
    c.note("pattern %s, subjects of %zu and %zu bytes", pat.c_str(), t1.size(), t2.size());
    c.mixs(pat.data(), pat.size());
    c.mix(t1.size());
    P::U8Regex rx(us(pat));
    P::U8String u1 = us(t1), u2 = us(t2);
    P::U8Match m1 = P::regex_search(rx, u1);
    P::U8Match m2 = P::regex_search(rx, u2);
    for(int k = 0; k < 2; k++) {
        size_t start = k ? s2 : s1, at = start;
        std::vector<std::pair<size_t, size_t>> w{{start, 0}};
        for(size_t i = 0; i < n; i++)
            if(opt[i])
                w.push_back({(size_t)-1, (size_t)-1});
            else
                w.push_back({at, at + 1}), ++at;
        w[0].second = at;
        check_match(c, k ? m2 : m1, k ? u2 : u1, k ? t2 : t1, w, pat.c_str());
    }
}

// the same pattern and text objects, over and over: texts edited in place between the searches,
// objects of other values put where earlier ones were
VH_SUITE("P23", regex_reuse, 2) {
    auto &r = c.rng;
    struct Pat {
        std::string s;
        pcre2_code *code;
        std::unique_ptr<P::U8Regex> rx;
        ~Pat() { pcre2_code_free(code); }
    };
    auto fresh = [&]() -> std::unique_ptr<Pat> {
        for(;;) {
            auto p = std::make_unique<Pat>();
            if(r.chance(1, 2)) {
                static const char *simple[] = {"a", "b+", "ab", "(a)(b)?", "^a", "a$", "\\d", "[^a]", "\xc3\xa4", "(b|c)a", "x", "1.1"};
                p->s = simple[r.below(12)];
            } else {
                Rich g{r};
                p->s = g.alt(1);
            }
            int ec = 0;
            size_t eo = 0;
            p->code = pcre2_compile((PCRE2_SPTR)p->s.data(), p->s.size(), PCRE2_UTF, &ec, &eo, nullptr);
            if(p->code) {
                p->rx = std::make_unique<P::U8Regex>(us(p->s));
                return p;
            }
        }
    };
    std::vector<std::unique_ptr<Pat>> pats;
    std::vector<std::string> model;
    std::vector<P::U8String> texts;
    for(int i = 0; i < 2; i++) {
        pats.push_back(fresh());
        model.push_back(rich_text(r, r.below(12)));
        texts.push_back(us(model[i]));
        if(r.chance(1, 2))
            texts[i].reserve(200);
    }
    texts.reserve(8);
    static const char *cps[] = {"a", "b", "c", "1", "-", "\xc3\xa4", "\xe2\x82\xac"};
    static const uint32_t cpv[] = {'a', 'b', 'c', '1', '-', 0xe4, 0x20ac};
    for(int step = 0; step < 40; step++) {
        size_t k = r.below(2);
        std::string &m = model[k];
        P::U8String &t = texts[k];
        switch(r.below(9)) {
        case 0:
            if(!m.empty()) {
                t.pop_back();
                do {
                    char ch = m.back();
                    m.pop_back();
                    if((ch & 0xc0) != 0x80)
                        break;
                } while(!m.empty());
                if(r.chance(1, 2)) { // other text of the same length
                    size_t w = r.below(7);
                    t.append_codepoint(cpv[w]);
                    m += cps[w];
                }
            }
            break;
        case 1: {
            size_t w = r.below(7);
            t.append_codepoint(cpv[w]);
            m += cps[w];
            break;
        }
        case 2:
            if(!m.empty()) {
                t.pop_front();
                do
                    m.erase(0, 1);
                while(!m.empty() && (m[0] & 0xc0) == 0x80);
            }
            break;
        case 3: {
            std::string more = rich_text(r, r.below(4));
            t += us(more);
            m += more;
            break;
        }
        case 4: // a text of the same size
            for(auto &ch : m)
                if(!(ch & 0x80))
                    ch = "abc1-"[r.below(5)];
            t = us(m);
            break;
        case 5:
            m = rich_text(r, r.below(20));
            t = us(m);
            break;
        case 6: {
            size_t w = r.below(5);
            std::string v = cps[w];
            t.insert(t.cbegin(), P::U8StringView(v.data(), v.size()));
            m = v + m;
            break;
        }
        case 7: {
            size_t j = r.below(2);
            c.note("new pattern");
            if(r.chance(1, 2))
                pats[j].reset();
            pats[j] = fresh();
            break;
        }
        default:
            break;
        }
        Pat &p = *pats[r.below(2)];
        c.note("%s in text %zu: %s", show(p.s).c_str(), k, show(m).c_str());
        c.mixs(m.data(), m.size());
        c.mixs(p.s.data(), p.s.size());
        if(too_long(p.code, m)) {
            c.cover("searches-skipped-as-too-long");
            continue;
        }
        pcre2_match_data *md = pcre2_match_data_create_from_pattern(p.code, nullptr);
        int rc = pcre2_match(p.code, (PCRE2_SPTR)m.data(), m.size(), 0, 0, md, nullptr);
        std::vector<std::pair<size_t, size_t>> w;
        size_t *ov = pcre2_get_ovector_pointer(md);
        bool odd = false;
        for(size_t i = 0; i < pcre2_get_ovector_count(md); i++) {
            w.push_back({ov[2 * i], ov[2 * i + 1]});
            odd |= rc >= 0 && ov[2 * i] > ov[2 * i + 1];
        }
        pcre2_match_data_free(md);
        if(odd)
            continue;
        bool got = false;
        bool nomatch = throws_py([&] {
            P::U8Match mt = P::regex_search(*p.rx, t);
            got = true;
            EXPECT(rc >= 0, "regex.false-match", "%s matches %s", show(p.s).c_str(), show(m).c_str());
            check_match(c, mt, t, m, w, show(p.s).c_str());
        });
        EXPECT(got == (rc >= 0) && nomatch == !got, "regex.missed-match", "%s in %s: match %d, PCRE says %d", show(p.s).c_str(),
               show(m).c_str(), got, rc);
        c.cover(got ? "matches-in-edited-texts" : "non-matches-in-edited-texts");
    }
}
