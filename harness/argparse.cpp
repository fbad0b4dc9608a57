// P19: command line parsing.
#include "common26.hpp"
#include <optional>
#include <unistd.h>
#include <pystd2026_argparse.hpp>
using vh::Case;

namespace {
typedef P::ArgumentType T;
typedef P::ArgumentAction A;
struct Val {
    int kind = 0; // 0 bool, 1 int, 2 string, 3 array
    bool b = false;
    int64_t i = 0;
    std::string s;
    std::vector<std::string> v;
    bool operator==(const Val &o) const { return kind == o.kind && b == o.b && i == o.i && s == o.s && v == o.v; }
    std::string str() const {
        switch(kind) {
        case 0: return b ? "true" : "false";
        case 1: return std::to_string(i);
        case 2: return vh::show(s);
        default: {
            std::string r = "[";
            for(auto &x : v)
                r += vh::show(x) + ",";
            return r + "]";
        }
        }
    }
};
struct Spec {
    std::string name, lng, help;
    char shrt = 0;
    T type = T::String;
    A action = A::Store;
    std::optional<Val> dflt;
    std::optional<int64_t> lo, hi;
    bool flag() const { return action == A::StoreTrue || action == A::StoreFalse; }
};
int kind_of(T t) { return t == T::Boolean ? 0 : t == T::Integer ? 1 : t == T::String ? 2 : 3; }
P::CString cs(const std::string &s) { return P::CString(s.data(), s.size()); }
P::ArgumentValue lib_value(const Val &v) {
    switch(v.kind) {
    case 0: return P::ArgumentValue(v.b);
    case 1: return P::ArgumentValue(v.i);
    case 2: return P::ArgumentValue(cs(v.s));
    default: {
        P::Vector<P::CString> a;
        for(auto &x : v.v)
            a.push_back(cs(x));
        return P::ArgumentValue(P::move(a));
    }
    }
}
P::Argument lib_arg(const Spec &s) {
    P::Argument a;
    a.name = cs(s.name);
    a.short_arg = s.shrt;
    a.long_arg = cs(s.lng);
    a.help = P::U8String(s.help.data(), s.help.size());
    a.type = s.type;
    a.aaction = s.action;
    if(s.dflt)
        a.default_value = P::Optional<P::ArgumentValue>(lib_value(*s.dflt));
    if(s.lo)
        a.minval = P::Optional<int64_t>(*s.lo);
    if(s.hi)
        a.maxval = P::Optional<int64_t>(*s.hi);
    return a;
}
Val lib_to_val(const P::ArgumentValue &x) {
    Val v;
    if(auto *b = x.get_if<bool>())
        v.kind = 0, v.b = *b;
    else if(auto *i = x.get_if<int64_t>())
        v.kind = 1, v.i = *i;
    else if(auto *s = x.get_if<P::CString>())
        v.kind = 2, v.s = std::string(s->c_str(), s->size());
    else if(auto *a = x.get_if<P::Vector<P::CString>>()) {
        v.kind = 3;
        for(auto &e : *a)
            v.v.push_back(std::string(e.c_str(), e.size()));
    } else
        v.kind = 9;
    return v;
}
bool parse_int(const std::string &s, int64_t &out) {
    size_t i = 0;
    while(i < s.size() && strchr(" \t\n\v\f\r", s[i]))
        ++i;
    bool neg = false;
    if(i < s.size() && (s[i] == '+' || s[i] == '-'))
        neg = s[i++] == '-';
    if(i == s.size())
        return false;
    __int128 v = 0;
    for(; i < s.size(); ++i) {
        if(s[i] < '0' || s[i] > '9')
            return false;
        v = v * 10 + (s[i] - '0');
        if(v > ((__int128)1 << 64))
            return false;
    }
    if(neg)
        v = -v;
    if(v > INT64_MAX || v < INT64_MIN)
        return false;
    out = (int64_t)v;
    return true;
}
enum Outcome { OK, REJECT, HELP };
struct Model {
    const std::vector<Spec> &spec;
    bool posargs;
    std::map<std::string, Val> vals;
    int consumed_values = 0;
    Outcome run(const std::vector<std::string> &argv) {
        vals.clear();
        for(auto &s : spec)
            if(s.dflt)
                vals[s.name] = *s.dflt;
        for(size_t i = 1; i < argv.size(); i++) {
            const std::string &a = argv[i];
            if(a == "--help" || a == "-h")
                return HELP;
            if(a == "--")
                return OK;
            if(a.empty() || a == "-")
                return REJECT;
            if(a[0] != '-') {
                if(!posargs)
                    return REJECT;
                continue;
            }
            const Spec *s = nullptr;
            std::optional<std::string> value;
            if(a[1] == '-') {
                size_t eq = a.find('=');
                std::string key = a.substr(0, eq);
                for(auto &x : spec)
                    if(x.lng == key)
                        s = &x;
                if(eq != std::string::npos)
                    value = a.substr(eq + 1);
            } else {
                for(auto &x : spec)
                    if(x.shrt == a[1])
                        s = &x;
                if(a.size() > 2)
                    value = a.substr(2);
            }
            if(!s)
                return REJECT;
            if(s->flag()) {
                if(value)
                    return REJECT;
                Val v;
                v.b = s->action == A::StoreTrue;
                vals[s->name] = v;
                continue;
            }
            if(!value) {
                if(i + 1 >= argv.size())
                    return REJECT;
                value = argv[++i];
            }
            ++consumed_values;
            Val &v = vals[s->name];
            v.kind = kind_of(s->type);
            switch(s->type) {
            case T::String:
                v.s = *value;
                break;
            case T::Integer:
                if(!parse_int(*value, v.i) || (s->lo && v.i < *s->lo) || (s->hi && v.i > *s->hi))
                    return REJECT;
                break;
            default:
                if(s->action == A::Store)
                    v.v.clear();
                v.v.push_back(*value);
            }
        }
        return OK;
    }
};
std::string word(vh::Rng &r) {
    static const char *w[] = {"foo", "bar", "fo", "foobar", "x", "size", "include", "a-b", "a", "ab", "Foo", "size2", "v"};
    return w[r.below(13)];
}
std::string value_text(vh::Rng &r) {
    static const char *w[] = {"", "0", "1", "-1", "7", "12x", "abc", "=", "a=b", "--", "-", "--foo", "-v", "--help", "9223372036854775807",
                              "9223372036854775808", "-9223372036854775808", "-9223372036854775809", " 5", "5 ", "0x10", "+3",
                              "- 3", "99999999999999999999999", "\xc3\xa4", "\xff", "007", "1e3", "+", "--1"};
    switch(r.below(4)) {
    case 0:
        return gtext(r, gsize(r, 200));
    case 1:
        return std::to_string((int)r.below(40) - 10);
    default:
        return w[r.below(sizeof w / sizeof *w)];
    }
}
std::vector<Spec> gen_spec(vh::Rng &r) {
    std::vector<Spec> sp;
    size_t n = r.below(7);
    for(size_t k = 0; k < n; k++) {
        Spec s;
        s.name = r.chance(3, 4) ? word(r) : word(r) + std::to_string(k);
        if(r.chance(3, 4))
            s.lng = "--" + word(r);
        if(r.chance(1, 2) || s.lng.empty())
            s.shrt = "abvxIoDs1_"[r.below(10)];
        s.type = (T)r.below(4);
        switch(s.type) {
        case T::Boolean:
            s.action = r.chance(1, 2) ? A::StoreTrue : A::StoreFalse;
            break;
        case T::StringArray:
            s.action = r.chance(1, 3) ? A::Store : A::AppendArray;
            break;
        default:
            s.action = A::Store;
        }
        if(r.chance(1, 2)) {
            Val v;
            v.kind = kind_of(s.type);
            switch(v.kind) {
            case 0: v.b = r.chance(1, 2); break;
            case 1: v.i = (int64_t)r.below(20) - 10; break;
            case 2: v.s = gtext(r, gsize(r, 60)); break;
            case 3:
                for(size_t i = r.below(4); i; --i)
                    v.v.push_back(gtext(r, gsize(r, 60)));
            }
            s.dflt = v;
        }
        if(s.type == T::Integer) {
            if(r.chance(1, 2))
                s.lo = r.chance(1, 8) ? INT64_MIN : (int64_t)r.below(10) - 5;
            if(r.chance(1, 2))
                s.hi = r.chance(1, 8) ? INT64_MAX : (int64_t)r.below(15);
        }
        if(r.chance(1, 2))
            s.help = "help for " + s.name;
        sp.push_back(s);
    }
    return sp;
}
std::vector<std::string> gen_argv(vh::Rng &r, const std::vector<Spec> &sp, bool posargs) {
    std::vector<std::string> a{"prog"};
    size_t n = r.below(8);
    unsigned wild = r.chance(1, 2) ? 0 : 1 + r.below(3);
    for(size_t k = 0; k < n; k++) {
        if(!sp.empty() && r.below(10) >= wild) {
            auto &s = sp[r.below(sp.size())];
            std::string v = s.type == T::Integer && r.chance(5, 6) ? std::to_string((int)r.below(12)) : value_text(r);
            bool use_long = !s.lng.empty() && (s.shrt == 0 || r.chance(1, 2));
            if(s.flag()) {
                a.push_back(use_long ? s.lng : std::string("-") + s.shrt);
            } else if(use_long) {
                if(r.chance(1, 2))
                    a.push_back(s.lng + "=" + v);
                else
                    a.push_back(s.lng), a.push_back(v);
            } else {
                if(r.chance(1, 2) && !v.empty())
                    a.push_back(std::string("-") + s.shrt + v);
                else
                    a.push_back(std::string("-") + s.shrt), a.push_back(v);
            }
        } else
            switch(r.below(12)) {
            case 0: a.push_back("--help"); break;
            case 1: a.push_back("-h"); break;
            case 2: a.push_back("--"); break;
            case 3: a.push_back("-"); break;
            case 4: a.push_back(""); break;
            case 5: a.push_back("--" + word(r)); break;
            case 6: a.push_back("--" + word(r) + "=" + value_text(r)); break;
            case 7: a.push_back(std::string("-") + "abvxIoDs1_Q"[r.below(11)]); break;
            case 8: a.push_back(std::string("-") + "abvxIoDs1_Q"[r.below(11)] + value_text(r)); break;
            case 9: a.push_back("--="); break;
            default: a.push_back(posargs ? word(r) : value_text(r));
            }
    }
    return a;
}
struct Argv { // exactly argc + 1 pointers to exactly sized strings
    std::vector<char *> strs;
    const char **v;
    explicit Argv(const std::vector<std::string> &a) {
        v = (const char **)malloc((a.size() + 1) * sizeof(char *));
        for(size_t i = 0; i < a.size(); i++) {
            strs.push_back(strdup(a[i].c_str()));
            v[i] = strs[i];
        }
        v[a.size()] = nullptr;
    }
    ~Argv() {
        for(auto *s : strs)
            free(s);
        free(v);
    }
};
// registers the arguments, checks that exactly the duplicates are refused
std::vector<Spec> add_all(Case &c, P::ArgParse &ap, const std::vector<Spec> &want) {
    std::vector<Spec> got;
    for(auto &s : want) {
        bool dup = false;
        for(auto &o : got)
            if(o.name == s.name || (!s.lng.empty() && o.lng == s.lng) || (s.shrt && o.shrt == s.shrt))
                dup = true;
        bool th = throws_py([&] { ap.add_argument(lib_arg(s)); });
        EXPECT(th == dup, "argparse.duplicate", "add_argument(%s, %s, -%c): threw=%d", s.name.c_str(), s.lng.c_str(),
               s.shrt ? s.shrt : '.', th);
        if(!dup)
            got.push_back(s);
    }
    return got;
}
void compare(Case &c, const std::vector<Spec> &spec, const Model &m, P::ParseOutput &out) {
    const P::ParseOutput &cout = out;
    for(auto &s : spec) {
        P::CStringView nm(s.name.data(), s.name.size());
        const P::ArgumentValue *v = cout.value_of(nm);
        EXPECT(v == out.value_of(nm), "argparse.value-of", "const and non-const lookup differ");
        auto it = m.vals.find(s.name);
        EXPECT((v != nullptr) == (it != m.vals.end()), "argparse.presence", "value of %s: present %d, expected %d", s.name.c_str(),
               v != nullptr, it != m.vals.end());
        if(v) {
            Val g = lib_to_val(*v);
            EXPECT(g == it->second, "argparse.value", "value of %s: %s, expected %s", s.name.c_str(), g.str().c_str(),
                   it->second.str().c_str());
        }
    }
    EXPECT(cout.value_of("no-such-name-anywhere") == nullptr, "argparse.phantom", "unknown name has a value");
}
void parse_case(Case &c) {
    auto &r = c.rng;
    auto want = gen_spec(r);
    P::ArgParse ap(P::U8String(r.chance(1, 2) ? "A description" : ""));
    bool pos = r.chance(1, 2);
    auto spec = add_all(c, ap, want);
    if(pos)
        ap.permit_posargs();
    for(auto &s : spec)
        c.note("arg %s %s -%c type %d action %d default %s", s.name.c_str(), s.lng.c_str(), s.shrt ? s.shrt : '.', (int)s.type,
               (int)s.action, s.dflt ? s.dflt->str().c_str() : "none");
    int lines = 1 + r.below(4);
    int children = 0;
    for(int k = 0; k < lines; k++) {
        auto argv = gen_argv(r, spec, pos);
        std::string shown;
        for(auto &a : argv) {
            shown += vh::show(a) + " ";
            c.mixs(a.data(), a.size());
            c.mix(1000);
        }
        c.note("argv %s", shown.c_str());
        Model m{spec, pos};
        Outcome o = m.run(argv);
        if(o == OK) {
            Argv av(argv);
            auto res = ap.parse_args((int)argv.size(), av.v);
            EXPECT((bool)res, "argparse.no-result", "no result for %s", shown.c_str());
            P::ParseOutput out = P::move(res.value());
            for(auto *s : av.strs) // the result must not refer to the command line
                memset(s, '#', strlen(s));
            compare(c, spec, m, out);
            c.cover("argv-accepted");
        } else if(children < 2) {
            ++children;
            auto ch = vh::run_child([&](int) {
                Argv av(argv);
                try {
                    auto res = ap.parse_args((int)argv.size(), av.v);
                    printf("ACCEPTED\n");
                } catch(const P::PyException &) {
                    fflush(stdout);
                    _exit(42);
                }
            });
            if(o == HELP) {
                EXPECT(ch.code == 0 && ch.out.find("ACCEPTED") == std::string::npos, "argparse.help", "help for %s: exit %d, %s",
                       shown.c_str(), ch.code, ch.err.substr(0, 200).c_str());
                for(auto &s : spec) {
                    if(!s.lng.empty())
                        EXPECT(ch.out.find(s.lng) != std::string::npos, "argparse.help-text", "help lacks %s", s.lng.c_str());
                    if(!s.help.empty())
                        EXPECT(ch.out.find(s.help) != std::string::npos, "argparse.help-text", "help lacks the text of %s",
                               s.name.c_str());
                }
                c.cover("help-printed");
            } else {
                EXPECT(ch.out.find("ACCEPTED") == std::string::npos, "argparse.accepted-malformed", "%s was accepted",
                       shown.c_str());
                EXPECT(ch.code == 1 || ch.code == 42, "argparse.crash", "%s: exit %d: %s", shown.c_str(), ch.code,
                       ch.err.substr(0, 1000).c_str());
                if(ch.code == 1)
                    EXPECT(!(ch.out + ch.err).empty(), "argparse.silent", "%s rejected without a message", shown.c_str());
                c.cover("argv-rejected");
            }
        }
    }
}
} // namespace
VH_SUITE("P19", argument_lines, 4) { parse_case(c); }
// one option, every way to give it one value
VH_SUITE("P19", argument_values, 2) {
    auto &r = c.rng;
    Spec s;
    s.name = "n";
    s.lng = "--opt";
    s.shrt = 'o';
    s.type = r.chance(2, 3) ? T::Integer : T::String;
    if(r.chance(1, 3) && s.type == T::Integer)
        s.lo = (int64_t)r.below(5) - 2, s.hi = *s.lo + (int64_t)r.below(9);
    std::vector<Spec> spec{s};
    std::string v = value_text(r);
    if(s.lo && r.chance(1, 2))
        v = std::to_string((r.chance(1, 2) ? *s.lo : *s.hi) + (int)r.below(3) - 1);
    std::vector<std::vector<std::string>> forms{{"p", "--opt", v}, {"p", "--opt=" + v}, {"p", "-o", v}};
    if(!v.empty())
        forms.push_back({"p", "-o" + v});
    c.mixs(v.data(), v.size());
    c.note("value %s, %s", vh::show(v).c_str(), s.type == T::Integer ? "integer" : "string");
    auto &argv = forms[r.below(forms.size())];
    Model m{spec, false};
    Outcome o = m.run(argv);
    P::ArgParse ap(P::U8String(""));
    ap.add_argument(lib_arg(s));
    bool accepted = false;
    bool th = throws_py([&] {
        Argv av(argv);
        auto res = ap.parse_args((int)argv.size(), av.v);
        accepted = true;
        if(o == OK)
            compare(c, spec, m, res.value());
    });
    EXPECT(accepted == (o == OK) && th == (o != OK), "argparse.accepted-malformed", "%s: accepted %d, expected %d",
           vh::show(v).c_str(), accepted, o == OK);
}
