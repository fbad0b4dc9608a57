// Tasks over the 2026 epoch, each giving a text that depends only on its seed.
#pragma once
#include "tasks26_includes.hpp"
#include <atomic>
#include <memory>
#include <unistd.h>
#include <sys/stat.h>
#include <time.h>

namespace {
std::string S(const P::CString &s) { return std::string(s.c_str(), s.size()); }
std::string S(const P::U8String &s) { return std::string(s.c_str(), s.size_bytes()); }
std::string S(const P::CStringView &s) { return std::string(s.data(), s.size()); }
std::string S(const P::U8StringView &v) { return S(v.raw_view()); }
std::string S2(const P::Bytes &b) { return std::string(b.data(), b.size()); }
P::CString CS(const std::string &s) { return P::CString(s.data(), s.size()); }

const char *CPS[] = {"a", "Z", "0", " ", "\n", "ß", "ä", "Ö", "İ", "ﬁ", "ǅ", "ς", "Ω", "€", "😀", "𐐀", "ა", "x", "b9", "."};
std::string gu8(vh::Rng &r, size_t n) {
    std::string s;
    for(size_t i = 0; i < n; i++)
        s += CPS[r.below(sizeof CPS / sizeof *CPS)];
    return s;
}
std::string gword(vh::Rng &r, size_t n) {
    std::string s;
    for(size_t i = 0; i < n; i++)
        s += "abcXYZ019 _-."[r.below(13)];
    return s;
}

// objects that all threads read
struct Shared {
    P::Bytes bytes;
    P::CString text;
    P::U8String u8;
    P::FixedCString<200> fixed;
    P::Vector<int> ints;
    P::Vector<P::CString> words;
    P::FixedVector<int, 64> fv;
    P::HashMap<P::CString, int> map;
    P::HashMap<int, P::CString> imap;
    P::HashSet<P::U8String> set;
    P::BTree<int, 7> tree;
    P::U8Regex re;
    P::Path path;
    P::Optional<P::CString> opt;
    P::Variant<int, P::CString, P::Vector<int>> var;
    P::unique_arr<int> arr;
    P::MMapping mm;
    std::string file, dir;
    std::vector<std::string> wordlist;
    explicit Shared(vh::Rng &r, const std::string &d)
        : text{CS(gword(r, 150))}, u8{gu8(r, 80).c_str()}, fixed{gword(r, 100).c_str()},
          re{P::U8String("(\\w+?)([0-9]+)(x)?|(Ö|ß)+")}, path{CS("/usr/share/a.b/c.tar.gz")}, var{CS("shared text value")},
          arr{100}, dir{d} {
        for(int i = 0; i < 100; i++) {
            bytes.append((char)r.below(256));
            ints.push_back((int)r.below(1000));
            std::string w = gword(r, 3 + r.below(20));
            wordlist.push_back(w);
            words.push_back(CS(w));
            map.insert(CS(w), i);
            imap.insert(i * 7, CS(w));
            set.insert(P::U8String(gu8(r, 6).c_str()));
            tree.insert((int)r.below(500));
            arr[i] = i * i;
            if(i < 64)
                (void)fv.push_back(i);
        }
        opt = CS("optional");
        file = dir + "/file";
        FILE *f = fopen(file.c_str(), "wb");
        for(int i = 0; i < 50; i++)
            fprintf(f, "%s\n", gu8(r, 12).c_str());
        fclose(f);
        mkdir((dir + "/sub").c_str(), 0700);
        for(int i = 0; i < 5; i++) {
            FILE *g = fopen((dir + "/sub/f" + std::to_string(i) + ".txt").c_str(), "wb");
            fclose(g);
        }
        auto m = P::mmap_file(file.c_str());
        if(m)
            mm = P::move(*m);
    }
};

using Task = std::string (*)(vh::Rng &, Shared &);
struct Named {
    const char *name;
    Task fn;
};
template<typename C> std::string joinv(const C &c) {
    std::string o;
    for(auto &x : c)
        o += std::to_string((long long)x) + ",";
    return o;
}
template<typename M> std::string dump_map(M &m) {
    std::vector<std::string> v;
    for(auto kv : m)
        v.push_back(S(*kv.key) + "=" + std::to_string(*kv.value));
    std::sort(v.begin(), v.end());
    std::string o;
    for(auto &x : v)
        o += x + ";";
    return o;
}

std::string matches(const P::U8Regex &re, const P::U8String &t) {
    std::string o;
    try {
        auto m = P::regex_search(re, t);
        o += std::to_string(m.num_groups()) + ":";
        for(size_t i = 0; i < m.num_groups(); i++) {
            try {
                o += S(m.get_submatch(i)) + ",";
            } catch(const P::PyException &) {
                o += "-,";
            }
        }
    } catch(const P::PyException &) {
        o += "none";
    }
    return o;
}
Named TASKS[] = {
    {"bytes", [](vh::Rng &r, Shared &) -> std::string {
         P::Bytes b;
         for(int i = 0; i < 200; i++)
             b.append((char)r.below(256));
         P::Bytes c = b;
         c.insert(3, "xyz", 3);
         b = P::move(c);
         return std::string(b.data(), b.size());
     }},
    {"cstring", [](vh::Rng &r, Shared &) -> std::string {
         P::CString s = CS(gword(r, 100));
         P::CString t = s;
         t += s;
         t.strip();
         std::string o = S(t) + S(t.view().upper()) + S(t.view().lower()) + S(s.substr(5, 20));
         for(auto &p : t.split())
             o += S(p) + "|";
         for(auto &p : t.split_by('a'))
             o += S(p) + "|";
         P::CString j(",");
         o += std::to_string(s.view().find(P::CStringView("01"))) + std::to_string(s.rfind('a'));
         return o;
     }},
    {"u8string", [](vh::Rng &r, Shared &) -> std::string {
         P::U8String s(gu8(r, 60).c_str());
         P::U8String t = s;
         t += s;
         t.append_codepoint(0x20ac);
         t.pop_front();
         t.pop_back();
         std::string o = S(t) + S(t.view().upper()) + S(t.view().lower());
         for(auto it = t.cbegin(); it != t.cend(); ++it)
             o += std::to_string(*it) + ",";
         for(auto &p : t.split_ascii())
             o += S(p) + "|";
         return o;
     }},
    {"case-mapping", [](vh::Rng &r, Shared &) -> std::string {
         std::string o;
         for(int i = 0; i < 60; i++) {
             P::U8String s;
             uint32_t cp = r.below(4) ? 1 + r.below(0x2000) : 0x10000 + r.below(0x2000);
             if(cp >= 0xd800 && cp < 0xe000)
                 cp = 'a';
             s.append_codepoint(cp);
             o += S(s.view().upper()) + S(s.view().lower());
         }
         return o;
     }},
    {"vector", [](vh::Rng &r, Shared &) -> std::string {
         P::Vector<P::CString> v;
         for(int i = 0; i < 60; i++)
             v.push_back(CS(gword(r, r.below(30))));
         auto w = v;
         w.pop_back();
         v = P::move(w);
         std::string o;
         for(auto &x : v)
             o += S(x) + ",";
         return o;
     }},
    {"fixed", [](vh::Rng &r, Shared &) -> std::string {
         P::FixedVector<P::CString, 8> v;
         for(int i = 0; i < 8; i++)
             (void)v.push_back(CS(gword(r, 9)));
         P::FixedCString<32> s(gword(r, 20).c_str());
         std::string o = s.c_str();
         for(auto &x : v)
             o += S(x) + ",";
         return o;
     }},
    {"hashmap", [](vh::Rng &r, Shared &) -> std::string {
         P::HashMap<P::CString, int> m;
         for(int i = 0; i < 150; i++) {
             P::CString k = CS(gword(r, 2));
             if(r.below(3))
                 m.insert(k, i);
             else
                 m.remove(k);
         }
         return dump_map(m);
     }},
    {"hashset", [](vh::Rng &r, Shared &) -> std::string {
         P::HashSet<int> m;
         std::string o;
         for(int i = 0; i < 200; i++) {
             int k = (int)r.below(40);
             if(r.below(3))
                 m.insert(k);
             else
                 m.remove(k);
             o += m.contains((int)r.below(40)) ? '1' : '0';
         }
         return o + std::to_string(m.size());
     }},
    {"btree", [](vh::Rng &r, Shared &) -> std::string {
         P::BTree<int, 5> t;
         P::BTreeMap<int, P::CString, 7> m;
         for(int i = 0; i < 300; i++) {
             int k = (int)r.below(90);
             if(r.below(3)) {
                 t.insert(k);
                 m.insert(k, CS(std::to_string(i)));
             } else {
                 t.remove(k);
                 m.remove(k);
             }
         }
         std::string o;
         for(auto it = t.begin(); it != t.end(); ++it)
             o += std::to_string(*it) + ",";
         for(int k = 0; k < 90; k++)
             if(auto *v = m.lookup(k))
                 o += S(*v) + ";";
         return o;
     }},
    {"hash", [](vh::Rng &r, Shared &) -> std::string {
         std::string o;
         for(int i = 0; i < 30; i++) {
             P::CString s = CS(gword(r, r.below(40)));
             P::Hasher<P::SimpleHash> hh;
             hh.feed_hash(s);
             hh.feed_hash((int)r.below(1000));
             o += std::to_string(hh.get_hash_value()) + ",";
         }
         return o;
     }},
#define SORT_TASK(nm, call)                                                                                           \
    {nm, [](vh::Rng &r, Shared &) -> std::string {                                                                    \
         P::Vector<uint32_t> v;                                                                                       \
         size_t n = 100 + r.below(400);                                                                               \
         for(size_t i = 0; i < n; i++)                                                                                \
             v.push_back((uint32_t)r.below(i % 7 ? 1000 : 10));                                                       \
         auto b = v.begin(), e = v.end();                                                                             \
         call;                                                                                                        \
         return joinv(v);                                                                                             \
     }}
    SORT_TASK("introsort", P::introsort(b, e)),
    SORT_TASK("mergesort", P::mergesort(b, e)),
    SORT_TASK("heapsort", P::heapsort(b, e)),
    SORT_TASK("shellsort", P::shell_sort(b, e)),
    SORT_TASK("radixsort", P::radix_sort(b, e)),
    SORT_TASK("bucketsort", P::bucketsort(b, e)),
    SORT_TASK("insertion", P::insertion_sort(b, e)),
    SORT_TASK("nth", (P::nth_element(b, e, n / 2), P::introsort(b, b + n / 2), P::introsort(b + n / 2, e))),
    SORT_TASK("nth-ends", (P::nth_element(b, e, 0), P::nth_element(b, e, n - 1), P::introsort(b + 1, e - 1))),
    SORT_TASK("partial", (P::partial_sort(b, e, n / 3), P::introsort(b + n / 3, e))),
    SORT_TASK("rotate", P::rotate(b, b + n / 3, e)),
    SORT_TASK("stablepart", P::stable_partition(b, e, [](uint32_t x) { return x % 3 == 0; })),
    {"mergesort-strings", [](vh::Rng &r, Shared &) -> std::string {
         P::Vector<P::CString> v;
         for(int i = 0; i < 90; i++)
             v.push_back(CS(gword(r, r.below(12))));
         P::mergesort(v.begin(), v.end());
         std::string o;
         for(auto &x : v)
             o += S(x) + ",";
         return o;
     }},
    {"indirect", [](vh::Rng &r, Shared &sh) -> std::string {
         auto idx = P::indirect_stable_sort(sh.words.begin(), sh.words.end());
         auto idy = P::indirect_stable_sort(sh.ints.begin(), sh.ints.end());
         return joinv(idx) + joinv(idy) + std::to_string(r.below(10));
     }},
    {"format", [](vh::Rng &r, Shared &) -> std::string {
         std::string w = gword(r, r.below(1800));
         P::CString s = P::cformat("%d %s %x %.3f", (int)r.below(10000), w.c_str(), (unsigned)r.below(1u << 31),
                                   (double)r.below(1000) / 7);
         P::format_append(s, "<%5d>", (int)r.below(100));
         return S(s);
     }},
    {"regex", [](vh::Rng &r, Shared &sh) -> std::string {
         P::U8String t(gu8(r, 40).c_str());
         std::string o;
         P::U8Regex own(P::U8String("([a-z])(\\d)|(€)"));
         for(const P::U8Regex *re : {(const P::U8Regex *)&sh.re, (const P::U8Regex *)&own}) {
             o += matches(*re, t);
         }
         return o + matches(sh.re, sh.u8);
     }},
    {"path", [](vh::Rng &r, Shared &sh) -> std::string {
         P::Path p(CS(gword(r, 10)));
         P::Path q = sh.path / p;
         std::string o = q.c_str();
         for(auto &x : q.split())
             o += S(x) + "|";
         o += S(sh.path.extension()) + S(CS(sh.path.filename().c_str()));
         P::Path d(sh.dir.c_str());
         o += std::to_string(d.is_dir()) + std::to_string(P::Path(sh.file.c_str()).is_file());
         return o;
     }},
    {"glob", [](vh::Rng &r, Shared &sh) -> std::string {
         std::vector<std::string> v;
         auto g = P::Path(sh.dir.c_str()).glob(r.below(2) ? "**/f*.txt" : "sub/*");
         while(auto p = g.next())
             v.push_back(p->c_str());
         std::sort(v.begin(), v.end());
         std::string o;
         for(auto &x : v)
             o += x + "|";
         return o;
     }},
    {"file", [](vh::Rng &r, Shared &sh) -> std::string {
         std::string o;
         P::File f(sh.file.c_str(), "rb");
         for(auto &&line : f)
             o += std::string(line.data(), line.size());
         P::Path p(sh.file.c_str());
         auto b = p.load_bytes();
         auto t = p.load_text();
         o += std::to_string(b->size()) + S(*t);
         auto m = P::mmap_file(sh.file.c_str());
         if(m) {
             P::CStringView v(m->span().data(), m->span().size_bytes());
             o += S(v);
         }
         return o;
     }},
    {"argparse", [](vh::Rng &r, Shared &) -> std::string {
         P::ArgParse a(P::U8String("d"));
         P::Argument x;
         x.name = CS("count");
         x.long_arg = CS("--count");
         x.short_arg = 'c';
         x.type = P::ArgumentType::Integer;
         a.add_argument(P::move(x));
         std::string v = std::to_string(r.below(1000));
         const char *argv[] = {"prog", "--count", v.c_str()};
         auto o = a.parse_args(3, argv);
         auto *p = o->value_of("count");
         return std::to_string(*p->get_if<int64_t>());
     }},
    {"exceptions", [](vh::Rng &r, Shared &sh) -> std::string {
         std::string o;
         for(int i = 0; i < 10; i++) {
             try {
                 switch(r.below(4)) {
                 case 0:
                     (void)sh.ints[1000 + r.below(10)];
                     break;
                 case 1:
                     throw P::PyException("own");
                 case 2:
                     P::U8String("\xff\xfe");
                     break;
                 case 3:
                     P::U8Regex x(P::U8String("(("));
                     break;
                 }
             } catch(const P::PyException &e) {
                 o += S(e.what()) + "|";
             }
         }
         return o;
     }},
    {"loops", [](vh::Rng &r, Shared &) -> std::string {
         std::string o;
         for(auto i : P::Loopsume{P::Range(0, (int64_t)r.below(100), 3)})
             o += std::to_string(i) + ",";
         return o;
     }},
    {"bytes-forms", [](vh::Rng &r, Shared &sh) -> std::string {
         std::string w = gword(r, 10 + r.below(60)), x = gword(r, 20);
         P::Bytes a(w.data(), w.data() + w.size()), b(5 + r.below(9), (char)('a' + r.below(26))), e, z(w.data(), w.size());
         std::string o = S2(a) + S2(b) + std::to_string(a == z);
         b.assign(x.data(), x.size());
         o += S2(b);
         size_t from = r.below(w.size() / 2);
         z.assign(z.data() + from, z.size() - from);
         o += S2(z);
         a += a;
         a += b;
         a.append(x.data(), x.data() + 7);
         a.push_back('!');
         o += S2(a);
         a.append(a.data() + 2, a.data() + 9);
         a.insert(4, x.data() + 1, 6);
         o += S2(a) + a.front() + a.back();
         a.pop_back(3);
         a.pop_front(2);
         a.remove(1, 5);
         a.shrink(2);
         size_t had = a.size();
         a.extend(6);
         o += std::to_string(a.size() - had);
         a.resize_to(had);
         a.resize(had - 1);
         o += S2(a);
         e = a;
         e.pop_back();
         o += std::to_string(e < a) + std::to_string(a < e) + std::to_string((a <=> e) > 0) + std::to_string((b <=> a) < 0);
         o += std::to_string(sh.bytes < a) + std::to_string(a == sh.bytes);
         for(char ch : a)
             o += std::to_string((int)ch);
         P::Span<const char> sp(a.data(), a.size());
         auto sub = sp.subspan(2, 5);
         for(char ch : sub)
             o += ch;
         a.clear();
         e = P::move(b);
         return o + std::to_string(a.size()) + S2(e);
     }},
    {"views", [](vh::Rng &r, Shared &m) -> std::string {
         const Shared &sh = m;
         std::string w = gword(r, 40), x = gword(r, 3);
         P::CString cw = CS(w);
         P::CStringView a(w.data(), w.data() + w.size()), b(cw), p(x.c_str()), q(w.data() + 5, 9), none;
         std::string o = std::to_string(a == b) + std::to_string(b == w.c_str()) + std::to_string(a < p) + std::to_string(p < a);
         o += a.front();
         o += std::to_string(a.starts_with("ab")) + std::to_string(a.starts_with(p)) + std::to_string(a.starts_with(a.substr(0, 4)));
         o += std::to_string(a.find(q)) + "," + std::to_string(a.find(p)) + "," + std::to_string(a.find('9')) + S(a.substr(3)) +
              S(a.substr(30, 4));
         o += std::to_string(a.overlaps(q)) + std::to_string(b.overlaps(q)) + a[r.below(40)];
         for(int i = 0; i < 12; i++) {
             P::CString u = CS("f" + std::to_string(r.below(200)) + gword(r, 2)), v = CS("f" + std::to_string(r.below(200)) + gword(r, 2));
             int d = u.view().natural_order(v.view());
             o += d < 0 ? '<' : d > 0 ? '>' : '=';
         }
         a.split([](const P::CStringView &piece, void *ctx) -> bool {
             *(std::string *)ctx += S(piece) + "/";
             return true;
         }, &o);
         cw.split_by('b', [](const P::CStringView &piece, void *ctx) -> bool {
             *(std::string *)ctx += S(piece) + "/";
             return true;
         }, &o);
         P::ZStringView z(w.c_str()), zz(w.c_str(), w.size()), zs = z.subview(7);
         o += std::to_string(z == w.c_str()) + S(zs.view()) + S(zz.view()) + S(sh.text.zview().view());
         P::SimpleHash h;
         z.feed_hash(h);
         b.feed_hash(h);
         return o + std::to_string(h.get_hash_value()) + S(sh.text.substr(3, 20)) + std::to_string(sh.text.find(q));
     }},
    {"cstring-forms", [](vh::Rng &r, Shared &sh) -> std::string {
         P::CString s = CS(gword(r, 30)), t;
         std::string w = gword(r, 9);
         t = w.c_str();
         std::string o = S(t);
         t.append(w.c_str());
         t.append(w.c_str(), 4);
         t.append(w.data() + 2, w.data() + 6);
         t.append('#');
         t += 'c';
         t += w.c_str();
         t += t;
         t.push_back('?');
         o += S(t) + t.back();
         t.insert(5, s.view());
         t.insert(3, t.view().substr(2, 6));
         t.pop_back();
         t.remove(2, 6);
         o += S(t);
         t.resize(20);
         t.reserve(500);
         o += S(t) + std::to_string(t == s) + std::to_string(t < s) + std::to_string(s < t) + std::to_string(t == w.c_str());
         o += std::to_string(t.is_empty()) + std::to_string(sh.text.is_empty());
         t = s;
         s = P::move(t);
         P::CString sep("-+");
         auto parts = s.split();
         P::CString j;
         for(auto &x : parts)
             j += x, j += sep;
         o += S(j);
         for(auto &v : s.split_by('c'))
             o += S(v) + ";";
         s.clear();
         P::FixedCString<64> f(w.c_str()), g;
         P::FixedCString<32> k(gword(r, 12).c_str());
         g = f;
         o += g.c_str();
         g = k;
         o += g.c_str();
         g = j.view().substr(0, 20);
         o += g.c_str();
         g.pop_back();
         f = P::move(g);
         return o + f.c_str() + std::to_string(f == w.c_str()) + std::to_string(s.size());
     }},
    {"u8-forms", [](vh::Rng &r, Shared &m) -> std::string {
         const Shared &sh = m;
         P::U8String s(gu8(r, 40).c_str()), sep("–€"), t, empty;
         std::string o;
         auto it = s.cbegin();
         for(int i = 0; i < 15; i++) {
             auto old = it++;
             o += std::to_string(*old) + ((it <=> old) > 0 ? "+" : "-");
         }
         --it;
         P::U8StringView head(s.cbegin(), it), raw(s.c_str(), s.size_bytes());
         o += S(head) + std::to_string(raw == s.view()) + std::to_string(s.view().overlaps(head)) + std::to_string(head == "aZ0");
         auto rit = s.crbegin();
         for(int i = 0; i < 10; i++) {
             auto old = rit++;
             o += std::to_string(*old) + (old == rit ? "=" : "!");
         }
         auto cl = raw.split_ascii();
         while(auto p = cl.next())
             o += S(*p) + "|";
         auto cb = [](const P::U8StringView &piece, void *ctx) -> bool {
             *(std::string *)ctx += S(piece) + "/";
             return true;
         };
         s.split(cb, [](uint32_t cp) { return cp == 0xdf || cp == 'x'; }, &o);
         auto parts = s.split_ascii();
         P::U8String j = sep.join(parts);
         o += S(j) + std::to_string(j == s.c_str()) + std::to_string(j < s) + std::to_string(s.contains(head)) + std::to_string(j.overlaps(head));
         t = s;
         t.insert(t.cbegin(), sep.view());
         auto mid = t.cbegin();
         for(int i = 0; i < 5; i++)
             ++mid;
         t.insert(mid, sh.u8.view());
         o += S(t);
         auto b = t.cbegin(), e = t.cbegin();
         for(int i = 0; i < 4; i++)
             ++e;
         ++b;
         t.remove(P::U8StringView(b, e));
         o += S(t) + S(t.substr(0, P::U8String("aä").size_bytes() > 2 ? 0 : 1));
         t = sep.view();
         t += t;
         t += s;
         o += S(t) + S(t.view().upper()) + S(t.view().lower());
         t = P::move(s);
         P::SimpleHash h;
         t.feed_hash(h);
         t.view().feed_hash(h);
         try {
             throw P::PyException(t);
         } catch(const P::PyException &ex) {
             o += S(ex.what());
         }
         try {
             P::PyException other("ä message that has some length");
             throw other;
         } catch(const P::PyException &ex) {
             o += S(ex.what());
         }
         return o + std::to_string(h.get_hash_value());
     }},
    {"wrappers", [](vh::Rng &r, Shared &m) -> std::string {
         const Shared &sh = m;
         std::string o;
         P::Optional<P::CString> a, b(CS(gword(r, 20))), c(b), d(sh.opt);
         a = b;
         o += S(*a) + S(c.value()) + S(*d);
         b = CS("other");
         c = P::move(b);
         o += S(*c) + std::to_string(c->size()) + (a ? "y" : "n");
         a.reset();
         o += a ? 'y' : 'n';
         for(int i = 0; i < 20; i++) {
             P::Expected<int, P::CString> e;
             if(r.below(2))
                 e = P::Expected<int, P::CString>((int)r.below(1000));
             else
                 e = P::Expected<int, P::CString>(P::Unexpected<P::CString>(CS(gword(r, 5))));
             P::Expected<int, P::CString> f(P::move(e));
             o += f ? std::to_string(f.value()) : S(f.error());
         }
         typedef P::Variant<int, P::CString, double, P::Vector<int>, P::U8String> V;
         auto mk = [&]() -> V {
             switch(r.below(5)) {
             case 0: return V((int)r.below(50));
             case 1: return V(CS(gword(r, 4)));
             case 2: return V((double)r.below(9));
             case 3: {
                 P::Vector<int> v;
                 v.push_back((int)r.below(9));
                 return V(P::move(v));
             }
             default: return V(P::U8String(gu8(r, 4).c_str()));
             }
         };
         V cur(1);
         for(int i = 0; i < 25; i++) {
             V n = mk(), cp(n);
             o += std::to_string(n.index() + cp.index());
             if(i & 1)
                 cur = n;
             else
                 cur = P::move(n);
             o += std::to_string(cur.index());
             if(auto *x = cur.get_if<P::CString>())
                 o += S(*x);
             if(auto *x = cur.get_if<P::U8String>())
                 o += S(*x);
             if(auto *x = cur.get_if<P::Vector<int>>())
                 o += joinv(*x);
             try {
                 o += std::to_string(cur.get<int>());
             } catch(const P::PyException &ex) {
                 o += S(ex.what());
             }
         }
         P::unique_ptr<P::CString> u(new P::CString(CS(gword(r, 9)))), w;
         w = P::move(u);
         o += S(*w) + (u ? "y" : "n");
         w.reset(new P::CString("reset"));
         P::CString *raw = w.release();
         o += S(*raw);
         delete raw;
         P::unique_arr<int> ar(20), br;
         for(int i = 0; i < 20; i++)
             ar[i] = (int)r.below(90);
         br = P::move(ar);
         for(int i = 0; i < 20; i++)
             o += std::to_string(br[i]);
         P::Stack<P::CString> st;
         for(int i = 0; i < 9; i++) {
             st.push(CS(gword(r, 3)));
             if(r.below(3) == 0)
                 st.pop();
         }
         while(!st.is_empty()) {
             o += S(st.top());
             st.pop();
         }
         return o;
     }},
    {"vector-forms", [](vh::Rng &r, Shared &m) -> std::string {
         const Shared &sh = m;
         P::Vector<P::CString> v, w(sh.words.begin(), sh.words.begin() + 5);
         for(int i = 0; i < 20; i++) {
             v.push_back(CS(gword(r, 6)));
             v.push_back(v.front());
             v.emplace_back("emplaced");
         }
         v.append(w.begin(), w.end());
         auto vv = v;
         v.assign(vv.begin() + 3, vv.begin() + 30);
         std::string o = S(v.front()) + S(v.back()) + std::to_string(v.size());
         v.reserve(400);
         auto cp = v;
         o += std::to_string(cp == v);
         o += S(*v.pop_back()) + std::to_string(cp == v) + std::to_string(v.span().size());
         v.append_with_default(3);
         for(auto &x : v)
             o += S(x) + ",";
         v.clear();
         P::FixedVector<P::CString, 12> f, g;
         for(int i = 0; i < 8; i++)
             o += std::to_string(f.try_push_back(CS(gword(r, 4))));
         P::FixedVector<P::CString, 4> tiny;
         for(int i = 0; i < 6; i++)
             o += std::to_string(i & 1 ? tiny.try_push_back(CS(gword(r, 4))) : tiny.try_emplace_back("x"));
         f.insert(3, CS("inserted"));
         f.delete_at(1);
         f.pop_front();
         f.pop_back();
         (void)g.try_emplace_back("one");
         g.move_append(f);
         for(auto &x : g)
             o += S(x) + ",";
         f = P::move(g);
         o += S(f.front()) + S(f.back()) + std::to_string(f.size());
         for(auto p : P::EnumerateView(cp))
             o += std::to_string(p.i) + S(p.value);
         for(auto i : P::Loopsume{P::Range((int64_t)r.below(30))})
             o += std::to_string(i);
         for(auto i : P::Loopsume{P::Range((int64_t)r.below(10), 20)})
             o += std::to_string(i);
         for(auto i : P::Loopsume{P::Range(40, (int64_t)r.below(10), -3)})
             o += std::to_string(i);
         return o + std::to_string(v.size());
     }},
    {"numbers", [](vh::Rng &r, Shared &) -> std::string {
         std::string o;
         P::Vector<double> v;
         for(int i = 0; i < 40; i++)
             v.push_back(((double)r.below(2000) - 1000) / 8);
         o += std::to_string(*P::max_element(v.begin(), v.end(), P::FloatTotalOrderComparator<double>{})) + std::to_string(*P::min_element(v.begin(), v.end(), P::FloatTotalOrderComparator<double>{}));
         for(int i = 0; i < 30; i++) {
             o += std::to_string(P::clamp(v[i], -20.0, 30.5)) + std::to_string(P::clamp((int64_t)r.below(100), (int64_t)20, (int64_t)50));
             o += std::to_string(P::total_order_compare(v[i], v[i + 1])) + std::to_string(P::total_order_equal((float)v[i], (float)v[i + 1]));
             o += std::to_string(P::total_order_compare((float)v[i], (float)v[i + 1])) + std::to_string(P::total_order_equal(v[i], v[i]));
         }
         P::heapsort(v.begin(), v.end(), P::FloatTotalOrderComparator<double>{});
         for(auto d : v)
             o += std::to_string(d) + ",";
         for(size_t i = 0; i < 3; i++) {
             P::Vector<int> s;
             size_t n = i == 0 ? 1700 : i;
             for(size_t k = 0; k < n; k++)
                 s.push_back((int)r.below(500));
             P::shell_sort(s.begin(), s.end());
             o += joinv(s);
             P::Vector<uint64_t> u;
             for(size_t k = 0; k < n; k++)
                 u.push_back(r.next());
             P::radix_sort(u.begin(), u.end());
             o += std::to_string(n ? u[n / 2] : 0);
             P::Vector<uint16_t> q;
             for(size_t k = 0; k < n; k++)
                 q.push_back((uint16_t)r.below(65536));
             P::radix_sort(q.begin(), q.end());
             o += joinv(q);
         }
         P::Vector<P::CString> w;
         for(int i = 0; i < 60; i++)
             w.push_back(CS(gword(r, 4)));
         P::introsort(w.begin(), w.end());
         P::heapsort(w.begin(), w.end());
         auto un = P::stable_partition(w.begin(), w.end(), [](const P::CString &x) { return x.find("a") != (size_t)-1; });
         P::rotate(w.begin(), un, w.end());
         for(auto &x : w)
             o += S(x) + ",";
         return o;
     }},
    {"maps-forms", [](vh::Rng &r, Shared &m) -> std::string {
         P::HashMap<P::CString, int> a;
         P::HashMap<int, P::CString> b;
         P::HashSet<P::CString> s;
         P::BTree<P::CString, 7> t;
         P::BTreeMap<P::CString, int, 31> bm;
         std::string o;
         for(int i = 0; i < 120; i++) {
             P::CString k = CS(gword(r, 2));
             a[k] += i;
             b[(int)r.below(60)] = k;
             s.insert(k);
             t.insert(k);
             bm.insert(k, i);
             if(r.below(3) == 0) {
                 P::CString d = CS(gword(r, 2));
                 a.remove(d);
                 s.remove(d);
                 t.remove(d);
                 bm.remove(d);
                 b.remove((int)r.below(60));
             }
         }
         o += dump_map(a) + std::to_string(a.size()) + std::to_string(s.size()) + std::to_string(t.size());
         for(int i = 0; i < 60; i++)
             if(auto *p = b.lookup(i))
                 o += S(*p);
         std::vector<std::string> l;
         for(auto &x : s)
             l.push_back(S(x));
         std::sort(l.begin(), l.end());
         for(auto &x : l)
             o += x + ",";
         for(auto it = t.begin(); it != t.end(); ++it)
             o += S(*it) + ",";
         P::HashMap<P::CString, int> c(P::move(a));
         a = P::move(c);
         o += dump_map(a);
         s.clear();
         P::BTree<P::CString, 7> t2(P::move(t));
         o += std::to_string(t2.size()) + std::to_string(s.size());
         for(auto &w : m.wordlist)
             if(bm.lookup(CS(w)))
                 o += w;
         return o;
     }},
    {"argparse-forms", [](vh::Rng &r, Shared &) -> std::string {
         P::ArgParse a(P::U8String("däscription"));
         const char *names[] = {"alpha", "beta", "gamma", "delta", "epsilon", "zeta"};
         for(int i = 0; i < 6; i++) {
             P::Argument x;
             x.name = CS(names[i]);
             x.long_arg = CS(std::string("--") + names[i]);
             x.short_arg = names[i][0];
             x.help = P::U8String("hélp");
             switch(i) {
             case 0: x.type = P::ArgumentType::String; break;
             case 1:
                 x.type = P::ArgumentType::Boolean;
                 x.aaction = P::ArgumentAction::StoreTrue;
                 break;
             case 2:
                 x.type = P::ArgumentType::Boolean;
                 x.aaction = P::ArgumentAction::StoreFalse;
                 x.default_value = P::Optional<P::ArgumentValue>(P::ArgumentValue(true));
                 break;
             case 3:
                 x.type = P::ArgumentType::Integer;
                 x.minval = P::Optional<int64_t>((int64_t)-5);
                 x.maxval = P::Optional<int64_t>((int64_t)5000);
                 x.default_value = P::Optional<P::ArgumentValue>(P::ArgumentValue((int64_t)r.below(99)));
                 break;
             case 4:
                 x.type = P::ArgumentType::StringArray;
                 x.aaction = P::ArgumentAction::AppendArray;
                 if(r.below(2)) {
                     P::Vector<P::CString> dv;
                     dv.push_back(CS(gword(r, 6)));
                     x.default_value = P::Optional<P::ArgumentValue>(P::ArgumentValue(P::move(dv)));
                 }
                 break;
             case 5:
                 x.type = P::ArgumentType::String;
                 x.default_value = P::Optional<P::ArgumentValue>(P::ArgumentValue(CS(gword(r, 12))));
                 break;
             }
             a.add_argument(P::move(x));
         }
         a.permit_posargs();
         std::vector<std::string> w{"prog"};
         for(int i = 0; i < 8; i++)
             switch(r.below(9)) {
             case 0: w.push_back("--alpha"), w.push_back(gword(r, 5) + "v"); break;
             case 1: w.push_back("--beta"); break;
             case 2: w.push_back("-g"); break;
             case 3: w.push_back("--delta=" + std::to_string(r.below(5000))); break;
             case 4: w.push_back("-d" + std::to_string(r.below(5000))); break;
             case 5: w.push_back("-e"), w.push_back("e" + gword(r, 5)); break;
             case 6: w.push_back("--epsilon=" + gword(r, 30)); break;
             case 7: w.push_back("pos" + gword(r, 4)); break;
             case 8: w.push_back("-a"), w.push_back("A" + gword(r, 4)); break;
             }
         if(r.below(2))
             w.push_back("--"), w.push_back("extra");
         std::vector<const char *> argv;
         for(auto &x : w)
             argv.push_back(x.c_str());
         auto res = a.parse_args((int)argv.size(), argv.data());
         std::string o = res ? "ok:" : "no";
         if(!res)
             return o;
         P::ParseOutput out(P::move(*res));
         const P::ParseOutput &cout_ = out;
         for(auto *n : names) {
             auto *v = cout_.value_of(n);
             o += n;
             if(!v)
                 continue;
             if(auto *b = v->get_if<bool>())
                 o += *b ? "=T" : "=F";
             else if(auto *i = v->get_if<int64_t>())
                 o += std::to_string(*i);
             else if(auto *s = v->get_if<P::CString>())
                 o += S(*s);
             else if(auto *l = v->get_if<P::Vector<P::CString>>())
                 for(auto &e : *l)
                     o += S(e) + ",";
         }
         return o;
     }},
    {"path-forms", [](vh::Rng &r, Shared &sh) -> std::string {
         static std::atomic<int> serial{0};
         std::string o;
         P::Path a(CS("d" + gword(r, 4))), b("/abs/x.txt"), c("rel/./y.tar.gz"), e("");
         for(auto *p : {&a, &b, &c, &e}) {
             o += std::to_string(p->is_abs()) + S(p->extension()) + p->filename().c_str() + "|";
             P::Path q = *p / "sub.dir", k = *p / CS(gword(r, 3)), z = *p / b, y = a / *p;
             o += std::string(q.c_str()) + k.c_str() + z.c_str() + y.c_str();
             q.replace_extension(r.below(2) ? ".new" : ".n");
             o += q.c_str();
             for(auto &x : q.split())
                 o += S(x) + "|";
         }
         o += std::to_string(P::Path(sh.file.c_str()).exists()) + std::to_string(a.exists());
         // files of its own
         std::string own = sh.dir + "/own" + std::to_string(serial.fetch_add(1)), own2 = own + ".moved", text;
         for(int i = 0; i < 6; i++)
             text += gu8(r, 8) + (r.below(3) ? "\n" : "");
         FILE *f = fopen(own.c_str(), "wb");
         fwrite(text.data(), 1, text.size(), f);
         fclose(f);
         P::Path op(own.c_str());
         o += std::to_string(op.rename_to(P::Path(own2.c_str()))) + std::to_string(op.exists());
         P::File in(own2.c_str(), "rb");
         while(!in.eof()) {
             P::Bytes line = in.readline_bytes();
             o += S2(line) + "$";
         }
         P::Path mp(own2.c_str());
         auto lt = mp.load_text();
         if(lt)
             o += S(*lt);
         auto mm1 = P::mmap_file(own2.c_str());
         if(mm1) {
             P::MMapping mm2(P::move(*mm1)), mm3;
             mm3 = P::move(mm2);
             o += std::to_string(mm3.span().size_bytes());
         }
         unlink(own2.c_str());
         o += std::to_string(mp.load_bytes() ? 1 : 0);
         auto g = P::Path((sh.dir + "/sub").c_str()).glob("f[0-2].*");
         P::GlobResult g2(P::move(g)), g3;
         g3 = P::move(g2);
         std::vector<std::string> v;
         while(auto p = g3.next())
             v.push_back(p->filename().c_str());
         std::sort(v.begin(), v.end());
         for(auto &x : v)
             o += x;
         return o;
     }},
    {"format-forms", [](vh::Rng &r, Shared &) -> std::string {
         P::Bytes by;
         P::CString s;
         std::string w = gword(r, 600 + r.below(1200)), u = gu8(r, 30);
         P::format_append(s, "%s|%s", w.c_str(), u.c_str());
         P::format_append(s, "%c%05.1f%-8d|", 'a' + (int)r.below(26), (double)r.below(99) / 4, (int)r.below(1000));
         P::CString n = P::cformat("[%s]", P::cformat("{%s}", s.c_str()).c_str());
         return S(n);
     }},
    {"regex-forms", [](vh::Rng &r, Shared &sh) -> std::string {
         std::string o;
         const char *pats[] = {"(a|b)+(Z)?", "([0-9]{1,3})\\.?", "^(.*?)(ß)", "(?i)(xz|Ö)", "\\p{L}+"};
         for(int i = 0; i < 5; i++) {
             P::U8Regex re{P::U8String(pats[(i + r.below(5)) % 5])};
             P::U8String t(gu8(r, 60).c_str());
             try {
                 auto m = P::regex_search(re, t);
                 P::U8Match mv(P::move(m));
                 o += S(mv.get_submatch(0)) + std::to_string(mv.num_groups()) + S(mv.group(0));
             } catch(const P::PyException &) {
                 o += "none";
             }
             o += matches(re, sh.u8);
         }
         return o;
     }},
    {"threads-inside", [](vh::Rng &r, Shared &) -> std::string {
         P::Mutex mu;
         struct Ctx {
             P::Mutex *mu;
             int64_t *sum;
             int add;
         };
         int64_t sum = 0;
         Ctx c1{&mu, &sum, (int)r.below(50)}, c2{&mu, &sum, (int)r.below(50)};
         auto fn = [](void *p) -> void * {
             Ctx &c = *(Ctx *)p;
             for(int i = 0; i < 20; i++) {
                 P::LockGuard l(*c.mu);
                 *c.sum += c.add;
             }
             return nullptr;
         };
         {
             P::Thread a(fn, &c1), b(fn, &c2);
             a.join();
             b.join();
         }
         return std::to_string(sum);
     }},
    // reading the shared objects through const operations
    {"shared-strings", [](vh::Rng &r, Shared &m) -> std::string {
         const Shared &sh = m;
         std::string o = S(sh.text) + S(sh.u8) + std::string(sh.bytes.data(), sh.bytes.size());
         P::CString cp = sh.text;
         P::U8String up = sh.u8;
         P::Bytes bp = sh.bytes;
         o += S(cp) + S(up) + std::to_string(bp == sh.bytes) + std::to_string(bp < sh.bytes) + std::to_string(sh.text == cp);
         o += S(sh.u8.view().upper()) + S(sh.u8.view().lower()) + S(sh.text.view().upper());
         o += std::to_string(sh.text.view().natural_order(cp.view())) + std::to_string(sh.text.view().find('X'));
         for(auto it = sh.u8.cbegin(); it != sh.u8.cend(); ++it)
             o += std::to_string(*it) + ",";
         for(auto it = sh.u8.crbegin(); it != sh.u8.crend(); ++it)
             o += std::to_string(*it) + ",";
         for(auto &p : sh.u8.split_ascii())
             o += S(p);
         o += sh.fixed.c_str();
         P::SimpleHash h;
         sh.text.feed_hash(h);
         sh.u8.feed_hash(h);
         return o + std::to_string(h.get_hash_value()) + std::to_string(r.below(5));
     }},
    {"shared-containers", [](vh::Rng &r, Shared &m) -> std::string {
         const Shared &sh = m;
         std::string o = joinv(sh.ints);
         for(int i = 0; i < 40; i++) {
             auto &w = sh.wordlist[r.below(sh.wordlist.size())];
             P::CString k = CS(r.below(3) ? w : w + "?");
             auto *v = sh.map.lookup(k);
             o += v ? std::to_string(*v) : "-";
             o += sh.map.contains(k) ? 'y' : 'n';
             auto *t = sh.imap.lookup((int)r.below(700));
             o += t ? S(*t) : "-";
             o += sh.set.contains(P::U8String(gu8(r, 6).c_str())) ? 'y' : 'n';
             o += sh.tree.lookup((int)r.below(500)) ? 'y' : 'n';
             o += std::to_string(sh.ints[r.below(100)] + sh.fv[r.below(64)] + sh.arr[r.below(100)]);
         }
         auto cp = sh.words;
         for(auto &x : cp)
             o += S(x);
         auto tc = sh.ints;
         o += joinv(tc) + std::to_string(sh.map.size()) + std::to_string(sh.set.size()) + std::to_string(sh.tree.size());
         o += S(*sh.opt);
         if(auto *t = sh.var.get_if<P::CString>())
             o += S(*t);
         P::Variant<int, P::CString, P::Vector<int>> vc(sh.var);
         o += std::to_string(vc.index());
         auto mv = sh.mm.span();
         o += std::string((const char *)mv.data(), mv.size_bytes());
         return o;
     }},
};
const size_t NT = sizeof TASKS / sizeof *TASKS;
} // namespace
