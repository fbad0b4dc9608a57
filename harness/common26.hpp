#pragma once
#include "vh.hpp"
#include <pystd2026.hpp>
namespace P = pystd2026;

// true if f throws PyException (anything else propagates)
template<class F> bool throws_py(F &&f) {
    try {
        f();
    } catch(const P::PyException &e) {
        // the message must be usable
        if(e.what().size_bytes() == 0 && vh::cur)
            vh::cur->soft("exception.message-empty", "PyException without a message");
        return true;
    }
    return false;
}

// "interesting" sizes around the growth boundaries
inline size_t gsize(vh::Rng &r, size_t maxn = 300) {
    switch(r.below(8)) {
    case 0:
        return r.below(3);
    case 1: {
        static const size_t b[] = {7, 8, 9, 14, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257};
        size_t v = b[r.below(sizeof b / sizeof *b)];
        return v <= maxn ? v : maxn;
    }
    case 2:
        return r.below(maxn + 1);
    default:
        return r.below(12);
    }
}
inline std::string gbytes(vh::Rng &r, size_t n) {
    std::string s(n, 0);
    unsigned mode = r.below(4);
    for(auto &ch : s) {
        if(mode == 0)
            ch = (char)r.below(256);
        else if(mode == 1)
            ch = "ab"[r.below(2)];
        else if(mode == 2)
            ch = (char)("\x00\x01\x7f\x80\xff a\n"[r.below(8)]);
        else
            ch = (char)('a' + r.below(26));
    }
    return s;
}
// no NUL
inline std::string gtext(vh::Rng &r, size_t n) {
    std::string s(n, 0);
    unsigned mode = r.below(6);
    for(auto &ch : s) {
        if(mode == 0)
            ch = (char)(1 + r.below(255));
        else if(mode == 1)
            ch = "ab"[r.below(2)];
        else if(mode == 2)
            ch = "  \t\n\rab,\x80\xff"[r.below(10)];
        else if(mode == 3)
            ch = "aAbBzZ09_-"[r.below(10)];
        else
            ch = (char)('a' + r.below(26));
    }
    return s;
}
inline int sgn(int64_t x) { return x < 0 ? -1 : x > 0 ? 1 : 0; }
inline int ulex(const std::string &a, const std::string &b) {
    size_t n = std::min(a.size(), b.size());
    for(size_t i = 0; i < n; i++) {
        unsigned char x = a[i], y = b[i];
        if(x != y)
            return x < y ? -1 : 1;
    }
    return a.size() < b.size() ? -1 : a.size() > b.size() ? 1 : 0;
}
