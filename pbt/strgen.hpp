// Generated strings in exactly sized heap buffers (AddressSanitizer sees every access outside them).
#pragma once
#include <climits>
#include <cstring>
#include <stdexcept>
#include <filesystem>
#include <string>
#include <iostream>
#include <sstream>
#include <algorithm>
#include <memory>
#include <vector>
#include <string_view>
#include "engine.hpp"

namespace pt {
using pbt::Src;
using pbt::cat;

template <class C>
inline std::string show(const std::basic_string<C> & s) {
    std::string r = cat(s.size(), ":");
    for (size_t i = 0; i < s.size() && i < 80; i++) {
        auto u = uint64_t(typename std::make_unsigned<C>::type(s[i]));
        if (u >= 33 && u < 127) r += char(u); else r += cat("<", u, ">");
    }
    return r;
}

template <class C>
inline C draw_char(Src & s, int alphabet) {
    switch (alphabet) {
        case 0: return C('a' + int(s.draw(2)));
        case 1: return C(s.draw(3));                                   // NUL and its neighbours
        case 2: { static const int t[] = {0x7f, 0x80, 0xff, 0x01, 0xfe, 0x00}; return C(t[s.draw(6)]); }
        case 3: { static const int t[] = {0x41, 0x4100, 0x0041, 0x10041, 0x8000, 0x7fff, 0x7fffffff, int(0x80000041u)}; int v = t[s.draw(8)]; return C(sizeof(C) == 1 ? v & 0xff : sizeof(C) == 2 ? v & 0xffff : v); }
        default: return C(s.draw(256));
    }
}
inline size_t draw_len(Src & s) {
    static const int around[] = {0, 1, 4, 8, 16, 24, 32, 48, 64, 128};
    switch (s.weighted({6, 6, 1})) {
        case 0: return s.draw(20);
        case 1: { int a = around[s.draw(10)], d = int(s.draw(5)) - 2; return size_t(std::max(0, a + d)); }
        default: return s.draw(600);
    }
}
template <class C>
inline std::basic_string<C> draw_string(Src & s) {
    int al = int(s.draw(5));
    size_t n = draw_len(s);
    std::basic_string<C> r(n, C('a'));
    size_t rnd = n <= 24 ? n : 8;            // long strings: constant but for a few places
    for (size_t i = 0; i < rnd; i++) r[n <= 24 ? i : s.draw(uint32_t(n))] = draw_char<C>(s, al);
    return r;
}
// A string related to a: equal, one character changed, a prefix, an extension, or independent.
template <class C>
inline std::basic_string<C> draw_related(Src & s, const std::basic_string<C> & a) {
    std::basic_string<C> b = a;
    switch (s.weighted({3, 5, 2, 2, 1, 1})) {
        case 0: break;
        case 1: if (!b.empty()) { size_t i = s.chance(1, 3) ? b.size() - 1 : s.draw(uint32_t(b.size()));
                    if (s.chance(1, 2)) b[i] = draw_char<C>(s, int(s.draw(5)));
                    else b[i] = C(uint64_t(typename std::make_unsigned<C>::type(b[i])) ^ (uint64_t(1) << s.draw(uint32_t(sizeof(C) * 8))));
                    if (s.chance(1, 3)) { size_t j = s.draw(uint32_t(b.size())); b[j] = draw_char<C>(s, int(s.draw(5))); } }
                break;
        case 2: b.resize(s.draw(uint32_t(b.size() + 1))); break;
        case 3: { size_t n = s.draw(20) + 1; for (size_t i = 0; i < n; i++) b += draw_char<C>(s, int(s.draw(3))); break; }
        case 4: if (b.size() > 1) std::reverse(b.begin(), b.end()); break;
        default: b = draw_string<C>(s);
    }
    return b;
}

// A buffer of exactly n characters at a drawn alignment.
template <class C>
struct Buf {
    size_t n;
    std::unique_ptr<char[]> mem;
    C * p;
    Buf(Src & s, const std::basic_string<C> & v, size_t extra = 0) : n(v.size() + extra) {
        size_t off = s.draw(8) * sizeof(C);
        mem.reset(new char[off + n * sizeof(C)]);
        p = reinterpret_cast<C *>(mem.get() + off);
        if (!v.empty()) std::memcpy(p, v.data(), v.size() * sizeof(C));
        if (extra) std::memset(static_cast<void *>(p + v.size()), 0, extra * sizeof(C));
    }
    const C * data() const { return p; }
};
inline int sgn(long long v) { return v < 0 ? -1 : v > 0; }
template <class C> inline const char * cname() { return sizeof(C) == 1 ? "char" : sizeof(C) == 2 ? "16-bit char" : "wchar_t"; }
}   // namespace pt
