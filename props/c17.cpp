// C17: the vector helpers act on exactly the lane they name, at every index and in every variant a target selects.
#include <climits>
#include <cstring>
#include <stdexcept>
#include <filesystem>
#include <string>
#include <iostream>
#include <limits>
#include <memory>
#include <vector>
#include <utility>
#include <type_traits>
#include <cassert>
#include "engine.hpp"
#include "jstd/basic/stddef.h"
#include "jstd/support/BitVec.h"
#include "jstd/support/BitUtils.h"

using pbt::Src;

// numbers with sign bits, bytes 0x00/0x7F/0x80/0xFF, neighbours and anything
static uint8_t gbyte(Src & s) {
    static const uint8_t sp[] = {0, 1, 0x7F, 0x80, 0x81, 0xFF, 0xFE, 0x55};
    return s.chance(1, 2) ? sp[s.draw(8)] : uint8_t(s.draw(256));
}
static uint64_t gword(Src & s) {
    uint64_t x = 0;
    switch (s.draw(4)) {
    case 0: for (int i = 0; i < 8; i++) x = x << 8 | gbyte(s); return x;
    case 1: return s.draw64();
    case 2: return s.draw64() >> s.draw(64);
    default: return ~(s.draw64() >> s.draw(64));
    }
}
static std::string hex(const uint8_t * p, size_t n) {
    static const char d[] = "0123456789abcdef";
    std::string r;
    for (size_t i = 0; i < n; i++) { r += d[p[i] >> 4]; r += d[p[i] & 15]; if (i % 8 == 7) r += ' '; }
    return r;
}
template <class T> static T lane(const uint8_t * p, int i) { T t; memcpy(&t, p + i * sizeof(T), sizeof(T)); return t; }

static __m128i load(const uint8_t * p) { __m128i v; memcpy(&v, p, 16); return v; }
static std::string str(__m128i v) { uint8_t b[16]; memcpy(b, &v, 16); return hex(b, 16); }
static bool same(__m128i v, const uint8_t * p) { return !memcmp(&v, p, 16); }

#if defined(__AVX__)
static __m256i load256(const uint8_t * p) { __m256i v; memcpy(&v, p, 32); return v; }

// a lane of a register, read and replaced, against memory
template <int I> struct lanes {
    static void x16(const uint8_t * m, int value) {
        __m256i v = load256(m);
        PBT_CHECK((uint16_t)jstd::AVX::mm256_extract_epi16<I>(v) == lane<uint16_t>(m, I), "mm256_extract_epi16<", I, "> of ", hex(m, 32), " is ",
                  jstd::AVX::mm256_extract_epi16<I>(v));
        uint8_t r[32]; memcpy(r, m, 32);
        uint16_t w = (uint16_t)value; memcpy(r + I * 2, &w, 2);
        uint8_t g[32];
        __m256i a = jstd::AVX::mm256_insert_epi16<I>(v, value); memcpy(g, &a, 32);
        PBT_CHECK(!memcmp(g, r, 32), "mm256_insert_epi16<", I, ">(", hex(m, 32), ", ", value, ") is ", hex(g, 32));
        a = jstd::AVX::mm256_insert_epi16_gcc<I>(v, value); memcpy(g, &a, 32);
        PBT_CHECK(!memcmp(g, r, 32), "mm256_insert_epi16_gcc<", I, ">(", hex(m, 32), ", ", value, ") is ", hex(g, 32));
    }
    static void x32(const uint8_t * m, int value) {
        __m256i v = load256(m);
        PBT_CHECK(jstd::AVX::mm256_extract_epi32<I>(v) == lane<int32_t>(m, I), "mm256_extract_epi32<", I, "> of ", hex(m, 32), " is ",
                  jstd::AVX::mm256_extract_epi32<I>(v));
        uint8_t r[32]; memcpy(r, m, 32);
        memcpy(r + I * 4, &value, 4);
        uint8_t g[32];
        __m256i a = jstd::AVX::mm256_insert_epi32<I>(v, value); memcpy(g, &a, 32);
        PBT_CHECK(!memcmp(g, r, 32), "mm256_insert_epi32<", I, ">(", hex(m, 32), ", ", value, ") is ", hex(g, 32));
    }
    static void x64(const uint8_t * m, int64_t value) {
        __m256i v = load256(m);
        PBT_CHECK(jstd::AVX::mm256_extract_epi64<I>(v) == lane<int64_t>(m, I), "mm256_extract_epi64<", I, "> of ", hex(m, 32), " is ",
                  jstd::AVX::mm256_extract_epi64<I>(v));
        uint8_t r[32]; memcpy(r, m, 32);
        memcpy(r + I * 8, &value, 8);
        uint8_t g[32];
        __m256i a = jstd::AVX::mm256_insert_epi64<I>(v, value); memcpy(g, &a, 32);
        PBT_CHECK(!memcmp(g, r, 32), "mm256_insert_epi64<", I, ">(", hex(m, 32), ", ", value, ") is ", hex(g, 32));
    }
};
template <int... I> static void all16(std::integer_sequence<int, I...>, const uint8_t * m, int v) { int d[] = {(lanes<I>::x16(m, v), 0)...}; (void)d; }
template <int... I> static void all32(std::integer_sequence<int, I...>, const uint8_t * m, int v) { int d[] = {(lanes<I>::x32(m, v), 0)...}; (void)d; }
template <int... I> static void all64(std::integer_sequence<int, I...>, const uint8_t * m, int64_t v) { int d[] = {(lanes<I>::x64(m, v), 0)...}; (void)d; }

static void prop_lanes(Src & s) {
    uint8_t m[32];
    bool mixed = false;
    for (int i = 0; i < 4; i++) { uint64_t w = gword(s); memcpy(m + i * 8, &w, 8); mixed |= (w >> 63) != 0; }
    int64_t value = (int64_t)gword(s);
    s.log("register ", hex(m, 32), " value ", value);
    if (mixed && value != 0) s.nontrivial("lanes with sign bits");
    __m256i v = load256(m);
    PBT_CHECK(jstd::AVX::mm256_cvtsi256_si32_low(v) == lane<uint16_t>(m, 0), "mm256_cvtsi256_si32_low of ", hex(m, 32), " is ", jstd::AVX::mm256_cvtsi256_si32_low(v));
    // the upper half of the lowest 32 bits; the sign may come with it
    PBT_CHECK((uint16_t)jstd::AVX::mm256_cvtsi256_si32_high(v) == lane<uint16_t>(m, 1), "mm256_cvtsi256_si32_high of ", hex(m, 32), " is ", jstd::AVX::mm256_cvtsi256_si32_high(v));
    all16(std::make_integer_sequence<int, 16>(), m, (int)value);
    all32(std::make_integer_sequence<int, 8>(), m, (int)value);
    all64(std::make_integer_sequence<int, 4>(), m, value);
    // the halves of a register in either order, and its tests for zeros and ones
    uint8_t g[32];
    __m256i h = _mm256_set_m128i(load(m + 16), load(m)); memcpy(g, &h, 32);
    PBT_CHECK(!memcmp(g, m, 32), "_mm256_set_m128i(", hex(m + 16, 16), ", ", hex(m, 16), ") is ", hex(g, 32));
    h = _mm256_setr_m128i(load(m), load(m + 16)); memcpy(g, &h, 32);
    PBT_CHECK(!memcmp(g, m, 32), "_mm256_setr_m128i(", hex(m, 16), ", ", hex(m + 16, 16), ") is ", hex(g, 32));
    jstd::IntVec256 u; u.m256 = v;
    for (int i = 0; i < 32; i++) PBT_CHECK(u.u8[i] == m[i], "IntVec256::u8[", i, "]");
    for (int i = 0; i < 16; i++) PBT_CHECK(u.u16[i] == lane<uint16_t>(m, i), "IntVec256::u16[", i, "]");
    for (int i = 0; i < 8; i++) PBT_CHECK(u.i32[i] == lane<int32_t>(m, i), "IntVec256::i32[", i, "]");
    for (int i = 0; i < 4; i++) PBT_CHECK(u.u64[i] == lane<uint64_t>(m, i), "IntVec256::u64[", i, "]");
#if defined(__AVX2__)
    __m256i o = jstd::_mm256_setones_si256();
    uint8_t ff[32]; memset(ff, 0xFF, 32);
    PBT_CHECK(!memcmp(&o, ff, 32), "_mm256_setones_si256");
#endif
}
#endif

static void prop_bytes(Src & s) {
    uint8_t a[16], b[16];
    int lt = 0, gt = 0;
    for (int i = 0; i < 16; i++) {
        a[i] = gbyte(s);
        switch (s.draw(4)) { case 0: b[i] = a[i]; break; case 1: b[i] = a[i] + 1; break; default: b[i] = gbyte(s); }
    }
    s.log("A ", hex(a, 16), " B ", hex(b, 16));
    uint8_t rg[16], rl[16];
    for (int i = 0; i < 16; i++) {
        bool g = (signed char)a[i] > (signed char)b[i], l = (signed char)a[i] < (signed char)b[i];
        rg[i] = g ? 0xFF : 0; rl[i] = l ? 0xFF : 0; lt += l; gt += g;
    }
    if (lt && gt) s.nontrivial("bytes of either order");
    __m128i A = load(a), B = load(b);
    PBT_CHECK(same(jstd::_mm_cmpgt_epi8_fixed(A, B), rg), "_mm_cmpgt_epi8_fixed(", hex(a, 16), ", ", hex(b, 16), ") is ", str(jstd::_mm_cmpgt_epi8_fixed(A, B)));
    PBT_CHECK(same(jstd::_mm_cmplt_epi8_fixed(A, B), rl), "_mm_cmplt_epi8_fixed(", hex(a, 16), ", ", hex(b, 16), ") is ", str(jstd::_mm_cmplt_epi8_fixed(A, B)));
    PBT_CHECK(jstd::SSE::mm_cvtsi128_si32_low(A) == lane<uint16_t>(a, 0), "mm_cvtsi128_si32_low of ", hex(a, 16), " is ", jstd::SSE::mm_cvtsi128_si32_low(A));
    PBT_CHECK(jstd::SSE::mm_cvtsi128_si32_high(A) == lane<uint16_t>(a, 1), "mm_cvtsi128_si32_high of ", hex(a, 16), " is ", jstd::SSE::mm_cvtsi128_si32_high(A));
    PBT_CHECK(jstd::AVX512::mm_cvtsi128_si16(A) == lane<uint16_t>(a, 0), "mm_cvtsi128_si16 of ", hex(a, 16), " is ", jstd::AVX512::mm_cvtsi128_si16(A));
    uint8_t r[16];
    int32_t x = lane<int32_t>(a, 2); int64_t y = lane<int64_t>(a, 1);
    for (int i = 0; i < 4; i++) memcpy(r + 4 * i, &x, 4);
    PBT_CHECK(same(jstd::SSE::mm_set1_epi32(x), r), "mm_set1_epi32(", x, ") is ", str(jstd::SSE::mm_set1_epi32(x)));
    for (int i = 0; i < 2; i++) memcpy(r + 8 * i, &y, 8);
    PBT_CHECK(same(jstd::SSE::mm_set1_epi64(y), r), "mm_set1_epi64(", y, ") is ", str(jstd::SSE::mm_set1_epi64(y)));
    memset(r, 0xFF, 16);
    PBT_CHECK(same(jstd::_mm_setones_si128(), r), "_mm_setones_si128 is ", str(jstd::_mm_setones_si128()));
    jstd::IntVec128 u; u.m128 = A;
    for (int i = 0; i < 16; i++) PBT_CHECK(u.i8[i] == (int8_t)a[i], "IntVec128::i8[", i, "]");
    for (int i = 0; i < 8; i++) PBT_CHECK(u.i16[i] == lane<int16_t>(a, i), "IntVec128::i16[", i, "]");
    for (int i = 0; i < 4; i++) PBT_CHECK(u.u32[i] == lane<uint32_t>(a, i), "IntVec128::u32[", i, "]");
    for (int i = 0; i < 2; i++) PBT_CHECK(u.i64[i] == lane<int64_t>(a, i), "IntVec128::i64[", i, "]");
}

#if defined(__AVX__)
PBT_TARGETS({"lanes of 256 bits", prop_lanes, 2}, {"bytes of 128 bits", prop_bytes, 1});
#else
PBT_TARGETS({"bytes of 128 bits", prop_bytes, 1});
#endif
