// C16: the bit, power-of-two, logarithm and 128-bit primitives that the maps and hashes compute with have their
// mathematical values, in every variant that a compiler or target can select.
#include <climits>
#include <cstring>
#include <cmath>
#include <stdexcept>
#include <filesystem>
#include <string>
#include <iostream>
#include <array>
#include <limits>
#include <memory>
#include <vector>
#include <utility>
#include <type_traits>
#include <cassert>
#include <x86intrin.h>
#include "engine.hpp"
#include "jstd/basic/stddef.h"
#include "jstd/support/x86_intrin.h"
#ifdef W32
#undef JSTD_WORD_LEN
#define JSTD_WORD_LEN 32
#endif
#ifdef NOGCC                        // the code for compilers without the builtins of GCC and clang
#pragma push_macro("__GNUC__")
#pragma push_macro("__has_builtin")
#undef __GNUC__
#undef __clang__
#undef __has_builtin
#define __has_builtin(x) 0
#endif
#include "jstd/support/BitUtils.h"
#ifdef NOGCC
#pragma pop_macro("__GNUC__")
#pragma pop_macro("__has_builtin")
#endif
#include "jstd/support/Power2.h"
#ifdef NO128
#undef __SIZEOF_INT128__
#pragma push_macro("__GNUC__")
#undef __GNUC__
#undef __clang__
#endif
#include "jstd/hasher/hashes.h"
#ifdef NO128
#pragma pop_macro("__GNUC__")
#endif
#include "jstd/math/log10_int.h"
#include "jstd/hashmap/group_quadratic_prober.hpp"

using pbt::Src;
typedef unsigned __int128 u128;
namespace BU = jstd::BitUtils;
namespace rt = jstd::run_time;
namespace ct = jstd::compile_time;

// ---- references: counting, bit by bit
static int width_of(uint64_t x) { int n = 0; while (x) { n++; x >>= 1; } return n; }       // 1 + floor(log2(x)), 0 for 0
static int ones(uint64_t x) { int n = 0; for (; x; x >>= 1) n += x & 1; return n; }
static int low_zeros(uint64_t x) { int n = 0; while (!(x & 1)) { n++; x >>= 1; } return n; }
static uint64_t floor2(uint64_t x) { return x ? uint64_t(1) << (width_of(x) - 1) : 0; }

// Numbers of any width, near powers of two, with few or many ones.
static uint64_t number(Src & s, int bits) {
    uint64_t x;
    int b = int(s.draw(uint32_t(bits)) + 1);
    uint64_t top = b == 64 ? ~uint64_t(0) : (uint64_t(1) << b) - 1;
    switch (s.weighted({4, 3, 2, 2, 2})) {
        case 0: x = (uint64_t(1) << (b - 1)) + s.draw(7) - 3; break;
        case 1: x = s.draw64() & top; break;
        case 2: x = 0; for (int i = int(s.draw(4)); i >= 0; i--) x |= uint64_t(1) << s.draw(uint32_t(bits)); break;
        case 3: x = top; for (int i = int(s.draw(4)); i > 0; i--) x &= ~(uint64_t(1) << s.draw(uint32_t(bits))); break;
        default: { x = 1; for (int i = int(s.draw(20)); i > 0; i--) x *= 10; x += s.draw(3) - 1; break; }
    }
    return bits == 64 ? x : x & ((uint64_t(1) << bits) - 1);
}
#define SAME(expr, want) do { auto got_ = (expr); auto want_ = (want); PBT_CHECK(uint64_t(got_) == uint64_t(want_), #expr, " is ", uint64_t(got_), " for ", x, ", expected ", uint64_t(want_)); } while (0)

static void bits32(uint32_t x) {
    int w = width_of(x);
    SAME(BU::popcnt32(x), ones(x));
    SAME(BU::__internal_popcnt(x), ones(x));
    SAME(BU::__internal_popcnt_slow(x), ones(x));
    SAME(BU::__internal_hakmem_popcnt(x), ones(x));
    SAME(BU::ls1b32(x), x ? uint32_t(1) << low_zeros(x) : 0);
    SAME(BU::ms1b32(x), floor2(x));
    SAME(BU::clearLowBit32(x), x ? x - (uint32_t(1) << low_zeros(x)) : 0);
    SAME(BU::countLeadingZeros32(x), 32 - w);
    SAME(BU::countTrailingZeros32(x), x ? low_zeros(x) : 32);
    if (x) {
        SAME(BU::bsf32(x), low_zeros(x));
        SAME(BU::bsr32(x), w - 1);
        SAME(BU::__internal_ctz(x), low_zeros(x));
        SAME(BU::__internal_clz(x), 32 - w);
    }
    if (x > 1) SAME(BU::log2_32(x), width_of(x - 1));
}
static void bits64(uint64_t x) {
    int w = width_of(x);
    SAME(BU::popcnt64(x), ones(x));
    SAME(BU::__internal_popcnt64(x), ones(x));
    SAME(BU::ls1b64(x), x ? uint64_t(1) << low_zeros(x) : 0);
    SAME(BU::ms1b64(x), floor2(x));
    SAME(BU::clearLowBit64(x), x ? x - (uint64_t(1) << low_zeros(x)) : 0);
    SAME(BU::countLeadingZeros64(x), 64 - w);
    SAME(BU::countTrailingZeros64(x), x ? low_zeros(x) : 64);
    if (x) {
        SAME(BU::bsf64(x), low_zeros(x));
        SAME(BU::bsr64(x), w - 1);
        SAME(BU::__internal_ctzll(x), low_zeros(x));
        SAME(BU::__internal_clzll(x), 64 - w);
    }
    if (x > 1) SAME(BU::log2_64(x), width_of(x - 1));
}
static void bits_word(uint64_t v) {
#ifdef W32
    uint32_t x = uint32_t(v);
    const int B = 32;
#else
    uint64_t x = v;
    const int B = 64;
#endif
    SAME(BU::popcnt(x), ones(x));
    SAME(BU::clearLowBit(x), x ? x - (uint64_t(1) << low_zeros(x)) : 0);
    SAME(BU::ls1b(x), x ? uint64_t(1) << low_zeros(x) : 0);
    SAME(BU::countLeadingZeros(x), B - width_of(x));
    SAME(BU::countTrailingZeros(x), x ? low_zeros(x) : B);
    if (x) {
        SAME(BU::bsf(x), low_zeros(x));
        SAME(BU::bsr(x), width_of(x) - 1);
        SAME(BU::ms1b(x), floor2(x));
    }
    if (x > 1) SAME(BU::log2_int(x), width_of(x - 1));
}
static void prop_bits(Src & s) {
    s.set_ops(8);
    bool nt = false;
    while (s.more()) {
        uint64_t x = number(s, 64);
        s.log("x = ", x);
        bits64(x); bits32(uint32_t(x)); bits32(uint32_t(x >> 32)); bits_word(x);
        if ((x & (x - 1)) && (x >> 32)) nt = true;
    }
    if (nt) s.nontrivial();
}

template <class T>
static void pow2_of(uint64_t v) {
    using U = typename std::make_unsigned<T>::type;
    T n = T(v);
    uint64_t x = U(n);
    const uint64_t half = uint64_t(std::numeric_limits<U>::max() / 2) + 1, top = std::numeric_limits<U>::max();
    if (x) SAME(rt::is_pow2(n), ones(x) == 1);
    SAME(U(rt::clear_low_bit(n)), x ? x - (uint64_t(1) << low_zeros(x)) : 0);
    if (x) {
        SAME(rt::bitScanForward(n), low_zeros(x));
        SAME(rt::bitScanReverse(n), width_of(x) - 1);
        SAME(rt::countTrailingZeros(n), low_zeros(x));
        if (sizeof(T) >= 4) SAME(rt::countLeadingZeros(n), int(sizeof(T) * 8) - width_of(x));
    }
    SAME(rt::prev_pow2(n), x > 1 ? floor2(x) / 2 : 0);
    SAME(rt::round_down(n), x > 1 ? floor2(x - 1) : 0);
    SAME(rt::round_to(n), floor2(x));
    uint64_t up = x <= 1 ? x : x <= half ? floor2(x - 1) * 2 : top, next = x == 0 ? 1 : x < half ? floor2(x) * 2 : top;
    SAME(U(rt::round_up(n)), U(up));
    SAME(U(rt::next_pow2(n)), U(next));
    SAME(rt::log2_int(n), x > 1 ? width_of(x - 1) : 0);
    // with a promised minimum
    if (x > 1) {
        SAME((rt::prev_pow2<T, 2>(n)), floor2(x) / 2);
        SAME((rt::round_down<T, 2>(n)), floor2(x - 1));
        SAME((rt::round_to<T, 2>(n)), floor2(x));
        SAME(U(rt::round_up<T, 2>(n)), U(up));
        SAME(U(rt::next_pow2<T, 2>(n)), U(next));
        SAME((rt::log2_int<T, 2>(n)), width_of(x - 1));
    }
}
static void prop_pow2(Src & s) {
    s.set_ops(8);
    bool nt = false;
    while (s.more()) {
        uint64_t x = number(s, s.chance(1, 3) ? 16 : 64);
        s.log("x = ", x);
        pow2_of<uint64_t>(x); pow2_of<int64_t>(x); pow2_of<size_t>(x);
        pow2_of<uint32_t>(x); pow2_of<int32_t>(x); pow2_of<uint16_t>(x); pow2_of<uint8_t>(x);
        pow2_of<uint32_t>(x >> 32);
        if (x & (x - 1)) nt = true;
    }
    if (nt) s.nontrivial();
}

// ---- compile time: a table of generated numbers, evaluated by the compiler
constexpr uint64_t cmix(uint64_t z) {
    z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
constexpr size_t kTable = 512;
constexpr size_t table_n(size_t i) {
    return i < 256 ? (size_t(1) << (i / 4)) + i % 4 - 2 : size_t(cmix(i) >> (i % 64));
}
struct CtRow { size_t n; bool pow2; size_t clear, clz, ctz, to, to2, down, down2, up, up2, next, next2; };
template <size_t N> constexpr CtRow ct_row() {
    return CtRow{N, ct::is_pow2<N>::value, ct::clear_low_bit<N>::value, ct::countLeadingZeros<N>::value, ct::countTrailingZeros<N>::value,
        ct::round_to_pow2<N>::value, ct::round_to_power2<N>::value, ct::round_down_pow2<N>::value, ct::round_down_power2<N>::value,
        ct::round_up_pow2<N>::value, ct::round_up_power2<N>::value, ct::next_pow2<N>::value, ct::next_power2<N>::value};
}
#ifdef CT
template <size_t... I> static std::array<CtRow, sizeof...(I)> ct_rows(std::index_sequence<I...>) { return {{ct_row<table_n(I)>()...}}; }
static const std::array<CtRow, kTable> & rows() { static const auto r = ct_rows(std::make_index_sequence<kTable>()); return r; }
static void prop_ct(Src & s) {
    const CtRow & r = rows()[s.draw(kTable)];
    size_t x = r.n;
    s.log("N = ", x);
    const size_t half = size_t(1) << 63, top = ~size_t(0);
    if (x) SAME(r.pow2, ones(x) == 1);
    SAME(r.clear, x ? x - (size_t(1) << low_zeros(x)) : 0);
    if (x) { SAME(r.clz, 64 - width_of(x)); SAME(r.ctz, low_zeros(x)); }
    SAME(r.to, floor2(x));
    SAME(r.to2, floor2(x));
    SAME(r.down, x > 1 ? floor2(x - 1) : 0);
    SAME(r.down2, x > 1 ? floor2(x - 1) : 0);
    size_t up = x <= 1 ? x : x <= half ? floor2(x - 1) * 2 : top, next = x == 0 ? 1 : x < half ? floor2(x) * 2 : top;
    SAME(r.up, up);
    SAME(r.up2, up);
    SAME(r.next, next);
    SAME(r.next2, next);
    if (x & (x - 1)) s.nontrivial();
}
#endif

// ---- decimal logarithm, products, mixers
static void prop_math(Src & s) {
    s.set_ops(8);
    bool nt = false;
    while (s.more()) {
        uint64_t x = number(s, 64), y = number(s, 64);
        s.log("x = ", x, " y = ", y);
        auto digits = [](uint64_t v) { int n = 0; while (v >= 10) { v /= 10; n++; } return n; };
        SAME(jstd::jm_log10_u64(x), digits(x));
        SAME(jstd::jm_log10_u32(uint32_t(x)), digits(uint32_t(x)));
        u128 p = u128(x) * y;
        auto q = jstd::hashes::uint128_mul(x, y);
        PBT_CHECK(q.low == uint64_t(p) && q.high == uint64_t(p >> 64), "uint128_mul(", x, ", ", y, ") is ", q.high, ":", q.low);
        SAME(jstd::hashes::mum_hash64(x, y), uint64_t(p) ^ uint64_t(p >> 64));
        SAME(jstd::hashes::mum_mul_mix64(x, y), uint64_t(p) ^ uint64_t(p >> 64));
        uint64_t p32 = uint64_t(uint32_t(x)) * uint32_t(y);
        SAME(jstd::hashes::mum_hash32(uint32_t(x), uint32_t(y)), uint32_t(p32) ^ uint32_t(p32 >> 32));
        SAME(jstd::hashes::mum_mul_mix32(uint32_t(x), uint32_t(y)), uint32_t(p32) ^ uint32_t(p32 >> 32));
        SAME(jstd::hashes::fibonacci_hash64(x), (x * 11400714818402800987ull) >> 28);
        u128 m = u128(x) * 11400714818402800987ull, k = u128(x) * 0x9E3779B97F4A7C15ull;
#ifndef W32
        SAME(jstd::hashes::fibonacci_hash(x), (x * 11400714818402800987ull) >> 28);
        SAME(jstd::hashes::mum_hash(x), uint64_t(m) ^ uint64_t(m >> 64));
#endif
        SAME(jstd::hashes::mum_mul_mix(x), uint64_t(k) ^ uint64_t(k >> 64));
        if (uint64_t(p >> 64)) nt = true;
    }
    if (nt) s.nontrivial();
}

// ---- from a hash to a bucket: the index is in range, and the probe sequence visits every bucket once
#ifndef W32
template <class Policy>
static void policy_of(Src & s) {
    Policy p;
    size_t cap = size_t(1) << (1 + s.draw(63));
    auto setting = p.calc_next_capacity(cap);
    p.commit(setting);
    Policy c(p);
    for (int i = 0; i < 8; i++) {
        uint64_t x = number(s, 64);
        s.log("capacity ", cap, " key ", x);
        size_t h = p.template get_hash_code<uint64_t>(x);
        size_t a = p.template index_for_hash<uint64_t>(h, cap - 1), b = c.template index_for_hash<uint64_t>(h, cap - 1);
        PBT_CHECK(a < cap, "index_for_hash gives ", a, " for capacity ", cap);
        PBT_CHECK(a == b, "a copied policy gives another index");
        PBT_CHECK(p.template get_hash_code<uint64_t>(x) == h, "get_hash_code is not a function of the key");
        size_t d = p.template index_for_hash<std::string>(x, cap - 1);
        PBT_CHECK(d < cap, "index_for_hash gives ", d, " for capacity ", cap, " and hash ", x);
        SAME(p.round_index(x, cap - 1), x % cap);
    }
    p.reset();
    PBT_CHECK(p.template index_for_hash<std::string>(number(s, 64), 1) < 2, "index_for_hash after reset() is not below the smallest capacity");
}
static void prop_policy(Src & s) {
    if (s.chance(1, 2)) policy_of<jstd::mum_hash_policy<std::hash<uint64_t>>>(s);
    else policy_of<jstd::fibonacci_hash_policy<std::hash<uint64_t>>>(s);
    s.nontrivial();
}
static void prop_probe(Src & s) {
    size_t n = size_t(1) << s.draw(11), start = s.draw(uint32_t(n));
    s.log("buckets ", n, " start ", start);
    std::vector<bool> seen(n);
    jstd::group_quadratic_prober p(start);
    PBT_CHECK(p.get() == start && p.steps() == 0 && p.length() == 1, "a new prober is not at its start");
    size_t visited = 0;
    do {
        PBT_CHECK(p.get() < n, "the probe leaves the table: ", p.get());
        PBT_CHECK(!seen[p.get()], "bucket ", p.get(), " is probed twice");
        seen[p.get()] = true;
        visited++;
        PBT_CHECK(p.length() == visited, "length() is ", p.length(), " after ", visited, " buckets");
    } while (p.next_bucket(n - 1));
    PBT_CHECK(visited == n, visited, " of ", n, " buckets are probed");
    if (n > 2) s.nontrivial();
}
#endif

#ifdef W32
PBT_TARGETS({"bits", prop_bits, 2}, {"pow2", prop_pow2, 2}, {"math", prop_math, 2});
#elif defined(CT)
PBT_TARGETS({"compile_time", prop_ct, 1});
#else
PBT_TARGETS({"bits", prop_bits, 2}, {"pow2", prop_pow2, 2}, {"math", prop_math, 2}, {"policy", prop_policy, 1}, {"probe", prop_probe, 1});
#endif
