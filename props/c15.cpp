// C15: equal keys have equal hashes, and hash functions compute their definition from the given bytes alone.
#include "strgen.hpp"
#include <jstd/hasher/hash_helper.h>
#include <jstd/hasher/fnv1a.h>
using namespace pt;
using u8 = unsigned char;
using Bytes = std::string;

// ---- references, written from the definitions ----
static uint32_t poly(const Bytes & b, uint32_t m) { uint32_t h = 0; for (u8 c : b) h = h * m + c; return h; }
// CRC-32C, bit by bit, without inversion at the end
static uint32_t crc(uint32_t c, const Bytes & b) {
    for (u8 x : b) { c ^= x; for (int i = 0; i < 8; i++) c = (c >> 1) ^ (c & 1 ? 0x82F63B78u : 0); }
    return c;
}
static Bytes padded(const Bytes & b, size_t w) { Bytes r = b; while (r.size() % w) r += '\0'; return r; }
static Bytes word(uint64_t v, int n) { Bytes r; for (int i = 0; i < n; i++) r += char(v >> (8 * i)); return r; }
static uint32_t crc_words(const Bytes & b) {
#ifdef __SSE4_2__
    return crc(~0u, padded(b, 8));
#else
    return poly(b, 31);
#endif
}
static uint32_t ap(const Bytes & b) {
    uint32_t h = 0;
    for (size_t i = 0; i < b.size(); i++) { uint32_t c = u8(b[i]); if (i & 1) h ^= ~((h << 11) ^ c ^ (h >> 5)); else h ^= (h << 7) ^ c ^ (h >> 3); }
    return h;
}
static uint32_t djb(const Bytes & b) { uint32_t h = 5381; for (u8 c : b) h = h * 33 + c; return h; }
static uint32_t openssl(const Bytes & b) {
    uint32_t h = 0;
    for (size_t i = 0; i < b.size(); i += 2) { uint32_t v = u8(b[i]); if (i + 1 < b.size()) v |= uint32_t(u8(b[i + 1])) << 8; h ^= v << ((i / 2) & 15); }
    return h;
}
static uint32_t rocks(const Bytes & b, uint32_t seed) {
    uint32_t m = 0xc6a4a793, h = uint32_t(seed ^ (b.size() * m));
    size_t i = 0;
    for (; i + 4 <= b.size(); i += 4) { uint32_t w = 0; for (int k = 3; k >= 0; k--) w = w << 8 | u8(b[i + k]); h += w; h *= m; h ^= h >> 16; }
    if (i < b.size()) { for (size_t k = b.size() - i; k-- > 0;) h += uint32_t(int32_t(static_cast<signed char>(b[i + k]))) << (8 * k); h *= m; h ^= h >> 24; }
    return h;
}
static size_t fnv(const Bytes & b) {
    size_t step = b.size() == 8 ? 4 : b.size() == 4 ? 2 : 1, h = 14695981039346656037ull;
    for (size_t i = 0; i < b.size(); i += step) { uint64_t w = 0; for (size_t k = step; k-- > 0;) w = w << 8 | u8(b[i + k]); h = (h ^ w) * 1099511628211ull; }
    return h;
}
template <class T>
static T primary(const Bytes & b, size_t seed) {
    const T m = T(0x397A4A6CC6A4A793ull);
    T h = T(T(seed) ^ T(m * T(b.size())));
    for (size_t i = 0; i < b.size(); i += sizeof(T)) { T w = 0; for (size_t k = std::min(b.size() - i, sizeof(T)); k-- > 0;) w = T(w << 8) | u8(b[i + k]); h += w; h *= m; h ^= h >> (sizeof(T) * 4); }
    return h;
}

static void bytes(Src & s) {
    bool nt = false;
    namespace H = jstd::hashes;
    s.set_ops(6);
    while (s.more()) {
        Bytes a = draw_string<char>(s);
        Buf<char> A(s, a), B(s, a);
        uint32_t seed = uint32_t(s.draw64());
        s.log("bytes ", show(a));
        if (a.size() > 16 && a.size() % 8) nt = true;
#define REF(f, ref) do { auto x_ = f(A.data(), a.size()); auto y_ = f(B.data(), a.size()); \
            PBT_CHECK(x_ == y_, #f "() differs between two copies of ", show(a)); \
            PBT_CHECK(x_ == ref, #f "() is ", x_, ", expected ", ref, " for ", show(a)); } while (0)
        REF(H::Times31, poly(a, 31));
        REF(H::Times31Std, poly(a, 31));
        REF(H::BKDRHash_31, poly(a, 31));
        REF(H::BKDRHash_31_std, poly(a, 31));
        REF(H::BKDRHash, poly(a, 131));
        REF(H::APHash, ap(a));
        REF(H::DJBHash, djb(a));
        REF(H::OpenSSL_Hash, openssl(a));
        REF(H::hash_crc32, crc_words(a));
#ifdef __SSE4_2__
        REF(H::intel_crc32_x86, crc(~0u, padded(a, 4)));
        REF(H::intel_crc32_x64, crc(~0u, padded(a, 8)));
        REF(H::intel_crc32_simple_x86, ~crc(~0u, a));
        REF(H::intel_crc32_simple_x64, ~crc(~0u, a));
#endif
        auto msvc = [](const char * p, size_t n) { return H::msvc_fnv_1a((const u8 *)p, n); };
        REF(msvc, fnv(a));
        auto rk = [seed](const char * p, size_t n) { return rocksdb::hashes::Hash(p, n, seed); };
        REF(rk, rocks(a, seed));
        auto p32 = [seed](const char * p, size_t n) { return jstd::HashUtils<uint32_t>().primaryHash(p, n, seed); };
        auto p64 = [seed](const char * p, size_t n) { return jstd::HashUtils<uint64_t>().primaryHash(p, n, seed); };
        auto p32n = [seed](const char * p, size_t n) { return jstd::HashUtils<uint32_t>().primaryHash_new(p, n, seed); };
        auto p64o = [seed](const char * p, size_t n) { return jstd::HashUtils<uint64_t>().primaryHash_old(p, n, seed); };
        REF(p32, primary<uint32_t>(a, seed));
        REF(p64, primary<uint64_t>(a, seed));
        REF(p32n, primary<uint32_t>(a, seed));
        REF(p64o, primary<uint64_t>(a, seed));
        auto sec = [](const char * p, size_t n) { return jstd::HashUtils<uint32_t>().secondaryHash(p, n); };
        REF(sec, poly(a, 31));
        // no definition to compare with: the same bytes give the same hash
        REF(H::FNV1A_Yoshimura, x_);
        REF(H::FNV1A_Yoshimitsu_TRIADii_xmm, x_);
        REF(H::FNV1A_penumbra, x_);
        // integers
        uint64_t v = s.draw64();
        if (s.chance(1, 3)) v >>= s.draw(64);
#ifdef __SSE4_2__
        PBT_CHECK(H::intel_int_crc32_x86(uint32_t(v)) == crc(~0u, word(v, 4)), "intel_int_crc32_x86(", uint32_t(v), ") is wrong");
        PBT_CHECK(H::intel_simple_int_crc32(v) == crc(~0u, word(v, 8)), "intel_simple_int_crc32(", v, ") is wrong");
        uint64_t two = uint64_t(crc(~0u, word(v, 8))) | uint64_t(crc(0, word(v, 8))) << 32;
        PBT_CHECK(H::intel_int_crc32_x64(v) == two && H::int_hash_crc32(v) == two, "int_hash_crc32(", v, ") is ", H::int_hash_crc32(v), ", expected ", two);
        PBT_CHECK(H::simple_int_hash_crc32(v) == crc(~0u, word(v, 8)), "simple_int_hash_crc32(", v, ") is wrong");
#else
        PBT_CHECK(H::int_hash_crc32(v) == poly(word(v, 8), 31) && H::simple_int_hash_crc32(v) == poly(word(v, 8), 31), "int_hash_crc32(", v, ") is wrong");
#endif
    }
    if (nt) s.nontrivial("more than 16 bytes, not a multiple of the word size");
}

// jstd::hash and string_hash_helper: equal keys have equal hashes, whatever the memory they lie in
template <class R, std::size_t F>
static R ref(const Bytes & b) { return R(F == jstd::HashFunc_CRC32C ? crc_words(b) : poly(b, 31)); }

template <class C, class R, std::size_t F>
static void strings(Src & s, const std::basic_string<C> & a, const std::basic_string<C> & b) {
    using S = std::basic_string<C>;
    using V = jstd::basic_string_view<C>;
    Buf<C> A(s, a), B(s, a), D(s, b);
    Bytes raw((const char *)a.data(), a.size() * sizeof(C));
    V v(A.data(), a.size()), w(B.data(), a.size()), d(D.data(), b.size());
    R h = jstd::hash<S, R, F>()(a);
    PBT_CHECK((h == ref<R, F>(raw)), "hash of a string is ", h, ", expected ", (ref<R, F>(raw)), " for ", show(a));
    auto same = [&](R x, const char * what) { PBT_CHECK(x == h, what, " is ", x, ", that of the equal string ", h, " for ", show(a)); };
    same(jstd::hash<S, R, F>()(S(a)), "the hash of a copy");
    same(jstd::hash<V, R, F>()(v), "the hash of a view");
    same(jstd::hash<V, R, F>()(w), "the hash of another view");
    same(jstd::string_hash_helper<S, R, F>::getHashCode(a), "string_hash_helper of a string");
    same(jstd::string_hash_helper<V, R, F>::getHashCode(v), "string_hash_helper of a view");
    if (a.empty()) { same(jstd::hash<V, R, F>()(V()), "the hash of a null view"); same(jstd::string_hash_helper<V, R, F>::getHashCode(V()), "string_hash_helper of a null view"); }
    PBT_CHECK(!(v == d) || (jstd::hash<V, R, F>()(d) == h), "views are equal but their hashes differ");
}
template <class C, class K, std::size_t F>
static void cstrings(Src & s, std::basic_string<C> a) {
    a.resize(std::min(a.size(), a.find(C(0))));
    Buf<C> A(s, a, 1), B(s, a, 1);
    auto h = jstd::hash<K *, uint32_t, F>()((K *)A.p), g = jstd::hash<K *, uint32_t, F>()((K *)B.p);
    uint32_t r = ref<uint32_t, F>(Bytes((const char *)a.data(), a.size() * sizeof(C)));
    PBT_CHECK(h == g && h == r, "hash of a C string is ", h, " and ", g, ", expected ", r, " for ", show(a));
    auto l = jstd::hash_helper<K *, uint32_t, F>::getHashCode((K *)A.p, a.size());
    PBT_CHECK(l == r, "hash of a C string with its length is ", l, ", expected ", r, " for ", show(a));
}
template <class T, std::size_t F>
static void ints(Src & s) {
    T v = T(s.draw64()), w = s.chance(1, 2) ? v : T(v ^ (T(1) << (std::is_same<T, bool>::value ? 0 : s.draw(sizeof(T) * 8))));
    if (std::is_same<T, bool>::value) { v = T(s.draw(2)); w = T(s.draw(2)); }
    auto h = jstd::hash<T, uint32_t, F>()(v), g = jstd::hash<T, uint32_t, F>()(w);
    if (v == w) PBT_CHECK(h == g, "equal integers have different hashes");
    else if (sizeof(T) <= 4) PBT_CHECK(h != g, "hash does not distinguish integers ", int64_t(v), " and ", int64_t(w));
    std::unique_ptr<T> p(new T(v)), q(new T(v));
    struct P { T * a; };
    auto hp = jstd::hash<P *, uint32_t, F>();
    std::unique_ptr<char> c(new char(1));
    P * x = reinterpret_cast<P *>(c.get());
    PBT_CHECK(hp(x) == hp(x), "the hash of a pointer changes");
    auto before = hp(x); *c = 7;
    PBT_CHECK(hp(x) == before, "the hash of a pointer depends on what it points to");
    auto big = jstd::hash<T, uint64_t, F>();
    PBT_CHECK(big(*p) == big(*q), "equal integers have different 64 bit hashes");
}
template <class T, std::size_t F>
static void floats(Src & s) {
    T v = s.chance(1, 3) ? T(0) : s.chance(1, 2) ? T(int64_t(s.draw64())) : T(s.draw(100)) / 7;
    T w = s.chance(1, 2) ? v : -v;
    if (v == w) PBT_CHECK((jstd::hash<T, uint32_t, F>()(v) == jstd::hash<T, uint32_t, F>()(w)), "equal floating point values ", v, " and ", w, " have different hashes");
}
template <std::size_t F>
static void keys(Src & s) {
    s.set_ops(6);
    bool nt = false;
    while (s.more()) {
        auto a = draw_string<char>(s); auto b = draw_related<char>(s, a);
        auto x = draw_string<wchar_t>(s); auto y = draw_related<wchar_t>(s, x);
        s.log("strings ", show(a), " ", show(x));
        if (a.size() > 15 && x.size()) nt = true;
        strings<char, uint32_t, F>(s, a, b);
        strings<wchar_t, uint32_t, F>(s, x, y);
        strings<char, size_t, F>(s, a, b);
        strings<wchar_t, size_t, F>(s, x, y);
        cstrings<char, char, F>(s, a); cstrings<char, const char, F>(s, a); cstrings<char, const unsigned char, F>(s, a); cstrings<char, unsigned char, F>(s, a);
        cstrings<wchar_t, wchar_t, F>(s, x); cstrings<wchar_t, const wchar_t, F>(s, x);
        auto z = draw_string<char16_t>(s);
        cstrings<char16_t, short, F>(s, z); cstrings<char16_t, const unsigned short, F>(s, z);
        ints<bool, F>(s); ints<char, F>(s); ints<signed char, F>(s); ints<unsigned char, F>(s); ints<short, F>(s); ints<unsigned short, F>(s);
        ints<wchar_t, F>(s); ints<int, F>(s); ints<unsigned, F>(s); ints<long, F>(s); ints<unsigned long, F>(s); ints<long long, F>(s); ints<unsigned long long, F>(s);
        floats<float, F>(s); floats<double, F>(s);
    }
    if (nt) s.nontrivial("strings longer than the short string buffer");
}
PBT_TARGETS({"bytes", bytes, 4}, {"crc32", keys<jstd::HashFunc_CRC32C>, 1}, {"times31", keys<jstd::HashFunc_Time31>, 1}, {"times31std", keys<jstd::HashFunc_Time31Std>, 1});
