// C18: the generators are the Mersenne twisters they are named after, from any seed or key and after any history of
// reseeding and copying, and the ranged draws stay inside the range they are asked for.
#include <climits>
#include <cmath>
#include <cstring>
#include <stdexcept>
#include <filesystem>
#include <string>
#include <iostream>
#include <limits>
#include <memory>
#include <random>
#include <vector>
#include <utility>
#include <type_traits>
#include <cassert>
#include "engine.hpp"
#include "jstd/basic/stddef.h"
#include "jstd/system/RandomGen.h"

using pbt::Src;

// The recurrence as it was published, on a sequence that grows: x[i+N] = x[i+M] ^ twist(upper bits of x[i], lower bits of x[i+1]).
template <class W> struct par;
template <> struct par<uint32_t> {
    typedef std::mt19937 engine;
    typedef jstd::MT19937_32 gen;
    typedef jstd::MtRandomGen32 stat;
    static constexpr size_t N = 624, M = 397;
    static constexpr uint32_t upper = 0x80000000u, a = 0x9908B0DFu, f = 1812433253u, k1 = 1664525u, k2 = 1566083941u;
    static constexpr int seedshift = 30;
    static uint32_t temper(uint32_t y) { y ^= y >> 11; y ^= (y << 7) & 0x9d2c5680u; y ^= (y << 15) & 0xefc60000u; return y ^ y >> 18; }
    static constexpr const char * name = "MT19937_32";
};
template <> struct par<uint64_t> {
    typedef std::mt19937_64 engine;
    typedef jstd::MT19937_64 gen;
    typedef jstd::MtRandomGen64 stat;
    static constexpr size_t N = 312, M = 156;
    static constexpr uint64_t upper = 0xFFFFFFFF80000000u, a = 0xB5026F5AA96619E9u, f = 6364136223846793005u, k1 = 3935559000370003845u,
                              k2 = 2862933555777941757u;
    static constexpr int seedshift = 62;
    static uint64_t temper(uint64_t y) {
        y ^= (y >> 29) & 0x5555555555555555u; y ^= (y << 17) & 0x71D67FFFEDA60000u; y ^= (y << 37) & 0xFFF7EEE000000000u; return y ^ y >> 43;
    }
    static constexpr const char * name = "MT19937_64";
};
template <class W> struct Ref {
    typedef par<W> P;
    std::vector<W> x;
    size_t pos = 0;
    void seed(W s) {
        x.assign(P::N, 0); pos = 0;
        x[0] = s;
        for (size_t i = 1; i < P::N; i++) x[i] = P::f * (x[i - 1] ^ x[i - 1] >> P::seedshift) + W(i);
    }
    void seed(const std::vector<W> & key, W s) {
        seed(s);
        size_t i = 1, j = 0;
        for (size_t k = std::max(P::N, key.size()); k; k--) {
            x[i] = (x[i] ^ (x[i - 1] ^ x[i - 1] >> P::seedshift) * P::k1) + key[j] + W(j);
            if (++i == P::N) { x[0] = x[P::N - 1]; i = 1; }
            if (++j == key.size()) j = 0;
        }
        for (size_t k = P::N - 1; k; k--) {
            x[i] = (x[i] ^ (x[i - 1] ^ x[i - 1] >> P::seedshift) * P::k2) - W(i);
            if (++i == P::N) { x[0] = x[P::N - 1]; i = 1; }
        }
        x[0] = W(1) << (sizeof(W) * 8 - 1);
    }
    W next() {
        size_t i = pos++;
        W y = (x[i] & P::upper) | (x[i + 1] & ~P::upper);
        x.push_back(x[i + P::M] ^ y >> 1 ^ (y & 1 ? P::a : 0));
        return P::temper(x.back());
    }
};

template <class W> static W gseed(Src & s) {
    W v;
    switch (s.draw(4)) {
    case 0: v = W(1 + s.draw(8)); break;
    case 1: v = W(0) - W(1 + s.draw(4)); break;
    case 2: v = W(s.draw64() >> s.draw(64)); break;
    default: v = W(s.draw64());
    }
    return v ? v : 1;              // 0 stands for the time of day
}
template <class W> static std::vector<W> gkey(Src & s) {
    static const int lens[] = {1, 2, 3, 4, 5, 8, 17, 311, 312, 313, 400, 623, 624, 625, 700};
    size_t n = s.chance(1, 3) ? 1 + s.draw(12) : lens[s.draw(15)];
    std::vector<W> k(n);
    bool same = s.chance(1, 8);
    for (auto & e : k) e = same ? W(0) : n > 20 ? W(pbt::mix64(n * 1000 + size_t(&e - k.data()))) : W(s.draw64() >> s.draw(64));
    return k;
}

template <class W> static void prop_seq(Src & s) {
    typedef par<W> P;
    typedef typename P::gen G;
    struct one { std::unique_ptr<G> g; Ref<W> r; };
    std::vector<one> v;
    bool wrapped = false, reseeded = false, copied = false;
    s.set_ops(24);
    while (s.more()) {
        size_t i = v.empty() ? 0 : s.draw(uint32_t(v.size()));
        int op = v.empty() ? s.draw(3) : int(s.weighted({1, 1, 1, 2, 1, 1, 2, 1, 1, 10}));
        if (op <= 2 && v.size() > 4) op = 9;
        if (op <= 2) {                                          // construct
            one o;
            W sd = gseed<W>(s);
            if (op == 0) {
                s.log("construct from the seed ", sd);
                o.g.reset(new G(sd)); o.r.seed(sd);
            } else {
                auto k = gkey<W>(s);
                s.log("construct from a key of ", k.size(), " words, ", op == 1 ? "pointer" : "vector", ", seed ", sd);
                o.r.seed(k, sd);
                if (op == 1) o.g.reset(new G(k.data(), k.size(), sd)); else o.g.reset(new G(k, sd));
            }
            v.push_back(std::move(o));
            i = v.size() - 1;
        } else if (op <= 5) {                                   // seed again
            W sd = gseed<W>(s);
            reseeded = true;
            if (op == 3) { s.log("[", i, "] srand(", sd, ")"); v[i].g->srand(sd); v[i].r.seed(sd); }
            else {
                auto k = gkey<W>(s);
                s.log("[", i, "] srand with a key of ", k.size(), " words, ", op == 4 ? "pointer" : "vector", ", seed ", sd);
                v[i].r.seed(k, sd);
                if (op == 4) v[i].g->srand(k.data(), k.size(), sd); else v[i].g->srand(k, sd);
            }
        } else if (op == 6 && v.size() < 6) {                   // a copy continues on its own
            s.log("copy [", i, "]");
            one o; o.g.reset(new G(*v[i].g)); o.r = v[i].r;
            copied = true;
            v.push_back(std::move(o));
        } else if (op == 7 && v.size() > 1) {
            size_t j = s.draw(uint32_t(v.size()));
            s.log("[", j, "] = [", i, "]");
            *v[j].g = *v[i].g; v[j].r = v[i].r; copied = true;
            i = j;
        } else if (op == 8 && v.size() > 1) {                   // the source of a copy goes away
            s.log("destroy [", i, "]");
            memset((void *)v[i].g.get(), 0xA5, sizeof(G));
            v.erase(v.begin() + i);
            continue;
        }
        // then draw
        auto & o = v[i];
        PBT_CHECK(o.g->rand_max() == std::numeric_limits<W>::max(), "rand_max() is ", o.g->rand_max());
        static const int runs[] = {1, 2, 3, 7, 100, 311, 312, 313, 623, 624, 625, 1300};
        int n = runs[s.draw(12)];
        int kind = s.chance(1, 3) ? 1 + int(s.draw(6)) : 0;
        s.log("[", i, "] draw ", n, " times, kind ", kind);
        for (int d = 0; d < n; d++) {
            W e = o.r.next();
            auto two = [&](uint64_t got) {
                W f = o.r.next();
                uint64_t ab = uint64_t(e) << 32 | uint32_t(f), ba = uint64_t(f) << 32 | uint32_t(e);
                PBT_CHECK(got == ab || got == ba, P::name, ": draw ", o.r.pos, " is ", got, ", the next two words are ", uint64_t(e), ", ", uint64_t(f));
            };
            auto eq = [&](uint64_t got, uint64_t want) {
                PBT_CHECK(got == want, P::name, ": draw ", o.r.pos, " is ", got, ", the recurrence gives ", want);
            };
            const bool w32 = sizeof(W) == 4;
            switch (kind) {
            case 0: eq(o.g->rand(), e); break;
            case 1: eq(uint32_t(o.g->nextInt32()), uint32_t(e)); break;
            case 2: eq(o.g->nextUInt32(), uint32_t(e)); break;
            case 3: { uint64_t x = uint64_t(o.g->nextInt64()); w32 ? two(x) : eq(x, e); break; }
            case 4: { uint64_t x = o.g->nextUInt64(); w32 ? two(x) : eq(x, e); break; }
            case 5: { uint64_t x = uint64_t(o.g->nextInt()); w32 ? two(x) : eq(x, e); break; }
            default: { uint64_t x = o.g->nextUInt(); w32 ? two(x) : eq(x, e); break; }
            }
        }
        wrapped |= o.r.pos > P::N;
    }
    if (wrapped && (reseeded || copied)) s.nontrivial("a reseeded or copied generator beyond its first block");
}

// the recurrence above is the standard library's
template <class W> static void prop_std(Src & s) {
    typedef par<W> P;
    W sd = gseed<W>(s);
    s.log("seed ", sd);
    typename P::engine e(sd);
    typename P::gen g(sd);
    Ref<W> r; r.seed(sd);
    int n = 1 + s.draw(2000);
    for (int i = 0; i < n; i++) {
        W x = W(e());
        PBT_CHECK(x == r.next(), "reference of the harness differs from the standard library at ", i);
        W y = g.rand();
        PBT_CHECK(x == y, P::name, "(", sd, "): output ", i, " is ", y, ", the standard library gives ", x);
    }
    if (n > int(P::N)) s.nontrivial("more than one block");
}

// ---- draws from a range
template <class T> static T gbound(Src & s) {
    typedef std::numeric_limits<T> L;
    switch (s.draw(6)) {
    case 0: return T(s.draw(6));
    case 1: return T(L::max() - s.draw(3));
    case 2: return T(L::min() + s.draw(3));
    case 3: return T(T(0) - T(s.draw(6)));
    case 4: return T(s.draw64() >> s.draw(64));
    default: return T(s.draw64());
    }
}
template <class T, class F1, class F2> static void range_case(Src & s, const char * name, F1 two, F2 one) {
    T a = gbound<T>(s), b = s.chance(1, 3) ? T(typename std::make_unsigned<T>::type(a) + s.draw(8)) : gbound<T>(s);
    bool single = s.chance(1, 4);
    if (single) a = 0;
    T lo = std::min(a, b), hi = std::max(a, b);
    typedef typename std::make_unsigned<T>::type U;
    U span = U(U(hi) - U(lo));
    s.log(name, "(", single ? "" : pbt::cat(a, ", "), b, ")");
    int n = span < 8 ? 400 : 40;
    unsigned seen = 0;
    for (int i = 0; i < n; i++) {
        T r = single ? one(b) : two(a, b);
        PBT_CHECK(r >= lo && r <= hi, name, "(", single ? std::string() : pbt::cat(a, ", "), b, ") is ", r);
        if (span < 8) seen |= 1u << unsigned(U(r) - U(lo));
    }
    if (span < 8) PBT_CHECK(seen == (2u << unsigned(span)) - 1, name, "(", a, ", ", b, ") never gives some value of its range in 400 draws");
    if (span > U(std::numeric_limits<U>::max() / 2)) s.label("more than half of all values");
    if (span) s.nontrivial(span < 8 ? "small range" : "large range");
}
template <class G> static void prop_range(Src & s) {
    G::srand(typename G::value_type(1 + s.draw(1000000)));
    int k = s.draw(9);
    switch (k) {
    case 0: range_case<int32_t>(s, "nextInt32", [](int32_t a, int32_t b) { return G::nextInt32(a, b); }, [](int32_t b) { return G::nextInt32(b); }); break;
    case 1: range_case<uint32_t>(s, "nextUInt32", [](uint32_t a, uint32_t b) { return G::nextUInt32(a, b); }, [](uint32_t b) { return G::nextUInt32(b); }); break;
    case 2: range_case<int64_t>(s, "nextInt64", [](int64_t a, int64_t b) { return G::nextInt64(a, b); }, [](int64_t b) { return G::nextInt64(b); }); break;
    case 3: range_case<uint64_t>(s, "nextUInt64", [](uint64_t a, uint64_t b) { return G::nextUInt64(a, b); }, [](uint64_t b) { return G::nextUInt64(b); }); break;
    case 4: range_case<intptr_t>(s, "nextInt", [](intptr_t a, intptr_t b) { return G::nextInt(a, b); }, [](intptr_t b) { return G::nextInt(b); }); break;
    case 5: range_case<size_t>(s, "nextUInt", [](size_t a, size_t b) { return G::nextUInt(a, b); }, [](size_t b) { return G::nextUInt(b); }); break;
    case 6: {
        s.log("nextFloat, nextDouble, nextDouble53");
        for (int i = 0; i < 100; i++) {
            float f = G::nextFloat(); double d = G::nextDouble(), e = G::nextDouble53();
            PBT_CHECK(f >= 0 && f <= 1, "nextFloat() is ", f);
            PBT_CHECK(d >= 0 && d <= 1, "nextDouble() is ", d);
            PBT_CHECK(e >= 0 && e < 1, "nextDouble53() is ", e);
        }
        break;
    }
    default: {
        double a = (double(s.draw(2001)) - 1000) * std::pow(10.0, double(s.draw(20)) - 10), b = (double(s.draw(2001)) - 1000) * std::pow(10.0, double(s.draw(20)) - 10);
        if (s.chance(1, 5)) b = a;
        s.log("fractions between ", a, " and ", b);
        double lo = std::min(a, b), hi = std::max(a, b), slack = 4e-16 * std::max(std::fabs(lo), std::fabs(hi));
        float fa = float(a), fb = float(b), flo = std::min(fa, fb), fhi = std::max(fa, fb), fslack = 2.4e-7f * std::max(std::fabs(flo), std::fabs(fhi));
        if (a != b) s.nontrivial("fractions");
        for (int i = 0; i < 30; i++) {
            double d = G::nextDouble(a, b), e = G::nextDouble53(a, b);
            float f = G::nextFloat(fa, fb);
            PBT_CHECK(d >= lo - slack && d <= hi + slack, "nextDouble(", a, ", ", b, ") is ", d);
            PBT_CHECK(e >= lo - slack && e <= hi + slack, "nextDouble53(", a, ", ", b, ") is ", e);
            PBT_CHECK(f >= flo - fslack && f <= fhi + fslack, "nextFloat(", fa, ", ", fb, ") is ", f);
        }
    }
    }
}

// the generator behind the static interface is the algorithm, and equal seeds give equal draws
template <class G> static void prop_static(Src & s) {
    auto seed = typename G::value_type(1 + s.draw(1000000));
    int kind = s.draw(6), n = 1 + s.draw(1500);
    s.log("seed ", seed, " kind ", kind, ", ", n, " draws");
    auto draw = [&]() -> uint64_t {
        switch (kind) {
        case 0: return G::rand();
        case 1: return uint64_t(G::nextInt32());
        case 2: return G::nextUInt64();
        case 3: return uint64_t(G::nextInt32(-50, 1000));
        case 4: return uint64_t(G::nextUInt());
        default: return uint64_t(G::nextDouble53() * 9e15);
        }
    };
    std::vector<uint64_t> a;
    G::srand(seed);
    for (int i = 0; i < n; i++) { a.push_back(draw()); if (kind == 0) PBT_CHECK(a.back() <= G::rand_max(), "rand() is ", a.back(), ", rand_max() ", G::rand_max()); }
    if (s.chance(1, 2)) { G g(seed); (void)g; } else G::srand(seed);
    for (int i = 0; i < n; i++) { uint64_t x = draw(); PBT_CHECK(x == a[i], "draw ", i, " after srand(", seed, ") is ", a[i], " and then ", x); }
    if (n > 624) s.nontrivial("more than one block");
}

PBT_TARGETS({"MT19937_32", prop_seq<uint32_t>, 3}, {"MT19937_64", prop_seq<uint64_t>, 3}, {"std::mt19937", prop_std<uint32_t>, 1},
            {"std::mt19937_64", prop_std<uint64_t>, 1}, {"ranges of RandomGen", prop_range<jstd::RandomGen>, 8},
            {"ranges of MtRandomGen32", prop_range<jstd::MtRandomGen32>, 8}, {"ranges of MtRandomGen64", prop_range<jstd::MtRandomGen64>, 8},
            {"repeating RandomGen", prop_static<jstd::RandomGen>, 1}, {"repeating MtRandomGen32", prop_static<jstd::MtRandomGen32>, 1},
            {"repeating MtRandomGen64", prop_static<jstd::MtRandomGen64>, 1});
