// Key, value, hash, equality and allocator types used by the map properties.
#pragma once
#include "engine.hpp"
#include <tuple>
#include <memory>
#include <new>
#include <utility>
#include <string>
#include <list>

namespace pt {

// ---- global state of one case (reset by reset_case) -------------------------------------------------------------
struct Globals {
    int64_t live = 0;               // live tracked objects
    std::string err;                // first lifetime error
    int64_t copies = 0, moves = 0, constructs = 0;
    // fault injection: the event counter and the event that throws
    int64_t events = 0, throw_at = -1;
    unsigned ev_mask = 0;           // which kinds of events count
    bool thrown = false;
    // hash shape
    int hmode = 0;
    uint64_t hparam = 0;
    uint64_t functor_calls = 0;
    // allocator
    int64_t alloc_live_bytes = 0, alloc_live_blocks = 0, allocs = 0;
    uint64_t alloc_limit = uint64_t(1) << 31;
};
inline Globals G;

struct Injected {};                 // the injected exception

enum { EV_COPY = 1, EV_CTOR = 2, EV_HASH = 4, EV_EQ = 8, EV_ALLOC = 16, EV_ASSIGN = 32 };

inline void event(unsigned kind) {
    if (G.ev_mask & kind) {
        if (G.events++ == G.throw_at) { G.thrown = true; throw Injected{}; }
    }
}
inline void fail(const std::string & m) { if (G.err.empty()) G.err = m; }

struct Block { size_t n; size_t size; int id; };
inline std::map<void *, Block> & blocks() { static auto * b = new std::map<void *, Block>; return *b; }

inline void reset_case() { G = Globals(); blocks().clear(); }
inline void check_err(const char * where) { if (!G.err.empty()) throw pbt::Failure{G.err + " (" + where + ")"}; }

// ---- tracked object ---------------------------------------------------------------------------------------------
enum : uint32_t { ALIVE = 0xA11FE001u, DEAD = 0xDEADBEEFu };

template <int Kind, int Pad = 0>
struct Obj {
    volatile uint32_t magic;            // volatile: stores in the destructor are not dead
    int id;
    const void * volatile self;
    bool moved;
    char pad[Pad ? Pad : 1];

    void born() { magic = ALIVE; self = this; moved = false; G.live++; G.constructs++; }
    bool ok(const char * what) const {
        if (magic != ALIVE) { fail(std::string(what) + " of an object that is not alive"); return false; }
        if (self != this) { fail(std::string(what) + " of an object that was moved bytewise"); return false; }
        return true;
    }
    Obj() : id(0) { event(EV_CTOR); born(); }
    explicit Obj(int i) : id(i) { event(EV_CTOR); born(); }
    Obj(int a, int b) : id(a + b) { event(EV_CTOR); born(); }
    Obj(const Obj & o) : id(o.id) {
        event(EV_COPY);
        o.ok("copy");
        born(); G.copies++;
        moved = o.moved;
    }
    Obj(Obj && o) noexcept : id(o.id) {
        o.ok("move");
        born(); G.moves++;
        moved = o.moved;
        o.moved = true; o.id = -1;
    }
    Obj & operator=(const Obj & o) {
        event(EV_ASSIGN);
        ok("assignment"); o.ok("assignment");
        id = o.id; moved = o.moved; G.copies++;
        return *this;
    }
    Obj & operator=(Obj && o) noexcept {
        ok("assignment"); o.ok("assignment");
        if (this != &o) {
            id = o.id; moved = o.moved; o.moved = true; o.id = -1; G.moves++;
        }
        return *this;
    }
    ~Obj() {
        if (ok("destruction")) G.live--;
        magic = DEAD;
        self = nullptr;
    }
    friend bool operator==(const Obj & a, const Obj & b) { a.ok("comparison"); b.ok("comparison"); return a.id == b.id; }
    friend bool operator!=(const Obj & a, const Obj & b) { return !(a == b); }
};

using KObj = Obj<0>;
using VObj = Obj<1>;
using BigObj = Obj<2, 120>;

// a move-only mapped type
struct MoveOnly {
    std::unique_ptr<int> p;
    MoveOnly() : p(new int(0)) {}
    explicit MoveOnly(int v) : p(new int(v)) {}
    MoveOnly(MoveOnly &&) noexcept = default;
    MoveOnly & operator=(MoveOnly &&) noexcept = default;
    MoveOnly(const MoveOnly &) = delete;
    MoveOnly & operator=(const MoveOnly &) = delete;
};

// a key type accepting heterogeneous lookup
struct Pod16 {
    uint64_t a, b;
    friend bool operator==(const Pod16 & x, const Pod16 & y) { return x.a == y.a && x.b == y.b; }
    friend bool operator!=(const Pod16 & x, const Pod16 & y) { return !(x == y); }
};

// ---- conversions id <-> value of a type -------------------------------------------------------------------------
template <typename T> struct Conv;
template <> struct Conv<int> {
    static int make(int i) { return i; }
    static int id(int v) { return v; }
};
template <> struct Conv<uint64_t> {
    static uint64_t make(int i) { return uint64_t(int64_t(i)) * 0x0000000100000000ull + 0x1234567; }
    static int id(uint64_t v) { return int((v - 0x1234567) >> 32); }
};
template <> struct Conv<uint8_t> {
    static uint8_t make(int i) { return uint8_t(i); }
    static int id(uint8_t v) { return v; }
};
template <> struct Conv<int64_t> {
    static int64_t make(int i) { return int64_t(i) * 4096; }
    static int id(int64_t v) { return int(v / 4096); }
};
template <> struct Conv<std::string> {
    static std::string make(int i) {
        std::string s = std::to_string(i);
        if (i & 1) s += "_a_long_enough_suffix_to_leave_the_small_string_buffer";
        return s;
    }
    static int id(const std::string & s) { return s.empty() ? -1 : atoi(s.c_str()); }
};
template <int K, int P> struct Conv<Obj<K, P>> {
    static Obj<K, P> make(int i) { return Obj<K, P>(i); }
    static int id(const Obj<K, P> & o) { o.ok("read"); return o.moved ? -1 : o.id; }
};
template <> struct Conv<MoveOnly> {
    static MoveOnly make(int i) { return MoveOnly(i); }
    static int id(const MoveOnly & o) { return o.p ? *o.p : -1; }
};
template <> struct Conv<Pod16> {
    static Pod16 make(int i) { return Pod16{uint64_t(int64_t(i)), uint64_t(int64_t(i)) * 3 + 1}; }
    static int id(const Pod16 & p) { return p.b == p.a * 3 + 1 ? int(p.a) : -1; }
};
template <typename T> inline T mk(int i) { return Conv<T>::make(i); }
template <typename T> inline int idof(const T & v) { return Conv<T>::id(v); }

// ---- hash shapes ------------------------------------------------------------------------------------------------
enum { HMODES = 11 };
inline uint64_t shape(uint64_t id, uint64_t salt) {
    id += salt * 0x10001;
    switch (G.hmode) {
        case 0: return pbt::mix64(id);
        case 1: return id;                                       // identity
        case 2: return id % (G.hparam % 7 + 1);                  // few distinct hashes, in the low bits
        case 3: return G.hparam;                                 // constant
        case 4: return (id % (G.hparam % 7 + 1)) << 60;          // few distinct hashes, in the high bits
        case 5: return id << 32;                                 // low half is zero
        case 6: return (pbt::mix64(id % 5) << 8) | (pbt::mix64(id) & 0xff);   // few homes, distinct low bytes
        case 7: return (pbt::mix64(id) << 8) | (G.hparam & 0xff);             // distinct homes, one low byte
        case 10: return (id << (G.hparam % 4 + 3)) - 1 - (id & 1);            // few homes, at the end of the table
        case 8: return id * 16;                                  // group stride
        default: return (id * 0x0101010101010101ull) ^ G.hparam; // repeated bytes
    }
}
// weak: whether many keys share one full hash
inline bool weak_shape() { return G.hmode == 2 || G.hmode == 3 || G.hmode == 4; }

template <typename K, bool Av, bool Transparent = false>
struct SHash {
    uint64_t salt = 0;
    SHash() = default;
    explicit SHash(uint64_t s) : salt(s) {}
    std::size_t operator()(const K & k) const {
        G.functor_calls++;
        event(EV_HASH);
        return std::size_t(shape(uint64_t(int64_t(idof(k))), salt));
    }
};
template <typename K, bool Transparent>
struct SHash<K, true, Transparent> {
    using is_avalanching = std::true_type;
    uint64_t salt = 0;
    SHash() = default;
    explicit SHash(uint64_t s) : salt(s) {}
    std::size_t operator()(const K & k) const {
        G.functor_calls++;
        event(EV_HASH);
        return std::size_t(shape(uint64_t(int64_t(idof(k))), salt));
    }
};
template <typename K>
struct SEq {
    int tag = 0;
    SEq() = default;
    explicit SEq(int t) : tag(t) {}
    bool operator()(const K & a, const K & b) const { G.functor_calls++; event(EV_EQ); return a == b; }
};

// ---- tracking allocator -----------------------------------------------------------------------------------------
// Flags: 1, 2, 4: propagates on copy assignment, move assignment, swap; 8: a copy constructed container gets allocator 0.
template <typename T, int Flags, bool Equal = false>
struct TAlloc {
    using value_type = T;
    using propagate_on_container_copy_assignment = std::integral_constant<bool, (Flags & 1) != 0>;
    using propagate_on_container_move_assignment = std::integral_constant<bool, (Flags & 2) != 0>;
    using propagate_on_container_swap = std::integral_constant<bool, (Flags & 4) != 0>;
    using is_always_equal = std::false_type;
    template <typename U> struct rebind { using other = TAlloc<U, Flags, Equal>; };
    int id = 0;
    TAlloc() = default;
    explicit TAlloc(int i) : id(i) {}
    TAlloc(const TAlloc &) = default;
    template <typename U> TAlloc(const TAlloc<U, Flags, Equal> & o) : id(o.id) {}
    TAlloc & operator=(const TAlloc &) = default;
    TAlloc select_on_container_copy_construction() const { return (Flags & 8) ? TAlloc(0) : *this; }
    T * allocate(size_t n) {
        event(EV_ALLOC);
        if (n > size_t(G.alloc_limit) / sizeof(T)) throw std::bad_alloc();
        void * p = alignof(T) > 16 ? ::operator new(n * sizeof(T), std::align_val_t(alignof(T))) : ::operator new(n * sizeof(T));
        blocks()[p] = Block{n, sizeof(T), id};
        G.alloc_live_blocks++; G.allocs++;
        G.alloc_live_bytes += int64_t(n * sizeof(T));
        return static_cast<T *>(p);
    }
    void deallocate(T * p, size_t n) {
        auto it = blocks().find(p);
        if (it == blocks().end()) { fail("deallocate of a pointer that is not allocated"); return; }
        if (it->second.n != n || it->second.size != sizeof(T))
            fail(pbt::cat("deallocate with a count of ", n, " of size ", sizeof(T), ", allocated were ", it->second.n, " of size ", it->second.size));
        if (!Equal && it->second.id != id)
            fail(pbt::cat("deallocate by allocator ", id, " of memory of allocator ", it->second.id));
        G.alloc_live_blocks--;
        G.alloc_live_bytes -= int64_t(it->second.n * it->second.size);
        blocks().erase(it);
        if (alignof(T) > 16) ::operator delete(p, std::align_val_t(alignof(T)));
        else ::operator delete(p);
    }
    friend bool operator==(const TAlloc & a, const TAlloc & b) { return Equal || a.id == b.id; }
    friend bool operator!=(const TAlloc & a, const TAlloc & b) { return !(a == b); }
};

}   // namespace pt
