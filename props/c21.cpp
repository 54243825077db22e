// C21: flat16_hash_map behaves like a map for every history, including iteration, erasing through iterators, copies, moves and swaps.
#define PBT_NO_ROBIN
#include "maps.hpp"
#include <jstd/hashmap/flat16_hash_map.h>
namespace pt {
template <class... T> struct is_legacy<jstd::flat16_hash_map<T...>> : std::true_type {};
}
#include "machine.hpp"
using namespace pt;

// flat16_hash_map asks for the result type of its hash function.
template <class H> struct R : H { using H::H; R() = default; using result_type = std::size_t; };
template <class K, class V, class H = std::hash<K>, class E = std::equal_to<K>>
using F16 = jstd::flat16_hash_map<K, V, R<H>, E>;

template <class M, class K, class V>
void prop(Src & s) {
    reset_case();
    draw_shape(s, true);
    Universe u = draw_universe(s, 12000);
    if (weak_shape()) u.n = std::min(u.n, 300);
    const bool tracked = std::is_same<K, KObj>::value;
    const int per = int(tracked) + int(std::is_same<V, VObj>::value || std::is_same<V, BigObj>::value);
    {
        Machine<M, K, V> m(s, u, 2);
        m.start();
        s.set_ops(50);
        static const Weights w = weights({{O_INSERT,6},{O_INSERT_HINT,2},{O_INSERT_RANGE,2},{O_EMPLACE,6},{O_EMPLACE_HINT,2},
            {O_TRY_EMPLACE,4},{O_TRY_EMPLACE_HINT,2},{O_IOA,4},{O_IOA_HINT,2},{O_INDEX,4},{O_AT,2},{O_FIND,4},{O_COUNT,2},
            {O_ERASE_KEY,10},{O_ERASE_IT,4},{O_ERASE_RANGE,3},{O_ERASE_IF,2},{O_ERASE_LOOP,2},{O_CLEAR,2},{O_RESERVE,1},{O_REHASH,1},
            {O_SHRINK,2},{O_MLF,2},{O_SCAN,1},{O_BULK_IN,8},{O_BULK_OUT,7},{O_CHURN,8},{O_COPY,2},{O_MOVE,2},{O_SWAP,2},
            {O_RANGE_CTOR,1},{O_ALLOC_COPY,1},{O_ALLOC_MOVE,1},{O_DESTROY,1}});
        while (s.more()) {
            m.step(w);
            size_t n = m.ents[0].ref.size() + m.ents[1].ref.size();
            if (per) PBT_CHECK(G.live == int64_t(n) * per, G.live, " objects are alive, the maps hold ", n, " elements of ", per, " objects");
        }
        m.finish();
        if (m.grew) s.label("grew");
        if (m.reinserted) s.label("reinserted an erased key");
        if (weak_shape()) s.label("many keys of one hash");
        if (m.max_size_seen > 500) s.label("more than 500 elements");
        if (m.grew && m.reinserted) s.nontrivial();
    }
    check_err("destruction of the maps");
    PBT_CHECK(G.live == 0, G.live, " objects are alive after the maps were destroyed");
}

// Every insertion keeps the load within the limit, however the limit and the table were changed before.
template <class M>
void load(Src & s) {
    reset_case();
    draw_shape(s, true);
    M m, other;
    std::set<int> ref;
    int next = 0;
    bool changed = false, filled = false;
    static const int sizes[] = {5, 20, 60, 300};
    int n = sizes[s.draw(4)];
    if (weak_shape()) n = std::min(n, 60);
    s.set_ops(20);
    while (s.more()) {
        int op = s.weighted({6, 3, 3, 1, 1, 1, 1}), k = 1 + int(s.draw(uint32_t(n)));
        static const char * names[] = {"insert", "erase", "max_load_factor", "rehash", "clear", "copy", "replace"};
        s.log(names[op], " ", k);
        switch (op) {
            case 0:
            case 6:
                for (int i = 0; i < k; i++) {
                    if (op == 6 && !ref.empty()) { int x = *ref.begin(); PBT_CHECK(m.erase(x) == 1, "erase(", x, ") misses a present key"); ref.erase(x); }
                    size_t cap = m.capacity();
                    PBT_CHECK(m.emplace(next, next).second, "insertion of an absent key fails");
                    ref.insert(next++);
                    double lim = double(m.capacity()) * double(m.max_load_factor());
                    PBT_CHECK(double(m.size()) <= lim + 1, "after an insertion ", m.size(), " elements are in a table of ", m.capacity(), " slots and max_load_factor ", m.max_load_factor());
                    if (changed && m.capacity() != cap) filled = true;
                }
                break;
            case 1: for (int i = 0; i < k && !ref.empty(); i++) { int x = i % 2 ? *ref.begin() : *ref.rbegin(); PBT_CHECK(m.erase(x) == 1, "erase(", x, ") misses a present key"); ref.erase(x); } break;
            case 2: m.max_load_factor(float(4 + s.draw(13)) / 20.0f); changed = true; break;
            case 3: m.rehash(s.draw(400)); break;
            case 4: m.clear(k % 2); ref.clear(); break;
            case 5: { M c(m); m.swap(c); break; }
        }
        PBT_CHECK(m.size() == ref.size(), "size() is ", m.size(), ", expected ", ref.size());
        for (int x : ref) PBT_CHECK(m.contains(x), "contains(", x, ") misses a present key");
    }
    if (filled) s.nontrivial("the table grew after the load factor had changed");
}

#if PART == 0
PBT_TARGETS({"f16.int.int", prop<F16<int, int>, int, int>, 6}, {"load", load<F16<int, int, SHash<int, false>, SEq<int>>>, 1});
#elif PART == 1
PBT_TARGETS({"f16.str.str", prop<F16<std::string, std::string>, std::string, std::string>, 1});
#elif PART == 2
PBT_TARGETS({"f16.u64.int", prop<F16<uint64_t, int, SHash<uint64_t, false>, SEq<uint64_t>>, uint64_t, int>, 1});
#elif PART == 3
PBT_TARGETS({"f16.obj.obj", prop<F16<KObj, VObj, SHash<KObj, false>, SEq<KObj>>, KObj, VObj>, 1});
#elif PART == 4
PBT_TARGETS({"f16.int.move", prop<F16<int, MoveOnly, SHash<int, false>, SEq<int>>, int, MoveOnly>, 1});
#elif PART == 5
PBT_TARGETS({"f16.u8.big", prop<F16<uint8_t, BigObj, SHash<uint8_t, false>, SEq<uint8_t>>, uint8_t, BigObj>, 1});
#endif
