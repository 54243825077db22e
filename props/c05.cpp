// C05: exactly the elements of the maps are alive at any time; everything is destroyed and every block returned once.
#include "machine.hpp"
using namespace pt;

template <class M, class K, class V>
void prop(Src & s) {
    reset_case();
    draw_shape(s, !is_robin<M>::value);
    Universe u = draw_universe(s, 2500);
    if (weak_shape()) u.n = std::min(u.n, 200);
    bool shrunk = false, grew;
    const int per = int(std::is_class<K>::value && !std::is_same<K, std::string>::value) + int(std::is_class<V>::value && !std::is_same<V, std::string>::value);
    {
        Machine<M, K, V> m(s, u, 2);
        m.start();
        s.set_ops(45);
        static const Weights w = weights({{O_INSERT,5},{O_INSERT_HINT,1},{O_INSERT_RANGE,2},{O_EMPLACE,5},{O_EMPLACE_HINT,1},
            {O_TRY_EMPLACE,4},{O_IOA,4},{O_INDEX,3},{O_AT,1},{O_FIND,1},{O_ERASE_KEY,5},{O_ERASE_IT,2},{O_ERASE_RANGE,2},{O_ERASE_IF,2},
            {O_CLEAR,2},{O_RESERVE,2},{O_REHASH,2},{O_SHRINK,2},{O_MLF,1},{O_BULK_IN,8},{O_BULK_OUT,4},{O_CHURN,2},
            {O_COPY,2},{O_MOVE,2},{O_COPY_ASSIGN,2},{O_MOVE_ASSIGN,2},{O_SWAP,2},{O_IL_ASSIGN,1},{O_RANGE_CTOR,1},{O_SELF_ASSIGN,1},
            {O_ALLOC_COPY,1},{O_ALLOC_MOVE,1},{O_DESTROY,2}});
        while (s.more()) {
            size_t b = m.ents[0].ref.size() + m.ents[1].ref.size();
            m.step(w);
            size_t n = m.ents[0].ref.size() + m.ents[1].ref.size();
            if (n < b) shrunk = true;
            PBT_CHECK(G.live == int64_t(n) * per, G.live, " objects are alive, the maps hold ", n, " elements of ", per, " objects");
        }
        m.finish();
        grew = m.grew;
    }
    check_err("destruction of the maps");
    PBT_CHECK(G.live == 0, G.live, " objects are alive after the maps were destroyed");
    PBT_CHECK(G.alloc_live_blocks == 0, G.alloc_live_blocks, " blocks with ", G.alloc_live_bytes, " bytes are allocated after the maps were destroyed");
    if (G.allocs) s.label("allocated");
    if (grew) s.label("grew");
    if (grew && shrunk && G.allocs > 2) s.nontrivial("grew, and elements were erased");
}
template <class K, class V> using TA = TAlloc<std::pair<const K, V>, 0>;
#if PART == 0
PBT_TARGETS({"g15.obj.obj", prop<G15<KObj, VObj, SHash<KObj, false>, SEq<KObj>, TA<KObj, VObj>>, KObj, VObj>, 1});
#elif PART == 1
PBT_TARGETS({"g16.obj.obj", prop<G16<KObj, VObj, SHash<KObj, true>, SEq<KObj>, TA<KObj, VObj>>, KObj, VObj>, 1});
#elif PART == 2
PBT_TARGETS({"g15.int.big", prop<G15<int, BigObj, SHash<int, true>, SEq<int>, TA<int, BigObj>>, int, BigObj>, 1});
#elif PART == 3
PBT_TARGETS({"g16.obj.int", prop<G16<KObj, int, SHash<KObj, false>, SEq<KObj>, TA<KObj, int>>, KObj, int>, 1});
#elif PART == 4
PBT_TARGETS({"rh.obj.obj", prop<RH<KObj, VObj, SHash<KObj, false>, SEq<KObj>, TA<KObj, VObj>>, KObj, VObj>, 1});
#elif PART == 5
PBT_TARGETS({"rh.int.big", prop<RH<int, BigObj, SHash<int, false>, SEq<int>, TA<int, BigObj>>, int, BigObj>, 1});
#elif PART == 6
PBT_TARGETS({"rh.obj.big", prop<RH<KObj, BigObj, SHash<KObj, false>, SEq<KObj>, TA<KObj, BigObj>>, KObj, BigObj>, 1});
#elif PART == 7
PBT_TARGETS({"rhl.hash.obj.obj", prop<RHL<false, true, KObj, VObj, SHash<KObj, false>, SEq<KObj>, TA<KObj, VObj>>, KObj, VObj>, 1});
#elif PART == 8
PBT_TARGETS({"rhl.direct.obj.big", prop<RHL<false, false, KObj, BigObj, SHash<KObj, false>, SEq<KObj>, TA<KObj, BigObj>>, KObj, BigObj>, 1});
#endif
