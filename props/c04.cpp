// C04: copies, moves, assignments and swaps transfer exactly the contents, and the maps are independent afterwards.
#include "machine.hpp"
using namespace pt;

template <class M, class K, class V>
void prop(Src & s) {
    reset_case();
    draw_shape(s, !is_robin<M>::value);
    Universe u = draw_universe(s, 2500);
    if (weak_shape()) u.n = std::min(u.n, 120);
    Machine<M, K, V> m(s, u, 3);
    m.start();
    s.set_ops(40);
    static const Weights w = weights({{O_INSERT,4},{O_EMPLACE,3},{O_IOA,3},{O_INDEX,3},{O_ERASE_KEY,5},{O_CLEAR,1},{O_RESERVE,1},
        {O_REHASH,1},{O_SHRINK,1},{O_MLF,1},{O_BULK_IN,8},{O_BULK_OUT,4},{O_CHURN,2},{O_COPY,5},{O_MOVE,4},{O_COPY_ASSIGN,5},
        {O_MOVE_ASSIGN,4},{O_SWAP,4},{O_IL_ASSIGN,2},{O_RANGE_CTOR,2},{O_SELF_ASSIGN,2},{O_ALLOC_COPY,2},{O_ALLOC_MOVE,2},{O_DESTROY,2}});
    int transfers = 0;
    bool after = false;
    while (s.more()) {
        std::vector<std::map<int, int>> before;
        for (auto & e : m.ents) before.push_back(e.ref);
        m.step(w);
        // every map, not only the one the operation was on
        for (auto & e : m.ents) m.check_all(e);
        size_t same = 0;
        for (size_t i = 0; i < 3; i++) for (size_t j = 0; j < i; j++) same += !m.ents[i].ref.empty() && m.ents[i].ref == m.ents[j].ref;
        bool changed = false;
        for (size_t i = 0; i < 3; i++) changed |= before[i] != m.ents[i].ref;
        if (same) transfers++;
        else if (transfers && changed) after = true;
    }
    m.finish();
    if (transfers) s.label("two maps with the same non-empty contents");
    if (m.reinserted) s.label("reinserted an erased key");
    if (after) s.nontrivial("a copied or assigned map was changed afterwards");
}

#if PART == 0
PBT_TARGETS({"g15.int.int", prop<G15<int, int>, int, int>, 1});
#elif PART == 1
PBT_TARGETS({"g16.int.int", prop<G16<int, int>, int, int>, 1});
#elif PART == 2
PBT_TARGETS({"g15.obj.obj", prop<G15<KObj, VObj, SHash<KObj, false>, SEq<KObj>>, KObj, VObj>, 1});
#elif PART == 3
PBT_TARGETS({"g16.obj.obj", prop<G16<KObj, VObj, SHash<KObj, true>, SEq<KObj>>, KObj, VObj>, 1});
#elif PART == 4
PBT_TARGETS({"g15.str.move", prop<G15<std::string, MoveOnly>, std::string, MoveOnly>, 1});
#elif PART == 5
PBT_TARGETS({"g16.str.str", prop<G16<std::string, std::string>, std::string, std::string>, 1});
#elif PART == 6
PBT_TARGETS({"rh.int.int", prop<RH<int, int>, int, int>, 1});
#elif PART == 7
PBT_TARGETS({"rh.obj.obj", prop<RH<KObj, VObj, SHash<KObj, false>, SEq<KObj>>, KObj, VObj>, 1});
#elif PART == 8
PBT_TARGETS({"rh.int.move", prop<RH<int, MoveOnly, SHash<int, false>, SEq<int>>, int, MoveOnly>, 1});
#elif PART == 9
PBT_TARGETS({"rh.obj.big", prop<RH<KObj, BigObj, SHash<KObj, false>, SEq<KObj>>, KObj, BigObj>, 1});
#elif PART == 10
PBT_TARGETS({"rhl.hash.str.obj", prop<RHL<false, true, std::string, VObj>, std::string, VObj>, 1});
#endif
