// The full history property on one map type.
#pragma once
#include "machine.hpp"
namespace pt {

template <class M, class K, class V>
void history(Src & s) {
    reset_case();
    draw_shape(s, !is_robin<M>::value);
    Universe u = draw_universe(s, 12000);
    if (weak_shape()) u.n = std::min(u.n, 500);
    Machine<M, K, V> m(s, u, 1);
    m.start();
    s.set_ops(60);
    static const Weights w = weights({{O_INSERT,6},{O_INSERT_HINT,2},{O_INSERT_RANGE,2},{O_EMPLACE,6},{O_EMPLACE_HINT,2},
        {O_TRY_EMPLACE,4},{O_TRY_EMPLACE_HINT,2},{O_IOA,4},{O_IOA_HINT,2},{O_INDEX,4},{O_AT,2},{O_FIND,4},{O_COUNT,2},
        {O_ERASE_KEY,10},{O_CLEAR,1},{O_RESERVE,1},{O_REHASH,1},{O_SHRINK,1},{O_MLF,1},{O_SCAN,1},{O_BULK_IN,5},
        {O_BULK_OUT,5},{O_CHURN,3}});
    while (s.more()) m.step(w);
    m.finish();
    if (m.grew) s.label("grew");
    if (m.reinserted) s.label("reinserted an erased key");
    if (weak_shape()) s.label("many keys of one hash");
    if (m.max_size_seen > 500) s.label("more than 500 elements");
    if (m.grew && m.reinserted) s.nontrivial();
}

}   // namespace pt
