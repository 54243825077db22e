// C07: references, pointers and iterators to elements stay valid while the element is not erased and the capacity
// does not change.
#include "machine.hpp"
using namespace pt;

// Operations that insert no element never change the capacity: a present key is inserted again, looked up, erased, while
// the map grows one by one.
template <class Ma>
void poke(Ma & m, Src & s, const Weights &) {
    using K = typename Ma::KeyT;
    using V = typename Ma::MappedT;
    auto & e = m.ents[0];
    auto & x = *e.m;
    int a = int(s.draw(uint32_t(m.u.n))), n = 1 + int(s.draw(uint32_t(std::min(m.u.n, 600)))), form = int(s.draw(9)), back = int(s.draw(3));
    s.log("insert ", n, " keys from number ", a, ", after each one insert a present key again, form ", form);
    for (int i = 0; i < n; i++) {
        int id = m.key((a + i) % m.u.n), v = m.fresh_val();
        bool absent = !e.ref.count(id);
        auto r = x.try_emplace(m.mkk(id), mk<V>(v));
        PBT_CHECK(r.second == absent, "try_emplace(", id, ") reports ", r.second);
        if (absent) e.ref[id] = v;
        int q = back == 0 ? id : back == 1 ? e.ref.begin()->first : m.key((a + i / 2) % m.u.n);
        if (!e.ref.count(q)) continue;
        size_t cap = x.capacity();
        auto it = x.find(m.mkk(q));
        const void * p = &*it;
        const K k = m.mkk(q);
        V w = mk<V>(e.ref[q]);
        const char * what = "";
        switch (form) {
            case 0: what = "insert()"; x.insert(typename Ma::P(k, w)); break;
            case 1: what = "emplace()"; x.emplace(k, std::move(w)); break;
            case 2: what = "try_emplace()"; x.try_emplace(k, std::move(w)); break;
            case 3: what = "insert_or_assign()"; x.insert_or_assign(k, std::move(w)); break;
            case 4: what = "operator[]"; (void)x[k]; break;
            case 5: what = "emplace(piecewise_construct)"; x.emplace(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(std::move(w))); break;
            case 6: what = "emplace_hint()"; x.emplace_hint(x.end(), k, std::move(w)); break;
            case 7: what = "operator[](K&&)"; (void)x[m.mkk(q)]; break;
            default: what = "erase() of another key"; { int o = m.key((a + n + 1 + i) % m.u.n); if (o != q) { x.erase(m.mkk(o)); e.ref.erase(o); m.ever_erased.insert(o); } }
        }
        PBT_CHECK(x.capacity() == cap, what, " that inserts nothing changes the capacity from ", cap, " to ", x.capacity(), " at size ", x.size());
        auto it2 = x.find(m.mkk(q));
        PBT_CHECK(it2 != x.end() && (const void *)&*it2 == p && it2 == it, what, " that inserts nothing moves the element of key ", q);
    }
    m.check_size(e);
}

template <class M, class K, class V>
void prop(Src & s) {
    reset_case();
    draw_shape(s, true);
    Universe u = draw_universe(s, 2500);
    if (weak_shape()) u.n = std::min(u.n, 200);
    Machine<M, K, V> m(s, u, 1);
    m.start();
    auto & e = m.ents[0];
    s.set_ops(40);
    static const Weights w = weights({{O_INSERT,5},{O_INSERT_HINT,1},{O_INSERT_RANGE,2},{O_EMPLACE,4},{O_EMPLACE_HINT,1},
        {O_TRY_EMPLACE,3},{O_IOA,3},{O_INDEX,3},{O_AT,1},{O_FIND,1},{O_ERASE_KEY,6},{O_ERASE_IT,3},{O_ERASE_RANGE,2},{O_ERASE_IF,2},
        {O_BULK_IN,3},{O_BULK_OUT,3},{O_CHURN,5},{O_RESERVE,1},{O_MLF,1}});
    struct Held { typename M::value_type * p; typename M::iterator it; };
    std::map<int, Held> held;
    size_t kept = 0;
    bool over = false;
    while (s.more()) {
        size_t cap = e.m->capacity();
        M * mp = e.m.get();
        held.clear();
        for (auto it = e.m->begin(); it != e.m->end(); ++it)
            held.emplace(idof(it->first), Held{const_cast<typename M::value_type *>(reinterpret_cast<const typename M::value_type *>(&*it)), it});
        PBT_CHECK(held.size() == e.ref.size(), "iteration visits ", held.size(), " of ", e.ref.size(), " elements");
        std::map<int, int> before = e.ref;
        m.ever_erased.clear();
        if (s.chance(1, 6)) poke(m, s, w); else m.step(w);
        if (e.m.get() != mp || e.m->capacity() != cap) { s.label("capacity changed"); continue; }
        for (auto & h : held) {
            auto r = e.ref.find(h.first);
            if (r == e.ref.end() || m.ever_erased.count(h.first)) continue;   // erased (and perhaps inserted again)
            kept++;
            auto it = e.m->find(m.mkk(h.first));
            PBT_CHECK(it != e.m->end(), "find(", h.first, ") does not find a present key");
            PBT_CHECK((const void *)&*it == (const void *)h.second.p, "the element of key ", h.first, " moved although capacity() is still ", cap);
            PBT_CHECK(it == h.second.it, "an iterator to key ", h.first, " is not valid any more although capacity() is still ", cap);
            PBT_CHECK(idof(h.second.p->first) == h.first && idof(h.second.p->second) == r->second, "a reference to the element of key ", h.first, " is not valid any more");
        }
        if (e.ref.size() > 16 && e.ref != before) over = true;
    }
    if (kept > 100 && over) s.nontrivial();
}

#if PART == 0
PBT_TARGETS({"g15.int.int", prop<G15<int, int>, int, int>, 1});
#elif PART == 1
PBT_TARGETS({"g16.int.int", prop<G16<int, int>, int, int>, 1});
#elif PART == 2
PBT_TARGETS({"g15.obj.obj", prop<G15<KObj, VObj, SHash<KObj, true>, SEq<KObj>>, KObj, VObj>, 1});
#elif PART == 3
PBT_TARGETS({"g16.str.str", prop<G16<std::string, std::string>, std::string, std::string>, 1});
#elif PART == 4
PBT_TARGETS({"g16.obj.obj", prop<G16<KObj, VObj, SHash<KObj, false>, SEq<KObj>>, KObj, VObj>, 1});
#endif
