// C11: arguments are used as documented: an lvalue argument is never changed, try_emplace() leaves its arguments alone
// when the key is present, lookups create nothing, and growing never copies elements.
#include "machine.hpp"
using namespace pt;

template <class M>
void prop(Src & s) {
    reset_case();
    draw_shape(s, !is_robin<M>::value);
    Universe u = draw_universe(s, 500);
    if (weak_shape()) u.n = std::min(u.n, 200);
    using P = typename M::value_type;
    M m;
    std::map<int, int> ref;
    int nv = 1;
    auto key = [&](int k) { return u.base + k * u.stride; };
    bool hit = false, rehashed = false;
    s.set_ops(60);
    s.log("n ", u.n, " stride ", u.stride, " hash ", G.hmode);
    while (s.more()) {
        int id = key(int(s.draw(uint32_t(u.n)))), v = nv++;
        bool present = ref.count(id) != 0;
        int op = int(s.draw(20));
        KObj k(id);
        VObj val(v);
        int64_t c0 = G.copies, m0 = G.moves, n0 = G.constructs;
        size_t cap = m.capacity();
        bool may_grow = true;
        s.log("op ", op, " key ", id, " value ", v);
        switch (op) {
            case 0: { auto r = m.try_emplace(std::move(k), std::move(val)); PBT_CHECK(r.second == !present, "try_emplace reports ", r.second);
                if (present) { PBT_CHECK(!k.moved && !val.moved && k.id == id && val.id == v, "try_emplace(K&&, V&&) of a present key moves its arguments");
                               PBT_CHECK(G.constructs == n0, "try_emplace() of a present key creates objects"); hit = true; }
                else ref[id] = v; break; }
            case 1: { auto r = m.try_emplace(k, std::move(val)); PBT_CHECK(!k.moved && k.id == id, "try_emplace(const K &, V&&) changes its key");
                if (present) { PBT_CHECK(!val.moved && val.id == v, "try_emplace(const K &, V&&) of a present key moves its argument"); PBT_CHECK(G.constructs == n0, "try_emplace() of a present key creates objects"); hit = true; }
                else ref[id] = v; (void)r; break; }
            case 2: { m.try_emplace(m.cend(), std::move(k), std::move(val));
                if (present) { PBT_CHECK(!k.moved && !val.moved, "try_emplace(hint, K&&, V&&) of a present key moves its arguments"); hit = true; }
                else ref[id] = v; break; }
            case 3: { m.try_emplace(m.cend(), k, val); PBT_CHECK(!k.moved && !val.moved, "try_emplace(hint, K &, V &) moves its arguments"); if (!present) ref[id] = v; break; }
            case 4: { m.try_emplace(k, val); PBT_CHECK(!k.moved && !val.moved && k.id == id && val.id == v, "try_emplace(K &, V &) changes its arguments"); if (!present) ref[id] = v; break; }
            case 5: { m.emplace(k, val); PBT_CHECK(!k.moved && !val.moved && k.id == id && val.id == v, "emplace(K &, V &) changes its arguments"); if (!present) ref[id] = v; break; }
            case 6: { m.insert_or_assign(k, val); PBT_CHECK(!k.moved && !val.moved && k.id == id && val.id == v, "insert_or_assign(K &, V &) changes its arguments"); ref[id] = v; break; }
            case 7: { m.insert_or_assign(k, std::move(val)); PBT_CHECK(!k.moved && k.id == id, "insert_or_assign(K &, V &&) changes its key");
                      PBT_CHECK(val.moved, "insert_or_assign(K &, V &&) does not move the value"); ref[id] = v; break; }
            case 8: { P p(k, val); m.insert(p); PBT_CHECK(!p.first.moved && !p.second.moved && p.first.id == id && p.second.id == v, "insert(value_type &) changes its argument"); if (!present) ref[id] = v; break; }
            case 9: { const P p(k, val); m.insert(p); PBT_CHECK(!p.first.moved && !p.second.moved && p.first.id == id && p.second.id == v, "insert(const value_type &) changes its argument"); if (!present) ref[id] = v; break; }
            case 10: { std::pair<KObj, VObj> p(k, val); m.insert(p); PBT_CHECK(!p.first.moved && !p.second.moved && p.first.id == id && p.second.id == v, "insert(pair &) changes its argument"); if (!present) ref[id] = v; break; }
            case 11: { std::pair<KObj, VObj> p(k, val); m.emplace(p); PBT_CHECK(!p.first.moved && !p.second.moved && p.first.id == id && p.second.id == v, "emplace(pair &) changes its argument"); if (!present) ref[id] = v; break; }
            case 12: { P p(k, val); m.emplace(p); PBT_CHECK(!p.first.moved && !p.second.moved && p.first.id == id && p.second.id == v, "emplace(value_type &) changes its argument"); if (!present) ref[id] = v; break; }
            case 13: { m.insert_or_assign(m.cend(), k, val); PBT_CHECK(!k.moved && !val.moved && k.id == id && val.id == v, "insert_or_assign(hint, K &, V &) changes its arguments"); ref[id] = v; break; }
            case 14: { VObj & x = m[k]; PBT_CHECK(!k.moved && k.id == id, "operator[](const K &) changes its key");
                       if (present) { PBT_CHECK(G.constructs == n0, "operator[] of a present key creates objects"); PBT_CHECK(x.id == ref[id], "operator[] is wrong"); hit = true; } else { PBT_CHECK(x.id == 0, "operator[] of an absent key is not value-initialized"); ref[id] = 0; } break; }
            case 15: { VObj & x = m[std::move(k)];
                       if (present) { PBT_CHECK(!k.moved, "operator[](K &&) of a present key moves its argument"); PBT_CHECK(G.constructs == n0, "operator[] of a present key creates objects"); hit = true; PBT_CHECK(x.id == ref[id], "operator[] is wrong"); } else ref[id] = x.id; break; }
            case 16: { const M & cm = m; may_grow = false; (void)cm.count(k); (void)cm.contains(k); auto it = cm.find(k); auto jt = m.find(k); bool f = it != cm.end();
                       PBT_CHECK(f == present && (jt != m.end()) == present, "find() is wrong");
                       if (present) { PBT_CHECK(cm.at(k).id == ref[id] && m.at(k).id == ref[id], "at() is wrong"); }
                       PBT_CHECK(G.constructs == n0 && G.copies == c0 && G.moves == m0, "a lookup creates, copies or moves objects"); hit = hit || present; break; }
            case 17: { may_grow = false; int64_t l = G.live; size_t r = m.erase(k); PBT_CHECK(r == ref.erase(id), "erase() is wrong"); PBT_CHECK(!k.moved && k.id == id, "erase(key) changes its argument");
                       PBT_CHECK(G.copies == c0, "erase() copies objects"); PBT_CHECK(G.live == l - 2 * int64_t(r), "erase() destroys ", l - G.live, " objects"); break; }
            case 18: { size_t n = m.size() + s.draw(400) + 1; int how = int(s.draw(3));
                       if (how == 0) m.reserve(n); else if (how == 1) m.rehash(n); else m.shrink_to_fit();
                       PBT_CHECK(G.copies == c0, "changing the capacity copies objects");
                       if (!is_robin<M>::value) PBT_CHECK(G.moves - m0 <= 2 * int64_t(m.size()), "changing the capacity moves ", G.moves - m0, " objects for ", m.size(), " elements");
                       if (m.size() && m.capacity() != cap) rehashed = true; may_grow = false; break; }
            default: {  // fill: a growing map moves its elements
                int a = int(s.draw(uint32_t(u.n))), n = int(s.draw(uint32_t(u.n))) + 1;
                for (int i = 0; i < n; i++) {
                    int q = key((a + i) % u.n);
                    if (ref.count(q)) continue;
                    int64_t cc = G.copies;
                    size_t cp = m.capacity();
                    m.emplace(KObj(q), VObj(v));
                    PBT_CHECK(G.copies == cc, "emplace(K &&, V &&) copies objects, capacity ", cp, " -> ", m.capacity());
                    if (cp > 1 && m.capacity() != cp) rehashed = true;
                    ref[q] = v;
                }
            }
        }
        // a single insertion of lvalues copies each at most once, also when the map grows
        if (may_grow && op <= 15) PBT_CHECK(G.copies - c0 <= 4, "one insertion copies ", G.copies - c0, " objects at size ", m.size());
        if (cap > 1 && m.capacity() != cap) rehashed = true;
        PBT_CHECK(m.size() == ref.size(), "size() is ", m.size(), ", expected ", ref.size());
        auto it = m.find(KObj(id));
        auto r = ref.find(id);
        PBT_CHECK((it != m.end()) == (r != ref.end()), "find(", id, ") is wrong");
        if (it != m.end()) PBT_CHECK(it->first.id == id && it->second.id == r->second && !it->second.moved && !it->first.moved, "the element of key ", id, " is wrong");
        check_err("lifetime");
    }
    for (auto & p : ref) { auto it = m.find(KObj(p.first)); PBT_CHECK(it != m.end() && it->second.id == p.second, "key ", p.first, " is lost or has a wrong value"); }
    if (hit) s.label("insertion of a present key");
    if (hit && rehashed) s.nontrivial();
}
#if PART == 0
PBT_TARGETS({"g15", prop<G15<KObj, VObj, SHash<KObj, false>, SEq<KObj>>>, 1});
#elif PART == 1
PBT_TARGETS({"g16", prop<G16<KObj, VObj, SHash<KObj, false>, SEq<KObj>>>, 1});
#elif PART == 2
PBT_TARGETS({"g15.av", prop<G15<KObj, VObj, SHash<KObj, true>, SEq<KObj>>>, 1});
#elif PART == 3
PBT_TARGETS({"g16.av", prop<G16<KObj, VObj, SHash<KObj, true>, SEq<KObj>>>, 1});
#elif PART == 4
PBT_TARGETS({"rh", prop<RH<KObj, VObj, SHash<KObj, false>, SEq<KObj>>>, 1});
#elif PART == 5
PBT_TARGETS({"rh.av", prop<RH<KObj, VObj, SHash<KObj, false>, SEq<KObj>, TAlloc<std::pair<const KObj, VObj>, 0>>>, 1});
#endif
