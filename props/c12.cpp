// C12: allocator support: which allocator a map uses after construction, assignment and swap follows the allocator's
// traits, and every block is returned to an equal allocator with the size it was allocated with.
#include "machine.hpp"
using namespace pt;

template <class M, class A, class K, class V, int F>
void prop(Src & s) {
    reset_case();
    G.hmode = s.chance(1, 2) ? 0 : 1;
    static const int sizes[] = {5, 20, 60, 300};
    int n = sizes[s.draw(4)];
    struct E { std::unique_ptr<M> m; std::map<int, int> ref; int id; };
    bool nt = false;
    {
        std::vector<E> es(3);
        int nv = 1;
        auto check = [&](size_t i) {
            E & e = es[i];
            PBT_CHECK(e.m->get_allocator().id == e.id, "map ", i, " has the allocator ", e.m->get_allocator().id, ", expected ", e.id);
            PBT_CHECK(e.m->size() == e.ref.size(), "map ", i, " has size ", e.m->size(), ", expected ", e.ref.size());
            size_t c = 0;
            for (auto & p : *e.m) { auto r = e.ref.find(idof(p.first)); PBT_CHECK(++c <= e.ref.size() && r != e.ref.end() && r->second == idof(p.second), "map ", i, ": iteration visits a wrong element ", idof(p.first)); }
            PBT_CHECK(c == e.ref.size(), "map ", i, ": iteration visits ", c, " of ", e.ref.size());
            for (auto & r : e.ref) { auto it = e.m->find(mk<K>(r.first)); PBT_CHECK(it != e.m->end(), "map ", i, ": key ", r.first, " is lost"); }
            check_err("allocation");
        };
        auto blocks_ok = [&] {
            std::set<int> have, may, must;
            for (auto & b : blocks()) have.insert(b.second.id);
            for (auto & e : es) { may.insert(e.id); if (!e.ref.empty()) must.insert(e.id); }
            for (int h : have) PBT_CHECK(may.count(h), "a block of allocator ", h, " is allocated, which no map uses");
            for (int h : must) PBT_CHECK(have.count(h), "no block of allocator ", h, " is allocated, but a non-empty map uses it");
        };
        auto fill = [&](E & e, int a, int c) { for (int i = 0; i < c; i++) { int k = (a + i) % n, v = nv++; if (e.m->emplace(mk<K>(k), mk<V>(v)).second) e.ref[k] = v; } };
        auto fresh = [&](E & e) {
            int id = int(s.draw(4)), form = int(s.draw(6));
            if (is_robin<M>::value && form == 1) form = 2;
            if (is_robin<M>::value && form == 3) form = 4;
            s.log("new map with allocator ", id, " form ", form);
            A a(id);
            e.id = id; e.ref.clear();
            using P = typename M::value_type;
            std::vector<P> v;
            if (form == 3 || form == 4) { if constexpr (std::is_copy_constructible<V>::value) { int c = int(s.draw(40)); for (int i = 0; i < c; i++) { int x = nv++; v.emplace_back(mk<K>(i % n), mk<V>(x)); e.ref.emplace(i % n, x); } } }
            switch (form) {
                case 0: e.m.reset(new M(a)); break;
                case 1: if constexpr (!is_robin<M>::value) e.m.reset(new M(size_t(s.draw(100)), a)); break;
                case 2: e.m.reset(new M(size_t(s.draw(100)), typename M::hasher(), typename M::key_equal(), a)); break;
                case 3: if constexpr (std::is_copy_constructible<V>::value && !is_robin<M>::value) e.m.reset(new M(v.begin(), v.end(), a)); else e.m.reset(new M(a)); break;
                case 4: if constexpr (std::is_copy_constructible<V>::value) { size_t c = size_t(s.draw(50)); if constexpr (is_robin<M>::value) e.m.reset(new M(v.begin(), v.end(), c, typename M::hasher(), typename M::key_equal(), a)); else e.m.reset(new M(v.begin(), v.end(), c, a)); } else e.m.reset(new M(a)); break;
                default: e.m.reset(new M()); e.id = 0;
            }
        };
        for (auto & e : es) fresh(e);
        s.set_ops(30);
        while (s.more()) {
            size_t i = s.draw(3), j = s.draw(3);
            E & a = es[i];
            E & b = es[j];
            int op = int(s.weighted({6, 3, 2, 4, 3, 3, 4, 4, 4, 1, 2}));
            bool differ = a.id != b.id && !a.ref.empty();
            s.log("op ", op, " maps ", i, " (allocator ", a.id, ", size ", a.ref.size(), ") ", j, " (allocator ", b.id, ", size ", b.ref.size(), ")");
            switch (op) {
                case 0: fill(a, int(s.draw(uint32_t(n))), int(s.draw(uint32_t(n))) + 1); break;
                case 1: { int k = int(s.draw(uint32_t(n))), c = int(s.draw(uint32_t(n))) + 1; for (int q = 0; q < c; q++) PBT_CHECK(a.m->erase(mk<K>((k + q) % n)) == a.ref.erase((k + q) % n), "erase is wrong"); break; }
                case 2: fresh(a); break;
                case 3: if constexpr (std::is_copy_constructible<V>::value) { std::unique_ptr<M> x(new M(static_cast<const M &>(*a.m))); b.m = std::move(x); b.ref = std::map<int, int>(a.ref); b.id = (F & 8) ? 0 : a.id; } break;
                case 4: if constexpr (std::is_copy_constructible<V>::value) { int id = int(s.draw(4)); if (id != a.id && !a.ref.empty()) nt = true; std::unique_ptr<M> x(new M(static_cast<const M &>(*a.m), A(id))); b.m = std::move(x); b.ref = std::map<int, int>(a.ref); b.id = id; } break;
                case 5: if (i != j) { std::unique_ptr<M> x(new M(std::move(*a.m))); b.m = std::move(x); b.ref = a.ref; b.id = a.id; a.m->clear(); a.ref.clear(); } break;
                case 6: if (i != j) { int id = int(s.draw(4)); if (id != a.id && !a.ref.empty()) nt = true; std::unique_ptr<M> x(new M(std::move(*a.m), A(id))); b.m = std::move(x); b.ref = a.ref; b.id = id; a.m->clear(); a.ref.clear(); } break;
                case 7: if constexpr (std::is_copy_constructible<V>::value) { if (differ) nt = true; *b.m = static_cast<const M &>(*a.m); b.ref = std::map<int, int>(a.ref); if (F & 1) b.id = a.id; } break;
                case 8: if (i != j) { if (differ) nt = true; *b.m = std::move(*a.m); b.ref = a.ref; if (F & 2) b.id = a.id; a.m->clear(); a.ref.clear(); } break;
                case 9: a.m->clear(s.chance(1, 2)); a.ref.clear(); break;
                default: if (i != j && ((F & 4) || a.id == b.id)) { a.m->swap(*b.m); std::swap(a.ref, b.ref); if (F & 4) std::swap(a.id, b.id); if (differ) nt = true; } break;
            }
            for (size_t q = 0; q < 3; q++) check(q);
            blocks_ok();
        }
    }
    check_err("destruction");
    PBT_CHECK(G.alloc_live_blocks == 0, G.alloc_live_blocks, " blocks are allocated after the maps were destroyed");
    PBT_CHECK(G.live == 0, G.live, " objects are alive after the maps were destroyed");
    if (nt) s.nontrivial("elements went between maps of different allocators");
}
template <class K, class V, int F> using TA = TAlloc<std::pair<const K, V>, F>;
template <template <class...> class Map, int F, bool Av> constexpr auto obj = prop<Map<KObj, VObj, SHash<KObj, Av>, SEq<KObj>, TA<KObj, VObj, F>>, TA<KObj, VObj, F>, KObj, VObj, F>;
template <class... T> using M15 = jstd::group15_flat_map<T...>;
template <int F> constexpr auto robj = prop<RH<KObj, VObj, SHash<KObj, false>, SEq<KObj>, TA<KObj, VObj, F>>, TA<KObj, VObj, F>, KObj, VObj, F>;
template <class... T> using M16 = jstd::group16_flat_map<T...>;
#if PART == 0
PBT_TARGETS({"g15.all", obj<M15, 7, false>, 1});
#elif PART == 1
PBT_TARGETS({"g16.all", obj<M16, 7, false>, 1});
#elif PART == 2
PBT_TARGETS({"g15.none", obj<M15, 0, true>, 1});
#elif PART == 3
PBT_TARGETS({"g16.none", obj<M16, 8, true>, 1});
#elif PART == 4
PBT_TARGETS({"g15.copy.soccc", obj<M15, 9, false>, 1});
#elif PART == 5
PBT_TARGETS({"g16.move", obj<M16, 2, false>, 1});
#elif PART == 6
PBT_TARGETS({"g15.move.swap", obj<M15, 6, false>, 1});
#elif PART == 7
PBT_TARGETS({"g16.copy.swap", obj<M16, 5, false>, 1});
#elif PART == 8
PBT_TARGETS({"g15.int.copy", prop<G15<int, int, SHash<int, false>, SEq<int>, TA<int, int, 1>>, TA<int, int, 1>, int, int, 1>, 1});
#elif PART == 9
PBT_TARGETS({"g16.int.move.only", prop<G16<int, MoveOnly, SHash<int, false>, SEq<int>, TA<int, MoveOnly, 0>>, TA<int, MoveOnly, 0>, int, MoveOnly, 0>, 1});
#elif PART == 10
PBT_TARGETS({"rh.all", robj<7>, 1});
#elif PART == 11
PBT_TARGETS({"rh.none", robj<0>, 1});
#elif PART == 12
PBT_TARGETS({"rh.copy.soccc", robj<9>, 1});
#elif PART == 13
PBT_TARGETS({"rh.int.move.swap", prop<RH<int, VObj, SHash<int, false>, SEq<int>, TA<int, VObj, 6>>, TA<int, VObj, 6>, int, VObj, 6>, 1});
#endif
