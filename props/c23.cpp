// C23: arguments may refer to elements of the map they are given to.
#include <map>
#include <string_view>
#include "maps.hpp"
#include <jstd/hashmap/flat16_hash_map.h>
#include "history.hpp"
using namespace pt;
using namespace pbt;

// flat16_hash_map asks for the result type of its hash function.
template <class H> struct R : H { using H::H; R() = default; using result_type = std::size_t; };
template <class K, class V> using F16 = jstd::flat16_hash_map<K, V, R<SHash<K, false>>, SEq<K>>;
template <class K, class V> using S15 = G15<K, V, SHash<K, false>, SEq<K>>;
template <class K, class V> using S16 = G16<K, V, SHash<K, false>, SEq<K>>;
template <class K, class V> using SRH = RH<K, V, SHash<K, false>, SEq<K>>;
template <bool I, bool S, class K, class V> using SRL = RHL<I, S, K, V, SHash<K, false>, SEq<K>>;

template <class M, class K, class V>
void prop(Src & s) {
    reset_case();
    draw_shape(s, !is_robin<M>::value);
    constexpr bool same_type = std::is_same<K, V>::value, text = std::is_same<V, std::string>::value, copyable = std::is_copy_constructible<V>::value;
    const int limit = weak_shape() ? 60 : 700;
    {
        std::map<int, int> ref;
        M m;
        int next = 0, aliased = 0, grew = 0;
        // A value is given an id that is a key now and then, so that a value can also stand for a key.
        auto a_value = [&] { return s.draw(2) ? int(s.draw(uint32_t(next + 40))) : 1000 + int(s.draw(1000)); };
        auto fill = [&](int n) { while (n-- > 0) { int v = a_value(); bool ins = m.emplace(mk<K>(next), mk<V>(v)).second; PBT_CHECK(ins == !ref.count(next), "emplace reports ", ins); ref.emplace(next, v); next++; } };
        auto check = [&](const char * what) {
            PBT_CHECK(m.size() == ref.size(), what, ": size() is ", m.size(), ", expected ", ref.size());
            size_t c = 0;
            for (auto & p : m) {
                auto r = ref.find(idof(p.first));
                PBT_CHECK(r != ref.end(), what, ": the map holds key ", idof(p.first), ", which was not inserted");
                PBT_CHECK(idof(p.second) == r->second, what, ": key ", r->first, " has value ", idof(p.second), ", expected ", r->second);
                c++;
            }
            PBT_CHECK(c == ref.size(), what, ": iteration visits ", c, " of ", ref.size(), " elements");
            for (auto & r : ref) PBT_CHECK(m.find(mk<K>(r.first)) != m.end(), what, ": find() misses key ", r.first);
            check_err(what);
        };
        fill(1 + int(s.draw(6)));
        s.set_ops(40);
        while (s.more()) {
            if (ref.empty()) fill(1);
            // Sometimes the table is filled to its threshold first, so that the next insertion grows it.
            int more = int(s.draw(4)), at_limit = int(s.draw(3));
            if (int(ref.size()) + more < limit) fill(more);
            if (at_limit == 0) for (int i = 0; i < 400 && int(ref.size()) < limit && double(ref.size() + 1) <= double(m.capacity()) * double(m.max_load_factor()); i++) fill(1);
            // The element the arguments refer to.
            auto own = m.begin();
            if (s.draw(2)) for (uint32_t k = s.draw(uint32_t(std::min<size_t>(ref.size(), 50))); k > 0; k--) ++own;
            else { auto r = ref.begin(); std::advance(r, s.draw(uint32_t(ref.size()))); own = m.find(mk<K>(r->first)); PBT_CHECK(own != m.end(), "find() misses key ", r->first); }
            const K & ok = own->first;
            V & ov = own->second;
            const int kid = idof(ok), vid = ref.at(kid);
            int op = s.weighted({6, 4, 4, 3, 3, 3, 3, 3, 3, 3, 3, 4, 2, 2});
            static const char * names[] = {"emplace(new, own value)", "try_emplace(new, own value)", "insert_or_assign(new, own value)", "piecewise emplace(new, own value)",
                "emplace_hint(new, own value)", "emplace(new, moved own value)", "emplace(own value, own key)", "operator[](own value)", "try_emplace(own value, own key)",
                "emplace(new, view of own value)", "emplace(pair of references)", "lookups of own key", "erase(own key)", "insert_or_assign(present, own value)"};
            int fresh = next++;
            size_t cap = m.capacity();
            s.log(names[op], " new ", fresh, " own ", kid, " -> ", vid, " of ", ref.size());
            const K nk = mk<K>(fresh);
            auto added = [&](auto it, int k, int v) {
                ref.emplace(k, v);
                PBT_CHECK(idof(it->first) == k && idof(it->second) == ref.at(k), names[op], " returns the element ", idof(it->first), " -> ", idof(it->second), ", expected ", k, " -> ", ref.at(k));
                aliased++;
            };
            auto fresh_key = [&](auto r) { PBT_CHECK(r.second == !ref.count(fresh), names[op], " reports ", r.second); added(r.first, fresh, vid); };
            (void)ok; (void)ov; (void)fresh_key;
            switch (op) {
                case 0: if constexpr (copyable) { if (fresh % 2) fresh_key(m.emplace(nk, ov)); else fresh_key(m.emplace(mk<K>(fresh), std::as_const(ov))); } break;
                case 1: if constexpr (copyable) { if (fresh % 3 == 0) added(m.try_emplace(m.cend(), nk, ov), fresh, vid); else if (fresh % 3 == 1) fresh_key(m.try_emplace(nk, std::as_const(ov))); else fresh_key(m.try_emplace(mk<K>(fresh), ov)); } break;
                case 2: if constexpr (copyable) {
                    bool is_new = !ref.count(fresh);
                    if (fresh % 2) { auto r = m.insert_or_assign(nk, ov); PBT_CHECK(r.second == is_new, names[op], " reports ", r.second); ref[fresh] = vid; added(r.first, fresh, vid); }
                    else { auto it = m.insert_or_assign(m.cend(), mk<K>(fresh), ov); ref[fresh] = vid; added(it, fresh, vid); }
                } break;
                case 3: if constexpr (copyable) fresh_key(m.emplace(std::piecewise_construct, std::forward_as_tuple(nk), std::forward_as_tuple(ov))); break;
                case 4: if constexpr (copyable) added(m.emplace_hint(m.cbegin(), nk, ov), fresh, vid); break;
                case 5: {
                    if (ref.count(fresh)) break;
                    if (fresh % 2) fresh_key(m.emplace(nk, std::move(ov))); else fresh_key(m.try_emplace(nk, std::move(ov)));
                    int v = a_value();
                    auto it = m.find(mk<K>(kid));
                    PBT_CHECK(it != m.end(), names[op], ": the own key ", kid, " is gone");
                    it->second = mk<V>(v); ref[kid] = v;
                    break; }
                case 6: if constexpr (same_type) {
                    bool is_new = !ref.count(vid);
                    auto r = fresh % 3 == 0 ? m.emplace(std::piecewise_construct, std::forward_as_tuple(ov), std::forward_as_tuple(ok)) : m.emplace(ov, ok);
                    PBT_CHECK(r.second == is_new, names[op], " reports ", r.second); added(r.first, vid, kid);
                } break;
                case 7: if constexpr (same_type) {
                    bool is_new = !ref.count(vid);
                    V & x = m[ov];
                    if (is_new) { int v = a_value(); x = mk<V>(v); ref[vid] = v; aliased++; }
                    else PBT_CHECK(idof(x) == ref.at(vid), names[op], " gives ", idof(x), ", expected ", ref.at(vid));
                } break;
                case 8: if constexpr (same_type) { bool is_new = !ref.count(vid); auto r = m.try_emplace(ov, ok); PBT_CHECK(r.second == is_new, names[op], " reports ", r.second); added(r.first, vid, kid); } break;
                case 9: if constexpr (text) {
                    if (fresh % 3 == 0) fresh_key(m.emplace(nk, std::string_view(ov))); else if (fresh % 3 == 1) fresh_key(m.try_emplace(nk, ov.c_str())); else fresh_key(m.emplace(nk, ov.begin(), ov.end()));
                } break;
                case 10: if constexpr (copyable) {
                    if constexpr (std::is_convertible<std::pair<const K &, const V &>, std::pair<const K, V>>::value) {
                        std::pair<const K &, const V &> p(nk, ov);
                        if (fresh % 2) fresh_key(m.emplace(p)); else fresh_key(m.insert(p));
                    }
                } break;
                case 11: {
                    const M & cm = m;
                    PBT_CHECK(m.contains(ok) && m.count(ok) == 1 && m.find(ok) == own && cm.find(ok) == cm.find(mk<K>(kid)) && &m.at(ok) == &ov, "a lookup of the own key ", kid, " does not find its element");
                    auto r = m.try_emplace(ok); PBT_CHECK(!r.second && &r.first->second == &ov, "try_emplace(own key) inserts");
                    if constexpr (copyable) { auto e = m.emplace(ok, ov); PBT_CHECK(!e.second && &e.first->second == &ov, "emplace(own key, own value) inserts"); auto i = m.insert(*own); PBT_CHECK(!i.second && i.first == own, "insert(own element) inserts"); }
                    PBT_CHECK(&m[ok] == &ov, "operator[](own key) does not give the own value");
                    break; }
                case 12: {
                    size_t r;
                    if constexpr (same_type) { if (fresh % 2) { r = m.erase(ov); PBT_CHECK(r == ref.erase(vid), "erase(own value) returns ", r); break; } }
                    r = m.erase(ok); PBT_CHECK(r == 1, "erase(own key) returns ", r); ref.erase(kid);
                    break; }
                case 13: if constexpr (copyable) {
                    auto r = ref.begin(); std::advance(r, s.draw(uint32_t(ref.size())));
                    int k = r->first; ref[k] = vid;
                    if (fresh % 2) m.insert_or_assign(mk<K>(k), ov); else { const K c = mk<K>(k); m.insert_or_assign(c, std::as_const(ov)); }
                    aliased++;
                } break;
            }
            if (m.capacity() != cap) grew++;
            check_err(names[op]);
            if (ref.size() < 100 || s.draw(6) == 0) check(names[op]);
        }
        check("at the end");
        s.label(grew ? "an argument referred to an element while the map grew" : "no growth");
        if (grew && aliased > 3) s.nontrivial();
    }
    PBT_CHECK(G.live == 0, G.live, " objects are alive after the map is destroyed");
    check_err("at the end");
}

#define T_(n, M, K, V) {n, prop<M<K, V>, K, V>, 1}
#define U_(n, I, S, K, V) {n, prop<SRL<I, S, K, V>, K, V>, 1}
using Str = std::string;
#if PART == 0
PBT_TARGETS(T_("g15.str.str", S15, Str, Str), T_("g15.obj.obj", S15, KObj, KObj));
#elif PART == 1
PBT_TARGETS(T_("g16.str.str", S16, Str, Str), T_("g16.obj.obj", S16, KObj, KObj));
#elif PART == 2
PBT_TARGETS(T_("rh.str.str", SRH, Str, Str), T_("rh.obj.obj", SRH, KObj, KObj));
#elif PART == 3
PBT_TARGETS(U_("rhi.str.str", true, true, Str, Str), U_("rhd.obj.obj", false, true, KObj, KObj), U_("rhd.int.int", false, false, int, int));
#elif PART == 4
PBT_TARGETS(T_("f16.str.str", F16, Str, Str), T_("f16.obj.obj", F16, KObj, KObj), T_("f16.int.int", F16, int, int));
#elif PART == 5
PBT_TARGETS(T_("g15.int.int", S15, int, int), T_("g16.int.int", S16, int, int), T_("rh.int.int", SRH, int, int), T_("rh.u64.big", SRH, uint64_t, BigObj));
#elif PART == 6
PBT_TARGETS(T_("g15.int.move", S15, int, MoveOnly), T_("g16.int.move", S16, int, MoveOnly), T_("rh.int.move", SRH, int, MoveOnly), U_("rhi.int.move", true, false, int, MoveOnly), T_("f16.int.move", F16, int, MoveOnly));
#endif
