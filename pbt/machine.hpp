// Stateful model-based machine: random histories of map operations, each checked against std::map<int,int>.
#pragma once
#include "maps.hpp"

namespace pt {

using pbt::Src;
using pbt::cat;

enum Op {
    O_INSERT, O_INSERT_HINT, O_INSERT_RANGE, O_EMPLACE, O_EMPLACE_HINT, O_TRY_EMPLACE, O_TRY_EMPLACE_HINT,
    O_IOA, O_IOA_HINT, O_INDEX, O_AT, O_FIND, O_COUNT, O_ERASE_KEY, O_ERASE_IT, O_ERASE_RANGE, O_ERASE_IF, O_ERASE_LOOP,
    O_CLEAR, O_RESERVE, O_REHASH, O_SHRINK, O_MLF, O_SCAN, O_BULK_IN, O_BULK_OUT, O_CHURN,
    O_COPY, O_MOVE, O_COPY_ASSIGN, O_MOVE_ASSIGN, O_SWAP, O_IL_ASSIGN, O_RANGE_CTOR, O_SELF_ASSIGN, O_ALLOC_COPY, O_ALLOC_MOVE,
    O_DESTROY, O_COUNT_OPS
};

using Weights = std::vector<int>;

inline Weights weights(std::initializer_list<std::pair<int, int>> l) {
    Weights w(O_COUNT_OPS, 0);
    for (auto & p : l) w[size_t(p.first)] = p.second;
    return w;
}
inline int pick(Src & s, const Weights & w) {
    int tot = 0;
    for (int x : w) tot += x;
    int v = int(s.draw(uint32_t(tot)));
    for (size_t i = 0; i < w.size(); i++) { if (v < w[i]) return int(i); v -= w[i]; }
    return 0;
}

// Key universe of one case
struct Universe {
    int n;          // number of key ids
    int base, stride;
};
inline Universe draw_universe(Src & s, int maxn) {
    static const int sizes[] = {4, 16, 40, 120, 500, 2500, 12000};
    static const int strides[] = {1, 1, 2, 7, 16, 64, 1000, 4096};
    Universe u;
    u.n = std::min(maxn, sizes[s.weighted({2, 3, 5, 5, 4, 2, 1})]);
    u.base = int(s.draw(3)) == 2 ? -int(s.draw(1000)) : int(s.draw(1000));
    u.stride = strides[s.draw(8)];
    return u;
}

// robin_hash_map grows until no element is far from its home position: it needs keys whose hashes are spread
template <class M> inline void spread(Universe & u) {
    if (is_robin<M>::value) while (u.stride > 1 && int64_t(u.n) * u.stride > (G.hmode == 8 || G.hmode == 10 ? 1 << 15 : 1 << 19)) u.stride = std::max(1, u.stride / 4);
}

template <class M, class K, class V>
struct Machine {
    using P = typename M::value_type;
    using KeyT = K;
    using MappedT = V;
    using Model = std::map<int, int>;
    static constexpr bool vcopy = std::is_copy_constructible<V>::value;
    static constexpr bool legacy = is_legacy<M>::value;     // flat16_hash_map: no assignment
    static constexpr bool kdec = std::is_same<K, uint8_t>::value;
    using H = typename M::hasher;
    static constexpr bool stateful = std::is_constructible<H, uint64_t>::value && sizeof(H) >= 8;

    Src & s;
    Universe u;
    struct Ent {
        std::unique_ptr<M> m;
        Model ref;
        uint64_t salt = 0;
        int tag = 0;
    };
    std::vector<Ent> ents;
    int next_val = 1;
    bool deep = true;       // full comparison after every structural operation
    bool grew = false, erased = false, reinserted = false;
    std::set<int> ever_erased;
    size_t max_size_seen = 0;

    Machine(Src & src, const Universe & uu, int n) : s(src), u(uu) { spread<M>(u); ents.resize(size_t(n)); }

    int key(int k) const {
        if (kdec) return k & 255;
        return u.base + k * u.stride;
    }
    K mkk(int id) const { return mk<K>(id); }
    int draw_key() { return key(int(s.draw(uint32_t(u.n)))); }
    // a key that is present (if any), biased
    int draw_present(Ent & e) {
        if (e.ref.empty() || !s.chance(3, 4)) return draw_key();
        // nearest present key at or after a drawn one: cheap and shrinkable
        auto it = e.ref.lower_bound(draw_key());
        if (it == e.ref.end()) it = e.ref.begin();
        return it->first;
    }
    int fresh_val() { return next_val++; }

    void make_default(Ent & e) {
        int k = int(s.draw(4));
        if (k == 0) { e.m.reset(new M()); e.salt = 0; s.log("m = default"); }
        else if (k == 1 || !stateful) {
            size_t c = s.draw(200);
            e.m.reset(new M(c));
            e.salt = 0;
            s.log("m = M(", c, ")");
        } else {
            if constexpr (stateful) {
                size_t c = s.draw(100);
                e.salt = s.draw(5);
                e.tag = int(s.draw(5));
                e.m.reset(new M(c, H(e.salt), typename M::key_equal(e.tag)));
                s.log("m = M(", c, ", hash salt ", e.salt, ")");
            }
        }
        e.ref.clear();
    }

    // ---- oracles
    void check_entry(Ent & e, int id) {
        M & m = *e.m;
        const M & cm = m;
        K k = mkk(id);
        auto r = e.ref.find(id);
        bool want = r != e.ref.end();
        auto it = m.find(k);
        PBT_CHECK((it != m.end()) == want, "find(", id, ") ", want ? "does not find a present key" : "finds an absent key");
        auto cit = cm.find(k);
        PBT_CHECK((cit != cm.end()) == want, "const find(", id, ") is wrong, present=", want);
        PBT_CHECK(m.count(k) == (want ? 1u : 0u), "count(", id, ") is wrong, present=", want);
        PBT_CHECK(m.contains(k) == want, "contains(", id, ") is wrong, present=", want);
        if (want) {
            PBT_CHECK(idof(it->first) == id, "find(", id, ") returns the element of key ", idof(it->first));
            PBT_CHECK(idof(it->second) == r->second, "find(", id, ") returns value ", idof(it->second), ", expected ", r->second);
            PBT_CHECK(idof((*cit).second) == r->second, "const find(", id, ") returns value ", idof((*cit).second), ", expected ", r->second);
        }
    }
    void check_result(Ent & e, typename M::iterator it, int id, int val, const char * what) {
        PBT_CHECK(it != e.m->end(), what, " of key ", id, " returns the end iterator");
        PBT_CHECK(idof(it->first) == id, what, " returns an iterator to key ", idof(it->first), ", expected ", id);
        PBT_CHECK(idof(it->second) == val, what, " of key ", id, ": the element has value ", idof(it->second), ", expected ", val);
    }
    void check_size(Ent & e) {
        PBT_CHECK(e.m->size() == e.ref.size(), "size() is ", e.m->size(), ", expected ", e.ref.size());
        PBT_CHECK(e.m->empty() == e.ref.empty(), "empty() is wrong at size ", e.ref.size());
    }
    template <class It>
    void check_scan(Ent & e, It b, It en, const char * what) {
        std::set<int> seen;
        size_t n = 0;
        for (It it = b; it != en; ++it) {
            n++;
            PBT_CHECK(n <= e.ref.size(), what, " visits more elements than size() ", e.ref.size());
            int id = idof(it->first);
            auto r = e.ref.find(id);
            PBT_CHECK(r != e.ref.end(), what, " visits the absent key ", id);
            PBT_CHECK(seen.insert(id).second, what, " visits key ", id, " twice");
            PBT_CHECK(idof(it->second) == r->second, what, ": key ", id, " has value ", idof(it->second), ", expected ", r->second);
        }
        PBT_CHECK(n == e.ref.size(), what, " visits ", n, " elements of ", e.ref.size());
    }
    void check_all(Ent & e) {
        check_size(e);
        M & m = *e.m;
        const M & cm = m;
        check_scan(e, m.begin(), m.end(), "iteration");
        check_scan(e, cm.begin(), cm.end(), "const iteration");
        for (auto & p : e.ref) {
            auto it = m.find(mkk(p.first));
            PBT_CHECK(it != m.end(), "find(", p.first, ") does not find a present key");
            PBT_CHECK(idof(it->second) == p.second, "find(", p.first, ") has value ", idof(it->second), ", expected ", p.second);
        }
        PBT_CHECK(m.capacity() >= m.size(), "capacity() ", m.capacity(), " is less than size() ", m.size());
        if constexpr (stateful) {
            PBT_CHECK(m.hash_function().salt == e.salt, "hash_function() is not the one of this map");
        }
        check_err("lifetime");
    }
    void check_some_absent(Ent & e) {
        for (int i = 0; i < 4; i++) {
            int id = draw_key();
            check_entry(e, id);
        }
    }

    void note_insert(Ent & e, int id, size_t cap_before) {
        if (ever_erased.count(id)) reinserted = true;
        if (e.m->capacity() != cap_before && cap_before > 1) grew = true;
        max_size_seen = std::max(max_size_seen, e.ref.size());
    }

    // ---- operations
    void op_insert(Ent & e, bool hint) {
        M & m = *e.m;
        int id = draw_key(), v = fresh_val();
        bool absent = !e.ref.count(id);
        size_t cap = m.capacity();
        typename M::iterator it;
        bool ins = absent;
        int form = int(s.draw(3));
        s.log(hint ? "insert(hint," : "insert(", id, " -> ", v, ") form ", form);
        if (!hint) {
            std::pair<typename M::iterator, bool> r(m.end(), false);
            if (form == 0 && vcopy) {
                if constexpr (vcopy) { const P p(mkk(id), mk<V>(v)); r = m.insert(p); check_err("insert(const&)");
                    PBT_CHECK(idof(p.second) == v, "insert(const &) changed its argument"); }
            } else if (form == 1) { r = m.insert(P(mkk(id), mk<V>(v))); }
            else { r = m.insert(std::make_pair(mkk(id), mk<V>(v))); }
            it = r.first; ins = r.second;
            PBT_CHECK(ins == absent, "insert() of ", absent ? "an absent" : "a present", " key ", id, " reports ", ins);
        } else {
            auto h = s.chance(1, 2) ? m.begin() : m.end();
            if (form == 0 && vcopy) {
                if constexpr (vcopy) { const P p(mkk(id), mk<V>(v)); it = m.insert(h, p); }
            } else if (form == 1) it = m.insert(h, P(mkk(id), mk<V>(v)));
            else it = m.insert(h, std::make_pair(mkk(id), mk<V>(v)));
        }
        if (absent) e.ref[id] = v;
        check_result(e, it, id, e.ref[id], "insert()");
        note_insert(e, id, cap);
    }
    void op_insert_range(Ent & e) {
        if constexpr (vcopy) {
            M & m = *e.m;
            int n = int(s.draw(12));
            size_t cap = m.capacity();
            int form = int(s.draw(3));
            s.log("insert range of ", n, " form ", form);
            std::list<std::pair<K, V>> l;
            std::vector<P> vec;
            for (int i = 0; i < n; i++) {
                int id = draw_key(), v = fresh_val();
                if (form == 0) l.emplace_back(mkk(id), mk<V>(v));
                else vec.emplace_back(mkk(id), mk<V>(v));
                e.ref.emplace(id, v);
                s.log("   ", id, " -> ", v);
            }
            if (form == 0) m.insert(l.begin(), l.end());
            else if (form == 1) m.insert(vec.begin(), vec.end());
            else {
                std::vector<P> & x = vec;
                if (x.size() >= 3) { m.insert({x[0], x[1], x[2]}); m.insert(x.begin() + 3, x.end()); }
                else m.insert(x.data(), x.data() + x.size());
            }
            note_insert(e, key(0), cap);
            check_all(e);
        } else op_insert(e, false);
    }
    void op_emplace(Ent & e, bool hint) {
        M & m = *e.m;
        int id = draw_key(), v = fresh_val();
        bool absent = !e.ref.count(id);
        size_t cap = m.capacity();
        int form = int(s.draw(4));
        s.log(hint ? "emplace_hint(" : "emplace(", id, " -> ", v, ") form ", form);
        std::pair<typename M::iterator, bool> r(m.end(), absent);
        if (hint) {
            if (form < 2) r.first = m.emplace_hint(m.end(), mkk(id), mk<V>(v));
            else r.first = m.emplace_hint(m.cbegin(), P(mkk(id), mk<V>(v)));
        } else if (form == 0) r = m.emplace(mkk(id), mk<V>(v));
        else if (form == 1) { const K k = mkk(id); r = m.emplace(k, mk<V>(v)); }
        else if (form == 2) r = m.emplace(P(mkk(id), mk<V>(v)));
        else r = m.emplace(std::piecewise_construct, std::forward_as_tuple(mkk(id)), std::forward_as_tuple(mk<V>(v)));
        PBT_CHECK(r.second == absent, "emplace() of ", absent ? "an absent" : "a present", " key ", id, " reports ", r.second);
        if (absent) e.ref[id] = v;
        check_result(e, r.first, id, e.ref[id], "emplace()");
        note_insert(e, id, cap);
    }
    void op_try_emplace(Ent & e, bool hint) {
        M & m = *e.m;
        int id = draw_key(), v = fresh_val();
        bool absent = !e.ref.count(id);
        size_t cap = m.capacity();
        bool lv = s.chance(1, 2);
        s.log(hint ? "try_emplace(hint," : "try_emplace(", id, " -> ", v, ") lvalue ", lv);
        std::pair<typename M::iterator, bool> r(m.end(), absent);
        const K k = mkk(id);
        if (!hint) { if (lv) r = m.try_emplace(k, mk<V>(v)); else r = m.try_emplace(mkk(id), mk<V>(v)); }
        else { if (lv) r.first = m.try_emplace(m.cend(), k, mk<V>(v)); else r.first = m.try_emplace(m.cbegin(), mkk(id), mk<V>(v)); }
        PBT_CHECK(r.second == absent, "try_emplace() of ", absent ? "an absent" : "a present", " key ", id, " reports ", r.second);
        if (absent) e.ref[id] = v;
        check_result(e, r.first, id, e.ref[id], "try_emplace()");
        note_insert(e, id, cap);
    }
    void op_ioa(Ent & e, bool hint) {
        M & m = *e.m;
        int id = s.chance(1, 2) ? draw_present(e) : draw_key(), v = fresh_val();
        bool absent = !e.ref.count(id);
        size_t cap = m.capacity();
        int form = int(s.draw(4));
        s.log(hint ? "insert_or_assign(hint," : "insert_or_assign(", id, " -> ", v, ") form ", form);
        std::pair<typename M::iterator, bool> r(m.end(), absent);
        const K k = mkk(id);
        if (!hint) {
            if (form == 0) r = m.insert_or_assign(k, mk<V>(v));
            else if (form == 1) r = m.insert_or_assign(mkk(id), mk<V>(v));
            else if (form == 3) { K lk = mkk(id); r = m.insert_or_assign(lk, mk<V>(v)); PBT_CHECK(idof(lk) == id, "insert_or_assign() changed its lvalue key ", id); }
            else { if constexpr (vcopy) { V val = mk<V>(v); r = m.insert_or_assign(k, val);
                       PBT_CHECK(idof(val) == v, "insert_or_assign() changed its lvalue argument"); }
                   else r = m.insert_or_assign(k, mk<V>(v)); }
        } else {
            if (form == 0) r.first = m.insert_or_assign(m.cend(), k, mk<V>(v));
            else if (form == 3) { K lk = mkk(id); r.first = m.insert_or_assign(m.cend(), lk, mk<V>(v)); PBT_CHECK(idof(lk) == id, "insert_or_assign() changed its lvalue key ", id); }
            else r.first = m.insert_or_assign(m.cbegin(), mkk(id), mk<V>(v));
        }
        PBT_CHECK(r.second == absent, "insert_or_assign() of ", absent ? "an absent" : "a present", " key ", id, " reports ", r.second);
        e.ref[id] = v;
        check_result(e, r.first, id, v, "insert_or_assign()");
        note_insert(e, id, cap);
    }
    void op_index(Ent & e) {
        M & m = *e.m;
        int id = draw_key(), v = fresh_val();
        bool absent = !e.ref.count(id);
        size_t cap = m.capacity();
        int form = int(s.draw(4));
        s.log("operator[](", id, ") form ", form, " = ", v);
        const K k = mkk(id);
        if (form == 0) {
            V & x = m[k];
            if (absent) { PBT_CHECK((idof(x) == 0 || std::is_same<V, std::string>::value), "operator[] of an absent key is not value-initialized"); e.ref[id] = idof(x); }
            else PBT_CHECK(idof(x) == e.ref[id], "operator[](", id, ") reads ", idof(x), ", expected ", e.ref[id]);
        } else if (form == 1) {
            V & x = m[mkk(id)];
            if (absent) e.ref[id] = idof(x);
            else PBT_CHECK(idof(x) == e.ref[id], "operator[](", id, ") reads ", idof(x), ", expected ", e.ref[id]);
        } else if (form == 2) { m[k] = mk<V>(v); e.ref[id] = v; }
        else { m[mkk(id)] = mk<V>(v); e.ref[id] = v; }
        check_entry(e, id);
        note_insert(e, id, cap);
    }
    void op_at(Ent & e) {
        M & m = *e.m;
        const M & cm = m;
        int id = draw_present(e);
        bool want = e.ref.count(id) != 0;
        s.log("at(", id, ")");
        for (int c = 0; c < 2; c++) {
            bool threw = false;
            try {
                const V & v = c ? cm.at(mkk(id)) : m.at(mkk(id));
                PBT_CHECK(want, "at(", id, ") of an absent key does not throw");
                PBT_CHECK(idof(v) == e.ref[id], "at(", id, ") reads ", idof(v), ", expected ", e.ref[id]);
            } catch (const std::out_of_range &) { threw = true; }
            PBT_CHECK(threw == !want, "at(", id, ") of a present key throws");
        }
    }
    void op_erase_key(Ent & e) {
        M & m = *e.m;
        int id = draw_present(e);
        bool want = e.ref.count(id) != 0;
        s.log("erase(", id, ")");
        size_t n = m.erase(mkk(id));
        PBT_CHECK(n == (want ? 1u : 0u), "erase(", id, ") returns ", n, ", key was ", want ? "present" : "absent");
        e.ref.erase(id);
        if (want) { erased = true; ever_erased.insert(id); }
        check_entry(e, id);
    }
    // the keys from an iterator to the end
    std::vector<int> tail(M & m, typename M::iterator it, size_t lim) {
        std::vector<int> r;
        for (; it != m.end(); ++it) { r.push_back(idof(it->first)); PBT_CHECK(r.size() <= lim, "iteration does not end"); }
        return r;
    }
    void op_erase_it(Ent & e) {
        M & m = *e.m;
        if (e.ref.empty()) return;
        int id = draw_present(e);
        auto it = m.find(mkk(id));
        if (it == m.end()) { PBT_CHECK(!e.ref.count(id), "find(", id, ") does not find a present key"); return; }
        s.log("erase(iterator to ", id, ")");
        std::vector<int> before = tail(m, it, e.ref.size());
        PBT_CHECK(!before.empty() && before[0] == id, "iteration from find(", id, ") does not start there");
        typename M::iterator nx;
        if (s.chance(1, 2)) nx = m.erase(it);
        else {
            typename M::const_iterator c = it;
            if constexpr (legacy) { typename M::const_iterator r = m.erase(c); nx = r == m.cend() ? m.end() : m.find(r->first); }
            else nx = m.erase(c);
        }
        e.ref.erase(id);
        erased = true; ever_erased.insert(id);
        std::vector<int> after = tail(m, nx, e.ref.size() + 1);
        std::set<int> a(before.begin() + 1, before.end()), b(after.begin(), after.end());
        PBT_CHECK(after.size() == b.size(), "iteration from the result of erase(iterator) visits a key twice");
        PBT_CHECK(a == b, "erase(iterator to ", id, "): iteration from the result visits ", after.size(), " elements, expected the ", before.size() - 1, " that followed");
        check_all(e);
    }
    void op_erase_range(Ent & e) {
        M & m = *e.m;
        size_t n = e.ref.size();
        size_t i = s.draw(uint32_t(n + 1)), j = s.draw(uint32_t(n + 1));
        if (s.chance(1, 6)) { i = 0; j = n; }
        if (i > j) std::swap(i, j);
        s.log("erase(begin+", i, ", begin+", j, ") of ", n);
        auto f = m.begin();
        std::vector<int> all = tail(m, f, n);
        PBT_CHECK(all.size() == n, "iteration visits ", all.size(), " elements of ", n);
        for (size_t q = 0; q < i; q++) ++f;
        auto l = f;
        for (size_t q = i; q < j; q++) ++l;
        auto r = m.erase(f, l);
        for (size_t q = i; q < j; q++) { e.ref.erase(all[q]); erased = true; ever_erased.insert(all[q]); }
        if constexpr (std::is_convertible<decltype(r), typename M::const_iterator>::value) {
            std::set<int> a(all.begin() + long(j), all.end()), b;
            typename M::const_iterator it = r, en = m.cend();
            size_t c = 0;
            for (; it != en; ++it) { b.insert(idof(it->first)); PBT_CHECK(++c <= n, "iteration does not end"); }
            PBT_CHECK(c == b.size() && a == b, "erase(first,last): iteration from the result visits ", c, " elements, expected ", a.size());
        }
        check_all(e);
    }
    void op_erase_if(Ent & e) {
        M & m = *e.m;
        int mod = 1 + int(s.draw(5)), rem = int(s.draw(uint32_t(mod)));
        s.log("erase_if(value % ", mod, " == ", rem, ")");
        size_t want = 0;
        for (auto it = e.ref.begin(); it != e.ref.end();) {
            if (((it->second % mod) + mod) % mod == rem) { ever_erased.insert(it->first); it = e.ref.erase(it); want++; erased = true; } else ++it;
        }
        size_t calls = 0, sz = m.size();
        using std::erase_if;
        auto n = erase_if(m, [&](const auto & p) { calls++; return ((idof(p.second) % mod) + mod) % mod == rem; });
        PBT_CHECK(size_t(n) == want, "erase_if() returns ", size_t(n), ", expected ", want);
        PBT_CHECK(calls == sz, "erase_if() calls its predicate ", calls, " times for ", sz, " elements");
        check_all(e);
    }
    void op_erase_loop(Ent & e) {
        M & m = *e.m;
        uint32_t pat = s.draw(1 << 16);
        s.log("erase while iterating, pattern ", pat);
        std::set<int> seen;
        size_t i = 0, n0 = e.ref.size();
        for (auto it = m.begin(); it != m.end(); i++) {
            PBT_CHECK(i < n0, "the loop of erase(iterator) visits more than the ", n0, " elements");
            int id = idof(it->first);
            PBT_CHECK(e.ref.count(id) && seen.insert(id).second, "the loop of erase(iterator) visits key ", id, " twice or after it was erased");
            if ((pat >> (i % 16)) & 1) {
                it = m.erase(it);
                e.ref.erase(id);
                ever_erased.insert(id); erased = true;
            } else ++it;
        }
        PBT_CHECK(seen.size() == n0, "the loop of erase(iterator) visits ", seen.size(), " of ", n0, " elements");
        check_all(e);
    }
    void op_clear(Ent & e) {
        bool d = s.chance(1, 2);
        s.log("clear(", d, ")");
        for (auto & p : e.ref) ever_erased.insert(p.first);
        e.m->clear(d);
        e.ref.clear();
        check_all(e);
    }
    void op_reserve(Ent & e) {
        size_t n = s.draw(uint32_t(s.chance(1, 4) ? 3000 : 150));
        s.log("reserve(", n, ")");
        if (s.chance(1, 8)) n = 0;
        e.m->reserve(n);
        check_all(e);
    }
    void op_rehash(Ent & e) {
        size_t n = s.draw(uint32_t(s.chance(1, 4) ? 3000 : 150));
        s.log("rehash(", n, ")");
        e.m->rehash(n);
        check_all(e);
    }
    void op_shrink(Ent & e) {
        bool b = s.chance(1, 3);
        s.log("shrink_to_fit(", b, ")");
        e.m->shrink_to_fit(b);
        check_all(e);
    }
    void op_mlf(Ent & e) {
        float f = float(s.draw(21)) / 20.0f;
        s.log("max_load_factor(", f, ")");
        e.m->max_load_factor(f);
        check_all(e);
    }
    void op_bulk_in(Ent & e) {
        int a = int(s.draw(uint32_t(u.n))), n = int(s.draw(uint32_t(std::min(u.n, 4000)))) + 1;
        int how = int(s.draw(3));
        s.log("insert ", n, " keys from number ", a, " how ", how);
        for (int i = 0; i < n; i++) {
            int id = key((a + i) % u.n), v = fresh_val();
            bool absent = !e.ref.count(id);
            size_t cap = e.m->capacity();
            bool ins;
            if (how == 0) ins = e.m->emplace(mkk(id), mk<V>(v)).second;
            else if (how == 1) ins = e.m->try_emplace(mkk(id), mk<V>(v)).second;
            else ins = e.m->insert(P(mkk(id), mk<V>(v))).second;
            PBT_CHECK(ins == absent, "bulk insertion of ", absent ? "an absent" : "a present", " key ", id, " reports ", ins);
            if (absent) { e.ref[id] = v; note_insert(e, id, cap); }
        }
        check_all(e);
    }
    void op_bulk_out(Ent & e) {
        int a = int(s.draw(uint32_t(u.n))), n = int(s.draw(uint32_t(std::min(u.n, 4000)))) + 1, step = 1 + int(s.draw(3));
        s.log("erase ", n, " keys from number ", a, " step ", step);
        for (int i = 0; i < n; i++) {
            int id = key(int((int64_t(a) + int64_t(i) * step) % u.n));
            bool want = e.ref.erase(id) != 0;
            size_t r = e.m->erase(mkk(id));
            PBT_CHECK(r == (want ? 1u : 0u), "erase(", id, ") returns ", r, ", key was ", want ? "present" : "absent");
            if (want) { ever_erased.insert(id); erased = true; }
        }
        check_all(e);
    }
    void op_churn(Ent & e) {
        // replace keys one by one at a steady size
        int n = 1 + int(s.draw(200));
        int a = int(s.draw(uint32_t(u.n)));
        uint32_t x = s.draw(1 << 16);
        s.log("churn ", n, " from ", a, " mix ", x);
        for (int i = 0; i < n; i++) {
            x = x * 1103515245u + 12345u;
            int id = key(int((uint32_t(a) + (x >> 8)) % uint32_t(u.n)));
            if ((x >> 4) & 1) {
                int v = fresh_val();
                bool absent = !e.ref.count(id);
                bool ins = e.m->emplace(mkk(id), mk<V>(v)).second;
                PBT_CHECK(ins == absent, "emplace() of ", absent ? "an absent" : "a present", " key ", id, " reports ", ins);
                if (absent) { e.ref[id] = v; if (ever_erased.count(id)) reinserted = true; }
            } else {
                bool want = e.ref.erase(id) != 0;
                size_t r = e.m->erase(mkk(id));
                PBT_CHECK(r == (want ? 1u : 0u), "erase(", id, ") returns ", r, ", key was ", want ? "present" : "absent");
                if (want) { ever_erased.insert(id); erased = true; }
            }
        }
        check_all(e);
    }
    // ---- whole-map operations
    void op_copy(size_t a, size_t b) {
        if constexpr (vcopy) {
            s.log("map ", b, " = copy construction of map ", a);
            ents[b].m.reset(new M(static_cast<const M &>(*ents[a].m)));
            ents[b].ref = ents[a].ref; ents[b].salt = ents[a].salt; ents[b].tag = ents[a].tag;
        }
    }
    void op_move(size_t a, size_t b) {
        s.log("map ", b, " = move construction of map ", a);
        std::unique_ptr<M> n(new M(std::move(*ents[a].m)));
        Model r = ents[a].ref;
        uint64_t salt = ents[a].salt; int tag = ents[a].tag;
        after_move(a);
        ents[b].m = std::move(n);
        ents[b].ref = r; ents[b].salt = salt; ents[b].tag = tag;
    }
    // The moved-from map is valid: it is cleared and used again.
    void after_move(size_t a) {
        if constexpr (legacy) { make_default(ents[a]); return; }
        else {
        M & m = *ents[a].m;
        int how = int(s.draw(3));
        s.log("   the moved-from map: ", how == 0 ? "clear()" : how == 1 ? "assign a new map" : "clear(true)");
        if (how == 0) m.clear();
        else if (how == 1) { M x; m = std::move(x); ents[a].salt = 0; ents[a].tag = 0; }
        else m.clear(true);
        ents[a].ref.clear();
        if constexpr (stateful) { ents[a].salt = m.hash_function().salt; }
        check_all(ents[a]);
        }
    }
    void op_whole(int op, size_t a, size_t b) {
        Ent & ea = ents[a];
        Ent & eb = ents[b];
        if (a == b && (op == O_MOVE || op == O_COPY || op == O_MOVE_ASSIGN || op == O_ALLOC_COPY || op == O_ALLOC_MOVE)) return;
        switch (op) {
            case O_COPY: op_copy(a, b); break;
            case O_MOVE: op_move(a, b); break;
            case O_COPY_ASSIGN:
                if constexpr (vcopy && !legacy) {
                    s.log("map ", b, " = map ", a);
                    *eb.m = static_cast<const M &>(*ea.m);
                    if (a != b) { eb.ref = ea.ref; eb.salt = ea.salt; eb.tag = ea.tag; }
                }
                break;
            case O_MOVE_ASSIGN:
                if constexpr (!legacy) {
                    s.log("map ", b, " = move(map ", a, ")");
                    *eb.m = std::move(*ea.m);
                    eb.ref = ea.ref; eb.salt = ea.salt; eb.tag = ea.tag;
                    after_move(a);
                }
                break;
            case O_SWAP: {
                int f = legacy ? 0 : int(s.draw(3));
                s.log("swap maps ", a, " and ", b, " form ", f);
                if (f == 0 || legacy) ea.m->swap(*eb.m);
                else if constexpr (legacy) {}
                else if (f == 1) { using std::swap; swap(*ea.m, *eb.m); }
                else std::swap(*ea.m, *eb.m);
                if (a != b) { std::swap(ea.ref, eb.ref); std::swap(ea.salt, eb.salt); std::swap(ea.tag, eb.tag); }
                break;
            }
            case O_IL_ASSIGN:
                if constexpr (vcopy && !legacy) {
                    int k1 = draw_key(), k2 = draw_key(), k3 = draw_key(), v1 = fresh_val(), v2 = fresh_val(), v3 = fresh_val();
                    s.log("map ", a, " = {", k1, ",", k2, ",", k3, "}");
                    *ea.m = {P(mkk(k1), mk<V>(v1)), P(mkk(k2), mk<V>(v2)), P(mkk(k3), mk<V>(v3))};
                    ea.ref.clear();
                    ea.ref.emplace(k1, v1); ea.ref.emplace(k2, v2); ea.ref.emplace(k3, v3);
                    if constexpr (stateful) ea.salt = ea.m->hash_function().salt;
                }
                break;
            case O_RANGE_CTOR:
                if constexpr (vcopy) {
                    int n = int(s.draw(60));
                    std::vector<P> v;
                    Model r;
                    for (int i = 0; i < n; i++) { int k = draw_key(), x = fresh_val(); v.emplace_back(mkk(k), mk<V>(x)); r.emplace(k, x); }
                    s.log("map ", a, " = construction from a range of ", n);
                    if (s.chance(1, 2) || n < 2) ea.m.reset(new M(v.begin(), v.end()));
                    else {
                        ea.m.reset(new M({v[0], v[1]}));
                        r.clear();
                        for (int i = 0; i < 2; i++) r.emplace(idof(v[size_t(i)].first), idof(v[size_t(i)].second));
                    }
                    ea.ref = r; ea.salt = 0; ea.tag = 0;
                }
                break;
            case O_SELF_ASSIGN:
                if constexpr (vcopy && !legacy) {
                    s.log("map ", a, " = itself");
                    M & x = *ea.m;
                    x = static_cast<const M &>(*ea.m);
                }
                break;
            case O_ALLOC_COPY:
                if constexpr (vcopy) {
                    s.log("map ", b, " = copy of map ", a, " with an allocator");
                    eb.m.reset(new M(static_cast<const M &>(*ea.m), ea.m->get_allocator()));
                    eb.ref = ea.ref; eb.salt = ea.salt; eb.tag = ea.tag;
                }
                break;
            case O_ALLOC_MOVE: {
                s.log("map ", b, " = move of map ", a, " with an allocator");
                std::unique_ptr<M> n(new M(std::move(*ea.m), ea.m->get_allocator()));
                Model r = ea.ref;
                uint64_t salt = ea.salt; int tag = ea.tag;
                after_move(a);
                eb.m = std::move(n); eb.ref = r; eb.salt = salt; eb.tag = tag;
                break;
            }
            case O_DESTROY:
                s.log("map ", a, " is destroyed and made anew");
                ea.m.reset();
                make_default(ea);
                break;
        }
        check_all(ents[a]);
        check_all(ents[b]);
    }

    void step(const Weights & w) {
        size_t ei = ents.size() > 1 ? s.draw(uint32_t(ents.size())) : 0;
        Ent & e = ents[ei];
        int op = pick(s, w);
        switch (op) {
            case O_INSERT: op_insert(e, false); break;
            case O_INSERT_HINT: op_insert(e, true); break;
            case O_INSERT_RANGE: op_insert_range(e); break;
            case O_EMPLACE: op_emplace(e, false); break;
            case O_EMPLACE_HINT: op_emplace(e, true); break;
            case O_TRY_EMPLACE: op_try_emplace(e, false); break;
            case O_TRY_EMPLACE_HINT: op_try_emplace(e, true); break;
            case O_IOA: op_ioa(e, false); break;
            case O_IOA_HINT: op_ioa(e, true); break;
            case O_INDEX: op_index(e); break;
            case O_AT: op_at(e); break;
            case O_FIND: { int id = draw_present(e); s.log("find(", id, ")"); check_entry(e, id); break; }
            case O_COUNT: { s.log("lookups"); check_some_absent(e); break; }
            case O_ERASE_KEY: op_erase_key(e); break;
            case O_ERASE_IT: op_erase_it(e); break;
            case O_ERASE_RANGE: op_erase_range(e); break;
            case O_ERASE_IF: op_erase_if(e); break;
            case O_ERASE_LOOP: op_erase_loop(e); break;
            case O_CLEAR: op_clear(e); break;
            case O_RESERVE: op_reserve(e); break;
            case O_REHASH: op_rehash(e); break;
            case O_SHRINK: op_shrink(e); break;
            case O_MLF: op_mlf(e); break;
            case O_SCAN: s.log("scan"); check_all(e); break;
            case O_BULK_IN: op_bulk_in(e); break;
            case O_BULK_OUT: op_bulk_out(e); break;
            case O_CHURN: op_churn(e); break;
            default: {
                size_t ej = ents.size() > 1 ? s.draw(uint32_t(ents.size())) : ei;
                op_whole(op, ei, ej);
            }
        }
        check_size(ents[ei]);
        check_err("lifetime");
    }
    void start() { for (auto & e : ents) make_default(e); }
    void finish() { for (auto & e : ents) check_all(e); }
};

inline void draw_shape(Src & s, bool allow_weak = true) {
    G.hmode = int(s.draw(HMODES));
    static const int strong[] = {0, 1, 7, 8, 9, 10, 10};     // the home positions are spread, the distance is bounded
    if (!allow_weak) G.hmode = strong[G.hmode % 7];
    G.hparam = s.draw64();
}

}   // namespace pt
