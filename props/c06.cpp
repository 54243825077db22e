// C06: the capacity contract of reserve, rehash, shrink_to_fit, clear and the load factor.
#include "machine.hpp"
using namespace pt;

template <class K, class V> using TA = TAlloc<std::pair<const K, V>, 0>;

template <class M, class K, class V>
struct Cap {
    static constexpr bool R = is_robin<M>::value;    // may grow earlier, when an element is too far from its home
    Src & s;
    M m;
    std::set<int> ref;
    int next = 0;
    bool nt = false;
    Cap(Src & src) : s(src) {}

    void add() { while (!m.emplace(mk<K>(next), mk<V>(next)).second) next++; ref.insert(next++); }
    void check(const char * what) {
        PBT_CHECK(m.size() == ref.size(), what, ": size() is ", m.size(), ", expected ", ref.size());
        size_t n = 0;
        for (auto & p : m) { PBT_CHECK(ref.count(idof(p.first)) && idof(p.second) == idof(p.first), what, ": iteration visits a wrong element ", idof(p.first)); PBT_CHECK(++n <= ref.size(), what, ": iteration does not end"); }
        PBT_CHECK(n == ref.size(), what, ": iteration visits ", n, " of ", ref.size(), " elements");
        for (int id : ref) { auto it = m.find(mk<K>(id)); PBT_CHECK(it != m.end() && idof(it->first) == id, what, ": key ", id, " is lost"); }
        PBT_CHECK(m.capacity() >= m.size(), what, ": capacity() ", m.capacity(), " is less than size() ", m.size());
        if constexpr (!R) PBT_CHECK(m.max_size() >= m.size(), what, ": max_size() is less than size()");
        float lf = m.load_factor();
        float want = m.capacity() ? float(m.size()) / float(m.capacity()) : 0.0f;
        PBT_CHECK(lf >= want - 0.001f && lf <= want + 0.001f, what, ": load_factor() is ", lf, ", size()/capacity() is ", want);
        PBT_CHECK(lf <= 1.0f, what, ": load_factor() is ", lf);
        if (m.capacity() > 64) PBT_CHECK(lf <= m.max_load_factor() + 0.01f || shrunk_read_only, what, ": load_factor() ", lf, " exceeds max_load_factor() ", m.max_load_factor(), " at capacity ", m.capacity());
    }
    bool shrunk_read_only = false;
    // The capacity of an empty map that has room for n elements.
    size_t fresh_for(size_t n) {
        M x;
        x.max_load_factor(m.max_load_factor());
        if (n) x.reserve(n);
        return x.capacity();
    }
    void fill_to(size_t n) { while (ref.size() < n) add(); }
    void step() {
        int op = int(s.draw(10));
        size_t n = s.chance(1, 5) ? s.draw(6000) : s.draw(300);
        size_t cap = m.capacity(), sz = ref.size();
        switch (op) {
            case 0: {
                s.log("insert ", n);
                for (size_t i = 0; i < n; i++) add();
                if (n && ref.size() > 0) shrunk_read_only = shrunk_read_only && (R || m.capacity() == cap);
                // doubling at most: no more capacity than four times what the elements need
                if (!R) PBT_CHECK(m.capacity() <= std::max(cap, 4 * fresh_for(ref.size())), "insertion of ", n, " elements into ", sz, " gives capacity ", m.capacity(), ", enough is ", fresh_for(ref.size()));
                check("insert");
                break;
            }
            case 1: {
                s.log("erase ", n);
                size_t i = 0;
                for (auto it = ref.begin(); it != ref.end() && i < n; i++) { PBT_CHECK(m.erase(mk<K>(*it)) == 1, "erase of a present key fails"); it = ref.erase(it); }
                PBT_CHECK(m.capacity() == cap, "erase(key) changes the capacity");
                check("erase");
                break;
            }
            case 2: {   // reserve, then insert up to the reserved number: no growth
                if (s.chance(1, 4)) n = s.draw(uint32_t(sz + 1));   // less than the size, possibly 0
                else if (n < sz) n = sz;
                s.log("reserve(", n, ") at size ", sz);
                m.reserve(n);
                PBT_CHECK(m.capacity() >= n, "reserve(", n, ") gives capacity ", m.capacity());
                if (!R) PBT_CHECK(m.capacity() >= cap || (n == 0 && sz == 0), "reserve(", n, ") shrinks the capacity from ", cap, " to ", m.capacity());
                if (R) PBT_CHECK(double(m.capacity()) * m.max_load_factor() + 0.01 >= double(n), "reserve(", n, ") gives capacity ", m.capacity(), " with max_load_factor() ", m.max_load_factor());
                PBT_CHECK(m.capacity() <= std::max({cap, 2 * fresh_for(R ? std::max(n, sz) : n), size_t(R ? 64 : 0)}), "reserve(", n, ") gives capacity ", m.capacity(), " from ", cap, ", an empty map gets ", fresh_for(n));
                if (m.capacity() != cap) shrunk_read_only = false;
                check("reserve");
                if (m.capacity() != cap && n >= sz && n) {
                    // a table without erased elements
                    size_t c = m.capacity();
                    fill_to(n);
                    if (!R) PBT_CHECK(m.capacity() == c, "reserve(", n, ") at size ", sz, ", then insertion up to ", n, " elements changes the capacity from ", c, " to ", m.capacity());
                    if (n > 64) nt = true;
                }
                break;
            }
            case 3: {
                if (n == 0 && sz == 0) return;
                s.log("rehash(", n, ") at size ", sz);
                m.rehash(n);
                if constexpr (!R) PBT_CHECK(m.bucket_count() >= n, "rehash(", n, ") gives bucket_count() ", m.bucket_count());
                PBT_CHECK(m.capacity() >= sz, "rehash(", n, ") gives capacity ", m.capacity(), " at size ", sz);
                shrunk_read_only = false;
                check("rehash");
                break;
            }
            case 4: {
                bool ro = s.chance(1, 2);
                s.log("shrink_to_fit(", ro, ") at size ", sz, " capacity ", cap);
                m.shrink_to_fit(ro);
                size_t want = fresh_for(sz);
                PBT_CHECK(m.capacity() <= std::max<size_t>(R ? 4 * want : want, 64) , "shrink_to_fit(", ro, ") at size ", sz, " gives capacity ", m.capacity(), ", an empty map that reserves the size gets ", want);
                shrunk_read_only = ro;
                check("shrink_to_fit");
                if (sz > 64 && m.capacity() < cap) { nt = true; s.label("shrunk"); }
                break;
            }
            case 5: {
                bool d = s.chance(1, 3);
                s.log("clear(", d, ")");
                m.clear(d);
                ref.clear();
                if (!d) PBT_CHECK(m.capacity() == cap, "clear() changes the capacity from ", cap, " to ", m.capacity());
                else PBT_CHECK(m.capacity() <= cap, "clear(true) enlarges the capacity");
                if (m.capacity() != cap) shrunk_read_only = false;
                check("clear");
                PBT_CHECK(m.begin() == m.end(), "a cleared map is not empty");
                if (!d && cap > 64 && s.chance(1, 2)) {
                    // everything that fitted a fresh map fits again
                    size_t k = size_t(double(cap) * m.max_load_factor()) * 9 / 10;
                    fill_to(k);
                    if (!R) PBT_CHECK(m.capacity() == cap, "after clear(), ", k, " elements do not fit the capacity of ", cap);
                    shrunk_read_only = false;
                    nt = true;
                    s.label("refilled after clear");
                }
                break;
            }
            case 6: {
                float f = float(s.draw(25)) / 20.0f - 0.1f;
                s.log("max_load_factor(", f, ") at size ", sz, " capacity ", cap);
                m.max_load_factor(f);
                float g = m.max_load_factor();
                PBT_CHECK(g > 0.0f && g <= 1.0f, "max_load_factor() is ", g, " after setting ", f);
                if (f >= 0.5f && f <= 0.6f) PBT_CHECK(g > f - 0.02f && g < f + 0.02f, "max_load_factor() is ", g, " after setting ", f);
                size_t c1 = m.capacity();
                PBT_CHECK(c1 <= std::max({cap, (R ? 2 : 1) * fresh_for(sz), size_t(R ? 64 : 0)}), "max_load_factor(", f, ") gives capacity ", c1, " from ", cap, " at size ", sz);
                m.max_load_factor(f);
                PBT_CHECK(m.max_load_factor() == g && m.capacity() == c1, "setting the same max_load_factor(", f, ") again changes the map");
                PBT_CHECK(c1 >= cap, "max_load_factor() shrinks the capacity");
                if (c1 != cap) shrunk_read_only = false;
                shrunk_read_only = false;
                check("max_load_factor");
                break;
            }
            case 7: {
                s.log("construction with capacity ", n);
                m = M(n);
                ref.clear();
                shrunk_read_only = false;
                PBT_CHECK(m.size() == 0 && m.capacity() >= n, "construction with capacity ", n, " gives ", m.capacity());
                check("construction");
                size_t c = m.capacity();
                fill_to(n);
                if (!R) PBT_CHECK(m.capacity() == c, "construction with capacity ", n, ", then insertion of ", n, " elements changes the capacity from ", c, " to ", m.capacity());
                if (n > 64) nt = true;
                break;
            }
            case 8: {
                // More than any memory holds: refused, and nothing changes.
                int sh = 36 + int(s.draw(29));
                size_t d = s.draw(9), base = sh == 64 ? size_t(0) : size_t(1) << sh;
                size_t h = sh == 64 || s.chance(1, 2) ? base - 1 - d : base + d;
                int how = int(s.draw(3));
                s.log(how == 0 ? "reserve(" : how == 1 ? "rehash(" : "construction with capacity ", h, ")");
                bool threw = false;
                try {
                    if (how == 0) m.reserve(h);
                    else if (how == 1) m.rehash(h);
                    else { M x(h); }
                } catch (const std::exception &) { threw = true; }
                PBT_CHECK(threw, "a request of capacity ", h, " that cannot be met returns without an exception");
                PBT_CHECK(m.capacity() == cap, "a capacity request that failed changes the capacity");
                check("a capacity request that failed");
                if (sz) nt = true;
                break;
            }
            default: {
                s.log("copy");
                if constexpr (std::is_copy_constructible<V>::value) {
                    M x(static_cast<const M &>(m));
                    PBT_CHECK(x.max_load_factor() == m.max_load_factor(), "a copy has max_load_factor() ", x.max_load_factor(), ", the original ", m.max_load_factor());
                    PBT_CHECK(x.capacity() <= std::max({m.capacity(), 2 * fresh_for(sz), size_t(R ? 64 : 0)}), "a copy of ", sz, " elements has capacity ", x.capacity(), ", the original ", m.capacity());
                    if (s.chance(1, 2)) { m = std::move(x); shrunk_read_only = false; }
                    check("copy");
                }
                break;
            }
        }
    }
};

template <class M, class K, class V>
void prop(Src & s) {
    reset_case();
    G.hmode = 0;
    Cap<M, K, V> c(s);
    s.set_ops(14);
    while (s.more()) c.step();
    if (c.nt) s.nontrivial();
}

#if PART == 0
PBT_TARGETS({"g15.int.int", prop<G15<int, int, std::hash<int>, std::equal_to<int>, TA<int, int>>, int, int>, 1});
#elif PART == 1
PBT_TARGETS({"g16.int.int", prop<G16<int, int, std::hash<int>, std::equal_to<int>, TA<int, int>>, int, int>, 1});
#elif PART == 2
PBT_TARGETS({"g15.str.move", prop<G15<std::string, MoveOnly, std::hash<std::string>, std::equal_to<std::string>, TA<std::string, MoveOnly>>, std::string, MoveOnly>, 1});
#elif PART == 3
PBT_TARGETS({"g16.obj.obj", prop<G16<KObj, VObj, SHash<KObj, true>, SEq<KObj>, TA<KObj, VObj>>, KObj, VObj>, 1});
#elif PART == 4
PBT_TARGETS({"rh.int.int", prop<RH<int, int, SHash<int, false>, SEq<int>, TA<int, int>>, int, int>, 1});
#elif PART == 5
PBT_TARGETS({"rh.obj.obj", prop<RH<KObj, VObj, SHash<KObj, false>, SEq<KObj>, TA<KObj, VObj>>, KObj, VObj>, 1});
#elif PART == 6
PBT_TARGETS({"rhl.hash.obj.int", prop<RHL<false, true, KObj, int, SHash<KObj, false>, SEq<KObj>, TA<KObj, int>>, KObj, int>, 1});
#endif
