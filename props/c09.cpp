// C09: the map follows the caller's hash and equality, whatever their quality: keys that compare equal are one key, the
// stored key is the first one, and any hash consistent with the equality gives the same contents.
#include "machine.hpp"
using namespace pt;

// Equality and hash look only at id; var tells equal keys apart.
struct CKey {
    int id = 0, var = 0;
    std::string pad;
    CKey() = default;
    CKey(int i, int v) : id(i), var(v), pad((i + v) % 3 ? "" : "some text longer than the small buffer of a string") {}
};
struct CHash {
    std::size_t operator()(const CKey & k) const { return std::size_t(shape(uint64_t(int64_t(k.id)), 0)); }
};
struct CHashAv : CHash { using is_avalanching = std::true_type; };
struct CEq {
    bool operator()(const CKey & a, const CKey & b) const { return a.id == b.id; }
};
// case-insensitive strings
inline char low(char c) { return c >= 'A' && c <= 'Z' ? char(c + 32) : c; }
struct SHashCI {
    std::size_t operator()(const std::string & k) const { uint64_t h = 7; for (char c : k) h = h * 131 + uint64_t(low(c)); return std::size_t(shape(h, 0)); }
};
struct SEqCI {
    bool operator()(const std::string & a, const std::string & b) const {
        if (a.size() != b.size()) return false;
        for (size_t i = 0; i < a.size(); i++) if (low(a[i]) != low(b[i])) return false;
        return true;
    }
};
// a plain key: equality and hash look only at id
struct PKey { int64_t id, var, junk; };
struct PHash { std::size_t operator()(const PKey & k) const { return std::size_t(shape(uint64_t(k.id), 0)); } };
struct PEq { bool operator()(const PKey & a, const PKey & b) const { return a.id == b.id; } };
// integers that are equal if they agree in all but the low five bits
struct IHash { std::size_t operator()(int k) const { return std::size_t(shape(uint64_t(int64_t(k >> 5)), 0)); } };
struct IEq { bool operator()(int a, int b) const { return (a >> 5) == (b >> 5); } };
template <class K> struct Gen;
template <> struct Gen<PKey> {
    static PKey make(int id, int var) { return PKey{id, var, var * 77}; }
    static std::pair<int, int> parts(const PKey & k) { return {int(k.id), k.junk == k.var * 77 ? int(k.var) : -1}; }
};
template <> struct Gen<int> {
    static int make(int id, int var) { return id * 32 + (var & 31); }
    static std::pair<int, int> parts(int k) { return {k >> 5, k & 31}; }
};
template <> struct Gen<CKey> {
    static CKey make(int id, int var) { return CKey(id, var); }
    static std::pair<int, int> parts(const CKey & k) { return {k.id, k.var}; }
};
template <> struct Gen<std::string> {
    static std::string make(int id, int var) {
        std::string s = "k" + std::to_string(id) + "abcdefghijklmnopq";
        for (size_t i = 0; i < s.size(); i++) if (((var >> (i % 5)) & 1) && s[i] >= 'a') s[i] = char(s[i] - 32);
        return s;
    }
    static std::pair<int, int> parts(const std::string & s) {
        int id = atoi(s.c_str() + 1);
        for (int v = 0; v < 32; v++) if (make(id, v) == s) return {id, v};
        return {id, -1};
    }
};

template <class M, class K>
void prop(Src & s) {
    reset_case();
    draw_shape(s, !is_robin<M>::value);
    static const int sizes[] = {3, 20, 60, 200, 1500};
    int n = sizes[s.weighted({2, 4, 4, 4, 1})];
    int stride = 1 << s.draw(13);
    if (weak_shape()) n = std::min(n, 500);
    M m;
    struct E { int var, val; };
    std::map<int, E> ref;
    int nv = 1;
    bool equal_present = false, grew = false;
    auto key = [&] { return int(s.draw(uint32_t(n))) * stride; };
    auto check = [&](int id) {
        auto r = ref.find(id);
        const M & cm = m;
        K k = Gen<K>::make(id, int(s.draw(32)));
        auto it = cm.find(k);
        PBT_CHECK((it != cm.end()) == (r != ref.end()), "find(", id, ") is wrong, present=", r != ref.end());
        PBT_CHECK(cm.contains(k) == (r != ref.end()), "contains(", id, ") is wrong");
        PBT_CHECK(cm.count(k) == (r != ref.end() ? 1u : 0u), "count(", id, ") is wrong");
        if (it != cm.end()) {
            auto p = Gen<K>::parts(it->first);
            PBT_CHECK(p.first == id, "find(", id, ") returns the element of key ", p.first);
            PBT_CHECK(p.second == r->second.var, "the stored key of ", id, " is variant ", p.second, ", first inserted was ", r->second.var);
            PBT_CHECK(it->second == r->second.val, "find(", id, ") has value ", it->second, ", expected ", r->second.val);
        }
    };
    auto scan = [&] {
        PBT_CHECK(m.size() == ref.size(), "size() is ", m.size(), ", expected ", ref.size());
        size_t c = 0;
        std::set<int> seen;
        for (auto & p : m) {
            auto q = Gen<K>::parts(p.first);
            auto r = ref.find(q.first);
            PBT_CHECK(r != ref.end() && seen.insert(q.first).second, "iteration visits key ", q.first, " wrongly or twice");
            PBT_CHECK(q.second == r->second.var && p.second == r->second.val, "iteration: element of key ", q.first, " is wrong");
            c++;
        }
        PBT_CHECK(c == ref.size(), "iteration visits ", c, " of ", ref.size(), " elements");
        for (auto & r : ref) check(r.first);
    };
    auto put = [&](int id, int var, int form) {
        int v = nv++;
        bool absent = !ref.count(id);
        size_t cap = m.capacity();
        bool ins = absent;
        bool assign = false;
        typename M::iterator it;
        K k = Gen<K>::make(id, var);
        switch (form) {
            case 0: { auto r = m.insert(typename M::value_type(k, v)); it = r.first; ins = r.second; break; }
            case 1: { auto r = m.emplace(k, v); it = r.first; ins = r.second; break; }
            case 2: { auto r = m.try_emplace(k, v); it = r.first; ins = r.second; break; }
            case 3: { auto r = m.insert_or_assign(k, v); it = r.first; ins = r.second; assign = true; break; }
            case 4: { auto r = m.insert_or_assign(std::move(k), v); it = r.first; ins = r.second; assign = true; break; }
            case 5: { m[k] = v; it = m.find(k); assign = true; break; }
            case 6: { m[std::move(k)] = v; it = m.find(Gen<K>::make(id, 0)); assign = true; break; }
            default: { auto r = m.emplace(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(v)); it = r.first; ins = r.second; break; }
        }
        PBT_CHECK(ins == absent, "insertion of a key equal to ", absent ? "no" : "a present", " key reports ", ins);
        if (absent) ref[id] = E{var, v};
        else { equal_present = equal_present || ref[id].var != var; if (assign) ref[id].val = v; }
        PBT_CHECK(it != m.end() && Gen<K>::parts(it->first).first == id && it->second == ref[id].val, "insertion returns a wrong element for key ", id);
        if (cap > 1 && m.capacity() != cap) grew = true;
    };
    s.log("n ", n, " stride ", stride, " hash ", G.hmode);
    s.set_ops(40);
    while (s.more()) {
        int op = s.weighted({10, 5, 6, 2, 3, 1});
        switch (op) {
            case 0: { int id = key(), var = int(s.draw(32)), f = int(s.draw(8)); s.log("put ", id, " variant ", var, " form ", f); put(id, var, f); break; }
            case 1: { int a = int(s.draw(uint32_t(n))), c = 1 + int(s.draw(uint32_t(std::min(n, 600)))), var = int(s.draw(32)), f = int(s.draw(8));
                      s.log("put ", c, " keys from ", a, " variant ", var, " form ", f);
                      for (int i = 0; i < c; i++) put(((a + i) % n) * stride, (var + i) % 32, f);
                      scan(); break; }
            case 2: { int id = key(); s.log("erase ", id); size_t r = m.erase(Gen<K>::make(id, int(s.draw(32))));
                      PBT_CHECK(r == ref.erase(id), "erase(", id, ") returns ", r); break; }
            case 3: { int a = int(s.draw(uint32_t(n))), c = 1 + int(s.draw(uint32_t(n))); s.log("erase ", c, " keys from ", a);
                      for (int i = 0; i < c; i++) { int id = ((a + i) % n) * stride; size_t r = m.erase(Gen<K>::make(id, i % 32)); PBT_CHECK(r == ref.erase(id), "erase(", id, ") returns ", r); }
                      scan(); break; }
            case 4: check(key()); break;
            default: s.log("rehash"); m.rehash(m.size() + s.draw(200) + 1); scan();
        }
        PBT_CHECK(m.size() == ref.size(), "size() is ", m.size(), ", expected ", ref.size());
    }
    scan();
    if (weak_shape()) s.label("many keys of one hash");
    if (equal_present) s.label("an equal but different key was inserted");
    if (equal_present && grew) s.nontrivial();
}
#if PART == 0
PBT_TARGETS({"g15.ckey", prop<G15<CKey, int, CHash, CEq>, CKey>, 1});
#elif PART == 1
PBT_TARGETS({"g16.ckey", prop<G16<CKey, int, CHash, CEq>, CKey>, 1});
#elif PART == 2
PBT_TARGETS({"g15.ckey.av", prop<G15<CKey, int, CHashAv, CEq>, CKey>, 1});
#elif PART == 3
PBT_TARGETS({"g16.ckey.av", prop<G16<CKey, int, CHashAv, CEq>, CKey>, 1});
#elif PART == 4
PBT_TARGETS({"g15.ci", prop<G15<std::string, int, SHashCI, SEqCI>, std::string>, 1});
#elif PART == 5
PBT_TARGETS({"g16.ci", prop<G16<std::string, int, SHashCI, SEqCI>, std::string>, 1});
#elif PART == 6
PBT_TARGETS({"g15.int.mod", prop<G15<int, int, IHash, IEq>, int>, 1}, {"g16.plain", prop<G16<PKey, int, PHash, PEq>, PKey>, 1});
#elif PART == 7
PBT_TARGETS({"g16.int.mod", prop<G16<int, int, IHash, IEq>, int>, 1}, {"g15.plain", prop<G15<PKey, int, PHash, PEq>, PKey>, 1});
#endif
