// C20: arguments of other types than the key and the value act exactly as the key and value they convert to.
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string_view>
#include <tuple>
#include "maps.hpp"
#include "engine.hpp"
using namespace pt;
using namespace pbt;

// A key type of the caller's that can be made from numbers and texts.
struct Name {
    std::string s;
    Name(const std::string & x) : s(x) {}
    Name(std::string && x) : s(std::move(x)) {}
    explicit Name(int i) : s("#" + std::to_string(i)) {}
    Name(int a, int b) : s("#" + std::to_string(a * 10 + b)) {}
    bool operator==(const Name & o) const { return s == o.s; }
    bool operator<(const Name & o) const { return s < o.s; }
};
struct NameHash { std::size_t operator()(const Name & n) const { return std::hash<std::string>()(n.s); } };
enum Color { Red = 1, Green = 300, Blue = 70000 };

template <class T> std::string show(const T & x) { if constexpr (std::is_arithmetic<T>::value) return std::to_string(x); else if constexpr (std::is_same<T, Name>::value) return x.s; else return x; }

// One key argument: a function object that is called with the argument, as an lvalue or an rvalue of its own type.
template <class K> struct Args;
struct TextArgs {
    static constexpr int n = 7;
    template <class F>
    static void with(int kind, int id, F f) {
        std::string s = text(id);
        switch (kind) {
            case 0: { const char * p = s.c_str(); f(p, std::string(p)); break; }
            case 1: { f(s, std::string(s)); break; }
            case 2: { std::string c(s); f(std::move(c), s); break; }
            case 3: { std::string_view v(s); f(v, s); break; }
            case 4: { char a[4] = {'a', char('a' + id % 26), char('a' + id / 26 % 26), 0}; f(a, std::string(a)); break; }
            case 5: { const char a[3] = {char('A' + id % 26), char('a' + id / 26 % 26), 0}; f(a, std::string(a)); break; }
            default: { char * p = &s[0]; f(p, std::string(p)); break; }
        }
    }
    static std::string text(int id) { std::string s = "k" + std::to_string(id); if (id % 3 == 0) s += std::string(size_t(id % 40), 'x'); return s; }
};
template <> struct Args<std::string> : TextArgs {};
template <> struct Args<Name> {
    static constexpr int n = 4;
    template <class F>
    static void with(int kind, int id, F f) {
        std::string s = "#" + std::to_string(id);
        switch (kind) {
            case 0: f(id, Name(id)); break;
            case 1: { std::string c(s); f(std::move(c), Name(s)); break; }
            case 2: f(s, Name(s)); break;
            default: { short h = short(id); f(h, Name(h)); break; }
        }
    }
};
struct NumArgs {
    static constexpr int n = 9;
    template <class K, class F>
    static void with_(int kind, int id, F f) {
        static const int spread[] = {0, 1, -1, 255, 256, 300, -128, 127, 65536, 70000, -70000, INT_MAX, INT_MIN, 44};
        int v = id % 2 ? spread[size_t(id) / 2 % 14] : id;
        switch (kind) {
            case 0: f(v, K(v)); break;
            case 1: { long long x = (long long)v * 4294967297ll; f(x, K(x)); break; }
            case 2: { double d = double(id % 100) + 0.5; f(d, K(d)); break; }
            case 3: { signed char c = (signed char)v; f(c, K(c)); break; }
            case 4: { unsigned short u = (unsigned short)v; f(u, K(u)); break; }
            case 5: { Color c = id % 3 == 0 ? Red : id % 3 == 1 ? Green : Blue; f(c, K(c)); break; }
            case 6: { const unsigned u = unsigned(v); f(u, K(u)); break; }
            case 7: { bool b = id & 1; f(b, K(b)); break; }
            default: { float x = float(id % 100) - 0.25f; if (std::is_unsigned<K>::value && x < 0) x = 0; f(std::move(x), K(x)); break; }
        }
    }
};
template <> struct Args<unsigned char> : NumArgs { template <class F> static void with(int k, int id, F f) { with_<unsigned char>(k, id, f); } };
template <> struct Args<short> : NumArgs { template <class F> static void with(int k, int id, F f) { with_<short>(k, id, f); } };
template <> struct Args<unsigned long> : NumArgs { template <class F> static void with(int k, int id, F f) { with_<unsigned long>(k, id, f); } };
template <> struct Args<int> : NumArgs { template <class F> static void with(int k, int id, F f) { with_<int>(k, id, f); } };

// One value argument.
template <class V, class F>
static void with_value(int kind, int v, F f) {
    if constexpr (std::is_same<V, std::string>::value) {
        std::string s = std::to_string(v) + std::string(size_t(v % 30), 'v');
        switch (kind % 4) {
            case 0: { const char * p = s.c_str(); f(p, V(s)); break; }
            case 1: { std::string c(s); f(std::move(c), V(s)); break; }
            case 2: { std::string_view w(s); f(w, V(s)); break; }
            default: f(s, V(s)); break;
        }
    } else {
        switch (kind % 4) {
            case 0: f(v, V(v)); break;
            case 1: { double d = v + 0.5; f(d, V(d)); break; }
            case 2: { long long x = (long long)v << 20; f(x, V(x)); break; }
            default: { short h = short(v); f(h, V(h)); break; }
        }
    }
}

template <class K, class T> constexpr bool narrows = std::is_arithmetic<K>::value && !std::is_same<K, std::decay_t<T>>::value;

template <class M, class K, class V>
void prop(Src & s) {
    std::map<K, V> ref;
    M m;
    const bool R = is_robin<M>::value;
    static const int sizes[] = {3, 8, 30, 200, 1000};
    int n = sizes[s.draw(5)];
    bool other = false, present_other = false;
    size_t grew = 0;
    auto same = [&](const char * what) {
        PBT_CHECK(m.size() == ref.size(), what, ": size() is ", m.size(), ", expected ", ref.size());
        size_t c = 0;
        std::set<K> seen;
        for (auto & p : m) {
            auto r = ref.find(p.first);
            PBT_CHECK(r != ref.end(), what, ": the map holds key ", show(p.first), ", which was not inserted");
            PBT_CHECK(seen.insert(p.first).second, what, ": the map holds key ", show(p.first), " twice");
            PBT_CHECK(p.second == r->second, what, ": key ", show(p.first), " has value ", show(p.second), ", expected ", show(r->second));
            c++;
        }
        PBT_CHECK(c == ref.size(), what, ": iteration visits ", c, " of ", ref.size(), " elements");
        for (auto & r : ref) PBT_CHECK(m.find(r.first) != m.end(), what, ": find() misses key ", show(r.first));
    };
    s.log("keys ", n);
    s.set_ops(40);
    while (s.more()) {
        int op = s.weighted({8, 4, 4, 4, 6, 3, 6, 3, 4, 5, 4, 4, 2, 2});
        int kk = int(s.draw(uint32_t(Args<K>::n))), id = int(s.draw(uint32_t(n))), vk = int(s.draw(4)), v = int(s.draw(30000));
        static const char * names[] = {"emplace(a, b)", "emplace(pair)", "insert(pair)", "insert(hint, pair)", "try_emplace(a, b)", "try_emplace(hint, a, b)",
            "insert_or_assign(a, b)", "insert_or_assign(hint, a, b)", "operator[](a)", "lookups of a", "erase(a)", "emplace_hint(a, b)", "piecewise emplace", "a range of pairs"};
        s.log(names[op], " key argument ", kk, " of ", id, " value argument ", vk, " of ", v);
        size_t cap = m.capacity();
        Args<K>::with(kk, id, [&](auto && a, const K & k) {
            using A = std::decay_t<decltype(a)>;
            with_value<V>(vk, v, [&](auto && b, const V & val) {
                using B = std::decay_t<decltype(b)>;
                constexpr bool implicit = std::is_convertible<A, K>::value && std::is_convertible<B, V>::value, pairs = implicit || !is_robin<M>::value;
                const bool absent = !ref.count(k);
                bool ins = absent, lv = std::is_lvalue_reference<decltype(a)>::value;
                (void)lv;
                if constexpr (!std::is_same<A, K>::value) { other = true; if (!absent) present_other = true; }
                auto result = [&](auto it, const V & want) {
                    PBT_CHECK(it != m.end() && it->first == k && it->second == want, names[op], " does not return the element of key ", show(k));
                };
                switch (op) {
                    case 0: { auto r = m.emplace(std::forward<decltype(a)>(a), std::forward<decltype(b)>(b)); ins = r.second; if (absent) ref.emplace(k, val); result(r.first, ref.at(k)); break; }
                    case 1: { if constexpr (!pairs) break; else { std::pair<A, B> p(a, b); auto r = v % 2 ? m.emplace(std::move(p)) : m.emplace(p); ins = r.second; if (absent) ref.emplace(k, val); result(r.first, ref.at(k)); } break; }
                    case 2: { if constexpr (!pairs) break; else { std::pair<A, B> p(a, b);
                              if constexpr (implicit) { auto r = v % 2 ? m.insert(std::move(p)) : m.insert(p); ins = r.second; if (absent) ref.emplace(k, val); result(r.first, ref.at(k)); }
                              else { auto r = m.emplace(p); ins = r.second; if (absent) ref.emplace(k, val); result(r.first, ref.at(k)); }
                              } break; }
                    case 3: { if constexpr (!pairs) break; else { std::pair<A, B> p(a, b); auto it = m.insert(m.cend(), p); if (absent) ref.emplace(k, val); result(it, ref.at(k)); } break; }
                    case 4: { if constexpr ((!is_robin<M>::value || std::is_convertible<A, K>::value)) { auto r = m.try_emplace(std::forward<decltype(a)>(a), std::forward<decltype(b)>(b)); ins = r.second; if (absent) ref.emplace(k, val); result(r.first, ref.at(k)); } break; }
                    case 5: { if constexpr ((!is_robin<M>::value || std::is_convertible<A, K>::value)) { auto it = m.try_emplace(m.cend(), std::forward<decltype(a)>(a), std::forward<decltype(b)>(b)); if (absent) ref.emplace(k, val); result(it, ref.at(k)); } break; }
                    case 6: { auto r = m.insert_or_assign(std::forward<decltype(a)>(a), std::forward<decltype(b)>(b)); ins = r.second; ref.insert_or_assign(k, val); result(r.first, val); break; }
                    case 7: { auto it = m.insert_or_assign(m.cend(), std::forward<decltype(a)>(a), std::forward<decltype(b)>(b)); ref.insert_or_assign(k, val); result(it, val); break; }
                    case 8: { if constexpr (std::is_convertible<A, K>::value) { V & x = m[std::forward<decltype(a)>(a)]; if (absent) { PBT_CHECK(x == V(), "operator[] of an absent key gives ", show(x)); }
                                                  else PBT_CHECK(x == ref.at(k), "operator[] gives ", show(x));
                                                  x = val; ref[k] = val; } break; }
                    case 9: {
                        const M & cm = m;
                        auto have = [&](bool got, const char * w) { PBT_CHECK(got == !absent, w, " of key ", show(k), " is ", got); };
                        if constexpr (std::is_convertible<A, K>::value) {
                            have(m.contains(a), "contains()"); have(m.count(a) == 1, "count()");
                            try { V & x = m.at(a); have(true, "at()"); PBT_CHECK(x == ref.at(k), "at() gives ", show(x)); } catch (const std::out_of_range &) { have(false, "at()"); }
                        }
                        if constexpr (!is_robin<M>::value || std::is_convertible<A, K>::value) {
                            auto it = m.find(a); have(it != m.end(), "find()"); if (!absent) result(it, ref.at(k));
                            auto ci = cm.find(a); have(ci != cm.end(), "find() const"); if (!absent) PBT_CHECK(ci->first == k, "find() const finds ", show(ci->first));
                        }
                        break; }
                    case 10: { if constexpr (std::is_convertible<A, K>::value) { size_t r = m.erase(a); PBT_CHECK(r == ref.erase(k), "erase() returns ", r); } break; }
                    case 11: { auto it = m.emplace_hint(m.cbegin(), std::forward<decltype(a)>(a), std::forward<decltype(b)>(b)); if (absent) ref.emplace(k, val); result(it, ref.at(k)); break; }
                    case 12: { auto r = m.emplace(std::piecewise_construct, std::forward_as_tuple(std::forward<decltype(a)>(a)), std::forward_as_tuple(std::forward<decltype(b)>(b)));
                               ins = r.second; if (absent) ref.emplace(k, val); result(r.first, ref.at(k)); break; }
                    default: if constexpr (pairs) {
                        std::list<std::pair<A, B>> l;
                        l.emplace_back(a, b); l.emplace_back(a, b);
                        if (v % 3 == 0) m.insert(l.begin(), l.end());
                        else { std::vector<std::pair<A, B>> w(l.begin(), l.end()); m.insert(w.data(), w.data() + w.size()); M fresh(w.begin(), w.end());
                               PBT_CHECK(fresh.size() == 1 && fresh.find(k) != fresh.end(), "the constructor from a range of pairs holds ", fresh.size(), " elements"); }
                        if (absent) ref.emplace(k, val);
                    }
                }
                PBT_CHECK(ins == absent, names[op], " of ", absent ? "an absent" : "a present", " key ", show(k), " reports ", ins);
                if constexpr (std::is_same<A, std::string>::value) {
                    if (lv) PBT_CHECK(K(a) == k, names[op], " changes its lvalue key argument");
                }
            });
        });
        if (m.capacity() != cap && cap > 1) grew++;
        if (!R || n < 300 || s.draw(8) == 0) same(names[op]);
    }
    same("at the end");
    if (other) s.label("arguments of other types");
    if (grew) s.label("the map grew");
    if (present_other && ref.size() > 2) s.nontrivial();
}

#if PART == 0
PBT_TARGETS({"g15.str.str", prop<G15<std::string, std::string>, std::string, std::string>, 1}, {"g15.u8.int", prop<G15<unsigned char, int, std::hash<unsigned char>, std::equal_to<>>, unsigned char, int>, 1});
#elif PART == 1
PBT_TARGETS({"g16.str.str", prop<G16<std::string, std::string>, std::string, std::string>, 1}, {"g16.u8.int", prop<G16<unsigned char, int, std::hash<unsigned char>, std::equal_to<>>, unsigned char, int>, 1});
#elif PART == 2
PBT_TARGETS({"g15.name.int", prop<G15<Name, int, NameHash>, Name, int>, 1}, {"g15.short.str", prop<G15<short, std::string>, short, std::string>, 1});
#elif PART == 3
PBT_TARGETS({"g16.name.int", prop<G16<Name, int, NameHash>, Name, int>, 1}, {"g16.long.str", prop<G16<unsigned long, std::string, std::hash<unsigned long>, std::equal_to<>>, unsigned long, std::string>, 1});
#elif PART == 4
PBT_TARGETS({"rh.str.str", prop<RH<std::string, std::string>, std::string, std::string>, 1});
#elif PART == 5
PBT_TARGETS({"rh.int.int", prop<RH<int, int>, int, int>, 1});
#endif
