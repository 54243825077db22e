// C08: a map of bounded size stays small and fast however long elements come and go.
#include "machine.hpp"
using namespace pt;

template <class M, class K, class V, bool Mixed>
void prop(Src & s) {
    reset_case();
    static const int modes[] = {0, 0, 1, 8, 5};
    G.hmode = Mixed ? modes[s.draw(5)] : 0;    // a hash that claims to be avalanching is taken as it is
    static const int sizes[] = {3, 12, 20, 40, 100, 300, 1000};
    int n = sizes[s.draw(7)];
    n = n - int(s.draw(uint32_t(n / 3 + 1)));
    int style = int(s.draw(5));
    int rounds = 400000 / 8;
    rounds = int(rounds / (1 + s.draw(4)));
    M m;
    bool res = s.chance(1, 3);
    if (res) m.reserve(size_t(n));
    size_t need;
    { M x; x.reserve(size_t(n) + 1); need = x.capacity(); }
    std::vector<int> live;
    int next = 0;
    uint64_t st = s.draw32();
    auto rnd = [&](uint32_t k) { st = st * 6364136223846793005ull + 1442695040888963407ull; return uint32_t((st >> 33) % k); };
    s.log("size ", n, " style ", style, " rounds ", rounds, " hash ", G.hmode, " reserve ", res);
    size_t maxcap = 0;
    for (int i = 0; i < n; i++) { m.emplace(mk<K>(next), mk<V>(next)); live.push_back(next++); }
    uint64_t changes = 0;
    auto ins = [&](int id) { auto r = m.emplace(mk<K>(id), mk<V>(id)); PBT_CHECK(r.second, "a fresh key is reported as present"); live.push_back(id); };
    auto del = [&](size_t i) { PBT_CHECK(m.erase(mk<K>(live[i])) == 1, "a present key is not erased"); int id = live[i]; live[i] = live.back(); live.pop_back(); return id; };
    size_t head = 0;
    for (int i = 0; i < rounds; i++) {
        size_t cap = m.capacity();
        switch (style) {
            case 0: {   // queue: the oldest goes
                int id = next - n; (void)head;
                PBT_CHECK(m.erase(mk<K>(id)) == 1, "a present key is not erased");
                PBT_CHECK(m.emplace(mk<K>(next), mk<V>(next)).second, "a fresh key is reported as present");
                next++;
                break;
            }
            case 1: del(rnd(uint32_t(live.size()))); ins(next++); break;            // random goes
            case 2: { int id = del(rnd(uint32_t(live.size()))); ins(id); break; }   // the same key comes back
            case 3: {                                                                // emptied and filled again
                if (i % 64 == 0) { while (!live.empty()) del(live.size() - 1); for (int k = 0; k < n; k++) ins(next++); i += n / 2; }
                break;
            }
            default: {                                                               // clear() and fill again
                if (i % 64 == 0) { m.clear(); live.clear(); for (int k = 0; k < n; k++) ins(next++); i += n / 2; }
                break;
            }
        }
        if (m.capacity() != cap) changes++;
        maxcap = std::max<size_t>(maxcap, m.capacity());
        PBT_CHECK(m.size() == size_t(n), "size() is ", m.size(), ", expected ", n);
        PBT_CHECK(m.capacity() <= 8 * need + 64, "a map that never holds more than ", n, " elements has capacity ", m.capacity(), " after ", i, " replacements; ", need, " is enough for its elements");
    }
    size_t k = 0;
    for (auto & p : m) { (void)p; k++; }
    PBT_CHECK(k == size_t(n), "iteration visits ", k, " of ", n, " elements");
    if (changes) s.label("capacity changed during the churn");
    if (maxcap > need) s.label("capacity above the need");
    if (maxcap > 2 * need) s.label("capacity above twice the need");
    if (maxcap > 4 * need) s.label("capacity above four times the need");
    if (rounds > 10 * n && n > 16) s.nontrivial();
}

#if PART == 0
PBT_TARGETS({"g15.int.int", prop<G15<int, int, SHash<int, true>, SEq<int>>, int, int, false>, 1});
#elif PART == 1
PBT_TARGETS({"g16.int.int", prop<G16<int, int, SHash<int, true>, SEq<int>>, int, int, false>, 1});
#elif PART == 2
PBT_TARGETS({"g15.str.int", prop<G15<std::string, int>, std::string, int, true>, 1});
#elif PART == 3
PBT_TARGETS({"g16.str.int", prop<G16<std::string, int>, std::string, int, true>, 1});
#elif PART == 4
PBT_TARGETS({"g15.int.na", prop<G15<int, int, SHash<int, false>, SEq<int>>, int, int, true>, 1});
#elif PART == 5
PBT_TARGETS({"g16.int.na", prop<G16<int, int, SHash<int, false>, SEq<int>>, int, int, true>, 1});
#endif
