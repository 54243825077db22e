// C19: operations on a const map write nothing: with the map object and all of its memory write-protected, every
// const operation works and gives the same results, so any number of threads may read at once.
#include "machine.hpp"
#include <sys/mman.h>
using namespace pt;

// All memory of a case comes from one arena of whole pages that can be protected.
struct Arena {
    char * base = nullptr;
    size_t size = size_t(32) << 20, used = 0;
    bool locked = false;
    void init() {
        if (!base) { base = static_cast<char *>(mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)); }
        unlock();
        used = 0;
    }
    void * get(size_t n, size_t al) {
        used = (used + al - 1) & ~(al - 1);
        if (used + n > size) throw std::bad_alloc();
        void * p = base + used;
        used += n;
        return p;
    }
    void lock() { if (mprotect(base, (used + 4095) & ~size_t(4095), PROT_READ)) perror("mprotect"); locked = true; }
    void unlock() { if (locked && mprotect(base, size, PROT_READ | PROT_WRITE)) perror("mprotect"); locked = false; }
};
inline Arena & arena() { static Arena a; return a; }

template <typename T>
struct AAlloc {
    using value_type = T;
    AAlloc() = default;
    template <typename U> AAlloc(const AAlloc<U> &) {}
    T * allocate(size_t n) { return static_cast<T *>(arena().get(n * sizeof(T), 64)); }
    void deallocate(T *, size_t) {}
    friend bool operator==(const AAlloc &, const AAlloc &) { return true; }
    friend bool operator!=(const AAlloc &, const AAlloc &) { return false; }
};

template <class M, class K, class V>
void prop(Src & s) {
    reset_case();
    draw_shape(s, !is_robin<M>::value);
    static const int sizes[] = {0, 3, 30, 120, 1000};
    int n = sizes[s.draw(5)];
    if (weak_shape()) n = std::min(n, 120);
    arena().init();
    static const int strides[] = {1, 7, 64};
    int stride = strides[s.draw(3)];
    if (is_robin<M>::value && (G.hmode == 8 || G.hmode == 10)) stride = 1;
    s.log("n ", n, " stride ", stride, " hash ", G.hmode);
    void * mem = arena().get(sizeof(M), 4096);
    M * m = new (mem) M();
    std::map<int, int> ref;
    int erased = 0;
    s.set_ops(6);
    while (s.more()) {
        int op = int(s.draw(5)), a = int(s.draw(uint32_t(n + 1))), c = int(s.draw(uint32_t(n + 1)));
        s.log("op ", op, " from ", a, " count ", c);
        if (op <= 1) for (int i = 0; i < c; i++) { int k = (a + i) % (n + 1) * stride; if (m->emplace(mk<K>(k), mk<V>(k + 5)).second) ref[k] = k + 5; }
        else if (op == 2) for (int i = 0; i < c; i++) { int k = (a + i) % (n + 1) * stride; size_t r = m->erase(mk<K>(k)); PBT_CHECK(r == ref.erase(k), "erase is wrong"); erased += int(r); }
        else if (op == 3) { if (m->size() + size_t(c)) m->reserve(m->size() + size_t(c)); }
        else { m->clear(); ref.clear(); }
        // the other heap blocks of a std::string key are not in the arena: only the map's own memory is protected
        std::vector<K> probes;
        std::vector<int> ids;
        for (int i = 0; i < 24; i++) { int id = int(s.draw(uint32_t(2 * n + 2))) * stride; ids.push_back(id); probes.push_back(mk<K>(id)); }
        const M & cm = *m;
        std::vector<int> seen;
        seen.reserve(ref.size() + 1);
        arena().lock();
        std::string err;
        try {
            for (int round = 0; round < 2; round++) {
                for (size_t i = 0; i < probes.size(); i++) {
                    auto r = ref.find(ids[i]);
                    bool want = r != ref.end();
                    auto it = cm.find(probes[i]);
                    PBT_CHECK((it != cm.end()) == want && cm.count(probes[i]) == size_t(want) && cm.contains(probes[i]) == want, "a lookup of ", ids[i], " is wrong, present=", want);
                    if (want) { PBT_CHECK(idof(it->first) == ids[i] && idof(it->second) == r->second, "the element of ", ids[i], " is wrong"); PBT_CHECK(idof(cm.at(probes[i])) == r->second, "at() is wrong"); }
                    else { bool t = false; try { (void)cm.at(probes[i]); } catch (const std::out_of_range &) { t = true; } PBT_CHECK(t, "at() of an absent key does not throw"); }
                }
                seen.clear();
                for (auto it = cm.begin(); it != cm.end(); ++it) { seen.push_back(idof(it->first)); PBT_CHECK(seen.size() <= ref.size(), "iteration does not end"); }
                PBT_CHECK(seen.size() == ref.size(), "iteration visits ", seen.size(), " of ", ref.size());
                size_t c2 = 0;
                for (auto it = cm.cbegin(); it != cm.cend(); it++) c2++;
                PBT_CHECK(c2 == ref.size(), "const iteration visits ", c2, " of ", ref.size());
                PBT_CHECK(cm.size() == ref.size() && cm.empty() == ref.empty(), "size() is wrong");
                (void)cm.capacity(); (void)cm.bucket_count(); if constexpr (!is_robin<M>::value) { (void)cm.max_size(); (void)cm.max_bucket_count(); } (void)cm.load_factor(); (void)cm.max_load_factor();
                (void)cm.hash_function(); (void)cm.key_eq(); (void)cm.get_allocator();
            }
            if constexpr (std::is_copy_constructible<V>::value) {
                // copying reads only
                size_t u = arena().used;
                arena().used = (u + 4095) & ~size_t(4095);
                M x(cm);
                PBT_CHECK(x.size() == ref.size(), "a copy has size ", x.size());
                for (auto & p : x) { auto r = ref.find(idof(p.first)); PBT_CHECK(r != ref.end() && r->second == idof(p.second), "a copy has a wrong element ", idof(p.first)); }
            }
        } catch (const pbt::Failure & f) { err = f.msg; }
        arena().unlock();
        if (!err.empty()) throw pbt::Failure{err};
    }
    if (ref.size() > 20 && erased) s.nontrivial();
    else if (ref.size() > 20) s.label("more than 20 elements");
    m->~M();
}
#if PART == 0
PBT_TARGETS({"g15.int.int", prop<G15<int, int, SHash<int, false>, SEq<int>, AAlloc<std::pair<const int, int>>>, int, int>, 1});
#elif PART == 1
PBT_TARGETS({"g16.int.int", prop<G16<int, int, SHash<int, false>, SEq<int>, AAlloc<std::pair<const int, int>>>, int, int>, 1});
#elif PART == 2
PBT_TARGETS({"g15.str.obj", prop<G15<std::string, VObj, SHash<std::string, true>, SEq<std::string>, AAlloc<std::pair<const std::string, VObj>>>, std::string, VObj>, 1});
#elif PART == 3
PBT_TARGETS({"g16.str.obj", prop<G16<std::string, VObj, SHash<std::string, true>, SEq<std::string>, AAlloc<std::pair<const std::string, VObj>>>, std::string, VObj>, 1});
#elif PART == 4
PBT_TARGETS({"rh.int.int", prop<RH<int, int, SHash<int, false>, SEq<int>, AAlloc<std::pair<const int, int>>>, int, int>, 1});
#elif PART == 5
PBT_TARGETS({"rh.str.obj", prop<RH<std::string, VObj, SHash<std::string, false>, SEq<std::string>, AAlloc<std::pair<const std::string, VObj>>>, std::string, VObj>, 1});
#endif
