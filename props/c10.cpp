// C10: an operation that fails with an exception (of an element, the allocator, or the caller's hash or equality)
// leaves a valid map: single insertions have no effect, nothing is lost, leaked or destroyed twice.
#include "machine.hpp"
using namespace pt;

template <class K, class V> using TA = TAlloc<std::pair<const K, V>, 0>;

template <class M>
struct Fault {
    using P = typename M::value_type;
    Src & s;
    int n, stride;
    std::vector<std::pair<int, int>> script;     // quiet operations that build the state: (kind, key)
    size_t init_cap = 0;
    std::unique_ptr<M> m;
    std::map<int, int> ref;
    std::map<int, int> src_model;                // contents of the second map of copies and assignments
    std::unique_ptr<M> other;
    int key(int k) const { return k * stride; }

    Fault(Src & src) : s(src) {}

    void quiet(int kind, int id) {
        if (kind == 0) { bool a = !ref.count(id); auto r = m->emplace(KObj(id), VObj(id + 1)); PBT_CHECK(r.second == a, "insertion of key ", id, " reports ", r.second); ref.emplace(id, id + 1); }
        else if (kind == 1) { size_t r = m->erase(KObj(id)); PBT_CHECK(r == ref.erase(id), "erase(", id, ") returns ", r); }
        else if (kind == 2) { m->clear(); ref.clear(); }
        else { m->reserve(m->size() + size_t(id) % 100 + 1); }
    }
    void draw_script() {
        static const int sizes[] = {4, 20, 33, 60, 130, 400};
        n = sizes[s.weighted({2, 3, 3, 3, 2, 1})];
        static const int strides[] = {1, 1, 3, 16, 1000};
        stride = strides[s.draw(5)];
        init_cap = s.chance(1, 2) ? s.draw(70) : 0;
        int k = int(s.draw(6));
        for (int i = 0; i < k; i++) {
            int what = int(s.weighted({6, 3, 1, 1}));
            int a = int(s.draw(uint32_t(n))), c = what < 2 ? int(s.draw(uint32_t(n))) + 1 : 1;
            s.log("state: ", what == 0 ? "insert " : what == 1 ? "erase " : what == 2 ? "clear " : "reserve ", c, " keys from ", a);
            for (int j = 0; j < c; j++) script.emplace_back(what, key((a + j) % n));
        }
        // to the brim: insert up to a drawn number below the capacity, so that the operation meets a full table
    }
    void build() {
        m.reset(new M(init_cap));
        ref.clear();
        for (auto & q : script) quiet(q.first, q.second);
        if (brim) {
            int id = 100000;
            while (m->size() < m->capacity() && ref.size() < 2000) {
                size_t cap = m->capacity(), sz = m->size();
                // stop one before growth: known by trying on the way
                if (sz == brim_stop) break;
                (void)cap;
                quiet(0, id);
                id += stride;
            }
        }
        other.reset(new M(other_cap));
        src_model.clear();
        for (int i = 0; i < other_n; i++) { int id = key((i * 3) % (2 * n)); if (src_model.count(id)) continue; other->emplace(KObj(id), VObj(id + 7)); src_model[id] = id + 7; }
    }
    bool brim = false;
    size_t brim_stop = 0, other_cap = 0;
    int other_n = 0;

    // The size at which the next insertion grows.
    void find_brim() {
        brim = false;
        build();
        int id = 100000;
        for (int i = 0; i < 2000; i++, id += stride) {
            size_t cap = m->capacity(), sz = m->size();
            m->emplace(KObj(id), VObj(id + 1));
            if (m->capacity() != cap) { brim_stop = sz; brim = true; break; }
        }
    }

    // ---- the operation under faults
    int op = 0, id = 0, arg = 0;
    enum { SINGLE, RANGE, WHOLE, NONE };
    int kind_of() const {
        if (op <= 12) return SINGLE;
        if (op <= 14) return RANGE;
        return WHOLE;
    }
    std::unique_ptr<M> made;
    void run() {
        switch (op) {
            case 0: { const P p(KObj(id), VObj(5)); arm(); m->insert(p); break; }
            case 1: { P p(KObj(id), VObj(5)); arm(); m->insert(std::move(p)); break; }
            case 2: { std::pair<KObj, VObj> p(KObj(id), VObj(5)); arm(); m->insert(std::move(p)); break; }
            case 3: { const KObj k(id); const VObj v(5); arm(); m->emplace(k, v); break; }
            case 4: { KObj k(id); VObj v(5); arm(); m->emplace(std::move(k), std::move(v)); break; }
            case 5: { arm(); m->emplace(std::piecewise_construct, std::forward_as_tuple(id), std::forward_as_tuple(2, 3)); break; }
            case 6: { const KObj k(id); arm(); m->try_emplace(k, 5); break; }
            case 7: { KObj k(id); arm(); m->try_emplace(std::move(k), 2, 3); break; }
            case 8: { const KObj k(id); const VObj v(5); arm(); m->insert_or_assign(k, v); break; }
            case 9: { const KObj k(id); arm(); (*m)[k]; break; }
            case 10: { KObj k(id); arm(); (*m)[std::move(k)]; break; }
            case 11: { const P p(KObj(id), VObj(5)); arm(); m->insert(m->begin(), p); break; }
            case 12: { const KObj k(id); const VObj v(5); arm(); m->emplace_hint(m->begin(), k, v); break; }
            case 13: { std::vector<P> v; for (int i = 0; i < arg; i++) v.emplace_back(KObj(id + i * stride), VObj(5)); arm(); m->insert(v.begin(), v.end()); break; }
            case 14: { P a(KObj(id), VObj(5)), b(KObj(id + stride), VObj(5)); arm(); m->insert({a, b}); break; }
            case 15: { arm(); made.reset(new M(static_cast<const M &>(*m))); break; }
            case 16: { arm(); *m = static_cast<const M &>(*other); break; }
            case 17: { arm(); m->reserve(m->size() + size_t(arg)); break; }
            case 18: { arm(); m->rehash(m->size() + size_t(arg)); break; }
            case 19: { arm(); m->shrink_to_fit(arg & 1); break; }
            case 20: { KObj k(id); arm(); m->erase(k); break; }
            case 21: { KObj k(id); arm(); (void)m->count(k); (void)m->contains(k); (void)(m->find(k) == m->end()); break; }
            case 22: { std::vector<P> v; for (int i = 0; i < arg; i++) v.emplace_back(KObj(id + i * stride), VObj(5)); arm(); made.reset(new M(v.begin(), v.end())); break; }
            case 23: { arm(); made.reset(new M(static_cast<const M &>(*m), TA<KObj, VObj>(3))); break; }
            case 24: { arm(); made.reset(new M(std::move(*other), TA<KObj, VObj>(3))); break; }
            case 25: { arm(); made.reset(new M(size_t(arg) * 3 + 1)); break; }
            default: { arm(); m->max_load_factor(float(arg % 10) / 10.0f); break; }
        }
        disarm();
    }
    int64_t at = -1;
    unsigned mask = 0;
    void arm() { G.events = 0; G.throw_at = at; G.ev_mask = mask; G.thrown = false; }
    void disarm() { G.ev_mask = 0; G.throw_at = -1; }

    void validate(const std::map<int, int> & want, M & x, const char * what) {
        PBT_CHECK(x.size() == want.size(), what, ": size() is ", x.size(), ", expected ", want.size());
        size_t c = 0;
        std::set<int> seen;
        for (auto & p : x) {
            PBT_CHECK(++c <= want.size(), what, ": iteration visits more than size() elements");
            auto r = want.find(idof(p.first));
            PBT_CHECK(r != want.end() && seen.insert(r->first).second, what, ": iteration visits a wrong or repeated key ", idof(p.first));
            PBT_CHECK(idof(p.second) == r->second, what, ": key ", r->first, " has value ", idof(p.second), ", expected ", r->second);
        }
        PBT_CHECK(c == want.size(), what, ": iteration visits ", c, " of ", want.size(), " elements");
        for (auto & r : want) { auto it = x.find(KObj(r.first)); PBT_CHECK(it != x.end() && idof(it->second) == r.second, what, ": key ", r.first, " is not found"); }
        check_err(what);
    }
    std::map<int, int> contents(M & x) {
        std::map<int, int> r;
        size_t c = 0;
        for (auto & p : x) { PBT_CHECK(++c <= x.size(), "iteration visits more than size() elements"); PBT_CHECK(r.emplace(idof(p.first), idof(p.second)).second, "iteration visits a key twice"); }
        PBT_CHECK(c == x.size(), "iteration visits ", c, " elements, size() is ", x.size());
        return r;
    }
    void check_live(const char * what) {
        size_t nn = m->size() + other->size() + (made ? made->size() : 0);
        PBT_CHECK(G.live == 2 * int64_t(nn), what, ": ", G.live, " objects are alive, the maps hold ", nn, " elements");
    }

    void prop() {
        draw_script();
        other_n = int(s.draw(uint32_t(n)));
        other_cap = s.draw(80);
        if (s.chance(1, 2)) find_brim();
        op = int(s.draw(27));
        // robin_hash_map moves its elements to a smaller table that may have to grow meanwhile: not claimed
        if (is_robin<M>::value && (op == 18 || op == 19)) op = 17;
        id = key(int(s.draw(uint32_t(n))));
        if (s.chance(1, 2)) id += 1000000 * stride;      // certainly absent
        arg = int(s.draw(40));
        s.log("n ", n, " stride ", stride, " hash ", G.hmode, " op ", op, " key ", id, " arg ", arg, " full ", brim);
        int repeat = s.chance(1, 4) ? 50 : 1;
        static const unsigned masks[] = {EV_COPY | EV_CTOR | EV_ASSIGN, EV_ALLOC, EV_COPY | EV_CTOR | EV_ASSIGN | EV_ALLOC, EV_HASH | EV_EQ,
            EV_COPY | EV_CTOR | EV_ASSIGN | EV_ALLOC | EV_HASH | EV_EQ};
        mask = masks[s.weighted({3, 2, 1, 2, 5})];
        // a run without a fault
        made.reset();
        build();
        std::map<int, int> pre = ref;
        size_t cap = m->capacity();
        at = -1;
        if (op == 24) mask &= ~unsigned(EV_HASH | EV_EQ);
        run();
        int64_t total = G.events;
        std::map<int, int> post = contents(*m);
        check_live("the operation without a fault");
        // A hash that throws while the elements are moved to a new table is outside the property.
        if ((m->capacity() != cap || made) && (mask & (EV_HASH | EV_EQ))) {
            mask &= ~unsigned(EV_HASH | EV_EQ);
            made.reset();
            build();
            run();
            total = G.events;
        }
        if (total == 0) { s.label("operation without a fault point"); made.reset(); finish(); return; }
        int64_t limit = 40;
        int64_t off = total > limit ? int64_t(s.draw(uint32_t(total))) : 0;
        int faults = 0;
        for (int64_t q = 0; q < std::min(total, limit); q++) {
            made.reset();
            build();
            at = (off + q) % total;
            bool threw = false;
            for (int r = 0; r < repeat; r++) {
                try { run(); }
                catch (const Injected &) { threw = true; }
                catch (const std::bad_alloc &) { threw = true; }
                bool fired = G.thrown;
                disarm();
                PBT_CHECK(!fired || threw, "the exception of event ", at, " is swallowed");
                if (!threw) break;
                faults++;
                threw = false;
                check_err("after the exception");
                if (op == 20 || op == 21) validate(pre, *m, "after a lookup or erase(key) that failed");
                else if (op <= 12) validate(pre, *m, "after an insertion that failed");
                else if (kind_of() == RANGE) {
                    auto c = contents(*m);
                    for (auto & p : pre) { auto it = c.find(p.first); PBT_CHECK(it != c.end() && it->second == p.second, "after insertion of a range failed: key ", p.first, " is lost or changed"); }
                    for (auto & p : c) PBT_CHECK(pre.count(p.first) || post.count(p.first), "after insertion of a range failed: key ", p.first, " appears");
                    validate(c, *m, "after insertion of a range that failed");
                    ref = c;
                } else if (op == 16) {
                    auto c = contents(*m);
                    validate(c, *m, "after an assignment that failed");
                    for (auto & p : c) { auto a = pre.find(p.first); auto b = src_model.find(p.first); PBT_CHECK((a != pre.end() && a->second == p.second) || (b != src_model.end() && b->second == p.second), "after an assignment failed: key ", p.first, " appears"); }
                    validate(src_model, *other, "the source of an assignment that failed");
                    ref = c;
                } else {
                    validate(pre, *m, "after an operation that failed");
                    PBT_CHECK(!made, "the exception is swallowed");
                    if (op == 24) { auto c = contents(*other); validate(c, *other, "the source of a move that failed"); src_model = c; }
                }
                check_live("after an operation that failed");
            }
            finish();
        }
        if (faults) s.label("an exception was injected");
        if (faults && pre.size() > 3) s.nontrivial();
        if (faults && brim) s.label("in a table that is about to grow");
        if (repeat > 1 && faults > 1) s.label("the failing operation was repeated");
    }
    // The map goes on working, and everything is given back.
    void finish() {
        if (ref.size() != m->size()) ref = contents(*m);
        for (int i = 0; i < 60; i++) quiet(0, 5000000 + i * stride);
        int c = 0;
        std::vector<int> ks;
        for (auto & p : ref) if (c++ % 2) ks.push_back(p.first);
        for (int k : ks) quiet(1, k);
        for (int i = 0; i < 20; i++) quiet(0, 7000000 + i * stride);
        for (auto & p : ref) { auto it = m->find(KObj(p.first)); PBT_CHECK(it != m->end(), "key ", p.first, " is not found after later operations"); }
        PBT_CHECK(contents(*m).size() == ref.size(), "later operations give a wrong size");
        check_live("after later operations");
        made.reset(); m.reset(); other.reset();
        check_err("destruction");
        PBT_CHECK(G.live == 0, G.live, " objects are alive after the maps were destroyed");
        PBT_CHECK(G.alloc_live_blocks == 0, G.alloc_live_blocks, " blocks are allocated after the maps were destroyed");
    }
};

template <class M>
void prop(Src & s) {
    reset_case();
    static const int modes[] = {0, 1, 3, 6, 7, 8};
    G.hmode = modes[s.draw(is_robin<M>::value ? 2 : 6)];
    G.hparam = s.draw(1000);
    Fault<M> f(s);
    f.prop();
}
#if PART == 0
PBT_TARGETS({"g15", prop<G15<KObj, VObj, SHash<KObj, false>, SEq<KObj>, TA<KObj, VObj>>>, 1});
#elif PART == 1
PBT_TARGETS({"g16", prop<G16<KObj, VObj, SHash<KObj, false>, SEq<KObj>, TA<KObj, VObj>>>, 1});
#elif PART == 2
PBT_TARGETS({"g15.av", prop<G15<KObj, VObj, SHash<KObj, true>, SEq<KObj>, TA<KObj, VObj>>>, 1});
#elif PART == 3
PBT_TARGETS({"g16.av", prop<G16<KObj, VObj, SHash<KObj, true>, SEq<KObj>, TA<KObj, VObj>>>, 1});
#elif PART == 4
PBT_TARGETS({"robin", prop<RH<KObj, VObj, SHash<KObj, false>, SEq<KObj>, TA<KObj, VObj>>>, 1});
#elif PART == 5
PBT_TARGETS({"robin.direct", prop<RHL<false, false, KObj, VObj, SHash<KObj, false>, SEq<KObj>, TA<KObj, VObj>>>, 1});
#elif PART == 6
PBT_TARGETS({"robin.hash", prop<RHL<false, true, KObj, VObj, SHash<KObj, true>, SEq<KObj>, TA<KObj, VObj>>>, 1});
#endif
