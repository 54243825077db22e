// C03: iteration visits every element exactly once and erasing through iterators, ranges and predicates removes
// exactly the elements that are meant.
#include "machine.hpp"
using namespace pt;

template <class M, class K, class V>
struct IterMachine : Machine<M, K, V> {
    using B = Machine<M, K, V>;
    using B::B;
    // The iterator interface itself.
    void check_iterators(typename B::Ent & e) {
        M & m = *e.m;
        const M & cm = m;
        PBT_CHECK((m.begin() == m.end()) == e.ref.empty(), "begin() == end() is wrong at size ", e.ref.size());
        PBT_CHECK((cm.begin() == cm.end()) == e.ref.empty(), "const begin() == end() is wrong at size ", e.ref.size());
        PBT_CHECK((m.cbegin() == m.cend()) == e.ref.empty(), "cbegin() == cend() is wrong at size ", e.ref.size());
        std::vector<int> a, b, c;
        for (auto & p : m) { a.push_back(idof(p.first)); PBT_CHECK(a.size() <= e.ref.size(), "iteration does not end"); }
        for (auto it = cm.cbegin(); it != cm.cend(); it++) { b.push_back(idof((*it).first)); PBT_CHECK(b.size() <= e.ref.size(), "const iteration does not end"); }
        for (typename M::const_iterator it = m.begin(), en = m.end(); it != en;) {
            auto old = it++;
            PBT_CHECK(old != it, "it++ returns the advanced iterator");
            c.push_back(idof(old->first));
            PBT_CHECK(c.size() <= e.ref.size(), "iteration does not end");
        }
        PBT_CHECK(a == b && a == c, "two iterations of an unchanged map differ");
        // backwards from the last element to the first one
        if (a.size() > 1) {
            auto it = m.find(this->mkk(a.back()));
            typename M::const_iterator ci = it;
            for (size_t q = a.size() - 1; q-- > 0;) {
                auto old = it;
                if (q % 2) { PBT_CHECK(it-- == old, "it-- does not return the iterator as it was"); }
                else { PBT_CHECK(&--it == &it, "--it does not return the iterator"); }
                --ci;
                PBT_CHECK(it != m.end() && idof(it->first) == a[q], "--it from element ", q + 1, " of ", a.size(), " does not reach the element before it");
                PBT_CHECK(idof(ci->first) == a[q] && ci == it, "-- of a const_iterator does not reach the same element");
                auto fw = it;
                PBT_CHECK(++fw == old, "++it after --it does not return to the element");
            }
            PBT_CHECK(it == m.begin(), "stepping back from the last element does not end at begin()");
        }
        // a found iterator is a position of the iteration
        if (!a.empty()) {
            size_t i = this->s.draw(uint32_t(a.size()));
            auto it = m.find(this->mkk(a[i]));
            PBT_CHECK(it != m.end(), "find(", a[i], ") does not find a present key");
            auto w = m.begin();
            for (size_t q = 0; q < i; q++) ++w;
            PBT_CHECK(w == it, "find(", a[i], ") is not equal to the iterator that iteration reaches at that element");
            PBT_CHECK(&*w == &*it, "two equal iterators refer to different elements");
            // writing through an iterator
            int v = this->fresh_val();
            it->second = mk<V>(v);
            e.ref[a[i]] = v;
            this->check_entry(e, a[i]);
            std::vector<int> t = this->tail(m, it, e.ref.size());
            PBT_CHECK(t == std::vector<int>(a.begin() + long(i), a.end()), "iteration from find(", a[i], ") does not visit the rest");
        }
    }
};

template <class M, class K, class V>
void prop(Src & s) {
    reset_case();
    draw_shape(s, !is_robin<M>::value);
    Universe u = draw_universe(s, 2500);
    if (weak_shape()) u.n = std::min(u.n, 200);
    IterMachine<M, K, V> m(s, u, 1);
    m.start();
    s.set_ops(30);
    static const Weights w = weights({{O_INSERT,3},{O_EMPLACE,3},{O_TRY_EMPLACE,1},{O_IOA,1},{O_INDEX,1},{O_ERASE_KEY,3},
        {O_ERASE_IT,8},{O_ERASE_RANGE,6},{O_ERASE_IF,5},{O_ERASE_LOOP,5},{O_CLEAR,1},{O_RESERVE,1},{O_SHRINK,1},
        {O_BULK_IN,10},{O_BULK_OUT,2},{O_CHURN,1}});
    bool nt = false;
    while (s.more()) {
        size_t before = m.ents[0].ref.size(), er = m.ever_erased.size();
        m.step(w);
        m.check_iterators(m.ents[0]);
        if (before > 16 && m.ents[0].ref.size() < before && !m.ents[0].ref.empty()) nt = true;
        (void)er;
    }
    m.finish();
    if (m.reinserted) s.label("reinserted an erased key");
    if (nt) s.nontrivial("erased some of more than 16 elements");
}

#if PART == 0
PBT_TARGETS({"g15.int.int", prop<G15<int, int>, int, int>, 1});
#elif PART == 1
PBT_TARGETS({"g16.int.int", prop<G16<int, int>, int, int>, 1});
#elif PART == 2
PBT_TARGETS({"g15.obj.obj", prop<G15<KObj, VObj, SHash<KObj, false>, SEq<KObj>>, KObj, VObj>, 1});
#elif PART == 3
PBT_TARGETS({"g16.obj.obj", prop<G16<KObj, VObj, SHash<KObj, true>, SEq<KObj>>, KObj, VObj>, 1});
#elif PART == 4
PBT_TARGETS({"g15.str.str", prop<G15<std::string, std::string>, std::string, std::string>, 1});
#elif PART == 5
PBT_TARGETS({"g16.str.str", prop<G16<std::string, std::string>, std::string, std::string>, 1});
#elif PART == 6
PBT_TARGETS({"rh.int.int", prop<RH<int, int>, int, int>, 1});
#elif PART == 7
PBT_TARGETS({"rh.obj.str", prop<RH<KObj, std::string, SHash<KObj, false>, SEq<KObj>>, KObj, std::string>, 1});
#elif PART == 8
PBT_TARGETS({"rh.str.move", prop<RH<std::string, MoveOnly>, std::string, MoveOnly>, 1});
#elif PART == 9
PBT_TARGETS({"rhl.hash.obj.int", prop<RHL<false, true, KObj, int, SHash<KObj, false>, SEq<KObj>>, KObj, int>, 1});
#endif
