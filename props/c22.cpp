// C22: iterator, swapping and alignment helpers have the results of their standard counterparts; string_view_array owns its pairs.
#include <cmath>
#include <forward_list>
#include <list>
#include <memory>
#include <numeric>
#include <vector>
#include "strgen.hpp"
#include <jstd/iterator.h>
#include <jstd/memory/swap.h>
#include <jstd/utility/utility.h>
#include <jstd/string/string_view.h>
#include <jstd/string/string_view_array.h>
#include <jstd/string/string_helper.h>
#include "types.hpp"
using namespace pt;
using namespace pbt;

struct Item { int a; int b; bool operator==(const Item & o) const { return a == o.a && b == o.b; } };

// Iterators of the library's own categories over an array.
template <class Tag>
struct It {
    using iterator_category = Tag; using value_type = int; using difference_type = std::ptrdiff_t; using distance_type = std::ptrdiff_t; using pointer = int *; using reference = int &;
    int * p = nullptr;
    int & operator*() const { return *p; }
    int * operator->() const { return p; }
    It & operator++() { ++p; return *this; }
    It operator++(int) { It t = *this; ++p; return t; }
    It & operator--() { static_assert(std::is_base_of<jstd::bidirectional_iterator_tag, Tag>::value, "this iterator does not go back"); --p; return *this; }
    bool operator==(const It & o) const { return p == o.p; }
    bool operator!=(const It & o) const { return p != o.p; }
};

// A reverse iterator walks like the standard one.
template <class T>
void reverse(Src & s) {
    size_t n = s.draw(12);
    std::vector<T> v;
    for (size_t i = 0; i < n; i++) { if constexpr (std::is_same<T, Item>::value) v.push_back(Item{int(i), int(s.draw(100))}); else v.push_back(T(s.draw(100))); }
    std::unique_ptr<T[]> buf(new T[n]());
    std::copy(v.begin(), v.end(), buf.get());
    T * const b = buf.get(), * const e = b + n;
    using J = jstd::reverse_iterator<T *>;
    using S = std::reverse_iterator<T *>;
    using CJ = jstd::reverse_iterator<const T *>;
    J x(e), y = jstd::make_reverse_iterator(b);
    S p(e), q(b);
    size_t moved = 0;
    s.log("reverse iterators over ", n, " elements");
    s.set_ops(20);
    while (s.more()) {
        bool first = s.chance(1, 2);
        J & j = first ? x : y;
        S & r = first ? p : q;
        std::ptrdiff_t at = r - S(e), room = std::ptrdiff_t(n) - at;
        int op = int(s.draw(9));
        std::ptrdiff_t d = std::ptrdiff_t(s.draw(uint32_t(n + 1))) - at;
        s.log("op ", op, " at ", at, " by ", d);
        switch (op) {
            case 0: if (room > 0) { J & t = ++j; S(++r); PBT_CHECK(&t == &j, "++ does not return itself"); } break;
            case 1: if (room > 0) { J o = j++; S so = r++; PBT_CHECK(o.base() == so.base(), "it++ returns the new position"); } break;
            case 2: if (at > 0) { --j; --r; } break;
            case 3: if (at > 0) { J o = j--; S so = r--; PBT_CHECK(o.base() == so.base(), "it-- returns the new position"); } break;
            case 4: j += d; r += d; break;
            case 5: j -= -d; r -= -d; break;
            case 6: { J o = j + d; PBT_CHECK(o.base() == (r + d).base(), "it + ", d, " is wrong"); o = d + j; PBT_CHECK(o.base() == (d + r).base(), d, " + it is wrong"); break; }
            case 7: { J o = j - -d; PBT_CHECK(o.base() == (r - -d).base(), "it - ", -d, " is wrong"); break; }
            default: if (at + d < std::ptrdiff_t(n)) { PBT_CHECK(&j[d] == &r[d], "it[", d, "] is wrong"); } break;
        }
        if (d) moved++;
        PBT_CHECK(x.base() == p.base() && y.base() == q.base(), "the iterator is at the wrong place after op ", op);
        if (r.base() != b) { PBT_CHECK(&*j == &*r && j.operator->() == &*r, "* or -> is wrong"); if constexpr (std::is_same<T, Item>::value) PBT_CHECK(j->b == r->b, "-> is wrong"); }
        CJ cx(x), cy; cy = y;
        PBT_CHECK(cx.base() == x.base() && cy.base() == y.base(), "the conversion to a const iterator is wrong");
        PBT_CHECK((x == y) == (p == q) && (x != y) == (p != q), "== or != is wrong");
        PBT_CHECK((x < y) == (p < q) && (x > y) == (p > q) && (x <= y) == (p <= q) && (x >= y) == (p >= q), "an order of iterators is wrong");
        PBT_CHECK((cx < y) == (p < q) && (cx == y) == (p == q), "an order of const and mutable iterators is wrong");
        PBT_CHECK(x - y == p - q && y - x == q - p, "the difference is ", x - y, ", expected ", p - q);
        if (s.chance(1, 4)) {
            J c(x); std::vector<T> w;
            for (; c != J(b); ++c) w.push_back(*c);
            PBT_CHECK(w == std::vector<T>(p, S(b)), "a walk backwards visits other elements");
        }
    }
    if (n > 2 && moved > 2) s.nontrivial();
}

template <class C>
static void accessors(C & c, const C & cc) {
    PBT_CHECK(jstd::begin(c) == c.begin() && jstd::end(c) == c.end() && jstd::begin(cc) == cc.begin() && jstd::end(cc) == cc.end(), "begin() or end() is wrong");
    PBT_CHECK(jstd::cbegin(c) == cc.begin() && jstd::cend(c) == cc.end(), "cbegin() or cend() is wrong");
    PBT_CHECK(jstd::rbegin(c) == c.rbegin() && jstd::rend(c) == c.rend() && jstd::rbegin(cc) == cc.rbegin() && jstd::rend(cc) == cc.rend(), "rbegin() or rend() is wrong");
    PBT_CHECK(jstd::crbegin(c) == cc.rbegin() && jstd::crend(c) == cc.rend(), "crbegin() or crend() is wrong");
    PBT_CHECK(jstd::size(cc) == cc.size() && jstd::empty(cc) == cc.empty(), "size() or empty() is wrong");
}

void sequences(Src & s) {
    size_t n = s.draw(20);
    std::vector<int> v;
    for (size_t i = 0; i < n; i++) v.push_back(int(s.draw(1000)));
    std::list<int> l(v.begin(), v.end());
    std::forward_list<int> f(v.begin(), v.end());
    accessors(v, v);
    accessors(l, l);
    PBT_CHECK(jstd::data(v) == v.data() && jstd::data(static_cast<const std::vector<int> &>(v)) == v.data(), "data() is wrong");
    int arr[7];
    for (int i = 0; i < 7; i++) arr[i] = int(s.draw(100));
    PBT_CHECK(jstd::size(arr) == 7 && !jstd::empty(arr) && jstd::data(arr) == arr, "size(), empty() or data() of an array is wrong");
    PBT_CHECK(std::vector<int>(arr, arr + 7).back() == *jstd::rbegin(arr) && jstd::rend(arr).base() == arr && jstd::rend(arr) - jstd::rbegin(arr) == 7, "rbegin() or rend() of an array is wrong");
    std::initializer_list<int> il = {arr[0], arr[1], arr[2]};
    PBT_CHECK(*jstd::rbegin(il) == arr[2] && jstd::rend(il) - jstd::rbegin(il) == 3 && jstd::size(il) == 3 && !jstd::empty(il) && jstd::data(il) == il.begin(), "an accessor of an initializer_list is wrong");
    size_t a = s.draw(uint32_t(n + 1)), b = s.draw(uint32_t(n + 1));
    if (a > b) std::swap(a, b);
    std::ptrdiff_t d = std::ptrdiff_t(b - a);
    s.log("sequence of ", n, ", positions ", a, " and ", b);
    PBT_CHECK(jstd::distance(v.begin() + long(a), v.begin() + long(b)) == d && jstd::distance(v.begin() + long(b), v.begin() + long(a)) == -d, "distance() of random access iterators is wrong");
    PBT_CHECK(jstd::distance(std::next(l.begin(), long(a)), std::next(l.begin(), long(b))) == d, "distance() of bidirectional iterators is wrong");
    PBT_CHECK(jstd::distance(std::next(f.begin(), long(a)), std::next(f.begin(), long(b))) == d, "distance() of forward iterators is wrong");
    PBT_CHECK(jstd::distance(v.data() + a, v.data() + b) == d, "distance() of pointers is wrong");
    using U = jstd::iterator_utils;
    auto walk = [&](auto tag) {
        using I = It<decltype(tag)>;
        I x{v.data() + a}, y{v.data() + b};
        PBT_CHECK(U::distance(x, y) == d, "iterator_utils::distance() is wrong");
        I z = x;
        U::advance(z, d);
        PBT_CHECK(z == y, "iterator_utils::advance() is wrong");
        PBT_CHECK(U::next(x, d) == y, "iterator_utils::next() is wrong");
        if (a < n) PBT_CHECK(U::next(x).p == v.data() + a + 1, "iterator_utils::next() is wrong");
        if constexpr (std::is_base_of<jstd::bidirectional_iterator_tag, decltype(tag)>::value) {
            z = y; U::advance(z, -d);
            PBT_CHECK(z == x && U::prev(y, d) == x && U::next(y, -d) == x && U::prev(x, -d) == y, "iterator_utils goes back to the wrong place");
            if (b) PBT_CHECK(U::prev(y).p == v.data() + b - 1, "iterator_utils::prev() is wrong");
        }
    };
    walk(jstd::input_iterator_tag());
    walk(jstd::forward_iterator_tag());
    walk(jstd::bidirectional_iterator_tag());
    int * x = v.data() + a, * y = v.data() + b, * z = x;
    U::advance(z, d);
    PBT_CHECK(z == y && U::next(x, d) == y && U::prev(y, d) == x && U::distance(x, y) == d && U::distance(y, x) == -d, "iterator_utils is wrong for pointers");
    const int * c = x;
    U::advance(c, d);
    PBT_CHECK(c == y && U::prev(c, d) == x && U::distance(static_cast<const int *>(x), c) == d, "iterator_utils is wrong for const pointers");
    if (d > 1) s.nontrivial();
}

template <class T> static T value(Src & s) { if constexpr (std::is_same<T, std::string>::value) return std::string(s.draw(40), char('a' + s.draw(26))); else return T(mk<T>(int(s.draw(100000)))); }

template <class T>
void swapping(Src & s) {
    reset_case();
    {
        size_t n = s.draw(9), m = s.draw(4);
        std::vector<T> a, b;
        std::vector<T> wa, wb;
        for (size_t i = 0; i < n; i++) { a.push_back(value<T>(s)); wb.push_back(a.back()); }
        for (size_t i = 0; i < n + m; i++) { b.push_back(value<T>(s)); if (i < n) wa.push_back(b.back()); else wb.push_back(b.back()); }
        s.log("swap_ranges of ", n, " and ", n + m);
        auto r = jstd::swap_ranges(a.begin(), a.end(), b.begin());
        PBT_CHECK(a == wa && b == wb && r == b.begin() + long(n), "swap_ranges() is wrong");
        std::list<T> l(wb.begin(), wb.end());
        auto lr = jstd::swap_ranges(a.begin(), a.end(), l.begin());
        PBT_CHECK(lr == std::next(l.begin(), long(n)), "swap_ranges() into a list is wrong");
        PBT_CHECK(std::equal(a.begin(), a.end(), wb.begin()), "swap_ranges() with a list is wrong");
        T x[3] = {value<T>(s), value<T>(s), value<T>(s)}, y[3] = {value<T>(s), value<T>(s), value<T>(s)};
        std::vector<T> vx(x, x + 3), vy(y, y + 3);
        jstd::swap(x, y);
        PBT_CHECK(std::vector<T>(x, x + 3) == vy && std::vector<T>(y, y + 3) == vx, "swap() of arrays is wrong");
        jstd::swap(x[0], y[0]);
        PBT_CHECK(x[0] == vx[0] && y[0] == vy[0], "swap() is wrong");
        T * p = &x[0], * q = &y[1];
        jstd::swap(p, q);
        PBT_CHECK(p == &y[1] && q == &x[0], "swap() of pointers is wrong");
        T nv = value<T>(s), cv = nv;
        T old = jstd::exchange(x[1], nv);
        PBT_CHECK(old == vy[1] && x[1] == cv && nv == cv, "exchange() is wrong");
        old = jstd::exchange(x[2], std::move(nv));
        PBT_CHECK(old == vy[2] && x[2] == cv, "exchange() of an rvalue is wrong");
        if (n > 1) s.nontrivial();
    }
    {   // values that compare equal without being the same
        size_t n = 1 + s.draw(6);
        std::vector<double> a, b;
        auto zero = [&] { return s.chance(2, 3) ? s.chance(1, 2) ? -0.0 : 0.0 : double(s.draw(3)); };
        for (size_t i = 0; i < n; i++) { a.push_back(zero()); b.push_back(zero()); }
        std::vector<double> wa = b, wb = a;
        auto same = [&](const std::vector<double> & x, const std::vector<double> & y) { return std::memcmp(x.data(), y.data(), n * sizeof(double)) == 0; };
        jstd::swap_ranges(a.begin(), a.end(), b.begin());
        PBT_CHECK(same(a, wa) && same(b, wb), "swap_ranges() of zeros of different signs is wrong");
        jstd::swap(a[0], b[0]);
        double old = jstd::exchange(a[0], -0.0);
        PBT_CHECK(std::memcmp(&old, &wb[0], sizeof(double)) == 0 && std::signbit(a[0]) && std::memcmp(&b[0], &wa[0], sizeof(double)) == 0, "swap() or exchange() of zeros of different signs is wrong");
    }
    check_err("swap");
    PBT_CHECK(G.live == 0, G.live, " objects are alive after swapping");
}

void alignment(Src & s) {
    uint64_t al = uint64_t(1) << s.draw(16);
    uint64_t n = s.draw64() >> s.draw(60);
    if (s.chance(1, 3)) n = al * s.draw(1000) + (s.chance(1, 2) ? 0 : s.draw(3)) ;
    if (n > ~uint64_t(0) - al) n -= al;
    s.log("align ", n, " to ", al);
    uint64_t want = n % al ? n + (al - n % al) : n;
    PBT_CHECK(jstd::align_to(n, al) == want, "align_to(", n, ", ", al, ") is ", jstd::align_to(n, al));
    uintptr_t q = uintptr_t(n) & ((uintptr_t(1) << 46) - 1), wq = q % al ? q + (al - q % al) : q;
    PBT_CHECK(uintptr_t(jstd::pointer_align_to(reinterpret_cast<char *>(q), al)) == wq, "pointer_align_to(", q, ", ", al, ") is wrong");
    PBT_CHECK(jstd::check_alignment(reinterpret_cast<char *>(q), al) == (q % al == 0), "check_alignment(", q, ", ", al, ") is wrong");
    auto w = [](uintptr_t p, uintptr_t a) { return p % a ? p + (a - p % a) : p; };
    PBT_CHECK(uintptr_t((jstd::pointer_align_to<64>(reinterpret_cast<char *>(q)))) == w(q, 64) && uintptr_t((jstd::pointer_align_to<1>(reinterpret_cast<int *>(q)))) == q
              && uintptr_t((jstd::pointer_align_to<4096>(reinterpret_cast<int *>(q)))) == w(q, 4096), "pointer_align_to<N>() is wrong for ", q);
    PBT_CHECK((jstd::check_alignment<char, 32>(reinterpret_cast<char *>(q))) == (q % 32 == 0) && jstd::check_alignment(reinterpret_cast<double *>(q)) == (q % alignof(double) == 0), "check_alignment<N>() is wrong for ", q);
    if (n % al) s.nontrivial();
}

// An array of pairs against a vector of their numbers; the array owns what is pushed.
void array(Src & s) {
    reset_case();
    {
        using A = jstd::string_view_array<KObj, VObj>;
        using E = typename A::element_type;
        using R = std::vector<std::pair<int, int>>;
        std::unique_ptr<A> m[2] = {std::unique_ptr<A>(new A), std::unique_ptr<A>(new A)};
        R ref[2];
        int next = 1;
        size_t copies = 0, removed = 0;
        auto same = [&](const char * what) {
            for (int k = 0; k < 2; k++) {
                A & a = *m[k]; const A & c = a; const R & r = ref[k];
                PBT_CHECK(a.size() == r.size() && a.capacity() >= a.size(), what, ": size() is ", a.size(), ", expected ", r.size());
                for (size_t i = 0; i < r.size(); i++) {
                    PBT_CHECK(idof(a[i].first) == r[i].first && idof(a[i].second) == r[i].second, what, ": element ", i, " is wrong");
                    PBT_CHECK(&c[i] == &a[i] && a.at(i) == &a[i] && c.at(i) == &a[i], what, ": [] and at() differ");
                }
                size_t i = 0;
                for (auto it = a.begin(); it != a.end(); ++it, ++i) PBT_CHECK(i < r.size() && *it == &a[i], what, ": iteration is wrong");
                PBT_CHECK(i == r.size(), what, ": iteration ends early");
                i = 0;
                for (auto it = c.begin(); it != c.end(); ++it, ++i) PBT_CHECK(i < r.size() && *it == &a[i], what, ": iteration is wrong");
                PBT_CHECK(i == r.size() && size_t(a.cend() - a.cbegin()) == i && size_t(c.cend() - c.cbegin()) == i, what, ": const iteration is wrong");
                if (i) PBT_CHECK(a.front() == &a[0] && c.front() == &a[0] && a.back() == &a[i - 1] && c.back() == &a[i - 1], what, ": front() or back() is wrong");
                for (size_t o : {r.size(), r.size() + 5}) {
                    bool t = false, u = false;
                    try { (void)a.at(o); } catch (const std::out_of_range &) { t = true; }
                    try { (void)c.at(o); } catch (const std::out_of_range &) { u = true; }
                    PBT_CHECK(t && u, what, ": at(", o, ") of ", r.size(), " does not throw");
                }
            }
            int64_t n = int64_t(ref[0].size() + ref[1].size()) * 2;
            PBT_CHECK(G.live == n, what, ": ", G.live, " objects are alive, expected ", n);
        };
        s.set_ops(25);
        while (s.more()) {
            int op = s.weighted({8, 4, 2, 1, 2, 2, 2, 2, 2, 2, 1}), k = int(s.draw(2));
            static const char * names[] = {"push_back", "push_back &&", "pop_back", "clear", "reserve", "copy construction", "move construction", "swap", "change an element", "swap elements", "resize"};
            s.log(names[op], " ", k);
            A & a = *m[k]; R & r = ref[k];
            switch (op) {
                case 0: { E * e = new E(mk<KObj>(next), mk<VObj>(next + 1)); r.emplace_back(next, next + 1); next += 2; a.push_back(e); break; }
                case 1: { r.emplace_back(next, next + 1); a.push_back(new E(mk<KObj>(next), mk<VObj>(next + 1))); next += 2; break; }
                case 2: if (!r.empty()) { a.pop_back(); r.pop_back(); removed++; } break;
                case 3: a.clear(); r.clear(); removed++; break;
                case 4: a.reserve(s.draw(50)); break;
                case 5: { std::unique_ptr<A> c(new A(static_cast<const A &>(a))); m[1 - k] = std::move(c); ref[1 - k] = r; copies++; break; }
                case 6: { std::unique_ptr<A> c(new A(std::move(a))); m[k] = std::move(c); break; }
                case 7: { int f = int(s.draw(3)); if (f == 0) m[0]->swap(*m[1]); else if (f == 1) std::swap(*m[0], *m[1]); else jstd::swap(*m[0], *m[1]); ref[0].swap(ref[1]); break; }
                case 8: if (!r.empty()) { size_t i = s.draw(uint32_t(r.size())); E e(mk<KObj>(next), mk<VObj>(next + 1)); if (s.chance(1, 2)) a[i] = e; else a[i] = E(e); r[i] = {next, next + 1}; next += 2; } break;
                case 10: { size_t n = s.draw(uint32_t(r.size() + 1)); a.resize(n); r.resize(n); removed++; break; }
                default: if (r.size() > 1) { size_t i = s.draw(uint32_t(r.size())), j = s.draw(uint32_t(r.size())); if (s.chance(1, 2)) std::swap(a[i], a[j]); else a[i].swap(a[j]); std::swap(r[i], r[j]); } break;
            }
            same(names[op]);
        }
        if (copies && removed) s.nontrivial();
    }
    check_err("the arrays were destroyed");
    PBT_CHECK(G.live == 0, G.live, " objects are alive after the arrays were destroyed");
}

// A text inside a buffer is terminated for a while, and the buffer gets its character back.
template <class C>
void helper(Src & s) {
    using H = jstd::basic_string_helper<jstd::basic_string_view<C>, C>;
    using S = std::basic_string<C>;
    S text = draw_string<C>(s);
    text.push_back(C('!'));
    std::unique_ptr<C[]> buf(new C[text.size()]);
    std::copy(text.begin(), text.end(), buf.get());
    size_t n = text.size(), from = s.draw(uint32_t(n)), len = s.draw(uint32_t(n - from));
    bool cut = false, attached = false, ever = false;
    std::unique_ptr<H> h(new H);
    s.set_ops(12);
    while (s.more()) {
        int op = int(s.draw(6));
        s.log("op ", op, " text of ", n, " from ", from, " length ", len);
        switch (op) {
            case 0: { size_t f2 = s.draw(uint32_t(n)), l2 = s.draw(uint32_t(n - f2));
                      bool r = h->attach(jstd::basic_string_view<C>(buf.get() + f2, l2));
                      PBT_CHECK(r == !cut, "attach() returns ", r);
                      if (r) { from = f2; len = l2; attached = true; } break; }
            case 1: if (attached) { h->truncate(); cut = true; ever = true; } break;
            case 2: h->recover(); cut = false; break;
            case 3: h->detach(); if (cut) attached = false; cut = false; break;
            case 4: { std::unique_ptr<H> o(new H(std::move(*h))); h = std::move(o); break; }
            default: { std::unique_ptr<H> o(new H); int f = int(s.draw(3)); if (f == 0) o->swap(*h); else if (f == 1) std::swap(*o, *h); else jstd::swap(*o, *h); h = std::move(o); break; }
        }
        for (size_t i = 0; i < n; i++) {
            C want = cut && i == from + len ? C(0) : text[i];
            PBT_CHECK(buf[i] == want, "character ", i, " of the buffer is ", long(buf[i]), ", expected ", long(want));
        }
    }
    h.reset();
    PBT_CHECK(S(buf.get(), n) == text, "the buffer is changed after the helper was destroyed");
    if (ever) s.nontrivial();
}

PBT_TARGETS({"reverse.int", reverse<int>, 2}, {"reverse.item", reverse<Item>, 1}, {"sequences", sequences, 2}, {"swap.str", swapping<std::string>, 1}, {"swap.obj", swapping<VObj>, 1},
            {"alignment", alignment, 2}, {"array", array, 3}, {"helper.char", helper<char>, 1}, {"helper.wchar", helper<wchar_t>, 1});
