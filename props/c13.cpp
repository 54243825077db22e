// C13: jstd::basic_string_view behaves like std::basic_string_view.
#include "strgen.hpp"
#include <jstd/string/string_view.h>
using namespace pt;

template <class C> struct ostr { static constexpr bool ok = false; };
template <> struct ostr<char> { static constexpr bool ok = true; };
template <> struct ostr<wchar_t> { static constexpr bool ok = true; };

template <class C>
void prop(Src & s) {
    using S = std::basic_string<C>;
    using SV = std::basic_string_view<C>;
    using V = jstd::basic_string_view<C>;
    bool nt = false;
    S a = draw_string<C>(s), b = draw_related<C>(s, a);
    std::unique_ptr<Buf<C>> A(new Buf<C>(s, a)), B(new Buf<C>(s, b));
    V v(A->data(), a.size()), w(B->data(), b.size());
    auto check = [&](const V & x, const S & m, const char * what) {
        PBT_CHECK(x.size() == m.size() && x.length() == m.size() && x.empty() == m.empty(), what, ": size() is ", x.size(), ", expected ", m.size());
        PBT_CHECK(S(x.data(), x.size()) == m, what, ": the characters differ from ", show(m));
    };
    auto pos = [&](size_t n) { switch (s.draw(6)) { case 0: return n; case 1: return n + 1 + s.draw(3); case 2: return size_t(0); default: return size_t(s.draw(uint32_t(n + 1))); } };
    auto cnt = [&](size_t n) { switch (s.draw(6)) { case 0: return S::npos; case 1: return S::npos - s.draw(40); case 2: return n; default: return size_t(s.draw(uint32_t(n + 3))); } };
    s.set_ops(12);
    while (s.more()) {
        SV x(a), y(b);
        int op = int(s.draw(14));
        s.log("op ", op, " a ", show(a), " b ", show(b));
        switch (op) {
            case 0: case 1: {
                int c = sgn(x.compare(y));
                PBT_CHECK(sgn(v.compare(w)) == c && sgn(w.compare(v)) == -c, "compare() is ", v.compare(w), ", expected sign ", c, "; a ", show(a), " b ", show(b));
                PBT_CHECK((v == w) == (c == 0) && (v != w) == (c != 0), "== is wrong; a ", show(a), " b ", show(b));
                PBT_CHECK((v < w) == (c < 0), "< is wrong; a ", show(a), " b ", show(b));
                PBT_CHECK((v <= w) == (c <= 0), "<= is wrong; a ", show(a), " b ", show(b));
                PBT_CHECK((v > w) == (c > 0), "> is wrong; a ", show(a), " b ", show(b));
                PBT_CHECK((v >= w) == (c >= 0), ">= is wrong; a ", show(a), " b ", show(b));
                PBT_CHECK(v.is_equal(w) == (c == 0) && v.is_equal(b) == (c == 0), "is_equal() is wrong; a ", show(a), " b ", show(b));
                PBT_CHECK(sgn(v.compare(b)) == c, "compare(string) is wrong; a ", show(a), " b ", show(b));
                V z;
                PBT_CHECK((z == v) == a.empty() && (v == z) == a.empty() && (z < v) == !a.empty() && !(v < z) && z == V(), "comparison with a null view is wrong; a ", show(a));
                if (c && a.size() > 4 && b.size() > 4) nt = true;
                size_t i = s.chance(1, 2) ? 0 : s.draw(uint32_t(a.size() + 1)), n1 = s.draw(uint32_t(a.size() - i + 1)), j = s.chance(1, 2) ? i : s.draw(uint32_t(a.size() + 1)), n2 = s.draw(uint32_t(a.size() - j + 1));
                V p1(v.data() + i, n1), p2(v.data() + j, n2);
                c = sgn(x.substr(i, n1).compare(x.substr(j, n2)));
                PBT_CHECK(sgn(p1.compare(p2)) == c && (p1 == p2) == (c == 0) && (p1 != p2) == (c != 0) && (p1 < p2) == (c < 0) && (p1 <= p2) == (c <= 0) && (p1 > p2) == (c > 0) && (p1 >= p2) == (c >= 0),
                          "comparison of the parts ", i, "+", n1, " and ", j, "+", n2, " of ", show(a), " is wrong, expected sign ", c);
                break;
            }
            case 2: {   // terminated strings
                S t = b.substr(0, b.find(C(0)));
                Buf<C> bt(s, t, 1);
                int c = sgn(x.compare(SV(t)));
                PBT_CHECK(sgn(v.compare(bt.data())) == c && v.is_equal(bt.data()) == (c == 0), "compare(const char *) is ", v.compare(bt.data()), ", expected sign ", c, "; a ", show(a), " b ", show(t));
                V u(bt.data() + 0);
                PBT_CHECK(u.size() == t.size() && u == V(t), "construction from a terminated string is wrong");
                break;
            }
            case 3: {   // parts
                size_t p = pos(a.size()), n = cnt(a.size()), p2 = pos(b.size()), n2 = cnt(b.size());
                bool t1 = p > a.size(), t2 = p2 > b.size();
                s.log("   pos ", p, " count ", n, " pos2 ", p2, " count2 ", n2);
                int c = 0, c2 = 0, got = 0;
                bool e = false, thrown = false;
                if (!t1) c = sgn(x.compare(p, n, y));
                try { got = v.compare(p, n, w); e = v.is_equal(p, n, w); } catch (const std::out_of_range &) { thrown = true; }
                PBT_CHECK(thrown == t1, "compare(", p, ", ", n, ", view) at size ", a.size(), thrown ? " throws" : " does not throw");
                if (!t1) PBT_CHECK(sgn(got) == c && e == (c == 0), "compare(", p, ", ", n, ", view) is ", got, ", is_equal() ", e, ", expected sign ", c, "; a ", show(a), " b ", show(b));
                thrown = false;
                if (!t1 && !t2) c2 = sgn(x.compare(p, n, y, p2, n2));
                try { got = v.compare(p, n, w, p2, n2); e = v.is_equal(p, n, w, p2, n2); } catch (const std::out_of_range &) { thrown = true; }
                PBT_CHECK(thrown == (t1 || t2), "compare(pos, count, view, pos2, count2)", thrown ? " throws" : " does not throw");
                if (!thrown) PBT_CHECK(sgn(got) == c2 && e == (c2 == 0), "compare(", p, ", ", n, ", view, ", p2, ", ", n2, ") is ", got, ", is_equal() ", e, ", expected sign ", c2, "; a ", show(a), " b ", show(b));
                S t = b.substr(0, b.find(C(0)));
                Buf<C> bt(s, t, 1);
                if (!t1) {
                    c = sgn(x.compare(p, n, SV(t)));
                    PBT_CHECK(sgn(v.compare(p, n, bt.data())) == c && v.is_equal(p, n, bt.data()) == (c == 0), "compare(", p, ", ", n, ", const char *) is wrong; a ", show(a), " b ", show(t));
                    size_t k = std::min(n2, t.size());
                    c = sgn(x.compare(p, n, SV(t.data(), k)));
                    PBT_CHECK(sgn(v.compare(p, n, bt.data(), k)) == c && v.is_equal(p, n, bt.data(), k) == (c == 0), "compare(", p, ", ", n, ", const char *, ", k, ") is wrong; a ", show(a), " b ", show(t));
                } else {
                    auto throws = [&](const char * what, auto f) { bool t = false; try { (void)f(); } catch (const std::out_of_range &) { t = true; } PBT_CHECK(t, what, " at position ", p, " of a view of ", a.size(), " characters does not throw"); };
                    throws("is_equal(pos, count, view)", [&] { return v.is_equal(p, n, w); });
                    throws("is_equal(pos, count, view, 0, count)", [&] { return v.is_equal(p, n, w, 0, n2); });
                    throws("compare(pos, count, const char *)", [&] { return v.compare(p, n, bt.data()); });
                    throws("is_equal(pos, count, const char *)", [&] { return v.is_equal(p, n, bt.data()); });
                    throws("compare(pos, count, const char *, count)", [&] { return v.compare(p, n, bt.data(), t.size()); });
                    throws("is_equal(pos, count, const char *, count)", [&] { return v.is_equal(p, n, bt.data(), t.size()); });
                }
                if (t2 && !t1) {
                    bool t3 = false;
                    try { (void)v.is_equal(p, n, w, p2, n2); } catch (const std::out_of_range &) { t3 = true; }
                    PBT_CHECK(t3, "is_equal(pos, count, view, ", p2, ", count) with a view of ", b.size(), " characters does not throw");
                }
                nt = true;
                break;
            }
            case 4: {   // substr
                size_t p = pos(a.size()), n = cnt(a.size());
                bool thrown = false;
                V u;
                try { u = v.substr(p, n); } catch (const std::out_of_range &) { thrown = true; }
                PBT_CHECK(thrown == (p > a.size()), "substr(", p, ", ", n, ") at size ", a.size(), thrown ? " throws" : " does not throw");
                if (!thrown) {
                    check(u, a.substr(p, n), cat("substr(", p, ", ", n, ")").c_str());
                    PBT_CHECK(u.data() == v.data() + p, "substr() does not refer to the same characters");
                    if (s.chance(1, 3)) { v = u; a = a.substr(p, n); }
                }
                break;
            }
            case 5: {   // copy
                size_t p = pos(a.size()), n = cnt(a.size()), room = p <= a.size() ? std::min(n, a.size() - p) : 0;
                Buf<C> d(s, S(room, C('#')));
                bool thrown = false;
                size_t r = 0;
                try { r = v.copy(d.p, n, p); } catch (const std::out_of_range &) { thrown = true; }
                PBT_CHECK(thrown == (p > a.size()), "copy(dest, ", n, ", ", p, ") at size ", a.size(), thrown ? " throws" : " does not throw");
                if (!thrown) PBT_CHECK(r == room && S(d.p, room) == a.substr(p, n), "copy(dest, ", n, ", ", p, ") returns ", r, ", expected ", room, ", or copies wrong characters");
                break;
            }
            case 6: {   // element access and iteration
                const V & cv = v;
                for (size_t i = 0; i < a.size(); i++) PBT_CHECK(v[i] == a[i] && cv[i] == a[i] && v.at(i) == a[i] && cv.at(i) == a[i], "element ", i, " is wrong");
                size_t bad = a.size() + s.draw(3);
                int thrown = 0;
                try { (void)v.at(bad); } catch (const std::out_of_range &) { thrown++; }
                try { (void)cv.at(bad); } catch (const std::out_of_range &) { thrown++; }
                PBT_CHECK(thrown == 2, "at(", bad, ") at size ", a.size(), " does not throw");
                if (!a.empty()) PBT_CHECK(v.front() == a.front() && v.back() == a.back(), "front() or back() is wrong");
                S r, q;
                for (C c : v) r += c;
                for (auto it = cv.cbegin(); it != cv.cend(); it++) q += *it;
                PBT_CHECK(r == a && q == a, "iteration does not visit the characters");
                S z;
                for (auto it = v.end(); it != v.begin();) { auto old = it--; PBT_CHECK(old - it == 1 && it < old && old > it && it <= old && old >= it, "iterator comparison is wrong"); z += *it; }
                std::reverse(z.begin(), z.end());
                PBT_CHECK(z == a, "backward iteration does not visit the characters");
                PBT_CHECK(size_t(v.end() - v.begin()) == a.size() && size_t(v.cend() - v.cbegin()) == a.size(), "end() - begin() is wrong");
                if (!a.empty()) { size_t i = s.draw(uint32_t(a.size())); auto it = v.begin() + std::ptrdiff_t(i); PBT_CHECK(*it == a[i] && v.begin()[std::ptrdiff_t(i)] == a[i] && *(v.end() - std::ptrdiff_t(a.size() - i)) == a[i], "iterator arithmetic is wrong"); }
                break;
            }
            case 7: {
                PBT_CHECK(v.to_string() == a, "to_string() is wrong for ", show(a));
                if constexpr (ostr<C>::ok) { std::basic_ostringstream<C> o; o << v; PBT_CHECK(o.str() == a, "operator << writes ", show(o.str()), " for ", show(a)); }
                break;
            }
            case 8: {
                int f = int(s.draw(3));
                if (f == 0) v.swap(w); else if (f == 1) { using std::swap; swap(v, w); } else std::swap(v, w);
                std::swap(a, b); std::swap(A, B);
                break;
            }
            case 9: {   // new contents
                S n = s.chance(1, 3) ? draw_related<C>(s, a) : draw_string<C>(s);
                std::unique_ptr<Buf<C>> N(new Buf<C>(s, n, 1));
                bool term = n.find(C(0)) == S::npos;
                switch (s.draw(7)) {
                    case 0: w = V(N->data(), n.size()); break;
                    case 1: w.attach(N->data(), n.size()); break;
                    case 2: w.attach(N->data(), N->data() + n.size()); break;
                    case 3: if (term) w.attach(N->data()); else w.attach(N->data(), n.size()); break;
                    case 4: if (term) w = N->data(); else w = V(N->data(), N->data() + n.size()); break;
                    case 5: { size_t f = s.draw(uint32_t(n.size() + 1)); w.attach(N->data(), f, n.size()); n = n.substr(f); break; }
                    default: { V u(N->data(), n.size()); w.attach(u); break; }
                }
                B = std::move(N); b = n;
                break;
            }
            case 10: {  // views of containers
                V u(b);
                check(u, b, "a view of a string");
                PBT_CHECK(u.data() == b.data(), "a view of a string does not refer to it");
                std::vector<C> vec(b.begin(), b.end());
                V t(vec);
                check(t, b, "a view of a vector");
                V k; k = b; check(k, b, "a view assigned from a string");
                k.attach(b); check(k, b, "a view attached to a string");
                V c(v); check(c, a, "a copy");
                c.clear(); check(c, S(), "a cleared view");
                break;
            }
            case 11: {  // appending in a buffer with room
                size_t room = b.size() + 3;
                Buf<C> d(s, S(), room + 1);
                V u(static_cast<const C *>(d.p), size_t(0));
                S m;
                size_t i = s.draw(uint32_t(b.size() + 1)), j = i + s.draw(uint32_t(b.size() - i + 1));
                u.append(b.data(), i); m.append(b, 0, i);
                if (s.chance(1, 2)) u.append(b.data() + i, b.data() + j); else u.append(b.begin() + std::ptrdiff_t(i), b.begin() + std::ptrdiff_t(j));
                m.append(b, i, j - i);
                for (size_t q = j; q < b.size(); q++) { u.push_back(b[q]); m += b[q]; }
                u.append(size_t(2), C('x')); m.append(2, C('x'));
                check(u, m, "appending");
                PBT_CHECK(u.read_last() == C(0), "appending does not terminate the string");
                break;
            }
            case 12: {  // moving the ends
                if (a.size() >= 2) { size_t k = s.draw(uint32_t(a.size())); v.shrink(k); check(v, a.substr(0, a.size() - k), "shrink()"); v.expand(k); check(v, a, "expand()"); v.commit(k); v.shrink(k); check(v, a.substr(k), "commit()"); v.comsume(k); v.expand(k); }
                break;
            }
            default: { const C arr[4] = {C('a'), C('b'), C('c'), C(0)}; V u(arr); check(u, S{C('a'), C('b'), C('c')}, "a view of an array"); u.clear(); u.attach(arr); check(u, S{C('a'), C('b'), C('c')}, "a view attached to an array"); }
        }
        check(v, a, "the first view");
        check(w, b, "the second view");
    }
    if (nt) s.nontrivial();
}
PBT_TARGETS({"char", prop<char>, 3}, {"wchar_t", prop<wchar_t>, 1}, {"char16_t", prop<char16_t>, 1}, {"char32_t", prop<char32_t>, 1}, {"unsigned char", prop<unsigned char>, 1}, {"short", prop<short>, 1});
