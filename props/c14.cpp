// C14: the string comparison primitives compare exactly the characters given to them and read nothing else.
#include "strgen.hpp"
#include <jstd/string/string_view.h>
#include <jstd/string/string_utils.h>
using namespace pt;

template <class C>
void prop(Src & s) {
    using S = std::basic_string<C>;
    using T = std::char_traits<C>;
    bool nt = false;
    s.set_ops(8);
    while (s.more()) {
        S a = draw_string<C>(s), b = draw_related<C>(s, a);
        Buf<C> A(s, a), B(s, b);
        const C * p = A.data(), * q = B.data();
        size_t m = std::min(a.size(), b.size());
        size_t n = s.chance(1, 2) ? m : s.draw(uint32_t(m + 1));
        s.log("a ", show(a), " b ", show(b), " count ", n);
        bool eqn = T::compare(a.data(), b.data(), n) == 0, eq = a == b;
        int cn = sgn(T::compare(a.data(), b.data(), n)), c = sgn(a.compare(b));
        if (!eq && m > 8 && T::compare(a.data(), b.data(), std::min<size_t>(m, 4)) == 0) nt = true;
#define EQ(expr, want) PBT_CHECK((expr) == (want), #expr, " is ", (expr), ", expected ", (want), "; a ", show(a), " b ", show(b), " count ", n)
#define CMP(expr, want) PBT_CHECK(sgn(expr) == (want), #expr, " is ", (expr), ", expected sign ", (want), "; a ", show(a), " b ", show(b), " count ", n)
        namespace U = jstd::str_utils;
        namespace L = jstd::libc;
        namespace X = jstd::stl;
        EQ(U::is_equal(p, q, n), eqn);
        EQ(U::is_equal(p, a.size(), q, b.size()), eq);
        EQ(U::is_equal_unsafe(p, a.size(), q, b.size()), eq);
        EQ(U::is_equal_safe(p, q, n), eqn);
        EQ(U::is_equal_safe(p, a.size(), q, b.size()), eq);
        EQ(L::StrEqual(p, q, n), eqn);
        EQ(L::StrEqual(p, a.size(), q, b.size()), eq);
        EQ(L::StrEqualSafe(p, a.size(), q, b.size()), eq);
        EQ(X::StrEqual(p, q, n), eqn);
        EQ(X::StrEqual(p, a.size(), q, b.size()), eq);
        EQ(X::StrEqualSafe(p, a.size(), q, b.size()), eq);
        CMP(U::compare(p, q, n), cn);
        CMP(U::compare(p, a.size(), q, b.size()), c);
        CMP(U::compare(q, b.size(), p, a.size()), -c);
        CMP(U::compare_unsafe(p, q, n), cn);
        CMP(U::compare_unsafe(p, a.size(), q, b.size()), c);
        CMP(U::compare_safe(p, q, n), cn);
        CMP(U::compare_safe(p, a.size(), q, b.size()), c);
        CMP(L::StrCmp(p, q, n), cn);
        CMP(L::StrCmp(p, a.size(), q, b.size()), c);
        CMP(L::StrCmpSafe(p, a.size(), q, b.size()), c);
        CMP(X::StrCmp(p, q, n), cn);
        CMP(X::StrCmp(p, a.size(), q, b.size()), c);
        CMP(X::StrCmpSafe(p, a.size(), q, b.size()), c);
        // overlapping parts of the same memory
        {
            size_t i = s.chance(1, 3) ? 0 : s.draw(uint32_t(a.size() + 1)), l1 = s.draw(uint32_t(a.size() - i + 1));
            size_t j = s.chance(1, 2) ? i : s.draw(uint32_t(a.size() + 1)), l2 = s.draw(uint32_t(a.size() - j + 1));
            const C * x = p + i, * y = p + j;
            S xs = a.substr(i, l1), ys = a.substr(j, l2);
            bool pe = xs == ys;
            int pc = sgn(xs.compare(ys));
#define PARTS " of the parts ", i, "+", l1, " and ", j, "+", l2, " of ", show(a)
#define PEQ(expr) PBT_CHECK((expr) == pe, #expr, PARTS, " is ", (expr))
#define PCMP(expr) PBT_CHECK(sgn(expr) == pc, #expr, PARTS, " is ", (expr), ", expected sign ", pc)
            PEQ(U::is_equal(x, l1, y, l2)); PEQ(U::is_equal_unsafe(x, l1, y, l2)); PEQ(U::is_equal_safe(x, l1, y, l2));
            PEQ(L::StrEqual(x, l1, y, l2)); PEQ(L::StrEqualSafe(x, l1, y, l2)); PEQ(X::StrEqual(x, l1, y, l2)); PEQ(X::StrEqualSafe(x, l1, y, l2));
            PCMP(U::compare(x, l1, y, l2)); PCMP(U::compare_unsafe(x, l1, y, l2)); PCMP(U::compare_safe(x, l1, y, l2));
            PCMP(L::StrCmp(x, l1, y, l2)); PCMP(L::StrCmpSafe(x, l1, y, l2)); PCMP(X::StrCmp(x, l1, y, l2)); PCMP(X::StrCmpSafe(x, l1, y, l2));
        }
        // the same memory
        EQ(U::is_equal(p, a.size(), p, a.size()), true);
        CMP(U::compare(p, a.size(), p, a.size()), 0);
        CMP(U::compare_safe(p, a.size(), p, a.size()), 0);
        // whole strings
        EQ(U::is_equal_unsafe(a, b), eq);
        EQ(U::is_equal_safe(a, b), eq);
        CMP(U::compare_unsafe(a, b), c);
        CMP(U::compare_safe(a, b), c);
        EQ(L::StrEqualUnsafe(a, b), eq);
        CMP(L::StrCmpUnsafe(a, b), c);
        EQ(X::StrEqualUnsafe(a, b), eq);
        CMP(X::StrCmpUnsafe(a, b), c);
        EQ(L::StrEqualSafe(a, b), eq);
        CMP(L::StrCmpSafe(a, b), c);
        EQ(X::StrEqualSafe(a, b), eq);
        CMP(X::StrCmpSafe(a, b), c);
        if (a.size() == b.size()) { EQ(U::is_equal_flat(a, b), eq); EQ(U::is_equal_flat_safe(a, b), eq); }
        // null and empty
        const C * z = nullptr;
        EQ(U::is_equal_safe(z, size_t(0), z, size_t(0)), true);
        CMP(U::compare_safe(z, size_t(0), z, size_t(0)), 0);
        EQ(L::StrEqualSafe(z, size_t(0), z, size_t(0)), true);
        EQ(X::StrEqualSafe(z, size_t(0), z, size_t(0)), true);
        CMP(L::StrCmpSafe(z, size_t(0), z, size_t(0)), 0);
        CMP(X::StrCmpSafe(z, size_t(0), z, size_t(0)), 0);
        EQ(L::StrLenSafe(z), size_t(0));
        EQ(U::is_equal_safe(z, size_t(0), p, a.size()), a.empty());
        CMP(U::compare_safe(z, size_t(0), p, a.size()), a.empty() ? 0 : -1);
        CMP(U::compare_safe(p, a.size(), z, size_t(0)), a.empty() ? 0 : 1);
        // terminated strings
        S at = a.substr(0, a.find(C(0))), bt = b.substr(0, b.find(C(0)));
        Buf<C> AT(s, at, 1), BT(s, bt, 1);
        EQ(L::StrLen(AT.data()), at.size());
        EQ(L::StrEqual(AT.data(), BT.data()), at == bt);
        EQ(X::StrEqual(AT.data(), BT.data()), at == bt);
        // the first character that differs decides, the terminator included
        int ct = sgn(T::compare(at.c_str(), bt.c_str(), std::min(at.size(), bt.size()) + 1));
        EQ(L::StrLenSafe(AT.data()), at.size());
        CMP(L::StrCmp(AT.data(), BT.data()), ct);
        CMP(X::StrCmp(AT.data(), BT.data()), ct);
        CMP(U::compare(AT.data(), BT.data()), ct);
        // copying
        Buf<C> D(s, S(n, C('#')));
        U::mem_copy(D.p, p, n);
        PBT_CHECK(S(D.p, n) == a.substr(0, n), "mem_copy() of ", n, " characters is wrong");
        Buf<C> E(s, S(n, C('#')));
        U::mem_copy(static_cast<void *>(E.p), static_cast<const void *>(p), n * sizeof(C));
        PBT_CHECK(S(E.p, n) == a.substr(0, n), "mem_copy() of ", n * sizeof(C), " bytes is wrong");
        size_t k = s.draw(uint32_t(at.size() + 4));
        S was;
        for (size_t i = 0; i < k; i++) was += draw_char<C>(s, 4);
        Buf<C> F(s, was);
        U::str_copy(F.p, AT.data(), k);
        S got(F.p, k), cut = at.substr(0, k);
        PBT_CHECK(got.substr(0, cut.size()) == cut, "str_copy() of at most ", k, " characters of ", show(at), " makes ", show(got), " of ", show(was));
        if (k > cut.size()) PBT_CHECK(got[cut.size()] == C(0), "str_copy() of at most ", k, " characters of ", show(at), " is not terminated: ", show(got), " of ", show(was));
    }
    if (nt) s.nontrivial("strings that differ behind a common prefix");
}
PBT_TARGETS({"char", prop<char>, 4}, {"wchar_t", prop<wchar_t>, 3}, {"char16_t", prop<char16_t>, 1}, {"char32_t", prop<char32_t>, 1}, {"unsigned char", prop<unsigned char>, 1},
            {"unsigned short", prop<unsigned short>, 1}, {"uint32_t", prop<uint32_t>, 1}, {"signed char", prop<signed char>, 1}, {"short", prop<short>, 1}, {"int", prop<int>, 1});
