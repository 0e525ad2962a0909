// Sums and differences of polynomials, of equal and of different degrees.
// sx: tags 1
// sx: skip matscs liouville matslise util
// sx: libs -Wl,--unresolved-symbols=ignore-all
// sx: mustcompile C12
#include "poly.h"

namespace {
    template<int n, int m>
    void sums() {
        constexpr int k = n > m ? n : m;
        auto p = symbolic<n>("p");
        auto q = symbolic<m>("q");
        auto a = [&](int i) { return i <= n ? p[i] : S(0); };
        auto b = [&](int i) { return i <= m ? q[i] : S(0); };
        Polynomial<S, k> sum = p + q, difference = p - q;
        checkCoefficients<k>("C12.sum", sum, [&](int i) { return a(i) + b(i); });
        checkCoefficients<k>("C12.difference", difference, [&](int i) { return a(i) - b(i); });
        if constexpr (m <= n) {
            auto r = p;
            r += q;
            checkCoefficients<n>("C12.sum", r, [&](int i) { return a(i) + b(i); });
            r = p;
            r -= q;
            checkCoefficients<n>("C12.difference", r, [&](int i) { return a(i) - b(i); });
        }
        // the operands are unchanged
        auto p2 = symbolic<n>("p");
        for (int i = 0; i <= n; ++i) sx::checkEq("C12.operands-unchanged", p[i], p2[i]);
        sx::reach("sum");
    }
}

HARNESS(poly_sum, "C12", "quick=10 thorough=60 crash=C12") {
    sx::note("sums and differences for the degrees (0,0), (3,3), (8,8), (2,5), (5,2), (0,4), (4,0), (8,10)");
    switch (sx::inChoose("degrees", 0, 7)) {
        case 0: return sums<0, 0>();
        case 1: return sums<3, 3>();
        case 2: return sums<8, 8>();
        case 3: return sums<2, 5>();
        case 4: return sums<5, 2>();
        case 5: return sums<0, 4>();
        case 6: return sums<4, 0>();
        default: return sums<8, 10>();
    }
}

