// Polynomials of fixed degree: every operation against its definition, all coefficients and arguments symbolic.
// sx: tags 1
// sx: skip matscs liouville matslise util
// sx: libs -Wl,--unresolved-symbols=ignore-all
#include "poly.h"

namespace {
    template<int n>
    void scalarOperations() {
        auto p = symbolic<n>("p");
        S s(sx::inVar("s", -4, 4)), x(sx::inVar("x", -4, 4));
        auto v = [&](int i) { return p[i]; };
        checkCoefficients<n>("C12.plus-scalar", p + s, [&](int i) { return i ? v(i) : v(i) + s; });
        checkCoefficients<n>("C12.minus-scalar", p - s, [&](int i) { return i ? v(i) : v(i) - s; });
        checkCoefficients<n>("C12.scalar-plus", s + p, [&](int i) { return i ? v(i) : v(i) + s; });
        checkCoefficients<n>("C12.scalar-minus", s - p, [&](int i) { return i ? -v(i) : s - v(i); });
        checkCoefficients<n>("C12.times-scalar", p * s, [&](int i) { return s * v(i); });
        checkCoefficients<n>("C12.scalar-times", s * p, [&](int i) { return s * v(i); });
        checkCoefficients<n>("C12.negative", -p, [&](int i) { return -v(i); });
        checkCoefficients<n>("C12.positive", +p, [&](int i) { return v(i); });
        auto q = p;
        q += s;
        checkCoefficients<n>("C12.plus-scalar", q, [&](int i) { return i ? v(i) : v(i) + s; });
        q = p;
        q -= s;
        checkCoefficients<n>("C12.minus-scalar", q, [&](int i) { return i ? v(i) : v(i) - s; });
        q = p;
        q *= s;
        checkCoefficients<n>("C12.times-scalar", q, [&](int i) { return s * v(i); });
        S d(sx::inVar("divisor", 0.5, 4));
        q = p / d;
        for (int i = 0; i <= n; ++i) sx::checkEq("C12.divided", q[i] * d, v(i));
        q = p;
        q /= d;
        for (int i = 0; i <= n; ++i) sx::checkEq("C12.divided", q[i] * d, v(i));
        sx::checkEq("C12.value", p(x), value(p, x));
        sx::checkC("C12.size", sx::cBool(p.size() == n + 1 && p.degree == n));
        sx::checkC("C12.equal", sx::cBool(p == p) && sx::cBool(!(p != p)));
        auto other = p;
        int where = sx::inChoose("changed coefficient", 0, n);
        other[where] = other[where] + 1;
        sx::checkC("C12.equal", sx::cBool(p != other) && sx::cBool(!(p == other)));
        Polynomial<S, n> c(s);
        checkCoefficients<n>("C12.constant", c, [&](int i) { return i ? S(0) : s; });
        Polynomial<S, n> zero;
        checkCoefficients<n>("C12.zero", zero, [&](int) { return S(0); });
        if constexpr (n >= 1) {
            Polynomial<S, n> list({v(0), v(1)});
            checkCoefficients<n>("C12.list", list, [&](int i) { return i > 1 ? S(0) : v(i); });
        }
        Polynomial<S, n + 2> raised(p);
        checkCoefficients<n + 2>("C12.raised-degree", raised, [&](int i) { return i > n ? S(0) : v(i); });
        sx::reach("degree");
    }

    template<int n, int d>
    void derivatives() {
        auto p = symbolic<n>("p");
        S x(sx::inVar("x", -4, 4));
        auto falling = [](int i) {
            S f(1);
            for (int j = 0; j < d; ++j) f = f * S(i - j);
            return f;
        };
        S r(0);
        for (int i = d; i <= n; ++i) r = r + falling(i) * p[i] * power(x, i - d);
        sx::checkEq("C12.derivative-at-point", p.template derivative<d>(x), r);
        if constexpr (d <= n) {
            auto q = p.template derivative<d>();
            static_assert(decltype(q)::degree == n - d, "degree of a derivative");
            for (int i = 0; i + d <= n; ++i) sx::checkEq("C12.derivative", q[i], falling(i + d) * p[i + d]);
            sx::checkEq("C12.derivative-value", q(x), p.template derivative<d>(x));
        }
        sx::reach("derivative");
    }

    template<int n>
    void integrals() {
        auto p = symbolic<n>("p");
        S x(sx::inVar("x", -4, 4));
        auto q = p.integral();
        sx::checkEq("C12.integral-at-zero", q[0], S(0));
        sx::checkEq("C12.integral-at-zero", p.integral(S(0)), S(0));
        for (int i = 0; i <= n; ++i) sx::checkEq("C12.integral", q[i + 1] * S(i + 1), p[i]);
        sx::checkEq("C12.integral-value", p.integral(x), q(x));
        auto r = q.derivative();
        checkCoefficients<n>("C12.integral-then-derivative", r, [&](int i) { return p[i]; });
        sx::reach("integral");
    }

    template<int n, int m>
    void products() {
        auto p = symbolic<n>("p");
        auto q = symbolic<m>("q");
        auto r = p * q;
        static_assert(decltype(r)::degree == n + m, "degree of a product");
        checkCoefficients<n + m>("C12.product", r, [&](int k) {
            S s(0);
            for (int i = 0; i <= n; ++i) if (k - i >= 0 && k - i <= m) s = s + p[i] * q[k - i];
            return s;
        });
        S x(sx::inVar("x", -4, 4));
        sx::checkEq("C12.product-value", r(x), value(p, x) * value(q, x));
        sx::reach("product");
    }
}

HARNESS(poly_scalar, "C12", "quick=10 thorough=60 crash=C12") {
    sx::note("polynomials of degree 0, 1, 2, 3, 5, 8 and 10 with arbitrary coefficients, scalars and arguments in [-4, 4]");
    switch (sx::inChoose("degree", 0, 6)) {
        case 0: return scalarOperations<0>();
        case 1: return scalarOperations<1>();
        case 2: return scalarOperations<2>();
        case 3: return scalarOperations<3>();
        case 4: return scalarOperations<5>();
        case 5: return scalarOperations<8>();
        default: return scalarOperations<10>();
    }
}

HARNESS(poly_derivative, "C12", "quick=10 thorough=60 crash=C12") {
    sx::note("derivatives of order 0 to 4 (and beyond the degree at a point) of polynomials of degree 0 to 10");
    switch (sx::inChoose("case", 0, 15)) {
        case 0: return derivatives<0, 0>();
        case 1: return derivatives<3, 0>();
        case 2: return derivatives<8, 0>();
        case 3: return derivatives<1, 1>();
        case 4: return derivatives<3, 1>();
        case 5: return derivatives<8, 1>();
        case 6: return derivatives<10, 1>();
        case 7: return derivatives<2, 2>();
        case 8: return derivatives<3, 2>();
        case 9: return derivatives<8, 2>();
        case 10: return derivatives<10, 2>();
        case 11: return derivatives<3, 3>();
        case 12: return derivatives<8, 3>();
        case 13: return derivatives<8, 4>();
        case 14: return derivatives<2, 4>();
        default: return derivatives<0, 1>();
    }
}

HARNESS(poly_integral, "C12", "quick=10 thorough=60 crash=C12") {
    switch (sx::inChoose("degree", 0, 5)) {
        case 0: return integrals<0>();
        case 1: return integrals<1>();
        case 2: return integrals<2>();
        case 3: return integrals<3>();
        case 4: return integrals<8>();
        default: return integrals<10>();
    }
}

HARNESS(poly_product, "C12", "quick=10 thorough=60 crash=C12") {
    switch (sx::inChoose("degrees", 0, 6)) {
        case 0: return products<0, 0>();
        case 1: return products<0, 3>();
        case 2: return products<3, 0>();
        case 3: return products<2, 3>();
        case 4: return products<4, 2>();
        case 5: return products<5, 5>();
        default: return products<8, 8>();
    }
}
