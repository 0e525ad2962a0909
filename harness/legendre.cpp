// Legendre projection with the tables of every shipped scalar type: polynomials with arbitrary coefficients.
// sx: tags 1
// sx: cxx g++
// sx: opt -O0 -std=gnu++17
// sx: skip matscs liouville matslise util
// sx: libs -Wl,--unresolved-symbols=ignore-all -lquadmath
#include "legendre.h"

HARNESS(legendre_double, "C11", "quick=25 thorough=200 crash=C11") { sizes<double>(); }

// matrix-valued functions, as used for coupled systems: entry by entry the scalar result
HARNESS(legendre_matrix, "C11", "quick=10 thorough=60 crash=C11") {
    typedef sx::SymT<1> S;
    typedef Eigen::Matrix<S, 2, 2> D;
    const int n = 9;
    S m(sx::inVar("middle", -4, 4)), h(sx::inVar("half width", 0.125, 4));
    S values[4][n + 1];
    S points[n + 1];
    for (int e = 0; e < 4; ++e)
        for (int k = 0; k <= n; ++k) values[e][k] = S(sx::inVar(sxn(sxn("v", e) + "_", k), -1, 1));
    int count = 0;
    auto matrix = [&](const S &x) {
        D d;
        int k = count++ % (n + 1);
        points[k] = x;
        for (int e = 0; e < 4; ++e) d(e / 2, e % 2) = values[e][k];
        return d;
    };
    Legendre<S, n, D> l(matrix, m - h, m + h);
    bool visited = count == n + 1;
    sx::checkC("C11.matrix-points", sx::cBool(visited));
    if (!visited) return;
    auto c = l.getCoefficients();
    D integral = l.integrate();
    for (int e = 0; e < 4; ++e) {
        int k = 0;
        Legendre<S, n> entry([&](const S &x) {
            sx::checkEq("C11.matrix-points", x, points[k]);
            return values[e][k++];
        }, m - h, m + h);
        auto ce = entry.getCoefficients();
        for (int i = 0; i < n; ++i) {
            sx::checkEq("C11.matrix-coefficient", c[i](e / 2, e % 2), ce[i]);
        }
        sx::checkEq("C11.matrix-integral", integral(e / 2, e % 2), entry.integrate());
    }
    sx::reach("matrix");
}
