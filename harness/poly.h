#pragma once
#include "sx_repo.h"
#include "util/polynomial.h"
#include "util.h"

using namespace matslise;
typedef sx::SymT<1> S;

namespace {
    template<int n>
    Polynomial<S, n> symbolic(const std::string &name) {
        Polynomial<S, n> p;
        for (int i = 0; i <= n; ++i) p[i] = S(sx::inVar(sxn(name, i), -4, 4));
        return p;
    }

    inline S power(const S &x, int n) {
        S r(1);
        for (int i = 0; i < n; ++i) r = r * x;
        return r;
    }

    template<int n>
    S value(const Polynomial<S, n> &p, const S &x) {
        S r(0);
        for (int i = 0; i <= n; ++i) r = r + p[i] * power(x, i);
        return r;
    }

    template<int n, int m, typename F>
    void checkCoefficients(const std::string &label, const Polynomial<S, m> &p, const F &f) {
        static_assert(n == m, "degree of the result");
        for (int i = 0; i <= n; ++i) sx::checkEq(label, p[i], f(i));
    }
}
