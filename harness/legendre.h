// Legendre projection: polynomials with arbitrary coefficients.
#pragma once
#define MATSLISE_LONG_DOUBLE
#define MATSLISE_QUADMATH
#include "sx_repo.h"
#include "util.h"

using namespace matslise;
using namespace matslise::legendre;
typedef boost::multiprecision::float128 Quad;

namespace {
    // the exact value of a table entry (up to 113 bits)
    template<int Tag, typename From> sx::SymT<Tag> exactly(const From &v) {
        double a = (double) v;
        From r = v - From(a);
        double b = (double) r;
        double c = (double) (From) (r - From(b));
        typedef sx::SymT<Tag> S;
        return S(sx::V{a, nullptr}) + S(sx::V{b, nullptr}) + S(sx::V{c, nullptr});
    }

    template<int Tag, int R, int C, typename From> Eigen::Array<sx::SymT<Tag>, R, C> exactTable(const From &from) {
        Eigen::Array<sx::SymT<Tag>, R, C> r;
        for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) r(i, j) = exactly<Tag>(from(i, j));
        return r;
    }
}

// tag 4: the tables of long double, tag 5: those of float128
namespace matslise::legendre {
#define TABLE(Tag, R, n) \
    template<> inline const Eigen::Array<sx::SymT<Tag>, n, 1> nodes<sx::SymT<Tag>, n> = ::exactTable<Tag, n, 1>(nodes<R, n>); \
    template<> inline const Eigen::Array<sx::SymT<Tag>, n, n> weights<sx::SymT<Tag>, n> = ::exactTable<Tag, n, n>(weights<R, n>);
#define TABLES(Tag, R) TABLE(Tag, R, 2) TABLE(Tag, R, 4) TABLE(Tag, R, 6) TABLE(Tag, R, 8) TABLE(Tag, R, 10) \
    TABLE(Tag, R, 12) TABLE(Tag, R, 14) TABLE(Tag, R, 16) TABLE(Tag, R, 18)
    TABLES(4, long double)
    TABLES(5, Quad)
}

namespace {
    template<typename R> struct Kind;
    template<> struct Kind<double> {
        typedef sx::SymT<1> S;
        static constexpr double eps = 2.3e-16;
    };
    template<> struct Kind<long double> {
        typedef sx::SymT<4> S;
        static constexpr double eps = 1.1e-19;
    };
    template<> struct Kind<Quad> {
        typedef sx::SymT<5> S;
        static constexpr double eps = 2e-34;
    };

    template<typename A> A absolute(const A &a) { return a < 0 ? A(-a) : a; }

    // symbolic: |a - b| <= tol for all inputs; native: in the arithmetic of the real scalar type (half of tol
    // suffices to confirm a counterexample of the solver)
    template<int Tag> void near(const std::string &label, const sx::SymT<Tag> &a, const sx::SymT<Tag> &b, double tol) {
        sx::checkEq(label, a, b, tol);
    }
    template<typename R> void near(const std::string &label, const R &a, const R &b, double tol) {
        sx::checkC(label, sx::cBool((double) absolute<R>(a - b) <= tol / 2));
    }

    template<typename A> A input(const std::string &n, double lo, double hi) {
        return A(sx::inVar(n, lo, hi));
    }
    template<> double input<double>(const std::string &n, double lo, double hi) { return sx::inVar(n, lo, hi).d; }
    template<> long double input<long double>(const std::string &n, double lo, double hi) { return sx::inVar(n, lo, hi).d; }
    template<> Quad input<Quad>(const std::string &n, double lo, double hi) { return sx::inVar(n, lo, hi).d; }

    // P_k(s)
    template<typename A> A legendreP(int k, const A &s) {
        A p = A(1), q = s;
        if (k == 0) return p;
        for (int i = 1; i < k; ++i) {
            A r = (A(2 * i + 1) * s * q - A(i) * p) / A(i + 1);
            p = q;
            q = r;
        }
        return q;
    }

    double binomial(int n, int k) {
        double r = 1;
        for (int i = 1; i <= k; ++i) r = r * (n - k + i) / i;
        return r;
    }

    // n coefficients, any interval, any polynomial sum_k q_k P_k of degree below n
    template<typename R, typename A, int n> void project() {
        const double eps = Kind<R>::eps;
        A m = input<A>("middle", -4, 4), h = input<A>("half width", 0.125, 4);
        A q[n];
        for (int k = 0; k < n; ++k) q[k] = input<A>(sxn("q", k), -1, 1);
        auto f = [&](const A &x) {
            A s = (x - m) / h, r = A(0);
            for (int k = 0; k < n; ++k) r = r + q[k] * legendreP<A>(k, s);
            return r;
        };
        Legendre<A, n> l(f, m - h, m + h);
        auto c = l.getCoefficients();
        A H(1);
        double slack = 4 * eps;
        for (int i = 0; i < n; ++i) {
            near<>("C11.coefficient", A(c[i] * H), q[i], slack * (2 * i + 1) * n);
            H = H * (A(2) * h);
        }
        near<>("C11.integral", A(l.integrate() / (A(2) * h)), q[0], slack * n);
        near<>("C11.mean", A(l.template integrate<false>()), q[0], slack * n);
        if constexpr (n <= 16) {
            auto &p = l.asPolynomial();
            for (int j = 0; j < n; ++j) {
                A expected = A(0);
                double size = 0;
                for (int k = j; k < n; ++k) {
                    double a = binomial(k, j) * binomial(k + j, j); // the coefficients of P_k(2t - 1), exact below 2^53
                    if ((k + j) % 2) a = -a;
                    expected = expected + q[k] * A(a);
                    size += std::abs(a) * (2 * k + 1);
                }
                near<>("C11.polynomial", A(p[j]), expected, slack * n * size);
            }
            // asking again returns the same
            auto &p2 = l.asPolynomial();
            auto c2 = l.getCoefficients();
            for (int j = 0; j < n; ++j) {
                near<>("C11.cached", A(p2[j]), A(p[j]), 0);
                near<>("C11.cached", A(c2[j]), A(c[j]), 0);
            }
        }
        sx::reach("projected");
    }

    template<typename R, int n> void both() {
        sx::setMaxTerms(200000);
        if (sx::symbolic()) project<R, typename Kind<R>::S, n>();
        else project<R, R, n>();
    }

    template<typename R> void sizes() {
        sx::note("every number of coefficients used or shipped (2 to 18, even, and 1, 3, 9, 11, 15), any polynomial of that "
                 "degree on any interval within [-8, 8]");
        switch (sx::inChoose("size", 0, 13)) {
            case 0: return both<R, 1>();
            case 1: return both<R, 2>();
            case 2: return both<R, 3>();
            case 3: return both<R, 4>();
            case 4: return both<R, 6>();
            case 5: return both<R, 8>();
            case 6: return both<R, 9>();
            case 7: return both<R, 10>();
            case 8: return both<R, 11>();
            case 9: return both<R, 12>();
            case 10: return both<R, 14>();
            case 11: return both<R, 15>();
            case 12: return both<R, 16>();
            default: return both<R, 18>();
        }
    }
}

