// One sector: the coefficient tables, calculateT and their derivatives.
// sx: tags 1
// sx: native Multi
// sx: skip matscs liouville matslise/halfrange.cpp matslise/periodic.cpp matslise/matslise.cpp matslise/abstract_matslise.cpp util
// sx: libs -Wl,--unresolved-symbols=ignore-all
#include <map>
#include "matslise.h"
#include "sector.stubs.h"
#include "multi.h"
#include "sx_repo.h"
#include "util.h"

using namespace matslise;
typedef sx::SymT<1> S;
typedef Matslise<S> M;

namespace {
    S eta(int i) {
        return S(sx::atomNamed(sxn("eta", i)));
    }
    std::vector<S> argumentsZ; // the k-th one: its functions are named eta<k>_<i>, of the first one eta<i>

    template<int n> Eigen::Array<S, n, 1> etas(const S &Z) {
        Eigen::Array<S, n, 1> r;
        size_t k = 0;
        while (sx::symbolic() && k < argumentsZ.size() && !sx::sameV(argumentsZ[k].v, Z.v)) ++k;
        if (k == argumentsZ.size()) argumentsZ.push_back(Z);
        if (sx::symbolic()) for (int i = 0; i < n; ++i) r[i] = k ? S(sx::atomNamed(sxn(sxn("eta", k) + "_", i))) : eta(i);
        else {
            Eigen::Array<double, n, 1> d = calculateEta<double, n>(Z.v.d);
            for (int i = 0; i < n; ++i) r[i] = S(d[i]);
        }
        return r;
    }
}
template<> Eigen::Array<S, MATSLISE_ETA_delta, 1> calculateEta<S, MATSLISE_ETA_delta>(S Z) { return etas<MATSLISE_ETA_delta>(Z); }
#if MATSLISE_ETA_delta != MATSLISE_ETA_h
template<> Eigen::Array<S, MATSLISE_ETA_h, 1> calculateEta<S, MATSLISE_ETA_h>(S Z) { return etas<MATSLISE_ETA_h>(Z); }
#endif


namespace {
    typedef std::vector<std::pair<double, std::vector<int>>> Terms;

    template<typename R> struct OneSector : sector_builder::SectorBuilder<Matslise<R>> {
        Direction direction = none;
        sector_builder::SectorBuilderReturn<Matslise<R>>
        operator()(const Matslise<R> *p, const R &min, const R &max) const override {
            sector_builder::SectorBuilderReturn<Matslise<R>> r;
            r.sectors.push_back(std::make_unique<typename Matslise<R>::Sector>(p, min, max, direction));
            return r;
        }
    };

    template<typename R> struct Holder {
        OneSector<R> mesh;
        Matslise<R> ms;
        typename Matslise<R>::Sector &s;

        explicit Holder(const R &min = R(0), const R &max = R(1), Direction d = none,
                        const std::function<R(const R &)> &f = [](const R &) { return R(0); })
                : mesh(), ms(f, min, max, R(1e-8), (mesh.direction = d, mesh)), s(*ms.sectors[0]) {}
    };

    // total degree in delta and h of the monomials is cut off: the formal power series in the step
    S truncated(const S &x, int below) {
        return S(sx::mapMonomials(x.v, {"delta", "h"}, [&](const std::vector<int> &e) {
            Terms r;
            if (e[0] + e[1] < below) r.push_back({1., e});
            return r;
        }));
    }

    std::vector<std::string> etaNames() {
        std::vector<std::string> n{"W", "delta"};
        for (int i = 0; i <= MATSLISE_ETA_h + 2; ++i) n.push_back(sxn("eta", i));
        return n;
    }

    // W delta^2 eta_i = eta_{i-2} - (2i-3) eta_{i-1}, W = V0 - E, Z = W delta^2
    S reduced(S x) {
        for (int pass = 0; pass < 6; ++pass) {
            S y = S(sx::mapMonomials(x.v, etaNames(), [](const std::vector<int> &e) {
                int at = -1;
                for (size_t i = 4; i < e.size(); ++i)
                    if (e[i] == 1) at = (int) i - 2;
                if (e[0] < 1 || at < 2) return Terms{{1., e}};
                std::vector<int> a = e, b = e;
                a[0] = b[0] = e[0] - 1;
                a[1] = b[1] = e[1] - 2;
                a[2 + at] = b[2 + at] = 0;
                a[2 + at - 2] += 1;
                b[2 + at - 1] += 1;
                return Terms{{1., a}, {-(2. * at - 3), b}};
            }));
            if (y.v.p == x.v.p) break;
            x = y;
        }
        return x;
    }

    bool etaRuleDelta(const std::string &n, sx::V &v, const S &W, const S &d) {
        if (n.compare(0, 3, "eta")) return false;
        int k = atoi(n.c_str() + 3);
        v = k == 0 ? (W * d * eta(1)).v : ((eta(k - 1) - (2 * k - 1) * eta(k)) / d).v;
        return true;
    }

    // V0 + sum v_i h^i P_i(delta / h) - E, cut off
    S potentialPart(const M::Sector &s, const S &h, const S &d, int i) {
        S p = 0;
        // shifted Legendre polynomials by their recurrence in x = delta / h, homogenised
        S P0 = 1, P1 = 2 * d - h;
        if (i == 1) return s.vs[1] * P1;
        for (int k = 1; k < i; ++k) {
            S P2 = ((2 * k + 1) * (2 * d - h) * P1 - k * h * h * P0) / S(k + 1);
            P0 = P1;
            P1 = P2;
        }
        return s.vs[i] * P1;
    }

    void histogram(const S &x) __attribute__((unused));
    void histogram(const S &x) {
        std::map<int, int> h;
        sx::mapMonomials(x.v, {"delta", "h"}, [&](const std::vector<int> &e) { h[e[0] + e[1]]++; return Terms{}; });
        for (auto &y: h) printf(" %d:%d", y.first, y.second);
        printf("\n");
    }
}

namespace {
    // The formal solution y = sum C_i(delta) eta_i, y' = c0 W delta eta_1 + sum D_i eta_i, cut off in (delta, h)
    struct Formal {
        std::vector<S> C, D;
    };
    S power(const S &x, int shift, const std::function<double(int)> &factor) { // every delta^n -> factor(n) delta^(n+shift)
        return S(sx::mapMonomials(x.v, {"delta"}, [&](const std::vector<int> &e) {
            double f = factor(e[0]);
            if (f == 0) return Terms{};
            return Terms{{f, {e[0] + shift}}};
        }));
    }
    // x / (2 (n - i - 1)) for the coefficient of delta^n
    S solved(const S &x, int i) {
        S r = 0;
        // divide by integers exactly: group by exponent
        std::map<int, bool> exps;
        sx::mapMonomials(x.v, {"delta"}, [&](const std::vector<int> &e) { exps[e[0]] = true; return Terms{}; });
        for (auto &y: exps) {
            int n = y.first;
            S part = power(x, 0, [&](int k) { return k == n ? 1. : 0.; });
            int q = 2 * (n - i - 1);
            if (q == 0) sx::fail("engine.formal", "no formal solution");
            r += part / S(q);
        }
        return r;
    }
    Formal formal(const M::Sector &s, const S &h, const S &d, bool second, int cut, int last) {
        Formal f;
        f.C.assign(last + 2, S(0));
        f.D.assign(last + 2, S(0));
        std::vector<S> V(MATSLISE_N);
        for (int i = 1; i < MATSLISE_N; ++i) V[i] = potentialPart(s, h, d, i);
        if (second) f.C[1] = d; else f.C[0] = S(1);
        for (int i = 0; i <= last; ++i) {
            S rhs = 0; // times delta^2
            for (int k = 1; k < MATSLISE_N; ++k) rhs += V[k] * truncated(f.C[i], cut - k - 2 + 1);
            rhs = power(truncated(rhs, cut - 2 + 1), 2, [](int) { return 1.; });
            rhs += power(f.C[i], 0, [i](int n) { return -1. * n * (n - 1) + 2. * (2 * i - 1) * n - 2. * i * (2 * i - 1); });
            if (i == 0) f.C[1] += solved(rhs, 0);
            else f.C[i + 1] = solved(rhs, i);
        }
        for (int i = 0; i <= last; ++i) {
            f.D[i] = power(f.C[i], -1, [i](int n) { return i == 0 ? n : n - (2. * i - 1); }) + power(f.C[i + 1], -1, [](int) { return 1.; });
        }
        return f;
    }
}

namespace {
    // a sector with symbolic coefficients, its potential minus the energy is W + sum v_i h^i P_i(delta / h)
    struct Symbolic {
        Holder<S> ho;
        M::Sector &s;
        S h, d, W, E;

        Symbolic() : s(ho.s), h(sx::inVar("h", 0.01, 1)), d(sx::inVar("delta", 0.01, 1)), W(sx::inVar("W", -10, 10)) {
            sx::setMaxTerms(10000000);
            s.h = h;
            for (int i = 0; i < MATSLISE_N; ++i) s.vs[i] = S(sx::inVar(sxn("v", i), -1, 1));
            E = s.vs[0] - W;
            s.direction = forward;
            if (!sx::symbolic()) return;
            sx::assumeC(lt(d, h));
            s.calculateTCoeffs();
        }

        T<S> general() {
            argumentsZ = {W * d * d};
            return s.calculateT(E, d, false);
        }

        T<S> full() {
            argumentsZ = {W * h * h};
            return s.calculateT(E, h, true);
        }
    };

    S atH(const S &x) { // delta = h
        return S(sx::mapMonomials(x.v, {"h", "delta"}, [](const std::vector<int> &e) {
            return Terms{{1., {e[0] + e[1], 0}}};
        }));
    }

    // drops the terms that are linear in v_14 or v_15 and contain no other coefficient
    S withoutLast(const S &x) {
        std::vector<std::string> n;
        for (int i = 1; i < MATSLISE_N; ++i) n.push_back(sxn("v", i));
        return S(sx::mapMonomials(x.v, n, [](const std::vector<int> &e) {
            int sum = 0;
            for (int k: e) sum += k;
            if (sum == 1 && (e[13] == 1 || e[14] == 1)) return Terms{};
            return Terms{{1., e}};
        }));
    }

    // the native counterpart: the order of the error in the step, measured with 300 digits -----------------------
    struct Native {
        Holder<Multi> ho;
        Multi W, ratio;
        std::array<Multi, MATSLISE_N> vs;

        explicit Native(const Symbolic &p) : W(p.W.v.d), ratio(.375) {
            for (int i = 0; i < MATSLISE_N; ++i) vs[i] = p.s.vs[i].v.d;
        }

        Matslise<Multi>::Sector &sector(const Multi &h) {
            auto &s = ho.s;
            s.h = h;
            s.vs = vs;
            s.direction = forward;
            s.calculateTCoeffs();
            return s;
        }

        // the solution of y'' = (V - E) y as a power series
        Eigen::Matrix<Multi, 2, 2> exact(const Multi &h, const Multi &delta, const Multi &W_) {
            std::vector<Multi> V(MATSLISE_N, Multi(0)), P0{1}, P1{-h, 2};
            V[0] = W_;
            for (int k = 1; k < MATSLISE_N; ++k) { // P_k homogenised
                for (int j = 0; j <= k; ++j) V[j] += vs[k] * P1[j];
                std::vector<Multi> P2(k + 2, Multi(0));
                for (int j = 0; j <= k; ++j) {
                    P2[j] -= (2 * k + 1) * h * P1[j] / (k + 1);
                    P2[j + 1] += (2 * k + 1) * 2 * P1[j] / (k + 1);
                    if (j < k) P2[j] -= k * h * h * P0[j] / (k + 1);
                }
                P0 = P1;
                P1 = P2;
            }
            Eigen::Matrix<Multi, 2, 2> r;
            for (int c = 0; c < 2; ++c) {
                const int terms = 40;
                std::vector<Multi> y(terms, Multi(0));
                y[c] = 1;
                for (int n = 0; n + 2 < terms; ++n) {
                    Multi sum = 0;
                    for (int k = 0; k < MATSLISE_N && k <= n; ++k) sum += V[k] * y[n - k];
                    y[n + 2] = sum / ((n + 1) * (n + 2));
                }
                Multi v = 0, dv = 0;
                for (int n = terms - 1; n >= 1; --n) v = v * delta + y[n], dv = dv * delta + n * y[n];
                r(0, c) = v * delta + y[0];
                r(1, c) = dv;
            }
            return r;
        }

        // order of the entries of the error at delta = ratio h
        Eigen::Matrix<double, 2, 2> order(bool full, bool energyDerivative) {
            Eigen::Matrix<Multi, 2, 2> e[2];
            const Multi eps = ldexp(Multi(1), -300);
            for (int k = 0; k < 2; ++k) {
                Multi h = ldexp(Multi(1), -24 - k), delta = full ? h : h * ratio;
                auto &s = sector(h);
                auto at = [&](const Multi &w) { return full ? s.calculateT(vs[0] - w, true) : s.calculateT(vs[0] - w, delta, false); };
                if (energyDerivative) e[k] = at(W).dt - (at(W - eps).t - at(W + eps).t) / (2 * eps);
                else e[k] = at(W).t - exact(h, delta, W);
            }
            Eigen::Matrix<double, 2, 2> r;
            for (int i = 0; i < 2; ++i)
                for (int j = 0; j < 2; ++j)
                    r(i, j) = abs(e[0](i, j)) < ldexp(Multi(1), -640) ? 1000. :
                              abs(e[1](i, j)) < ldexp(Multi(1), -640) ? 999. : (double) (log(abs(e[0](i, j) / e[1](i, j))) / log(Multi(2)));
            return r;
        }

        void check(const std::string &label, bool full, bool energyDerivative, const std::array<double, 4> &wanted) {
            for (int pass = 0; pass < 2; ++pass) { // the values of the solver's model, and generic ones
                if (pass)
                    for (int i = 1; i < MATSLISE_N; ++i) if (vs[i] != 0 || i < 14) vs[i] = Multi(((i * 7) % 11) - 4.75) / 8;
                Eigen::Matrix<double, 2, 2> o;
                withLargeStack([&]() { o = order(full, energyDerivative); });
                for (int i = 0; i < 2; ++i)
                    for (int j = 0; j < 2; ++j) {
                        sx::setDetail(sxn(sxn("order of entry ", i), j));
                        if (getenv("SX_PRINT")) fprintf(stderr, "%s %d %d%d %g\n", label.c_str(), pass, i, j, o(i, j));
                        sx::checkC(label, sx::cBool(o(i, j) > wanted[2 * i + j] - .1));
                    }
            }
        }
    };

    void checkZero(const std::string &label, const S &x) { sx::checkEq(label, x, S(0)); }
}

HARNESS(sector_residual, "C08", "quick=60 pathmax=100") {
    Symbolic p;
    sx::note("general formula, any potential polynomial of degree 15, any sub-interval: the residual of the "
             "differential equation as a formal power series in the step");
    if (!sx::symbolic()) {
        Native n(p);
        n.check("C08.differential-equation", false, false, {16, 17, 15, 16});
        n.vs[14] = n.vs[15] = 0;
        n.check("C08.differential-equation", false, false, {17, 17, 17, 17});
        return;
    }
    T<S> t = p.general();
    auto rule = [&](const std::string &n, sx::V &v) { return etaRuleDelta(n, v, p.W, p.d); };
    for (int c = 0; c < 2; ++c) {
        // the values start as the identity
        for (int r = 0; r < 2; ++r)
            checkZero("C08.identity-for-an-empty-interval",
                      S(sx::mapMonomials(t.t(r, c).v, {"delta"}, [](const std::vector<int> &e) {
                          return e[0] == 0 ? Terms{{1., e}} : Terms{};
                      })) - (r == c ? eta(0) : S(0)));
        S r0 = reduced(S(sx::derivative(t.t(0, c).v, "delta", rule)) - t.t(1, c));
        S r1 = reduced(S(sx::derivative(t.t(1, c).v, "delta", rule)) - p.W * t.t(0, c));
        const int cut = 15;
        for (int i = 1; i < MATSLISE_N; ++i)
            r1 -= potentialPart(p.s, p.h, p.d, i) * truncated(t.t(0, c), cut - i);
        r1 = reduced(truncated(r1, cut));
        checkZero("C08.differential-equation", truncated(r0, cut + 1));
        checkZero("C08.differential-equation", c == 0 ? withoutLast(r1) : r1);
        if (c == 0) checkZero("C08.differential-equation", truncated(r1, cut - 1));
    }
    sx::reach("general formula");
}

HARNESS(sector_exact, "C08", "quick=60 pathmax=100") {
    Symbolic p;
    int c = sx::inChoose("column", 0, 1);
    sx::note("both formulas against the formal power series solution of the differential equation: general formula "
             "below degree 17 (the last two coefficients of the potential: 16, derivative 15), full-sector formula below 19");
    if (!sx::symbolic()) {
        Native n(p);
        n.check("C08.full-sector-formula", true, false, {19, 19, 19, 19});
        n.check("C08.general-formula", false, false, {16, 17, 15, 16});
        n.vs[14] = n.vs[15] = 0;
        n.check("C08.general-formula", false, false, {17, 17, 17, 17});
        return;
    }
    T<S> t = p.general(), th = p.full();
    Formal f = formal(p.s, p.h, p.d, c == 1, 21, 10);
    S y[2] = {0, p.W * p.d * eta(1) * (c ? 0 : 1)};
    for (int i = 0; i <= 10; ++i) y[0] += f.C[i] * eta(i), y[1] += f.D[i] * eta(i);
    for (int r = 0; r < 2; ++r) {
        sx::setDetail(sxn(sxn("entry ", r), c));
        S general = reduced(t.t(r, c) - y[r]), full = reduced(th.t(r, c) - atH(y[r]));
        checkZero("C08.general-formula", withoutLast(truncated(general, 17)));
        checkZero("C08.general-formula", truncated(general, c == 1 && r == 0 ? 17 : r == 1 && c == 0 ? 15 : 16));
        checkZero("C08.full-sector-formula", truncated(full, 19));
    }
    sx::reach(c ? "second column" : "first column");
}

HARNESS(sector_energy, "C09", "quick=60 pathmax=100") {
    Symbolic p;
    sx::note("derivative part of both formulas as formal power series in the step: general below degree 17, full sector below 19");
    if (!sx::symbolic()) {
        Native n(p);
        n.check("C09.general-formula", false, true, {17, 17, 17, 17});
        n.check("C09.full-sector-formula", true, true, {19, 19, 19, 19});
        return;
    }
    for (int full = 0; full < 2; ++full) {
        T<S> t = full ? p.full() : p.general();
        const S &d = full ? p.h : p.d;
        auto rule = [&](const std::string &n, sx::V &v) { // d eta_i / d Z = eta_{i + 1} / 2
            if (n.compare(0, 3, "eta")) return false;
            v = (d * d * eta(atoi(n.c_str() + 3) + 1) / 2).v;
            return true;
        };
        for (int i = 0; i < 2; ++i)
            for (int j = 0; j < 2; ++j) {
                sx::setDetail(sxn(sxn("entry ", i), j));
                S x = t.dt(i, j) + S(sx::derivative(t.t(i, j).v, "W", rule));
                checkZero(full ? "C09.full-sector-formula" : "C09.general-formula", truncated(reduced(full ? atH(x) : x), full ? 19 : 17));
            }
    }
    sx::reach("both formulas");
}

HARNESS(sector_products, "C09", "quick=20") {
    // the derivative part of a product is the derivative of the product: central differences are exact for bilinear maps
    T<S> t(1), tp(1), tm(1);
    Y<S, 1, 2> y, yp, ym;
    for (int i = 0; i < 4; ++i) {
        t.t(i / 2, i % 2) = S(sx::inVar(sxn("t", i), -2, 2));
        t.dt(i / 2, i % 2) = S(sx::inVar(sxn("d", i), -2, 2));
        for (int c = 0; c < 2; ++c) y.data(i, c) = S(sx::inVar(sxn(c ? "z" : "y", i), -2, 2));
    }
    tp.t = t.t + t.dt, tm.t = t.t - t.dt;
    yp.y() = y.y() + y.ydE(), ym.y() = y.y() - y.ydE();
    bool one = sx::inBool("one column"), inverse = sx::inBool("inverse");
    sx::note("products and inverse applications of any transfer matrix and values, one and two columns");
    auto compare = [&](auto y, auto yp, auto ym) {
        auto r = inverse ? t / y : t * y, rp = inverse ? tp / yp : tp * yp, rm = inverse ? tm / ym : tm * ym;
        auto r0 = r;
        for (int c = 0; c < r.data.cols(); ++c)
            for (int i = 0; i < 2; ++i) {
                sx::checkEq("C09.product", 2 * r.ydE()(i, c), rp.y()(i, c) - rm.y()(i, c));
                if (!inverse) {
                    sx::checkEq("C09.product-value", r.y()(i, c), t.t(i, 0) * y.y()(0, c) + t.t(i, 1) * y.y()(1, c));
                } else { // t times the result gives the determinant times the values
                    sx::checkEq("C09.product-value", t.t(i, 0) * r.y()(0, c) + t.t(i, 1) * r.y()(1, c),
                                (t.t(0, 0) * t.t(1, 1) - t.t(0, 1) * t.t(1, 0)) * y.y()(i, c));
                }
            }
        (void) r0;
    };
    if (one) compare(y.col(0), yp.col(0), ym.col(0));
    else compare(y, yp, ym);
    // scaling and change of sign are linear in both parts
    S f(sx::inVar("f", -2, 2));
    Y<S, 1, 2> s = y * f, n = -y;
    for (int c = 0; c < 2; ++c)
        for (int i = 0; i < 4; ++i) {
            sx::checkEq("C09.scaling", s.data(i, c), f * y.data(i, c));
            sx::checkEq("C09.scaling", n.data(i, c), -y.data(i, c));
        }
    sx::reach(inverse ? "inverse" : "product");
}

namespace {
    // few, but arbitrary coefficients: the algorithms around the tables are the same for all of them
    void sparse(M::Sector &s, const std::string &name) {
        for (int i = 0; i < MATSLISE_ETA_delta; ++i)
            for (int j = 0; j < MATSLISE_HMAX_delta; ++j) s.t_coeff(i, j) = Eigen::Matrix<S, 2, 2>::Zero();
        for (auto &m: s.t_coeff_h) m = Eigen::Matrix<S, 2, 2>::Zero();
        auto any = [&](auto &m, const std::string &n) {
            for (int i = 0; i < 4; ++i) m(i / 2, i % 2) = S(sx::inVar(sxn(name + n, i), -1, 1));
        };
        any(s.t_coeff(1, 1), "a");
        any(s.t_coeff(8, 16), "b");
        any(s.t_coeff_h[1], "c");
        any(s.t_coeff_h[9], "d");
    }
}

HARNESS(sector_dispatch, "C08", "quick=30 novalidate") {
    // which formula answers a request, and for which argument
    Holder<S> ho;
    M::Sector &s = ho.s;
    S h(sx::inVar("h", 0.01, 1)), E(sx::inVar("E", -5, 5)), d(sx::inVar("delta", 0, 1));
    sx::assumeC(le(d, h));
    s.h = h;
    s.vs[0] = S(sx::inVar("v0", -5, 5));
    sparse(s, "t");
    bool use_h = sx::inBool("use_h");
    sx::note("requests for any sub-interval of a sector, 12 table entries per formula");
    argumentsZ = {(s.vs[0] - E) * d * d, (s.vs[0] - E) * h * h};
    T<S> t = s.calculateT(E, d, use_h);
    auto is = [&](const std::string &label, const T<S> &a, const T<S> &b) {
        for (int i = 0; i < 4; ++i) {
            sx::checkEq(label, a.t(i / 2, i % 2), b.t(i / 2, i % 2));
            sx::checkEq(label, a.dt(i / 2, i % 2), b.dt(i / 2, i % 2));
        }
    };
    if (sx::branch(eq(d, S(0)))) {
        is("C08.identity-for-an-empty-interval", t, T<S>(1));
        sx::reach("empty");
    } else if (use_h && sx::branch(eq(d, h))) {
        is("C08.full-sector-formula-at-the-end", t, s.calculateT(E, true));
        sx::reach("full sector");
    } else if (sx::branch(ge(d, S(1e-10)) && (sx::cBool(!use_h) || ge(h - d, S(1e-10))))) {
        is("C08.general-formula-inside", t, s.calculateT(E, d, false));
        sx::reach("general");
    }
    is("C08.general-formula-at-the-end", s.calculateT(E, false), s.calculateT(E, h, false));
}

HARNESS(sector_orientation, "C07", "quick=40 novalidate pathmax=60") {
    sx::setMaxTerms(10000000);
    // the coefficients through a history of orientations
    const int node = sx::inChoose("node", 0, MATSLISE_N / 2 - 1);
    S h(.5), min(-.25);
    std::map<double, S> samples; // a potential that is arbitrary at two of the points where it is sampled
    auto f = [&](const S &x) {
        double at = x.v.d;
        auto i = samples.find(at);
        if (i == samples.end()) i = samples.emplace(at, (int) samples.size() % (MATSLISE_N / 2) == node
                                       ? S(sx::inVar(sxn("f", samples.size()), -1, 1)) : S(0)).first;
        return i->second;
    };
    const Direction first = (Direction) sx::inChoose("built", 0, 2);
    sx::note("histories of orientations of a sector: 2 steps; a potential that is arbitrary at two of its sample points");
    Holder<S> ho(min, min + h, first, f), forw(min, min + h, none, f);
    M::Sector &s = ho.s, &r = forw.s;
    auto same = [&](Direction d) {
        sx::checkC("C07.orientation", sx::cBool(s.direction == d));
        for (int i = 0; i < MATSLISE_N; ++i)
            sx::checkEq("C07.same-potential", s.vs[i], d == backward && i % 2 ? -r.vs[i] : r.vs[i]);
    };
    same(first);
    for (int step = 0; step < 2; ++step) {
        Direction next = (Direction) sx::inChoose(sxn("step", step), 1, 2);
        s.setDirection(next);
        same(next);
    }
    sx::reach("history");
}

HARNESS(sector_tables, "C07", "quick=40 novalidate pathmax=60") {
    sx::setMaxTerms(10000000);
    // after any history the tables are those of a sector of that orientation
    auto any = [&](M::Sector &s, Direction d) {
        s.h = S(sx::inVar("h", 0.01, 1));
        for (int i = 0; i < MATSLISE_N; ++i) {
            s.vs[i] = S(sx::inVar(sxn("v", i), -1, 1));
            if (d == backward && i % 2) s.vs[i] = -s.vs[i];
        }
        s.direction = d;
        if (d != none) s.calculateTCoeffs();
    };
    Direction from = (Direction) sx::inChoose("from", 0, 2), over = (Direction) sx::inChoose("over", 1, 2),
            to = (Direction) sx::inChoose("to", 1, 2);
    sx::note("coefficient tables after any sequence of two changes of orientation, any coefficients");
    Holder<S> ho, fresh;
    any(ho.s, from);
    ho.s.setDirection(over);
    ho.s.setDirection(to);
    any(fresh.s, to);
    for (int i = 0; i < MATSLISE_ETA_delta; ++i)
        for (int j = 0; j < MATSLISE_HMAX_delta; ++j)
            for (int k = 0; k < 4; ++k)
                sx::checkEq("C07.tables-restored", ho.s.t_coeff(i, j)(k / 2, k % 2), fresh.s.t_coeff(i, j)(k / 2, k % 2));
    for (int i = 0; i < MATSLISE_ETA_h; ++i)
        for (int k = 0; k < 4; ++k)
            sx::checkEq("C07.tables-restored", ho.s.t_coeff_h[i](k / 2, k % 2), fresh.s.t_coeff_h[i](k / 2, k % 2));
    sx::reach(from == to ? "back and forth" : "changed");
}

HARNESS(sector_mirror, "C07", "quick=40 novalidate") {
    // a backward sector and the forward sector of the mirrored potential
    S E(sx::inVar("E", -5, 5)), h(sx::inVar("h", 0.5, 1)), min(sx::inVar("min", -3, 3));
    bool use_h = sx::inBool("use_h");
    Holder<S> hb, hf;
    auto prepare = [&](M::Sector &s, Direction d) {
        s.h = h;
        s.vs[0] = S(sx::inVar("v0", -5, 5));
        sparse(s, "t");
        s.direction = d;
        s.min = d == backward ? min : -(min + h);
        s.max = s.min + h;
    };
    prepare(hb.s, backward);
    prepare(hf.s, forward);
    S a(sx::inVar("a", -3.5, 4.5)), b(sx::inVar("b", -3.5, 4.5));
    sx::note("Sector::propagate between any two points, inside and outside the sector; 12 table entries per formula");
    // within 1e-10 of each other points count as equal
    auto apart = [&](const S &x, const S &y) { return eq(x, y) || le(x + S(1e-6), y) || le(y + S(1e-6), x); };
    for (const S &x: {a, b}) sx::assumeC(apart(x, min) && apart(x, min + h));
    Y<S, 1, 1> y, z;
    for (int i = 0; i < 4; ++i) y.data(i, 0) = S(sx::inVar(sxn("y", i), -2, 2));
    z = y;
    z.reverse();
    Y<S, 1, 1> r = hb.s.propagate<false, 1>(E, y, a, b, use_h), q = hf.s.propagate<false, 1>(E, z, -a, -b, use_h);
    q.reverse();
    for (int i = 0; i < 4; ++i) sx::checkEq("C07.mirrored-propagation", r.data(i, 0), q.data(i, 0));
    sx::checkEq("C07.reversed-value", z.data(0, 0), y.data(0, 0));
    sx::checkEq("C07.reversed-value", z.data(1, 0), -y.data(1, 0));
    sx::checkEq("C07.reversed-value", z.data(2, 0), y.data(2, 0));
    sx::checkEq("C07.reversed-value", z.data(3, 0), -y.data(3, 0));
    sx::reach("mirrored");
}
