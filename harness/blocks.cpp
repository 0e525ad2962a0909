// One sector of a coupled system: the tables of matrix coefficients, calculateT and its energy derivative.
// sx: tags 1
// sx: native Multi
// sx: skip liouville matslise matscs/matscs.cpp matscs/matching.cpp util
// sx: libs -Wl,--unresolved-symbols=ignore-all
#include <map>
#include "matscs.h"
#include "matslise.h"
#include "blocks.stubs.h"
#include "multi.h"
#include "sx_repo.h"
#include "util.h"

using namespace matslise;
typedef sx::SymT<1> S;
typedef Matscs<S>::Sector Sector;
typedef Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> Mat;

namespace {
    const int N = MATSCS_N;
    S eta(int channel, int i) { return S(sx::inVar(sxn(sxn("eta", channel) + "_", i), -1, 1)); }
    std::vector<S> argumentsZ; // of the channels: its functions are arbitrary numbers
    Mat basis;

    template<int n> Eigen::Array<S, n, 1> etas(const S &Z) {
        Eigen::Array<S, n, 1> r;
        size_t k = 0;
        while (k < argumentsZ.size() && !sx::sameV(argumentsZ[k].v, Z.v)) ++k;
        if (k == argumentsZ.size()) argumentsZ.push_back(Z);
        Eigen::Array<double, n, 1> d;
        if (!sx::symbolic()) d = calculateEta<double, n>(Z.v.d);
        for (int i = 0; i < n; ++i) r[i] = sx::symbolic() ? eta((int) k, i) : S(d[i]);
        return r;
    }
}
template<> Eigen::Array<S, 2, 1> calculateEta<S, 2>(S Z) { return etas<2>(Z); }
template<> Eigen::Array<S, MATSCS_ETA_delta, 1> calculateEta<S, MATSCS_ETA_delta>(S Z) { return etas<MATSCS_ETA_delta>(Z); }
template<> Eigen::Array<S, MATSCS_ETA_h, 1> calculateEta<S, MATSCS_ETA_h>(S Z) { return etas<MATSCS_ETA_h>(Z); }
sx::Block sx::eigenvectors(const Block &) { return basis; }

namespace {
    std::vector<std::pair<Mat, Mat>> inverses; // of the transfer matrices: arbitrary
}
sx::Square sx::linearSolve(const Square &m, const Square &rhs) {
    const int n = (int) m.rows();
    for (auto &x: inverses) {
        bool same = x.first.rows() == n;
        for (int i = 0; same && i < n * n; ++i) same = sx::sameV(x.first(i / n, i % n).v, m(i / n, i % n).v);
        if (same) return x.second * rhs;
    }
    Mat inverse(n, n);
    if (sx::symbolic()) {
        for (int i = 0; i < n * n; ++i)
            inverse(i / n, i % n) = S(sx::inVar(sxn(sxn("inverse", (int) inverses.size()) + "_", i), -10, 10));
    } else {
        Eigen::MatrixXd d(n, n);
        for (int i = 0; i < n * n; ++i) d(i / n, i % n) = m(i / n, i % n).v.d;
        d = d.inverse().eval();
        for (int i = 0; i < n * n; ++i) inverse(i / n, i % n) = S(d(i / n, i % n));
    }
    inverses.emplace_back(m, inverse);
    return inverse * rhs;
}
sx::ComplexSquare sx::linearSolve(const ComplexSquare &, const ComplexSquare &rhs) { return rhs; }
Eigen::Matrix<sx::Complex, Eigen::Dynamic, 1> sx::spectrum(const ComplexSquare &m) {
    return Eigen::Matrix<Complex, Eigen::Dynamic, 1>::Constant(m.rows(), Complex(S(1), S(0)));
}

namespace {
    typedef std::vector<std::pair<double, std::vector<int>>> Terms;

    // total degree in delta and h of the monomials is cut off: the formal power series in the step
    S truncated(const S &x, int below) {
        return S(sx::mapMonomials(x.v, {"delta", "h"}, [&](const std::vector<int> &e) {
            Terms r;
            if (e[0] + e[1] < below) r.push_back({1., e});
            return r;
        }));
    }

    S atH(const S &x) { // delta = h
        return S(sx::mapMonomials(x.v, {"h", "delta"}, [](const std::vector<int> &e) {
            return Terms{{1., {e[0] + e[1], 0}}};
        }));
    }

    S power(const S &x, int shift, const std::function<double(int)> &factor) { // every delta^n -> factor(n) delta^(n+shift)
        return S(sx::mapMonomials(x.v, {"delta"}, [&](const std::vector<int> &e) {
            double f = factor(e[0]);
            if (f == 0) return Terms{};
            return Terms{{f, {e[0] + shift}}};
        }));
    }

    // x / (2 (n - i - 1)) for the coefficient of delta^n
    S solved(const S &x, int i) {
        std::map<int, bool> exps;
        sx::mapMonomials(x.v, {"delta"}, [&](const std::vector<int> &e) { exps[e[0]] = true; return Terms{}; });
        S r = 0;
        for (auto &y: exps) {
            int n = y.first, q = 2 * (n - i - 1);
            if (q == 0) sx::fail("engine.formal", "no formal solution");
            r += power(x, 0, [&](int k) { return k == n ? 1. : 0.; }) / S(q);
        }
        return r;
    }

    // V - diag(v0): sum v_i h^i P_i(delta / h), homogenised
    Mat potential(const Sector &s, const S &h, const S &d) {
        S P0 = 1, P1 = 2 * d - h;
        Mat V = Mat::Zero(s.n, s.n);
        for (int k = 1; k < N; ++k) {
            V += s.vs[k] * P1;
            S P2 = ((2 * k + 1) * (2 * d - h) * P1 - k * h * h * P0) / S(k + 1);
            P0 = P1;
            P1 = P2;
        }
        return V;
    }

    typedef std::vector<S> Vec;
    // The formal solution of one column: y = sum C_i(delta) eta_i, y' = c0 W delta eta_1 + sum D_i eta_i with the eta
    // functions of channel j, cut off in (delta, h); V is the potential without v0_j
    struct Formal {
        std::vector<Vec> C, D;
    };

    Formal formal(Mat V, const Sector &s, const S &d, int j, bool second, int cut, int last) {
        int n = (int) s.n;
        for (int r = 0; r < n; ++r) V(r, r) += s.vs[0](r, r) - s.vs[0](j, j);
        Formal f;
        f.C.assign(last + 2, Vec(n, S(0)));
        f.D = f.C;
        if (second) f.C[1][j] = d; else f.C[0][j] = S(1);
        for (int i = 0; i <= last; ++i) {
            for (int r = 0; r < n; ++r) {
                S rhs = 0; // times delta^2
                for (int k = 0; k < n; ++k) rhs += truncated(V(r, k) * f.C[i][k], cut - 1);
                rhs = power(rhs, 2, [](int) { return 1.; });
                rhs += power(f.C[i][r], 0, [i](int m) { return -1. * m * (m - 1) + 2. * (2 * i - 1) * m - 2. * i * (2 * i - 1); });
                if (i == 0) f.C[1][r] += solved(rhs, 0);
                else f.C[i + 1][r] = solved(rhs, i);
            }
        }
        for (int i = 0; i <= last; ++i)
            for (int r = 0; r < n; ++r)
                f.D[i][r] = power(f.C[i][r], -1, [i](int m) { return i == 0 ? m : m - (2. * i - 1); }) + power(f.C[i + 1][r], -1, [](int) { return 1.; });
        return f;
    }

    // a sector of which the potential minus the energy is diag(W) + sum v_i h^i P_i(delta / h)
    struct Symbolic {
        int n;
        std::unique_ptr<Sector> s;
        S h, d, E;
        Vec W;

        explicit Symbolic(int n) : n(n), h(sx::inVar("h", 0.01, 1)), d(sx::inVar("delta", 0.01, 1)), E(sx::inVar("E", -1, 1)) {
            sx::setMaxTerms(10000000);
            std::array<Mat, MATSCS_N> vs;
            for (auto &v: vs) v = Mat::Zero(n, n);
            for (int i = 0; i < n; ++i) vs[0](i, i) = S(sx::inVar(sxn("v0_", i), -1, 1));
            for (int k = 1; k < N; ++k) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
                vs[k](i, j) = S(sx::inVar(sxn(sxn(sxn("v", k) + "_", i), j), -1, 1));
            basis = Mat::Identity(n, n);
            s = std::make_unique<Sector>(vs, S(0), h, none);
            for (int i = 0; i < n; ++i) W.push_back(s->vs[0](i, i) - E);
            if (!sx::symbolic()) return;
            sx::assumeC(lt(d, h));
            s->setDirection(forward);
        }

        T<S, Eigen::Dynamic> general() {
            argumentsZ.clear();
            for (S &w: W) argumentsZ.push_back(w * d * d);
            return s->calculateT(E, d, false);
        }

        T<S, Eigen::Dynamic> full() {
            argumentsZ.clear();
            for (S &w: W) argumentsZ.push_back(w * h * h);
            return s->calculateT(E, h, true);
        }
    };

    // the native counterpart, with 300 digits: the coefficients of the powers of the step in the error --------------
    typedef Eigen::Matrix<Multi, Eigen::Dynamic, Eigen::Dynamic> Many;
    struct Native {
        std::array<Many, MATSCS_N> vs;
        Multi E, ratio;

        explicit Native(const Symbolic &p) : E(p.E.v.d), ratio(.375) {
            for (int k = 0; k < N; ++k) {
                vs[k] = Many::Zero(p.n, p.n);
                for (int i = 0; i < p.n; ++i) for (int j = 0; j < p.n; ++j) vs[k](i, j) = p.s->vs[k](i, j).v.d;
            }
        }

        // the solutions of y'' = (V - E) y as power series
        Many exact(const Multi &h, const Multi &delta) {
            const int n = (int) vs[0].rows(), terms = 40;
            std::vector<Many> V(N, Many::Zero(n, n));
            std::vector<Multi> P0{1}, P1{-h, 2};
            V[0] = vs[0] - E * Many::Identity(n, n);
            for (int k = 1; k < N; ++k) { // P_k homogenised
                for (int j = 0; j <= k; ++j) V[j] += vs[k] * P1[j];
                std::vector<Multi> P2(k + 2, Multi(0));
                for (int j = 0; j <= k; ++j) {
                    P2[j] -= (2 * k + 1) * h * P1[j] / (k + 1);
                    P2[j + 1] += (2 * k + 1) * 2 * P1[j] / (k + 1);
                    if (j < k) P2[j] -= k * h * h * P0[j] / (k + 1);
                }
                P0 = P1;
                P1 = P2;
            }
            Many r(2 * n, 2 * n);
            for (int c = 0; c < 2; ++c) {
                std::vector<Many> y(terms, Many::Zero(n, n));
                y[c] = Many::Identity(n, n);
                for (int m = 0; m + 2 < terms; ++m) {
                    Many sum = Many::Zero(n, n);
                    for (int k = 0; k < N && k <= m; ++k) sum += V[k] * y[m - k];
                    y[m + 2] = sum / Multi((m + 1) * (m + 2));
                }
                Many v = Many::Zero(n, n), dv = v;
                for (int m = terms - 1; m >= 1; --m) v = (v * delta + y[m]).eval(), dv = (dv * delta + Multi(m) * y[m]).eval();
                r.block(0, c * n, n, n) = v * delta + y[0];
                r.block(n, c * n, n, n) = dv;
            }
            return r;
        }

        Many error(const Multi &h, bool full, bool energyDerivative) {
            const int n = (int) vs[0].rows();
            Multi delta = full ? h : h * ratio;
            Matscs<Multi>::Sector s(vs, Multi(0), h, none);
            s.diagonalize = Many::Identity(n, n);
            s.vs = vs;
            s.setDirection(forward);
            auto at = [&](const Multi &e) { return full ? s.calculateT(e, true) : s.calculateT(e, delta, false); };
            if (!energyDerivative) return at(E).t - exact(h, delta);
            const Multi eps = ldexp(Multi(1), -300);
            return at(E).dt - (at(E + eps).t - at(E - eps).t) / (2 * eps);
        }

        void check(const std::string &label, bool full, bool energyDerivative, int below, double tolerance) {
            for (int pass = 0; pass < 2; ++pass) { // the values of the solver's model, and generic ones
                if (pass)
                    for (int k = 0; k < N; ++k) for (int i = 0; i < vs[k].rows(); ++i) for (int j = 0; j < vs[k].cols(); ++j)
                        if (k || i == j) vs[k](i, j) = Multi(((k * 7 + i * 5 + j * 3 + i * j) % 11) - 4.75) / 4;
                double worst = 0;
                withLargeStack([&]() {
                    const int count = 20; // (advances below 1e-12 count as empty)
                    const Multi unit = ldexp(Multi(1), -30);
                    Many system(count, count), values(count, 4 * vs[0].size());
                    for (int r = 0; r < count; ++r) {
                        Multi power = 1;
                        for (int c = 0; c < count; ++c, power *= Multi(r + 1)) system(r, c) = power;
                        Many e = error(unit * (r + 1), full, energyDerivative);
                        for (int c = 0; c < values.cols(); ++c) values(r, c) = e(c / e.cols(), c % e.cols());
                    }
                    // Gauss
                    for (int k = 0; k < count; ++k) for (int r = 0; r < count; ++r) if (r != k) {
                        Multi f = system(r, k) / system(k, k);
                        system.row(r) -= f * system.row(k);
                        values.row(r) -= f * values.row(k);
                    }
                    for (int k = 0; k < below; ++k) for (int c = 0; c < values.cols(); ++c)
                        worst = std::max(worst, (double) abs(values(k, c) / system(k, k) / pow(unit, k)));
                });
                sx::setDetail(sxn("largest coefficient ", worst));
                sx::checkC(label, sx::cBool(worst < tolerance));
            }
        }
    };
}

const double rounding = 1e-7; // of the coefficients of the tables, in the sum over all terms

HARNESS(blocks_exact, "C29", "quick=60 pathmax=150") {
    int n = sx::tier() ? sx::inChoose("channels", 2, 3) : 2;
    sx::note(sxn("both formulas, ", n) + " channels, any coefficient matrices (not symmetric) except that the mean is diagonal, against the "
             "formal power series solution of the differential equation: general formula below degree 9, full-sector formula below 11; "
             "the coefficients of the tables have 12 digits: up to 1e-7 for coefficients up to 1");
    Symbolic p(n);
    if (!sx::symbolic()) {
        Native m(p);
        m.check("C29.full-sector-formula", true, false, 11, 1e-6);
        m.check("C29.general-formula", false, false, 9, 1e-6);
        return;
    }
    int c = sx::inChoose("column", 0, 1), j = sx::inChoose("of channel", 0, n - 1);
    auto t = p.general(), th = p.full();
    Mat V = potential(*p.s, p.h, p.d);
    const int last = 6;
    Formal f = formal(V, *p.s, p.d, j, c, 12, last);
    for (int i = 0; i < n; ++i) {
        S y[2] = {0, i == j && c == 0 ? p.W[j] * p.d * eta(j, 1) : S(0)};
        for (int k = 0; k <= last; ++k) y[0] += f.C[k][i] * eta(j, k), y[1] += f.D[k][i] * eta(j, k);
        for (int r = 0; r < 2; ++r) {
            sx::setDetail(sxn(sxn("entry ", i + n * r) + " ", j + n * c));
            const S &g = t.t(i + n * r, j + n * c);
            sx::checkEq("C29.identity-for-an-empty-interval", S(sx::mapMonomials(g.v, {"delta"}, [](const std::vector<int> &e) {
                return e[0] == 0 ? Terms{{1., e}} : Terms{};
            })), i == j && r == c ? eta(j, 0) : S(0));
            sx::checkEq("C29.general-formula", truncated(g - y[r], 9), S(0), rounding);
            sx::checkEq("C29.full-sector-formula", truncated(th.t(i + n * r, j + n * c) - atH(y[r]), 11), S(0), rounding);
        }
    }
    sx::reach(c ? "second column" : "first column");
}

HARNESS(blocks_energy, "C29", "quick=60 pathmax=150") {
    Symbolic p(2);
    sx::note("derivative part of both formulas, two channels, as formal power series in the step: general below degree 9, full sector below 11");
    if (!sx::symbolic()) {
        Native m(p);
        m.check("C29.energy-derivative", true, true, 11, 1e-6);
        m.check("C29.energy-derivative", false, true, 9, 1e-6);
        return;
    }
    bool full = sx::inBool("full");
    auto t = full ? p.full() : p.general();
    const S &d = full ? p.h : p.d;
    auto rule = [&](const std::string &n, sx::V &v) { // d eta_i / dE = - delta^2 / 2 eta_{i + 1}
        if (n.compare(0, 3, "eta")) return false;
        v = (-d * d * eta(n[3] - '0', atoi(n.c_str() + 5) + 1) / 2).v;
        return true;
    };
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) {
        sx::setDetail(sxn(sxn("entry ", i) + " ", j));
        S x = t.dt(i, j) - S(sx::derivative(t.t(i, j).v, "E", rule));
        sx::checkEq("C29.energy-derivative", truncated(full ? atH(x) : x, full ? 11 : 9), S(0), rounding);
    }
    sx::reach(full ? "full" : "general");
}

namespace {
    // few, but arbitrary coefficients: the algorithms around the tables are the same for all of them
    void sparse(Sector &s) {
        const int n = (int) s.n;
        for (int i = 0; i < MATSCS_ETA_delta; ++i)
            for (int j = 0; j < MATSCS_HMAX_delta; ++j) s.t_coeff(i, j) = Mat::Zero(2 * n, 2 * n);
        for (auto &m: s.t_coeff_h) m = Mat::Zero(2 * n, 2 * n);
        auto any = [&](Mat &m, const std::string &name) {
            for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) m(i, j) = S(sx::inVar(sxn(sxn(name, i) + "_", j), -1, 1));
        };
        any(s.t_coeff(1, 1), "a");
        any(s.t_coeff(MATSCS_ETA_delta - 1, MATSCS_HMAX_delta - 1), "b");
        any(s.t_coeff_h[1], "c");
        any(s.t_coeff_h[MATSCS_ETA_h - 1], "d");
    }

    // a basis: permuted, turned, or any
    Mat someBasis(int n) {
        int which = sx::inChoose("basis", 0, 2);
        Mat q = Mat::Identity(n, n);
        if (which == 1) q.row(0).swap(q.row(n - 1));
        if (which == 2) {
            S t(sx::inVar("turned", 0.1, 1.5));
            q(0, 0) = q(n - 1, n - 1) = cos(t);
            q(0, n - 1) = -sin(t);
            q(n - 1, 0) = sin(t);
        }
        return q;
    }

    std::array<Mat, MATSCS_N> matrices(int n, const Mat &q) { // the mean is diagonal in the basis q
        std::array<Mat, MATSCS_N> vs;
        for (auto &v: vs) v = Mat::Zero(n, n);
        for (int i = 0; i < n; ++i) vs[0](i, i) = S(sx::inVar(sxn("v0_", i), -1, 1));
        vs[0] = q * vs[0] * q.transpose();
        for (int k: {1, 2, 7, 8}) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
            vs[k](i, j) = S(sx::inVar(sxn(sxn(sxn("v", k) + "_", i), j), -1, 1));
        return vs;
    }
}

HARNESS(blocks_dispatch, "C29", "quick=30 novalidate") {
    // which formula answers a request, and for which argument; the basis of the sector
    S h(sx::inVar("h", 0.01, 1)), E(sx::inVar("E", -5, 5)), d(sx::inVar("delta", 0, 1));
    sx::assumeC(le(d, h));
    basis = someBasis(2);
    bool use_h = sx::inBool("use_h");
    sx::note("requests for any sub-interval of a sector of two channels, table entries in two matrices per formula, any basis");
    auto given = matrices(2, basis);
    Sector s(given, S(0), h, none), plain(given, S(0), h, none);
    sparse(s);
    sparse(plain);
    plain.vs = s.vs;
    plain.diagonalize = Mat::Identity(2, 2);
    for (int k = 0; k < N; ++k) for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j)
        sx::checkEq("C29.coefficients-in-the-basis-of-the-sector", s.vs[k](i, j), (basis.transpose() * given[k] * basis)(i, j));
    argumentsZ.clear();
    for (const S &x: {d, h}) for (int i = 0; i < 2; ++i) argumentsZ.push_back((s.vs[0](i, i) - E) * x * x);
    auto t = s.calculateT(E, d, use_h);
    auto is = [&](const std::string &label, const T<S, Eigen::Dynamic> &a, const T<S, Eigen::Dynamic> &b) {
        for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) {
            sx::checkEq(label, a.t(i, j), b.t(i, j));
            sx::checkEq(label, a.dt(i, j), b.dt(i, j));
        }
    };
    auto turned = [&](T<S, Eigen::Dynamic> x) {
        Mat q = Mat::Zero(4, 4);
        q.topLeftCorner(2, 2) = q.bottomRightCorner(2, 2) = basis;
        x.t = (q * x.t * q.transpose()).eval();
        x.dt = (q * x.dt * q.transpose()).eval();
        return x;
    };
    if (sx::branch(eq(d, S(0)))) {
        is("C29.identity-for-an-empty-interval", t, T<S, Eigen::Dynamic>(2));
        sx::reach("empty");
    } else if (use_h && sx::branch(eq(d, h))) {
        is("C29.full-sector-formula-at-the-end", t, turned(plain.calculateT(E, true)));
        sx::reach("full sector");
    } else if (sx::branch(ge(d, S(1e-10)) && (sx::cBool(!use_h) || ge(h - d, S(1e-10))))) {
        is("C29.general-formula-inside", t, turned(plain.calculateT(E, d, false)));
        sx::reach("general");
    }
    is("C29.general-formula-at-the-end", s.calculateT(E, false), turned(plain.calculateT(E, h, false)));
}

HARNESS(blocks_basis, "C07", "quick=30 novalidate") {
    // the coefficients of a sector: in the basis in which the mean is diagonal, through a history of orientations
    basis = someBasis(2);
    S h(sx::inVar("h", 0.01, 1)), min(sx::inVar("min", -3, 3));
    auto vs = matrices(2, basis);
    const Direction built = (Direction) sx::inChoose("built", 0, 2);
    sx::note("coefficients and tables of a sector of two channels, built in any orientation, and two changes of it; any basis (the tables "
             "in the original one)");
    sx::setMaxTerms(10000000);
    const bool tables = sx::inBool("tables");
    if (tables && !(sx::sameV(basis(0, 0).v, S(1).v))) sx::discard("tables in another basis");
    if (!tables) for (int k = 0; k < N; ++k) if (k != 1 && k != 2) vs[k] = Mat::Zero(2, 2); // (too many terms)
    if (!tables) vs[0] = S(0) * vs[0];
    Sector s(vs, min, min + h, built);
    auto is = [&](Direction d) {
        sx::checkC("C07.orientation", sx::cBool(s.direction == d));
        std::array<Mat, MATSCS_N> turned = vs;
        for (int k = 0; k < N; ++k) {
            turned[k] = basis.transpose() * vs[k] * basis;
            for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j)
                sx::checkEq("C07.same-potential", s.vs[k](i, j), d == backward && k % 2 ? -turned[k](i, j) : turned[k](i, j));
        }
        if (!tables || d == none) return;
        Mat b = basis;
        basis = Mat::Identity(2, 2);
        Sector fresh(turned, min, min + h, d);
        basis = b;
        for (int i = 0; i < MATSCS_ETA_delta; ++i) for (int j = 0; j < MATSCS_HMAX_delta; ++j)
            for (int k = 0; k < 16; ++k) sx::checkEq("C07.tables-restored", s.t_coeff(i, j)(k / 4, k % 4), fresh.t_coeff(i, j)(k / 4, k % 4));
        for (int i = 0; i < MATSCS_ETA_h; ++i)
            for (int k = 0; k < 16; ++k) sx::checkEq("C07.tables-restored", s.t_coeff_h[i](k / 4, k % 4), fresh.t_coeff_h[i](k / 4, k % 4));
    };
    is(built);
    for (int step = 0; step < 2; ++step) {
        Direction next = (Direction) sx::inChoose(sxn("step", step), 1, 2);
        s.setDirection(next);
        is(next);
    }
    sx::reach("history");
}

HARNESS(blocks_mirror, "C07", "quick=30 novalidate") {
    // a backward sector and the forward sector of the mirrored potential
    S E(sx::inVar("E", -5, 5)), h(sx::inVar("h", 0.5, 1)), min(sx::inVar("min", -3, 3));
    bool use_h = sx::inBool("use_h");
    const int n = sx::tier() ? sx::inChoose("channels", 1, 2) : 1;
    basis = Mat::Identity(n, n);
    std::array<Mat, MATSCS_N> vs;
    for (auto &v: vs) v = Mat::Zero(n, n);
    for (int i = 0; i < n; ++i) vs[0](i, i) = S(sx::inVar(sxn("v0_", i), -5, 5));
    Sector sb(vs, min, min + h, none), sf(vs, -(min + h), -min, none);
    for (Sector *s: {&sb, &sf}) sparse(*s);
    sb.direction = backward;
    sf.direction = forward;
    sf.h = h;
    sb.h = h;
    inverses.clear();
    S a(sx::inVar("a", -3.5, 4.5)), b(sx::inVar("b", -3.5, 4.5));
    sx::note("propagation over a sector between any two points, inside and outside of it; one channel (two thorough), table entries in two matrices per formula");
    auto apart = [&](const S &x, const S &y) { return eq(x, y) || le(x + S(1e-6), y) || le(y + S(1e-6), x); };
    for (const S &x: {a, b}) sx::assumeC(apart(x, min) && apart(x, min + h));
    typedef Y<S, Eigen::Dynamic, 1> Yc;
    Yc y(n), z(n);
    for (int i = 0; i < 4 * n; ++i) y.data(i, 0) = S(sx::inVar(sxn("y", i), -2, 2));
    z = y;
    z.reverse();
    Yc r = sb.propagateColumn<1>(E, y, a, b, use_h), q = sf.propagateColumn<1>(E, z, -a, -b, use_h);
    q.reverse();
    for (int i = 0; i < 4 * n; ++i) sx::checkEq("C07.mirrored-propagation", r.data(i, 0), q.data(i, 0));
    sx::reach(sx::branch(lt(a, b)) ? "to the right" : "to the left");
}

// applying a transfer matrix of a coupled system, or its inverse, to values and their energy derivatives
namespace {
    template<int cols> void apply(int n, bool inverse) {
        T<S, Eigen::Dynamic> t(n);
        Y<S, Eigen::Dynamic, cols> y((Eigen::Index) n, (Eigen::Index) (cols == 1 ? 1 : n));
        for (int i = 0; i < 2 * n; ++i)
            for (int j = 0; j < 2 * n; ++j) {
                t.t(i, j) = S(sx::inVar(sxn(sxn("t", i) + "_", j), -2, 2)) + S(i == j ? 4 : 0);
                t.dt(i, j) = S(sx::inVar(sxn(sxn("d", i) + "_", j), -2, 2));
            }
        for (int i = 0; i < y.data.rows(); ++i)
            for (int j = 0; j < y.data.cols(); ++j) y.data(i, j) = S(sx::inVar(sxn(sxn("y", i) + "_", j), -2, 2));
        Y<S, Eigen::Dynamic, cols> r = inverse ? t / y : t * y;
        const Mat v = y.y(), d = y.ydE(), M = inverse ? sx::linearSolve(t.t, Mat::Identity(2 * n, 2 * n)) : Mat(t.t);
        const Mat value = M * v, derivative = inverse ? Mat(M * (d - t.dt * value)) : Mat(M * d + t.dt * v);
        sx::checkC("C09.coupled-size", sx::cBool(r.data.rows() == 4 * n && r.data.cols() == y.data.cols()));
        for (int i = 0; i < 2 * n; ++i)
            for (int j = 0; j < v.cols(); ++j) {
                sx::checkEq("C09.coupled-value", r.y()(i, j), value(i, j));
                sx::checkEq("C09.coupled-derivative", r.ydE()(i, j), derivative(i, j));
            }
        sx::reach(inverse ? "inverse" : "product");
    }
}

HARNESS(blocks_apply, "C09", "quick=10 thorough=60 crash=C09") {
    inverses.clear();
    sx::note("products and inverse applications for systems of one and two equations, one or n columns");
    int n = sx::inChoose("equations", 1, 2);
    bool inverse = sx::inBool("inverse");
    if (sx::inBool("one column")) apply<1>(n, inverse);
    else apply<Eigen::Dynamic>(n, inverse);
}
