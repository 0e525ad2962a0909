// Quasi-periodic problems: the real PeriodicMatslise on top of an arbitrary spectrum.
//
// The environment is the pair of propagated boundary conditions. The discriminant of the problem passes its two
// extreme values in x0 < x1 <= x2 < x3 <= x4 < ...; gap n is [x(2n-1), x(2n)]. The eigenvalues are x0 and the ends of
// the even gaps, or the ends of the odd gaps. The angles (with the shift that belongs to the matrix K) pass n in gap n.
// sx: tags 1
// sx: libs -Wl,--unresolved-symbols=ignore-all
// sx: skip matscs liouville matslise/halfrange.cpp matslise/matslise_formulas.cpp matslise/sector.cpp util
#include <algorithm>
#include <map>
#include "matslise.h"
#include "periodic.stubs.h"
#include "util/constants.h"
#include "util.h"

using namespace matslise;
using namespace matslise::sector_builder;
typedef sx::SymT<1> S;
typedef Matslise<S> M;
typedef PeriodicMatslise<S> P;
typedef Y<S> Y1;
typedef Eigen::Matrix<S, 2, 2> M2;

namespace {
    const double eps = 1. / 32; // instead of 1e-8
    bool coarse = true; // the bisections use it

    // e < x, where x is known to be in [lo, hi]
    bool below(const S &e, const S &x, double lo, double hi) {
        double d;
        if (sx::isConst(e.v, &d)) {
            if (d < lo) return true;
            if (d > hi) return false;
        }
        return e < x;
    }

    struct Gap {
        S a, b, top;   // ends, and the place of the extremum
        S angle[2];    // where the angles pass
    };

    struct Spectrum {
        S x0;
        S lowest[2];             // where the angles pass 0
        std::map<int, Gap> gaps; // those that differ from the others
        bool anti = false;
        int shift[2] = {0, 0};

        Gap gap(int n) const {
            auto g = gaps.find(n);
            if (g != gaps.end()) return g->second;
            Gap r;
            r.a = S(3 * n - 1);
            r.b = S(3 * n - 0.5);
            r.top = S(3 * n - 0.75);
            r.angle[0] = r.a;
            r.angle[1] = r.b;
            return r;
        }

        bool positive(int n) const { return (n % 2 != 0) == anti; } // the determinant in gap n

        // the determinant of the mismatch and its derivative
        std::pair<S, S> determinant(const S &e) const {
            if (e < x0) return positive(0) ? std::make_pair(x0 - e, S(-1)) : std::make_pair(S(-8) - (x0 - e), S(1));
            if (e == x0) return positive(0) ? std::make_pair(S(0), S(-1)) : std::make_pair(S(-8), S(1));
            S end = x0;
            for (int n = 1; ; ++n) {
                Gap g = gap(n);
                if (below(e, g.a, 3 * n - 2, 3 * n)) {
                    S slope = positive(n) ? S(1) : S(-1);
                    // (continuous in a native execution, where the energies that are found are accurate)
                    bool first = e + e < end + g.a;
                    S away = 2;
                    if (!sx::symbolic()) away = std::min(away, 100 * (first ? e - end : g.a - e));
                    return {first == positive(n) ? away - 8 : -away, slope};
                }
                if (!below(-e, -g.b, -3 * n - 1, -3 * n + 2)) {
                    S v = (e - g.a) * (g.b - e);
                    return positive(n) ? std::make_pair(v, g.top - e) : std::make_pair(S(-8) - v, e - g.top);
                }
                end = g.b;
            }
        }

        // angle over pi
        S angle(int j, const S &e) const {
            if (!shift[j]) {
                if (e < lowest[j]) return S(-0.5);
                if (e == lowest[j]) return S(0);
            }
            for (int n = 1; ; ++n) {
                const S at = gap(n).angle[j];
                if (below(e, at, 3 * n - 2, 3 * n + 1)) return S(n - 0.5) - shift[j];
                double d;
                if (sx::isConst(e.v, &d) && d > 3 * n + 1) continue;
                if (e == at) return S(n) - shift[j];
            }
        }
    };

    Spectrum spectrum;
    bool free_ = false; // the propagated values are arbitrary
    bool simplified = true;
    M2 K, left, right, leftD, rightD, startLeft, startRight;
    bool fresh = false;
    Eigen::Array<S, 2, 1> angleL, angleR;
    S xmin, xmax, xmatch, lastE;

    M2 initial() {
        M2 m;
        m << S(1), S(1), S(1), S(-1);
        return m;
    }

    // two matrices of determinant one
    M2 outer() {
        M2 m;
        m << S(1), S(2), S(1), S(3);
        return m;
    }

    M2 inner() {
        M2 m;
        m << S(2), S(1), S(1), S(1);
        return m;
    }

    void values(const S &e) {
        if (free_) return;
        right << S(0.5), S(0.25), S(-0.5), S(1);
        rightD << S(1), S(-1), S(2), S(0.5);
        auto d = spectrum.determinant(e);
        M2 m, mD;
        m << S(1), S(0), S(0), d.first;
        mD << S(0), S(3), S(0), d.second;
        left = right + outer() * m * inner();
        leftD = rightD + outer() * mD * inner();
        angleR[0] = S(-1) * constants<S>::PI;
        angleR[1] = S(0);
        for (int j = 0; j < 2; ++j) angleL[j] = angleR[j] + constants<S>::PI * spectrum.angle(j, e);
    }

    struct OneSector : SectorBuilder<M> {
        SectorBuilderReturn<M> operator()(const M *p, const S &a, const S &b) const override {
            SectorBuilderReturn<M> r;
            S m = xmatch;
            r.sectors.push_back(std::make_unique<M::Sector>(p, a, m, forward));
            r.sectors.push_back(std::make_unique<M::Sector>(p, m, b, backward));
            r.matchIndex = 0;
            return r;
        }
    };

    // all kinds of matrices of determinant one with respect to the choice of the angles
    const int kinds = 8;

    void chooseK(int kind) {
        S k11, k12(0), k21(sx::inVar("k21", -3, 3)), k22;
        if (kind < 2) {
            spectrum.anti = kind == 1;
            k11 = S(sx::inVar("k11", 0.25, 3));
            if (kind == 1) k11 = -k11;
            spectrum.shift[0] = spectrum.shift[1] = 0;
        } else {
            // the sign of k12, and those of k11 + k12 and k11 - k12
            int sign = kind < 5 ? 1 : -1;
            spectrum.anti = sign > 0;
            k12 = S(sx::inVar("k12", 0.25, 3)) * sign;
            int which = (kind - 2) % 3; // k11 > |k12|, between, k11 < -|k12|
            S u(sx::inVar("k11", 0.125, 2)); // beyond
            S a = k12 * sign;
            if (which == 0) k11 = a + u;
            else if (which == 1) {
                k11 = u - 1;
                sx::assumeC(lt(-a, k11) && lt(k11, a) && ne(k11, S(0)));
            } else k11 = -a - u;
            S p[2] = {k11 + k12, k11 - k12};
            for (int j = 0; j < 2; ++j) {
                // the separated problem has the higher eigenvalues iff p / k12 >= 0
                bool higher = which == 0 ? sign > 0 : which == 2 ? sign < 0 : j == 0;
                spectrum.shift[j] = higher;
            }
            (void) p;
        }
        k22 = (1 + k12 * k21) / k11;
        K << k11, k12, k21, k22;
    }

    std::unique_ptr<P> problem() {
        fresh = false;
        startLeft = initial();
        startRight = K * initial();
        xmin = S(sx::inVar("xmin", -5, 5));
        xmatch = xmin + S(sx::inVar("h0", 0.1, 5));
        xmax = xmatch + S(sx::inVar("h1", 0.1, 5));
        free_ = false;
        spectrum.gaps.clear();
        spectrum.x0 = S(0.125);
        spectrum.lowest[0] = S(-0.375);
        spectrum.lowest[1] = S(0.125);
        coarse = true;
        sx::setLiteral(1e-8, eps);
        return std::make_unique<P>([](const S &) { return S(0); }, xmin, xmax, S(0.001), OneSector(), K);
    }

    struct Found {
        int index;
        S e;
        int multiplicity;
    };

    std::vector<Found> expected(int iMin, int iMax) {
        std::vector<Found> r;
        auto add = [&](int i, const S &e, int m) {
            if ((m == 2 ? i + 1 < iMin : i < iMin) || i >= iMax) return;
            r.push_back({i, e, m});
        };
        if (!spectrum.anti) add(0, spectrum.x0, 1);
        for (int n = spectrum.anti ? 1 : 2; n <= std::max(iMax, iMin) + 1; n += 2) {
            Gap g = spectrum.gap(n);
            if (g.a == g.b) add(n - 1, g.a, 2);
            else {
                add(n - 1, g.a, 1);
                add(n, g.b, 1);
            }
        }
        return r;
    }

    double accuracy(double largest) { return (sx::symbolic() && coarse ? eps : 2e-8) * largest; }

    void compare(const std::vector<std::tuple<int, S, int>> &found, const std::vector<Found> &e) {
        bool count = found.size() == e.size();
        if (!count) sx::setDetail("");
        sx::checkC("C22.each-once", sx::cBool(count));
        if (!count) return;
        for (size_t i = 0; i < e.size(); ++i) {
            sx::checkC("C22.own-index", sx::cBool(std::get<0>(found[i]) == e[i].index));
            sx::checkC("C22.multiplicity", sx::cBool(std::get<2>(found[i]) == e[i].multiplicity));
            sx::checkEq("C22.own-energy", std::get<1>(found[i]), e[i].e, accuracy(e[i].index < 1 ? 1 : 3 * e[i].index), 1e-5);
        }
    }

    // gap s anywhere, and the angles of its neighbours
    void movable(int s, bool neighbours) {
        Gap g;
        g.a = S(3 * s - 1.5) + S(sx::inVar("a", 0, sx::tier() ? 1 : 0.5));
        g.b = g.a;
        g.top = g.a;
        if (sx::inBool("open")) {
            g.b = g.a + S(sx::inVar("b", 0.9375, sx::tier() ? 1.25 : 1));
            g.top = g.a + S(sx::inVar("top", 0.375, sx::tier() ? 0.875 : 0.5));
            sx::assumeC(le(g.top + 0.375, g.b));
        }
        g.angle[0] = g.a;
        g.angle[1] = g.b;
        spectrum.gaps[s] = g;
        if (!neighbours) return;
        for (int n = s - 1; n <= s + 1; n += 2) {
            if (n == 0) {
                spectrum.lowest[0] = spectrum.x0 - S(sx::inVar("lowest", 0, 2));
                spectrum.lowest[1] = spectrum.lowest[0] - S(0.5);
                continue;
            }
            Gap h = spectrum.gap(n);
            h.a = S(3 * n - 1.5);
            h.b = S(3 * n - 0.5);
            h.top = S(3 * n - 0.75);
            h.angle[0] = h.a + S(sx::inVar(sxn("angle", n), 0, sx::tier() ? 1 : 0.25));
            h.angle[1] = n < s ? h.a : h.b;
            if (sx::inBool(sxn("order", n))) std::swap(h.angle[0], h.angle[1]);
            spectrum.gaps[n] = h;
        }
    }
}

template<> M::Sector::Sector(const M *, const S &min, const S &max, Direction d)
        : min(min), max(max), h(max - min), direction(d) {
    for (auto &v: vs) v = S(0);
}

template<> template<> std::pair<Y<S, 1, 2>, Eigen::Array<S, 2, 1>>
M::propagate<2>(const S &e, const Y<S, 1, 2> &y, const S &a, const S &b, bool use_h) const {
    if (use_h != simplified) sx::checkC("C22.same-formula", sx::cBool(false));
    bool fromLeft = sx::symbolic() ? sx::sameV(a.v, xmin.v) : a == xmin;
    const M2 &start = fromLeft ? startLeft : startRight;
    // (obligations that hold literally are not counted one by one)
    auto same = [](const S &u, const S &v) { return sx::symbolic() && sx::sameV(u.v, v.v); };
    if (!fromLeft && !same(a, xmax)) sx::checkEq("C22.from-the-ends", a, xmax);
    if (!same(b, xmatch)) sx::checkEq("C22.to-the-match", b, xmatch);
    bool own = true;
    for (int j = 0; j < 2; ++j)
        for (int i = 0; i < 4; ++i) {
            S v = i < 2 ? start(i, j) : S(0);
            own = own && same(y.data(i, j), v);
            if (!same(y.data(i, j), v)) sx::checkEq(fromLeft ? "C22.left-values" : "C22.right-values", y.data(i, j), v);
        }
    if (own) sx::checkC(fromLeft ? "C22.left-values" : "C22.right-values", sx::cBool(true));
    if (!sx::symbolic() || !fresh || !sx::sameV(lastE.v, e.v)) values(e);
    lastE = e;
    fresh = true;
    Y<S, 1, 2> r;
    r.y() = fromLeft ? left : right;
    r.ydE() = fromLeft ? leftD : rightD;
    return {r, fromLeft ? angleL : angleR};
}

namespace {
    struct Captured : M::Eigenfunction {
        S e;
        Y1 l, r;

        Eigen::Array<S, 2, 1> operator()(const S &) const override {
            Eigen::Array<S, 2, 1> x;
            x << S(0), S(0);
            return x;
        }

        Eigen::Array<S, Eigen::Dynamic, 2> operator()(const Eigen::Array<S, Eigen::Dynamic, 1> &) const override {
            return Eigen::Array<S, Eigen::Dynamic, 2>();
        }
    };

    // the solver: its matrix is known to have the kernel vector kernel (up to the accuracy of the energy)
    bool solverKnows = false;
    S kernel[2], other[2], smallValue, otherValue;
    std::vector<S> solvedAt;
}

template<> std::unique_ptr<M::Eigenfunction> M::eigenfunction(
        const S &E, const Y1 &l, const Y1 &r, int) const {
    auto f = std::make_unique<Captured>();
    f->e = E;
    f->l = l;
    f->r = r;
    return f;
}

namespace Eigen {
    EigenSolver<Matrix<S, 2, 2>> &EigenSolver<Matrix<S, 2, 2>>::compute(const Matrix<S, 2, 2> &m, bool) {
        typedef std::complex<S> C;
        if (!sx::symbolic()) {
            Matrix2d d;
            for (int i = 0; i < 2; ++i)
                for (int j = 0; j < 2; ++j) d(i, j) = m(i, j).v.d;
            EigenSolver<Matrix2d> s(d, true);
            for (int i = 0; i < 2; ++i) {
                values[i] = C(S(s.eigenvalues()[i].real()), S(s.eigenvalues()[i].imag()));
                for (int j = 0; j < 2; ++j)
                    vectors(i, j) = C(S(s.eigenvectors()(i, j).real()), S(s.eigenvectors()(i, j).imag()));
            }
            return *this;
        }
        if (!solverKnows) sx::discard("eigenvectors are not expected");
        for (int i = 0; i < 2; ++i)
            for (int j = 0; j < 2; ++j) sx::checkEq("C23.kernel-of-the-mismatch", m(i, j), left(i, j) - right(i, j));
        solvedAt.push_back(lastE);
        int first = sx::inBool("kernel last") ? 1 : 0;
        values[first] = C(smallValue, S(0));
        values[1 - first] = C(otherValue, S(0));
        S scale(sx::inBool("opposite") ? -1 : 1);
        for (int i = 0; i < 2; ++i) {
            vectors(i, first) = C(scale * kernel[i], S(0));
            vectors(i, 1 - first) = C(other[i], S(0));
        }
        return *this;
    }
}

HARNESS(periodic_pair, "C22", "quick=12 thorough=600 crash=C22") {
    int kind = sx::inChoose("anti", 0, 1);
    chooseK(kind);
    auto p = problem();
    int s = sx::inChoose("pair", 0, 1) * 2 + (kind ? 1 : 2);
    movable(s, true);
    int iMin = sx::inChoose("iMin", s - 1, s), iMax = iMin + 1;
    sx::note("pair of eigenvalues anywhere in an interval of length 0.5 (thorough: 1; equal or at least 0.94 apart), its extremum "
             "anywhere between, the angles of the gaps next to it anywhere; bisection tolerance 1/32 instead of 1e-8");
    auto r = p->eigenvaluesByIndex(iMin, iMax);
    sx::reach(kind ? "antiperiodic" : "periodic");
    compare(r, expected(iMin, iMax));
}

// eigenvalues that are close, but not equal: the tolerance of the bisections is the one of the code
HARNESS(periodic_narrow, "C22", "quick=8 thorough=120 crash=C22") {
    int kind = sx::inChoose("kind", 0, kinds - 1);
    chooseK(kind);
    auto p = problem();
    coarse = false;
    sx::setLiteral(1e-8, 1e-8);
    int s = (sx::tier() ? sx::inChoose("pair", 0, 1) * 2 : 0) + (spectrum.anti ? 1 : 2);
    Gap g;
    static const double widths[] = {1e-5, 1e-3, 1e-4, 1e-2};
    g.a = S(3 * s - 1.5) + S(sx::inVar("a", 0, 1e-9));
    g.b = g.a + S(widths[sx::inChoose("width", 0, sx::tier() ? 3 : 1)]) + S(sx::inVar("b", 0, 1e-9));
    g.top = (g.a + g.b) / 2;
    g.angle[0] = g.a;
    g.angle[1] = g.b;
    spectrum.gaps[s] = g;
    sx::note("two eigenvalues 1e-5 to 1e-2 apart, with the tolerance of the code");
    auto r = p->eigenvaluesByIndex(s - 1, s + 1);
    sx::reach(spectrum.anti ? "antiperiodic" : "periodic");
    compare(r, expected(s - 1, s + 1));
}

HARNESS(periodic_index, "C22", "quick=14 thorough=300 crash=C22") {
    int kind = sx::inChoose("kind", 0, kinds - 1);
    chooseK(kind);
    auto p = problem();
    for (int n = 1; n <= 3; ++n)
        if (sx::inBool(sxn("closed", n))) {
            Gap g = spectrum.gap(n);
            g.a = g.b = g.top = g.angle[0] = g.angle[1];
            spectrum.gaps[n] = g;
        }
    int most = sx::tier() ? 6 : 4;
    int iMin = sx::inChoose("iMin", -3, most), iMax = sx::inChoose("iMax", iMin < -1 ? 0 : iMin, most);
    sx::note(sxn("index ranges from -3 to ", most) + ", quasi-periodic matrices with every combination of signs, the first "
             "three gaps open or closed; bisection tolerance 1/32 instead of 1e-8");
    auto r = p->eigenvaluesByIndex(iMin, iMax);
    sx::reach(spectrum.anti ? "antiperiodic" : "periodic");
    compare(r, expected(iMin, iMax));
}

HARNESS(periodic_lowest, "C22", "quick=5 thorough=300 crash=C22") {
    int kind = sx::inChoose("kind", 0, kinds - 1);
    chooseK(kind);
    auto p = problem();
    spectrum.x0 = S(sx::inVar("x0", sx::tier() ? -3 : -0.5, sx::tier() ? 0.5 : 0));
    for (int j = 0; j < 2; ++j) spectrum.lowest[j] = spectrum.x0 - S(sx::inVar(sxn("below", j), 0, sx::tier() ? 1 : 0.5));
    Gap g = spectrum.gap(1);
    g.a = S(1);
    g.b = S(2.5);
    for (int j = 0; j < 2; ++j) g.angle[j] = g.a + (j ? S(0.25) : S(sx::inVar("above", 0, sx::tier() ? 1.5 : 0.25)));
    spectrum.gaps[1] = g;
    int iMax = 1 + (spectrum.anti ? sx::inChoose("more", 0, 1) : 0);
    sx::note("lowest eigenvalues: anywhere, with the angles anywhere in their gaps; bisection tolerance 1/32 instead of 1e-8");
    auto r = p->eigenvaluesByIndex(0, iMax);
    sx::reach("found");
    compare(r, expected(0, iMax));
}

HARNESS(periodic_range, "C22", "quick=7 thorough=300 crash=C22") {
    int kind = sx::inChoose("kind", 0, kinds - 1);
    chooseK(kind);
    auto p = problem();
    spectrum.x0 = S(sx::inVar("x0", -0.5, 0.5));
    spectrum.lowest[0] = spectrum.x0 - S(0.25);
    spectrum.lowest[1] = S(-1);
    movable(spectrum.anti ? 1 : 2, false);
    S emin((sx::tier() ? 0.25 : 1) * sx::inChoose("Emin", sx::tier() ? -4 : -1, sx::tier() ? 24 : 6)), emax = emin + (sx::tier() ? 0.5 : 1.25) * sx::inChoose("width", -1, sx::tier() ? 12 : 4);
    std::vector<Found> e;
    double tol = accuracy(8);
    for (auto &x: expected(0, 8)) {
        // the ends of the range are no eigenvalues
        S d(tol);
        sx::assumeC(lt(x.e + d, emin) || lt(emin, x.e - d));
        sx::assumeC(lt(x.e + d, emax) || lt(emax, x.e - d));
        if (sx::branch(lt(emin, x.e) && lt(x.e, emax))) e.push_back(x);
    }
    sx::note("ranges of energies between -1 and 12 (ends on a grid), the lowest eigenvalue and a pair anywhere, quasi-periodic matrices with every combination of signs");
    auto r = p->eigenvalues(emin, emax);
    sx::reach(e.empty() ? "empty range" : "found");
    compare(r, e);
}

HARNESS(periodic_mismatch, "C22", "quick=5 thorough=20 crash=C22") {
    for (int i = 0; i < 2; ++i)
        for (int j = 0; j < 2; ++j) K(i, j) = S(sx::inVar(sxn(sxn("K", i), j), -3, 3));
    auto p = problem();
    free_ = true;
    simplified = sx::inBool("use_h");
    Eigen::Array<S, 2, 1> t;
    for (int j = 0; j < 2; ++j) {
        angleL[j] = S(sx::inVar(sxn("angleL", j), -50, 50));
        angleR[j] = S(sx::inVar(sxn("angleR", j), -50, 50));
        for (int i = 0; i < 2; ++i) {
            left(i, j) = S(sx::inVar(sxn(sxn("L", i), j), -10, 10));
            right(i, j) = S(sx::inVar(sxn(sxn("R", i), j), -10, 10));
            leftD(i, j) = S(sx::inVar(sxn(sxn("LdE", i), j), -10, 10));
            rightD(i, j) = S(sx::inVar(sxn(sxn("RdE", i), j), -10, 10));
        }
    }
    sx::note("mismatch: every matrix K, all propagated values and angles");
    auto r = p->matchingError(S(sx::inVar("E", -10, 10)), simplified);
    simplified = true;
    sx::reach("mismatch");
    for (int j = 0; j < 2; ++j) {
        sx::checkEq("C22.mismatch-angle", r.second[j] * constants<S>::PI, angleL[j] - angleR[j]);
        for (int i = 0; i < 2; ++i) {
            sx::checkEq("C22.mismatch", r.first.y()(i, j), left(i, j) - right(i, j));
            sx::checkEq("C22.mismatch-derivative", r.first.ydE()(i, j), leftD(i, j) - rightD(i, j));
        }
    }
}

namespace {
    // the captured boundary values satisfy the condition of periodicity
    void checkFunction(const Captured &f, const S &E) {
        sx::checkEq("C23.own-energy", f.e, E);
        for (int i = 0; i < 2; ++i) {
            sx::checkEq("C23.periodicity", f.r.data[i], K(i, 0) * f.l.data[0] + K(i, 1) * f.l.data[1]);
            sx::checkEq("C23.no-energy-derivative", f.l.data[2 + i], S(0));
            sx::checkEq("C23.no-energy-derivative", f.r.data[2 + i], S(0));
        }
        sx::checkC("C23.not-zero", ne(f.l.data[0], S(0)) || ne(f.l.data[1], S(0)));
    }

    // the two ends match: the combination of the initial values is in the kernel of the mismatch
    void checkKernel(const Captured &f, double scale) {
        S c0 = (f.l.data[0] + f.l.data[1]) / 2, c1 = (f.l.data[0] - f.l.data[1]) / 2;
        sx::checkEq("C23.kernel", c0 * kernel[1], c1 * kernel[0], 0, scale);
    }

    const Captured &captured(const std::unique_ptr<P::Eigenfunction> &f) {
        return dynamic_cast<const Captured &>(*f);
    }

    void checkFunctions(const std::vector<std::unique_ptr<P::Eigenfunction>> &f, const S &E, int multiplicity) {
        bool count = (int) f.size() == multiplicity;
        sx::checkC("C23.number-of-functions", sx::cBool(count));
        if (!count) return;
        for (auto &g: f) checkFunction(captured(g), E);
        if (multiplicity == 2) {
            auto &a = captured(f[0]).l.data, &b = captured(f[1]).l.data;
            sx::checkC("C23.independent", ne(a[0] * b[1], a[1] * b[0]));
        } else if (multiplicity == 1) checkKernel(captured(f[0]), 1e-3);
    }
}

HARNESS(periodic_pairs, "C23", "quick=15 thorough=100 crash=C23") {
    int kind = sx::inChoose("kind", 0, kinds - 1);
    chooseK(kind);
    auto p = problem();
    int n = spectrum.anti ? 1 : 2;
    Gap g = spectrum.gap(n);
    if (sx::inBool("closed")) g.a = g.b = g.top = g.angle[0] = g.angle[1];
    spectrum.gaps[n] = g;
    int iMin = sx::inChoose("iMin", 0, 2), iMax = sx::inChoose("iMax", iMin, 3);
    auto e = expected(iMin, iMax);
    bool byIndex = sx::inBool("by index");
    // near an eigenvalue: the mismatch is outer * diag(1, small) * inner
    M2 in = inner();
    kernel[0] = -in(0, 1);
    kernel[1] = in(0, 0);
    for (int i = 0; i < 2; ++i) other[i] = S(sx::inVar(sxn("other", i), -1, 1));
    otherValue = S(sx::inBool("value") ? 2 : -2);
    solverKnows = true;
    std::vector<std::tuple<int, S, std::vector<std::unique_ptr<P::Eigenfunction>>>> r;
    struct Guard {
        ~Guard() { solverKnows = false; }
    } guard;
    smallValue = S(0);
    solvedAt.clear();
    if (byIndex) r = p->eigenpairsByIndex(iMin, iMax);
    else {
        S lo = e.empty() ? S(40) : e.front().e - 0.25, hi = e.empty() ? S(40.5) : e.back().e + 0.25;
        r = p->eigenpairs(lo, hi);
    }
    sx::note("eigenpairs: quasi-periodic matrices with every combination of signs, the pair single or double, by index and by energy");
    sx::reach(byIndex ? "by index" : "by energy");
    if (!byIndex && e.empty()) return;
    bool count = r.size() == e.size();
    sx::checkC("C23.each-once", sx::cBool(count));
    if (!count) return;
    for (size_t i = 0; i < e.size(); ++i) {
        sx::checkC("C23.own-index", sx::cBool(std::get<0>(r[i]) == e[i].index));
        sx::checkEq("C23.eigenvalue", std::get<1>(r[i]), e[i].e, accuracy(8), 1e-5);
        checkFunctions(std::get<2>(r[i]), std::get<1>(r[i]), e[i].multiplicity);
        if (!sx::symbolic() || e[i].multiplicity == 2) continue;
        // the matrix that was solved is that of the energy that is reported
        bool own = false;
        for (auto &x: solvedAt) own = own || sx::sameV(x.v, std::get<1>(r[i]).v);
        if (!own) sx::fail("C23.kernel-at-the-eigenvalue", "the kernel is that of the mismatch at another energy");
    }
}

HARNESS(periodic_eigenfunction, "C23", "quick=10 thorough=60 crash=C23") {
    chooseK(sx::inChoose("kind", 0, kinds - 1));
    auto p = problem();
    free_ = true;
    int rank = sx::inChoose("rank", 0, 2);
    M2 m;
    if (rank == 0) m << S(0), S(0), S(0), S(0);
    else if (rank == 1) {
        S u[2], v[2];
        for (int i = 0; i < 2; ++i) {
            u[i] = S(sx::inVar(sxn("u", i), -2, 2));
            v[i] = S(sx::inVar(sxn("v", i), -2, 2));
        }
        for (int i = 0; i < 2; ++i)
            for (int j = 0; j < 2; ++j) m(i, j) = u[i] * v[j];
        smallValue = S(0);
        otherValue = m(0, 0) + m(1, 1);
        sx::assumeC(lt(S(0.05), otherValue) || lt(otherValue, S(-0.05)));
        kernel[0] = -v[1];
        kernel[1] = v[0];
        for (int i = 0; i < 2; ++i) other[i] = u[i];
    } else {
        // two eigenvectors
        smallValue = S(sx::inVar("value0", 0.05, 3));
        otherValue = -S(sx::inVar("value1", 0.05, 3));
        S f(sx::inVar("f", -3, 3));
        m << smallValue, f * (otherValue - smallValue), S(0), otherValue;
        kernel[0] = S(1);
        kernel[1] = S(0);
        other[0] = f;
        other[1] = S(1);
    }
    for (int j = 0; j < 2; ++j)
        for (int i = 0; i < 2; ++i) {
            right(i, j) = S(sx::inVar(sxn(sxn("R", i), j), -10, 10));
            rightD(i, j) = S(sx::inVar(sxn(sxn("RdE", i), j), -10, 10));
            leftD(i, j) = S(sx::inVar(sxn(sxn("LdE", i), j), -10, 10));
            angleL[j] = angleR[j] = S(0);
        }
    left = right + m;
    solverKnows = true;
    S E(sx::inVar("E", -10, 10));
    auto r = p->eigenfunction(E);
    solverKnows = false;
    sx::note("eigenfunctions of an energy: mismatch zero, of rank one with any kernel, or with two eigenvalues of at least 0.05");
    sx::reach(rank == 0 ? "double" : rank == 1 ? "single" : "none");
    checkFunctions(r, E, 2 - rank);
}
