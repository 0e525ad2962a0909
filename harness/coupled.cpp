// Coupled systems: Matscs::propagateColumn, propagate and propagatePsi on arbitrary meshes with arbitrary transfer matrices.
// sx: tags 1
// sx: libs -Wl,--unresolved-symbols=ignore-all
// sx: skip liouville matslise/halfrange.cpp matslise/periodic.cpp matslise/matslise_formulas.cpp matscs/matscs_formulas.cpp
#include <map>
#include "matslise.h"
#include "coupled.stubs.h"
#include "matslise/matslise_formulas.h"
#include "flow.h"
#include "util/calculateEta.h"

template<> void calculate_tcoeff_matrix(
        const S &, const std::array<S, MATSLISE_N> &,
        Eigen::Array<Eigen::Matrix<S, 2, 2, Eigen::DontAlign>, MATSLISE_ETA_delta, MATSLISE_HMAX_delta, Eigen::DontAlign> &,
        Eigen::Matrix<S, 2, 2, Eigen::DontAlign> *) {}

typedef Matscs<S> C;
typedef Y<S, Eigen::Dynamic> YN;
typedef Y<S, Eigen::Dynamic, 1> YC;
typedef Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> Mat;

namespace {
    struct Known { // a transfer matrix, its derivative, and the inverse of the matrix
        S at;
        bool full;
        T<S, Eigen::Dynamic> value;
        Mat inverse;
    };
    std::vector<const C::Sector *> coupledSectors;
    std::map<int, std::vector<Known>> coupledTransfers;
    int channels = 1;
    enum Kind { general, lower, upper, scalar } kind = general;
    const M *scalarProblem = nullptr;

    int numberOf(const C::Sector *s) {
        for (size_t i = 0; i < coupledSectors.size(); ++i)
            if (coupledSectors[i] == s) return (int) i;
        return -1;
    }

    Mat entries(const std::string &name, int rows, int cols) {
        Mat m(rows, cols);
        for (int i = 0; i < rows; ++i)
            for (int j = 0; j < cols; ++j) m(i, j) = S(sx::inVar(sxn(sxn(name, i) + "_", j), -2, 2));
        return m;
    }

    const Known &known(const C::Sector *s, const S &delta, bool use_h) {
        int nr = numberOf(s), n = channels;
        bool zero = sameValue(delta, S(0));
        bool full = distinguishH && use_h && !zero && sameValue(delta, s->h);
        auto &list = coupledTransfers[nr];
        list.reserve(1000);
        for (auto &k: list)
            if (k.full == full && (ident(k.at, delta) || sameValue(k.at, delta))) return k;
        Known k{delta, full, T<S, Eigen::Dynamic>(n), Mat::Identity(2 * n, 2 * n)};
        if (kind == scalar) {
            T<S> t = transferOf(scalarProblem->sectors[nr].get(), delta, use_h);
            k.value.t = t.t;
            k.value.dt = t.dt;
            k.inverse << t.t(1, 1), -t.t(0, 1), -t.t(1, 0), t.t(0, 0);
        } else if (!zero) {
            std::string name = sxn(sxn("t", nr) + (full ? "h" : "d"), list.size());
            Mat I = Mat::Identity(n, n), Z = Mat::Zero(n, n);
            Mat P = kind == lower ? Z : entries(name + "p", n, n), Q = kind == upper ? Z : entries(name + "q", n, n);
            Mat PD = kind == lower ? Z : entries(name + "P", n, n), QD = kind == upper ? Z : entries(name + "Q", n, n);
            // [I P; 0 I] [I 0; Q I]
            k.value.t << I + P * Q, P, Q, I;
            k.value.dt << PD * Q + P * QD, PD, QD, Z;
            k.inverse << I, -P, -Q, I + Q * P;
        }
        list.push_back(k);
        return list.back();
    }

    S determinant(const Mat &m) {
        if (m.rows() == 0) return S(1);
        if (m.rows() == 1) return m(0, 0);
        S d = 0;
        for (int j = 0; j < m.cols(); ++j) {
            Mat minor(m.rows() - 1, m.cols() - 1);
            for (int r = 1; r < m.rows(); ++r)
                for (int c = 0, k = 0; c < m.cols(); ++c)
                    if (c != j) minor(r - 1, k++) = m(r, c);
            S t = m(0, j) * determinant(minor);
            d += j % 2 ? -t : t;
        }
        return d;
    }

    std::vector<S> determinants; // of the systems that were solved
    bool refuseSingular = false;
}

sx::Square sx::linearSolve(const Square &m, const Square &rhs) {
    for (auto &l: coupledTransfers)
        for (auto &k: l.second) {
            bool same = k.value.t.rows() == m.rows();
            for (int i = 0; same && i < m.rows(); ++i)
                for (int j = 0; same && j < m.cols(); ++j) same = ident(k.value.t(i, j), m(i, j));
            if (same) return k.inverse * rhs;
        }
    S det = determinant(m);
    determinants.push_back(det);
    sx::assumeC(ne(det, S(0))); // the solution exists
    Square r(m.cols(), rhs.cols());
    for (int j = 0; j < rhs.cols(); ++j)
        for (int i = 0; i < m.cols(); ++i) {
            Square other = m;
            other.col(i) = rhs.col(j);
            r(i, j) = determinant(other) / det;
        }
    return r;
}

// the angle is not looked at
sx::ComplexSquare sx::linearSolve(const ComplexSquare &, const ComplexSquare &rhs) { return rhs; }
Eigen::Matrix<sx::Complex, Eigen::Dynamic, 1> sx::spectrum(const ComplexSquare &m) {
    return Eigen::Matrix<Complex, Eigen::Dynamic, 1>::Constant(m.rows(), Complex(S(1), S(0)));
}

template<> C::Sector::Sector(const C *p, const S &min, const S &max, Direction d)
        : n(p->n), min(min), max(max), h(max - min), direction(d) {
    for (auto &v: vs) v = Mat::Zero(p->n, p->n);
    vs[0] = S(sx::V{200, nullptr}) * Mat::Identity(p->n, p->n);
    diagonalize = Mat::Identity(p->n, p->n);
}

template<> T<S, Eigen::Dynamic> C::Sector::calculateT(const S &E, const S &delta, bool use_h) const {
    sx::checkC("C28.energy-unchanged", eq(E, energy));
    sx::checkC("C28.within-sector", le(S(0), delta) && le(delta, h));
    return known(this, delta, use_h).value;
}

template<> T<S, Eigen::Dynamic> C::Sector::calculateT(const S &E, bool use_h) const { return calculateT(E, h, use_h); }

template<> C::MatrixXcs C::Sector::theta(const YN &y) const {
    return C::MatrixXcs::Identity(y.dimension(), y.dimension());
}
template<> Eigen::Array<S, 2, 1> calculateEta<S, 2>(S) { return Eigen::Array<S, 2, 1>::Constant(S(1)); }

namespace {
    struct CoupledMesh : SectorBuilder<C> {
        std::vector<S> ends;
        std::vector<Direction> directions;
        int match = 0;

        SectorBuilderReturn<C> operator()(const C *p, const S &, const S &) const override {
            SectorBuilderReturn<C> r;
            coupledSectors.clear();
            for (size_t i = 0; i + 1 < ends.size(); ++i) {
                r.sectors.push_back(std::make_unique<C::Sector>(p, ends[i], ends[i + 1], directions[i]));
                coupledSectors.push_back(r.sectors.back().get());
            }
            r.matchIndex = match;
            return r;
        }
    };

    struct System {
        CoupledMesh mesh;
        std::unique_ptr<C> ms;

        System(int n, int minSectors, int maxSectors, Kind k = general) {
            coupledTransfers.clear();
            determinants.clear();
            channels = n;
            kind = k;
            energy = S(sx::inVar("E", -100, 100));
            int count = sx::inChoose("sectors", minSectors, maxSectors);
            mesh.ends.push_back(S(sx::inVar("xmin", -10, 10)));
            for (int i = 0; i < count; ++i) {
                mesh.ends.push_back(mesh.ends.back() + S(sx::inVar(sxn("w", i), 0.1, 10)));
                mesh.directions.push_back(sx::inBool(sxn("backward", i)) ? backward : forward);
            }
            create();
        }

        System(const Problem &p) {
            coupledTransfers.clear();
            determinants.clear();
            channels = 1;
            kind = scalar;
            mesh.ends = p.mesh.ends;
            mesh.match = p.mesh.match;
            for (auto &s: p.ms->sectors) mesh.directions.push_back(s->direction);
            scalarProblem = p.ms.get();
            create();
        }

        void create() {
            int n = channels;
            ms = std::make_unique<C>([n](const S &) -> Mat { return Mat::Zero(n, n); }, n, mesh.ends[0], mesh.ends.back(), mesh);
        }

        int count() const { return (int) mesh.ends.size() - 1; }

        S inside(const std::string &name) const {
            S x(sx::inVar(name, -40, 120));
            sx::assumeC(le(mesh.ends[0], x) && le(x, mesh.ends.back()));
            return x;
        }
    };

    template<int r> Y<S, Eigen::Dynamic, r> initial(const std::string &name, int cols) {
        Y<S, Eigen::Dynamic, r> y(channels, cols);
        y.data = entries(name, 4 * channels, cols);
        return y;
    }

    template<int r> void same(const std::string &label, const Y<S, Eigen::Dynamic, r> &a, const Y<S, Eigen::Dynamic, r> &b) {
        if (a.data.rows() != b.data.rows() || a.data.cols() != b.data.cols()) {
            sx::fail(label, "other dimensions");
            return;
        }
        for (int j = 0; j < a.data.cols(); ++j)
            for (int i = 0; i < a.data.rows(); ++i) sx::checkEq(label, a.data(i, j), b.data(i, j));
    }

    // the solution over one sector from p to q (both in the sector)
    template<int r> Y<S, Eigen::Dynamic, r> across(const C::Sector &s, const Y<S, Eigen::Dynamic, r> &y0, const S &p, const S &q, bool use_h) {
        bool fwd = s.direction == forward;
        int n = channels;
        const Known a = known(&s, fwd ? p - s.min : s.max - p, use_h);
        const Known b = known(&s, fwd ? q - s.min : s.max - q, use_h);
        Mat v = y0.data.topRows(2 * n), d = y0.data.bottomRows(2 * n);
        if (!fwd) v.bottomRows(n) *= S(-1), d.bottomRows(n) *= S(-1);
        Mat w = a.inverse * v, wd = a.inverse * (d - a.value.dt * w);
        Mat u = b.value.t * w, ud = b.value.t * wd + b.value.dt * w;
        if (!fwd) u.bottomRows(n) *= S(-1), ud.bottomRows(n) *= S(-1);
        Y<S, Eigen::Dynamic, r> y = y0;
        y.data.topRows(2 * n) = u;
        y.data.bottomRows(2 * n) = ud;
        return y;
    }

    // calls step(sector, from, to) for the sectors between a and b
    void walk(const System &p, const S &a, const S &b, const std::function<void(const C::Sector &, const S &, const S &)> &step) {
        int n = p.count();
        auto sectorOf = [&](const S &x, bool low) {
            int k = low ? 0 : n - 1;
            if (low) while (k + 1 < n && sx::branch(lt(p.mesh.ends[k + 1], x))) ++k;
            else while (k > 0 && sx::branch(lt(x, p.mesh.ends[k]))) --k;
            return k;
        };
        if (sx::branch(le(a, b))) {
            int i = sectorOf(a, false), j = sectorOf(b, true);
            for (int k = i; k <= j; ++k) step(*p.ms->sectors[k], k == i ? a : p.mesh.ends[k], k == j ? b : p.mesh.ends[k + 1]);
        } else {
            int i = sectorOf(a, true), j = sectorOf(b, false);
            for (int k = i; k >= j; --k) step(*p.ms->sectors[k], k == i ? a : p.mesh.ends[k + 1], k == j ? b : p.mesh.ends[k]);
        }
    }

    template<int r> Y<S, Eigen::Dynamic, r> expectedC(const System &p, Y<S, Eigen::Dynamic, r> y, const S &a, const S &b, bool use_h) {
        walk(p, a, b, [&](const C::Sector &s, const S &from, const S &to) { y = across(s, y, from, to, use_h); });
        return y;
    }
}

HARNESS(coupled_domain, "C28", "quick=25 thorough=300 crash=C28") {
    System p(1, 1, sx::tier() ? 4 : 3);
    sx::note(sxn("coupled propagation, one channel: up to ", sx::tier() ? 4 : 3) + " sectors, end points anywhere, every orientation");
    distinguishH = true;
    bool use_h = sx::inBool("use_h");
    S a(sx::inVar("a", -40, 120)), b(sx::inVar("b", -40, 120));
    YC y0 = initial<1>("y", 1);
    YN m0(1);
    m0.data = y0.data;
    int which = sx::inChoose("which", 0, 2);
    bool answered = true;
    YC y(1);
    try {
        if (which == 0) y = p.ms->propagateColumn<1>(energy, y0, a, b, use_h);
        else y.data = which == 1 ? p.ms->propagateColumn<-1>(energy, m0, a, b, use_h).data : p.ms->propagate(energy, m0, a, b, use_h).first.data;
    } catch (std::runtime_error &) {
        answered = false;
    }
    sx::Cond inside = le(p.mesh.ends[0], a) && le(a, p.mesh.ends.back()) && le(p.mesh.ends[0], b) && le(b, p.mesh.ends.back());
    if (answered) sx::checkC("C28.outside-refused", inside);
    else sx::checkC("C28.inside-answered", !inside);
    if (!answered) {
        sx::reach("refused");
        return;
    }
    sx::reach(sx::branch(lt(a, b)) ? "to the right" : "to the left");
    same("C28.overlapping-sectors", y, expectedC(p, y0, a, b, use_h));
}

HARNESS(coupled_channels, "C28", "quick=25 thorough=300 crash=C28") {
    System p(2, 1, 2, sx::inBool("upper") ? upper : lower);
    sx::note("coupled propagation, two channels: up to 2 sectors, every orientation");
    distinguishH = true;
    bool use_h = sx::inBool("use_h");
    S a = p.inside("a"), b = p.inside("b");
    int which = sx::inChoose("which", 0, 2);
    YN y0(2);
    YC c0 = initial<1>("y", 1);
    if (which) for (int i = 0; i < 8; ++i) y0.data(i, 0) = c0.data(i, 0), y0.data(i, 1) = i % 3 == 0 ? S(sx::V{1. + i, nullptr}) : S(sx::V{0, nullptr});
    sx::reach("two channels");
    if (which == 0) same("C28.channels", p.ms->propagateColumn<1>(energy, c0, a, b, use_h), expectedC(p, c0, a, b, use_h));
    else same("C28.channels", which == 1 ? p.ms->propagateColumn<-1>(energy, y0, a, b, use_h) : p.ms->propagate(energy, y0, a, b, use_h).first,
              expectedC(p, y0, a, b, use_h));
}

HARNESS(coupled_sector, "C28", "quick=25 thorough=300 crash=C28") {
    System p(sx::tier() ? sx::inChoose("channels", 2, 3) : 2, 1, 1);
    sx::note("coupled propagation over one sector, two channels, any transfer matrix");
    distinguishH = true;
    bool use_h = sx::inBool("use_h");
    S a = p.inside("a"), b = p.inside("b");
    YC c0 = initial<1>("y", 1);
    sx::reach("two channels");
    YC there = p.ms->propagateColumn<1>(energy, c0, a, b, use_h);
    same("C28.sector", there, expectedC(p, c0, a, b, use_h));
    same("C28.there-and-back", p.ms->propagateColumn<1>(energy, there, b, a, use_h), c0);
}

HARNESS(coupled_compose, "C28", "quick=30 thorough=400 crash=C28") {
    System p(1, 1, sx::tier() ? 3 : 2);
    distinguishH = false;
    S a = p.inside("a"), b = p.inside("b"), c = p.inside("c");
    YC y0 = initial<1>("y", 1);
    YC ab = p.ms->propagateColumn<1>(energy, y0, a, b);
    sx::reach("composed");
    same("C28.composition", p.ms->propagateColumn<1>(energy, ab, b, c), p.ms->propagateColumn<1>(energy, y0, a, c));
    same("C28.there-and-back", p.ms->propagateColumn<1>(energy, ab, b, a), y0);
    same("C28.empty-interval", p.ms->propagateColumn<1>(energy, y0, a, a), y0);
}

HARNESS(coupled_columns, "C28", "quick=20 thorough=300 crash=C28") {
    System p(2, 1, 2, sx::inBool("upper") ? upper : lower);
    distinguishH = true;
    bool use_h = sx::inBool("use_h");
    S a = p.inside("a"), b = p.inside("b");
    YN y0(2);
    for (int i = 0; i < 8; ++i)
        for (int j = 0; j < 2; ++j)
            y0.data(i, j) = i % 2 ? S(sx::inVar(sxn(sxn("y", i) + "_", j), -2, 2)) : S(sx::V{i + 2. * j - 3, nullptr});
    YN all = p.ms->propagateColumn<-1>(energy, y0, a, b, use_h), angle = p.ms->propagate(energy, y0, a, b, use_h).first;
    sx::reach("columns");
    same("C28.with-angle", angle, all);
    for (int j = 0; j < 2; ++j) {
        YC col(2);
        col.data = y0.data.col(j);
        YC one = p.ms->propagateColumn<1>(energy, col, a, b, use_h);
        for (int i = 0; i < 8; ++i) sx::checkEq("C28.columns", all.data(i, j), one.data(i, 0));
    }
}

HARNESS(coupled_scalar, "C28", "quick=20 thorough=300 crash=C28") {
    Problem scalarP(1, sx::tier() ? 4 : 3);
    distinguishH = true;
    shear = 1 + sx::inBool("shear");
    System p(scalarP);
    bool use_h = sx::inBool("use_h");
    S a = p.inside("a"), b = p.inside("b");
    Y1 y0 = values<1>("y");
    YC c0(1);
    c0.data = y0.data;
    YC c = p.ms->propagateColumn<1>(energy, c0, a, b, use_h);
    Y1 y = scalarP.ms->propagate(energy, y0, a, b, use_h).first;
    sx::reach("one channel");
    for (int i = 0; i < 4; ++i) sx::checkEq("C28.one-channel", c.data(i, 0), y.data[i]);
    shear = 0;
    kind = general;
}

namespace {
    // psi times the derivative of the solution is the solution
    void quotient(const std::string &label, const Mat &psi, const Mat &u, const Mat &v) {
        Mat m = psi * v;
        for (int i = 0; i < m.rows(); ++i)
            for (int j = 0; j < m.cols(); ++j) sx::checkEq(label, m(i, j), u(i, j));
    }

    void expectedPsi(const System &p, Mat u, Mat v, const S &a, const S &b, Mat &u1, Mat &v1) {
        int n = channels;
        YN y(n);
        y.data.block(0, 0, n, n) = u;
        y.data.block(n, 0, n, n) = v;
        y = expectedC(p, y, a, b, true);
        u1 = y.data.block(0, 0, n, n);
        v1 = y.data.block(n, 0, n, n);
    }
}

HARNESS(psi_mesh, "C30", "quick=25 thorough=300 crash=C30") {
    System p(1, 1, sx::tier() ? 4 : 3, upper);
    sx::note(sxn("quotients, one channel: up to ", sx::tier() ? 4 : 3) + " sectors, end points anywhere, every orientation");
    distinguishH = true;
    S a(sx::inVar("a", -40, 120)), b(sx::inVar("b", -40, 120));
    Mat psi = entries("psi", 1, 1), r;
    bool answered = true;
    try {
        r = p.ms->propagatePsi(energy, psi, a, b);
    } catch (std::runtime_error &) {
        answered = false;
    }
    sx::Cond inside = le(p.mesh.ends[0], a) && le(a, p.mesh.ends.back()) && le(p.mesh.ends[0], b) && le(b, p.mesh.ends.back());
    if (answered) sx::checkC("C30.outside-refused", inside);
    else sx::checkC("C30.inside-answered", !inside);
    if (!answered) {
        sx::reach("refused");
        return;
    }
    sx::reach(sx::branch(lt(a, b)) ? "to the right" : "to the left");
    Mat u, v;
    expectedPsi(p, psi, Mat::Identity(1, 1), a, b, u, v);
    quotient("C30.mesh", r, u, v);
}

HARNESS(psi_two, "C30", "quick=30 thorough=300 crash=C30") {
    System p(1, 1, sx::tier() ? 4 : 3);
    sx::note("quotients, one channel: up to 3 (thorough: 4) sectors, any transfer matrix, every orientation");
    distinguishH = true;
    S a = p.inside("a"), b = p.inside("b");
    Mat psi = entries("psi", 1, 1);
    Mat r = p.ms->propagatePsi(energy, psi, a, b);
    sx::reach("quotient");
    Mat u, v;
    expectedPsi(p, psi, Mat::Identity(1, 1), a, b, u, v);
    quotient("C30.value", r, u, v);
}

HARNESS(psi_channels, "C30", "quick=30 thorough=300 crash=C30") {
    bool ends = sx::inBool("from or to an end");
    System p(2, 1, ends ? 1 : sx::tier() ? 3 : 2, ends ? general : upper);
    sx::note("quotients, two channels: one sector or several shears; any transfer matrix for points of which one is an end of the sector");
    distinguishH = true;
    S a = p.inside("a"), b = p.inside("b");
    if (ends) {
        bool low = sx::inBool("lower end");
        const S &e = p.mesh.ends[low ? 0 : 1];
        if (sx::inBool("from it")) a = e;
        else b = e;
        // one of them is the reference point of the sector: there is only one transfer
        const S &reference = p.mesh.ends[p.mesh.directions[0] == forward ? 0 : 1];
        sx::assumeC(eq(a, reference) || eq(b, reference));
    }
    Mat psi = entries("psi", 2, 2);
    Mat r = p.ms->propagatePsi(energy, psi, a, b);
    sx::reach("quotient");
    Mat u, v;
    expectedPsi(p, psi, Mat::Identity(2, 2), a, b, u, v);
    quotient("C30.channels", r, u, v);
}
