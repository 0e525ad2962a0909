// Sturm-Liouville problems: the real SturmLiouville and its eigenfunctions on top of an arbitrary transformation and
// an arbitrary transformed problem.
// sx: tags 1
// sx: libs -Wl,--unresolved-symbols=ignore-all
// sx: skip matscs liouville/liouville.cpp matslise/periodic.cpp matslise/halfrange.cpp matslise/matslise_formulas.cpp matslise/sector.cpp util
#include <array>
#include "liouville.h"
#include "sturm.stubs.h"
#include "util.h"

using namespace matslise;
using namespace matslise::sector_builder;
typedef sx::SymT<1> S;
typedef Matslise<S> M;
typedef LiouvilleTransformation<S> LT;
typedef SturmLiouville<S> SL;
typedef Y<S> Y1;
typedef Eigen::Array<S, Eigen::Dynamic, 1> Points;
typedef Eigen::Array<S, Eigen::Dynamic, 2> Values;

namespace {
    S rMin, rMax, xMin, xMax, tolerance;
    Y1 left, right;           // of the original problem
    std::vector<std::pair<int, S>> spectrum;
    int iMin, iMax;

    S uf(const std::string &n, std::vector<S> a) {
        std::vector<sx::V> v;
        for (auto &x: a) v.push_back(x.v);
        return S(sx::vUF(n, v, -5, 5));
    }

    std::vector<S> with(const S &x, const Y1 &y) {
        return {x, y.data[0], y.data[1], y.data[2], y.data[3]};
    }

    Y1 transformed(const std::string &n, const S &x, const Y1 &y) {
        Y1 r;
        for (int k = 0; k < 4; ++k) r.data[k] = uf(sxn(n, k), with(x, y));
        return r;
    }

    Y1 expectedLeft() { return transformed("z2y", rMin, left); }

    Y1 expectedRight() { return transformed("z2y", rMax, right); }

    void checkSides(const Y1 &l, const Y1 &r) {
        Y1 a = expectedLeft(), b = expectedRight();
        for (int k = 0; k < 4; ++k) {
            sx::checkEq("C27.left-values", l.data[k], a.data[k]);
            sx::checkEq("C27.right-values", r.data[k], b.data[k]);
        }
    }

    // an eigenfunction of the transformed problem
    struct Function : M::Eigenfunction {
        int state;

        explicit Function(int state) : state(state) {}

        Eigen::Array<S, 2, 1> operator()(const S &x) const override {
            Eigen::Array<S, 2, 1> r;
            r << uf(sxn("f", state), {x}), uf(sxn("fD", state), {x});
            return r;
        }

        Values operator()(const Points &x) const override {
            Values r(x.size(), 2);
            for (Eigen::Index i = 0; i < x.size(); ++i) r.row(i) = (*this)(x[i]).transpose();
            return r;
        }
    };

    Y1 someValues(const std::string &n) {
        Y1 y;
        for (int i = 0; i < 4; ++i) y.data[i] = S(sx::inVar(sxn(n, i), -5, 5));
        return y;
    }

    std::unique_ptr<SL> problem() {
        rMin = S(sx::inVar("rMin", -5, 5));
        rMax = rMin + S(sx::inVar("length", 0.1, 5));
        xMin = S(sx::inVar("xMin", -5, 5));
        xMax = xMin + S(sx::inVar("xLength", 0.1, 5));
        tolerance = S(sx::inVar("tolerance", 1e-12, 1e-2));
        left = someValues("left");
        right = someValues("right");
        auto none = [](S) { return S(0); };
        return std::make_unique<SL>(none, none, none, Domain<S>{rMin, rMax}, tolerance);
    }

    void chooseSpectrum() {
        int n = sx::inChoose("states", 0, sx::tier() ? 4 : 3);
        spectrum.clear();
        int index = sx::inChoose("first", 0, 2);
        for (int i = 0; i < n; ++i) {
            spectrum.push_back({index, S(sx::inVar(sxn("E", i), -10, 10))});
            index += 1 + sx::inChoose(sxn("step", i), 0, 1);
        }
        iMin = sx::inChoose("iMin", -1, 3);
        iMax = sx::inChoose("iMax", 0, 5);
    }
}

template<> LT::LiouvilleTransformation(const Domain<S> &domain, const Function &p, const Function &q, const Function &w)
        : m_rDomain(domain), m_p(p), m_q(q), m_w(w) {
    pieces.emplace_back(*this, domain);
}

template<> LT::Piece::Piece(const LT &, const Domain<S> &d) : r(d), x({xMin, xMax}) {}

template<> S LT::r2x(S r) const { return uf("r2x", {r}); }

template<> S LT::x2r(S x) const { return uf("x2r", {x}); }

template<> S LT::V(S x) const { return uf("V", {x}); }

template<> Y1 LT::z2y(const S &r, const Y1 &z) const { return transformed("z2y", r, z); }

template<> Y1 LT::y2z(const S &x, const Y1 &y) const {
    // (the values do not depend on the energy derivatives)
    Y1 r;
    for (int k = 0; k < 2; ++k) r.data[k] = uf(sxn("y2z", k), {x, y.data[0], y.data[1]});
    for (int k = 2; k < 4; ++k) r.data[k] = uf(sxn("y2z", k), with(x, y));
    return r;
}

template<> M::Sector::Sector(const M *, const S &min, const S &max, Direction d)
        : min(min), max(max), h(max - min), direction(d) {
    for (auto &v: vs) v = S(0);
}

template<> SectorBuilderReturn<M>
AutomaticSectorBuilder<M>::operator()(const M *p, const S &a, const S &b) const {
    sx::checkEq("C27.transformed-domain", a, xMin);
    sx::checkEq("C27.transformed-domain", b, xMax);
    sx::checkEq("C27.tolerance", tolerance, ::tolerance);
    S x(sx::inVar("x", -5, 5));
    sx::checkEq("C27.transformed-potential", p->potential(x), uf("V", {x}));
    SectorBuilderReturn<M> r;
    S m = (a + b) / 2;
    r.sectors.push_back(std::make_unique<M::Sector>(p, a, m, forward));
    r.sectors.push_back(std::make_unique<M::Sector>(p, m, b, backward));
    r.matchIndex = 0;
    return r;
}

template<> std::vector<std::pair<int, S>> M::eigenvaluesByIndex(int a, int b, const Y1 &l, const Y1 &r) const {
    sx::checkC("C27.index-range", sx::cBool(a == iMin && b == iMax));
    checkSides(l, r);
    return spectrum;
}

template<> S M::eigenvalueError(const S &E, const Y1 &l, const Y1 &r, int index) const {
    checkSides(l, r);
    return uf(sxn("error", index), {E});
}

template<> std::unique_ptr<M::Eigenfunction> M::eigenfunction(const S &E, const Y1 &l, const Y1 &r, int) const {
    checkSides(l, r);
    for (size_t i = 0; i < spectrum.size(); ++i)
        if (sx::symbolic() ? sx::sameV(spectrum[i].second.v, E.v) : spectrum[i].second == E)
            return std::make_unique<Function>((int) i);
    sx::fail("C27.eigenfunctions", "the eigenfunction of another energy");
    return nullptr;
}

HARNESS(sturm_eigenvalues, "C27", "quick=8 thorough=30 crash=C27") {
    auto p = problem();
    chooseSpectrum();
    sx::note("up to 3 (thorough: 4) eigenvalues with any energies, any index range, any boundary values, any transformation");
    auto r = p->eigenvaluesByIndex(iMin, iMax, left, right);
    sx::reach("eigenvalues");
    sx::checkC("C27.eigenvalues", sx::cBool(r.size() == spectrum.size()));
    for (size_t i = 0; i < spectrum.size(); ++i) {
        sx::checkC("C27.eigenvalues", sx::cBool(r[i].first == spectrum[i].first));
        sx::checkEq("C27.eigenvalues", r[i].second, spectrum[i].second);
    }
}

HARNESS(sturm_eigenpairs, "C27", "quick=15 thorough=60 crash=C27") {
    auto p = problem();
    chooseSpectrum();
    for (size_t i = 1; i < spectrum.size(); ++i) sx::assumeC(lt(spectrum[i - 1].second, spectrum[i].second));
    int points = sx::inChoose("points", 0, sx::tier() ? 4 : 2);
    sx::note("eigenpairs: as the eigenvalues; eigenfunctions at one point and on lists of up to 2 (4) points, anywhere in the domain and in any order");
    auto r = p->eigenpairsByIndex(iMin, iMax, left, right);
    sx::reach("eigenpairs");
    sx::checkC("C27.eigenpairs", sx::cBool(r.size() == spectrum.size()));
    for (size_t i = 0; i < spectrum.size(); ++i) {
        sx::checkC("C27.eigenpairs", sx::cBool(std::get<0>(r[i]) == spectrum[i].first));
        sx::checkEq("C27.eigenpairs", std::get<1>(r[i]), spectrum[i].second);
        Points t(points + 1);
        for (int k = 0; k <= points; ++k) {
            t[k] = S(sx::inVar(sxn("r", k), -5, 10));
            sx::assumeC(le(rMin, t[k]) && le(t[k], rMax));
        }
        auto expected = [&](const S &at, int k) {
            S x = uf("r2x", {at});
            return uf(sxn("y2z", k), {x, uf(sxn("f", i), {x}), uf(sxn("fD", i), {x})});
        };
        const auto &f = *std::get<2>(r[i]);
        Eigen::Array<S, 2, 1> one = f(t[points]);
        for (int k = 0; k < 2; ++k) sx::checkEq("C27.eigenfunction", one[k], expected(t[points], k));
        Points list = t.head(points);
        Values v = f(list);
        sx::checkC("C27.list", sx::cBool(v.rows() == points));
        for (int j = 0; j < points; ++j)
            for (int k = 0; k < 2; ++k) sx::checkEq("C27.list", v(j, k), expected(t[j], k));
    }
}

HARNESS(sturm_error, "C27", "quick=5 thorough=20 crash=C27") {
    auto p = problem();
    int index = sx::inChoose("index", -1, 4);
    S E(sx::inVar("E", -10, 10));
    sx::note("error estimates: any energy, index and boundary values");
    S e = p->eigenvalueError(E, left, right, index);
    sx::reach("error");
    sx::checkEq("C27.error", e, uf(sxn("error", index), {E}));
}
