// Half-range problems: the real MatsliseHalf and AbstractMatslise on top of an arbitrary half problem.
// sx: tags 1
// sx: libs -Wl,--unresolved-symbols=ignore-all
// sx: skip matscs liouville matslise/periodic.cpp matslise/matslise_formulas.cpp matslise/sector.cpp util
#include <map>
#include "matslise.h"
#include "half.stubs.h"
#include "util.h"

using namespace matslise;
using namespace matslise::sector_builder;
typedef sx::SymT<1> S;
typedef Matslise<S> M;
typedef MatsliseHalf<S> Half;
typedef Y<S> Y1;
typedef Eigen::Array<S, Eigen::Dynamic, 1> Points;
typedef Eigen::Array<S, Eigen::Dynamic, 2> Values;

namespace {
    const int maxStates = 8;
    std::vector<S> energies; // of the full problem, even and odd states alternate
    Y1 side;
    S xmax;
    S theE;
    S errorOf[2], mismatchOf[2];

    // 0: even (Neumann at the origin), 1: odd (Dirichlet)
    int parity(const Y1 &left) {
        sx::checkEq("C20.origin-conditions", left.data[2], S(0));
        sx::checkEq("C20.origin-conditions", left.data[3], S(0));
        bool neumann = sx::branch(eq(left.data[1], S(0)) && ne(left.data[0], S(0)));
        bool dirichlet = !neumann && sx::branch(eq(left.data[0], S(0)) && ne(left.data[1], S(0)));
        if (!neumann && !dirichlet) sx::fail("C20.origin-conditions", "neither Neumann nor Dirichlet at the origin");
        return neumann ? 0 : 1;
    }

    void checkSide(const Y1 &right) {
        for (int i = 0; i < 4; ++i) sx::checkEq("C20.side-conditions", right.data[i], side.data[i]);
    }

    // an eigenfunction of the half problem: two functions of x, zero outside of [0, xmax]
    struct HalfFunction : M::Eigenfunction {
        int par;

        explicit HalfFunction(int par) : par(par) {}

        Eigen::Array<S, 2, 1> operator()(const S &x) const override {
            Eigen::Array<S, 2, 1> r;
            if (x < S(0) || x > xmax) {
                r << S(0), S(0);
                return r;
            }
            r[0] = S(sx::vUF(par ? "odd" : "even", {x.v}, -5, 5));
            r[1] = S(sx::vUF(par ? "oddD" : "evenD", {x.v}, -5, 5));
            if (x == S(0)) r[par ? 0 : 1] = S(0); // the condition at the origin (C18)
            return r;
        }

        Values operator()(const Points &x) const override {
            Values r(x.size(), 2);
            for (Eigen::Index i = 0; i < x.size(); ++i) r.row(i) = (*this)(x[i]);
            return r;
        }
    };

    struct OneSector : SectorBuilder<M> {
        SectorBuilderReturn<M> operator()(const M *p, const S &a, const S &b) const override {
            SectorBuilderReturn<M> r;
            r.sectors.push_back(std::make_unique<M::Sector>(p, a, b, forward));
            r.matchIndex = 0;
            sx::checkEq("C20.half-domain", a, S(0));
            sx::checkEq("C20.half-domain", b, xmax);
            return r;
        }
    };

    struct Problem {
        std::unique_ptr<Half> hr;

        Problem() {
            xmax = S(sx::inVar("xmax", 0.1, 10));
            for (int i = 0; i < 4; ++i) side.data[i] = i < 2 ? S(sx::inVar(sxn("side", i), -2, 2)) : S(0);
            energies.clear();
            hr = std::make_unique<Half>([](const S &) { return S(0); }, xmax, S(1e-8), OneSector());
        }

        void spectrum(int n) {
            energies.push_back(S(sx::inVar("e0", -10, 10)));
            for (int i = 1; i < n; ++i)
                // nearly degenerate pairs: the computed energies may come out in the wrong order
                energies.push_back(energies.back() + S(sx::inVar(sxn("gap", i), -0.0009765625, 10)));
        }
    };

    void checkList(const std::vector<std::pair<int, S>> &found, int from, int to) {
        bool count = (int) found.size() == std::max(0, to - from);
        sx::checkC("C20.each-index-once", sx::cBool(count));
        if (!count) return;
        for (int i = from; i < to; ++i) {
            sx::checkC("C20.own-index", sx::cBool(found[i - from].first == i));
            sx::checkEq("C20.own-energy", found[i - from].second, energies[i]);
        }
    }

    Y1 symbolicSide(const std::string &n) {
        Y1 y;
        for (int i = 0; i < 2; ++i) y.data[i] = S(sx::inVar(sxn(n, i), -2, 2));
        return y;
    }
}

template<> M::Sector::Sector(const M *, const S &min, const S &max, Direction d)
        : min(min), max(max), h(max - min), direction(d) {
    for (auto &v: vs) v = S(0);
}

template<> std::vector<std::pair<int, S>> M::eigenvaluesByIndex(int Imin, int Imax, const Y1 &left, const Y1 &right) const {
    if (Imin < 0 || Imin > Imax) throw std::runtime_error("index range");
    std::vector<std::pair<int, S>> r;
    int p = parity(left);
    checkSide(right);
    for (int i = Imin; i < Imax; ++i)
        r.push_back({i, 2 * i + p < (int) energies.size() ? energies[2 * i + p] : S(1000 + i)});
    return r;
}

template<> std::vector<std::pair<int, S>> M::eigenvalues(const S &Emin, const S &Emax, const Y1 &left, const Y1 &right) const {
    std::vector<std::pair<int, S>> r;
    int p = parity(left);
    checkSide(right);
    for (size_t i = p; i < energies.size(); i += 2)
        if (sx::branch(le(Emin, energies[i]) && lt(energies[i], Emax))) r.push_back({(int) i / 2, energies[i]});
    return r;
}

template<> S M::eigenvalueError(const S &E, const Y1 &left, const Y1 &right, int) const {
    sx::checkEq("C20.energy-unchanged", E, theE);
    int p = parity(left);
    checkSide(right);
    return errorOf[p];
}

template<> std::tuple<S, S, S> M::matchingError(const S &E, const Y1 &left, const Y1 &right, bool) const {
    sx::checkEq("C20.energy-unchanged", E, theE);
    int p = parity(left);
    checkSide(right);
    return {mismatchOf[p], S(1), S(0)};
}

template<> std::unique_ptr<M::Eigenfunction> M::eigenfunction(const S &, const Y1 &left, const Y1 &right, int) const {
    int p = parity(left);
    checkSide(right);
    return std::make_unique<HalfFunction>(p);
}

HARNESS(half_index, "C20", "quick=15 thorough=200 crash=C20") {
    Problem p;
    int n = sx::tier() ? 9 : 6;
    p.spectrum(n);
    int from = sx::inChoose("Imin", 0, n), to = sx::inChoose("Imax", from, n);
    sx::note(sxn("half range, by index: all ranges within the first ", n) + " states, energies arbitrary");
    bool symmetricCall = sx::inBool("both sides given");
    auto r = symmetricCall ? static_cast<AbstractMatslise<S> &>(*p.hr).eigenvaluesByIndex(from, to, side, side)
                           : p.hr->eigenvaluesByIndex(from, to, side);
    sx::reach("by index");
    checkList(r, from, to);
}

HARNESS(half_range, "C20", "quick=15 thorough=200 crash=C20") {
    Problem p;
    int n = sx::tier() ? 8 : 5;
    p.spectrum(n);
    sx::note(sxn("half range, by energy: any range, ", n) + " states with arbitrary energies");
    S emin(sx::inVar("Emin", -12, 60)), emax(sx::inVar("Emax", -12, 60));
    auto r = sx::inBool("both sides given") ?
             static_cast<AbstractMatslise<S> &>(*p.hr).eigenvalues(emin, emax, side, side)
                                            : p.hr->eigenvalues(emin, emax, side);
    std::vector<int> expected;
    for (int i = 0; i < n; ++i)
        if (sx::branch(le(emin, energies[i]) && lt(energies[i], emax))) expected.push_back(i);
    if (!expected.empty()) sx::reach("states in the range");
    bool count = r.size() == expected.size();
    sx::checkC("C20.each-index-once", sx::cBool(count));
    if (!count) return;
    for (size_t k = 0; k < expected.size(); ++k) {
        sx::checkC("C20.own-index", sx::cBool(r[k].first == expected[k]));
        sx::checkEq("C20.own-energy", r[k].second, energies[expected[k]]);
    }
}

HARNESS(half_error, "C20,C31", "quick=10 thorough=60 crash=C20,C31") {
    Problem p;
    theE = S(sx::inVar("E", -10, 10));
    for (int i = 0; i < 2; ++i) {
        errorOf[i] = S(sx::inVar(sxn("error", i), 0, 1));
        mismatchOf[i] = S(sx::inVar(sxn("mismatch", i), -1, 1));
    }
    int index = sx::inChoose("index", -1, 7);
    int par = index & 1;
    if (index == -1) {
        S a = abs(mismatchOf[0]), b = abs(mismatchOf[1]);
        sx::assumeC(ne(a, b));
        par = sx::branch(lt(a, b)) ? 0 : 1;
    }
    S e = sx::inBool("both sides given") ?
          static_cast<AbstractMatslise<S> &>(*p.hr).eigenvalueError(theE, side, side, index)
                                         : p.hr->eigenvalueError(theE, side, index);
    auto f = p.hr->eigenfunction(theE, side, index);
    sx::reach(par ? "odd" : "even");
    sx::note("half range: error estimate and eigenfunction of index -1 to 7, matching errors arbitrary (different)");
    sx::checkEq("C31.half-error-of-own-parity", e, errorOf[par]);
    sx::checkEq("C20.error-of-own-parity", e, errorOf[par]);
    S x(sx::inVar("x", 0, 10));
    sx::assumeC(le(x, xmax));
    sx::checkEq("C20.function-of-own-parity", (*f)(x)[0], HalfFunction(par)(x)[0] * sqrt(S(.5)));
}

HARNESS(half_pairs, "C20,C21", "quick=15 thorough=200 crash=C20,C21") {
    Problem p;
    int n = sx::tier() ? 7 : 5;
    p.spectrum(n);
    int from = sx::inChoose("Imin", 0, n), to = sx::inChoose("Imax", from, n);
    auto r = sx::inBool("both sides given") ?
             static_cast<AbstractMatslise<S> &>(*p.hr).eigenpairsByIndex(from, to, side, side)
                                            : static_cast<AbstractMatslise<S> &>(*p.hr).eigenpairsByIndex(from, to, side);
    bool count = (int) r.size() == to - from;
    sx::checkC("C20.pairs-each-index-once", sx::cBool(count));
    if (!count) return;
    S x(sx::inVar("x", 0, 10));
    sx::assumeC(le(x, xmax));
    for (int i = from; i < to; ++i) {
        auto &t = r[i - from];
        sx::reach("pairs");
        sx::checkC("C20.pairs-own-index", sx::cBool(std::get<0>(t) == i));
        sx::checkEq("C20.pairs-own-energy", std::get<1>(t), energies[i]);
        auto plus = (*std::get<2>(t))(x), minus = (*std::get<2>(t))(-x);
        S sgn(i % 2 ? -1 : 1);
        sx::checkEq("C21.pairs-parity", minus[0], sgn * plus[0]);
        sx::checkEq("C21.pairs-parity", minus[1], -sgn * plus[1]);
        sx::checkEq("C21.pairs-values", plus[0], HalfFunction(i % 2)(x)[0] * sqrt(S(.5)));
    }
}

namespace {
    // the value a unit-norm full-range function has at x, from the half-range function
    Eigen::Array<S, 2, 1> fullRange(int par, const S &x) {
        bool negative = sx::branch(lt(x, S(0)));
        Eigen::Array<S, 2, 1> r = HalfFunction(par)(negative ? -x : x);
        S f = sqrt(S(.5));
        r[0] = r[0] * f;
        r[1] = r[1] * f;
        if (negative) r[par ? 0 : 1] = -r[par ? 0 : 1];
        return r;
    }
}

HARNESS(half_parity, "C21", "quick=10 thorough=60 crash=C21") {
    Problem p;
    theE = S(sx::inVar("E", -10, 10));
    int index = sx::inChoose("index", 0, 5);
    auto f = p.hr->eigenfunction(theE, side, index);
    S x(sx::inVar("x", -12, 12));
    auto a = (*f)(x), b = (*f)(-x);
    S sgn(index % 2 ? -1 : 1);
    sx::reach("parity");
    sx::checkEq("C21.parity", b[0], sgn * a[0]);
    sx::checkEq("C21.parity-derivative", b[1], -sgn * a[1]);
    auto e = fullRange(index % 2, x);
    sx::checkEq("C21.value", a[0], e[0]);
    sx::checkEq("C21.derivative", a[1], e[1]);
}

HARNESS(half_list, "C21,C16", "quick=25 thorough=300 crash=C21,C16") {
    Problem p;
    theE = S(sx::inVar("E", -10, 10));
    int index = sx::inChoose("index", 0, 1);
    auto f = p.hr->eigenfunction(theE, side, index);
    int n = sx::inChoose("points", 0, sx::tier() ? 5 : 4);
    sx::note(sxn("half range: lists of up to ", sx::tier() ? 5 : 4) + " points anywhere, sorted or not");
    Points x(n);
    for (int i = 0; i < n; ++i) x[i] = S(sx::inVar(sxn("x", i), -12, 12));
    bool sorted = true;
    for (int i = 1; sorted && i < n; ++i) sorted = sx::branch(le(x[i - 1], x[i]));
    bool answered = true;
    Values y;
    try {
        y = (*f)(x);
    } catch (std::runtime_error &) {
        answered = false;
    }
    sx::checkC("C16.half-unsorted-refused", sx::cBool(sorted || !answered));
    sx::checkC("C16.half-sorted-answered", sx::cBool(!sorted || answered));
    if (!sorted || !answered) return;
    sx::checkC("C21.list-size", sx::cBool(y.rows() == n));
    if (y.rows() != n) return;
    sx::reach("sorted list");
    for (int i = 0; i < n; ++i) {
        auto e = fullRange(index, x[i]);
        sx::checkEq("C21.list-value", y(i, 0), e[0]);
        sx::checkEq("C21.list-derivative", y(i, 1), e[1]);
    }
}

HARNESS(half_requests, "C16", "quick=15 thorough=60 crash=C16") {
    Problem p;
    p.spectrum(4);
    auto &hr = static_cast<AbstractMatslise<S> &>(*p.hr);
    theE = S(sx::inVar("E", -10, 10));
    for (int i = 0; i < 2; ++i) errorOf[i] = S(0), mismatchOf[i] = S(i);
    Y1 left = symbolicSide("left");
    side = symbolicSide("right");
    sx::Cond same = eq(left.data[0], side.data[0]) && eq(left.data[1], side.data[1]);
    int call = sx::inChoose("call", 0, 4);
    int from = call == 1 || call == 4 ? sx::inChoose("Imin", -2, 3) : 0, to = call == 1 || call == 4 ? sx::inChoose("Imax", -2, 3) : 0;
    bool validIndex = from >= 0 && from <= to;
    bool answered = true;
    try {
        switch (call) {
            case 0: hr.eigenvalues(S(-5), S(5), left, side); break;
            case 1: hr.eigenvaluesByIndex(from, to, left, side); break;
            case 2: hr.eigenvalueError(theE, left, side, 1); break;
            case 3: hr.eigenfunction(theE, left, side, 1); break;
            case 4: hr.eigenpairsByIndex(from, to, left, side); break;
        }
    } catch (std::runtime_error &) {
        answered = false;
    }
    sx::note("half range: two-sided requests with arbitrary boundary values, indices from -2 to 3");
    sx::reach(answered ? "answered" : "refused");
    if (answered) {
        sx::checkC("C16.half-different-sides-refused", same);
        sx::checkC("C16.half-index-refused", sx::cBool(validIndex));
    } else sx::checkC("C16.half-answered", sx::cNot(same && sx::cBool(validIndex)));
}

HARNESS(half_indices, "C16", "quick=10 thorough=60 crash=C16") {
    Problem p;
    p.spectrum(4);
    int from = sx::inChoose("Imin", -4, 5), to = sx::inChoose("Imax", -4, 5);
    bool answered = true;
    try {
        p.hr->eigenvaluesByIndex(from, to, side);
    } catch (std::runtime_error &) {
        answered = false;
    }
    sx::note("half range by index: all ranges with limits from -4 to 5");
    sx::reach(answered ? "answered" : "refused");
    sx::checkC("C16.half-index-range", sx::cBool(answered == (from >= 0 && from <= to)));
}
