// The eigenvalue search (eigenvaluesByIndex, eigenvalues, eigenvalueError, eigenpairsByIndex) runs on an arbitrary
// spectrum: the matching angle is any strictly increasing function of the energy that passes k pi at the k-th
// eigenvalue, and Newton's iteration converges from energies whose angle is close to a multiple of pi.
// sx: tags 1
// sx: libs -Wl,--unresolved-symbols=ignore-all
// sx: skip matscs liouville matslise/periodic.cpp matslise/halfrange.cpp matslise/matslise_formulas.cpp matslise/sector.cpp util
#include <algorithm>
#include "matslise.h"
#include "spectrum.stubs.h"
#include "util/constants.h"
#include "util.h"

using namespace matslise;
using namespace matslise::sector_builder;
typedef sx::SymT<1> S;
typedef Matslise<S> M;
typedef Y<S> Y1;

namespace {
    const S tolerance() { return S(1e-8); }

    Y1 leftSide, rightSide;

    void checkSides(const Y1 &l, const Y1 &r, const char *label) {
        bool same = sx::symbolic();
        for (int i = 0; i < 4; ++i)
            same = same && sx::sameV(l.data[i].v, leftSide.data[i].v) && sx::sameV(r.data[i].v, rightSide.data[i].v);
        if (!same)
            for (int i = 0; i < 4; ++i) {
                sx::checkEq(label, l.data[i], leftSide.data[i]);
                sx::checkEq(label, r.data[i], rightSide.data[i]);
            }
    }

    // the angle divided by pi, as a function of the energy
    struct Angle {
        std::vector<S> lambda; // the eigenvalues
        struct Sample {
            S e, t;
            int gap;
        };
        std::vector<Sample> samples;
        int grid = 0;          // > 0: every new value divides the interval of its neighbours in one of so many ratios
        double steepest = 0;   // > 0: bound on the slope next to an eigenvalue (constant energies only)
        double slope; // bound on the derivative of the angle
        std::vector<std::pair<double, double>> knots; // native run: interpolated

        void setup() {
            samples.clear();
            knots.clear();
            if (sx::symbolic()) return;
            for (size_t k = 0; k < lambda.size(); ++k) knots.push_back({lambda[k].v.d, (double) k});
            for (int j = 0; sx::hasInput(sxn("angleAt", j)); ++j) {
                double e = S(sx::inVar(sxn("angleAt", j), -1e5, 1e5)).v.d, t = S(sx::inVar(sxn("angle", j), -1, 100)).v.d;
                bool fits = true;
                for (auto &k: knots) fits = fits && (k.first < e ? k.second < t : k.first > e && k.second > t);
                if (fits) knots.push_back({e, t});
            }
            std::sort(knots.begin(), knots.end());
        }

        double native(double e) const {
            auto &k = knots;
            if (e < k.front().first) {
                double d = (slope > 0 ? std::min(slope, 1.0) : 1.0) * (k.front().first - e), t = k.front().second + 1;
                return t / (1 + d / t) - 1;
            }
            if (e >= k.back().first) {
                double d = (slope > 0 ? std::min(slope, 1.0) : 1.0) * (e - k.back().first), t = std::floor(k.back().second) + 1 - k.back().second;
                return k.back().second + t - t / (1 + d / t);
            }
            size_t i = 1;
            while (e >= k[i].first) ++i;
            double f = (e - k[i - 1].first) / (k[i].first - k[i - 1].first);
            return k[i - 1].second + f * (k[i].second - k[i - 1].second);
        }

        S operator()(const S &e) {
            if (!sx::symbolic()) return S(native(e.v.d));
            for (auto &s: samples)
                if (sx::sameV(s.e.v, e.v)) return s.t;
            int n = (int) lambda.size(), g = 0;
            while (g < n && sx::branch(lt(lambda[g], e))) ++g;
            S t;
            if (g < n && sx::branch(eq(lambda[g], e))) {
                t = S(g);
                samples.push_back({e, t, -1});
                return t;
            }
            int j = 0;
            for (auto &s: samples) j += s.gap >= 0;
            if (grid) {
                S lo(g - 1), hi(g);
                for (auto &s: samples)
                    if (s.gap == g) {
                        if (sx::branch(lt(s.e, e))) lo = lo.v.d < s.t.v.d ? s.t : lo;
                        else hi = s.t.v.d < hi.v.d ? s.t : hi;
                    }
                double at_, near;
                t = lo + (hi - lo) * S(grid == 1 ? 0.5 : sx::inChoose(sxn("part", j), 0, grid - 1) * (0.5 / (grid - 1)) + 0.25);
                // close to an eigenvalue the angle is close to its multiple of pi
                if (steepest > 0 && sx::isConst(e.v, &at_)) {
                    for (int side = 0; side < 2; ++side) {
                        int k = g - 1 + side;
                        if (k < 0 || k >= n) continue;
                        if (!sx::isConst(lambda[k].v, &near) && !sx::isConst(lambda[k - 1].v, &near)) continue;
                        double close = k + steepest * (at_ - near);
                        if (side ? t.v.d < close : t.v.d > close) t = S(sx::V{close, nullptr});
                    }
                }
                S at(sx::inVar(sxn("angleAt", j), -1e5, 1e5)), v(sx::inVar(sxn("angle", j), -1, 100));
                sx::assumeC(eq(at, e) && eq(v, t));
                samples.push_back({e, t, g});
                return t;
            }
            t = S(sx::inVar(sxn("angle", j), -1, 100));
            S at(sx::inVar(sxn("angleAt", j), -1e5, 1e5)); // the native replay interpolates the same points
            sx::assumeC(eq(at, e));
            sx::assumeC(lt(S(g - 1), t) && lt(t, S(g)));
            if (slope > 0) {
                S L = S(sx::V{slope, nullptr});
                if (g > 0) sx::assumeC(le(t - S(g - 1), L * (e - lambda[g - 1])));
                if (g < n) sx::assumeC(le(S(g) - t, L * (lambda[g] - e)));
                for (auto &s: samples)
                    if (s.gap == g) {
                        sx::assumeC(sx::cImplies(lt(e, s.e), lt(t, s.t) && le(s.t - t, L * (s.e - e))));
                        sx::assumeC(sx::cImplies(lt(s.e, e), lt(s.t, t) && le(t - s.t, L * (e - s.e))));
                    }
            } else
                for (auto &s: samples)
                    if (s.gap == g) {
                        sx::assumeC(sx::cImplies(lt(e, s.e), lt(t, s.t)));
                        sx::assumeC(sx::cImplies(lt(s.e, e), lt(s.t, t)));
                    }
            samples.push_back({e, t, g});
            return t;
        }

        // Newton's step from an energy: exact when the angle is close to the multiple of pi
        S step(const S &e, const S &t) {
            if (!sx::symbolic()) {
                int k = (int) std::round(t.v.d);
                k = std::max(0, std::min(k, (int) lambda.size() - 1));
                if (std::fabs(t.v.d - k) <= 0.25) return e - lambda[k];
                return S(sx::inVar("wildStep", -1, 1));
            }
            for (auto &s: samples)
                if (sx::sameV(s.t.v, t.v)) {
                    if (s.gap < 0) return S(0); // an eigenvalue
                    S r(sx::inVar("wildStep", -1, 1));
                    if (s.gap > 0) r = ite(le(t, S(s.gap - 1) + S(.25)), e - lambda[s.gap - 1], r);
                    if (s.gap < (int) lambda.size()) r = ite(le(S(s.gap) - S(.25), t), e - lambda[s.gap], r);
                    return r;
                }
            return S(0);
        }
    };

    Angle angle;
    Angle reference; // of the general formula (use_h = false)
    bool separateReference = false;
    bool convergeSlowly = false;
    const char *sidesLabel = "C14.sides-unchanged";
    bool requestedReference = false;

    struct OneSector : SectorBuilder<M> {
        SectorBuilderReturn<M> operator()(const M *p, const S &a, const S &b) const override {
            SectorBuilderReturn<M> r;
            r.sectors.push_back(std::make_unique<M::Sector>(p, a, b, forward));
            r.matchIndex = 0;
            return r;
        }
    };

    std::unique_ptr<M> problem() {
        separateReference = convergeSlowly = requestedReference = false;
        for (int i = 0; i < 4; ++i) {
            leftSide.data[i] = i < 2 ? S(sx::inVar(sxn("left", i), -2, 2)) : S(0);
            rightSide.data[i] = i < 2 ? S(sx::inVar(sxn("right", i), -2, 2)) : S(0);
        }
        return std::make_unique<M>([](const S &) { return S(0); }, S(0), S(1), tolerance(), OneSector());
    }

    void spectrum(int n, double lo, double hi, double gap, double maxGap, double slope) {
        angle.lambda.clear();
        angle.lambda.push_back(S(sx::inVar("lambda0", lo, hi)));
        for (int i = 1; i < n; ++i)
            angle.lambda.push_back(angle.lambda.back() + S(sx::inVar(sxn("gap", i), gap, maxGap)));
        angle.slope = slope;
        angle.setup();
    }

    void checkList(const char *prop, const std::vector<std::pair<int, S>> &found, int from, int to) {
        std::string p(prop);
        bool count = (int) found.size() == std::max(0, to - from);
        if (!count) sx::setDetail("");
        sx::checkC(p + ".each-once", sx::cBool(count));
        for (size_t i = 0; i + 1 < found.size(); ++i)
            sx::checkC(p + ".increasing", sx::cBool(found[i].first < found[i + 1].first));
        if (!count) return;
        for (int i = from; i < to; ++i) {
            sx::checkC(p + ".own-index", sx::cBool(found[i - from].first == i));
            sx::checkEq(p + ".own-energy", found[i - from].second, angle.lambda[i], 1e-7, 1e-6);
        }
    }
}

template<> M::Sector::Sector(const M *, const S &min, const S &max, Direction d)
        : min(min), max(max), h(max - min), direction(d) {
    for (auto &v: vs) v = S(0);
}

template<> std::tuple<S, S, S> M::matchingError(const S &E, const Y1 &left, const Y1 &right, bool use_h) const {
    checkSides(left, right, sidesLabel);
    if (separateReference) {
        // Newton's iteration on the reference approaches its eigenvalue
        if (use_h) sx::fail("C31.reference-propagation", "the error estimate asked for the simplified propagation");
        requestedReference = true;
        S d = E - reference.lambda[0];
        return {convergeSlowly ? d * S(.75) : d, S(1), S(0)};
    }
    S t = angle(E);
    return {angle.step(E, t), S(1), t * constants<S>::PI};
}

template<> std::unique_ptr<M::Eigenfunction> M::eigenfunction(
        const S &E, const Y1 &left, const Y1 &right, int) const {
    checkSides(left, right, "C14.pairs-sides");
    struct F : M::Eigenfunction {
        S e;
        Eigen::Array<S, 2, 1> operator()(const S &) const override {
            Eigen::Array<S, 2, 1> r;
            r << e, e;
            return r;
        }
        Eigen::Array<S, Eigen::Dynamic, 2> operator()(const Eigen::Array<S, Eigen::Dynamic, 1> &) const override {
            return Eigen::Array<S, Eigen::Dynamic, 2>();
        }
    };
    auto f = std::make_unique<F>();
    f->e = E;
    return f;
}

namespace {
    const char *const thresholds = "the threshold 0.01 of the search is 0.2";

    void byIndex(int n, double lo, double hi, double gap, double maxGap, int grid, int maxIndex) {
        auto ms = problem();
        sx::setLiteral(0.01, 0.2);
        angle.steepest = 0;
        spectrum(n, lo, hi, gap, maxGap, grid ? 0 : 1.5);
        angle.grid = grid;
        int from = sx::inChoose("Imin", 0, maxIndex), to = sx::inChoose("Imax", from, maxIndex);
        auto r = ms->eigenvaluesByIndex(from, to, leftSide, rightSide);
        sx::reach(from == to ? "empty range" : "found");
        checkList("C14", r, from, to);
    }

    void byEnergy(int n, double gap, double maxGap, int grid, double range) {
        auto ms = problem();
        sx::setLiteral(0.01, 0.2);
        sidesLabel = "C15.sides-unchanged";
        angle.steepest = 0;
        spectrum(n, -3, 3, gap, maxGap, grid ? 0 : 1.5);
        angle.grid = grid;
        S emin(sx::inVar("Emin", -4, 8)), emax = emin + S(sx::inVar("width", grid ? -1 : 0.1, range));
        if (!grid) sx::assumeC(le(emax, angle.lambda[n - 1]));
        auto r = ms->eigenvalues(emin, emax, leftSide, rightSide);
        int from = 0;
        while (from < n && sx::branch(lt(angle.lambda[from], emin))) ++from;
        int to = from;
        while (to < n && sx::branch(lt(angle.lambda[to], emax))) ++to;
        sx::reach(from == to ? "empty range" : "eigenvalues in the range");
        checkList("C15", r, from, to);
        sidesLabel = "C14.sides-unchanged";
    }
}

HARNESS(spectrum_index, "C14", "quick=7 thorough=900 crash=C14") {
    int n = sx::tier() ? 6 : 5;
    sx::note(sxn("search by index: ", n) + " eigenvalues anywhere from -6 on, at least 0.05 apart; every unknown angle "
             "halves the interval between the known ones; " + thresholds);
    byIndex(n, -6, 6, 0.05, 6, 1, n - 1);
}

HARNESS(spectrum_index_shape, "C14", "quick=5 thorough=900 crash=C14") {
    int n = sx::tier() ? 3 : 2;
    sx::note(sxn("search by index: ", n) + " eigenvalues anywhere from -3 on, at least 0.05 apart; every unknown angle "
             "divides the interval between the known ones in a ratio 1:3 or 3:1; " + thresholds);
    byIndex(n, -3, 3, 0.05, 3, 2, n - 1);
}

HARNESS(spectrum_index_free, "C14", "pathmax=12 quick=4 thorough=900 crash=C14") {
    int n = sx::tier() ? 3 : 2;
    sx::note(sxn("search by index: ", n) + " eigenvalues at least 0.7 apart, angles arbitrary with slope at most 1.5 pi; " +
             thresholds);
    byIndex(n, -1.5, 1.5, 0.7, 1.5, 0, n - 1);
}

HARNESS(spectrum_range, "C15", "quick=6 thorough=900 crash=C15") {
    int n = sx::tier() ? 5 : 4;
    sx::note(sxn("search by energy: ", n) + " eigenvalues anywhere from -3 on, at least 0.05 apart, ranges of any width "
             "up to 8 (empty and reversed ones too); every unknown angle halves the interval; " + thresholds);
    byEnergy(n, 0.05, 6, 1, 8);
}

HARNESS(spectrum_range_shape, "C15", "quick=5 thorough=900 crash=C15") {
    int n = sx::tier() ? 3 : 2;
    sx::note(sxn("search by energy: ", n) + " eigenvalues, every unknown angle divides the interval in a ratio 1:3 or 3:1; " +
             thresholds);
    byEnergy(n, 0.05, 6, 2, 4);
}

HARNESS(spectrum_range_free, "C15", "pathmax=12 quick=4 thorough=900 crash=C15") {
    sx::note(std::string("search by energy: 2 eigenvalues, angles arbitrary with slope at most 1.5 pi; ") + thresholds);
    byEnergy(2, 0.7, 1.5, 0, 1);
}

HARNESS(spectrum_index_small, "C14", "quick=10 thorough=100 crash=C14") {
    sx::note(std::string("search by index: 2 eigenvalues anywhere in [-2, 2], every unknown angle halves the interval; ") + thresholds);
    byIndex(2, -2, 2, 0.5, 1, 1, 1);
}

HARNESS(spectrum_range_small, "C15", "quick=20 thorough=200 crash=C15") {
    sx::note(std::string("search by energy: 1 eigenvalue, ranges of any width up to 2, every unknown angle halves the interval; ") +
             thresholds);
    byEnergy(1, 0.5, 1, 1, 2);
}

namespace {
    // two eigenvalues that the bisection cannot separate
    void cluster(const char *prop, bool energy) {
        auto ms = problem();
        sx::setLiteral(0.01, 0.2);
        angle.grid = 1;
        angle.slope = 0;
        angle.lambda.clear();
        double centre[] = {-2.6875, -0.3125, 0.40625, 1.3125, 5.0625};
        S base = S(centre[sx::inChoose("centre", 0, 4)]);
        bool low = sx::inBool("lone state below");
        if (low) angle.lambda.push_back(base - S(sx::inBool("close below") ? 0.21875 : 1.40625));
        angle.lambda.push_back(base);
        angle.lambda.push_back(base + S(sx::inVar("split", 1e-14, 1e-12)));
        angle.lambda.push_back(base + S(sx::inBool("close above") ? 0.375 : 1.28125));
        angle.steepest = 10;
        angle.setup();
        int n = (int) angle.lambda.size() - 1;
        sx::note(std::string("two eigenvalues closer than 1e-12 at fixed places and one or two others; ") + thresholds);
        if (energy) {
            int start = sx::inChoose("from", 0, 2);
            S emin = start == 2 ? base : S(start ? 0.4375 : -4.125), emax = S(sx::inBool("short range") ? 1.5 : 5.875);
            sidesLabel = "C15.sides-unchanged";
            auto r = ms->eigenvalues(emin, emax, leftSide, rightSide);
            int from = 0, to = 0;
            while (from <= n && sx::branch(lt(angle.lambda[from], emin))) ++from;
            to = from;
            while (to <= n && sx::branch(lt(angle.lambda[to], emax))) ++to;
            sx::reach("cluster");
            checkList(prop, r, from, to);
            sidesLabel = "C14.sides-unchanged";
        } else {
            int from = sx::inChoose("Imin", 0, n), to = sx::inChoose("Imax", from, n);
            auto r = ms->eigenvaluesByIndex(from, to, leftSide, rightSide);
            sx::reach("cluster");
            checkList(prop, r, from, to);
        }
        angle.grid = 0;
        angle.steepest = 0;
    }

    // a fixed spectrum: the search itself is not the subject
    void fixedSpectrum(int n) {
        sx::setLiteral(0.01, 0.2);
        angle.lambda.clear();
        for (int i = 0; i < n; ++i) angle.lambda.push_back(S(0.3 + i * i));
        angle.grid = 1;
        angle.slope = 0;
        angle.setup();
    }
}

HARNESS(spectrum_index_cluster, "C14", "quick=20 thorough=200 crash=C14") { cluster("C14", false); }

HARNESS(spectrum_range_cluster, "C15", "quick=20 thorough=200 crash=C15") { cluster("C15", true); }

HARNESS(spectrum_pairs, "C14", "quick=10 thorough=60 crash=C14") {
    auto ms = problem();
    fixedSpectrum(5);
    int from = sx::inChoose("Imin", 0, 4), to = sx::inChoose("Imax", from, 4);
    bool oneSide = sx::inBool("one side given");
    if (oneSide) rightSide = leftSide;
    auto &am = static_cast<AbstractMatslise<S> &>(*ms);
    auto r = oneSide ? am.eigenpairsByIndex(from, to, leftSide) : am.eigenpairsByIndex(from, to, leftSide, rightSide);
    sx::checkC("C14.pairs-each-once", sx::cBool((int) r.size() == to - from));
    if ((int) r.size() != to - from) return;
    sx::reach("pairs");
    for (int i = from; i < to; ++i) {
        auto &t = r[i - from];
        sx::checkC("C14.pairs-own-index", sx::cBool(std::get<0>(t) == i));
        sx::checkEq("C14.pairs-own-energy", std::get<1>(t), angle.lambda[i], 1e-7, 1e-6);
        sx::checkEq("C14.pairs-own-function", (*std::get<2>(t))(S(0))[0], std::get<1>(t), 1e-9);
    }
}

HARNESS(spectrum_requests, "C16", "quick=15 thorough=60 crash=C16") {
    auto ms = problem();
    sidesLabel = "C16.sides-unchanged";
    fixedSpectrum(6);
    auto &am = static_cast<AbstractMatslise<S> &>(*ms);
    int from = sx::inChoose("Imin", -3, 5), to = sx::inChoose("Imax", -3, 5), call = sx::inChoose("call", 0, 3);
    if (call % 2) rightSide = leftSide;
    bool answered = true;
    try {
        switch (call) {
            case 0: am.eigenvaluesByIndex(from, to, leftSide, rightSide); break;
            case 1: am.eigenvaluesByIndex(from, to, leftSide); break;
            case 2: am.eigenpairsByIndex(from, to, leftSide, rightSide); break;
            case 3: am.eigenpairsByIndex(from, to, leftSide); break;
        }
    } catch (std::runtime_error &) {
        answered = false;
    }
    sx::note("full range: all index ranges from -3 to 5, boundary values arbitrary");
    sx::reach(answered ? "answered" : "refused");
    sx::checkC("C16.index-range", sx::cBool(answered == (from >= 0 && from <= to)));
    sidesLabel = "C14.sides-unchanged";
}

HARNESS(spectrum_error, "C31", "quick=15 thorough=60 crash=C31") {
    auto ms = problem();
    sidesLabel = "C31.sides-unchanged";
    separateReference = true;
    convergeSlowly = sx::inBool("slow convergence");
    S E(sx::inVar("E", -100, 100)), d(sx::inVar("distance", -0.01, 0.01));
    if (convergeSlowly) sx::assumeC(le(d, S(3e-7)) && le(S(-3e-7), d));
    reference.lambda.assign(1, E + d);
    bool oneSide = sx::inBool("one side given");
    if (oneSide) rightSide = leftSide;
    int index = sx::inChoose("index", -1, 3);
    auto &am = static_cast<AbstractMatslise<S> &>(*ms);
    S e = oneSide ? am.eigenvalueError(E, leftSide, index) : am.eigenvalueError(E, leftSide, rightSide, index);
    sx::note("error estimate: energies in [-100, 100], reference eigenvalue within 0.01, Newton converges in one step or "
             "linearly with factor 1/4 (within 3e-7)");
    sx::reach("estimated");
    sx::checkC("C31.asked-the-reference", sx::cBool(requestedReference));
    sx::checkC("C31.non-negative", le(S(0), e));
    sx::checkEq("C31.distance", e, sx::ite(lt(d, S(0)), -d, d), 1e-8, 2e-8);
    separateReference = false;
    sidesLabel = "C14.sides-unchanged";
}
