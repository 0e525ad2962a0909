// Mesh construction: the real builders of util/sectorbuilder.cpp run on sectors whose mean potential
// and error estimate are arbitrary symbolic inputs.
// sx: tags 1
// sx: skip matscs matslise liouville
#include "sx_repo.h"
#include "matscs.h"
#include "mesh.stubs.h"
#include "util.h"

using namespace matslise;
using namespace matslise::sector_builder;
typedef sx::SymT<1> S;

namespace {
    struct Built {
        S min, max, v, err;
        Direction direction;
        const void *address;
    };
    std::vector<Built> built;
    int maxBuilt = 0;
    S tolerance, domMin, domMax;
    int forceBad = 0; // the first so many estimates are above the tolerance
    int freeErrors = 1000; // so many estimates are arbitrary, the others lie between half the tolerance and the tolerance
    bool fixedErrors = false;
    S badError = 2;

    void record(const S &min, const S &max, Direction d, S &v, S &err, const void *address) {
        int k = (int) built.size();
        // a replay may need more constructions than the counterexample names: those are accepted at once
        const bool extra = !sx::symbolic() && !sx::hasInput(sxn("err", k));
        if (k >= (sx::symbolic() ? maxBuilt : 200)) sx::discard("more sector constructions than the bound");
        v = S(sx::inVar(sxn("V", k), -1000, 1000));
        if (extra && !fixedErrors && k >= forceBad) {
            err = S(.75) * tolerance;
            built.push_back({min, max, v, err, d, address});
            return;
        }
        if (fixedErrors) err = k < forceBad ? (badError + k % 2) * tolerance : S(.75) * tolerance;
        else {
            err = S(sx::inVar(sxn("err", k), 0, 1000));
            if (k < forceBad) sx::assumeC(gt(err, tolerance));
            else if (freeErrors < 1000 && sx::symbolic()) {
                bool fine = sx::branch(le(err, tolerance) && ge(2 * err, tolerance));
                if (!fine && --freeErrors < 0) sx::discard("more estimates outside of [tolerance / 2, tolerance] than the bound");
            }
        }
        built.push_back({min, max, v, err, d, address});
    }
}

template<> Matslise<S>::Sector::Sector(const Matslise<S> *, const S &min, const S &max, Direction d)
        : min(min), max(max), h(max - min), direction(d) {
    record(min, max, d, vs[0], vs[1], this);
}

template<> S Matslise<S>::Sector::error() const { return vs[1]; }

template<> Matscs<S>::Sector::Sector(const Matscs<S> *, const S &min, const S &max, Direction d)
        : n(1), min(min), max(max), h(max - min), direction(d) {
    vs[0].resize(2, 2);
    vs[0].setZero();
    S off(sx::inVar(sxn("off", built.size()), -10, 10));
    S v;
    vs[1].resize(1, 1);
    record(min, max, d, v, vs[1](0, 0), this);
    vs[0](0, 0) = off;
    vs[0](1, 1) = v - off;
    vs[0](0, 1) = vs[0](1, 0) = 7 * off;
}

template<> S Matscs<S>::Sector::error() const { return vs[1](0, 0); }

namespace {
    template<class P> S height(const typename P::Sector &s);
    template<> S height<Matslise<S>>(const Matslise<S>::Sector &s) { return s.vs[0]; }
    template<> S height<Matscs<S>>(const Matscs<S>::Sector &s) { return s.vs[0](0, 0) + s.vs[0](1, 1); }

    template<class P>
    void checkTiling(const SectorBuilderReturn<P> &r, const std::vector<S> &jumps) {
        int n = (int) r.sectors.size();
        sx::checkC("C01.nonempty", sx::cBool(n > 0));
        if (!n) return;
        for (int i = 0; i < n; ++i) {
            sx::checkC("C01.sector-present", sx::cBool((bool) r.sectors[i]));
            if (!r.sectors[i]) return;
        }
        sx::checkC("C01.first-starts-at-min", eq(r.sectors[0]->min, domMin));
        sx::checkC("C01.last-ends-at-max", eq(r.sectors[n - 1]->max, domMax));
        for (int i = 0; i < n; ++i) {
            sx::checkC("C01.positive-width", lt(r.sectors[i]->min, r.sectors[i]->max));
            if (i) sx::checkC("C01.adjacent", eq(r.sectors[i - 1]->max, r.sectors[i]->min));
        }
        for (auto &j: jumps) {
            sx::Cond hit = sx::cBool(false);
            for (int i = 0; i < n; ++i) {
                hit = hit || eq(r.sectors[i]->max, j);
                sx::checkC("C02.no-jump-inside", !(lt(r.sectors[i]->min, j) && lt(j, r.sectors[i]->max)));
            }
            sx::checkC("C02.jump-on-boundary", hit);
        }
        if (!jumps.empty()) {
            sx::checkC("C02.still-covers", eq(r.sectors[0]->min, domMin) && eq(r.sectors[n - 1]->max, domMax));
            for (int i = 1; i < n; ++i)
                sx::checkC("C02.still-covers", eq(r.sectors[i - 1]->max, r.sectors[i]->min));
        }
        // orientation and matching
        int m = r.matchIndex;
        sx::checkC("C03.match-index-exists", sx::cBool(0 <= m && m < n));
        if (m < 0 || m >= n) return;
        for (int i = 0; i < n; ++i)
            sx::checkC("C03.orientation", sx::cBool(r.sectors[i]->direction == (i <= m ? forward : backward)));
        if (n >= 2) {
            sx::checkC("C03.match-inside", lt(domMin, r.sectors[m]->max) && lt(r.sectors[m]->max, domMax));
            sx::checkC("C03.match-not-last", sx::cBool(m < n - 1));
            // the fronts met by always extending the side with the higher potential (ties: either)
            std::vector<std::vector<char>> can(n, std::vector<char>(n, 0));
            can[0][n - 1] = 1;
            for (int i = 0; i < n; ++i)
                for (int j = n - 1; j > i + 1; --j)
                    if (can[i][j]) {
                        S a = height<P>(*r.sectors[i]), b = height<P>(*r.sectors[j]);
                        if (sx::branch(lt(b, a))) can[i + 1][j] = 1;
                        else if (sx::branch(lt(a, b))) can[i][j - 1] = 1;
                        else can[i + 1][j] = can[i][j - 1] = 1;
                    }
            sx::checkC("C03.fronts-meet-in-the-valley", sx::cBool(m + 1 < n && can[m][m + 1]));
        }
    }

    // acceptance of the sectors of an automatic mesh, judged by the log of all constructed sectors
    template<class P>
    void checkTolerance(const SectorBuilderReturn<P> &r) {
        for (auto &s: r.sectors) {
            int at = -1;
            for (int k = (int) built.size() - 1; k >= 0 && at < 0; --k)
                if (built[k].address == (const void *) s.get()) at = k;
            sx::checkC("C04.sector-was-built", sx::cBool(at >= 0));
            if (at < 0) continue;
            // constructions for the same step: the same anchored end, the same direction
            int reductions = 0;
            for (int k = at - 1; k >= 0; --k) {
                const Built &b = built[k];
                if (b.direction != built[at].direction) break;
                bool same = b.direction == forward ? sx::branch(eq(b.min, built[at].min)) : sx::branch(eq(b.max, built[at].max));
                if (!same) break;
                ++reductions;
            }
            sx::checkC("C04.error-within-tolerance",
                       le(s->error(), tolerance) || le(s->max - s->min, S(1.001e-3)) || sx::cBool(reductions >= 10));
        }
        // every trial sector stays inside of the gap between the accepted ones on both sides
        for (auto &b: built) {
            sx::checkC("C04.inside-domain", le(domMin, b.min) && le(b.max, domMax));
            sx::checkC("C04.trial-has-width", lt(b.min, b.max));
        }
    }

    void domain() {
        built.clear();
        forceBad = 0;
        freeErrors = 1000;
        fixedErrors = false;
        domMin = S(sx::inVar("min", -100, 100));
        S width(sx::inVar("width", 0.01, 100));
        domMax = domMin + width;
        tolerance = S(sx::inVar("tol", 1e-9, 1));
    }

    template<class P> const P *noProblem() {
        static std::vector<char> raw(sizeof(P) + 64, 0);
        return (const P *) raw.data();
    }

    template<class P> void automatic(int maxSectors, int jumps, int freely) {
        domain();
        maxBuilt = maxSectors;
        freeErrors = freely;
        sx::note(sxn("automatic mesh: at most ", freely) + " estimates outside of [tolerance / 2, tolerance]");
        sx::note(sxn("automatic mesh: at most ", maxSectors) + sxn(" sector constructions, ", jumps) + " jumps, domain "
                 "width 0.01..100, tolerance 1e-9..1, error estimates 0..1000");
        AutomaticSectorBuilder<P> builder(tolerance);
        for (int i = 0; i < jumps; ++i) {
            S j = domMin + S(sx::inVar(sxn("jump", i), 0, 1)) * (domMax - domMin);
            sx::assumeC(lt(i ? builder.jumps.back() : domMin, j) && lt(j, domMax));
            builder.jumps.push_back(j);
        }
        std::vector<S> js = builder.jumps;
        auto r = builder(noProblem<P>(), domMin, domMax);
        sx::reach(sxn("sectors:", r.sectors.size()));
        if (r.sectors.size() < built.size()) sx::reach("rejected trials");
        checkTiling<P>(r, js);
        checkTolerance<P>(r);
    }

    template<class P>
    void exactTiling(const SectorBuilderReturn<P> &r, const std::vector<S> &jumps) {
        int n = (int) r.sectors.size();
        sx::checkExactC("C01.first-starts-at-min", eq(r.sectors[0]->min, domMin));
        sx::checkExactC("C01.last-ends-at-max", eq(r.sectors[n - 1]->max, domMax));
        for (int i = 1; i < n; ++i)
            sx::checkExactC("C01.adjacent", eq(r.sectors[i - 1]->max, r.sectors[i]->min));
        for (auto &j: jumps) {
            sx::Cond hit = sx::cBool(false);
            for (int i = 0; i < n; ++i) hit = hit || eq(r.sectors[i]->max, j);
            sx::checkExactC("C02.jump-on-boundary", hit);
        }
    }

    template<class P> void uniform(int maxSectors) {
        domain();
        maxBuilt = 1000;
        int n = sx::inChoose("sectorCount", 1, maxSectors);
        sx::note(sxn("uniform mesh: up to ", maxSectors) + " sectors");
        UniformSectorBuilder<P> builder(n);
        auto r = builder(noProblem<P>(), domMin, domMax);
        sx::checkC("C01.requested-count", sx::cBool((int) r.sectors.size() == n));
        sx::reach(sxn("sectors:", n));
        checkTiling<P>(r, {});
        for (auto &s: r.sectors)
            sx::checkC("C01.uniform-width", eq((s->max - s->min) * n, domMax - domMin));
    }
}

HARNESS(mesh_auto, "C01,C03,C04", "quick=20 thorough=600 crash=C01") {
    sx::setDivZeroViolates(true);
    automatic<Matslise<S>>(sx::tier() ? 9 : 6, 0, sx::tier() ? 4 : 2);
}

HARNESS(mesh_auto_jump1, "C01,C02,C03", "quick=15 thorough=600 crash=C02") {
    automatic<Matslise<S>>(sx::tier() ? 9 : 6, 1, sx::tier() ? 3 : 1);
}

HARNESS(mesh_auto_jump2, "C02", "quick=12 thorough=600 crash=C02") {
    automatic<Matslise<S>>(sx::tier() ? 9 : 6, 2, sx::tier() ? 2 : 1);
}

HARNESS(mesh_auto_jump3, "C02", "quick=10 thorough=600 crash=C02") {
    automatic<Matslise<S>>(sx::tier() ? 9 : 6, 3, sx::tier() ? 2 : 0);
}

HARNESS(mesh_auto_matscs, "C01,C03", "quick=10 thorough=300 crash=C01") {
    automatic<Matscs<S>>(sx::tier() ? 8 : 6, 0, sx::tier() ? 3 : 1);
}

// the step is reduced again and again: the construction ends and accepts after ten reductions at most
HARNESS(mesh_reduced, "C04", "quick=12 thorough=300 crash=C04") {
    domain();
    sx::setDivZeroViolates(true);
    fixedErrors = true;
    tolerance = S(1e-6);
    badError = S(sx::inChoose("large", 0, 1) ? 1e12 : 2.);
    maxBuilt = sx::tier() ? 40 : 18;
    forceBad = sx::inChoose("bad", 10, 12);
    sx::note("automatic mesh: the first 10 to 12 error estimates exceed the tolerance, slightly or vastly");
    AutomaticSectorBuilder<Matslise<S>> builder(tolerance);
    // a construction that is still refused after ten reductions never ends for a tolerance out of reach
    try {
        auto r = builder(noProblem<Matslise<S>>(), domMin, domMax);
        sx::reach(sxn("sectors:", r.sectors.size()));
        checkTolerance<Matslise<S>>(r);
    } catch (sx::PathEnd &) {
        int first = 0;
        while (first < (int) built.size() && built[first].direction == forward) ++first;
        sx::checkC("C04.at-most-ten-reductions", sx::cBool(first <= 12));
        throw;
    }
}

HARNESS(mesh_uniform, "C01,C03", "quick=8 thorough=300 crash=C01") {
    uniform<Matslise<S>>(sx::tier() ? 9 : 7);
}

HARNESS(mesh_uniform_matscs, "C01,C03", "quick=5 thorough=200 crash=C01") {
    uniform<Matscs<S>>(sx::tier() ? 7 : 5);
}

// the same with the rounding of binary64 arithmetic: ends of sectors are compared bit for bit
HARNESS(mesh_uniform_rounding, "C01", "quick=8 thorough=100 crash=C01") {
    domain();
    domMax = S(sx::inVar("max", -100, 200));
    sx::assumeC(le(domMin + 0.01, domMax));
    maxBuilt = 1000;
    int n = sx::inChoose("sectorCount", 1, sx::tier() ? 9 : 6);
    sx::note("uniform mesh with binary64 rounding: domain within -100..200");
    sx::setRounding(true);
    UniformSectorBuilder<Matslise<S>> builder(n);
    auto r = builder(noProblem<Matslise<S>>(), domMin, domMax);
    sx::setRounding(false);
    sx::reach(sxn("sectors:", r.sectors.size()));
    exactTiling(r, {});
}

template<int jumps> static void automaticRounding(int bound) {
    domain();
    domMax = S(sx::inVar("max", -100, 200));
    sx::assumeC(le(domMin + 0.01, domMax));
    maxBuilt = bound;
    freeErrors = sx::tier() ? 1 : 0;
    sx::note(sxn("automatic mesh with binary64 rounding: at most ", bound) + sxn(" sector constructions, jumps: ", jumps));
    AutomaticSectorBuilder<Matslise<S>> builder(tolerance);
    for (int i = 0; i < jumps; ++i) {
        S j(sx::inVar(sxn("jump", i), -100, 200));
        sx::assumeC(lt(i ? builder.jumps.back() : domMin, j) && lt(j, domMax));
        builder.jumps.push_back(j);
    }
    std::vector<S> js = builder.jumps;
    sx::setRounding(true);
    auto r = builder(noProblem<Matslise<S>>(), domMin, domMax);
    sx::setRounding(false);
    sx::reach(sxn("sectors:", r.sectors.size()));
    exactTiling(r, js);
}

HARNESS(mesh_auto_rounding, "C01", "quick=8 thorough=300 crash=C01") {
    automaticRounding<0>(sx::tier() ? 7 : 6);
}

HARNESS(mesh_jump_rounding, "C02", "quick=8 thorough=300 crash=C02") {
    automaticRounding<1>(sx::tier() ? 7 : 5);
}
