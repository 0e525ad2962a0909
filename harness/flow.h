// Sectors with arbitrary transfer matrices (determinant one) and an arbitrary mesh.
#pragma once
#include "sx_repo.h"
#include "util.h"
#include "util/constants.h"

using namespace matslise;
using namespace matslise::sector_builder;
typedef sx::SymT<1> S;
typedef Matslise<S> M;
typedef Y<S, 1, 1> Y1;
typedef Y<S, 1, 2> Y2;

namespace {
    bool ident(const S &a, const S &b) {
        if (sx::symbolic()) return a.v.p == b.v.p && (a.v.p || a.v.d == b.v.d);
        return std::abs(a.v.d - b.v.d) <= 1e-9 * (1 + std::abs(a.v.d));
    }

    bool sameValue(const S &a, const S &b) {
        if (sx::symbolic()) return sx::branch(eq(a, b));
        return std::abs(a.v.d - b.v.d) <= 1e-9 * (1 + std::abs(a.v.d));
    }

    struct Transfer {
        S at;
        bool full;
        T<S> value;
    };
    struct Advance {
        std::vector<S> key;
        S value;
    };
    std::map<int, std::vector<Transfer>> transfers;
    std::vector<Advance> advances;
    S energy;
    int mode_h = -1;          // expected use_h of all transfer requests (-1: any)
    bool distinguishH = false; // the full-sector formula gives another matrix than the general one
    int shear = 0; // 1: T = [1 p; 0 1], 2: T = [1 0; p 1], 0: any matrix of determinant one
    int angleKind = 0; // 0: fixed angles (theta0 = 1, no advance), 1: symbolic

    int sectorNumber(const M::Sector *s);

    // the transfer matrix of a sector over delta, and its derivative with respect to the energy
    T<S> transferOf(const M::Sector *s, const S &delta, bool use_h) {
        int nr = sectorNumber(s);
        T<S> t(1);
        if (sameValue(delta, S(0))) return t;
        bool full = distinguishH && use_h && sameValue(delta, s->h);
        auto &known = transfers[nr];
        for (auto &k: known)
            if (k.full == full && (ident(k.at, delta) || sameValue(k.at, delta))) return k.value;
        if (shear) { // one free entry: the queries about the position of points stay linear
            S p(sx::inVar(sxn(sxn("t", nr) + (full ? "h" : "d"), known.size()), -2, 2));
            t.t(shear == 1 ? 0 : 1, shear == 1 ? 1 : 0) = p;
            known.push_back({delta, full, t});
            return t;
        }
        std::string n = sxn(sxn("t", nr) + (full ? "h" : "d"), known.size());
        S p(sx::inVar(n + "p", -2, 2)), q(sx::inVar(n + "q", -2, 2)), r(sx::inVar(n + "r", -2, 2));
        S dp(sx::inVar(n + "P", -2, 2)), dq(sx::inVar(n + "Q", -2, 2)), dr(sx::inVar(n + "R", -2, 2));
        // [1 p; 0 1] [1 0; q 1] [1 r; 0 1]
        t.t << 1 + p * q, r + p * q * r + p, q, q * r + 1;
        t.dt << dp * q + p * dq, dr + dp * q * r + p * dq * r + p * q * dr + dp, dq, dq * r + q * dr;
        known.push_back({delta, full, t});
        return t;
    }

    S symbolicAngle(const std::string &name, const std::vector<S> &key, const S &lo, const S &hi) {
        for (auto &a: advances) {
            bool same = a.key.size() == key.size();
            for (size_t i = 0; same && i < key.size(); ++i) same = ident(a.key[i], key[i]);
            if (same) return a.value;
        }
        S v(sx::inVar(sxn(name, advances.size()), lo.v.d, hi.v.d));
        advances.push_back({key, v});
        return v;
    }

    std::vector<const M::Sector *> sectorList;

    int sectorNumber(const M::Sector *s) {
        for (size_t i = 0; i < sectorList.size(); ++i)
            if (sectorList[i] == s) return (int) i;
        return -1;
    }
}

namespace { int meanCount = 0; }
template<> M::Sector::Sector(const M *, const S &min, const S &max, Direction d)
        : min(min), max(max), h(max - min), direction(d) {
    for (auto &v: vs) v = S(0);
    vs[0] = S(sx::inVar(sxn("mean", meanCount++), -5, 5));
}

template<> T<S> M::Sector::calculateT(const S &E, const S &delta, bool use_h) const {
    sx::checkC("C05.energy-unchanged", eq(E, energy));
    if (mode_h >= 0) sx::checkC("C17.formula-as-requested", sx::cBool(use_h == (mode_h == 1)));
    return transferOf(this, delta, use_h);
}

template<> T<S> M::Sector::calculateT(const S &E, bool use_h) const { return calculateT(E, h, use_h); }

template<> template<> S M::Sector::prufer<1>(const S &, const S &delta, const Y1 &y0, const Y1 &y1) const {
    if (!angleKind) return S(0);
    return symbolicAngle("advance", {S(sectorNumber(this)), delta, y0.data[0], y0.data[1], y1.data[0], y1.data[1]},
                         S(-3), S(20));
}

template<> template<> Eigen::Array<S, 2, 1> M::Sector::prufer<2>(
        const S &E, const S &delta, const Y2 &y0, const Y2 &y1) const {
    Eigen::Array<S, 2, 1> r;
    for (int i = 0; i < 2; ++i) r[i] = prufer<1>(E, delta, y0.col(i), y1.col(i));
    return r;
}

template<> S M::Sector::theta0(const S &, const Y1 &y0) const {
    if (!angleKind) return S(1);
    return symbolicAngle("theta", {y0.data[0], y0.data[1]}, S(-1.5), S(1.5));
}

namespace {
    // a mesh of n sectors, the first m + 1 of them forward, built by the real constructor of Matslise
    struct GivenMesh : SectorBuilder<M> {
        std::vector<S> ends;
        int match;

        SectorBuilderReturn<M> operator()(const M *p, const S &, const S &) const override {
            SectorBuilderReturn<M> r;
            sectorList.clear();
            for (size_t i = 0; i + 1 < ends.size(); ++i) {
                r.sectors.push_back(std::make_unique<M::Sector>(p, ends[i], ends[i + 1],
                                                               (int) i <= match ? forward : backward));
                sectorList.push_back(r.sectors.back().get());
            }
            r.matchIndex = match;
            return r;
        }
    };

    struct Problem {
        GivenMesh mesh;
        std::unique_ptr<M> ms;

        // consistent orientation (forward up to the matching sector, backward after it)
        Problem(int minSectors, int maxSectors) {
            transfers.clear();
            meanCount = 0;
            advances.clear();
            mode_h = -1;
            shear = 0;
            angleKind = 0;
            energy = S(sx::inVar("E", -100, 100));
            int n = sx::inChoose("sectors", minSectors, maxSectors);
            mesh.match = n == 1 ? sx::inChoose("match", 0, 0) : sx::inChoose("match", 0, n - 2);
            mesh.ends.push_back(S(sx::inVar("xmin", -10, 10)));
            for (int i = 0; i < n; ++i)
                mesh.ends.push_back(mesh.ends.back() + S(sx::inVar(sxn("w", i), 0.1, 10)));
            ms = std::make_unique<M>([](const S &) { return S(0); }, mesh.ends[0], mesh.ends[n], S(1e-8), mesh);
        }

        int n() const { return (int) mesh.ends.size() - 1; }
    };

    template<int cols> Y<S, 1, cols> values(const std::string &name) {
        Y<S, 1, cols> y;
        for (int i = 0; i < 4; ++i)
            for (int j = 0; j < cols; ++j)
                y.data(i, j) = S(sx::inVar(sxn(sxn(name, i) + "_", j), -2, 2));
        return y;
    }

    template<int cols>
    void checkY(const std::string &label, const Y<S, 1, cols> &a, const Y<S, 1, cols> &b) {
        for (int j = 0; j < cols; ++j)
            for (int i = 0; i < 4; ++i)
                sx::checkEq(label, a.data(i, j), b.data(i, j));
    }

    // what the transfer over one sector from p to q has to be (p, q in the sector)
    Y1 across(const M::Sector &s, const Y1 &y0, const S &p, const S &q, bool use_h) {
        bool fwd = s.direction == forward;
        T<S> t0 = transferOf(&s, fwd ? p - s.min : s.max - p, use_h);
        T<S> t1 = transferOf(&s, fwd ? q - s.min : s.max - q, use_h);
        S y = y0.data[0], d = y0.data[1], ye = y0.data[2], de = y0.data[3];
        if (!fwd) d = -d, de = -de;
        // inverse of t0 (determinant one) and its derivative
        S ia = t0.t(1, 1), ib = -t0.t(0, 1), ic = -t0.t(1, 0), id = t0.t(0, 0);
        S ja = t0.dt(1, 1), jb = -t0.dt(0, 1), jc = -t0.dt(1, 0), jd = t0.dt(0, 0);
        S u = ia * y + ib * d, v = ic * y + id * d;
        S ue = ia * ye + ib * de + ja * y + jb * d, ve = ic * ye + id * de + jc * y + jd * d;
        Y1 r;
        r.data[0] = t1.t(0, 0) * u + t1.t(0, 1) * v;
        r.data[1] = t1.t(1, 0) * u + t1.t(1, 1) * v;
        r.data[2] = t1.t(0, 0) * ue + t1.t(0, 1) * ve + t1.dt(0, 0) * u + t1.dt(0, 1) * v;
        r.data[3] = t1.t(1, 0) * ue + t1.t(1, 1) * ve + t1.dt(1, 0) * u + t1.dt(1, 1) * v;
        if (!fwd) r.data[1] = -r.data[1], r.data[3] = -r.data[3];
        return r;
    }

    // propagation from a to b: sector by sector (a, b in the domain, their sectors decided by the path)
    Y1 expected(const Problem &p, Y1 y, const S &a, const S &b, bool use_h) {
        int n = p.n();
        auto sectorOf = [&](const S &x, bool low) {
            int k = low ? 0 : n - 1;
            if (low) while (k + 1 < n && sx::branch(lt(p.mesh.ends[k + 1], x))) ++k;
            else while (k > 0 && sx::branch(lt(x, p.mesh.ends[k]))) --k;
            return k;
        };
        if (sx::branch(le(a, b))) {
            int i = sectorOf(a, false), j = sectorOf(b, true);
            if (i > j) return y; // a = b on a boundary
            for (int k = i; k <= j; ++k)
                y = across(*p.ms->sectors[k], y, k == i ? a : p.mesh.ends[k], k == j ? b : p.mesh.ends[k + 1], use_h);
        } else {
            int i = sectorOf(a, true), j = sectorOf(b, false);
            for (int k = i; k >= j; --k)
                y = across(*p.ms->sectors[k], y, k == i ? a : p.mesh.ends[k + 1], k == j ? b : p.mesh.ends[k], use_h);
        }
        return y;
    }
}
