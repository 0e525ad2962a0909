// The angle of a coupled system: Matscs::propagate on one sector, for every direction of the start and every advance.
//
// theta is the angle with (u, u') along (sin theta, cos theta). A solution for a constant potential is followed exactly:
// where it oscillates, psi with tan psi = omega tan theta advances linearly and shares the quarter turns with theta;
// where it does not, it has at most one zero. The matrix over the sector is this one up to a shear, which turns the
// solution by less than a quarter turn.
// sx: tags 1
// sx: libs -Wl,--unresolved-symbols=ignore-all
// sx: skip liouville matslise matscs/matscs_formulas.cpp
#include <map>
#include "matslise.h"
#include "turns.stubs.h"
#include "sx_repo.h"
#include "util.h"
#include "util/constants.h"

using namespace matslise;
using namespace matslise::sector_builder;
typedef sx::SymT<1> S;
typedef Matscs<S> C;
typedef Y<S, Eigen::Dynamic> YN;
typedef Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> Mat;

namespace {
    const S pi() { return constants<S>::PI; }
    S number(double d) { return S(sx::V{d, nullptr}); }

    struct Pair { Mat value, inverse; };
    std::vector<Pair> pairs;
    Mat transfer;
    Mat diagonalizeBy;
    std::vector<S> potentials;

    struct Etas { S Z, eta0, eta1; };
    std::vector<Etas> etas;
    std::vector<S> roots; // positive numbers of which the squares appear

    bool ident(const S &a, const S &b) {
        if (sx::symbolic()) return sx::sameV(a.v, b.v);
        return std::abs(a.v.d - b.v.d) <= 1e-9 * (1 + std::abs(a.v.d));
    }
}

sx::Square sx::linearSolve(const Square &m, const Square &rhs) {
    for (auto &k: pairs) {
        bool same = k.value.rows() == m.rows();
        for (int i = 0; same && i < m.rows(); ++i)
            for (int j = 0; same && j < m.cols(); ++j) same = ident(k.value(i, j), m(i, j));
        if (same) return k.inverse * rhs;
    }
    S det = laplace(m);
    Square r(m.cols(), rhs.cols());
    for (int j = 0; j < rhs.cols(); ++j)
        for (int i = 0; i < m.cols(); ++i) {
            Square other = m;
            other.col(i) = rhs.col(j);
            r(i, j) = laplace(other) / det;
        }
    return r;
}

namespace {
    bool isZero(const sx::Complex &c) {
        double d;
        return sx::isConst(c.real().v, &d) && std::abs(d) < (sx::symbolic() ? 1e-300 : 1e-9) &&
               sx::isConst(c.imag().v, &d) && std::abs(d) < (sx::symbolic() ? 1e-300 : 1e-9);
    }

    bool isDiagonal(const sx::ComplexSquare &m) {
        for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) if (i != j && !isZero(m(i, j))) return false;
        return true;
    }

    sx::ComplexSquare divide(const sx::ComplexSquare &diagonal, const sx::ComplexSquare &rhs) {
        sx::ComplexSquare r(rhs.rows(), rhs.cols());
        for (int i = 0; i < rhs.rows(); ++i) for (int j = 0; j < rhs.cols(); ++j)
            r(i, j) = isZero(rhs(i, j)) ? sx::Complex(S(0), S(0)) : sx::Complex(rhs(i, j) / diagonal(i, i));
        return r;
    }
}

// of channels that are independent of each other in some basis
sx::ComplexSquare sx::linearSolve(const ComplexSquare &m, const ComplexSquare &rhs) {
    if (isDiagonal(m)) return divide(m, rhs);
    ComplexSquare q = diagonalizeBy.cast<Complex>(), t = m * q;
    if (isDiagonal(t)) return q * divide(t, rhs);
    t = q.transpose() * m;
    if (isDiagonal(t)) return divide(t, q.transpose() * rhs);
    sx::discard("a linear system of channels that are coupled");
    return rhs;
}

Eigen::Matrix<sx::Complex, Eigen::Dynamic, 1> sx::spectrum(const ComplexSquare &m) {
    if (isDiagonal(m)) return m.diagonal();
    ComplexSquare q = diagonalizeBy.cast<Complex>(), t = q.transpose() * m * q;
    if (!isDiagonal(t)) sx::discard("eigenvalues of channels that are coupled");
    return t.diagonal();
}

template<> C::Sector::Sector(const C *p, const S &min, const S &max, Direction d)
        : n(p->n), min(min), max(max), h(max - min), direction(d) {
    for (auto &v: vs) v = Mat::Zero(n, n);
    for (int i = 0; i < n; ++i) vs[0](i, i) = potentials[i];
    diagonalize = diagonalizeBy;
}

template<> T<S, Eigen::Dynamic> C::Sector::calculateT(const S &, const S &delta, bool) const {
    T<S, Eigen::Dynamic> t((int) n);
    if (ident(delta, S(0))) return t;
    t.t = transfer;
    return t;
}

template<> T<S, Eigen::Dynamic> C::Sector::calculateT(const S &E, bool use_h) const { return calculateT(E, h, use_h); }

template<> Eigen::Array<S, 2, 1> calculateEta<S, 2>(S Z) {
    Eigen::Array<S, 2, 1> r;
    if (!sx::symbolic()) {
        double z = Z.v.d, w = std::sqrt(std::abs(z));
        r << S(z < 0 ? std::cos(w) : std::cosh(w)), S(z == 0 ? 1. : z < 0 ? std::sin(w) / w : std::sinh(w) / w);
        return r;
    }
    for (auto &e: etas) if (ident(e.Z, Z)) {
        r << e.eta0, e.eta1;
        return r;
    }
    for (auto &e: etas) if (sx::branch(eq(e.Z, Z))) {
        r << e.eta0, e.eta1;
        return r;
    }
    sx::fail("engine.eta", "an unexpected argument of the eta functions");
    return r;
}

namespace {
    struct OneSector : SectorBuilder<C> {
        Direction direction = forward;
        SectorBuilderReturn<C> operator()(const C *p, const S &a, const S &b) const override {
            SectorBuilderReturn<C> r;
            r.sectors.push_back(std::make_unique<C::Sector>(p, a, b, direction));
            r.matchIndex = 0;
            return r;
        }
    };

    // number of multiples of pi passed: floor of x / pi, and whether x is a multiple itself
    double native(const S &x) { return x.v.d; }

    typedef std::pair<S, S> Z2; // a complex number
    Z2 times(const Z2 &a, const Z2 &b) { return {a.first * b.first - a.second * b.second, a.first * b.second + a.second * b.first}; }
    Z2 conj(const Z2 &a) { return {a.first, -a.second}; }
    void angleOf(const Z2 &z, const S &angle) { sx::registerAngle(z.first.v, z.second.v, angle.v); }

    // one channel: its start, the solution for the constant potential, and the solution
    struct Channel {
        S u, v, potential, eta0, eta1, u1, v1, uc, vc, q = 0;
        S expected; // twice the turn of the solution
        Z2 p;       // eta0 + i delta eta1, at the angle phi
        S phi, theta0;

        // a start in the quarter (0: (0, pi/2), 1: pi/2, 2: (pi/2, pi), 3: pi)
        Channel(const std::string &name, const S &delta, bool right, bool oscillates, int mostHalfTurns, bool sheared, bool negative, const S &E) {
            int quarter = sx::inChoose(name + "quarter", 0, 3);
            S th(sx::inVar(name + "theta0", 0, 3.1415927));
            S su(sx::inVar(name + "u", 0.1, 3)), sv(sx::inVar(name + "v", 0.1, 3));
            
            u = quarter == 3 ? S(0) : su;
            v = quarter == 1 ? S(0) : quarter == 0 ? sv : -sv;
            if (!sx::symbolic()) th = S(quarter == 3 ? M_PI : std::atan2(u.v.d, v.v.d));
            else if (quarter == 1) th = pi() / 2;
            else if (quarter == 3) th = pi();
            else if (quarter == 0) sx::assumeC(lt(S(0), th) && lt(th, pi() / 2));
            else sx::assumeC(lt(pi() / 2, th) && lt(th, pi()));
            theta0 = th;
            if (negative) u = -u, v = -v;
            S sign = right ? S(1) : S(-1);
            S thc; // the angle of the solution for the constant potential
            if (oscillates) {
                int m = sx::inChoose(name + "half turns", 0, mostHalfTurns), part = sx::inChoose(name + "advance", 0, 3);
                // |sigma| = f + m pi, f in (0, pi/2), pi/2, (pi/2, pi), or pi
                S sigma = part == 1 ? (2 * m + 1) * pi() / 2 : part == 3 ? (m + 1) * pi() :
                        S(sx::inVar(sxn(name + "sigma", 2 * m + part / 2), (2 * m + part / 2) * M_PI / 2 + 1e-3, (2 * m + part / 2 + 1) * M_PI / 2 - 1e-4));
                S f = sigma - m * pi();
                S omega = sigma / (right ? delta : -delta);
                potential = E - omega * omega;
                roots.push_back(sigma);
                S c(0), s(0);
                if (part == 1) s = S(1);
                else if (part == 3) c = S(-1);
                else if (!sx::symbolic()) c = S(std::cos(f.v.d)), s = S(std::sin(f.v.d));
                else { // (only the algebra of the two functions matters)
                    S other(sx::inVar(name + "trig", -10, 10));
                    c = cos(other), s = sin(other);
                }
                if (m % 2) c = -c, s = -s;
                eta0 = c;
                eta1 = s / sigma;
                uc = c * u + sign * (s / omega) * v;
                vc = -sign * omega * s * u + c * v;
                S s1 = sign * s / omega; // delta eta1
                p = {eta0, s1};
                S g(0), psi0 = th;
                if (!sx::symbolic()) {
                    double w = omega.v.d, t = th.v.d, start = quarter == 1 || quarter == 3 ? t : std::atan2(w * std::sin(t), std::cos(t));
                    double end = start + sign.v.d * sigma.v.d;
                    double base = std::floor(end / M_PI) * M_PI, rest = end - base;
                    thc = S(base + std::atan2(std::sin(rest) / w, std::cos(rest)));
                    if (std::abs(rest) < 1e-12 || std::abs(rest - M_PI) < 1e-12) thc = S(end);
                    g = S(0);
                } else {
                    // phi: tan phi = (delta / sigma) tan sigma, in the same quarter as sigma
                    if (part == 0 || part == 2) {
                        g = S(sx::inVar(name + "g", -1.5708, 1.5708));
                        S lo = part ? pi() / 2 : S(0), hi = part ? pi() : pi() / 2;
                        sx::assumeC(lt(-pi() / 2, g) && lt(g, pi() / 2) && lt(lo, f + g) && lt(f + g, hi));
                    }
                    phi = sign * (sigma + g);
                    S sd = sign * sigma;
                    // direction of phi - sd = sign g (cos sd, sin sd = s)
                    angleOf({c * c + s1 * sign * s, s1 * c - sign * s * c}, sign * g);
                    // psi starts in the quarter of theta
                    if (quarter == 0 || quarter == 2) {
                        psi0 = S(sx::inVar(name + "psi0", 0, 3.1415927));
                        if (quarter == 0) sx::assumeC(lt(S(0), psi0) && lt(psi0, pi() / 2));
                        else sx::assumeC(lt(pi() / 2, psi0) && lt(psi0, pi()));
                    }
                    S psi1 = psi0 + sd;
                    thc = S(sx::inVar(name + "theta1", -3.2 * (mostHalfTurns + 3), 3.2 * (mostHalfTurns + 3)));
                    // theta1 and theta0 + phi pass the multiples of pi with psi1, theta1 those of pi / 2
                    int k = sx::inChoose(name + "half", right ? 0 : -mostHalfTurns - 2, right ? mostHalfTurns + 2 : 1);
                    int at = sx::inChoose(name + "at", 0, 3);
                    auto in = [&](const S &x, bool quarters) {
                        S lo = k * pi(), mid = lo + pi() / 2, hi = lo + pi();
                        if (at == 0) return eq(x, lo);
                        if (!quarters) return lt(lo, x) && lt(x, hi);
                        return at == 2 ? eq(x, mid) : at == 1 ? lt(lo, x) && lt(x, mid) : lt(mid, x) && lt(x, hi);
                    };
                    sx::assumeC(in(psi1, true) && in(thc, true) && in(th + phi, false));
                    if (quarter == 3 || part == 3) sx::assumeC(eq(thc, th + phi)); // a Dirichlet start, or half turns
                }
            } else {
                S c(sx::inVar(name + "c", 1, 5)), s1(sx::inVar(name + "s", 0.05, 5)), w2(sx::inVar(name + "w2", 0, 10));
                if (!sx::symbolic()) {
                    double d = delta.v.d, w = std::sqrt(w2.v.d);
                    c = S(std::cosh(w * d));
                    s1 = S(w == 0 ? d : std::sinh(w * d) / w);
                } else {
                    s1 = sign * s1;
                    sx::assumeC(le(S(1), c));
                }
                potential = E + w2;
                eta0 = c;
                eta1 = s1 / delta;
                uc = c * u + s1 * v;
                vc = w2 * s1 * u + c * v;
                p = {c, s1};
                if (!sx::symbolic()) {
                    double t = std::atan2(uc.v.d, vc.v.d); // of the end, up to half turns
                    // at most one zero
                    bool passed = quarter == 3 ? false : uc.v.d * u.v.d < 0;
                    double lo = quarter == 3 ? (right ? M_PI : 0) : passed ? (right ? M_PI : -M_PI) : 0;
                    t = std::fmod(t + 4 * M_PI, M_PI);
                    thc = S(lo + t);
                } else {
                    phi = S(sx::inVar(name + "g", -1.5707, 1.5707));
                    sx::assumeC(right ? lt(S(0), phi) : lt(phi, S(0)));
                    angleOf(p, phi);
                    thc = S(sx::inVar(name + "theta1", -7, 7));
                    int at = sx::inChoose(name + "at", 0, 3), k = sx::inChoose(name + "half", -1, 1);
                    S lo = k * pi(), mid = lo + pi() / 2, hi = lo + pi();
                    sx::assumeC(at == 0 ? eq(thc, lo) && eq(th + phi, lo) :
                                (at == 2 ? eq(thc, mid) : at == 1 ? lt(lo, thc) && lt(thc, mid) : lt(mid, thc) && lt(thc, hi)) &&
                                lt(lo, th + phi) && lt(th + phi, hi));
                    if (quarter == 3) sx::assumeC(eq(thc, th + phi));
                }
            }
            etas.push_back({delta * delta * (potential - E), eta0, eta1});
            if (sheared) q = S(sx::inVar(name + "shear", -3, 3));
            u1 = uc + q * vc;
            v1 = vc;
            S turn(0);
            double zero = 1;
            if (sheared && !(sx::symbolic() && sx::isConst((q * vc).v, &zero) && zero == 0)) { // by less than a quarter turn
                S cross = u1 * vc - v1 * uc, dot = u1 * uc + v1 * vc;
                if (!sx::symbolic()) sx::assumeC(lt(S(0), dot));
                if (!sx::symbolic()) turn = S(std::atan2(cross.v.d, dot.v.d));
                else {
                    turn = S(sx::inVar(name + "turn", -1.5708, 1.5708));
                    sx::assumeC(lt(-pi() / 2, turn) && lt(turn, pi() / 2));
                    angleOf({dot * dot - cross * cross, 2 * dot * cross}, 2 * turn);
                }
            }
            expected = 2 * (thc + turn - th);
            if (sx::symbolic()) {
                Z2 w0 = {v, u}, w = times(w0, p), wc = {vc, uc}, w1 = {v1, u1};
                for (const Z2 &z: {w0, wc, w1, p}) { // none of them vanishes
                    sx::knownPositive((z.first * z.first + z.second * z.second).v);
                    sx::knownPositive(std::norm(sx::Complex(z.first, z.second) / sx::Complex(z.first, -z.second)).v);
                }
                angleOf(times(w0, w0), 2 * th);
                angleOf(times(w, w), 2 * (th + phi));
                angleOf(times(wc, wc), 2 * thc);
                angleOf(times(w1, w1), 2 * (thc + turn));
                angleOf(times(p, p), 2 * phi);
            }
        }

        // a channel with explicit values
        Channel(const S &delta, bool right, int variant, const S &E) {
            S sign = right ? S(1) : S(-1);
            u = S(1), v = S(1), theta0 = pi() / 4;
            S thc;
            if (variant == 2) { // the potential is the energy
                potential = E;
                eta0 = S(1), eta1 = S(1);
                p = {S(1), delta};
                uc = u + delta, vc = v;
                phi = S(sx::inVar("b g", -1.4, 1.4)), thc = S(sx::inVar("b theta1", -1.4, 1.4));
                if (!sx::symbolic()) phi = S(std::atan(delta.v.d)), thc = S(std::atan(1 + delta.v.d));
                sx::assumeC(right ? lt(pi() / 4, phi) && lt(pi() / 4, thc) && lt(pi() / 2, theta0 + phi) :
                            lt(phi, -pi() / 4) && lt(thc, S(0)) && lt(theta0 + phi, S(0)));
            } else { // half turns
                if (variant == 1) v = S(0), theta0 = pi() / 2;
                S sigma = (variant + 1) * pi(), omega = sigma / (right ? delta : -delta);
                potential = E - omega * omega;
                roots.push_back(sigma);
                eta0 = variant == 1 ? S(1) : S(-1), eta1 = S(0);
                p = {eta0, S(0)};
                uc = eta0 * u, vc = eta0 * v;
                phi = sign * sigma;
                thc = theta0 + phi;
            }
            etas.push_back({delta * delta * (potential - E), eta0, eta1});
            u1 = uc, v1 = vc;
            expected = 2 * (thc - theta0);
            if (sx::symbolic()) {
                Z2 w0 = {v, u}, w = times(w0, p), wc = {vc, uc};
                angleOf(times(w0, w0), 2 * theta0);
                angleOf(times(w, w), 2 * (theta0 + phi));
                angleOf(times(wc, wc), 2 * thc);
                angleOf(times(p, p), 2 * phi);
                angleOf(p, phi);
            }
        }

        // the matrix to the end, and back
        Mat forth(const S &delta, const S &E) const {
            Mat m(2, 2), shear(2, 2);
            S s1 = p.second;
            m << eta0, s1, (potential - E) * s1, eta0;
            if (!sx::symbolic()) {
                s1 = eta1 * delta;
                m << eta0, s1, (potential - E) * s1, eta0;
            }
            shear << S(1), q, S(0), S(1);
            return shear * m;
        }

        Mat back(const S &delta, const S &E) const {
            Mat m(2, 2), shear(2, 2);
            S s1 = sx::symbolic() ? p.second : eta1 * delta;
            m << eta0, -s1, -(potential - E) * s1, eta0;
            shear << S(1), -q, S(0), S(1);
            return m * shear;
        }
    };

    struct Setting {
        bool backwardSector = sx::inBool("backward sector"), right = sx::inBool("to the right");
        S E = S(sx::inVar("E", -5, 5)), delta = number(right ? 1.5 : -1.5);

        Setting() {
            pairs.clear();
            etas.clear();
            potentials.clear();
            roots.clear();
            sx::setSqrtRule([](const sx::V &a, sx::V &root) {
                for (auto &r: roots) if (sx::sameV(a, (r * r).v)) {
                    root = r.v;
                    return true;
                }
                return false;
            });
        }

        // a propagation over (part of) one sector that starts or ends in its reference point
        S angle(const YN &y0, Mat forth, Mat back, int n, YN *end = nullptr, bool beyond = false) {
            for (Mat *m: {&forth, &back})
                if (backwardSector) for (int i = 0; i < 2 * n; ++i) for (int j = 0; j < 2 * n; ++j) if ((i < n) != (j < n)) (*m)(i, j) = -(*m)(i, j);
            bool away = right != backwardSector; // from the reference point
            transfer = away ? forth : back;
            pairs.push_back({transfer, away ? back : forth});
            OneSector mesh;
            mesh.direction = backwardSector ? backward : forward;
            bool whole = right || beyond;
            S width = number(whole ? 1.5 : 2);
            S lo = number(-1), hi = lo + width;
            C ms([n](const S &) -> Mat { return Mat::Zero(n, n); }, n, lo, hi, mesh);
            S reference = backwardSector ? hi : lo, other = backwardSector ? hi - number(1.5) : lo + number(1.5);
            if (beyond) other += number(backwardSector ? -1 : 1); // (the solution is that at the end of the sector)
            S from = away ? reference : other, to = away ? other : reference;
            auto r = beyond ? ms.sectors[0]->propagate(E, y0, from, to) : ms.propagate(E, y0, from, to);
            if (end) *end = r.first;
            return r.second;
        }
    };
}

HARNESS(turns_channel, "C33", "quick=40 thorough=300 crash=C33") {
    Setting q;
    bool oscillates = sx::inBool("oscillates"), sheared = sx::inBool("sheared");
    int most = sx::tier() ? 4 : 1;
    sx::note(sxn("angle over one sector, one channel: up to ", most + 1) + " half turns, deviation from the constant potential by less than a quarter turn");
    diagonalizeBy = Mat::Identity(1, 1);
    Channel c("", q.delta, q.right, oscillates, most, sheared, q.backwardSector, q.E);
    potentials = {c.potential};
    YN y0(1), end(1);
    y0.data << c.u, c.v, S(0), S(0);
    S angle = q.angle(y0, c.forth(q.delta, q.E), c.back(q.delta, q.E), 1, &end, sheared && sx::inBool("beyond"));
    sx::reach(oscillates ? "oscillating" : "not oscillating");
    sx::checkEq("C33.solution", end.data(0, 0), c.u1);
    sx::checkEq("C33.angle", angle, c.expected);
}

// two channels in the basis of the sector: its order, and the orientation of the basis
HARNESS(turns_two, "C33", "quick=60 thorough=600 crash=C33") {
    Setting q;
    int basis = sx::inChoose("basis", 0, 3), variant = sx::tier() ? sx::inChoose("variant", 0, 2) : basis % 3;
    bool oscillates = sx::inBool("oscillates"), sheared = sx::inBool("sheared"), first = basis != 1;
    sx::note("two channels that are independent in the basis of the sector (the original one, permuted, turned by a right angle or by any angle), one of them with explicit values");
    diagonalizeBy = Mat::Identity(2, 2);
    if (basis == 1) diagonalizeBy << S(0), S(1), S(1), S(0);
    if (basis == 2) diagonalizeBy << S(0), S(-1), S(1), S(0);
    if (basis == 3) {
        S t(sx::inVar("turned", 0.1, 1.5));
        diagonalizeBy << cos(t), -sin(t), sin(t), cos(t);
    }
    Channel a("", q.delta, q.right, oscillates, sx::tier() ? 2 : 0, sheared, q.backwardSector, q.E), b(q.delta, q.right, variant, q.E);
    std::vector<const Channel *> channels = {first ? &a : &b, first ? &b : &a};
    potentials.clear();
    Mat forth = Mat::Zero(4, 4), back = forth, y0 = Mat::Zero(4, 2), y1 = y0;
    for (int i = 0; i < 2; ++i) {
        const Channel &c = *channels[i];
        potentials.push_back(c.potential);
        Mat f = c.forth(q.delta, q.E), g = c.back(q.delta, q.E);
        for (int k = 0; k < 2; ++k) for (int l = 0; l < 2; ++l) forth(i + 2 * k, i + 2 * l) = f(k, l), back(i + 2 * k, i + 2 * l) = g(k, l);
        y0(i, i) = c.u, y0(i + 2, i) = c.v;
        y1(i, i) = c.u1, y1(i + 2, i) = c.v1;
    }
    Mat both = Mat::Zero(4, 4);
    both.topLeftCorner(2, 2) = diagonalizeBy;
    both.bottomRightCorner(2, 2) = diagonalizeBy;
    YN start(2), end(2);
    start.block() = (both * y0).topRows(2);
    start.block(dX) = (both * y0).bottomRows(2);
    S angle = q.angle(start, both * forth * both.transpose(), both * back * both.transpose(), 2, &end);
    sx::reach(oscillates ? "oscillating" : "not oscillating");
    Mat expected = both * y1;
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) sx::checkEq("C33.solution", end.block()(i, j), expected(i, j));
    sx::checkEq("C33.angle", angle, a.expected + b.expected);
}
