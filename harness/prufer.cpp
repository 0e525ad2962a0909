// The angle of a solution: theta0 and prufer of one sector for every direction of the start and every advance.
// sx: tags 1
// sx: skip matscs liouville matslise/halfrange.cpp matslise/periodic.cpp matslise/matslise.cpp matslise/abstract_matslise.cpp matslise/matslise_formulas.cpp util
// sx: libs -Wl,--unresolved-symbols=ignore-all
#include "matslise.h"
#include "util/theta.h"
#include "prufer.stubs.h"
#include "sx_repo.h"
#include "util.h"

using namespace matslise;
typedef sx::SymT<1> S;
typedef Matslise<S> M;
typedef Y<S, 1, 1> Y1;

template<> M::Sector::Sector(const M *, const S &min, const S &max, Direction d)
        : min(min), max(max), h(max - min), direction(d) {
    for (auto &v: vs) v = S(0);
}

namespace {
    const S pi() { return constants<S>::PI; }

    // an angle in (-pi/2, pi/2] and its sine and cosine
    struct Angle {
        S phi, s, c;
        int side; // sign of phi

        // functions: with the sine and cosine functions of the angle, else with any positive length of both
        Angle(const std::string &name, bool functions) {
            side = sx::inChoose(name + "-sign", -1, 2); // 2: exactly pi / 2
            if (side == 2) phi = pi() / 2;
            else if (side) {
                phi = side * S(sx::inVar(name, 1e-6, 1.5707953));
            } else phi = S(0);
            s = side == 2 ? S(1) : sin(phi);
            c = side == 2 ? S(0) : cos(phi);
            if (!sx::symbolic() || side == 2 || side == 0) return;
            if (!functions) {
                s = side * S(sx::inVar(name + "s", 1e-7, 1));
                c = S(sx::inVar(name + "c", 1e-7, 1));
            }
            sx::registerAngle(c.v, s.v, phi.v);
        }

        // the angle of (c, sigma s), on the same side of every multiple of pi / 2
        S scaled(const S &sigma, const std::string &name) const {
            if (!sx::symbolic()) {
                double f = phi.v.d, d = std::atan2(sigma.v.d * std::sin(f), std::cos(f));
                return S(side == 2 ? M_PI / 2 : d);
            }
            if (side == 2 || side == 0) return phi;
            S d(sx::inVar(name, -1.5707964, 1.5707964));
            S up = (sigma - 1) * s * c;
            sx::assumeC(lt(-pi() / 2, d) && lt(d, pi() / 2));
            sx::assumeC(side > 0 ? lt(S(0), phi + d) && lt(phi + d, pi() / 2) : lt(phi + d, S(0)) && lt(-pi() / 2, phi + d));
            sx::registerAngle((1 + (sigma - 1) * s * s).v, up.v, d.v);
            sx::registerAngle(c.v, (sigma * s).v, (phi + d).v);
            return phi + d;
        }
    };

    struct Setting {
        M::Sector sector;
        S E, omega, scaling;
        bool allowed;

        Setting() : sector(nullptr, S(0), S(1), forward) {
            allowed = sx::inBool("allowed");
            sector.vs[0] = S(sx::inVar("V0", -50, 50));
            S above(allowed ? S(sx::inVar("above", 0.01, 100)) : -S(sx::inVar("below", 0, 50)));
            S aboveMatch(sx::inVar("aboveMatch", -50, 100));
            E = sector.vs[0] + above;
            sector.v0Match = E - aboveMatch;
            omega = allowed ? sqrt(above) : S(0);
            scaling = sx::branch(lt(S(1), aboveMatch)) ? sqrt(aboveMatch) : S(1);
        }

        // initial or final values with this angle
        Y1 values(const std::string &name, const Angle &a, bool negative) const {
            S r(sx::inVar(name, 0.1, 10));
            if (negative) r = -r;
            Y1 y;
            y.data << r * a.s / (allowed ? omega : scaling), r * a.c, S(sx::inVar(name + "E", -3, 3)), S(sx::inVar(name + "dE", -3, 3));
            return y;
        }
    };
}

HARNESS(angle_start, "C13", "quick=10 thorough=60 crash=C13") {
    Setting q;
    Angle a("phi", q.allowed);
    Y1 y = q.values("r", a, sx::inBool("negative"));
    S expect = q.allowed ? a.scaled(q.scaling / q.omega, "turn") : a.phi;
    sx::note("initial angle: every direction, every energy");
    sx::checkEq("C13.start", q.sector.theta0(q.E, y), expect);
    sx::checkEq("C13.direction", atan_safe<S>(y.data[0] * (q.allowed ? q.omega : q.scaling), y.data[1]), a.phi);
    sx::reach(q.allowed ? "allowed" : "forbidden");
}

HARNESS(angle_advance, "C13", "quick=30 thorough=200 crash=C13") {
    Setting q;
    Angle a("phi0", q.allowed), b("phi1", q.allowed);
    S delta, advance, end;
    Y1 y0, y1;
    if (q.allowed) {
        int most = sx::tier() ? 6 : 2;
        int half = sx::inChoose("half-turns", 0, most);
        S phase(sx::inVar("phase", 0.001, 3.2 * (most + 1)));
        delta = phase / q.omega;
        S phi1 = b.phi + half * pi();
        // the advance is not negative, and is the phase of the mean potential up to less than a quarter turn or
        // is more than that but less than half a turn
        sx::assumeC(le(a.phi, phi1));
        sx::assumeC((lt(phi1 - a.phi - phase, pi() / 2) && lt(-pi() / 2, phi1 - a.phi - phase)) ||
                    (lt(pi() / 2, phi1 - a.phi - phase) && lt(phi1 - a.phi, pi())));
        y0 = q.values("r0", a, sx::inBool("negative0"));
        y1 = q.values("r1", b, sx::inBool("negative1"));
        S sigma = q.scaling / q.omega;
        advance = b.scaled(sigma, "turn1") + half * pi() - a.scaled(sigma, "turn0");
        sx::note(sxn("above the mean potential: up to ", most) + " half turns in one sector, less than a quarter turn away from the phase of the mean potential (or further, but less than half a turn in total)");
    } else {
        delta = S(sx::inVar("delta", 0.001, 10));
        int half = sx::inChoose("half-turns", -1, 1);
        S phi1 = b.phi + half * pi();
        // less than half a turn, and zeros are passed upwards only
        sx::assumeC(lt(phi1 - a.phi, pi()) && lt(-pi(), phi1 - a.phi));
        sx::assumeC(a.side == 1 || a.side == 2 || a.side == 0 ? lt(S(0), phi1) : lt(-pi(), phi1));
        bool negative = sx::inBool("negative0");
        y0 = q.values("r0", a, negative);
        y1 = q.values("r1", b, negative != (half != 0));
        advance = phi1 - a.phi;
        sx::note("below the mean potential: less than half a turn in one sector");
    }
    S got = q.sector.prufer<1>(q.E, delta, y0, y1);
    sx::reach(q.allowed ? "allowed" : "forbidden");
    sx::checkEq("C13.advance", got, advance);
    // number of zeros passed: multiples of pi
    Y<S, 1, 2> u, v;
    for (int i = 0; i < 4; ++i) u.data(i, 0) = -(u.data(i, 1) = y0.data[i]), v.data(i, 0) = -(v.data(i, 1) = y1.data[i]);
    Eigen::Array<S, 2, 1> two = q.sector.prufer<2>(q.E, delta, u, v);
    sx::checkEq("C13.sign", two[0], advance);
    sx::checkEq("C13.columns", two[1], advance);
}
