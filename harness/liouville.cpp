// Liouville's transformation: the real LiouvilleTransformation on top of arbitrary pieces.
// sx: tags 1
// sx: libs -Wl,--unresolved-symbols=ignore-all
// sx: skip matscs matslise util liouville/sturm_liouville.cpp
#include <map>
#include "liouville.h"
#include "liouville.stubs.h"
#include "util.h"

using namespace matslise;
typedef sx::SymT<1> S;
typedef LiouvilleTransformation<S> LT;
typedef LT::Piece Piece;
typedef Y<S> Y1;

namespace {
    const double eps = 1. / 32; // instead of 1e-15

    sx::Cond less(const S &a, const S &b) { return lt(a, b); }

    double accuracy() { return sx::symbolic() ? eps : 4e-15; }

    typedef std::function<void(Piece &)> Maker;
    Maker maker;

    // a map that is accepted at once: its pieces are replaced afterwards
    void plain(Piece &p) {
        p.x.max = p.r.max - p.r.min;
        p.r2x = {S(0), p.r.max - p.r.min};
        p.p = {S(1)};
        p.w = {S(1)};
        p.pwx = {S(1)};
    }

    struct Shape {
        S scale;
        int kind;

        // increasing from 0 on [0, 1]
        S operator()(const S &t) const {
            switch (kind) {
                case 0: return scale * t;
                case 1: return scale * (t + t * t);
                case 2: return scale * (S(2) * t - t * t);
                default: return scale * (t + S(2) * t * t * t);
            }
        }

        double steepest() const {
            static const double s[] = {1, 3, 2, 7};
            return s[kind];
        }

        void set(Piece &p) const {
            S c[4][4] = {{S(0), S(1), S(0),  S(0)},
                         {S(0), S(1), S(1),  S(0)},
                         {S(0), S(2), S(-1), S(0)},
                         {S(0), S(1), S(0),  S(2)}};
            p.r2x = {p.x.min, scale * c[kind][1], scale * c[kind][2], scale * c[kind][3]};
            p.x.max = p.x.min + (*this)(S(1));
        }
    };

    struct Map {
        std::unique_ptr<LT> lt;
        std::vector<Shape> shapes;
        std::vector<S> r;
    };

    // count pieces of arbitrary lengths
    Map someMap(int count, int kinds, const LT::Function &q = [](S) { return S(0); }) {
        Map m;
        m.r.push_back(S(sx::inVar("rMin", -5, 5)));
        for (int i = 0; i < count; ++i) m.r.push_back(m.r.back() + S(sx::inVar(sxn("length", i), 0.1, 5)));
        maker = plain;
        sx::setLiteral(1e-15, eps);
        sx::setLiteral(1e-14, 0.25);
        auto one = [](S) { return S(1); };
        // (the pieces of this transformation are replaced)
        m.lt = std::make_unique<LT>(Domain<S>{m.r.front(), m.r.back()}, one, q, one);
        m.lt->pieces.clear();
        S x(sx::inVar("xMin", -5, 5));
        for (int i = 0; i < count; ++i) {
            Piece p(*m.lt, {m.r[i], m.r[i + 1]});
            p.x.min = x;
            m.shapes.push_back({S(sx::inVar(sxn("scale", i), 0.1, 5)), sx::inChoose(sxn("shape", i), 0, kinds - 1)});
            m.shapes.back().set(p);
            x = p.x.max;
            m.lt->pieces.push_back(p);
        }
        return m;
    }

    int pieces() { return sx::inChoose("pieces", 1, sx::tier() ? 4 : 2); }
}

template<> Piece::Piece(const LT &, const Domain<S> &d) : r(d), x({S(0), S(0)}) {
    maker(*this);
}

HARNESS(liouville_forward, "C24", "quick=8 thorough=60 crash=C24") {
    Map m = someMap(pieces(), 4);
    int i = sx::inChoose("piece", 0, (int) m.shapes.size() - 1);
    S t(sx::inVar("t", 0, 1));
    sx::note("up to 2 (thorough: 4) pieces of any length, four increasing shapes of any scale, every point of the domain; bisection to 1/32 instead of 1e-15");
    const Piece &p = m.lt->pieces[i];
    S x = m.lt->r2x(m.r[i] + t * (m.r[i + 1] - m.r[i]));
    sx::reach("mapped");
    sx::checkEq("C24.map", x, p.x.min + m.shapes[i](t));
    sx::checkEq("C24.transformed-domain", m.lt->xDomain().min, m.lt->pieces.front().x.min);
    sx::checkEq("C24.transformed-domain", m.lt->xDomain().max, m.lt->pieces.back().x.max);
    sx::checkEq("C24.original-domain", m.lt->rDomain().min, m.r.front());
    sx::checkEq("C24.original-domain", m.lt->rDomain().max, m.r.back());
}

HARNESS(liouville_backward, "C24", "quick=12 thorough=300 crash=C24") {
    Map m = someMap(pieces(), 4);
    int i = sx::inChoose("piece", 0, (int) m.shapes.size() - 1);
    const Piece &p = m.lt->pieces[i];
    S t(sx::inVar("t", 0, 1));
    S x = p.x.min + t * (p.x.max - p.x.min);
    S r = m.lt->x2r(x);
    S s = (r - m.r[i]) / (m.r[i + 1] - m.r[i]);
    sx::note("up to 2 (4) pieces, every point of the transformed domain; bisection to 1/32 instead of 1e-15");
    sx::reach("mapped");
    // a later piece may answer at the end of this one
    bool next = i + 1 < (int) m.shapes.size() && sx::branch(eq(t, S(1)));
    if (next) {
        S length = m.r[i + 2] - m.r[i + 1], d(accuracy());
        sx::checkC("C24.there-and-back", le(-d, (r - m.r[i + 1]) / length) && le((r - m.r[i + 1]) / length, d));
        return;
    }
    sx::checkC("C24.inside-the-piece", le(S(0), s) && le(s, S(1)));
    S d(accuracy()), value = m.shapes[i](t * 0 + s), expected = t * (p.x.max - p.x.min);
    // r2x(x2r(x)) is x, up to the steps of the bisection
    S change = d * m.shapes[i].steepest() * m.shapes[i].scale;
    sx::checkC("C24.there-and-back", le(value, expected + change) && le(expected, value + change));
}

HARNESS(liouville_there_and_back, "C24", "quick=10 thorough=300 crash=C24") {
    Map m = someMap(pieces(), 4);
    int i = sx::inChoose("piece", 0, (int) m.shapes.size() - 1);
    S t(sx::inVar("t", 0, 1)), length = m.r[i + 1] - m.r[i];
    S r = m.lt->x2r(m.lt->r2x(m.r[i] + t * length));
    sx::note("up to 2 (4) pieces, every point of the domain; bisection to 1/32 instead of 1e-15");
    sx::reach("mapped");
    if (i + 1 < (int) m.shapes.size() && sx::branch(eq(t, S(1)))) length = std::max(length, m.r[i + 2] - m.r[i + 1]);
    S d = length * (sx::symbolic() ? accuracy() : 1e-12), e = r - (m.r[i] + t * (m.r[i + 1] - m.r[i]));
    sx::checkC("C24.there-and-back", le(e, d) && le(-d, e));
}

HARNESS(liouville_depth, "C24", "quick=5 thorough=30 crash=C24") {
    Map m = someMap(1, 1);
    sx::setLiteral(1e-15, 1e-15);
    static const double places[] = {0, 1. / 3, 0.5, 0.7 + 1e-9, 1};
    double at = places[sx::inChoose("place", 0, 4)];
    S t = S(sx::V{at, nullptr}) + S(sx::inVar("t", 0, 1e-18)) * (at < 1 ? 1 : -1);
    S x = m.lt->pieces[0].x.min + t * (m.lt->pieces[0].x.max - m.lt->pieces[0].x.min);
    S s = (m.lt->x2r(x) - m.r[0]) / (m.r[1] - m.r[0]);
    sx::note("the bisection to its real depth near five places");
    sx::reach("mapped");
    sx::checkEq("C24.depth", s, t, 1.1e-15, 1e-12);
}

HARNESS(liouville_increasing, "C24", "quick=8 thorough=100 crash=C24") {
    Map m = someMap(pieces(), 3);
    int n = (int) m.shapes.size();
    int i = sx::inChoose("piece", 0, n - 1), j = sx::inChoose("other piece", i, std::min(i + 1, n - 1));
    S t(sx::inVar("t", 0, 1)), u(sx::inVar("u", 0, 1));
    if (i == j) sx::assumeC(lt(t, u));
    else sx::assumeC(lt(t, S(1)));
    sx::note("increasing: any two points of the same or of neighbouring pieces");
    S a = m.lt->r2x(m.r[i] + t * (m.r[i + 1] - m.r[i])), b = m.lt->r2x(m.r[j] + u * (m.r[j + 1] - m.r[j]));
    sx::reach("compared");
    sx::checkC("C24.increasing", lt(a, b));
}

namespace {
    // a tree of subdivisions: the pieces below an accepted one agree with it
    struct Tree {
        std::map<std::pair<int, int>, bool> accepted; // depth, index
        std::map<std::pair<int, int>, S> slope;
        int depth, kind;
        S rMin, length;

        bool accept(int d, int k) {
            auto it = accepted.find({d, k});
            if (it != accepted.end()) return it->second;
            bool a = d + 1 >= depth || (d && accept(d - 1, k / 2)) || sx::inBool(sxn(sxn("accept", d) + "_", k));
            return accepted[{d, k}] = a;
        }

        S steep(int d, int k) {
            auto it = slope.find({d, k});
            if (it != slope.end()) return it->second;
            S v;
            if (d && accept(d - 1, k / 2)) v = steep(d - 1, k / 2);
            else v = S(sx::inVar(sxn(sxn("slope", d) + "_", k), 0.5, 3));
            return slope[{d, k}] = v;
        }

        void set(Piece &p) {
            // the place of the piece: exact numbers
            double a, l;
            S t0 = (p.r.min - rMin) / length, t1 = (p.r.max - rMin) / length;
            if (!sx::symbolic()) {
                a = t0.v.d;
                l = t1.v.d - a;
            } else if (!sx::isConst(t0.v, &a) || !sx::isConst(t1.v, &l)) {
                sx::fail("C24.pieces", "the domain is not halved");
                return plain(p);
            } else l -= a;
            int d = (int) std::lround(-std::log2(l)), k = (int) std::lround(a / l);
            S s = steep(d, k) * (p.r.max - p.r.min), off(0);
            // its halves differ much from a piece that is to be rejected
            if (!accept(d, k)) off = S(std::pow(10., 12 - 4 * d));
            p.r2x = {S(0), s};
            p.p = {S(1)};
            p.w = {S(1)};
            p.pwx = {S(1)};
            switch (kind) {
                case 0:
                    p.r2x[1] += off;
                    break;
                case 1:
                    p.r2x[1] += off;
                    p.r2x[2] -= off;
                    break;
                case 2:
                    p.pwx[0] += off;
                    break;
                default:
                    p.pwx[0] -= off;
                    p.pwx[1] += 2 * off;
            }
            p.x.max = p.r2x[1] + p.r2x[2];
        }
    };
    Tree tree;
}

HARNESS(liouville_construct, "C24,C25", "quick=12 thorough=300 crash=C24") {
    tree = Tree();
    tree.depth = sx::tier() ? 4 : 3;
    tree.kind = sx::inChoose("difference", 0, 3);
    tree.rMin = S(sx::inVar("rMin", -5, 5));
    tree.length = S(sx::tier() && sx::inBool("long") ? 4 : 0.25);
    maker = [](Piece &p) { tree.set(p); };
    sx::setLiteral(1e-15, 1. / 4);
    sx::setLiteral(1e-14, 10);
    sx::setLiteral(1e-12, 10);
    sx::setLiteral(1e-8, 1e-4);
    auto one = [](S) { return S(1); };
    LT lt({tree.rMin, tree.rMin + tree.length}, one, one, one);
    sx::note("domains halved up to 3 (4) times in every way, any slope on each piece; a piece may differ from its halves in the length, in the change of variable, or in the product of the coefficients");
    sx::reach(sxn("pieces ", lt.pieces.size()));
    sx::checkEq("C24.pieces", lt.pieces.front().r.min, tree.rMin);
    sx::checkEq("C24.pieces", lt.pieces.back().r.max, tree.rMin + tree.length);
    for (size_t i = 0; i < lt.pieces.size(); ++i) {
        const Piece &p = lt.pieces[i];
        sx::checkC("C24.pieces", less(p.r.min, p.r.max));
        sx::checkC("C24.increasing", less(p.x.min, p.x.max));
        sx::checkEq("C24.ends", p.r2x(S(0)), p.x.min);
        sx::checkEq("C24.ends", p.r2x(S(1)), p.x.max);
        double l = 1;
        S part = (p.r.max - p.r.min) / tree.length, place = (p.r.min - tree.rMin) / tree.length;
        if (!sx::symbolic() || sx::isConst(part.v, &l)) {
            if (!sx::symbolic()) l = part.v.d;
            double at = 0;
            if (!sx::symbolic()) at = place.v.d;
            else sx::isConst(place.v, &at);
            int d = (int) std::lround(-std::log2(l));
            // (it agrees with the piece it is half of)
            sx::checkC("C25.resolved", sx::cBool(d > 0 && tree.accept(d - 1, (int) std::lround(at / l) / 2)));
        }
        if (!i) continue;
        sx::checkEq("C24.pieces", p.r.min, lt.pieces[i - 1].r.max);
        sx::checkEq("C24.continuous", p.x.min, lt.pieces[i - 1].x.max);
    }
}

namespace {
    // a polynomial with arbitrary coefficients that is positive on [0, 1]
    template<int n> void somePolynomial(const std::string &name, Polynomial<S, n> &p, int step = 1) {
        p = Polynomial<S, n>();
        for (int i = 0; i <= n; i += step)
            p[i] = S(sx::inVar(sxn(name, i), i ? -0.5 / n : 1, i ? 0.5 / n : 3));
    }

    // arbitrary positive value and arbitrary derivative at t, the other coefficients are arbitrary as well
    template<int n> void polynomialThrough(const std::string &name, Polynomial<S, n> &p, const S &t) {
        p = Polynomial<S, n>();
        p[0] = S(sx::inVar(name + " value", 0.25, 4));
        p[1] = S(sx::inVar(name + " derivative", -4, 4));
        for (int i = 2; i <= n; i += sx::tier() ? 2 : 3) {
            p[i] = S(sx::inVar(sxn(name, i), -1, 1));
            S power(i);
            for (int k = 1; k < i; ++k) power *= t;
            p[1] -= p[i] * power;
        }
        S rest(0);
        for (int i = n; i >= 1; --i) rest = (rest + p[i]) * t;
        p[0] -= rest;
    }
}

HARNESS(liouville_potential, "C25", "quick=20 thorough=300 crash=C25") {
    auto q = [](S r) { return S(sx::vUF("q", {r.v}, -10, 10)); };
    Map m = someMap(pieces(), 2, q);
    int i = sx::inChoose("piece", 0, (int) m.shapes.size() - 1);
    Piece &p = m.lt->pieces[i];
    for (auto &o: m.lt->pieces) {
        o.w = {S(100)};
        o.pwx = {S(100)};
    }
    somePolynomial("w", p.w, sx::tier() ? 1 : 4);
    somePolynomial("pw", p.pwx, sx::tier() ? 2 : 5);
    S t(sx::inVar("t", 0, 1));
    // (where two pieces meet either may be used)
    if (i + 1 < (int) m.shapes.size()) sx::assumeC(lt(t, S(1)));
    if (i) sx::assumeC(lt(S(0), t));
    S x = p.x.min + t * (p.x.max - p.x.min);
    sx::note("potential: arbitrary coefficients of w and of p*w (quick: three of each, thorough: all of w, six of p*w), any q, every point");
    S V = m.lt->V(x);
    sx::reach("potential");
    S r = m.lt->x2r(x), h = p.x.max - p.x.min;
    S s = (r - p.r.min) / (p.r.max - p.r.min);
    S w(0), f(0), d(0), dd(0);
    for (int k = 8; k >= 0; --k) w = w * s + p.w[k];
    for (int k = 10; k >= 0; --k) f = f * t + p.pwx[k];
    for (int k = 10; k >= 1; --k) d = d * t + p.pwx[k] * k;
    for (int k = 10; k >= 2; --k) dd = dd * t + p.pwx[k] * (k * (k - 1));
    // m = f^(1/4): m''/m
    S expected = q(r) / w + (dd / (4 * f) - 3 * (d * d) / (16 * f * f)) / (h * h);
    sx::checkEq("C25.potential", V, expected, 0, 1e-6);
}

namespace {
    Y1 someValues(const std::string &n) {
        Y1 y;
        for (int i = 0; i < 4; ++i) y.data[i] = S(sx::inVar(sxn(n, i), -5, 5));
        return y;
    }

    struct Local {
        S p, dp, w, dw;

        Local(const Piece &piece, const S &t) : p(0), dp(0), w(0), dw(0) {
            S h = piece.r.max - piece.r.min;
            for (int k = 8; k >= 0; --k) {
                p = p * t + piece.p[k];
                w = w * t + piece.w[k];
            }
            for (int k = 8; k >= 1; --k) {
                dp = dp * t + piece.p[k] * k;
                dw = dw * t + piece.w[k] * k;
            }
            dp /= h;
            dw /= h;
        }

        // y is z/sigma with sigma = (p w)^(-1/4), its derivative is with respect to x, dx/dr = sqrt(w/p)
        void check(const std::string &label, const Y1 &z, const Y1 &y) const {
            S pw = p * w, root = sqrt(pw), s = sqrt(root); // 1/sigma
            S xdr = sqrt(w / p);
            for (int k = 0; k < 4; k += 2) {
                sx::checkEq(label + "-values", y.data[k], z.data[k] * s, 0, 1e-6);
                // (z/sigma)' = z'/sigma + z/4 (p w)'/(p w)/sigma
                sx::checkEq(label + "-derivatives", y.data[k + 1] * xdr,
                            z.data[k + 1] * s + z.data[k] * (dp * w + p * dw) * s / (4 * pw), 0, 1e-6);
            }
        }
    };
}

HARNESS(liouville_boundary, "C26", "quick=15 thorough=300 crash=C26") {
    Map m = someMap(pieces(), 1);
    int i = sx::inChoose("piece", 0, (int) m.shapes.size() - 1);
    Piece &p = m.lt->pieces[i];
    S t(sx::inVar("t", 0, 1));
    bool last = i + 1 == (int) m.shapes.size();
    if (!last) sx::assumeC(lt(t, S(1)));
    if (i) sx::assumeC(lt(S(0), t));
    // (where two pieces meet either may be used)
    if ((last || !i) && sx::inBool("end")) t = last ? S(1) : S(0);
    polynomialThrough("p", p.p, t);
    polynomialThrough("w", p.w, t);
    Y1 z = someValues("z");
    sx::note("boundary values: arbitrary coefficients of p and w (four, thorough: six, of each), every point of the domain");
    Y1 y = m.lt->z2y(p.r.min + t * (p.r.max - p.r.min), z);
    sx::reach("transformed");
    Local(p, t).check("C26.to-transformed", z, y);
}

HARNESS(liouville_values, "C26", "quick=20 thorough=300 crash=C26") {
    Map m = someMap(pieces(), 2);
    int i = sx::inChoose("piece", 0, (int) m.shapes.size() - 1);
    Piece &p = m.lt->pieces[i];
    S t(sx::inVar("t", 0, 1));
    if (i + 1 < (int) m.shapes.size()) sx::assumeC(lt(t, S(1)));
    if (i) sx::assumeC(lt(S(0), t));
    S x = p.x.min + t * (p.x.max - p.x.min);
    S r = m.lt->x2r(x);
    polynomialThrough("p", p.p, (r - p.r.min) / (p.r.max - p.r.min));
    polynomialThrough("w", p.w, (r - p.r.min) / (p.r.max - p.r.min));
    Y1 y = someValues("y");
    Y1 z = m.lt->y2z(x, y);
    sx::note("values of the transformed problem mapped back: arbitrary coefficients, every point of the transformed domain");
    sx::reach("back");
    Local(p, (r - p.r.min) / (p.r.max - p.r.min)).check("C26.to-original", z, y);
    Y1 u = m.lt->z2y(r, z);
    for (int k = 0; k < 4; ++k) sx::checkEq("C26.there-and-back", u.data[k], y.data[k], 0, 1e-6);
}
