// Propagation over a mesh: Matslise::propagate, Sector::propagate, matchingError and the eigenfunctions run
// on arbitrary meshes with arbitrary transfer matrices.
// sx: tags 1
// sx: libs -Wl,--unresolved-symbols=ignore-all
// sx: skip matscs liouville matslise/halfrange.cpp matslise/periodic.cpp matslise/matslise_formulas.cpp
#include <map>
#include "matslise.h"
#include "flow.stubs.h"
#include "matslise/matslise_formulas.h"
#include "flow.h"

template<> void calculate_tcoeff_matrix(
        const S &, const std::array<S, MATSLISE_N> &,
        Eigen::Array<Eigen::Matrix<S, 2, 2, Eigen::DontAlign>, MATSLISE_ETA_delta, MATSLISE_HMAX_delta, Eigen::DontAlign> &,
        Eigen::Matrix<S, 2, 2, Eigen::DontAlign> *) {}

namespace {
    S point(const std::string &name) { return S(sx::inVar(name, -40, 120)); }

    S pointInside(const Problem &p, const std::string &name) {
        S x = point(name);
        sx::assumeC(le(p.ms->domain.min, x) && le(x, p.ms->domain.max));
        return x;
    }
}

HARNESS(flow_domain, "C05", "quick=20 thorough=300 crash=C05") {
    Problem p(1, sx::tier() ? 5 : 3);
    sx::note(sxn("propagate: up to ", sx::tier() ? 5 : 3) + " sectors, end points anywhere, both formulas");
    distinguishH = true;
    bool use_h = sx::inBool("use_h");
    S a = point("a"), b = point("b");
    Y1 y0 = values<1>("y");
    mode_h = use_h;
    bool answered = true;
    Y1 y;
    try {
        y = p.ms->propagate(energy, y0, a, b, use_h).first;
    } catch (std::runtime_error &) {
        answered = false;
    }
    sx::Cond inside = le(p.ms->domain.min, a) && le(a, p.ms->domain.max) && le(p.ms->domain.min, b) &&
                      le(b, p.ms->domain.max);
    if (answered) sx::checkC("C05.outside-refused", inside);
    else sx::checkC("C05.inside-answered", !inside);
    if (!answered) {
        sx::reach("refused");
        return;
    }
    sx::reach(sx::branch(lt(a, b)) ? "to the right" : "to the left");
    checkY("C05.overlapping-sectors", y, expected(p, y0, a, b, use_h));
}

HARNESS(flow_compose, "C06", "quick=30 thorough=400 crash=C06") {
    Problem p(1, sx::tier() ? 4 : 3);
    sx::note(sxn("propagation a to b to c: up to ", sx::tier() ? 4 : 3) + " sectors");
    distinguishH = false;
    S a = pointInside(p, "a"), b = pointInside(p, "b"), c = pointInside(p, "c");
    Y1 y0 = values<1>("y");
    Y1 ab = p.ms->propagate(energy, y0, a, b).first;
    Y1 abc = p.ms->propagate(energy, ab, b, c).first;
    Y1 ac = p.ms->propagate(energy, y0, a, c).first;
    sx::reach("composed");
    checkY("C06.composition", abc, ac);
}

HARNESS(flow_reverse, "C06", "quick=20 thorough=300 crash=C06") {
    Problem p(1, sx::tier() ? 5 : 3);
    distinguishH = true;
    bool use_h = sx::inBool("use_h");
    S a = pointInside(p, "a"), b = pointInside(p, "b");
    Y1 y0 = values<1>("y");
    Y1 there = p.ms->propagate(energy, y0, a, b, use_h).first;
    Y1 back = p.ms->propagate(energy, there, b, a, use_h).first;
    sx::reach("there and back");
    checkY("C06.there-and-back", back, y0);
    checkY("C06.empty-interval", p.ms->propagate(energy, y0, a, a, use_h).first, y0);
}

HARNESS(flow_columns, "C06", "quick=20 thorough=300 crash=C06") {
    Problem p(1, sx::tier() ? 4 : 3);
    distinguishH = true;
    angleKind = 1;
    bool use_h = sx::inBool("use_h");
    S a = pointInside(p, "a"), b = pointInside(p, "b");
    Y2 y0 = values<2>("y");
    auto both = p.ms->propagate<2>(energy, y0, a, b, use_h);
    Y1 sum;
    S f(sx::inVar("factor", -3, 3));
    sum.data = y0.data.col(0) + f * y0.data.col(1);
    Y1 one[2], combined = p.ms->propagate(energy, sum, a, b, use_h).first;
    for (int i = 0; i < 2; ++i) {
        auto r = p.ms->propagate(energy, y0.col(i), a, b, use_h);
        one[i] = r.first;
        checkY("C06.columns", both.first.col(i), r.first);
        sx::checkEq("C06.columns-angle", both.second[i], r.second);
    }
    Y1 expectedSum;
    expectedSum.data = one[0].data + f * one[1].data;
    sx::reach("columns");
    checkY("C06.linear", combined, expectedSum);
    angleKind = 0;
}

HARNESS(flow_matching, "C17", "quick=25 thorough=300 crash=C17") {
    Problem p(1, sx::tier() ? 6 : 4);
    sx::note(sxn("matching error: up to ", sx::tier() ? 6 : 4) + " sectors, any boundary values");
    distinguishH = true;
    angleKind = 1;
    bool use_h = sx::inBool("use_h");
    mode_h = use_h;
    Y1 left = values<1>("l"), right = values<1>("r");
    auto err = p.ms->matchingError(energy, left, right, use_h);
    const S &x = p.mesh.ends[p.mesh.match + 1];
    auto l = p.ms->propagate(energy, left, p.mesh.ends[0], x, use_h);
    auto r = p.ms->propagate(energy, right, p.mesh.ends[p.n()], x, use_h);
    Y1 el = expected(p, left, p.mesh.ends[0], x, use_h), er = expected(p, right, p.mesh.ends[p.n()], x, use_h);
    sx::reach("matching error");
    sx::checkEq("C17.mismatch", std::get<0>(err), el.data[1] * er.data[0] - er.data[1] * el.data[0]);
    sx::checkEq("C17.derivative", std::get<1>(err),
                el.data[3] * er.data[0] + el.data[1] * er.data[2] - er.data[3] * el.data[0] - er.data[1] * el.data[2]);
    sx::checkEq("C17.angle", std::get<2>(err), l.second - r.second);
    // two non-trivial solutions are proportional exactly when their cross product vanishes
    sx::Cond proportional = eq(el.data[0] * er.data[1], er.data[0] * el.data[1]);
    sx::checkC("C17.zero-iff-proportional", sx::cIff(eq(std::get<0>(err), S(0)), proportional));
    angleKind = 0;
}

// the error estimate compares the mismatch of two formulas: both sides use the one that is asked for
HARNESS(flow_both_formulas, "C31", "quick=15 thorough=200 crash=C31") {
    Problem p(1, sx::tier() ? 6 : 3);
    sx::note(sxn("both formulas of the matching error: up to ", sx::tier() ? 6 : 3) + " sectors, any boundary values");
    distinguishH = true;
    angleKind = 1;
    shear = 1 + sx::inBool("shear");
    Y1 left = values<1>("l"), right = values<1>("r");
    const S &x = p.mesh.ends[p.mesh.match + 1];
    for (bool use_h: {true, false}) {
        auto err = p.ms->matchingError(energy, left, right, use_h);
        Y1 el = expected(p, left, p.mesh.ends[0], x, use_h), er = expected(p, right, p.mesh.ends[p.n()], x, use_h);
        sx::checkEq(use_h ? "C31.full-formula" : "C31.simplified-formula", std::get<0>(err),
                    el.data[1] * er.data[0] - er.data[1] * el.data[0]);
    }
    sx::reach("both formulas");
    shear = 0;
    angleKind = 0;
}

namespace {
    // the angle a solution advances over one sector from its reference end to x
    S advanceTo(const M::Sector &s, const Y1 &y, const S &at, const S &x) {
        bool fwd = s.direction == forward;
        if (sameValue(x, fwd ? s.min : s.max)) return S(0);
        Y1 ref = across(s, y, at, fwd ? s.min : s.max, true), there = across(s, y, at, x, true);
        if (fwd) return s.prufer<1>(energy, x - s.min, ref, there);
        return -s.prufer<1>(energy, s.max - x, there, ref);
    }

    // start angle and advance of the propagation from a to b
    S expectedAngle(const Problem &p, Y1 y, const S &a, const S &b) {
        int n = p.n();
        bool up = sx::branch(le(a, b));
        auto in = [&](int k, const S &x) { return sx::branch(le(p.mesh.ends[k], x) && le(x, p.mesh.ends[k + 1])); };
        int i = up ? n - 1 : 0;
        while (!in(i, a)) i += up ? -1 : 1;
        S angle = p.ms->sectors[i]->theta0(energy, y);
        if (sx::branch(lt(angle, S(0)) || (eq(angle, S(0)) && sx::cBool(!up)))) angle = angle + constants<S>::PI;
        S at = a;
        for (int k = i; ; k += up ? 1 : -1) {
            const M::Sector &s = *p.ms->sectors[k];
            bool last = in(k, b);
            S to = last ? b : up ? s.max : s.min;
            if (!sameValue(at, to)) {
                angle = angle + advanceTo(s, y, at, to) - advanceTo(s, y, at, at);
                y = across(s, y, at, to, true);
            }
            at = to;
            if (last) return angle;
        }
    }
}

HARNESS(flow_angle, "C13", "quick=20 thorough=300 crash=C13") {
    Problem p(1, sx::tier() ? 4 : 3);
    angleKind = 1;
    sx::note(sxn("accumulated angle: meshes of up to ", sx::tier() ? 4 : 3) + " sectors, any two points of the domain");
    S a(sx::inVar("a", -50, 50)), b(a);
    if (!sx::inBool("same")) {
        b = S(sx::inVar("b", -50, 50));
        sx::assumeC(ne(a, b));
    }
    sx::assumeC(le(p.mesh.ends[0], a) && le(a, p.mesh.ends[p.n()]) && le(p.mesh.ends[0], b) && le(b, p.mesh.ends[p.n()]));
    for (auto &s: p.ms->sectors) sx::checkEq("C13.reference-potential", s->v0Match, p.ms->sectors[p.mesh.match]->vs[0]);
    shear = 1 + sx::inBool("shear");
    Y1 y = values<1>("y");
    auto r = p.ms->propagate(energy, y, a, b, true);
    S e = expectedAngle(p, y, a, b);
    sx::reach("accumulated angle");
    sx::checkEq("C13.accumulated", r.second, e);
    Y2 both;
    for (int i = 0; i < 4; ++i) both.data(i, 0) = both.data(i, 1) = y.data[i];
    auto r2 = p.ms->propagate(energy, both, a, b, true);
    sx::checkEq("C13.columns", r2.second[0], e);
    sx::checkEq("C13.columns", r2.second[1], e);
    shear = 0;
    angleKind = 0;
}

namespace {
    // boundary values for which the two solutions meet: w at the matching point from the left, w / sigma from the right
    struct Matched {
        Y1 left, right;
        S sigma;
        Y1 yl, yr;
        S norm2, norm;
        std::unique_ptr<M::Eigenfunction> f;

        explicit Matched(Problem &p) {
            const S &x = p.mesh.ends[p.mesh.match + 1];
            Y1 w;
            w.data[0] = S(sx::inVar("w_y", -2, 2));
            w.data[1] = S(sx::inVar("w_dy", -2, 2));
            sx::assumeC(!(eq(w.data[0], S(0)) && eq(w.data[1], S(0))));
            S inverse(sx::inVar("ratio", 0.1, 4));
            if (sx::inBool("negative")) inverse = -inverse;
            sigma = 1 / inverse;
            left = p.ms->propagate(energy, w, x, p.mesh.ends[0], true).first;
            right = p.ms->propagate(energy, w * inverse, x, p.mesh.ends[p.n()], true).first;
            left.data[2] = left.data[3] = right.data[2] = right.data[3] = S(0);
            yl = p.ms->propagate(energy, left, p.mesh.ends[0], x, true).first;
            yr = p.ms->propagate(energy, right, p.mesh.ends[p.n()], x, true).first;
            norm2 = yl.data[2] * yl.data[1] - yl.data[3] * yl.data[0] -
                    sigma * sigma * (yr.data[2] * yr.data[1] - yr.data[3] * yr.data[0]);
            sx::setDivZeroViolates(true);
            sx::setSqrtNegViolates(true);
            f = p.ms->eigenfunction(energy, left, right);
            // the derivative formula gives a positive square for every Schrodinger problem
            if (!sx::branch(lt(S(0), norm2))) sx::discard("the energy derivative has the sign of no potential");
            norm = sqrt(norm2);
        }
    };
}

HARNESS(flow_eigenfunction, "C18", "quick=30 thorough=400 crash=C18") {
    Problem p(1, sx::tier() ? 4 : 3);
    sx::note(sxn("eigenfunction: up to ", sx::tier() ? 4 : 3) + " sectors, any value and slope at the matching point");
    distinguishH = false;
    Matched m(p);
    sx::reach("eigenfunction");
    auto at = [&](const S &x) { return (*m.f)(x); };
    Eigen::Array<S, 2, 1> fl = at(p.mesh.ends[0]), fr = at(p.mesh.ends[p.n()]);
    // proportional to the boundary vectors
    sx::checkEq("C18.left-condition", fl[0] * m.left.data[1], fl[1] * m.left.data[0]);
    sx::checkEq("C18.right-condition", fr[0] * m.right.data[1], fr[1] * m.right.data[0]);
    // the scale is the one of unit norm, the same on both sides
    S l0 = m.left.data[0], l1 = m.left.data[1], r0 = m.sigma * m.right.data[0], r1 = m.sigma * m.right.data[1];
    S n = m.norm;
    sx::checkC("C18.unit-norm", (eq(fl[0] * n, l0) && eq(fl[1] * n, l1)) || (eq(fl[0] * n, -l0) && eq(fl[1] * n, -l1)));
    sx::checkC("C18.same-scale", (eq(fl[0] * n, l0) && eq(fl[1] * n, l1) && eq(fr[0] * n, r0) && eq(fr[1] * n, r1)) ||
                                 (eq(fl[0] * n, -l0) && eq(fl[1] * n, -l1) && eq(fr[0] * n, -r0) && eq(fr[1] * n, -r1)));
    // the function follows the flow: continuous with its derivative everywhere, in particular at the boundaries
    for (int i = 1; i < p.n(); ++i) {
        Eigen::Array<S, 2, 1> fi = at(p.mesh.ends[i]);
        Y1 start;
        start.data[0] = fl[0];
        start.data[1] = fl[1];
        Y1 e = expected(p, start, p.mesh.ends[0], p.mesh.ends[i], true);
        sx::checkEq("C18.continuous", fi[0], e.data[0]);
        sx::checkEq("C18.continuous", fi[1], e.data[1]);
    }
}

HARNESS(flow_eigenfunction_inside, "C18", "quick=25 thorough=400 crash=C18") {
    Problem p(1, sx::tier() ? 4 : 3);
    distinguishH = false;
    Matched m(p);
    S x = pointInside(p, "x");
    Eigen::Array<S, 2, 1> fl = (*m.f)(p.mesh.ends[0]), fx = (*m.f)(x);
    Y1 start;
    start.data[0] = fl[0];
    start.data[1] = fl[1];
    Y1 e = expected(p, start, p.mesh.ends[0], x, true);
    sx::reach("inside");
    sx::checkEq("C18.follows-the-flow", fx[0], e.data[0]);
    sx::checkEq("C18.follows-the-flow", fx[1], e.data[1]);
}

namespace {
    void compareList(const Problem &p, const M::Eigenfunction &f, int points, const Y1 *left) {
    Eigen::Array<S, Eigen::Dynamic, 1> xs(points);
    for (int i = 0; i < points; ++i) {
        xs[i] = point(sxn("x", i));
        // at any other energy the two solutions do not meet at the matching point
        if (!left) sx::assumeC(ne(xs[i], p.mesh.ends[p.mesh.match + 1]));
    }
    Eigen::Array<S, Eigen::Dynamic, 2> list = f(xs);
    sx::checkC("C19.size", sx::cBool(list.rows() == points));
    sx::reach("list");
    for (int i = 0; i < points; ++i) {
        Eigen::Array<S, 2, 1> single = f(xs[i]);
        sx::checkEq("C19.value", list(i, 0), single[0]);
        sx::checkEq("C19.slope", list(i, 1), single[1]);
        if (!sx::branch(le(p.ms->domain.min, xs[i]) && le(xs[i], p.ms->domain.max))) {
            sx::checkEq("C19.zero-outside", single[0], S(0));
            sx::checkEq("C19.zero-outside", single[1], S(0));
        } else if (left) {
            Y1 e = expected(p, *left, p.mesh.ends[0], xs[i], true);
            sx::checkEq("C19.is-the-solution", single[0] * e.data[1], single[1] * e.data[0]);
            sx::checkC("C19.is-the-solution", !(eq(single[0], S(0)) && eq(single[1], S(0))));
        }
    }
}
}

HARNESS(flow_list, "C19", "quick=40 thorough=500 crash=C19") {
    Problem p(1, sx::tier() ? 4 : 3);
    int points = sx::tier() ? 4 : 3;
    sx::note(sxn("list evaluation: up to ", sx::tier() ? 4 : 3) + sxn(" sectors, ", points) + " points in any order");
    distinguishH = false;
    shear = sx::inChoose("shear", 1, 2);
    Y1 left, right;
    left.data[2 - shear] = right.data[2 - shear] = S(1);
    left.data[shear - 1] = S(sx::inVar("l", -2, 2));
    right.data[shear - 1] = S(sx::inVar("r", -2, 2));
    auto f = p.ms->eigenfunction(energy, left, right);
    compareList(p, *f, points, nullptr);
}

// at an eigenvalue the matching point is a point like all others
HARNESS(flow_list_matched, "C19", "quick=25 thorough=400 crash=C19") {
    Problem p(2, sx::tier() ? 4 : 3);
    shear = sx::inChoose("shear", 1, 2);
    Y1 w;
    w.data[2 - shear] = S(1);
    w.data[shear - 1] = S(sx::inVar("w", -2, 2));
    const S &x = p.mesh.ends[p.mesh.match + 1];
    Y1 left = p.ms->propagate(energy, w, x, p.mesh.ends[0], true).first;
    Y1 right = p.ms->propagate(energy, w * S(-0.5), x, p.mesh.ends[p.n()], true).first;
    auto f = p.ms->eigenfunction(energy, left, right);
    compareList(p, *f, sx::tier() ? 3 : 2, &left);
}
