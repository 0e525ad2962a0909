// The pieces of Liouville's transformation: the real constructor of a piece (quadrature, bisection to its real depth).
// sx: tags 1
// sx: libs -Wl,--unresolved-symbols=ignore-all
// sx: skip matscs matslise util liouville/sturm_liouville.cpp
#include "liouville.h"
#include "piece.stubs.h"
#include "util.h"

using namespace matslise;
typedef sx::SymT<1> S;
typedef LiouvilleTransformation<S> LT;
typedef LT::Piece Piece;

namespace {
    // coefficient functions: alpha P(t), alpha beta^2 P(t) s(t)^2, where t = (r - rMin)/length
    const double shapes[][9] = {{1},
                                {1, 0.5},
                                {2, -1.5, 0.75},
                                {1, 0.25, -0.5, 0.25, 0.125},
                                {1.5, 0.25, -0.5, 0.75, -0.5, 0.25, -0.25, 0.125, 0.0625},
                                {1, -0.25, 0.5, -0.25, 0.125, 0.5}};
    const int degrees[] = {0, 1, 2, 4, 8, 5};

    struct Problem {
        S rMin, length, alpha, beta;
        int shape;
        std::vector<S> s;

        S at(const S &r) const { return (r - rMin) / length; }

        S P(const S &t) const {
            S v(0);
            for (int k = 8; k >= 0; --k) v = v * t + shapes[shape][k];
            return v;
        }

        S root(const S &t) const {
            S v(0);
            for (size_t k = s.size(); k--;) v = v * t + s[k];
            return v;
        }

        S p(const S &r) const { return alpha * P(at(r)); }

        S w(const S &r) const {
            S v = root(at(r)) * beta;
            return alpha * P(at(r)) * v * v;
        }
    };

    Problem problem;

    // the square of beta s(t) for some t in (0, 1): s0 = 1: the coefficients of beta^2 and of beta^2 s1 are 1 and 2 t
    bool knownRoot(const sx::V &a, sx::V &r) {
        double one = 0, twice = 0;
        sx::forTerms(a, [&](const sx::V &c, const std::vector<std::pair<std::string, int>> &m) {
            bool beta = false;
            std::vector<int> e(problem.s.size());
            for (auto &x: m) {
                if (x.first == "beta") beta = x.second == 2;
                else for (size_t k = 0; k < e.size(); ++k) if (x.first == sxn("s", k)) e[k] = x.second;
            }
            if (!beta) return;
            double d = 0;
            sx::isConst(c, &d);
            int degree = 0;
            for (size_t k = 1; k < e.size(); ++k) degree += e[k];
            if (!degree) one = d;
            if (degree == 1 && e[1] == 1) twice = d;
        });
        if (std::abs(one - 1) > 1e-12) return false;
        S t(sx::V{problem.s.size() > 1 ? twice / one / 2 : 0.5, nullptr});
        S known = problem.root(t) * problem.beta;
        sx::checkEq("C25.slope-of-the-map", S(a), known * known, 1e-9);
        r = known.v;
        return true;
    }


    void start(int degree) {
        problem.shape = sx::inChoose("shape", 0, 5);
        if (degrees[problem.shape] + 2 * degree > 8) sx::discard("degree");
        problem.rMin = S(sx::inVar("rMin", -5, 5));
        problem.length = S(sx::inVar("length", 0.25, 4));
        problem.alpha = S(sx::inVar("alpha", 0.25, 4));
        problem.beta = S(sx::inVar("beta", 0.25, 4));
        problem.s.clear();
        sx::setSqrtRule(knownRoot);
    }

}

// (the pieces are made by the harness)
template<> LT::LiouvilleTransformation(const Domain<S> &domain, const Function &p, const Function &q, const Function &w)
        : m_rDomain(domain), m_p(p), m_q(q), m_w(w) {}

namespace {
    std::unique_ptr<LT> transformation() {
        return std::make_unique<LT>(Domain<S>{problem.rMin - 1, problem.rMin + problem.length + 2},
                                    [](S r) { return problem.p(r); }, [](S) { return S(0); },
                                    [](S r) { return problem.w(r); });
    }

    void checkRepresentation(const Piece &p) {
        for (int k = 0; k <= 4; ++k) {
            S t(0.25 * k);
            sx::checkEq("C25.p", p.p(t), problem.p(problem.rMin + t * problem.length), 1e-9);
            sx::checkEq("C25.w", p.w(t), problem.w(problem.rMin + t * problem.length), 1e-8);
        }
    }
}

HARNESS(piece_map, "C25", "quick=10 thorough=60 crash=C25") {
    int degree = sx::inChoose("degree", 0, 4);
    start(degree);
    for (int k = 0; k <= degree; ++k) problem.s.push_back(k ? S(sx::inVar(sxn("s", k), -0.05, 0.05)) : S(1));
    auto lt = transformation();
    sx::note("a piece anywhere, p of degree up to 8, w/p the square of an arbitrary polynomial, w of degree up to 8");
    // the product in terms of the transformed variable is not needed here
    sx::setLiteral(1e-15, 2);
    Piece p(*lt, {problem.rMin, problem.rMin + problem.length});
    sx::reach("piece");
    checkRepresentation(p);
    sx::checkEq("C25.map-at-the-start", p.r2x(S(0)), p.x.min, 1e-9);
    sx::checkEq("C25.map-at-the-end", p.r2x(S(1)), p.x.max, 1e-9);
    for (int k = 1; k <= 4; ++k) {
        S t(0.25 * k), v(0);
        for (int i = degree; i >= 0; --i) v = (v + problem.s[i] / (i + 1)) * t;
        sx::checkEq("C25.map", p.r2x(t), p.x.min + v * problem.beta * problem.length, 1e-9);
    }
}

HARNESS(piece_product, "C25", "quick=10 thorough=60 crash=C25") {
    start(0);
    problem.s.push_back(S(1));
    // the map is linear, or t + t^2/2
    bool curved = problem.shape == 0 && sx::inBool("curved");
    if (curved) problem.s.push_back(S(1));
    sx::setSqrtRule([](const sx::V &a, sx::V &r) {
        // a multiple of beta^2
        double c;
        if (!sx::isConst((S(a) / (problem.beta * problem.beta)).v, &c) || c < 0) return false;
        r = (S(sx::V{std::sqrt(c), nullptr}) * problem.beta).v;
        return true;
    });
    auto lt = transformation();
    sx::note("the product p*w in the transformed variable: a piece anywhere, p of degree up to 5 (p*w of degree up to 10), w a multiple of p, or p constant and a quadratic map");
    if (2 * degrees[problem.shape] > 10) sx::discard("degree");
    Piece p(*lt, {problem.rMin, problem.rMin + problem.length});
    sx::reach("piece");
    checkRepresentation(p);
    for (int k = 0; k <= 8; ++k) {
        // (curved: s^2 = 1 + 2 u, where u is between 0 and 3/2)
        S t(0.125 * k), r = problem.rMin + t * problem.length;
        if (curved) {
            S v = problem.alpha * problem.beta;
            sx::checkEq("C25.product", p.pwx(t), v * v * (1 + 3 * t), 1e-7);
            continue;
        }
        sx::checkEq("C25.product", p.pwx(t), problem.p(r) * problem.w(r), 1e-7);
    }
}
