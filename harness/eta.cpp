// The functions xi = eta[0], eta_0 = eta[1], eta_1 = eta[2], ... for every argument.
// sx: tags 1
// sx: skip matscs liouville matslise util
// sx: libs -Wl,--unresolved-symbols=ignore-all
#include "sx_repo.h"
#include "util/calculateEta.h"
#include "util.h"

typedef sx::SymT<1> S;

namespace {

    S coefficient(int i, int q) {
        S r(1);
        if (i == 0) {
            for (int k = 2; k <= 2 * q; ++k) r = r / S(k);
            return r;
        }
        for (int k = 1; k < i; ++k) r = r * S(2);
        for (int k = q + 1; k <= q + i - 1; ++k) r = r * S(k);
        for (int k = 2; k <= 2 * q + 2 * i - 1; ++k) r = r / S(k);
        return r;
    }

    const int orders = 75;
    std::vector<std::vector<S>> table; // table[i][q]

    void prepare(int n) {
        if ((int) table.size() >= n) return;
        for (int i = (int) table.size(); i < n; ++i) {
            std::vector<S> row;
            for (int q = 0; q < orders; ++q) row.push_back(coefficient(i, q));
            table.push_back(row);
        }
    }

    long double exact(int i, long double z) {
        long double t = 1, s = 0;
        for (int k = 1; k <= i; ++k) t /= 2 * k - 1; // eta[i](0) = 1 / (2i-1)!!
        for (int q = 0; q < 400; ++q) {
            s += t;
            t *= z / (2 * (q + 1)) / (2 * (q + i) + 1);
        }
        return s;
    }

    // f = sum_q f_q Z^q close to the exact series for |Z| <= bound: the powers of Z / bound are relaxed to
    // independent values in [-1, 1]
    void closeTo(const std::string &label, const S &f, int i, const S &Z, int bound) {
        double size = 1;
        for (int k = 1; k <= i; ++k) size /= 2 * k - 1;
        if (!sx::symbolic()) {
            long double e = exact(i, Z.v.d), d = f.v.d;
            // the size of the terms that may cancel for negative arguments
            long double scale = exact(i, std::abs((long double) Z.v.d));
            sx::checkC(label, sx::cBool(std::abs(d - e) <= 1e-9L * scale));
            return;
        }
        std::vector<sx::V> rest;
        for (int q = 0; q < orders; ++q) rest.push_back((S(0) - table[i][q]).v);
        sx::forTerms(f.v, [&](const sx::V &c, const std::vector<std::pair<std::string, int>> &m) {
            int e = 0;
            for (auto &x: m) e += x.second;
            while ((int) rest.size() <= e) rest.push_back(S(0).v);
            rest[e] = (S(rest[e]) + S(c)).v;
        });
        S relaxed(rest[0]), power(1);
        for (int e = 1; e < (int) rest.size(); ++e) {
            power = power * S(bound);
            relaxed = relaxed + S(rest[e]) * power * S(sx::inVar(sxn("power", e), -1, 1));
        }
        sx::checkEq(label, relaxed, S(0), 1e-10 * size);
    }

    template<int n> void oneArgument() {
        S Z(sx::inVar("Z", -2000, 2000));
        bool small = sx::branch(lt(Z, S(100)) && lt(S(-100), Z));
        auto eta = calculateEta<S, n>(Z);
        sx::setMaxTerms(100000);
        sx::note("any argument in [-2000, 2000], 2, 5, 6, 9, 10 or 12 functions");
        if (small) {
            prepare(n);
            int bound = 100;
            if (sx::symbolic()) {
                for (int b: {1, 4, 16, 36, 64})
                    if (sx::branch(le(Z, S(b)) && le(S(-b), Z))) {
                        bound = b;
                        break;
                    }
            }
            for (int i = 0; i < n; ++i) closeTo("C10.value", eta[i], i, Z, bound);
            sx::reach("small argument");
        } else {
            bool positive = sx::branch(lt(S(0), Z));
            S s = positive ? sqrt(Z) : sqrt(-Z);
            if (sx::symbolic()) {
                sx::checkEq("C10.xi", eta[0], positive ? cosh(s) : cos(s));
                sx::checkEq("C10.eta0", eta[1] * s, positive ? sinh(s) : sin(s));
            } else {
                long double z = sqrtl(std::abs((long double) Z.v.d));
                long double c = positive ? coshl(z) : cosl(z), d = (positive ? sinhl(z) : sinl(z)) / z;
                sx::checkC("C10.xi", sx::cBool(std::abs(eta[0].v.d - c) <= 1e-9L * (1 + std::abs(c))));
                sx::checkC("C10.eta0", sx::cBool(std::abs(eta[1].v.d - d) <= 1e-9L * (1 + std::abs(c)) / z));
            }
            sx::reach(positive ? "large positive argument" : "large negative argument");
        }
        for (int i = 2; i < n; ++i)
            sx::checkEq("C10.recurrence", Z * eta[i], eta[i - 2] - S(2 * i - 3) * eta[i - 1]);
    }
}

HARNESS(eta_value, "C10", "quick=20 thorough=200 crash=C10") {
    switch (sx::inChoose("functions", 0, sx::tier() ? 5 : 1)) {
        case 0: return oneArgument<9>();
        case 1: return oneArgument<2>();
        case 2: return oneArgument<10>();
        case 3: return oneArgument<5>();
        case 4: return oneArgument<6>();
        default: return oneArgument<12>();
    }
}

namespace {
    template<int n> void list() {
        int count = sx::inChoose("length", 0, 3);
        Eigen::Array<S, Eigen::Dynamic, 1> Z(count);
        for (int i = 0; i < count; ++i) {
            int kind = sx::inChoose(sxn("kind", i), 0, 2);
            Z[i] = kind == 0 ? S(sx::inVar(sxn("Z", i), -0.9, 0.9)) : kind == 1 ? S(sx::inVar(sxn("Z", i), 101, 1000))
                                                                           : S(sx::inVar(sxn("Z", i), -1000, -101));
        }
        auto eta = calculateEta<S, n>(Z);
        bool size = eta.rows() == n && eta.cols() == count;
        sx::checkC("C10.list-size", sx::cBool(size));
        if (!size) return;
        for (int i = 0; i < count; ++i) {
            auto one = calculateEta<S, n>(Z[i]);
            for (int k = 0; k < n; ++k) sx::checkEq("C10.list", eta(k, i), one[k]);
        }
        sx::reach("list");
        sx::note("lists of up to three arguments");
    }
}

HARNESS(eta_list, "C10", "quick=15 thorough=100 crash=C10") {
    if (sx::inBool("many")) list<6>();
    else list<2>();
}
