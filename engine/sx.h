// Symbolic scalar: the real templates of the library are instantiated with sx::Sym and executed
// symbolically (path by path) or, for the replay of a counterexample, with native doubles.
#ifndef SX_H
#define SX_H
#include <cmath>
#include <cstdint>
#include <functional>
#include <iosfwd>
#include <limits>
#include <stdexcept>
#include <string>
#include <vector>

namespace sx {
    struct Poly;

    // mode -----------------------------------------------------------------------------------------
    extern int g_mode; // -1 unknown, 0 concrete, 1 symbolic
    void initMode();

    inline bool symbolic() {
        if (__builtin_expect(g_mode < 0, 0)) initMode();
        return g_mode == 1;
    }

    // values ---------------------------------------------------------------------------------------
    struct V {
        double d;
        const Poly *p; // nullptr: the constant d
    };

    V vLiteral(double d);       // a literal of the program: pi-multiples become exact, rescaling hook
    V vRational(const char *s); // exact rational "p/q"
    V vAdd(const V &, const V &);
    V vSub(const V &, const V &);
    V vMul(const V &, const V &);
    V vDiv(const V &, const V &);
    V vNeg(const V &);
    V vSqrt(const V &);
    V vAbs(const V &);
    V vSin(const V &);
    V vCos(const V &);
    V vTan(const V &);
    V vCosh(const V &);
    V vSinh(const V &);
    V vExp(const V &);
    V vLog(const V &);
    V vAtan(const V &);
    V vAtan2(const V &, const V &);
    V vPow(const V &, const V &);
    V vFloor(const V &);
    V vCeil(const V &);
    V vRound(const V &);
    long vToInt(const V &); // truncation
    double vToDouble(const V &);
    bool vIsNan(const V &);
    bool vIsInf(const V &);
    enum Rel { LT, LE, EQ, NE };
    bool vCmp(Rel, const V &, const V &); // branches in symbolic mode
    void vPrint(std::ostream &, const V &);
    std::string vStr(const V &);

    // conditions (no branching) ---------------------------------------------------------------------
    struct Cond {
        bool c;
        void *e; // Z3_ast or nullptr (constant c)
        double slack; // concrete mode: by how much the comparison was violated (0 if it holds)
    };
    Cond cRel(Rel, const V &, const V &);
    Cond cAnd(const Cond &, const Cond &);
    Cond cOr(const Cond &, const Cond &);
    Cond cNot(const Cond &);
    Cond cBool(bool);
    inline Cond cImplies(const Cond &a, const Cond &b) { return cOr(cNot(a), b); }
    inline Cond cIff(const Cond &a, const Cond &b) { return cAnd(cImplies(a, b), cImplies(b, a)); }
    V vIte(const Cond &, const V &, const V &);
    inline Cond operator&&(const Cond &a, const Cond &b) { return cAnd(a, b); }
    inline Cond operator||(const Cond &a, const Cond &b) { return cOr(a, b); }
    inline Cond operator!(const Cond &a) { return cNot(a); }

    // environment of a harness ----------------------------------------------------------------------
    V inVar(const std::string &name, double lo, double hi);      // an input in [lo, hi]
    V inVarFree(const std::string &name);                        // an unbounded input
    bool hasInput(const std::string &name);                      // native replay: the counterexample names this input
    int inChoose(const std::string &name, int lo, int hi);       // an input, enumerated by forking
    bool inBool(const std::string &name);
    V vUF(const std::string &name, const std::vector<V> &args, double lo, double hi); // uninterpreted function
    bool branch(const Cond &);
    void assumeC(const Cond &);
    void checkC(const std::string &label, const Cond &);
    void checkExactC(const std::string &label, const Cond &); // no allowance for rounding in the native replay
    extern bool rounding;     // the arithmetic of the code rounds to nearest (binary64)
    void setRounding(bool);
    V vRounded(const V &);
    inline V rr(const V &v) { return __builtin_expect(rounding, 0) ? vRounded(v) : v; }
    void checkEqV(const std::string &label, const V &a, const V &b, double tol = 0, double ctol = 1e-7);
    void reach(const std::string &label);
    void note(const std::string &text);
    void fail(const std::string &label, const std::string &why); // an unconditional violation on this path
    void discard(const std::string &why);                        // path outside the claim
    // a fresh value constrained by axioms (added whenever the value is used)
    V freshDef(const std::string &name, std::function<Cond(const V &)> axiom, double concrete);
    bool isConst(const V &, double *out = nullptr);
    inline bool sameV(const V &a, const V &b) { return a.p == b.p && (a.p || a.d == b.d); } // same normal form
    V derivative(const V &, const std::string &wrt, const std::function<bool(const std::string &, V &)> &atomRule);
    V substitute(const V &, const std::function<bool(const std::string &, V &)> &atomRule);
    // on this path the direction (c, s), or its opposite, has this angle (or this angle plus pi)
    void registerAngle(const V &c, const V &s, const V &angle);
    // on this path this polynomial is positive (a fact the harness knows)
    void knownPositive(const V &);
    V atomNamed(const std::string &name); // interned plain symbol without bounds
    // terms of a polynomial: calls f(coefficient, vector of (atom name, exponent))
    void forTerms(const V &, const std::function<void(const V &coef, const std::vector<std::pair<std::string, int>> &)> &f);
    // rewrites every monomial: the exponents of the named atoms -> a combination of such exponents
    V mapMonomials(const V &, const std::vector<std::string> &names,
                   const std::function<std::vector<std::pair<double, std::vector<int>>>(const std::vector<int> &)> &f);
    size_t termCount(const V &);
    void setMaxTerms(size_t n);
    void setLiteral(double from, double to); // rescale a tolerance literal in symbolic mode
    // the harness knows the value of some square roots (symbolic execution only)
    void setSqrtRule(std::function<bool(const V &a, V &root)> rule);
    void setDivZeroViolates(bool);
    void setSqrtNegViolates(bool);
    void setBudget(long branches, long ops);
    void setBudgetViolates(bool); // running out of budget is a (termination) violation candidate
    void setCheckTimeout(unsigned ms);
    int tier(); // 0 quick, 1 thorough
    const std::string &detail(); // extra detail attached to the next violation
    void setDetail(const std::string &);

    struct PathEnd {
        std::string why;
        int kind; // 0 discarded, 1 infeasible, 2 budget, 3 aborted after violation
    };
    struct EngineAssert : std::runtime_error {
        using std::runtime_error::runtime_error;
    };
    [[noreturn]] void assertionFailed(const char *what, const char *file, int line);

    struct HarnessReg {
        HarnessReg(const char *name, void (*f)(), const char *props, const char *opts);
    };

    int runMain(int argc, char **argv);

    // the scalar ------------------------------------------------------------------------------------
    template<int Tag>
    struct SymT {
        V v;

        SymT() : v{0., nullptr} {}
        SymT(const V &v_) : v(v_) {}
        SymT(double d) : v(vLiteral(d)) {}
        SymT(float d) : v(vLiteral(d)) {}
        SymT(long double d) : v(vLiteral((double) d)) {}
        SymT(int i) : v{(double) i, nullptr} {}
        SymT(unsigned i) : v{(double) i, nullptr} {}
        SymT(long i) : v{(double) i, nullptr} {}
        SymT(unsigned long i) : v{(double) i, nullptr} {}
        SymT(long long i) : v{(double) i, nullptr} {}
        SymT(unsigned long long i) : v{(double) i, nullptr} {}

        explicit operator int() const { return (int) vToInt(v); }
        explicit operator long() const { return vToInt(v); }
        explicit operator long long() const { return vToInt(v); }
        explicit operator double() const { return vToDouble(v); }
        explicit operator bool() const { return vCmp(NE, v, V{0., nullptr}); }

        SymT operator-() const { return vNeg(v); }
        SymT operator+() const { return *this; }
        SymT &operator+=(const SymT &o) { v = rr(vAdd(v, o.v)); return *this; }
        SymT &operator-=(const SymT &o) { v = rr(vSub(v, o.v)); return *this; }
        SymT &operator*=(const SymT &o) { v = rr(vMul(v, o.v)); return *this; }
        SymT &operator/=(const SymT &o) { v = rr(vDiv(v, o.v)); return *this; }
        friend SymT operator+(const SymT &a, const SymT &b) { return rr(vAdd(a.v, b.v)); }
        friend SymT operator-(const SymT &a, const SymT &b) { return rr(vSub(a.v, b.v)); }
        friend SymT operator*(const SymT &a, const SymT &b) { return rr(vMul(a.v, b.v)); }
        friend SymT operator/(const SymT &a, const SymT &b) { return rr(vDiv(a.v, b.v)); }
        friend bool operator<(const SymT &a, const SymT &b) { return vCmp(LT, a.v, b.v); }
        friend bool operator<=(const SymT &a, const SymT &b) { return vCmp(LE, a.v, b.v); }
        friend bool operator>(const SymT &a, const SymT &b) { return vCmp(LT, b.v, a.v); }
        friend bool operator>=(const SymT &a, const SymT &b) { return vCmp(LE, b.v, a.v); }
        friend bool operator==(const SymT &a, const SymT &b) { return vCmp(EQ, a.v, b.v); }
        friend bool operator!=(const SymT &a, const SymT &b) { return vCmp(NE, a.v, b.v); }
        friend SymT sqrt(const SymT &a) { return vSqrt(a.v); }
        friend SymT abs(const SymT &a) { return vAbs(a.v); }
        friend SymT fabs(const SymT &a) { return vAbs(a.v); }
        friend SymT sin(const SymT &a) { return vSin(a.v); }
        friend SymT cos(const SymT &a) { return vCos(a.v); }
        friend SymT tan(const SymT &a) { return vTan(a.v); }
        friend SymT sinh(const SymT &a) { return vSinh(a.v); }
        friend SymT cosh(const SymT &a) { return vCosh(a.v); }
        friend SymT exp(const SymT &a) { return vExp(a.v); }
        friend SymT log(const SymT &a) { return vLog(a.v); }
        friend SymT atan(const SymT &a) { return vAtan(a.v); }
        friend SymT atan2(const SymT &a, const SymT &b) { return vAtan2(a.v, b.v); }
        friend SymT pow(const SymT &a, const SymT &b) { return vPow(a.v, b.v); }
        friend SymT floor(const SymT &a) { return vFloor(a.v); }
        friend SymT ceil(const SymT &a) { return vCeil(a.v); }
        friend SymT round(const SymT &a) { return vRound(a.v); }
        friend SymT hypot(const SymT &a, const SymT &b) { return vSqrt(vAdd(vMul(a.v, a.v), vMul(b.v, b.v))); }
        friend SymT fmod(const SymT &a, const SymT &b) {
            SymT q = a / b;
            return a - b * (q < SymT(0) ? vCeil(q.v) : vFloor(q.v));
        }
        friend SymT copysign(const SymT &a, const SymT &b) {
            return b < SymT(0) ? vNeg(vAbs(a.v)) : vAbs(a.v);
        }
        friend SymT fmin(const SymT &a, const SymT &b) { return b < a ? b : a; }
        friend SymT fmax(const SymT &a, const SymT &b) { return a < b ? b : a; }
        friend bool isnan(const SymT &a) { return vIsNan(a.v); }
        friend bool isinf(const SymT &a) { return vIsInf(a.v); }
        friend bool isfinite(const SymT &a) { return !vIsNan(a.v) && !vIsInf(a.v); }
        friend bool signbit(const SymT &a) { return a < SymT(0); }
        friend SymT abs2(const SymT &a) { return vMul(a.v, a.v); }
        friend const SymT &conj(const SymT &a) { return a; }
        friend const SymT &real(const SymT &a) { return a; }
        friend SymT imag(const SymT &) { return SymT(0); }
        friend std::ostream &operator<<(std::ostream &os, const SymT &a) { vPrint(os, a.v); return os; }
    };

    // conditions for specifications (never branch)
    template<int T> Cond lt(const SymT<T> &a, const SymT<T> &b) { return cRel(LT, a.v, b.v); }
    template<int T> Cond le(const SymT<T> &a, const SymT<T> &b) { return cRel(LE, a.v, b.v); }
    template<int T> Cond gt(const SymT<T> &a, const SymT<T> &b) { return cRel(LT, b.v, a.v); }
    template<int T> Cond ge(const SymT<T> &a, const SymT<T> &b) { return cRel(LE, b.v, a.v); }
    template<int T> Cond eq(const SymT<T> &a, const SymT<T> &b) { return cRel(EQ, a.v, b.v); }
    template<int T> Cond ne(const SymT<T> &a, const SymT<T> &b) { return cRel(NE, a.v, b.v); }
    template<int T> SymT<T> ite(const Cond &c, const SymT<T> &a, const SymT<T> &b) { return vIte(c, a.v, b.v); }
    template<int T> void checkEq(const std::string &l, const SymT<T> &a, const SymT<T> &b, double tol = 0, double ctol = 1e-7) {
        checkEqV(l, a.v, b.v, tol, ctol);
    }
}

namespace std {
    template<int Tag>
    class numeric_limits<sx::SymT<Tag>> {
    public:
        typedef sx::SymT<Tag> S;
        static constexpr bool is_specialized = true;
        static constexpr bool is_signed = true, is_integer = false, is_exact = false;
        static constexpr bool has_infinity = true, has_quiet_NaN = true, has_signaling_NaN = false;
        static constexpr bool is_iec559 = false, is_bounded = true, is_modulo = false;
        static constexpr int digits = 53, digits10 = 15, max_digits10 = 17, radix = 2;
        static constexpr int min_exponent = -1021, max_exponent = 1024, min_exponent10 = -307, max_exponent10 = 308;
        static S min() { return S(numeric_limits<double>::min()); }
        static S max() { return S(1e300); }
        static S lowest() { return S(-1e300); }
        static S epsilon() { return S(numeric_limits<double>::epsilon()); }
        static S round_error() { return S(.5); }
        static S infinity() { return sx::symbolic() ? S(1e300) : S(numeric_limits<double>::infinity()); }
        static S quiet_NaN() { return sx::symbolic() ? S(1e300) : S(numeric_limits<double>::quiet_NaN()); }
        static S denorm_min() { return S(numeric_limits<double>::min()); }
    };
}

#define SX_CAT_(a, b) a##b
#define SX_CAT(a, b) SX_CAT_(a, b)
#define HARNESS(name, props, opts) \
    static void harness_##name(); \
    static sx::HarnessReg reg_##name(#name, &harness_##name, props, opts); \
    static void harness_##name()
#endif
