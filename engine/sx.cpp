#include "sx.h"
#include <gmpxx.h>
#include <z3++.h>
#include <algorithm>
#include <chrono>
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <sstream>
#include <unordered_map>
#include <unordered_set>

namespace sx {
    typedef mpq_class Q;
    using z3::expr;

    int g_mode = -1;

    void initMode() {
        const char *m = getenv("SX_MODE");
        g_mode = m && !strcmp(m, "concrete") ? 0 : 1;
    }

    // ================================================================== atoms, monomials, polynomials
    enum Kind { VAR, PI_, SQRT, ABS, SIN, COS, TAN, COSH, SINH, EXP, LOG, ATAN2, POW, DEF, UF, PLAIN, RND };

    struct Atom {
        Kind kind;
        std::string name;
        std::vector<V> args;
        bool positive = false, nonneg = false;
        Z3_ast z = nullptr;
        double lo = 0, hi = 0; // VAR / UF
        bool bounded = false;
    };

    struct Term {
        int m;
        Q c;
    };

    struct Poly {
        std::vector<Term> t;
        size_t hash;
        int id;
        mutable Z3_ast z = nullptr;
        mutable std::vector<int> *atoms = nullptr;
    };

    struct Mono {
        std::vector<std::pair<int, int>> f;
        Z3_ast z = nullptr;
    };

    struct Global {
        z3::context ctx;
        std::deque<Atom> atoms;
        std::map<std::string, int> atomIndex;
        std::deque<Mono> monos;
        std::map<std::vector<std::pair<int, int>>, int> monoIndex;
        std::unordered_map<size_t, std::vector<Poly *>> polys;
        int polyCount = 0;
        struct MM { int m; const Poly *p; };
        std::unordered_map<uint64_t, MM> mmCache;
        size_t maxTerms = 20000;
        std::map<double, double> literals;
        bool divZeroViolates = false, sqrtNegViolates = true;

        Global() {
            monos.push_back({});
            monoIndex[{}] = 0;
        }
    };

    static Global &G() {
        static Global *g = new Global();
        return *g;
    }

    static void opTick();

    static size_t hashQ(const Q &q) {
        size_t h = mpz_get_ui(q.get_num_mpz_t()) * 0x9E3779B97F4A7C15ull;
        h ^= mpz_get_ui(q.get_den_mpz_t()) * 0xC2B2AE3D27D4EB4Full + (h << 6) + (h >> 2);
        h ^= (size_t) (sgn(q) + 2) * 0x165667B19E3779F9ull;
        return h;
    }

    static const Poly *intern(std::vector<Term> &&t) {
        size_t h = 1469598103934665603ull;
        for (auto &x: t) h = (h ^ (size_t) x.m) * 1099511628211ull ^ hashQ(x.c);
        auto &bucket = G().polys[h];
        for (Poly *p: bucket) {
            if (p->t.size() != t.size()) continue;
            bool same = true;
            for (size_t i = 0; i < t.size() && same; ++i) same = p->t[i].m == t[i].m && p->t[i].c == t[i].c;
            if (same) return p;
        }
        Poly *p = new Poly();
        p->t = std::move(t);
        p->hash = h;
        p->id = G().polyCount++;
        bucket.push_back(p);
        return p;
    }

    static int internMono(const std::vector<std::pair<int, int>> &f) {
        auto it = G().monoIndex.find(f);
        if (it != G().monoIndex.end()) return it->second;
        int id = (int) G().monos.size();
        G().monos.push_back({f});
        G().monoIndex[f] = id;
        return id;
    }

    static bool qIsDouble(const Q &q, double &d) {
        d = q.get_d();
        if (!std::isfinite(d)) return false;
        return Q(d) == q;
    }

    static V fromTerms(std::vector<Term> &&t) {
        if (t.empty()) return V{0., nullptr};
        if (t.size() == 1 && t[0].m == 0) {
            double d;
            if (qIsDouble(t[0].c, d)) return V{d, nullptr};
        }
        return V{0., intern(std::move(t))};
    }

    static V fromQ(const Q &q) {
        double d;
        if (qIsDouble(q, d)) return V{d, nullptr};
        std::vector<Term> t;
        t.push_back({0, q});
        return V{0., intern(std::move(t))};
    }

    static V atomV(int a, int e = 1) {
        std::vector<Term> t;
        t.push_back({internMono({{a, e}}), Q(1)});
        return V{0., intern(std::move(t))};
    }

    static const std::vector<Term> &terms(const V &v, std::vector<Term> &buf) {
        if (v.p) return v.p->t;
        buf.clear();
        if (v.d != 0) buf.push_back({0, Q(v.d)});
        return buf;
    }

    static bool constQ(const V &v, Q &q) {
        if (!v.p) {
            q = Q(v.d);
            return true;
        }
        if (v.p->t.size() == 1 && v.p->t[0].m == 0) {
            q = v.p->t[0].c;
            return true;
        }
        return false;
    }

    bool isConst(const V &v, double *out) {
        if (!v.p) {
            if (out) *out = v.d;
            return true;
        }
        Q q;
        if (constQ(v, q)) {
            if (out) *out = q.get_d();
            return true;
        }
        return false;
    }

    static int getAtom(Kind k, const std::string &name, const std::vector<V> &args, const std::string &more = "") {
        std::string key = std::to_string((int) k) + ":" + name + more;
        for (auto &a: args) {
            if (a.p) key += "|p" + std::to_string(a.p->id);
            else {
                char b[40];
                snprintf(b, sizeof b, "|%.17g", a.d);
                key += b;
            }
        }
        auto it = G().atomIndex.find(key);
        if (it != G().atomIndex.end()) return it->second;
        int id = (int) G().atoms.size();
        G().atoms.push_back({});
        Atom &a = G().atoms.back();
        a.kind = k;
        a.name = name;
        a.args = args;
        a.positive = k == PI_ || k == COSH || k == EXP;
        a.nonneg = a.positive || k == SQRT || k == ABS;
        std::string zn = name.empty() ? "t" : name;
        zn += "!" + std::to_string(id);
        expr e = G().ctx.real_const(zn.c_str());
        a.z = (Z3_ast) e;
        Z3_inc_ref(G().ctx, a.z);
        G().atomIndex[key] = id;
        return id;
    }

    static int piAtom() {
        static int a = getAtom(PI_, "pi", {});
        return a;
    }

    // -------------------------------------------------------------------------------- arithmetic
    static void addInto(std::vector<Term> &r, const std::vector<Term> &a, const std::vector<Term> &b, int sgnB) {
        size_t i = 0, j = 0;
        r.reserve(a.size() + b.size());
        while (i < a.size() || j < b.size()) {
            if (j == b.size() || (i < a.size() && a[i].m < b[j].m)) r.push_back(a[i++]);
            else if (i == a.size() || b[j].m < a[i].m) {
                r.push_back({b[j].m, sgnB > 0 ? b[j].c : Q(-b[j].c)});
                ++j;
            } else {
                Q c = sgnB > 0 ? Q(a[i].c + b[j].c) : Q(a[i].c - b[j].c);
                if (c != 0) r.push_back({a[i].m, c});
                ++i;
                ++j;
            }
        }
    }

    static V capped(std::vector<Term> &&t);

    static bool exactAdd(double a, double b, double &r) {
        r = a + b;
        if (!std::isfinite(r)) return false;
        double bb = r - a;
        double err = (a - (r - bb)) + (b - bb);
        return err == 0;
    }

    static bool exactMul(double a, double b, double &r) {
        r = a * b;
        if (!std::isfinite(r)) return false;
        if (r == 0) return a == 0 || b == 0;
        if (std::fabs(r) < 1e-250) return false;
        return std::fma(a, b, -r) == 0;
    }

    V vNeg(const V &a) {
        if (!a.p) return V{a.d == 0 && symbolic() ? 0. : -a.d, nullptr};
        std::vector<Term> r = a.p->t;
        for (auto &x: r) x.c = -x.c;
        return fromTerms(std::move(r));
    }

    V vAdd(const V &a, const V &b) {
        if (!symbolic()) {
            opTick();
            return V{a.d + b.d, nullptr};
        }
        if (!a.p && !b.p) {
            double r;
            if (exactAdd(a.d, b.d, r)) return V{r, nullptr};
            return fromQ(Q(a.d) + Q(b.d));
        }
        if (!a.p && a.d == 0) return b;
        if (!b.p && b.d == 0) return a;
        opTick();
        std::vector<Term> ba, bb, r;
        addInto(r, terms(a, ba), terms(b, bb), 1);
        return capped(std::move(r));
    }

    V vSub(const V &a, const V &b) {
        if (!symbolic()) {
            opTick();
            return V{a.d - b.d, nullptr};
        }
        if (!a.p && !b.p) {
            double r;
            if (exactAdd(a.d, -b.d, r)) return V{r, nullptr};
            return fromQ(Q(a.d) - Q(b.d));
        }
        if (!b.p && b.d == 0) return a;
        if (a.p && a.p == b.p) return V{0., nullptr};
        opTick();
        std::vector<Term> ba, bb, r;
        addInto(r, terms(a, ba), terms(b, bb), -1);
        return capped(std::move(r));
    }

    static V scale(const V &a, const Q &q) {
        if (q == 0) return V{0., nullptr};
        std::vector<Term> ba, r = terms(a, ba);
        for (auto &x: r) x.c *= q;
        return fromTerms(std::move(r));
    }

    static V mulRaw(const V &a, const V &b);

    static V vPowInt(const V &a, int e) {
        V r{1., nullptr};
        for (int i = 0; i < e; ++i) r = mulRaw(r, a);
        return r;
    }

    static Global::MM monoMul(int a, int b) {
        if (a == 0) return {b, nullptr};
        if (b == 0) return {a, nullptr};
        if (a > b) std::swap(a, b);
        uint64_t key = ((uint64_t) a << 32) | (uint32_t) b;
        auto it = G().mmCache.find(key);
        if (it != G().mmCache.end()) return it->second;
        const auto fa = G().monos[a].f;
        const auto fb = G().monos[b].f;
        std::vector<std::pair<int, int>> f;
        size_t i = 0, j = 0;
        bool reduce = false;
        while (i < fa.size() || j < fb.size()) {
            if (j == fb.size() || (i < fa.size() && fa[i].first < fb[j].first)) f.push_back(fa[i++]);
            else if (i == fa.size() || fb[j].first < fa[i].first) f.push_back(fb[j++]);
            else {
                int e = fa[i].second + fb[j].second;
                if (e) {
                    f.push_back({fa[i].first, e});
                    Kind k = G().atoms[fa[i].first].kind;
                    if (e >= 2 && (k == SQRT || k == SIN || k == SINH)) reduce = true;
                }
                ++i;
                ++j;
            }
        }
        Global::MM r{0, nullptr};
        if (!reduce) r.m = internMono(f);
        else {
            V extra{1., nullptr};
            std::vector<std::pair<int, int>> g;
            for (auto &x: f) {
                Kind k = G().atoms[x.first].kind;
                if (x.second >= 2 && (k == SQRT || k == SIN || k == SINH)) {
                    if (x.second % 2) g.push_back({x.first, 1});
                    V base;
                    const V &arg = G().atoms[x.first].args[0];
                    if (k == SQRT) base = arg;
                    else if (k == SIN) {
                        V c = atomV(getAtom(COS, "cos", {arg}));
                        base = vSub(V{1., nullptr}, mulRaw(c, c));
                    } else {
                        V c = atomV(getAtom(COSH, "cosh", {arg}));
                        base = vSub(mulRaw(c, c), V{1., nullptr});
                    }
                    extra = mulRaw(extra, vPowInt(base, x.second / 2));
                } else g.push_back(x);
            }
            std::vector<Term> t;
            t.push_back({internMono(g), Q(1)});
            V res = mulRaw(V{0., intern(std::move(t))}, extra);
            if (res.p) r.p = res.p;
            else {
                std::vector<Term> tt;
                if (res.d != 0) tt.push_back({0, Q(res.d)});
                r.p = intern(std::move(tt));
            }
        }
        G().mmCache[key] = r;
        return r;
    }

    static V mulRaw(const V &a, const V &b) {
        Q q;
        if (constQ(a, q)) return scale(b, q);
        if (constQ(b, q)) return scale(a, q);
        const auto &ta = a.p->t, &tb = b.p->t;
        if (ta.size() == 1 && tb.size() == 1) {
            auto mm = monoMul(ta[0].m, tb[0].m);
            std::vector<Term> r;
            if (!mm.p) r.push_back({mm.m, ta[0].c * tb[0].c});
            else {
                r = mm.p->t;
                Q c = ta[0].c * tb[0].c;
                for (auto &x: r) x.c *= c;
            }
            return fromTerms(std::move(r));
        }
        std::unordered_map<int, Q> acc;
        acc.reserve(ta.size() * tb.size());
        for (auto &x: ta)
            for (auto &y: tb) {
                auto mm = monoMul(x.m, y.m);
                Q c = x.c * y.c;
                if (!mm.p) acc[mm.m] += c;
                else for (auto &z: mm.p->t) acc[z.m] += c * z.c;
            }
        std::vector<Term> r;
        r.reserve(acc.size());
        for (auto &x: acc) if (x.second != 0) r.push_back({x.first, x.second});
        std::sort(r.begin(), r.end(), [](const Term &u, const Term &v) { return u.m < v.m; });
        return capped(std::move(r));
    }

    static V defAtom(const V &p) {
        return atomV(getAtom(DEF, "def", {p}));
    }

    static V capped(std::vector<Term> &&t) {
        if (t.size() > G().maxTerms) {
            V v = fromTerms(std::move(t));
            return defAtom(v);
        }
        return fromTerms(std::move(t));
    }

    V vMul(const V &a, const V &b) {
        if (!symbolic()) {
            opTick();
            return V{a.d * b.d, nullptr};
        }
        if (!a.p && !b.p) {
            double r;
            if (exactMul(a.d, b.d, r)) return V{r, nullptr};
            return fromQ(Q(a.d) * Q(b.d));
        }
        if (!a.p) {
            if (a.d == 0) return V{0., nullptr};
            if (a.d == 1) return b;
        }
        if (!b.p) {
            if (b.d == 0) return V{0., nullptr};
            if (b.d == 1) return a;
        }
        opTick();
        return mulRaw(a, b);
    }

    V vLiteral(double d) {
        if (!symbolic()) return V{d, nullptr};
        if (d == 0) return V{0., nullptr};
        static const double PI = 3.14159265358979323846;
        for (int k = -8; k <= 8; ++k)
            if (k && d == k * (PI / 4)) return scale(atomV(piAtom()), Q(k) / 4);
        if (!G().literals.empty()) {
            auto it = G().literals.find(d);
            if (it != G().literals.end()) return V{it->second, nullptr};
        }
        if (!std::isfinite(d)) return V{d > 0 ? 1e300 : -1e300, nullptr};
        return V{d, nullptr};
    }

    V vRational(const char *s) {
        Q q(s);
        q.canonicalize();
        if (!symbolic()) return V{q.get_d(), nullptr};
        return fromQ(q);
    }

    V atomNamed(const std::string &name) { return atomV(getAtom(PLAIN, name, {})); }

    size_t termCount(const V &v) {
        std::vector<Term> b;
        return terms(v, b).size();
    }

    void forTerms(const V &v,
                  const std::function<void(const V &, const std::vector<std::pair<std::string, int>> &)> &f) {
        std::vector<Term> b;
        for (auto &t: terms(v, b)) {
            std::vector<std::pair<std::string, int>> m;
            for (auto &x: G().monos[t.m].f) m.push_back({G().atoms[x.first].name, x.second});
            f(fromQ(t.c), m);
        }
    }

    static void currentInputs(const std::function<void(int)> &f);

    V mapMonomials(const V &v, const std::vector<std::string> &names,
                   const std::function<std::vector<std::pair<double, std::vector<int>>>(const std::vector<int> &)> &f) {
        std::map<std::string, int> at;
        currentInputs([&](int i) { at.emplace(G().atoms[i].name, i); });
        for (size_t i = 0; i < G().atoms.size(); ++i) at.emplace(G().atoms[i].name, (int) i);
        std::map<int, int> slot;
        std::vector<int> ids(names.size(), -1);
        for (size_t i = 0; i < names.size(); ++i) {
            auto it = at.find(names[i]);
            ids[i] = it == at.end() ? getAtom(PLAIN, names[i], {}) : it->second;
            slot[ids[i]] = (int) i;
        }
        std::map<std::vector<int>, std::vector<std::pair<double, std::vector<int>>>> cache;
        std::map<int, Q> acc;
        std::vector<Term> b;
        for (auto &t: terms(v, b)) {
            std::vector<int> e(names.size(), 0);
            std::vector<std::pair<int, int>> rest;
            for (auto &x: G().monos[t.m].f) {
                auto it = slot.find(x.first);
                if (it == slot.end()) rest.push_back(x);
                else e[it->second] = x.second;
            }
            auto c = cache.find(e);
            if (c == cache.end()) c = cache.emplace(e, f(e)).first;
            for (auto &o: c->second) {
                auto m = rest;
                for (size_t i = 0; i < ids.size(); ++i)
                    if (o.second[i]) m.push_back({ids[i], o.second[i]});
                std::sort(m.begin(), m.end());
                acc[internMono(m)] += t.c * Q(o.first);
            }
        }
        std::vector<Term> r;
        for (auto &x: acc)
            if (x.second != 0) r.push_back({x.first, x.second});
        return fromTerms(std::move(r));
    }

    V derivative(const V &v, const std::string &wrt, const std::function<bool(const std::string &, V &)> &rule) {
        std::vector<Term> b;
        V r{0., nullptr};
        std::map<int, std::pair<bool, V>> cache;
        for (auto &t: terms(v, b)) {
            const auto f = G().monos[t.m].f;
            for (size_t i = 0; i < f.size(); ++i) {
                int a = f[i].first, e = f[i].second;
                auto it = cache.find(a);
                if (it == cache.end()) {
                    V d{0., nullptr};
                    bool dep = false;
                    if (G().atoms[a].name == wrt) {
                        dep = true;
                        d = V{1., nullptr};
                    } else if (rule && rule(G().atoms[a].name, d)) dep = true;
                    it = cache.emplace(a, std::make_pair(dep, d)).first;
                }
                if (!it->second.first) continue;
                auto g = f;
                if (e == 1) g.erase(g.begin() + i);
                else g[i].second = e - 1;
                std::vector<Term> tt;
                tt.push_back({internMono(g), t.c * e});
                r = vAdd(r, mulRaw(fromTerms(std::move(tt)), it->second.second));
            }
        }
        return r;
    }

    V substitute(const V &v, const std::function<bool(const std::string &, V &)> &rule) {
        std::vector<Term> b;
        V r{0., nullptr};
        std::map<int, std::pair<bool, V>> cache;
        for (auto &t: terms(v, b)) {
            const auto f = G().monos[t.m].f;
            std::vector<std::pair<int, int>> keep;
            V m{1., nullptr};
            for (auto &x: f) {
                auto it = cache.find(x.first);
                if (it == cache.end()) {
                    V d{0., nullptr};
                    bool s = rule(G().atoms[x.first].name, d);
                    it = cache.emplace(x.first, std::make_pair(s, d)).first;
                }
                if (it->second.first && x.second > 0) m = mulRaw(m, vPowInt(it->second.second, x.second));
                else keep.push_back(x);
            }
            std::vector<Term> tt;
            tt.push_back({internMono(keep), t.c});
            r = vAdd(r, mulRaw(fromTerms(std::move(tt)), m));
        }
        return r;
    }

    // ================================================================== z3 terms
    static expr zReal(const Q &q) {
        return G().ctx.real_val(q.get_str().c_str());
    }

    static expr zMono(int m) {
        Mono &mo = G().monos[m];
        if (!mo.z) {
            expr r = G().ctx.real_val(1);
            bool first = true;
            for (auto &x: mo.f) {
                expr a(G().ctx, G().atoms[x.first].z);
                for (int i = 0; i < x.second; ++i) {
                    r = first ? a : r * a;
                    first = false;
                }
            }
            mo.z = (Z3_ast) r;
            Z3_inc_ref(G().ctx, mo.z);
        }
        return expr(G().ctx, mo.z);
    }

    static expr zPolyT(const V &v) { // no negative exponents allowed
        if (!v.p) return zReal(Q(v.d));
        if (!v.p->z) {
            z3::expr_vector s(G().ctx);
            for (auto &t: v.p->t) {
                if (t.m == 0) s.push_back(zReal(t.c));
                else if (t.c == 1) s.push_back(zMono(t.m));
                else s.push_back(zReal(t.c) * zMono(t.m));
            }
            expr r = s.size() == 1 ? s[0] : z3::sum(s);
            v.p->z = (Z3_ast) r;
            Z3_inc_ref(G().ctx, v.p->z);
        }
        return expr(G().ctx, v.p->z);
    }

    static void polyAtoms(const V &v, std::set<int> &out) {
        if (!v.p) return;
        if (!v.p->atoms) {
            std::set<int> s;
            for (auto &t: v.p->t) for (auto &x: G().monos[t.m].f) s.insert(x.first);
            v.p->atoms = new std::vector<int>(s.begin(), s.end());
        }
        out.insert(v.p->atoms->begin(), v.p->atoms->end());
    }

    // multiply by powers of atoms such that no negative exponent remains; evenPowers keeps the sign
    static V clearDen(const V &v, bool evenPowers) {
        if (!v.p) return v;
        V r = v;
        for (int round = 0; round < 20; ++round) {
            std::map<int, int> need;
            if (!r.p) return r;
            for (auto &t: r.p->t)
                for (auto &x: G().monos[t.m].f)
                    if (x.second < 0) need[x.first] = std::max(need[x.first], -x.second);
            if (need.empty()) return r;
            std::vector<std::pair<int, int>> f;
            for (auto &x: need) {
                int e = x.second;
                if (evenPowers && e % 2 && !G().atoms[x.first].positive) ++e;
                f.push_back({x.first, e});
            }
            std::vector<Term> t;
            t.push_back({internMono(f), Q(1)});
            r = mulRaw(fromTerms(std::move(t)), r);
        }
        return r;
    }

    static V expandDefs(const V &v) {
        V r = v;
        for (int round = 0; round < 20; ++round) {
            std::set<int> as;
            polyAtoms(r, as);
            int d = -1;
            for (int a: as) if (G().atoms[a].kind == DEF) d = std::max(d, a);
            if (d < 0) return r;
            // all positive exponents by construction
            std::vector<Term> b;
            V out{0., nullptr};
            const V def = G().atoms[d].args[0];
            for (auto &t: terms(r, b)) {
                int e = 0;
                std::vector<std::pair<int, int>> keep;
                for (auto &x: G().monos[t.m].f) {
                    if (x.first == d) e = x.second;
                    else keep.push_back(x);
                }
                if (e < 0) return v;
                std::vector<Term> tt;
                tt.push_back({internMono(keep), t.c});
                V m = fromTerms(std::move(tt));
                if (e) m = mulRaw(m, vPowInt(def, e));
                out = vAdd(out, m);
            }
            r = clearDen(out, false);
        }
        return r;
    }

    // ================================================================== statistics and path state
    struct LabelStat {
        long checked = 0, discharged = 0, violated = 0, unknown = 0, trivial = 0;
    };

    struct Entry {
        char k; // 'B' branch, 'I' integer, 'C' choice
        long v;
        bool taken;
    };

    struct Violation {
        std::string label, detail, why;
        std::vector<std::map<std::string, double>> models;
    };

    struct Stats {
        long paths = 0, discardedPaths = 0, budgetPaths = 0, infeasiblePaths = 0, branches = 0, queries = 0, unknown = 0,
                fallbacks = 0, crashed = 0, ops = 0;
        double solverTime = 0;
        std::map<std::string, LabelStat> labels;
        std::map<std::string, long> reached, discards, notes;
        std::vector<std::string> samples;
        std::vector<Violation> violations;
    } ST;

    struct Path {
        std::vector<Entry> trace;
        size_t pos = 0;
        std::unordered_set<int> touched;
        std::vector<expr> pc;
        std::unique_ptr<z3::model> model;
        std::unordered_map<Z3_ast, bool> decided;
        std::map<std::string, int> counters;
        std::map<std::string, int> choices;
        std::vector<int> inputs; // atom ids
        long ops = 0, branches = 0;
        std::vector<std::vector<int>> ufs;
        struct Angle {
            V c, s, angle;
        };
        std::vector<Angle> angles;
        std::vector<V> positives;
    };
    static Path *P = nullptr;
    static std::deque<std::vector<Entry>> worklist;
    static std::unique_ptr<z3::solver> S;
    static long budgetBranches = 4000, budgetOps = 30000000;
    static bool budgetViolates = false;
    static unsigned branchTimeout = 3000, checkTimeout = 20000;
    static std::string curDetail;
    static int g_tier = 0;
    static std::string curHarness;
    static bool replayMode = false;

    // concrete mode state
    static std::map<std::string, double> assignment;
    static std::map<std::string, double> usedInputs;
    static std::mt19937_64 rng(1);
    static double perturb = 0;
    static std::string concreteViolation, concreteWhy;
    static long concreteOps = 0, concreteOpsBudget = 400000000;
    static std::map<std::string, int> ccounters;
    static std::map<std::string, long> ccalls;

    static bool inPathExec = false;

    static void opTick() {
        if (!symbolic()) {
            if (inPathExec && ++concreteOps > concreteOpsBudget) throw PathEnd{"op budget", 2};
            return;
        }
        if (P && ++P->ops > budgetOps) throw PathEnd{"op budget", 2};
    }

    static double now() {
        return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
    }

    void setMaxTerms(size_t n) { G().maxTerms = n; }
    void setLiteral(double a, double b) { G().literals[a] = b; }
    void setDivZeroViolates(bool b) { G().divZeroViolates = b; }
    void setSqrtNegViolates(bool b) { G().sqrtNegViolates = b; }
    void setBudget(long b, long o) {
        budgetBranches = b;
        budgetOps = o;
    }
    void setBudgetViolates(bool b) { budgetViolates = b; }
    void setCheckTimeout(unsigned ms) { checkTimeout = ms; }
    int tier() { return g_tier; }
    const std::string &detail() { return curDetail; }
    void setDetail(const std::string &s) { curDetail = s; }

    // ---------------------------------------------------------------- conditions
    static Cond mk(const expr &e) {
        if (e.is_true()) return {true, nullptr, 0};
        if (e.is_false()) return {false, nullptr, 0};
        Z3_ast a = (Z3_ast) e;
        Z3_inc_ref(G().ctx, a);
        return {false, (void *) a, 0};
    }

    static expr ex(const Cond &c) {
        if (!c.e) return G().ctx.bool_val(c.c);
        return expr(G().ctx, (Z3_ast) c.e);
    }

    Cond cBool(bool b) { return {b, nullptr, b ? 0. : 1e100}; }

    static bool foreign(const std::string &label);
    static void touchV(const V &v);
    static void addAxiom(const Cond &c);

    static Cond relPoly(Rel rel, const V &diff) { // diff REL 0
        Q q;
        if (constQ(diff, q)) {
            int s = sgn(q);
            return {rel == LT ? s < 0 : rel == LE ? s <= 0 : rel == EQ ? s == 0 : s != 0, nullptr, 0};
        }
        V d = diff;
        if (rel == EQ || rel == NE) d = expandDefs(clearDen(diff, false));
        else d = clearDen(diff, true);
        if (constQ(d, q)) return relPoly(rel, d);
        // normalise the scale
        Q lead = d.p->t.back().c;
        if (rel == LT || rel == LE) {
            if (lead < 0) lead = -lead;
        }
        if (lead != 1) d = scale(d, 1 / lead);
        touchV(d);
        expr z = zPolyT(d);
        expr zero = G().ctx.real_val(0);
        switch (rel) {
            case LT:
                return mk(z < zero);
            case LE:
                return mk(z <= zero);
            case EQ:
                return mk(z == zero);
            default:
                return mk(z != zero);
        }
    }

    Cond cRel(Rel rel, const V &a, const V &b) {
        if (!symbolic()) {
            bool r = rel == LT ? a.d < b.d : rel == LE ? a.d <= b.d : rel == EQ ? a.d == b.d : a.d != b.d;
            double sl = r ? 0 : rel == NE ? 1e100 : std::fabs(a.d - b.d);
            return {r, nullptr, sl};
        }
        return relPoly(rel, vSub(a, b));
    }

    Cond cAnd(const Cond &a, const Cond &b) {
        if (!symbolic()) return {a.c && b.c, nullptr, std::max(a.slack, b.slack)};
        if (!a.e) return a.c ? b : a;
        if (!b.e) return b.c ? a : b;
        return mk(ex(a) && ex(b));
    }

    Cond cOr(const Cond &a, const Cond &b) {
        if (!symbolic()) return {a.c || b.c, nullptr, std::min(a.slack, b.slack)};
        if (!a.e) return a.c ? a : b;
        if (!b.e) return b.c ? b : a;
        return mk(ex(a) || ex(b));
    }

    Cond cNot(const Cond &a) {
        if (!symbolic()) return {!a.c, nullptr, !a.c ? 0. : 1e100};
        if (!a.e) return {!a.c, nullptr, 0};
        return mk(!ex(a));
    }

    // ---------------------------------------------------------------- axioms of atoms
    static void axiomsOf(int id) {
        const Atom a = G().atoms[id];
        V v = atomV(id);
        const V zero{0., nullptr}, one{1., nullptr};
        auto rel = [](Rel r, const V &x, const V &y) { return cRel(r, x, y); };
        switch (a.kind) {
            case PI_:
                addAxiom(cAnd(rel(LT, vRational("31415926535897932/10000000000000000"), v),
                              rel(LT, v, vRational("31415926535897933/10000000000000000"))));
                break;
            case SQRT:
                addAxiom(rel(LE, zero, v));
                {
                    // v*v is rewritten by the normal form: write it as a z3 product
                    V rad = clearDen(a.args[0], false);
                    // find the clearing factor: rad = a * m  => v*v*m = rad
                    if (!a.args[0].p || rad.p == a.args[0].p) {
                        touchV(a.args[0]);
                        expr z(G().ctx, a.z);
                        addAxiom(mk(z * z == zPolyT(a.args[0])));
                    } else {
                        V d = defAtom(a.args[0]);
                        touchV(d);
                        expr z(G().ctx, a.z);
                        addAxiom(mk(z * z == zPolyT(d)));
                    }
                }
                break;
            case RND: {
                // a.args[0] is exact: nothing below rounds (only the operators of the scalar do)
                // products are over-approximated by an arbitrary number: only equality matters for them
                bool linear = true;
                for (auto &t: a.args[0].p->t) {
                    int deg = 0;
                    for (auto &f: G().monos[t.m].f) deg += std::abs(f.second);
                    linear = linear && deg <= 1;
                }
                if (!linear) {
                    Cond pos = cBool(true);
                    bool coefs = true;
                    for (auto &t: a.args[0].p->t) {
                        coefs = coefs && t.c > 0;
                        for (auto &f: G().monos[t.m].f) pos = cAnd(pos, rel(LT, zero, atomV(f.first)));
                    }
                    if (coefs) addAxiom(cImplies(pos, rel(LT, zero, v)));
                    // products of two numbers: linear bounds
                    if (coefs && a.args[0].p->t.size() == 1) {
                        const Term &t = a.args[0].p->t[0];
                        const auto f = G().monos[t.m].f;
                        if (f.size() == 2 && f[0].second * f[1].second == -1) {
                            int up = f[0].second == 1 ? 0 : 1;
                            V x = scale(atomV(f[up].first), t.c), y = atomV(f[1 - up].first);
                            Cond ok = cAnd(rel(LE, zero, x), rel(LT, zero, y));
                            addAxiom(cImplies(cAnd(ok, rel(LE, x, y)), rel(LE, v, one)));
                            addAxiom(cImplies(cAnd(ok, rel(LE, y, x)), rel(LE, one, v)));
                        }
                        if (f.size() == 2 && f[0].second == 1 && f[1].second == 1)
                            for (int side = 0; side < 2; ++side) {
                                V x = scale(atomV(f[side].first), t.c), y = atomV(f[1 - side].first);
                                for (double k: {.1, 1.}) {
                                    V kx = scale(x, Q(k)), ky{k, nullptr};
                                    Q eps(1, 1000000);
                                    addAxiom(cImplies(cAnd(rel(LE, zero, x), rel(LE, ky, y)), rel(LE, scale(kx, 1 - eps), v)));
                                    addAxiom(cImplies(cAnd(rel(LE, zero, x), rel(LE, y, ky)), rel(LE, v, scale(kx, 1 + eps))));
                                }
                            }
                    }
                    break;
                }
                Q u(1);
                mpq_div_2exp(u.get_mpq_t(), u.get_mpq_t(), 53);
                V e = a.args[0], lo = scale(e, 1 - u), hi = scale(e, 1 + u);
                Cond nn = rel(LE, zero, e);
                addAxiom(cAnd(cImplies(nn, cAnd(rel(LE, lo, v), rel(LE, v, hi))),
                              cImplies(cNot(nn), cAnd(rel(LE, hi, v), rel(LE, v, lo)))));
                break;
            }
            case ABS: {
                Cond nn = rel(LE, zero, a.args[0]);
                addAxiom(cAnd(rel(LE, zero, v), cAnd(cImplies(nn, rel(EQ, v, a.args[0])),
                                                    cImplies(cNot(nn), rel(EQ, v, vNeg(a.args[0]))))));
                break;
            }
            case SIN:
            case COS: {
                V c = atomV(getAtom(COS, "cos", a.args)), s = atomV(getAtom(SIN, "sin", a.args));
                expr zc(G().ctx, G().atoms[getAtom(COS, "cos", a.args)].z);
                expr zs(G().ctx, G().atoms[getAtom(SIN, "sin", a.args)].z);
                touchV(a.kind == SIN ? c : s);
                if (a.kind == SIN || true) addAxiom(mk(zc * zc + zs * zs == G().ctx.real_val(1)));
                break;
            }
            case COSH:
            case SINH: {
                V c = atomV(getAtom(COSH, "cosh", a.args)), s = atomV(getAtom(SINH, "sinh", a.args));
                expr zc(G().ctx, G().atoms[getAtom(COSH, "cosh", a.args)].z);
                expr zs(G().ctx, G().atoms[getAtom(SINH, "sinh", a.args)].z);
                touchV(a.kind == SINH ? c : s);
                addAxiom(mk(zc * zc == G().ctx.real_val(1) + zs * zs));
                addAxiom(rel(LE, one, c));
                addAxiom(cIff(rel(LT, zero, a.args[0]), rel(LT, zero, s)));
                addAxiom(cIff(rel(LT, a.args[0], zero), rel(LT, s, zero)));
                break;
            }
            case EXP:
                addAxiom(rel(LT, zero, v));
                addAxiom(cIff(rel(LT, zero, a.args[0]), rel(LT, one, v)));
                break;
            case POW: {
                const V &b = a.args[0];
                double e;
                addAxiom(cImplies(rel(LT, zero, b), rel(LT, zero, v)));
                if (isConst(a.args[1], &e)) {
                    if (e > 0) {
                        addAxiom(cImplies(rel(EQ, b, zero), rel(EQ, v, zero)));
                        addAxiom(cImplies(cAnd(rel(LT, zero, b), rel(LT, b, one)), rel(LT, v, one)));
                        addAxiom(cImplies(rel(LT, one, b), rel(LT, one, v)));
                        if (e < 1) {
                            addAxiom(cImplies(cAnd(rel(LT, zero, b), rel(LT, b, one)), rel(LT, b, v)));
                            addAxiom(cImplies(rel(LT, one, b), rel(LT, v, b)));
                        }
                    }
                    addAxiom(cImplies(rel(EQ, b, one), rel(EQ, v, one)));
                }
                break;
            }
            case ATAN2: {
                const V &y = a.args[0], &x = a.args[1];
                V pi = atomV(piAtom());
                V half = scale(pi, Q(1, 2));
                addAxiom(cAnd(rel(LT, vNeg(pi), v), rel(LE, v, pi)));
                Cond yp = rel(LT, zero, y), yn = rel(LT, y, zero), y0 = rel(EQ, y, zero);
                Cond xp = rel(LT, zero, x), xn = rel(LT, x, zero), x0 = rel(EQ, x, zero);
                addAxiom(cImplies(yp, cAnd(rel(LT, zero, v), rel(LT, v, pi))));
                addAxiom(cImplies(yn, cAnd(rel(LT, v, zero), rel(LT, vNeg(pi), v))));
                addAxiom(cImplies(cAnd(y0, cNot(xn)), rel(EQ, v, zero)));
                addAxiom(cImplies(cAnd(y0, xn), rel(EQ, v, pi)));
                addAxiom(cImplies(cAnd(x0, yp), rel(EQ, v, half)));
                addAxiom(cImplies(cAnd(x0, yn), rel(EQ, v, vNeg(half))));
                addAxiom(cImplies(xp, cAnd(rel(LT, vNeg(half), v), rel(LT, v, half))));
                addAxiom(cImplies(cAnd(xn, yp), rel(LT, half, v)));
                addAxiom(cImplies(cAnd(xn, yn), rel(LT, v, vNeg(half))));
                break;
            }
            case DEF: {
                V c = clearDen(a.args[0], false);
                if (!c.p || c.p == a.args[0].p) {
                    touchV(a.args[0]);
                    expr z(G().ctx, a.z);
                    addAxiom(mk(z == zPolyT(a.args[0])));
                } else {
                    // v = num/den: v*den = num with den the clearing monomial
                    std::map<int, int> need;
                    for (auto &t: a.args[0].p->t)
                        for (auto &x: G().monos[t.m].f)
                            if (x.second < 0) need[x.first] = std::max(need[x.first], -x.second);
                    std::vector<std::pair<int, int>> f(need.begin(), need.end());
                    std::vector<Term> t;
                    t.push_back({internMono(f), Q(1)});
                    V den = fromTerms(std::move(t));
                    V num = mulRaw(a.args[0], den);
                    num = clearDen(num, false);
                    touchV(den);
                    touchV(num);
                    expr z(G().ctx, a.z);
                    addAxiom(mk(z * zPolyT(den) == zPolyT(num)));
                }
                break;
            }
            case UF: {
                // congruence with the other applications on this path
                for (int o: P->touched) {
                    if (o == id || G().atoms[o].kind != UF || G().atoms[o].name != a.name) continue;
                    Cond same = cBool(true);
                    for (size_t i = 0; i < a.args.size(); ++i)
                        same = cAnd(same, cRel(EQ, a.args[i], G().atoms[o].args[i]));
                    addAxiom(cImplies(same, cRel(EQ, v, atomV(o))));
                }
                if (a.bounded) {
                    addAxiom(cRel(LE, V{a.lo, nullptr}, v));
                    addAxiom(cRel(LE, v, V{a.hi, nullptr}));
                }
                break;
            }
            case TAN:
            case LOG:
            case VAR:
            case PLAIN:
                break;
        }
    }

    static void touchV(const V &v) {
        if (!P) return;
        std::set<int> as;
        polyAtoms(v, as);
        for (int a: as)
            if (!P->touched.count(a)) {
                // relations between atan2 atoms
                P->touched.insert(a);
                axiomsOf(a);
                if (G().atoms[a].kind == ATAN2) {
                    const V zero{0., nullptr};
                    std::vector<int> others(P->touched.begin(), P->touched.end());
                    for (int o: others) {
                        if (o == a || G().atoms[o].kind != ATAN2) continue;
                        const V y1 = G().atoms[a].args[0], x1 = G().atoms[a].args[1];
                        const V y2 = G().atoms[o].args[0], x2 = G().atoms[o].args[1];
                        V cr = vSub(vMul(y1, x2), vMul(y2, x1));
                        Cond both = cAnd(cRel(LT, zero, x1), cRel(LT, zero, x2));
                        V va = atomV(a), vo = atomV(o);
                        addAxiom(cImplies(both, cIff(cRel(LT, vo, va), cRel(LT, zero, cr))));
                        addAxiom(cImplies(both, cIff(cRel(EQ, vo, va), cRel(EQ, zero, cr))));
                        // tan(a) tan(o): angles of opposite vectors and perpendicular vectors
                    }
                }
            }
    }

    static bool modelHolds(const expr &e) {
        if (!P->model) return false;
        try {
            expr r = P->model->eval(e, true);
            return r.is_true();
        } catch (z3::exception &) {
            return false;
        }
    }

    static void assertPc(const expr &e) {
        P->pc.push_back(e);
        S->add(e);
        if (P->model && !modelHolds(e)) P->model.reset();
    }

    static void addAxiom(const Cond &c) {
        if (!c.e && c.c) return;
        assertPc(ex(c));
    }

    enum Res { SAT, UNSAT, UNK };

    static Res fallback(const std::vector<expr> &as, unsigned ms, std::unique_ptr<z3::model> *m) {
        ++ST.fallbacks;
        static std::vector<std::string> tactics = {"qfnra-nlsat", "smt"};
        for (auto &tn: tactics) {
            try {
                z3::tactic t = tn == "smt" ? z3::tactic(G().ctx, "default")
                                           : z3::tactic(G().ctx, "simplify") & z3::tactic(G().ctx, "purify-arith") &
                                             z3::tactic(G().ctx, "propagate-values") &
                                             z3::tactic(G().ctx, "solve-eqs") &
                                             z3::tactic(G().ctx, "tseitin-cnf") & z3::tactic(G().ctx, "qfnra-nlsat");
                z3::solver s = t.mk_solver();
                z3::params p(G().ctx);
                p.set("timeout", ms);
                s.set(p);
                for (auto &e: as) s.add(e);
                auto r = s.check();
                if (r == z3::unsat) return UNSAT;
                if (r == z3::sat) {
                    if (m) m->reset(new z3::model(s.get_model()));
                    return SAT;
                }
            } catch (z3::exception &) {
            }
        }
        return UNK;
    }

    static Res query(const expr &extra, unsigned ms, std::unique_ptr<z3::model> *m, bool hard) {
        ++ST.queries;
        double t0 = now();
        Res res = UNK;
        if (getenv("SX_DUMP")) {
            std::cerr << "(query)\n" << *S << "\n(assert " << extra << ")\n";
        }
        try {
            z3::params p(G().ctx);
            p.set("timeout", hard ? std::min(ms, 8000u) : ms);
            S->set(p);
            S->push();
            S->add(extra);
            auto r = S->check();
            if (r == z3::sat) {
                res = SAT;
                if (m) m->reset(new z3::model(S->get_model()));
            } else if (r == z3::unsat) res = UNSAT;
            S->pop();
        } catch (z3::exception &e) {
            res = UNK;
            try { S->pop(); } catch (...) {}
        }
        if (res == UNK) {
            std::vector<expr> as = P->pc;
            as.push_back(extra);
            res = fallback(as, hard ? ms : ms, m);
        }
        if (res == UNK) ++ST.unknown;
        if (getenv("SX_SLOW") && now() - t0 > atof(getenv("SX_SLOW")))
            std::cerr << "(slow " << now() - t0 << " " << res << " " << extra << ")\n";
        ST.solverTime += now() - t0;
        return res;
    }

    // ---------------------------------------------------------------- branching
    bool branch(const Cond &c) {
        if (!c.e) return c.c;
        if (!P) throw std::runtime_error("symbolic branch outside a path");
        Z3_ast key = (Z3_ast) c.e;
        auto it = P->decided.find(key);
        if (it != P->decided.end()) return it->second;
        expr e = ex(c);
        bool choice;
        if (P->pos < P->trace.size()) {
            Entry &en = P->trace[P->pos++];
            if (en.k != 'B') throw std::runtime_error("nondeterministic re-execution");
            choice = en.taken;
            if (en.v) assertPc(choice ? e : !e);
        } else {
            ++ST.branches;
            if (++P->branches > budgetBranches) throw PathEnd{"branch budget", 2};
            std::unique_ptr<z3::model> mt, mf;
            Res rt, rf;
            bool haveT = false, haveF = false;
            if (P->model) {
                if (modelHolds(e)) haveT = true;
                else if (modelHolds(!e)) haveF = true;
            }
            rt = haveT ? SAT : query(e, branchTimeout, &mt, false);
            if (rt == UNSAT) {
                rf = SAT; // pc itself is feasible
                choice = false;
                P->trace.push_back({'B', 0, false});
                ++P->pos;
            } else {
                rf = haveF ? SAT : query(!e, branchTimeout, &mf, false);
                if (rf == UNSAT) {
                    choice = true;
                    P->trace.push_back({'B', rt == UNK, true});
                    ++P->pos;
                    if (rt == UNK) assertPc(e);
                    else if (!P->model && mt) P->model = std::move(mt);
                } else {
                    auto alt = P->trace;
                    alt.push_back({'B', 1, false});
                    worklist.push_back(std::move(alt));
                    choice = true;
                    P->trace.push_back({'B', 1, true});
                    ++P->pos;
                    assertPc(e);
                    if (!P->model && mt) P->model = std::move(mt);
                }
            }
        }
        P->decided[key] = choice;
        expr ne = !e;
        Z3_inc_ref(G().ctx, (Z3_ast) ne);
        P->decided[(Z3_ast) ne] = !choice;
        return choice;
    }

    bool vCmp(Rel rel, const V &a, const V &b) {
        if (!a.p && !b.p)
            return rel == LT ? a.d < b.d : rel == LE ? a.d <= b.d : rel == EQ ? a.d == b.d : a.d != b.d;
        if (rel == NE) return !branch(cRel(EQ, a, b));
        if (rel == LE) return !branch(cRel(LT, b, a)); // a <= b  <=>  !(b < a)
        return branch(cRel(rel, a, b));
    }

    static Q modelQ(const z3::model &m, const expr &e) {
        expr r = m.eval(e, true);
        if (r.is_numeral()) {
            std::string s = r.get_decimal_string(60);
            // prefer exact
            try {
                z3::expr n = r.numerator(), d = r.denominator();
                Q q(n.get_decimal_string(0) + "/" + d.get_decimal_string(0));
                q.canonicalize();
                return q;
            } catch (...) {
            }
            if (s.back() == '?') s.pop_back();
            return Q((double) atof(s.c_str()));
        }
        if (r.is_algebraic()) {
            expr lo = r.algebraic_lower(30);
            z3::expr n = lo.numerator(), d = lo.denominator();
            Q q(n.get_decimal_string(0) + "/" + d.get_decimal_string(0));
            q.canonicalize();
            return q;
        }
        return Q(0);
    }

    static double modelD(const z3::model &m, const expr &e) {
        try {
            return modelQ(m, e).get_d();
        } catch (...) {
            return 0;
        }
    }

    static void ensureModel() {
        if (P->model) return;
        std::unique_ptr<z3::model> m;
        Res r = query(G().ctx.bool_val(true), branchTimeout, &m, true);
        if (r == UNSAT) throw PathEnd{"infeasible", 1};
        if (r == UNK || !m) throw PathEnd{"no model for concretisation", 2};
        P->model = std::move(m);
    }

    // n <= v < n+1
    static long floorLong(const V &v) {
        Q q;
        if (constQ(v, q)) {
            mpz_class z;
            mpz_fdiv_q(z.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t());
            return z.get_si();
        }
        while (true) {
            long n;
            bool taken;
            if (P->pos < P->trace.size()) {
                Entry &en = P->trace[P->pos++];
                if (en.k != 'I') throw std::runtime_error("nondeterministic re-execution");
                n = en.v;
                taken = en.taken;
            } else {
                ++ST.branches;
                if (++P->branches > budgetBranches) throw PathEnd{"branch budget", 2};
                // make the terms of v known to the solver first
                Cond probe = cRel(LE, v, V{0., nullptr});
                (void) probe;
                ensureModel();
                V c = clearDen(v, false);
                Q val;
                if (c.p == v.p) val = modelQ(*P->model, zPolyT(v));
                else {
                    V d = defAtom(v);
                    touchV(d);
                    ensureModel();
                    val = modelQ(*P->model, zPolyT(d));
                }
                mpz_class z;
                mpz_fdiv_q(z.get_mpz_t(), val.get_num_mpz_t(), val.get_den_mpz_t());
                n = z.get_si();
                Cond in = cAnd(cRel(LE, V{(double) n, nullptr}, v), cRel(LT, v, V{(double) n + 1, nullptr}));
                Res other = query(!ex(in), branchTimeout, nullptr, false);
                taken = true;
                if (other != UNSAT) {
                    auto alt = P->trace;
                    alt.push_back({'I', n, false});
                    worklist.push_back(std::move(alt));
                }
                P->trace.push_back({'I', n, true});
                ++P->pos;
            }
            Cond in = cAnd(cRel(LE, V{(double) n, nullptr}, v), cRel(LT, v, V{(double) n + 1, nullptr}));
            if (taken) {
                if (in.e) assertPc(ex(in));
                return n;
            }
            assertPc(!ex(in));
        }
    }

    V vFloor(const V &v) {
        if (!symbolic()) return V{std::floor(v.d), nullptr};
        return V{(double) floorLong(v), nullptr};
    }

    V vCeil(const V &v) {
        if (!symbolic()) return V{std::ceil(v.d), nullptr};
        return V{-(double) floorLong(vNeg(v)), nullptr};
    }

    V vRound(const V &v) {
        if (!symbolic()) return V{std::round(v.d), nullptr};
        const V half{.5, nullptr};
        if (vCmp(LT, v, V{0., nullptr})) return V{-(double) floorLong(vSub(half, v)), nullptr};
        return V{(double) floorLong(vAdd(v, half)), nullptr};
    }

    long vToInt(const V &v) {
        if (!symbolic()) {
            return (long) v.d;
        }
        if (!v.p) return (long) v.d;
        if (vCmp(LT, v, V{0., nullptr})) return -floorLong(vNeg(v));
        return floorLong(v);
    }

    double vToDouble(const V &v) {
        if (!symbolic()) return v.d;
        double d;
        if (isConst(v, &d)) return d;
        throw PathEnd{"conversion of a symbolic value to double", 0};
    }

    bool vIsNan(const V &v) { return !symbolic() && std::isnan(v.d); }
    bool vIsInf(const V &v) { return !symbolic() && std::isinf(v.d); }

    // ---------------------------------------------------------------- division and functions
    // the harness promised that this polynomial (up to a factor) is positive
    static bool promisedPositive(const V &v, int &s) {
        if (!v.p) return false;
        for (auto &w: P->positives) {
            if (!w.p || w.p->t.size() != v.p->t.size()) continue;
            if (w.p == v.p) { s = 1; return true; }
            Q f = v.p->t.back().c / w.p->t.back().c;
            if (scale(w, f).p == v.p) { s = sgn(f); return true; }
        }
        return false;
    }

    void knownPositive(const V &v) {
        if (symbolic()) P->positives.push_back(v);
    }

    // x = quotient * c as polynomials (a bounded number of steps)
    static bool dividesExactly(const V &c, V x, V &quotient) {
        if (!c.p || c.p->t.size() < 2) return false;
        auto lead = [](const V &v) { // the largest term: lexicographic in the exponents
            size_t best = 0;
            auto less = [](const std::vector<std::pair<int, int>> &a, const std::vector<std::pair<int, int>> &b) {
                std::map<int, int> e;
                for (auto &y: a) e[y.first] -= y.second;
                for (auto &y: b) e[y.first] += y.second;
                for (auto &y: e) if (y.second) return y.second > 0;
                return false;
            };
            for (size_t i = 1; i < v.p->t.size(); ++i)
                if (less(G().monos[v.p->t[best].m].f, G().monos[v.p->t[i].m].f)) best = i;
            return v.p->t[best];
        };
        const Term lc = lead(c);
        quotient = V{0., nullptr};
        for (int step = 0; step < 24; ++step) {
            if (!x.p) return x.d == 0;
            if (x.p->t.size() > 2000) return false;
            const Term lx = lead(x);
            std::map<int, int> e;
            for (auto &y: G().monos[lx.m].f) e[y.first] += y.second;
            for (auto &y: G().monos[lc.m].f) e[y.first] -= y.second;
            std::vector<std::pair<int, int>> f;
            for (auto &y: e) if (y.second) f.push_back(y);
            std::vector<Term> t;
            t.push_back({internMono(f), lx.c / lc.c});
            V q = fromTerms(std::move(t));
            quotient = vAdd(quotient, q);
            x = vSub(x, mulRaw(q, c));
        }
        return false;
    }

    static bool knownSign(const V &v, int &s) {
        if (!P->positives.empty() && promisedPositive(v, s)) return true;
        // syntactic sign of a polynomial: all terms of the same sign over non-negative atoms / even powers
        std::vector<Term> b;
        s = 0;
        bool strict = false;
        for (auto &t: terms(v, b)) {
            bool pos = true, str = true, flip = false;
            for (auto &x: G().monos[t.m].f) {
                const Atom &a = G().atoms[x.first];
                int ps = 0;
                if (x.second % 2 == 0) {
                    if (!a.positive && x.second > 0 && !(a.kind == DEF && promisedPositive(a.args[0], ps))) str = false;
                } else if (a.positive || (a.kind == DEF && !P->positives.empty() && promisedPositive(a.args[0], ps))) {
                    if (ps < 0) flip = !flip;
                } else if (a.nonneg) {
                    if (x.second > 0) str = false;
                } else {
                    pos = false;
                    break;
                }
            }
            if (!pos) return false;
            int ts = flip ? -sgn(t.c) : sgn(t.c);
            if (s && s != ts) return false;
            s = ts;
            strict = strict || str;
        }
        if (!strict) s *= 2; // +-2: weak sign
        return s != 0;
    }

    // sign of a polynomial from the ranges of the inputs, after division by positive factors common to all terms
    static bool rangeSign(const V &v, int &s) {
        if (!v.p || v.p->t.size() > 5000) return false;
        std::map<int, int> common;
        bool first = true;
        for (auto &t: v.p->t) {
            std::map<int, int> m;
            for (auto &x: G().monos[t.m].f)
                if (G().atoms[x.first].positive && (first || common.count(x.first)))
                    m[x.first] = first ? x.second : std::min(x.second, common[x.first]);
            common.swap(m);
            first = false;
        }
        double lo = 0, hi = 0;
        for (auto &t: v.p->t) {
            double a = 1, b = 1;
            for (auto &x: G().monos[t.m].f) {
                const Atom &atom = G().atoms[x.first];
                auto it = common.find(x.first);
                int e = x.second - (it == common.end() ? 0 : it->second);
                if (!e) continue;
                if (!atom.bounded || e < 0) return false;
                double u = std::pow(atom.lo, e), w = std::pow(atom.hi, e);
                double l = std::min(u, w), h = std::max(u, w);
                if (e % 2 == 0 && atom.lo < 0 && atom.hi > 0) l = 0;
                double c[4] = {a * l, a * h, b * l, b * h};
                a = *std::min_element(c, c + 4);
                b = *std::max_element(c, c + 4);
            }
            double k = t.c.get_d();
            double l = std::min(k * a, k * b), h = std::max(k * a, k * b);
            lo += l - std::fabs(l) * 1e-9;
            hi += h + std::fabs(h) * 1e-9;
        }
        if (lo > 0) s = 1;
        else if (hi < 0) s = -1;
        else return false;
        return true;
    }

    static std::string replayLabel;

    // native replay of a counterexample that ends in such an operation
    static void numericReplayed(const char *what, bool happens) {
        if (happens && replayLabel == std::string("numeric:") + what) fail(replayLabel, what);
    }

    static void notANumber(const char *what, bool violates) {
        if (violates) fail(std::string("numeric:") + what, what);
        throw PathEnd{what, 0};
    }

    V vDiv(const V &a, const V &b) {
        if (!symbolic()) {
            opTick();
            return V{a.d / b.d, nullptr};
        }
        opTick();
        Q q;
        if (constQ(b, q)) {
            if (q == 0) notANumber("division by zero", G().divZeroViolates);
            if (!a.p) {
                double r = a.d / b.d, back;
                if (!b.p && std::isfinite(r) && exactMul(r, b.d, back) && back == a.d) return V{r, nullptr};
            }
            return scale(a, 1 / q);
        }
        int s = 0;
        if (!(knownSign(b, s) && (s == 1 || s == -1)) && !rangeSign(b, s))
            if (branch(cRel(EQ, b, V{0., nullptr}))) notANumber("division by zero", G().divZeroViolates);
        if (!a.p && a.d == 0) return V{0., nullptr};
        if (a.p == b.p) return V{1., nullptr};
        const auto &tb = b.p->t;
        if (tb.size() == 1) {
            auto f = G().monos[tb[0].m].f;
            for (auto &x: f) x.second = -x.second;
            std::vector<Term> t;
            t.push_back({internMono(f), 1 / tb[0].c});
            return mulRaw(fromTerms(std::move(t)), a);
        }
        Q lead = tb.back().c;
        V prim = lead == 1 ? b : scale(b, 1 / lead);
        if (a.p && a.p->t.size() == tb.size()) {
            Q la = a.p->t.back().c;
            V pa = scale(a, 1 / la);
            if (pa.p == prim.p) return fromQ(la / lead);
        }
        int d = getAtom(DEF, "def", {prim});
        return mulRaw(scale(atomV(d, -1), 1 / lead), a);
    }

    static std::function<bool(const V &, V &)> sqrtRule;

    void setSqrtRule(std::function<bool(const V &, V &)> rule) { sqrtRule = std::move(rule); }

    V vSqrt(const V &a) {
        if (!symbolic()) {
            numericReplayed("square root of a negative value", a.d < -1e-6);
            return V{std::sqrt(a.d), nullptr};
        }
        V known;
        if (sqrtRule && sqrtRule(a, known)) return known;
        Q q;
        if (constQ(a, q)) {
            if (q < 0) notANumber("square root of a negative value", G().sqrtNegViolates);
            if (q == 0) return V{0., nullptr};
            if (mpz_perfect_square_p(q.get_num_mpz_t()) && mpz_perfect_square_p(q.get_den_mpz_t())) {
                mpz_class n = sqrt(q.get_num()), d = sqrt(q.get_den());
                return fromQ(Q(n, d));
            }
            int id = getAtom(SQRT, "sqrt", {a});
            G().atoms[id].positive = true;
            return atomV(id);
        }
        int s = 0;
        if (!(knownSign(a, s) && s > 0)) {
            if (branch(cRel(LT, a, V{0., nullptr})))
                notANumber("square root of a negative value", G().sqrtNegViolates);
        }
        return atomV(getAtom(SQRT, "sqrt", {a}));
    }

    V vAbs(const V &a) {
        if (!symbolic()) return V{std::fabs(a.d), nullptr};
        if (!a.p) return V{std::fabs(a.d), nullptr};
        Q q;
        if (constQ(a, q)) return fromQ(q < 0 ? Q(-q) : q);
        int s;
        if (knownSign(a, s)) return s > 0 ? a : vNeg(a);
        Cond neg = cRel(LT, a, V{0., nullptr}), pos = cRel(LT, V{0., nullptr}, a);
        if (!neg.e) return neg.c ? vNeg(a) : a;
        if (P) {
            auto it = P->decided.find((Z3_ast) neg.e);
            if (it != P->decided.end()) return it->second ? vNeg(a) : a;
            it = P->decided.find((Z3_ast) pos.e);
            if (it != P->decided.end()) return it->second ? a : vNeg(a);
        }
        Q lead = a.p->t.back().c;
        return atomV(getAtom(ABS, "abs", {lead < 0 ? vNeg(a) : a}));
    }

    static V sqrtNoCheck(const V &a) { return atomV(getAtom(SQRT, "sqrt", {a})); }

    // sin and cos with phase reduction
    static V trig(bool isSin, const V &arg0) {
        V arg = arg0;
        Q q;
        if (constQ(arg, q) && q == 0) return V{isSin ? 0. : 1., nullptr};
        // strip multiples of pi/2
        int phase = 0;
        if (arg.p) {
            int pm = internMono({{piAtom(), 1}});
            for (auto &t: arg.p->t)
                if (t.m == pm) {
                    Q k = t.c * 2;
                    if (k.get_den() == 1) {
                        mpz_class r;
                        mpz_fdiv_r_ui(r.get_mpz_t(), k.get_num_mpz_t(), 4);
                        phase = (int) r.get_si();
                        arg = vSub(arg, scale(atomV(piAtom()), t.c));
                    }
                    break;
                }
        }
        if (phase) {
            V s = trig(true, arg), c = trig(false, arg);
            // angle = arg + phase*pi/2
            switch (phase) {
                case 1:
                    return isSin ? c : vNeg(s);
                case 2:
                    return isSin ? vNeg(s) : vNeg(c);
                default:
                    return isSin ? vNeg(c) : s;
            }
        }
        if (constQ(arg, q) && q == 0) return V{isSin ? 0. : 1., nullptr};
        // addition formula for atan2 atoms
        if (arg.p)
            for (auto &t: arg.p->t) {
                const auto &f = G().monos[t.m].f;
                if (f.size() == 1 && f[0].second == 1 && G().atoms[f[0].first].kind == ATAN2 &&
                    (t.c == 1 || t.c == -1)) {
                    const Atom at = G().atoms[f[0].first];
                    V rest = vSub(arg, scale(atomV(f[0].first), t.c));
                    V y = at.args[0], x = at.args[1];
                    V r2 = vAdd(vMul(x, x), vMul(y, y));
                    V st, ct;
                    int s = 0;
                    if (!(knownSign(r2, s) && s == 1) && branch(cRel(EQ, r2, V{0., nullptr}))) {
                        st = V{0., nullptr};
                        ct = V{1., nullptr};
                    } else {
                        V r = sqrtNoCheck(r2);
                        st = vDiv(y, r);
                        ct = vDiv(x, r);
                    }
                    if (t.c == -1) st = vNeg(st);
                    V sr = trig(true, rest), cr = trig(false, rest);
                    return isSin ? vAdd(vMul(st, cr), vMul(ct, sr)) : vSub(vMul(ct, cr), vMul(st, sr));
                }
            }
        bool neg = false;
        if (arg.p) {
            if (arg.p->t.back().c < 0) {
                neg = true;
                arg = vNeg(arg);
            }
        } else if (arg.d < 0) {
            neg = true;
            arg = vNeg(arg);
        }
        V r = atomV(getAtom(isSin ? SIN : COS, isSin ? "sin" : "cos", {arg}));
        return isSin && neg ? vNeg(r) : r;
    }

    V vSin(const V &a) {
        if (!symbolic()) return V{std::sin(a.d), nullptr};
        return trig(true, a);
    }

    V vCos(const V &a) {
        if (!symbolic()) return V{std::cos(a.d), nullptr};
        return trig(false, a);
    }

    V vTan(const V &a) {
        if (!symbolic()) return V{std::tan(a.d), nullptr};
        return vDiv(trig(true, a), trig(false, a));
    }

    V vCosh(const V &a) {
        if (!symbolic()) return V{std::cosh(a.d), nullptr};
        Q q;
        if (constQ(a, q) && q == 0) return V{1., nullptr};
        return atomV(getAtom(COSH, "cosh", {a}));
    }

    V vSinh(const V &a) {
        if (!symbolic()) return V{std::sinh(a.d), nullptr};
        Q q;
        if (constQ(a, q) && q == 0) return V{0., nullptr};
        return atomV(getAtom(SINH, "sinh", {a}));
    }

    V vExp(const V &a) {
        if (!symbolic()) return V{std::exp(a.d), nullptr};
        Q q;
        if (constQ(a, q) && q == 0) return V{1., nullptr};
        return atomV(getAtom(EXP, "exp", {a}));
    }

    V vLog(const V &a) {
        if (!symbolic()) return V{std::log(a.d), nullptr};
        return atomV(getAtom(LOG, "log", {a}));
    }

    void registerAngle(const V &c, const V &s, const V &angle) {
        if (symbolic()) P->angles.push_back({c, s, angle});
    }

    V vAtan2(const V &y, const V &x) {
        if (!symbolic()) return V{std::atan2(y.d, x.d), nullptr};
        for (size_t i = 0; i < P->angles.size(); ++i) {
            const auto a = P->angles[i];
            V cross = (vSub(vMul(y, a.c), vMul(x, a.s)));
            Q q0;
            if (!constQ(cross, q0) || q0 != 0) continue;
            int sign = 0;
            if (!(sameV(y, a.s) && sameV(x, a.c))) {
                V dot = (vAdd(vMul(y, a.s), vMul(x, a.c)));
                V quotient;
                if (constQ(dot, q0)) sign = sgn(q0);
                else if (((dividesExactly(a.c, x, quotient) || dividesExactly(a.s, y, quotient)) && (!quotient.p || knownSign(quotient, sign)))) {
                    if (!quotient.p) sign = quotient.d > 0 ? 1 : quotient.d < 0 ? -1 : 0;
                    if (sign == 2 || sign == -2) sign /= 2; // zero is excluded by the definition of the angle
                } else if (!knownSign(dot, sign)) { if (getenv("SX_SLOW")) std::cerr << "(dot " << vStr(dot).substr(0, 700) << "\n   x " << vStr(x).substr(0, 300) << "\n   y " << vStr(y).substr(0, 300)<<"\n   c " << vStr(a.c).substr(0, 300)<<"\n   s " << vStr(a.s).substr(0, 300)<<"\n    angle " << vStr(a.angle) << ")\n"; sign = branch(cRel(LT, V{0., nullptr}, dot)) ? 1 : -1; }
            } else sign = 1;
            if (sign == 0) continue;
            V pi = atomV(piAtom());
            V angle = sign > 0 ? a.angle : vAdd(a.angle, pi);
            // into (-pi, pi]
            while (branch(cRel(LT, pi, angle))) angle = vSub(angle, scale(pi, 2));
            while (branch(cRel(LE, angle, vNeg(pi)))) angle = vAdd(angle, scale(pi, 2));
            return angle;
        }
        Q qy, qx;
        if (constQ(y, qy) && constQ(x, qx)) {
            V pi = atomV(piAtom());
            if (qy == 0) return qx < 0 ? pi : V{0., nullptr};
            if (qx == 0) return scale(pi, qy > 0 ? Q(1, 2) : Q(-1, 2));
            if (qy == qx) return scale(pi, qy > 0 ? Q(1, 4) : Q(-3, 4));
        }
        if (constQ(y, qy) && qy == 0) {
            if (branch(cRel(LT, x, V{0., nullptr}))) return atomV(piAtom());
            return V{0., nullptr};
        }
        if (constQ(x, qx) && qx == 0) {
            if (branch(cRel(LT, V{0., nullptr}, y))) return scale(atomV(piAtom()), Q(1, 2));
            if (branch(cRel(LT, y, V{0., nullptr}))) return scale(atomV(piAtom()), Q(-1, 2));
            return V{0., nullptr};
        }
        return atomV(getAtom(ATAN2, "atan2", {y, x}));
    }

    V vAtan(const V &a) { return vAtan2(a, V{1., nullptr}); }

    V vPow(const V &b, const V &e) {
        if (!symbolic()) return V{std::pow(b.d, e.d), nullptr};
        Q q, qb;
        if (constQ(e, q)) {
            if (q.get_den() == 1 && abs(q) < 200) {
                long n = q.get_num().get_si();
                V r = vPowInt(b, (int) std::labs(n));
                return n >= 0 ? r : vDiv(V{1., nullptr}, r);
            }
            if (q == Q(1, 2)) return vSqrt(b);
        }
        if (constQ(b, qb)) {
            if (qb == 1) return V{1., nullptr};
            if (qb == 0 && constQ(e, q) && q > 0) return V{0., nullptr};
        }
        int id = getAtom(POW, "pow", {b, e});
        return atomV(id);
    }

    V vIte(const Cond &c, const V &a, const V &b) {
        if (!c.e) return c.c ? a : b;
        V v = atomV(getAtom(PLAIN, "ite#" + std::to_string(P->counters["ite"]++), {}));
        assumeC(cAnd(cImplies(c, cRel(EQ, v, a)), cImplies(cNot(c), cRel(EQ, v, b))));
        return v;
    }

    // ---------------------------------------------------------------- harness environment
    static double sampleIn(double lo, double hi) {
        std::uniform_real_distribution<double> u(0, 1);
        return lo + (hi - lo) * u(rng);
    }

    static double concreteInput(const std::string &name, double lo, double hi) {
        auto it = assignment.find(name);
        double v;
        std::uniform_real_distribution<double> u(0, 1);
        if (it == assignment.end()) v = perturb > 0 ? sampleIn(lo, hi) : (lo + hi) / 2;
        else {
            v = it->second;
            if (perturb > 0) {
                double r = u(rng);
                if (r < perturb * 0.4) v = sampleIn(lo, hi);
                else if (r < perturb) {
                    std::normal_distribution<double> n(0, 1);
                    double s = std::pow(10., -6 * u(rng));
                    v += s * n(rng) * (std::fabs(v) + 0.1);
                    v = std::min(hi, std::max(lo, v));
                }
            }
        }
        v = std::min(hi, std::max(lo, v));
        usedInputs[name] = v;
        return v;
    }

    bool hasInput(const std::string &name) { return !symbolic() && assignment.count(name); }

    static void currentInputs(const std::function<void(int)> &f) {
        if (P) for (int i: P->inputs) f(i);
    }

    V inVar(const std::string &name, double lo, double hi) {
        if (!symbolic()) return V{concreteInput(name, lo, hi), nullptr};
        for (int i: P->inputs)
            if (G().atoms[i].kind == VAR && G().atoms[i].name == name) return atomV(i);
        // an input with another range is another atom: what is known about the sign of an atom holds on every path
        char range[80];
        snprintf(range, sizeof range, "[%.17g,%.17g]", lo, hi);
        int a = getAtom(VAR, name, {}, range);
        G().atoms[a].lo = lo;
        G().atoms[a].hi = hi;
        G().atoms[a].bounded = true;
        if (lo > 0) G().atoms[a].positive = true;
        if (lo >= 0) G().atoms[a].nonneg = true;
        V v = atomV(a);
        if (std::find(P->inputs.begin(), P->inputs.end(), a) == P->inputs.end()) {
            P->inputs.push_back(a);
            assumeC(cAnd(cRel(LE, V{lo, nullptr}, v), cRel(LE, v, V{hi, nullptr})));
        }
        return v;
    }

    V inVarFree(const std::string &name) {
        if (!symbolic()) return V{concreteInput(name, -10, 10), nullptr};
        for (int i: P->inputs)
            if (G().atoms[i].kind == VAR && G().atoms[i].name == name) return atomV(i);
        int a = getAtom(VAR, name, {});
        V v = atomV(a);
        if (std::find(P->inputs.begin(), P->inputs.end(), a) == P->inputs.end()) {
            P->inputs.push_back(a);
            touchV(v);
        }
        return v;
    }

    static std::string ufKey(const std::string &name, const std::vector<V> &args) {
        std::string k = name + "(";
        for (auto &a: args) {
            char b[40];
            snprintf(b, sizeof b, "%.12g,", a.d);
            k += b;
        }
        return k + ")";
    }

    // concrete mode: interpolation table for each function of one argument
    static std::map<std::string, std::vector<std::pair<std::vector<double>, double>>> ufTable;

    V vUF(const std::string &name, const std::vector<V> &args, double lo, double hi) {
        if (!symbolic()) {
            auto &tab = ufTable[name];
            double best = 1e300, val = (lo + hi) / 2;
            for (auto &e: tab) {
                double d = 0;
                for (size_t i = 0; i < args.size(); ++i) d += std::fabs(e.first[i] - args[i].d);
                if (d < best) {
                    best = d;
                    val = e.second;
                }
            }
            return V{val, nullptr};
        }
        int a = getAtom(UF, name, args);
        G().atoms[a].lo = lo;
        G().atoms[a].hi = hi;
        G().atoms[a].bounded = true;
        V v = atomV(a);
        touchV(v);
        if (std::find(P->inputs.begin(), P->inputs.end(), a) == P->inputs.end()) P->inputs.push_back(a);
        return v;
    }

    int inChoose(const std::string &name, int lo, int hi) {
        if (!symbolic()) {
            auto it = assignment.find("choose:" + name);
            int v = it == assignment.end() ? lo : (int) it->second;
            v = std::min(hi, std::max(lo, v));
            usedInputs["choose:" + name] = v;
            return v;
        }
        if (lo == hi) {
            P->choices[name] = lo;
            return lo;
        }
        long v;
        if (P->pos < P->trace.size()) {
            Entry &en = P->trace[P->pos++];
            if (en.k != 'C') throw std::runtime_error("nondeterministic re-execution");
            v = en.v;
        } else {
            v = lo;
            for (int o = hi; o > lo; --o) {
                auto alt = P->trace;
                alt.push_back({'C', o, true});
                worklist.push_back(std::move(alt));
            }
            P->trace.push_back({'C', v, true});
            ++P->pos;
        }
        P->choices[name] = (int) v;
        return (int) v;
    }

    bool inBool(const std::string &name) { return inChoose(name, 0, 1) == 1; }

    V freshDef(const std::string &name, std::function<Cond(const V &)> axiom, double concrete) {
        if (!symbolic()) return V{concrete, nullptr};
        V v = atomV(getAtom(PLAIN, name, {}));
        touchV(v);
        assumeC(axiom(v));
        return v;
    }

    void assumeC(const Cond &c) {
        if (!symbolic()) {
            if (!c.c) throw PathEnd{"assumption", 0};
            return;
        }
        if (!c.e) {
            if (!c.c) throw PathEnd{"assumption", 1};
            return;
        }
        bool hadModel = (bool) P->model;
        assertPc(ex(c));
        (void) hadModel;
        // feasibility is verified lazily: by the next branch or check
    }

    static void feasibleOrEnd() {
        if (P->model) return;
        std::unique_ptr<z3::model> m;
        Res r = query(G().ctx.bool_val(true), branchTimeout, &m, false);
        if (r == UNSAT) throw PathEnd{"infeasible", 1};
        if (r == SAT && m) P->model = std::move(m);
    }

    void discard(const std::string &why) { throw PathEnd{why, 0}; }

    void note(const std::string &t) { ST.notes[t]++; }

    static std::map<std::string, double> modelInputs(const z3::model &m) {
        std::map<std::string, double> r;
        for (int a: P->inputs) {
            const Atom &at = G().atoms[a];
            if (at.kind == UF) {
                std::string key = "uf:" + at.name + "(";
                for (auto &x: at.args) {
                    V c = clearDen(x, false);
                    double d = 0;
                    if (c.p == x.p) d = modelD(m, zPolyT(x));
                    else {
                        V df = defAtom(x);
                        d = modelD(m, zPolyT(df));
                    }
                    char b[40];
                    snprintf(b, sizeof b, "%.17g;", d);
                    key += b;
                }
                r[key + ")"] = modelD(m, expr(G().ctx, at.z));
            } else r[at.name] = modelD(m, expr(G().ctx, at.z));
        }
        for (auto &c: P->choices) r["choose:" + c.first] = c.second;
        return r;
    }

    static size_t maxViolations = 6;

    static void recordViolation(const std::string &label, const std::string &why,
                                const std::vector<std::map<std::string, double>> &models) {
        Violation *v = nullptr;
        size_t n = 0;
        for (auto &x: ST.violations)
            if (x.label == label && x.detail == curDetail) {
                ++n;
                v = &x;
            }
        ST.labels[label].violated++;
        if (n >= maxViolations) return;
        (void) v;
        ST.violations.push_back({label, curDetail, why, models});
    }

    void fail(const std::string &label, const std::string &why) {
        if (foreign(label)) throw PathEnd{"a matter of another property: " + why, 0};
        if (!symbolic()) {
            concreteViolation = label;
            concreteWhy = why;
            throw PathEnd{"violation", 3};
        }
        ST.labels[label].checked++;
        std::unique_ptr<z3::model> m;
        Res r = query(G().ctx.bool_val(true), checkTimeout, &m, true);
        if (r == UNSAT) throw PathEnd{"infeasible", 1};
        if (r == UNK || !m) {
            ST.labels[label].unknown++;
            throw PathEnd{"violation on a path of unknown feasibility", 3};
        }
        recordViolation(label, why, {modelInputs(*m)});
        throw PathEnd{"violation", 3};
    }

    static std::string targetLabel;

    // obligations of other properties are skipped
    static bool foreign(const std::string &label) {
        static const char *prop = getenv("SX_PROP");
        return prop && *prop && label.size() > 4 && label[0] == 'C' && label[3] == '.' &&
               label.compare(0, 3, prop) != 0;
    }

    static bool exactly = false;

    void checkExactC(const std::string &label, const Cond &c) {
        exactly = true;
        try {
            checkC(label, c);
        } catch (...) {
            exactly = false;
            throw;
        }
        exactly = false;
    }

    bool rounding = false;

    void setRounding(bool b) { rounding = b && symbolic(); }

    // the floating-point number nearest to the exact result of one operation
    V vRounded(const V &v) {
        if (!symbolic()) return v;
        if (!v.p) return v;
        Q q;
        if (constQ(v, q)) return V{q.get_d(), nullptr};
        if (v.p->t.size() == 1) {
            const Term &t = v.p->t[0];
            const auto &f = G().monos[t.m].f;
            Q c = abs(t.c);
            bool pow2 = (c.get_num() == 1 || c.get_den() == 1) &&
                        mpz_popcount(c.get_num().get_mpz_t()) == 1 && mpz_popcount(c.get_den().get_mpz_t()) == 1;
            if (pow2 && f.size() == 1 && f[0].second == 1) return v;
        }
        return atomV(getAtom(RND, "fl", {v}));
    }

    void checkC(const std::string &label, const Cond &c) {
        if (foreign(label)) return;
        if (!symbolic()) {
            ccalls[label]++;
            // tolerate rounding noise in the comparisons of the specification
            if (!c.c && (exactly || c.slack > 1e-9)) {
                concreteViolation = label;
                concreteWhy = "condition is false";
                throw PathEnd{"violation", 3};
            }
            return;
        }
        LabelStat &ls = ST.labels[label];
        ls.checked++;
        if (!c.e && c.c) {
            // the normal form already decided it; keep the obligation in the solver's log
            ls.trivial++;
            expr t = G().ctx.bool_val(false);
            Res r = query(t, checkTimeout, nullptr, true);
            if (r == UNSAT) ls.discharged++;
            else ls.unknown++;
            return;
        }
        std::unique_ptr<z3::model> m;
        Res r = query(!ex(c), checkTimeout, &m, true);
        if (r == UNSAT) {
            ls.discharged++;
            return;
        }
        if (r == UNK || !m) {
            ls.unknown++;
            assertPc(ex(c));
            return;
        }
        std::ostringstream os;
        os << "condition can be false";
        recordViolation(label, os.str(), {modelInputs(*m)});
        // continue on the paths where it holds
        if (!c.e) throw PathEnd{"violation", 3};
        assertPc(ex(c));
        P->model.reset();
        feasibleOrEnd();
    }

    // a large polynomial difference is seldom zero by accident: the solver is asked for a counterexample with
    // most of the inputs fixed first (a satisfiable answer is a counterexample, any other one decides nothing)
    static bool pinnedModel(const V &diff, double tol, std::unique_ptr<z3::model> *m) {
        std::set<int> atoms;
        polyAtoms(diff, atoms);
        unsigned seed = 12345;
        for (int attempt = 0; attempt < 4; ++attempt) {
            std::map<std::string, V> pins;
            expr e = G().ctx.bool_val(true);
            for (int a: atoms) {
                const Atom &at = G().atoms[a];
                if (at.kind != VAR || !at.bounded) continue;
                seed = seed * 1103515245u + 12345u;
                int k = 1 + (int) (seed >> 16) % 62;
                V v{at.lo + (at.hi - at.lo) * k / 64., nullptr};
                pins[at.name] = v;
                e = e && ex(cRel(EQ, atomV(a), v));
            }
            if (pins.empty()) return false;
            V d = substitute(diff, [&](const std::string &n, V &v) {
                auto it = pins.find(n);
                if (it == pins.end()) return false;
                v = it->second;
                return true;
            });
            Cond c = tol == 0 ? cRel(EQ, d, V{0., nullptr})
                              : cAnd(cRel(LE, d, V{tol, nullptr}), cRel(LE, V{-tol, nullptr}, d));
            if (!c.e && c.c) continue;
            expr ask = c.e ? e && !ex(c) : e;
            try {
                z3::params p(G().ctx);
                p.set("timeout", 2000u);
                S->set(p);
                S->push();
                S->add(ask);
                ++ST.queries;
                double t0 = now();
                auto r = S->check();
                ST.solverTime += now() - t0;
                if (r == z3::sat) m->reset(new z3::model(S->get_model()));
                S->pop();
                if (r == z3::sat) return true;
            } catch (z3::exception &) {
                try { S->pop(); } catch (...) {}
            }
        }
        return false;
    }

    // the same at points that satisfy the path condition
    static bool pinnedAtModel(const V &diff, double tol, std::unique_ptr<z3::model> *m) {
        std::set<int> atoms;
        polyAtoms(diff, atoms);
        std::vector<int> vars;
        for (int a: atoms)
            if (G().atoms[a].kind == VAR && G().atoms[a].bounded) vars.push_back(a);
        if (vars.size() < 2) return false;
        std::unique_ptr<z3::model> at;
        if (query(G().ctx.bool_val(true), 2000, &at, false) != SAT || !at) return false;
        // (the last input is moved by small and larger steps)
        for (size_t k = 0; k < vars.size() && k < 3; ++k)
            for (double step: {1e-5, -1e-5, 1e-4, -1e-4, 1e-3, -1e-3, 1e-2, -1e-2, 0.}) {
                std::map<std::string, V> pins;
                expr e = G().ctx.bool_val(true);
                for (int a: vars) {
                    const Atom &x = G().atoms[a];
                    double d = modelD(*at, expr(G().ctx, x.z));
                    if (a == vars[k]) d = std::min(x.hi, std::max(x.lo, d + step));
                    V v{d, nullptr};
                    pins[x.name] = v;
                    e = e && ex(cRel(EQ, atomV(a), v));
                }
                V d = substitute(diff, [&](const std::string &n, V &v) {
                    auto it = pins.find(n);
                    if (it == pins.end()) return false;
                    v = it->second;
                    return true;
                });
                double far = 0, t = std::max(1e-6, 2 * tol);
                if (!isConst(d, &far)) return false;
                if (std::fabs(far) <= t) continue;
                try {
                    z3::params p(G().ctx);
                    p.set("timeout", 500u);
                    S->set(p);
                    S->push();
                    S->add(e);
                    ++ST.queries;
                    double t0 = now();
                    auto r = S->check();
                    ST.solverTime += now() - t0;
                    if (r == z3::sat) m->reset(new z3::model(S->get_model()));
                    S->pop();
                    if (r == z3::sat) return true;
                } catch (z3::exception &) {
                    try { S->pop(); } catch (...) {}
                }
            }
        return false;
    }

    // a bound of the absolute value, from the ranges of the inputs
    static double boundOf(const V &v) {
        if (!v.p) return std::fabs(v.d);
        double sum = 0;
        for (auto &t: v.p->t) {
            double b = std::fabs(t.c.get_d()) * (1 + 1e-12);
            for (auto &x: G().monos[t.m].f) {
                const Atom &a = G().atoms[x.first];
                if (!a.bounded) return INFINITY;
                double most = std::max(std::fabs(a.lo), std::fabs(a.hi));
                if (x.second < 0) {
                    if (!(a.lo > 0)) return INFINITY;
                    most = 1 / a.lo;
                }
                b *= std::pow(most, std::abs(x.second)) * (1 + 1e-12);
            }
            sum += b;
        }
        return sum * (1 + 1e-9);
    }

    void checkEqV(const std::string &label, const V &a, const V &b, double tol, double ctol) {
        if (foreign(label)) return;
        if (!symbolic()) {
            ccalls[label]++;
            double diff = std::fabs(a.d - b.d), sc = 1 + std::max(std::fabs(a.d), std::fabs(b.d));
            if (std::isnan(a.d) && std::isnan(b.d)) return;
            if (!(diff <= std::max(tol * 1.001, ctol * sc))) {
                concreteViolation = label;
                std::ostringstream os;
                os.precision(17);
                os << a.d << " vs expected " << b.d;
                concreteWhy = os.str();
                throw PathEnd{"violation", 3};
            }
            return;
        }
        V diff = vSub(a, b);
        auto within = [&](double t) {
            if (t == 0) return cRel(EQ, diff, V{0., nullptr});
            return cAnd(cRel(LE, diff, V{t, nullptr}), cRel(LE, V{-t, nullptr}, diff));
        };
        Cond c = within(tol);
        LabelStat &ls = ST.labels[label];
        if (!c.e && c.c) {
            checkC(label, c);
            return;
        }
        ls.checked++;
        if (tol > 0 && boundOf(diff) <= tol) {
            ls.discharged++;
            ls.trivial++;
            return;
        }
        std::unique_ptr<z3::model> m;
        bool large = false; // nonlinear
        if (diff.p && diff.p->t.size() > 3)
            for (auto &t: diff.p->t) {
                int deg = 0;
                for (auto &x: G().monos[t.m].f) deg += std::abs(x.second);
                large |= deg > 1;
            }
        Res r = UNK;
        bool pinned = large && (pinnedModel(diff, tol, &m) || pinnedAtModel(diff, tol, &m));
        if (pinned) r = SAT;
        else r = query(!ex(c), checkTimeout, &m, true);
        if (r == UNSAT) {
            ls.discharged++;
            return;
        }
        if (r == UNK || !m) {
            ls.unknown++;
            assertPc(ex(c));
            return;
        }
        std::vector<std::map<std::string, double>> models;
        if (pinned) {
            models.push_back(modelInputs(*m));
            recordViolation(label, "values can differ: " + vStr(a).substr(0, 200) + "  vs  " + vStr(b).substr(0, 200), models);
            throw PathEnd{"violation", 3};
        }
        for (double marg: {1., 1e-2, 1e-4}) {
            if (marg <= tol) continue;
            std::unique_ptr<z3::model> m2;
            Cond cm = within(marg);
            if (query(!ex(cm), branchTimeout, &m2, false) == SAT && m2) {
                models.push_back(modelInputs(*m2));
                break;
            }
        }
        models.push_back(modelInputs(*m));
        recordViolation(label, "values can differ: " + vStr(a).substr(0, 200) + "  vs  " + vStr(b).substr(0, 200), models);
        if (!c.e || large) throw PathEnd{"violation", 3};
        assertPc(ex(c));
        P->model.reset();
        feasibleOrEnd();
    }

    void reach(const std::string &label) {
        if (!symbolic()) return;
        if (ST.reached[label] < 3) {
            std::unique_ptr<z3::model> m;
            Res r = query(G().ctx.bool_val(true), checkTimeout, &m, true);
            if (r == UNSAT) throw PathEnd{"infeasible", 1};
            if (r != SAT) return;
            if (ST.samples.size() < 8 && m) {
                std::ostringstream os;
                os << label << ":";
                int n = 0;
                for (auto &x: modelInputs(*m)) {
                    if (++n > 24) break;
                    os << " " << x.first << "=" << x.second;
                }
                ST.samples.push_back(os.str());
            }
        }
        ST.reached[label]++;
    }

    std::string vStr(const V &v) {
        std::ostringstream os;
        if (!v.p) {
            os << v.d;
            return os.str();
        }
        int n = 0;
        for (auto &t: v.p->t) {
            if (++n > 12) {
                os << " + ...(" << v.p->t.size() << " terms)";
                break;
            }
            if (n > 1) os << " + ";
            double c = t.c.get_d();
            os << c;
            for (auto &x: G().monos[t.m].f) {
                os << "*" << G().atoms[x.first].name;
                if (G().atoms[x.first].kind != VAR && G().atoms[x.first].kind != PLAIN) os << "!" << x.first;
                if (x.second != 1) os << "^" << x.second;
            }
        }
        return os.str();
    }

    void vPrint(std::ostream &os, const V &v) {
        if (!symbolic()) os << v.d;
        else os << vStr(v);
    }

    void assertionFailed(const char *what, const char *file, int line) {
        std::ostringstream os;
        os << "assertion failed: " << what << " at " << file << ":" << line;
        throw EngineAssert(os.str());
    }

    // ================================================================== driver
    struct Harness {
        std::string name;
        void (*f)();
        std::string props, opts;
    };

    static std::vector<Harness> &harnesses() {
        static std::vector<Harness> h;
        return h;
    }

    HarnessReg::HarnessReg(const char *name, void (*f)(), const char *props, const char *opts) {
        harnesses().push_back({name, f, props, opts});
    }

    static sigjmp_buf jmp;
    static volatile sig_atomic_t jmpArmed = 0;

    static void onSignal(int sig) {
        if (jmpArmed) {
            jmpArmed = 0;
            siglongjmp(jmp, sig);
        }
        _exit(128 + sig);
    }

    static std::string esc(const std::string &s) {
        std::string r;
        for (char c: s) {
            if (c == '"' || c == '\\') {
                r += '\\';
                r += c;
            } else if (c == '\n') r += "\\n";
            else if ((unsigned char) c < 32) r += ' ';
            else r += c;
        }
        return r;
    }

    static std::string num(double d) {
        char b[40];
        if (!std::isfinite(d)) return "0";
        snprintf(b, sizeof b, "%.17g", d);
        return b;
    }

    static void onePath(Harness &h) { // throws nothing
        rounding = false;
        exactly = false;
        inPathExec = true;
        try {
            try {
                h.f();
                if (symbolic()) ST.paths++;
            } catch (PathEnd &) {
                throw;
            } catch (EngineAssert &e) {
                fail("crash:assertion", e.what());
            } catch (z3::exception &e) {
                fail("engine:z3", e.msg());
            } catch (std::exception &e) {
                fail("crash:exception", e.what());
            }
        } catch (PathEnd &e) {
            if (symbolic()) {
                if (e.kind == 0) {
                    ST.discardedPaths++;
                    ST.discards[e.why]++;
                } else if (e.kind == 1) ST.infeasiblePaths++;
                else if (e.kind == 2) {
                    ST.budgetPaths++;
                    ST.discards[e.why]++;
                    if (budgetViolates) {
                        try { fail("termination", e.why); } catch (PathEnd &) {}
                    }
                }
            } else if (e.kind == 2) {
                concreteViolation = "termination";
                concreteWhy = "the operation budget was exceeded (" + std::to_string(concreteOpsBudget) + " operations)";
            }
        }
        inPathExec = false;
    }

    static std::vector<Entry> parseTrace(const std::string &s) {
        std::vector<Entry> r;
        std::istringstream is(s);
        std::string tok;
        while (is >> tok) {
            Entry e;
            e.k = tok[0];
            size_t c = tok.find(':');
            e.v = atol(tok.substr(1, c - 1).c_str());
            e.taken = tok[c + 1] == '1';
            r.push_back(e);
        }
        return r;
    }

    static std::string traceStr(const std::vector<Entry> &t) {
        std::string r;
        for (auto &e: t) {
            if (!r.empty()) r += ' ';
            r += e.k + std::to_string(e.v) + ":" + (e.taken ? "1" : "0");
        }
        return r;
    }

    static void writeOut(const std::string &out, const Harness &h, bool complete) {
        std::ofstream os(out);
        os << "{\"harness\":\"" << esc(h.name) << "\",\"complete\":" << (complete ? "true" : "false");
        os << ",\"paths\":" << ST.paths << ",\"discarded\":" << ST.discardedPaths << ",\"budget\":" << ST.budgetPaths
           << ",\"infeasible\":" << ST.infeasiblePaths << ",\"branches\":" << ST.branches << ",\"queries\":"
           << ST.queries << ",\"unknown\":" << ST.unknown << ",\"fallbacks\":" << ST.fallbacks << ",\"solver_s\":"
           << num(ST.solverTime) << ",\"crashed\":" << ST.crashed;
        os << ",\"labels\":{";
        bool first = true;
        for (auto &l: ST.labels) {
            os << (first ? "" : ",") << "\"" << esc(l.first) << "\":[" << l.second.checked << "," << l.second.discharged
               << "," << l.second.violated << "," << l.second.unknown << "," << l.second.trivial << "]";
            first = false;
        }
        os << "}";
        auto mapOut = [&](const char *n, const std::map<std::string, long> &m) {
            os << ",\"" << n << "\":{";
            bool f = true;
            for (auto &x: m) {
                os << (f ? "" : ",") << "\"" << esc(x.first) << "\":" << x.second;
                f = false;
            }
            os << "}";
        };
        mapOut("reached", ST.reached);
        mapOut("discards", ST.discards);
        mapOut("notes", ST.notes);
        os << ",\"samples\":[";
        first = true;
        for (auto &s: ST.samples) {
            os << (first ? "" : ",") << "\"" << esc(s) << "\"";
            first = false;
        }
        os << "],\"violations\":[";
        first = true;
        for (auto &v: ST.violations) {
            os << (first ? "" : ",") << "{\"label\":\"" << esc(v.label) << "\",\"detail\":\"" << esc(v.detail)
               << "\",\"why\":\"" << esc(v.why) << "\",\"models\":[";
            bool f2 = true;
            for (auto &m: v.models) {
                os << (f2 ? "" : ",") << "{";
                bool f3 = true;
                for (auto &x: m) {
                    os << (f3 ? "" : ",") << "\"" << esc(x.first) << "\":" << num(x.second);
                    f3 = false;
                }
                os << "}";
                f2 = false;
            }
            os << "]}";
            first = false;
        }
        os << "],\"left\":[";
        first = true;
        for (auto &w: worklist) {
            os << (first ? "" : ",") << "\"" << traceStr(w) << "\"";
            first = false;
        }
        os << "]}\n";
    }

    static int runSymbolic(Harness &h, const std::string &prefixes, double timeSlice, long maxPaths,
                           const std::string &out) {
        S.reset(new z3::solver(G().ctx));
        if (!prefixes.empty()) {
            std::ifstream is(prefixes);
            std::string line;
            while (std::getline(is, line)) worklist.push_back(parseTrace(line));
        } else worklist.push_back({});
        double t0 = now();
        long n = 0;
        while (!worklist.empty()) {
            if (n && (now() - t0 > timeSlice || n >= maxPaths)) break;
            ++n;
            Path path;
            // mostly depth first; regularly an arbitrary open prefix, so that an exploration that does not end
            // within its budget is spread over the tree
            static uint64_t lcg = 88172645463325252ULL;
            lcg = lcg * 6364136223846793005ULL + 1442695040888963407ULL;
            if (n % 3 == 0 && worklist.size() > 1)
                std::swap(worklist.back(), worklist[(lcg >> 33) % worklist.size()]);
            path.trace = std::move(worklist.back());
            worklist.pop_back();
            P = &path;
            S->push();
            int sig = sigsetjmp(jmp, 1);
            if (sig == 0) {
                jmpArmed = 1;
                onePath(h);
                jmpArmed = 0;
            } else {
                ST.crashed++;
                try {
                    fail("crash:signal", "signal " + std::to_string(sig));
                } catch (PathEnd &) {
                }
                P = nullptr;
                // the state of z3 may be damaged by the long jump only if the crash was inside z3
            }
            P = nullptr;
            S->pop();
            long viol = 0;
            for (auto &v: ST.violations) viol += 1;
            if (viol >= 12) break;
        }
        writeOut(out, h, worklist.empty());
        return 0;
    }

    static int runConcrete(Harness &h, const std::string &replay, const std::string &label, long tries,
                           const std::string &out, unsigned long seed) {
        // replay file: lines "name value"
        std::map<std::string, double> base;
        {
            std::ifstream is(replay);
            std::string line;
            while (std::getline(is, line)) {
                size_t p = line.rfind('\t');
                if (p == std::string::npos) continue;
                base[line.substr(0, p)] = strtod(line.c_str() + p + 1, nullptr);
            }
        }
        for (auto &x: base)
            if (x.first.rfind("uf:", 0) == 0) {
                size_t p = x.first.find('(');
                std::string nm = x.first.substr(3, p - 3);
                std::vector<double> args;
                std::istringstream is(x.first.substr(p + 1));
                std::string tok;
                while (std::getline(is, tok, ';')) {
                    if (tok == ")") break;
                    args.push_back(strtod(tok.c_str(), nullptr));
                }
                ufTable[nm].push_back({args, x.second});
            }
        assignment = base;
        replayLabel = label;
        rng.seed(seed);
        long done = 0;
        double t0 = now();
        for (long i = 0; i < tries; ++i) {
            ++done;
            perturb = i == 0 ? 0 : (i % 4 == 1 ? 0.02 : i % 4 == 2 ? 0.15 : i % 4 == 3 ? 0.5 : 1.);
            usedInputs.clear();
            concreteViolation.clear();
            concreteOps = 0;
            ccounters.clear();
            int sig = sigsetjmp(jmp, 1);
            if (sig == 0) {
                jmpArmed = 1;
                onePath(h);
                jmpArmed = 0;
            } else concreteViolation = "crash:signal", concreteWhy = "signal " + std::to_string(sig);
            if (concreteViolation.rfind("C", 0) == 0 && label.rfind("numeric:", 0) == 0) concreteViolation = label;
            bool crashy = concreteViolation.rfind("crash", 0) == 0 && label.rfind("crash", 0) == 0;
            // a native run ends at its first violation: any one of the same property confirms
            bool same = label.size() > 4 && label[0] == 'C' && label[3] == '.' && concreteViolation.compare(0, 4, label, 0, 4) == 0;
            if (!concreteViolation.empty() && (label.empty() || concreteViolation == label || crashy || same)) {
                std::ofstream os(out);
                os << "{\"reproduced\":true,\"tries\":" << done << ",\"label\":\"" << esc(concreteViolation)
                   << "\",\"why\":\"" << esc(concreteWhy) << "\",\"inputs\":{";
                bool f = true;
                for (auto &x: usedInputs) {
                    os << (f ? "" : ",") << "\"" << esc(x.first) << "\":" << num(x.second);
                    f = false;
                }
                for (auto &x: base)
                    if (x.first.rfind("uf:", 0) == 0) {
                        os << (f ? "" : ",") << "\"" << esc(x.first) << "\":" << num(x.second);
                        f = false;
                    }
                os << "}}\n";
                return 0;
            }
            if (now() - t0 > 15) break;
        }
        std::ofstream os(out);
        os << "{\"reproduced\":false,\"tries\":" << done << ",\"last\":\"" << esc(concreteViolation) << "\"}\n";
        return 0;
    }

    int runMain(int argc, char **argv) {
        std::string name, prefixes, out = "/dev/stdout", replay, label;
        double slice = 1e9;
        long maxPaths = 1000000000L, tries = 1;
        unsigned long seed = 1;
        bool list = false;
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            auto next = [&]() { return std::string(argv[++i]); };
            if (a == "--list") list = true;
            else if (a == "--harness") name = next();
            else if (a == "--prefixes") prefixes = next();
            else if (a == "--out") out = next();
            else if (a == "--slice") slice = atof(next().c_str());
            else if (a == "--max-paths") maxPaths = atol(next().c_str());
            else if (a == "--replay") replay = next();
            else if (a == "--label") label = next();
            else if (a == "--tries") tries = atol(next().c_str());
            else if (a == "--tier") g_tier = next() == "thorough";
            else if (a == "--seed") seed = strtoul(next().c_str(), nullptr, 10);
        }
        if (list) {
            for (auto &h: harnesses()) std::cout << h.name << "\t" << h.props << "\t" << h.opts << "\n";
            return 0;
        }
        // alternate stack: stack overflows are crashes, too
        static char altstack[1 << 16];
        stack_t ss{};
        ss.ss_sp = altstack;
        ss.ss_size = sizeof altstack;
        sigaltstack(&ss, nullptr);
        struct sigaction sa{};
        sa.sa_handler = onSignal;
        sa.sa_flags = SA_ONSTACK | SA_NODEFER;
        for (int s: {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) sigaction(s, &sa, nullptr);
        for (auto &h: harnesses())
            if (h.name == name) {
                curHarness = name;
                if (symbolic()) return runSymbolic(h, prefixes, slice, maxPaths, out);
                return runConcrete(h, replay, label, tries, out, seed);
            }
        std::cerr << "no such harness: " << name << "\n";
        return 3;
    }
}

int main(int argc, char **argv) { return sx::runMain(argc, argv); }
