// The angle of a coupled system over a mesh: Matscs::propagate and Sector::propagate add up what the sectors report.
//
// A sector reports an arbitrary function of how far the solution advances from its reference point (zero for no
// advance), with the opposite sign on the way back.
// sx: tags 1
// sx: libs -Wl,--unresolved-symbols=ignore-all
// sx: skip liouville matslise matscs/matscs_formulas.cpp
#include "matslise.h"
#include "tally.stubs.h"
#include "sx_repo.h"
#include "util.h"

using namespace matslise;
using namespace matslise::sector_builder;
typedef sx::SymT<1> S;
typedef Matscs<S> C;
typedef Y<S, Eigen::Dynamic> YN;

namespace {
    S energy;
    std::vector<const C::Sector *> all;

    // the angle at the distance d from the reference point of the sector, along its orientation
    S advance(const C::Sector *s, S d) {
        if (sx::branch(lt(s->h, d))) d = s->h;
        if (sx::branch(eq(d, S(0)))) return S(0);
        int k = 0;
        while (all[k] != s) ++k;
        return S(sx::vUF(sxn("angle", k), {d.v}, -50, 50));
    }
}

template<> C::Sector::Sector(const C *p, const S &min, const S &max, Direction d)
        : n(p->n), min(min), max(max), h(max - min), direction(d) {}

template<> std::pair<YN, S> C::Sector::propagateDelta(const S &E, const YN &y, const S &delta, bool) const {
    sx::checkC("C33.energy-unchanged", eq(E, energy));
    bool toRight = sx::branch(le(S(0), delta));
    S angle = advance(this, toRight ? delta : -delta);
    return {y, toRight ? angle : -angle};
}

namespace {
    struct Mesh : SectorBuilder<C> {
        std::vector<S> ends;
        std::vector<Direction> directions;

        SectorBuilderReturn<C> operator()(const C *p, const S &, const S &) const override {
            SectorBuilderReturn<C> r;
            all.clear();
            for (size_t i = 0; i + 1 < ends.size(); ++i) {
                r.sectors.push_back(std::make_unique<C::Sector>(p, ends[i], ends[i + 1], directions[i]));
                all.push_back(r.sectors.back().get());
            }
            r.matchIndex = 0;
            return r;
        }
    };

    // the angle over one sector from its left to x
    S upTo(const C::Sector *s, const S &x) {
        return s->direction == forward ? advance(s, x - s->min) : advance(s, s->h) - advance(s, s->max - x);
    }

    S total(const S &x) {
        S sum(0);
        for (auto *s: all) {
            if (sx::branch(le(s->max, x))) sum += advance(s, s->h);
            else return sum + upTo(s, x);
        }
        return sum;
    }
}

HARNESS(turns_mesh, "C33", "quick=40 thorough=300 crash=C33") {
    int most = sx::tier() ? 5 : 3, count = sx::inChoose("sectors", 1, most);
    sx::note(sxn("angles over a mesh: up to ", most) + " sectors, every orientation, end points anywhere in the domain");
    Mesh mesh;
    energy = S(sx::inVar("E", -100, 100));
    mesh.ends.push_back(S(sx::inVar("xmin", -10, 10)));
    for (int i = 0; i < count; ++i) {
        mesh.ends.push_back(mesh.ends.back() + S(sx::inVar(sxn("w", i), 0.1, 10)));
        mesh.directions.push_back(sx::inBool(sxn("backward", i)) ? backward : forward);
    }
    C ms([](const S &) { return Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>::Zero(1, 1); }, 1, mesh.ends[0], mesh.ends.back(), mesh);
    S a(sx::inVar("a", -40, 120)), b(sx::inVar("b", -40, 120));
    sx::assumeC(le(mesh.ends[0], a) && le(a, mesh.ends.back()) && le(mesh.ends[0], b) && le(b, mesh.ends.back()));
    YN y(1);
    S angle = ms.propagate(energy, y, a, b).second;
    sx::reach(sx::branch(lt(a, b)) ? "to the right" : sx::branch(lt(b, a)) ? "to the left" : "nowhere");
    sx::checkEq("C33.adds-up", angle, total(b) - total(a));
}
