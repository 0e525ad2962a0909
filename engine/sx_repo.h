// Included at the end of every unit of the library (from the replaced util/instantiate.h) and by the
// harnesses: the quadrature tables of the library, taken over for the symbolic scalar.
#ifndef SX_REPO_H
#define SX_REPO_H
#include "matslise.h"
#include "util/legendre.h"

namespace sx {
    template<typename S, typename A>
    A tableFrom(const A &, const S &) { return A(); }

    template<int Tag, int R, int C, typename From>
    Eigen::Array<SymT<Tag>, R, C> exactTable(const From &from) {
        Eigen::Array<SymT<Tag>, R, C> r;
        for (int i = 0; i < R; ++i)
            for (int j = 0; j < C; ++j)
                r(i, j) = SymT<Tag>(V{(double) from(i, j), nullptr});
        return r;
    }
}

namespace matslise::legendre {
#define SX_TABLE(Tag, n) \
    template<> inline const Eigen::Array<sx::SymT<Tag>, n, 1> nodes<sx::SymT<Tag>, n> = sx::exactTable<Tag, n, 1>(nodes<double, n>); \
    template<> inline const Eigen::Array<sx::SymT<Tag>, n, n> weights<sx::SymT<Tag>, n> = sx::exactTable<Tag, n, n>(weights<double, n>);
#define SX_TABLES(Tag) SX_TABLE(Tag, 2) SX_TABLE(Tag, 4) SX_TABLE(Tag, 6) SX_TABLE(Tag, 8) \
    SX_TABLE(Tag, 10) SX_TABLE(Tag, 12) SX_TABLE(Tag, 14) SX_TABLE(Tag, 16) SX_TABLE(Tag, 18)
    SX_TABLES(0)
    SX_TABLES(1)
    SX_TABLES(2)
    SX_TABLES(3)
}
#endif
