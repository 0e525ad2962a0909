// tally group: the sectors report arbitrary angles
#include "matscs.h"
#define SX_S sx::SymT<1>
#define SX_C matslise::Matscs<SX_S>
template<> SX_C::Sector::Sector(const SX_C *, const SX_S &, const SX_S &, matslise::Direction);
template<> std::pair<matslise::Y<SX_S, Eigen::Dynamic>, SX_S> SX_C::Sector::propagateDelta(
        const SX_S &, const matslise::Y<SX_S, Eigen::Dynamic> &, const SX_S &, bool) const;
#undef SX_S
#undef SX_C
