// turns group: transfer matrices are given; linear systems and eigenvalues as their specification says
#include <complex>
#include "matscs.h"
#include "util/calculateEta.h"
#define SX_S sx::SymT<1>
#define SX_C matslise::Matscs<SX_S>
template<> SX_C::Sector::Sector(const SX_C *, const SX_S &, const SX_S &, matslise::Direction);
template<> matslise::T<SX_S, Eigen::Dynamic> SX_C::Sector::calculateT(const SX_S &, const SX_S &, bool) const;
template<> matslise::T<SX_S, Eigen::Dynamic> SX_C::Sector::calculateT(const SX_S &, bool) const;
template<> Eigen::Array<SX_S, 2, 1> calculateEta<SX_S, 2>(SX_S);

#undef SX_S
#undef SX_C
#include "solvers.h"
