// coupled group: the transfer matrices of the sectors of a coupled system are arbitrary; linear systems are solved as
// their specification says (the QR decompositions are the environment), and the unitary matrices of the angle are too
#include <complex>
#include "flow.stubs.h"
#include "matscs.h"
#define SX_S sx::SymT<1>
#define SX_C matslise::Matscs<SX_S>
template<> SX_C::Sector::Sector(const SX_C *, const SX_S &, const SX_S &, matslise::Direction);
template<> matslise::T<SX_S, Eigen::Dynamic> SX_C::Sector::calculateT(const SX_S &, const SX_S &, bool) const;
template<> matslise::T<SX_S, Eigen::Dynamic> SX_C::Sector::calculateT(const SX_S &, bool) const;
template<> typename SX_C::MatrixXcs SX_C::Sector::theta(const matslise::Y<SX_S, Eigen::Dynamic> &) const;
#undef SX_S
#undef SX_C
#include "solvers.h"
