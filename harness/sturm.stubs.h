// sturm group: the transformation and the transformed problem are the environment
#include "liouville.h"
#define SX_S sx::SymT<1>
#define SX_M matslise::Matslise<SX_S>
#define SX_LT matslise::LiouvilleTransformation<SX_S>
template<> SX_LT::LiouvilleTransformation(const matslise::Domain<SX_S> &, const Function &, const Function &, const Function &);
template<> SX_LT::Piece::Piece(const SX_LT &, const matslise::Domain<SX_S> &);
template<> SX_S SX_LT::r2x(SX_S) const;
template<> SX_S SX_LT::x2r(SX_S) const;
template<> SX_S SX_LT::V(SX_S) const;
template<> matslise::Y<SX_S> SX_LT::z2y(const SX_S &, const matslise::Y<SX_S> &) const;
template<> matslise::Y<SX_S> SX_LT::y2z(const SX_S &, const matslise::Y<SX_S> &) const;
template<> SX_M::Sector::Sector(const SX_M *, const SX_S &, const SX_S &, matslise::Direction);
template<> matslise::sector_builder::SectorBuilderReturn<SX_M>
matslise::sector_builder::AutomaticSectorBuilder<SX_M>::operator()(const SX_M *, const SX_S &, const SX_S &) const;
template<> std::vector<std::pair<int, SX_S>> SX_M::eigenvaluesByIndex(
        int, int, const matslise::Y<SX_S> &, const matslise::Y<SX_S> &) const;
template<> SX_S SX_M::eigenvalueError(
        const SX_S &, const matslise::Y<SX_S> &, const matslise::Y<SX_S> &, int) const;
template<> std::unique_ptr<typename SX_M::Eigenfunction> SX_M::eigenfunction(
        const SX_S &, const matslise::Y<SX_S> &, const matslise::Y<SX_S> &, int) const;
#undef SX_S
#undef SX_M
#undef SX_LT
