// mesh group: what a sector costs (its error estimate) and its mean potential are inputs
#include "matscs.h"
template<> matslise::Matslise<sx::SymT<1>>::Sector::Sector(
        const matslise::Matslise<sx::SymT<1>> *, const sx::SymT<1> &, const sx::SymT<1> &, matslise::Direction);
template<> sx::SymT<1> matslise::Matslise<sx::SymT<1>>::Sector::error() const;
template<> matslise::Matscs<sx::SymT<1>>::Sector::Sector(
        const matslise::Matscs<sx::SymT<1>> *, const sx::SymT<1> &, const sx::SymT<1> &, matslise::Direction);
template<> sx::SymT<1> matslise::Matscs<sx::SymT<1>>::Sector::error() const;
