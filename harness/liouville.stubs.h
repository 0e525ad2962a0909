// liouville group: the representation of a piece is the environment
#include "liouville.h"
template<> matslise::LiouvilleTransformation<sx::SymT<1>>::Piece::Piece(
        const matslise::LiouvilleTransformation<sx::SymT<1>> &, const matslise::Domain<sx::SymT<1>> &);
