// piece group: the pieces are made by the harness
#include "liouville.h"
template<> matslise::LiouvilleTransformation<sx::SymT<1>>::LiouvilleTransformation(
        const matslise::Domain<sx::SymT<1>> &, const Function &, const Function &, const Function &);
