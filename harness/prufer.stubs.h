// prufer group: a sector is its mean potential, its width and the reference potential
template<> matslise::Matslise<sx::SymT<1>>::Sector::Sector(
        const matslise::Matslise<sx::SymT<1>> *, const sx::SymT<1> &, const sx::SymT<1> &, matslise::Direction);
