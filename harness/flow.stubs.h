// flow group: the transfer matrix of a sector is an arbitrary symbolic matrix of determinant one, the
// angle a solution advances over a sector and the initial angle are arbitrary symbolic values
template<> matslise::Matslise<sx::SymT<1>>::Sector::Sector(
        const matslise::Matslise<sx::SymT<1>> *, const sx::SymT<1> &, const sx::SymT<1> &, matslise::Direction);
template<> matslise::T<sx::SymT<1>> matslise::Matslise<sx::SymT<1>>::Sector::calculateT(
        const sx::SymT<1> &, const sx::SymT<1> &, bool) const;
template<> matslise::T<sx::SymT<1>> matslise::Matslise<sx::SymT<1>>::Sector::calculateT(const sx::SymT<1> &, bool) const;
template<> template<> sx::SymT<1> matslise::Matslise<sx::SymT<1>>::Sector::prufer<1>(
        const sx::SymT<1> &, const sx::SymT<1> &, const matslise::Y<sx::SymT<1>, 1, 1> &,
        const matslise::Y<sx::SymT<1>, 1, 1> &) const;
template<> template<> Eigen::Array<sx::SymT<1>, 2, 1> matslise::Matslise<sx::SymT<1>>::Sector::prufer<2>(
        const sx::SymT<1> &, const sx::SymT<1> &, const matslise::Y<sx::SymT<1>, 1, 2> &,
        const matslise::Y<sx::SymT<1>, 1, 2> &) const;
template<> sx::SymT<1> matslise::Matslise<sx::SymT<1>>::Sector::theta0(
        const sx::SymT<1> &, const matslise::Y<sx::SymT<1>> &) const;
