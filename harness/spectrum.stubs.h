// spectrum group: the matching error is the environment of the eigenvalue search
template<> matslise::Matslise<sx::SymT<1>>::Sector::Sector(
        const matslise::Matslise<sx::SymT<1>> *, const sx::SymT<1> &, const sx::SymT<1> &, matslise::Direction);
template<> std::tuple<sx::SymT<1>, sx::SymT<1>, sx::SymT<1>> matslise::Matslise<sx::SymT<1>>::matchingError(
        const sx::SymT<1> &, const matslise::Y<sx::SymT<1>> &, const matslise::Y<sx::SymT<1>> &, bool) const;
template<> std::unique_ptr<typename matslise::Matslise<sx::SymT<1>>::Eigenfunction>
matslise::Matslise<sx::SymT<1>>::eigenfunction(
        const sx::SymT<1> &, const matslise::Y<sx::SymT<1>> &, const matslise::Y<sx::SymT<1>> &, int) const;
