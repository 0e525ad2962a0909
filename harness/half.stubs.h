// half group: the spectrum, the error estimate, the matching error and the eigenfunctions of the half
// problem are the environment of MatsliseHalf and AbstractMatslise
#define SX_S sx::SymT<1>
#define SX_M matslise::Matslise<SX_S>
template<> SX_M::Sector::Sector(const SX_M *, const SX_S &, const SX_S &, matslise::Direction);
template<> std::vector<std::pair<int, SX_S>> SX_M::eigenvaluesByIndex(
        int, int, const matslise::Y<SX_S> &, const matslise::Y<SX_S> &) const;
template<> std::vector<std::pair<int, SX_S>> SX_M::eigenvalues(
        const SX_S &, const SX_S &, const matslise::Y<SX_S> &, const matslise::Y<SX_S> &) const;
template<> SX_S SX_M::eigenvalueError(
        const SX_S &, const matslise::Y<SX_S> &, const matslise::Y<SX_S> &, int) const;
template<> std::tuple<SX_S, SX_S, SX_S> SX_M::matchingError(
        const SX_S &, const matslise::Y<SX_S> &, const matslise::Y<SX_S> &, bool) const;
template<> std::unique_ptr<typename SX_M::Eigenfunction> SX_M::eigenfunction(
        const SX_S &, const matslise::Y<SX_S> &, const matslise::Y<SX_S> &, int) const;
#undef SX_S
#undef SX_M
