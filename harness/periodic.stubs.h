// periodic group: the propagation, the eigenfunctions of the separated problem and the eigensolver are the environment
// of PeriodicMatslise
#include <complex>
#define SX_S sx::SymT<1>
#define SX_M matslise::Matslise<SX_S>
template<> SX_M::Sector::Sector(const SX_M *, const SX_S &, const SX_S &, matslise::Direction);
template<> template<> std::pair<matslise::Y<SX_S, 1, 2>, Eigen::Array<SX_S, 2, 1>> SX_M::propagate<2>(
        const SX_S &, const matslise::Y<SX_S, 1, 2> &, const SX_S &, const SX_S &, bool) const;
template<> std::unique_ptr<typename SX_M::Eigenfunction> SX_M::eigenfunction(
        const SX_S &, const matslise::Y<SX_S> &, const matslise::Y<SX_S> &, int) const;

namespace Eigen {
    // the eigenvalues and eigenvectors of a matrix of two by two
    template<>
    class EigenSolver<Matrix<SX_S, 2, 2>> {
    public:
        typedef Matrix<std::complex<SX_S>, 2, 1> EigenvalueType;
        typedef Matrix<std::complex<SX_S>, 2, 2> EigenvectorsType;

        EigenSolver() = default;
        explicit EigenSolver(const Matrix<SX_S, 2, 2> &m, bool = true) { compute(m); }
        EigenSolver &compute(const Matrix<SX_S, 2, 2> &m, bool = true);
        const EigenvalueType &eigenvalues() const { return values; }
        EigenvectorsType eigenvectors() const { return vectors; }
        ComputationInfo info() const { return Success; }

    private:
        EigenvalueType values;
        EigenvectorsType vectors;
    };
}
#undef SX_S
#undef SX_M
