// linear systems and eigenvalues as their specification says: the decompositions are the environment
#pragma once
#include <complex>
#include "matscs.h"
#define SX_S sx::SymT<1>
namespace sx {
    typedef std::complex<SX_S> Complex;
    typedef Eigen::Matrix<SX_S, Eigen::Dynamic, Eigen::Dynamic> Square;
    typedef Eigen::Matrix<Complex, Eigen::Dynamic, Eigen::Dynamic> ComplexSquare;
    Square linearSolve(const Square &m, const Square &rhs);
    ComplexSquare linearSolve(const ComplexSquare &m, const ComplexSquare &rhs);
    Eigen::Matrix<Complex, Eigen::Dynamic, 1> spectrum(const ComplexSquare &m);
    template<typename M> typename M::Scalar laplace(const M &m) {
        typedef typename M::Scalar R;
        if (m.rows() == 0) return R(1);
        if (m.rows() == 1) return m(0, 0);
        R d = m(0, 0) * laplace(M(m.bottomRightCorner(m.rows() - 1, m.cols() - 1)));
        for (int j = 1; j < m.cols(); ++j) {
            M minor(m.rows() - 1, m.cols() - 1);
            for (int r = 1; r < m.rows(); ++r)
                for (int c = 0, k = 0; c < m.cols(); ++c)
                    if (c != j) minor(r - 1, k++) = m(r, c);
            R t = m(0, j) * laplace(minor);
            if (j % 2) d -= t;
            else d += t;
        }
        return d;
    }
}

namespace Eigen {
#define SX_SOLVER(name, R) \
    template<int O> class name<Matrix<R, Dynamic, Dynamic, O, Dynamic, Dynamic>> { \
    public: \
        name() = default; \
        template<typename D> explicit name(const EigenBase<D> &m) : matrix(m.derived()) {} \
        template<typename D> name &compute(const EigenBase<D> &m) { matrix = m.derived(); return *this; } \
        template<typename D> Matrix<R, Dynamic, D::ColsAtCompileTime> solve(const MatrixBase<D> &b) const { \
            return sx::linearSolve(matrix, b.derived()); \
        } \
        Matrix<R, Dynamic, Dynamic> inverse() const { \
            return sx::linearSolve(matrix, Matrix<R, Dynamic, Dynamic>::Identity(matrix.rows(), matrix.rows())); \
        } \
        R determinant() const { return sx::laplace(matrix); } \
    private: \
        Matrix<R, Dynamic, Dynamic> matrix; \
    };
#define SX_SOLVERS(R) SX_SOLVER(HouseholderQR, R) SX_SOLVER(ColPivHouseholderQR, R) SX_SOLVER(FullPivHouseholderQR, R) \
    SX_SOLVER(PartialPivLU, R) SX_SOLVER(FullPivLU, R)
    SX_SOLVERS(SX_S)
    SX_SOLVERS(std::complex<SX_S>)

    template<int O> class ComplexEigenSolver<Matrix<std::complex<SX_S>, Dynamic, Dynamic, O, Dynamic, Dynamic>> {
    public:
        typedef Matrix<std::complex<SX_S>, Dynamic, 1> EigenvalueType;
        ComplexEigenSolver() = default;
        template<typename D> explicit ComplexEigenSolver(const EigenBase<D> &m, bool = true)
                : values(sx::spectrum(m.derived())) {}
        const EigenvalueType &eigenvalues() const { return values; }
    private:
        EigenvalueType values;
    };
}
#undef SX_SOLVER
#undef SX_SOLVERS
#undef SX_S
