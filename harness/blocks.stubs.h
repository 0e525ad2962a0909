// blocks group: the eta functions are symbols, the eigenvectors of the mean potential are given;
// linear systems are solved as their specification says (the QR decompositions are the environment)
#include "util/calculateEta.h"
#include "formula_constants.h"
#define SX_S sx::SymT<1>
template<> Eigen::Array<SX_S, 2, 1> calculateEta<SX_S, 2>(SX_S);
template<> Eigen::Array<SX_S, MATSCS_ETA_delta, 1> calculateEta<SX_S, MATSCS_ETA_delta>(SX_S);
template<> Eigen::Array<SX_S, MATSCS_ETA_h, 1> calculateEta<SX_S, MATSCS_ETA_h>(SX_S);
namespace sx {
    typedef Eigen::Matrix<SX_S, Eigen::Dynamic, Eigen::Dynamic> Block;
    Block eigenvectors(const Block &m);
}
namespace Eigen {
    template<> class SelfAdjointEigenSolver<sx::Block> {
    public:
        template<typename D> explicit SelfAdjointEigenSolver(const EigenBase<D> &m, int = 0) : vectors(sx::eigenvectors(m.derived())) {}
        const sx::Block &eigenvectors() const { return vectors; }
    private:
        sx::Block vectors;
    };
}
#undef SX_S
#include "solvers.h"
