// Included before anything else in every translation unit (forced include).
#pragma once
#include "sx.h"
#define eigen_assert(x) \
    do { if (!(x)) ::sx::assertionFailed(#x, __FILE__, __LINE__); } while (false)
#define EIGEN_DONT_VECTORIZE
#define EIGEN_DONT_PARALLELIZE
#include <Eigen/Dense>
#include <unsupported/Eigen/KroneckerProduct>

namespace Eigen {
    template<int Tag>
    struct NumTraits<sx::SymT<Tag>> : GenericNumTraits<sx::SymT<Tag>> {
        typedef sx::SymT<Tag> Real;
        typedef sx::SymT<Tag> NonInteger;
        typedef sx::SymT<Tag> Nested;
        typedef sx::SymT<Tag> Literal;
        enum {
            IsComplex = 0, IsInteger = 0, IsSigned = 1, RequireInitialization = 1,
            ReadCost = 1, AddCost = 3, MulCost = 3
        };
        static inline Real epsilon() { return Real(std::numeric_limits<double>::epsilon()); }
        static inline Real dummy_precision() { return Real(1e-12); }
        static inline Real highest() { return Real(1e300); }
        static inline Real lowest() { return Real(-1e300); }
        static inline Real infinity() { return Real(1e300); }
        static inline Real quiet_NaN() { return Real(1e300); }
        static inline int digits10() { return 15; }
        static inline int max_digits10() { return 17; }
    };
}
