// a floating-point type of many digits, for native runs of the real code
#pragma once
#include <boost/multiprecision/cpp_bin_float.hpp>
#include <boost/multiprecision/eigen.hpp>
#include "util/legendre.h"
typedef boost::multiprecision::number<boost::multiprecision::backends::cpp_bin_float<300>, boost::multiprecision::et_off> Multi;
namespace matslise::legendre {
    template<> inline const Eigen::Array<Multi, 16, 1> nodes<Multi, 16> = Eigen::Array<Multi, 16, 1>::Zero();
    template<> inline const Eigen::Array<Multi, 16, 16> weights<Multi, 16> = Eigen::Array<Multi, 16, 16>::Zero();
}

#include <pthread.h>
#include <functional>
namespace {
    // the unoptimised formulas need megabytes of stack with so many digits
    inline void withLargeStack(const std::function<void()> &f) {
        pthread_attr_t attr;
        pthread_attr_init(&attr);
        pthread_attr_setstacksize(&attr, 1ul << 30);
        pthread_t t;
        if (pthread_create(&t, &attr, [](void *p) -> void * {
            (*(const std::function<void()> *) p)();
            return nullptr;
        }, (void *) &f))
            return;
        pthread_join(t, nullptr);
    }
}
