// Legendre projection with the tables of long double: polynomials with arbitrary coefficients.
// sx: tags 1
// sx: cxx g++
// sx: opt -O0 -std=gnu++17
// sx: skip matscs liouville matslise util
// sx: libs -Wl,--unresolved-symbols=ignore-all -lquadmath
#include "legendre.h"

HARNESS(legendre_long_double, "C11", "quick=25 thorough=200 crash=C11") { sizes<long double>(); }
