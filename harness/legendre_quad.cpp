// Legendre projection with the tables of Quad: polynomials with arbitrary coefficients.
// sx: tags 1
// sx: cxx g++
// sx: opt -O0 -std=gnu++17
// sx: skip matscs liouville matslise util
// sx: libs -Wl,--unresolved-symbols=ignore-all -lquadmath
#include "legendre.h"

HARNESS(legendre_quad, "C11", "quick=25 thorough=200 crash=C11") { sizes<Quad>(); }
