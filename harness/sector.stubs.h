// sector group: the eta functions are symbols; their algebra is used by the specification
#include "util/calculateEta.h"
template<> Eigen::Array<sx::SymT<1>, MATSLISE_ETA_delta, 1> calculateEta<sx::SymT<1>, MATSLISE_ETA_delta>(sx::SymT<1>);
template<> Eigen::Array<sx::SymT<1>, MATSLISE_ETA_h, 1> calculateEta<sx::SymT<1>, MATSLISE_ETA_h>(sx::SymT<1>);
