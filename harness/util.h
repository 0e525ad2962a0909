// helpers shared by the harnesses
#pragma once
#include <sstream>
#include <sstream>

template<typename N>
inline std::string sxn(const std::string &name, N i) {
    std::ostringstream s;
    s << name << i;
    return s.str();
}
