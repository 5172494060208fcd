#include "expected.hpp"
namespace exph {
const std::vector<Config> trackedA{
    {"nothrow", history<Nx, NxE>},
    {"throwing copies", history<Cp, CpE>},
    {"throwing value", history<Mv, NxE>},
};
}  // namespace exph
