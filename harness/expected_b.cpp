#include "expected.hpp"
namespace exph {
const std::vector<Config> trackedB{
    {"throwing error", history<Nx, MvE>},
    {"throwing assignment", history<As, CpE>},
    {"move-only", history<Mo, MoE>},
};
}  // namespace exph
