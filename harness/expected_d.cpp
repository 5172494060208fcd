#include "expected.hpp"
namespace exph {
const std::vector<Config> plainB{
    {"int, tracked", history<int, CpE>},
    {"tracked, int", history<Cp, int>},
    {"void, int", history<void, int>},
    {"void, string", history<void, std::string>},
    {"void, tracked", history<void, CpE>},
};
}  // namespace exph
