#include "expected.hpp"
namespace exph {
const std::vector<Config> plainA{
    {"int, int", history<int, int>},
    {"int, string", history<int, std::string>},
    {"string, int", history<std::string, int>},
    {"vector, string", history<std::vector<double>, std::string>},
};
}  // namespace exph
