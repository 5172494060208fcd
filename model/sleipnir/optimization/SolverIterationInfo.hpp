#pragma once
namespace sleipnir {
struct SolverIterationInfo {
  int iteration = 0;
};
}  // namespace sleipnir
