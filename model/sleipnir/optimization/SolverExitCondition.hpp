#pragma once
#include <stdint.h>
#include <string_view>

namespace sleipnir {

enum class SolverExitCondition : int8_t {
  kSuccess = 0,
  kSolvedToAcceptableTolerance = 1,
  kCallbackRequestedStop = 2,
  kTooFewDOFs = -1,
  kLocallyInfeasible = -2,
  kFeasibilityRestorationFailed = -3,
  kNonfiniteInitialCostOrConstraints = -4,
  kDivergingIterates = -5,
  kMaxIterationsExceeded = -6,
  kTimeout = -7
};

constexpr std::string_view ToMessage(const SolverExitCondition& c) {
  using enum SolverExitCondition;
  switch (c) {
    case kSuccess: return "solved to desired tolerance";
    case kSolvedToAcceptableTolerance: return "solved to acceptable tolerance";
    case kCallbackRequestedStop: return "callback requested stop";
    case kTooFewDOFs: return "problem has too few degrees of freedom";
    case kLocallyInfeasible: return "problem is locally infeasible";
    case kFeasibilityRestorationFailed:
      return "solver failed to reach the desired tolerance, and feasibility restoration failed to converge";
    case kNonfiniteInitialCostOrConstraints:
      return "solver encountered nonfinite initial cost or constraints and gave up";
    case kDivergingIterates:
      return "solver encountered diverging primal iterates and gave up";
    case kMaxIterationsExceeded: return "solution returned after maximum iterations exceeded";
    case kTimeout: return "solution returned after timeout";
    default: return "unknown";
  }
}

}  // namespace sleipnir
