#pragma once

#include <functional>
#include <optional>
#include <utility>
#include <vector>

#include "sleipnir/autodiff/Variable.hpp"
#include "sleipnir/autodiff/VariableMatrix.hpp"
#include "sleipnir/optimization/Constraints.hpp"
#include "sleipnir/optimization/SolverConfig.hpp"
#include "sleipnir/optimization/SolverExitCondition.hpp"
#include "sleipnir/optimization/SolverIterationInfo.hpp"
#include "sleipnir/optimization/SolverStatus.hpp"

namespace sleipnir {

class OptimizationProblem;

namespace model {
/// What Solve() does on this thread.  The harness installs a script.
inline thread_local std::function<SolverStatus(OptimizationProblem&,
                                               const SolverConfig&)>
    onSolve;
}  // namespace model

class OptimizationProblem {
 public:
  OptimizationProblem() = default;

  [[nodiscard]] Variable DecisionVariable() {
    auto e = std::make_shared<detail::Expression>();
    e->op = detail::Op::kDecision;
    e->type = ExpressionType::kLinear;
    return decisionVariables.emplace_back(Variable{e});
  }
  [[nodiscard]] VariableMatrix DecisionVariable(int rows, int cols = 1) {
    VariableMatrix m{rows, cols};
    for (auto& v : m) {
      v = DecisionVariable();
    }
    return m;
  }

  void Minimize(const Variable& cost) { objective = cost; }
  void Maximize(const Variable& o) { objective = -o; }

  void SubjectTo(const EqualityConstraints& c) {
    equality.insert(equality.end(), c.constraints.begin(), c.constraints.end());
  }
  void SubjectTo(const InequalityConstraints& c) {
    inequality.insert(inequality.end(), c.constraints.begin(),
                      c.constraints.end());
  }

  template <typename F>
    requires std::invocable<F&, const SolverIterationInfo&>
  void Callback(F&& f) {
    using R = std::invoke_result_t<F&, const SolverIterationInfo&>;
    if constexpr (std::same_as<R, void>) {
      callback = [f = std::forward<F>(f)](const SolverIterationInfo& i) mutable {
        f(i);
        return false;
      };
    } else {
      callback = [f = std::forward<F>(f)](const SolverIterationInfo& i) mutable {
        return static_cast<bool>(f(i));
      };
    }
  }

  SolverStatus Solve(const SolverConfig& config = SolverConfig{}) {
    // A copy, so that the script may install others while it runs.
    if (auto script = model::onSolve) {
      return script(*this, config);
    }
    return {};
  }

  // The record, read by the harness.
  std::vector<Variable> decisionVariables;
  std::vector<Variable> equality;
  std::vector<Variable> inequality;
  std::optional<Variable> objective;
  std::function<bool(const SolverIterationInfo&)> callback =
      [](const SolverIterationInfo&) { return false; };
};

}  // namespace sleipnir
