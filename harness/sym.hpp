// Evaluating recorded constraints.
#pragma once

#include <cmath>
#include <memory>
#include <set>
#include <unordered_map>
#include <utility>
#include <vector>

#include <sleipnir/optimization/OptimizationProblem.hpp>

#include "pbt.hpp"

namespace sym {

/// A problem whose variables the harness assigns.
struct Space {
  sleipnir::OptimizationProblem problem;
  sleipnir::Variable var(double v) {
    auto x = problem.DecisionVariable();
    x.SetValue(v);
    return x;
  }
};

/// Largest amount by which any constraint is missed (inf if not finite).
inline double violation(const std::vector<sleipnir::Variable>& eq,
                        const std::vector<sleipnir::Variable>& ineq) {
  double worst = 0;
  for (auto& c : eq) {
    double v = c.Value();
    if (!std::isfinite(v)) return INFINITY;
    worst = std::max(worst, std::fabs(v));
  }
  for (auto& c : ineq) {
    double v = c.Value();
    if (!std::isfinite(v)) return INFINITY;
    worst = std::max(worst, -v);
  }
  return worst;
}

inline double violation(const sleipnir::OptimizationProblem& p) {
  return violation(p.equality, p.inequality);
}

/// Largest magnitude of any node of an expression: its rounding errors are a
/// few ulp of that.
inline double scale(sleipnir::detail::Expression* e, uint64_t epoch,
                    std::set<const void*>& seen) {
  if (!seen.insert(e).second) return 0;
  double m = std::fabs(sleipnir::detail::Evaluate(e, epoch));
  for (auto& a : e->args) {
    if (a) m = std::max(m, scale(a.get(), epoch, seen));
  }
  return m;
}
inline double scale(const sleipnir::Variable& v) {
  std::set<const void*> seen;
  return scale(v.expr.get(), sleipnir::detail::NextEpoch(), seen);
}

/// Whether a constraint is met at the current values, allowing for rounding
/// relative to the largest number that occurs in it.
inline bool metEq(const sleipnir::Variable& c, double tol = 1e-10) {
  double v = c.Value();
  return v == 0 || std::fabs(v) <= tol * scale(c);
}
inline bool metIneq(const sleipnir::Variable& c, double tol = 1e-12) {
  double v = c.Value();
  return v >= 0 || v >= -tol * scale(c);
}
inline bool accepts(const sleipnir::OptimizationProblem& p) {
  for (auto& c : p.equality)
    if (!metEq(c)) return false;
  for (auto& c : p.inequality)
    if (!metIneq(c)) return false;
  return true;
}

/// Whether an expression and its first derivatives by the decision variables
/// are finite at the current values, by reverse accumulation with the rules that
/// Sleipnir differentiates by.
inline bool differentiable(const sleipnir::Variable& v) {
  using sleipnir::detail::Expression;
  using sleipnir::detail::Op;
  using sleipnir::ExpressionType;
  auto epoch = sleipnir::detail::NextEpoch();
  if (!std::isfinite(sleipnir::detail::Evaluate(v.expr.get(), epoch))) return false;
  std::vector<Expression*> order;
  std::unordered_map<Expression*, double> adjoint;
  std::vector<std::pair<Expression*, bool>> stack{{v.expr.get(), false}};
  while (!stack.empty()) {
    auto [e, done] = stack.back();
    stack.pop_back();
    if (done) {
      order.push_back(e);
      continue;
    }
    if (e->type == ExpressionType::kConstant || !adjoint.emplace(e, 0.0).second) continue;
    stack.push_back({e, true});
    for (auto& a : e->args)
      if (a) stack.push_back({a.get(), false});
  }
  adjoint[v.expr.get()] = 1;
  auto value = [&](const std::shared_ptr<Expression>& e) { return sleipnir::detail::Evaluate(e.get(), epoch); };
  for (size_t i = order.size(); i-- > 0;) {
    Expression* e = order[i];
    double g = adjoint[e];
    if (!std::isfinite(g)) return false;
    if (e->op == Op::kConst || e->op == Op::kDecision) continue;
    double x = value(e->args[0]), y = e->args[1] ? value(e->args[1]) : 0, dx = 0, dy = 0;
    switch (e->op) {
      case Op::kAdd: dx = g; dy = g; break;
      case Op::kSub: dx = g; dy = -g; break;
      case Op::kMul: dx = g * y; dy = g * x; break;
      case Op::kDiv: dx = g / y; dy = g * -x / (y * y); break;
      case Op::kNeg: dx = -g; break;
      case Op::kAbs: dx = x < 0 ? -g : x > 0 ? g : 0; break;
      case Op::kAcos: dx = -g / std::sqrt(1 - x * x); break;
      case Op::kAsin: dx = g / std::sqrt(1 - x * x); break;
      case Op::kAtan: dx = g / (1 + x * x); break;
      case Op::kAtan2: dx = g * y / (x * x + y * y); dy = -g * x / (x * x + y * y); break;
      case Op::kCos: dx = -g * std::sin(x); break;
      case Op::kCosh: dx = g * std::sinh(x); break;
      case Op::kErf: dx = g * 2 / std::sqrt(std::acos(-1)) * std::exp(-x * x); break;
      case Op::kExp: dx = g * std::exp(x); break;
      case Op::kHypot: dx = g * x / std::hypot(x, y); dy = g * y / std::hypot(x, y); break;
      case Op::kLog: dx = g / x; break;
      case Op::kLog10: dx = g / (std::log(10.0) * x); break;
      case Op::kPow: dx = g * std::pow(x, y - 1) * y; dy = x == 0 ? 0 : g * std::pow(x, y - 1) * x * std::log(x); break;
      case Op::kSign: break;
      case Op::kSin: dx = g * std::cos(x); break;
      case Op::kSinh: dx = g * std::cosh(x); break;
      case Op::kSqrt: dx = g / (2 * std::sqrt(x)); break;
      case Op::kTan: dx = g / (std::cos(x) * std::cos(x)); break;
      case Op::kTanh: dx = g / (std::cosh(x) * std::cosh(x)); break;
      case Op::kMin: dx = x <= y ? g : 0; dy = x <= y ? 0 : g; break;
      case Op::kMax: dx = x >= y ? g : 0; dy = x >= y ? 0 : g; break;
      default: break;
    }
    for (int k = 0; k < 2; ++k) {
      auto& a = e->args[k];
      if (a && a->type != ExpressionType::kConstant) adjoint[a.get()] += k ? dy : dx;
    }
  }
  return true;
}

}  // namespace sym
