// Model of the Sleipnir autodiff API that TrajoptLib uses (Sleipnir main,
// 2024-06-23).  It is NOT Sleipnir: expressions are recorded as a DAG and can be
// evaluated at any assignment of the decision variables, which lets the checks
// decide membership in the feasible set of the problem TrajoptLib states.
#pragma once

#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <concepts>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <limits>
#include <memory>
#include <numbers>
#include <numeric>
#include <optional>
#include <set>
#include <span>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>

namespace sleipnir {

enum class ExpressionType : uint8_t {
  kNone,
  kConstant,
  kLinear,
  kQuadratic,
  kNonlinear
};

namespace detail {

enum class Op : uint8_t {
  kConst, kDecision, kAdd, kSub, kMul, kDiv, kNeg,
  kAbs, kAcos, kAsin, kAtan, kAtan2, kCos, kCosh, kErf, kExp, kHypot, kLog,
  kLog10, kPow, kSign, kSin, kSinh, kSqrt, kTan, kTanh, kMin, kMax
};

struct Expression {
  Op op = Op::kConst;
  double value = 0.0;
  ExpressionType type = ExpressionType::kConstant;
  std::shared_ptr<Expression> args[2];
  uint64_t epoch = 0;
  double memo = 0.0;

  bool IsConstant(double c) const {
    return op == Op::kConst && value == c;
  }
};

using ExpressionPtr = std::shared_ptr<Expression>;

inline uint64_t NextEpoch() {
  // Distinct streams per thread so that memos of different threads never mix.
  static thread_local uint64_t epoch =
      (reinterpret_cast<uintptr_t>(&epoch) << 20) | 1u;
  return ++epoch;
}

inline double Evaluate(Expression* e, uint64_t epoch) {
  if (e->op == Op::kConst || e->op == Op::kDecision) {
    return e->value;
  }
  if (e->epoch == epoch) {
    return e->memo;
  }
  double a = Evaluate(e->args[0].get(), epoch);
  double b = e->args[1] ? Evaluate(e->args[1].get(), epoch) : 0.0;
  double r = 0.0;
  switch (e->op) {
    case Op::kAdd: r = a + b; break;
    case Op::kSub: r = a - b; break;
    case Op::kMul: r = a * b; break;
    case Op::kDiv: r = a / b; break;
    case Op::kNeg: r = -a; break;
    case Op::kAbs: r = std::abs(a); break;
    case Op::kAcos: r = std::acos(a); break;
    case Op::kAsin: r = std::asin(a); break;
    case Op::kAtan: r = std::atan(a); break;
    case Op::kAtan2: r = std::atan2(a, b); break;
    case Op::kCos: r = std::cos(a); break;
    case Op::kCosh: r = std::cosh(a); break;
    case Op::kErf: r = std::erf(a); break;
    case Op::kExp: r = std::exp(a); break;
    case Op::kHypot: r = std::hypot(a, b); break;
    case Op::kLog: r = std::log(a); break;
    case Op::kLog10: r = std::log10(a); break;
    case Op::kPow: r = std::pow(a, b); break;
    case Op::kSign: r = a < 0.0 ? -1.0 : (a == 0.0 ? 0.0 : 1.0); break;
    case Op::kSin: r = std::sin(a); break;
    case Op::kSinh: r = std::sinh(a); break;
    case Op::kSqrt: r = std::sqrt(a); break;
    case Op::kTan: r = std::tan(a); break;
    case Op::kTanh: r = std::tanh(a); break;
    case Op::kMin: r = std::min(a, b); break;
    case Op::kMax: r = std::max(a, b); break;
    default: break;
  }
  e->epoch = epoch;
  e->memo = r;
  return r;
}

inline ExpressionPtr MakeConstant(double v) {
  auto p = std::make_shared<Expression>();
  p->value = v;
  return p;
}

inline ExpressionPtr Make(Op op, ExpressionPtr a, ExpressionPtr b = nullptr) {
  auto p = std::make_shared<Expression>();
  p->op = op;
  bool constant = a->type == ExpressionType::kConstant &&
                  (!b || b->type == ExpressionType::kConstant);
  auto degree = [](const ExpressionPtr& e) {
    switch (e->type) {
      case ExpressionType::kNone:
      case ExpressionType::kConstant: return 0;
      case ExpressionType::kLinear: return 1;
      case ExpressionType::kQuadratic: return 2;
      default: return 3;
    }
  };
  int d = 3;
  if (constant) {
    d = 0;
  } else if (op == Op::kAdd || op == Op::kSub) {
    d = std::max(degree(a), degree(b));
  } else if (op == Op::kNeg) {
    d = degree(a);
  } else if (op == Op::kMul) {
    d = std::min(3, degree(a) + degree(b));
  } else if (op == Op::kDiv && degree(b) == 0) {
    d = degree(a);
  }
  p->type = std::array{ExpressionType::kConstant, ExpressionType::kLinear,
                       ExpressionType::kQuadratic,
                       ExpressionType::kNonlinear}[static_cast<size_t>(d)];
  p->args[0] = std::move(a);
  p->args[1] = std::move(b);
  return p;
}

inline void Support(const Expression* e, std::set<const Expression*>& seen,
                    std::set<const Expression*>& leaves) {
  if (!seen.insert(e).second) {
    return;
  }
  if (e->op == Op::kDecision) {
    leaves.insert(e);
  }
  for (auto& a : e->args) {
    if (a) {
      Support(a.get(), seen, leaves);
    }
  }
}

}  // namespace detail

/// Autodiff variable: a shared handle on an expression, as in Sleipnir.
class Variable {
 public:
  detail::ExpressionPtr expr = detail::MakeConstant(0.0);

  Variable() = default;
  Variable(double value) : expr{detail::MakeConstant(value)} {}  // NOLINT
  Variable(int value) : expr{detail::MakeConstant(value)} {}     // NOLINT
  explicit Variable(detail::ExpressionPtr e) : expr{std::move(e)} {}

  Variable& operator=(double value) {
    expr = detail::MakeConstant(value);
    return *this;
  }
  Variable& operator=(int value) {
    expr = detail::MakeConstant(value);
    return *this;
  }

  Variable& SetValue(double value) {
    if (expr->IsConstant(0.0)) {
      expr = detail::MakeConstant(value);
    } else {
      // Real Sleipnir warns when this is a dependent variable and the write is
      // then overwritten by the next update; here it has no effect either.
      expr->value = value;
    }
    return *this;
  }
  Variable& SetValue(int value) { return SetValue(double(value)); }

  double Value() const {
    return detail::Evaluate(expr.get(), detail::NextEpoch());
  }
  void Update() {}
  ExpressionType Type() const { return expr->type; }

  friend Variable operator+(const Variable& l, const Variable& r) {
    return Variable{detail::Make(detail::Op::kAdd, l.expr, r.expr)};
  }
  friend Variable operator-(const Variable& l, const Variable& r) {
    return Variable{detail::Make(detail::Op::kSub, l.expr, r.expr)};
  }
  friend Variable operator*(const Variable& l, const Variable& r) {
    return Variable{detail::Make(detail::Op::kMul, l.expr, r.expr)};
  }
  friend Variable operator/(const Variable& l, const Variable& r) {
    return Variable{detail::Make(detail::Op::kDiv, l.expr, r.expr)};
  }
  friend Variable operator-(const Variable& l) {
    return Variable{detail::Make(detail::Op::kNeg, l.expr)};
  }
  friend Variable operator+(const Variable& l) { return l; }

  Variable& operator+=(const Variable& r) { return *this = *this + r; }
  Variable& operator-=(const Variable& r) { return *this = *this - r; }
  Variable& operator*=(const Variable& r) { return *this = *this * r; }
  Variable& operator/=(const Variable& r) { return *this = *this / r; }
};

#define SLEIPNIR_MODEL_UNARY(name, op)                     \
  inline Variable name(const Variable& x) {                \
    return Variable{detail::Make(detail::Op::op, x.expr)}; \
  }
SLEIPNIR_MODEL_UNARY(abs, kAbs)
SLEIPNIR_MODEL_UNARY(acos, kAcos)
SLEIPNIR_MODEL_UNARY(asin, kAsin)
SLEIPNIR_MODEL_UNARY(atan, kAtan)
SLEIPNIR_MODEL_UNARY(cos, kCos)
SLEIPNIR_MODEL_UNARY(cosh, kCosh)
SLEIPNIR_MODEL_UNARY(erf, kErf)
SLEIPNIR_MODEL_UNARY(exp, kExp)
SLEIPNIR_MODEL_UNARY(log, kLog)
SLEIPNIR_MODEL_UNARY(log10, kLog10)
SLEIPNIR_MODEL_UNARY(sign, kSign)
SLEIPNIR_MODEL_UNARY(sin, kSin)
SLEIPNIR_MODEL_UNARY(sinh, kSinh)
SLEIPNIR_MODEL_UNARY(sqrt, kSqrt)
SLEIPNIR_MODEL_UNARY(tan, kTan)
SLEIPNIR_MODEL_UNARY(tanh, kTanh)
#undef SLEIPNIR_MODEL_UNARY

inline Variable atan2(const Variable& y, const Variable& x) {
  return Variable{detail::Make(detail::Op::kAtan2, y.expr, x.expr)};
}
inline Variable hypot(const Variable& x, const Variable& y) {
  return Variable{detail::Make(detail::Op::kHypot, x.expr, y.expr)};
}
inline Variable hypot(const Variable& x, const Variable& y, const Variable& z) {
  return sqrt(x * x + y * y + z * z);
}
inline Variable pow(const Variable& base, const Variable& power) {
  return Variable{detail::Make(detail::Op::kPow, base.expr, power.expr)};
}
inline Variable min(const Variable& a, const Variable& b) {
  return Variable{detail::Make(detail::Op::kMin, a.expr, b.expr)};
}
inline Variable max(const Variable& a, const Variable& b) {
  return Variable{detail::Make(detail::Op::kMax, a.expr, b.expr)};
}

}  // namespace sleipnir

// In Sleipnir the comparison operators come with Constraints.hpp, which
// Variable users always reach; keep one place.
#include "sleipnir/optimization/Constraints.hpp"
