#pragma once

#include "sleipnir/autodiff/Variable.hpp"

namespace sleipnir {

/// Dense matrix of variables (row-major).
class VariableMatrix {
 public:
  VariableMatrix() = default;
  explicit VariableMatrix(int rows) : VariableMatrix(rows, 1) {}
  VariableMatrix(int rows, int cols)
      : m_storage(static_cast<size_t>(rows) * cols), m_rows{rows}, m_cols{cols} {}
  VariableMatrix(std::initializer_list<std::initializer_list<Variable>> list) {
    m_rows = static_cast<int>(list.size());
    m_cols = m_rows ? static_cast<int>(list.begin()->size()) : 0;
    for (auto& row : list) {
      assert(static_cast<int>(row.size()) == m_cols);
      m_storage.insert(m_storage.end(), row.begin(), row.end());
    }
  }
  VariableMatrix(const std::vector<std::vector<Variable>>& list) {  // NOLINT
    m_rows = static_cast<int>(list.size());
    m_cols = m_rows ? static_cast<int>(list[0].size()) : 0;
    for (auto& row : list) {
      m_storage.insert(m_storage.end(), row.begin(), row.end());
    }
  }
  VariableMatrix(const Variable& v) : m_storage{v}, m_rows{1}, m_cols{1} {}  // NOLINT

  Variable& operator()(int r, int c) { return m_storage.at(static_cast<size_t>(r) * m_cols + c); }
  const Variable& operator()(int r, int c) const { return m_storage.at(static_cast<size_t>(r) * m_cols + c); }
  Variable& operator()(int r) { return m_storage.at(r); }
  const Variable& operator()(int r) const { return m_storage.at(r); }
  Variable& operator[](int r) { return m_storage.at(r); }
  const Variable& operator[](int r) const { return m_storage.at(r); }
  int Rows() const { return m_rows; }
  int Cols() const { return m_cols; }
  size_t size() const { return m_storage.size(); }
  double Value(int r, int c) const { return (*this)(r, c).Value(); }
  double Value(int r) const { return (*this)(r).Value(); }
  VariableMatrix T() const {
    VariableMatrix m{m_cols, m_rows};
    for (int r = 0; r < m_rows; ++r)
      for (int c = 0; c < m_cols; ++c) m(c, r) = (*this)(r, c);
    return m;
  }
  VariableMatrix Row(int r) const {
    VariableMatrix m{1, m_cols};
    for (int c = 0; c < m_cols; ++c) m(0, c) = (*this)(r, c);
    return m;
  }
  VariableMatrix Col(int c) const {
    VariableMatrix m{m_rows, 1};
    for (int r = 0; r < m_rows; ++r) m(r, 0) = (*this)(r, c);
    return m;
  }
  friend VariableMatrix operator+(const VariableMatrix& a, const VariableMatrix& b) {
    VariableMatrix m{a.m_rows, a.m_cols};
    for (size_t i = 0; i < a.size(); ++i) m.m_storage[i] = a.m_storage[i] + b.m_storage.at(i);
    return m;
  }
  friend VariableMatrix operator-(const VariableMatrix& a, const VariableMatrix& b) {
    VariableMatrix m{a.m_rows, a.m_cols};
    for (size_t i = 0; i < a.size(); ++i) m.m_storage[i] = a.m_storage[i] - b.m_storage.at(i);
    return m;
  }
  friend VariableMatrix operator-(const VariableMatrix& a) {
    VariableMatrix m{a.m_rows, a.m_cols};
    for (size_t i = 0; i < a.size(); ++i) m.m_storage[i] = -a.m_storage[i];
    return m;
  }
  friend VariableMatrix operator*(const VariableMatrix& a, const VariableMatrix& b) {
    if (b.m_rows == 1 && b.m_cols == 1 && a.m_cols != 1) {
      VariableMatrix m{a.m_rows, a.m_cols};
      for (size_t i = 0; i < a.size(); ++i) m.m_storage[i] = a.m_storage[i] * b.m_storage[0];
      return m;
    }
    assert(a.m_cols == b.m_rows);
    VariableMatrix m{a.m_rows, b.m_cols};
    for (int r = 0; r < a.m_rows; ++r)
      for (int c = 0; c < b.m_cols; ++c) {
        Variable s = 0.0;
        for (int k = 0; k < a.m_cols; ++k) s += a(r, k) * b(k, c);
        m(r, c) = s;
      }
    return m;
  }
  friend VariableMatrix operator*(const VariableMatrix& a, const Variable& b) {
    VariableMatrix m{a.m_rows, a.m_cols};
    for (size_t i = 0; i < a.size(); ++i) m.m_storage[i] = a.m_storage[i] * b;
    return m;
  }
  friend VariableMatrix operator*(const Variable& b, const VariableMatrix& a) { return a * b; }
  friend VariableMatrix operator*(const VariableMatrix& a, double b) { return a * Variable{b}; }
  friend VariableMatrix operator*(double b, const VariableMatrix& a) { return a * Variable{b}; }
  friend VariableMatrix operator/(const VariableMatrix& a, const Variable& b) {
    VariableMatrix m{a.m_rows, a.m_cols};
    for (size_t i = 0; i < a.size(); ++i) m.m_storage[i] = a.m_storage[i] / b;
    return m;
  }
  VariableMatrix& operator+=(const VariableMatrix& b) { return *this = *this + b; }
  VariableMatrix& operator-=(const VariableMatrix& b) { return *this = *this - b; }
  auto begin() { return m_storage.begin(); }
  auto end() { return m_storage.end(); }
  auto begin() const { return m_storage.begin(); }
  auto end() const { return m_storage.end(); }

 private:
  std::vector<Variable> m_storage;
  int m_rows = 0;
  int m_cols = 0;
};

template <typename T>
concept ScalarLike = std::same_as<std::remove_cvref_t<T>, double> ||
                     std::same_as<std::remove_cvref_t<T>, int> ||
                     std::same_as<std::remove_cvref_t<T>, Variable>;
template <typename T>
concept MatrixLike = std::same_as<std::remove_cvref_t<T>, VariableMatrix>;

namespace detail {
template <typename L, typename R>
std::vector<Variable> MakeConstraints(const L& l, const R& r) {
  std::vector<Variable> c;
  if constexpr (ScalarLike<L> && ScalarLike<R>) {
    c.emplace_back(Variable{l} - Variable{r});
  } else if constexpr (ScalarLike<L>) {
    for (auto& e : r) c.emplace_back(Variable{l} - e);
  } else if constexpr (ScalarLike<R>) {
    for (auto& e : l) c.emplace_back(e - Variable{r});
  } else {
    assert(l.Rows() == r.Rows() && l.Cols() == r.Cols());
    for (int i = 0; i < static_cast<int>(l.size()); ++i) c.emplace_back(l(i) - r(i));
  }
  return c;
}
}  // namespace detail

struct EqualityConstraints {
  std::vector<Variable> constraints;

  EqualityConstraints(std::initializer_list<EqualityConstraints> list) {
    for (auto& e : list) {
      constraints.insert(constraints.end(), e.constraints.begin(), e.constraints.end());
    }
  }
  explicit EqualityConstraints(const std::vector<EqualityConstraints>& list) {
    for (auto& e : list) {
      constraints.insert(constraints.end(), e.constraints.begin(), e.constraints.end());
    }
  }
  template <typename L, typename R>
    requires(ScalarLike<L> || MatrixLike<L>) && (ScalarLike<R> || MatrixLike<R>)
  EqualityConstraints(const L& l, const R& r)
      : constraints{detail::MakeConstraints(l, r)} {}

  operator bool() const {  // NOLINT
    return std::all_of(constraints.begin(), constraints.end(),
                       [](auto& c) { return c.Value() == 0.0; });
  }
};

struct InequalityConstraints {
  std::vector<Variable> constraints;

  InequalityConstraints(std::initializer_list<InequalityConstraints> list) {
    for (auto& e : list) {
      constraints.insert(constraints.end(), e.constraints.begin(), e.constraints.end());
    }
  }
  explicit InequalityConstraints(const std::vector<InequalityConstraints>& list) {
    for (auto& e : list) {
      constraints.insert(constraints.end(), e.constraints.begin(), e.constraints.end());
    }
  }
  template <typename L, typename R>
    requires(ScalarLike<L> || MatrixLike<L>) && (ScalarLike<R> || MatrixLike<R>)
  InequalityConstraints(const L& l, const R& r)
      : constraints{detail::MakeConstraints(l, r)} {}

  operator bool() const {  // NOLINT
    return std::all_of(constraints.begin(), constraints.end(),
                       [](auto& c) { return c.Value() >= 0.0; });
  }
};

template <typename L, typename R>
concept ConstraintOperands =
    (ScalarLike<L> || MatrixLike<L>) && (ScalarLike<R> || MatrixLike<R>) &&
    (std::same_as<L, Variable> || std::same_as<R, Variable> || MatrixLike<L> ||
     MatrixLike<R>);

template <typename L, typename R>
  requires ConstraintOperands<L, R>
EqualityConstraints operator==(const L& l, const R& r) {
  return EqualityConstraints{l, r};
}
template <typename L, typename R>
  requires ConstraintOperands<L, R>
InequalityConstraints operator>=(const L& l, const R& r) {
  return InequalityConstraints{l, r};
}
template <typename L, typename R>
  requires ConstraintOperands<L, R>
InequalityConstraints operator>(const L& l, const R& r) {
  return l >= r;
}
template <typename L, typename R>
  requires ConstraintOperands<L, R>
InequalityConstraints operator<=(const L& l, const R& r) {
  return InequalityConstraints{r, l};
}
template <typename L, typename R>
  requires ConstraintOperands<L, R>
InequalityConstraints operator<(const L& l, const R& r) {
  return l <= r;
}

}  // namespace sleipnir
