// The part of cxx's rust/cxx.h that a bridge like lib.rs's can use.
#pragma once

#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <exception>
#include <initializer_list>
#include <iterator>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>

namespace rust {
inline namespace cxxbridge1 {

template <typename T>
class Vec final {
 public:
  using value_type = T;
  using iterator = typename std::vector<T>::iterator;
  using const_iterator = typename std::vector<T>::const_iterator;
  Vec() noexcept = default;
  Vec(std::initializer_list<T> l) : v{l} {}
  Vec(const Vec&) = default;
  // Moved-from vectors are empty, as in cxx.
  Vec(Vec&& o) noexcept : v{std::exchange(o.v, {})} {}
  Vec& operator=(Vec&& o) & noexcept {
    v = std::exchange(o.v, {});
    return *this;
  }
  Vec& operator=(const Vec&) & = default;

  std::size_t size() const noexcept { return v.size(); }
  bool empty() const noexcept { return v.empty(); }
  const T* data() const noexcept { return v.data(); }
  T* data() noexcept { return v.data(); }
  std::size_t capacity() const noexcept { return v.capacity(); }
  const T& operator[](std::size_t n) const noexcept { return v[n]; }
  const T& at(std::size_t n) const {
    if (n >= v.size()) throw std::out_of_range("rust::Vec index out of range");
    return v[n];
  }
  const T& front() const noexcept { return v.front(); }
  const T& back() const noexcept { return v.back(); }
  T& operator[](std::size_t n) noexcept { return v[n]; }
  T& at(std::size_t n) {
    if (n >= v.size()) throw std::out_of_range("rust::Vec index out of range");
    return v[n];
  }
  T& front() noexcept { return v.front(); }
  T& back() noexcept { return v.back(); }
  void reserve(std::size_t n) { v.reserve(n); }
  void push_back(const T& x) { v.push_back(x); }
  void push_back(T&& x) { v.push_back(std::move(x)); }
  template <typename... A>
  void emplace_back(A&&... a) {
    v.push_back(T{std::forward<A>(a)...});
  }
  void truncate(std::size_t n) { v.resize(std::min(n, v.size())); }
  void clear() { v.clear(); }
  iterator begin() noexcept { return v.begin(); }
  iterator end() noexcept { return v.end(); }
  const_iterator begin() const noexcept { return v.begin(); }
  const_iterator end() const noexcept { return v.end(); }
  const_iterator cbegin() const noexcept { return v.begin(); }
  const_iterator cend() const noexcept { return v.end(); }
  void swap(Vec& o) noexcept { v.swap(o.v); }

 private:
  std::vector<T> v;
};
template <typename T>
void swap(Vec<T>& a, Vec<T>& b) noexcept { a.swap(b); }

class String final {
 public:
  String() noexcept = default;
  String(const std::string& s) : s{s} {}
  String(const char* s) : s{s} {}
  explicit operator std::string() const { return s; }
  const char* data() const noexcept { return s.data(); }
  std::size_t size() const noexcept { return s.size(); }
  std::size_t length() const noexcept { return s.size(); }
  bool empty() const noexcept { return s.empty(); }
  const char* c_str() { return s.c_str(); }

 private:
  std::string s;
};

class Str final {
 public:
  Str() noexcept = default;
  Str(const std::string& s) : s{s} {}
  Str(const char* s) : s{s} {}
  explicit operator std::string() const { return std::string{s}; }
  const char* data() const noexcept { return s.data(); }
  std::size_t size() const noexcept { return s.size(); }
  std::size_t length() const noexcept { return s.size(); }
  bool empty() const noexcept { return s.empty(); }

 private:
  std::string_view s;
};

template <typename Signature>
class Fn;
/// A Rust `fn`: a plain function that does not unwind.
template <typename R, typename... A>
class Fn<R(A...)> final {
 public:
  Fn(R (*f)(A...)) : f{f} {}
  R operator()(A... a) const noexcept { return f(std::move(a)...); }

 private:
  R (*f)(A...);
};

class Error final : public std::exception {
 public:
  explicit Error(std::string m) : m{std::move(m)} {}
  const char* what() const noexcept override { return m.c_str(); }

 private:
  std::string m;
};

template <typename T>
struct IsRelocatable : std::true_type {};

using u8 = std::uint8_t;
using u64 = std::uint64_t;
using i32 = std::int32_t;
using i64 = std::int64_t;
using usize = std::size_t;
using f64 = double;
using string = String;
using str = Str;
template <class T>
using vec = Vec<T>;
template <typename S>
using fn = Fn<S>;

}  // namespace cxxbridge1
}  // namespace rust
