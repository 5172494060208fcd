#include <cstdio>
#include <memory>
#include <string>
#include "trajopt/util/expected"
struct Counted {
  static inline int live = 0;
  std::string text = "a text that is too long for the small buffer";
  Counted() { ++live; }
  Counted(const Counted& o) : text{o.text} { ++live; }
  Counted(Counted&& o) noexcept : text{std::move(o.text)} { ++live; }
  Counted& operator=(const Counted&) = default;
  Counted& operator=(Counted&&) = default;
  ~Counted() { --live; }
};
int main() {
  trajopt::expected<std::string, int> a{std::string(100, 'x')};
  auto b = a.or_else([](int) { return trajopt::expected<std::string, int>{"other"}; });
  if (a.value().size() != 100 || b.value().size() != 100) { std::puts("FAILED: value lost"); return 1; }
  std::puts("ok");
}
