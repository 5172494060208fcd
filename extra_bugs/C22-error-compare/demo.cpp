#include <cstdio>
#include <memory>
#include <string>
#include "trajopt/util/expected"
struct Counted {
  static inline int live = 0;
  std::string text = "a text that is too long for the small buffer";
  Counted() { ++live; }
  Counted(const Counted& o) : text{o.text} { ++live; }
  Counted(Counted&& o) noexcept : text{std::move(o.text)} { ++live; }
  Counted& operator=(const Counted&) = default;
  Counted& operator=(Counted&&) = default;
  ~Counted() { --live; }
};
int main() {
  trajopt::expected<int, int> a{5};
  if (a == trajopt::unexpected<int>{5}) { std::puts("FAILED: a value equals an error"); return 1; }
  std::puts("ok");
}
