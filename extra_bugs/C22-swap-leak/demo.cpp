#include <cstdio>
#include <memory>
#include <string>
#include "trajopt/util/expected"
struct Counted {
  static inline int live = 0;
  std::string text = "a text that is too long for the small buffer";
  Counted() { ++live; }
  Counted(const Counted& o) : text{o.text} { ++live; }
  Counted(Counted&& o) noexcept : text{std::move(o.text)} { ++live; }
  Counted& operator=(const Counted&) = default;
  Counted& operator=(Counted&&) = default;
  ~Counted() { --live; }
};
int main() {
  {
    trajopt::expected<int, Counted> a{1}, b{trajopt::unexpected<Counted>{Counted{}}};
    a.swap(b);
    if (a.has_value() || !b.has_value()) { std::puts("FAILED: swap"); return 1; }
  }
  if (Counted::live != 0) { std::puts("FAILED: leak"); return 1; }
  std::puts("ok");
}
