// C22: results against std::expected.
#include "expected.hpp"
using namespace exph;

PROPERTY("C22", "tracked-histories", 400000, 6000000,
         "1..24 random operations on three results of tracked values and errors, side by side "
         "with std::expected (types whose copies, moves, assignments or constructors throw "
         "when armed, move-only types); results, exceptions, contents, value categories and "
         "object lifetimes must agree after every operation; non-trivial: at least 4 operations") {
  auto all = trackedA;
  all.insert(all.end(), trackedB.begin(), trackedB.end());
  auto& c = s.pick(all);
  s.label(c.name);
  NOTE(c.name << ": ");
  c.run(s);
}

PROPERTY("C22", "plain-histories", 400000, 6000000,
         "1..24 random operations on three results of int, string, vector, tracked and void "
         "values and errors, side by side with std::expected; results, contents and lifetimes "
         "must agree after every operation; non-trivial: at least 4 operations") {
  auto all = plainA;
  all.insert(all.end(), plainB.begin(), plainB.end());
  auto& c = s.pick(all);
  s.label(c.name);
  NOTE(c.name << ": ");
  c.run(s);
}

PROPERTY("C22", "throwing-construction", 400, 4000,
         "copies, moves and or_else of a result whose content throws when copied or moved, each "
         "in a child process; non-trivial: the content throws") {
  int op = s.range(0, 2), cfg = s.range(0, 3);
  bool err = s.choose(2);
  static const char* ops[] = {"copy construction", "move construction", "or_else"};
  int rc = 0;
  bool throws = false;
  switch (cfg) {
    case 0: rc = Throwing<Nx, NxE>::run(op, err); break;
    case 1: rc = Throwing<Cp, CpE>::run(op, err); throws = op != 1; break;
    case 2: rc = Throwing<Mv, NxE>::run(op, err); throws = !err; break;
    case 3: rc = Throwing<Nx, MvE>::run(op, err); throws = err; break;
  }
  NOTE(ops[op] << " of " << (err ? "an error" : "a value") << ", types " << cfg);
  if (throws) s.nontrivial();
  if (rc == 3) {
    s.finding("C22-throwing-construction-terminates",
              "copying or moving an expected whose value or error throws ends the process");
    return;
  }
  REQUIRE(rc == 0, ops[op] << " of " << (err ? "an error" : "a value") << ", types " << cfg
                           << ": child ended with " << rc);
}

PROPERTY("C22", "unexpected", 100000, 1000000,
         "two random errors (equal or not) as unexpected: construction, access, all six "
         "comparisons, make_unexpected and deduction; non-trivial: every case") {
  s.nontrivial();
  int a = s.range(-5, 5), b = s.choose(3) ? s.range(-5, 5) : a;
  NOTE(a << " and " << b);
  trajopt::unexpected<int> x{a}, y{b};
  REQUIRE((x == y) == (a == b), "==");
  REQUIRE((x != y) == (a != b), "!=");
  REQUIRE((x < y) == (a < b), "<");
  REQUIRE((x <= y) == (a <= b), "<=");
  REQUIRE((x > y) == (a > b), ">");
  REQUIRE((x >= y) == (a >= b), ">=");
  auto ka = Kind<std::string>::make(a + 10), kb = Kind<std::string>::make(b + 10);
  trajopt::unexpected<std::string> p{ka};
  trajopt::unexpected q{kb};
  REQUIRE(p.value() == ka && q.value() == kb, "value()");
  REQUIRE((p == q) == (ka == kb) && (p != q) == (ka != kb), "== or != of strings");
  REQUIRE((p < q) == (ka < kb) && (p <= q) == (ka <= kb), "< or <= of strings");
  REQUIRE((p > q) == (ka > kb) && (p >= q) == (ka >= kb), "> or >= of strings");
  auto m = trajopt::make_unexpected(kb);
  REQUIRE(m == q, "make_unexpected");
  trajopt::unexpected<std::string> c = p;
  REQUIRE(c == p, "copy");
  std::string moved = std::move(c).value();
  REQUIRE(moved == ka, "moved value()");
  p = q;
  REQUIRE(p.value() == kb, "assignment");
  trajopt::unexpected<std::vector<int>> il{{a, b}};
  REQUIRE((il.value() == std::vector<int>{a, b}), "list construction");
  std::as_const(x).value();
  x.value() = b;
  REQUIRE(x == y, "assignment through value()");
}
