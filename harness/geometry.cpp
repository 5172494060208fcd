// C18 (numeric geometry), C19 (symbolic geometry agrees with it).
#include "pbt.hpp"
#include "sym.hpp"
#include "trajopt/geometry/Pose2.hpp"
#include "trajopt/geometry/Rotation2.hpp"
#include "trajopt/geometry/Translation2.hpp"

using namespace trajopt;
using sleipnir::Variable;
using V = sleipnir::Variable;
static constexpr double kPi = 3.14159265358979323846;

static double coordinate(pbt::Src& s) {
  switch (s.weighted({5, 3, 1, 1})) {
    case 0: return s.coord(10);
    case 1: return static_cast<double>(s.range(-4, 4));
    case 2: return s.coord(1e6);
    default: return s.coord(1e-6);
  }
}
/// What a case's coordinates are multiplied by.
static double unit(pbt::Src& s) {
  static const std::vector<double> u{1e-3, 1e-8, 1e-10, 1e-13, 1e-30, 1e4, 1e8, 1e15, 1e30};
  return s.chance(0.2) ? s.pick(u) : 1;
}
static double angleOf(pbt::Src& s) {
  switch (s.weighted({8, 6, 4, 2})) {
    case 0: return s.coord(kPi);
    case 1: return s.range(-16, 16) * kPi / 4;
    case 2: return s.coord(s.chance(0.2) ? 500 : 50);
    default: return s.range(-6, 6) * kPi / 2 + s.sgn() * std::pow(10.0, -s.real(2, 13));
  }
}

// Plain reference vectors.
struct P {
  double x, y;
};
static P rot(P p, double a) {
  return {p.x * std::cos(a) - p.y * std::sin(a), p.x * std::sin(a) + p.y * std::cos(a)};
}
static double len(P p) { return std::sqrt(p.x * p.x + p.y * p.y); }

static void eq(double got, double want, double scale, const char* what) {
  REQUIRE(std::fabs(got - want) <= 1e-11 * std::fabs(scale) + 1e-300,
          what << " is " << got << ", expected " << want);
}
static void eq(const Translation2d& got, P want, double scale, const char* what) {
  eq(got.X(), want.x, scale, what);
  eq(got.Y(), want.y, scale, what);
}
static void eqAngle(const Rotation2d& got, double want, double tol, const char* what) {
  REQUIRE(std::fabs(got.Cos() - std::cos(want)) <= tol &&
              std::fabs(got.Sin() - std::sin(want)) <= tol,
          what << " is (" << got.Cos() << ", " << got.Sin() << "), expected ("
               << std::cos(want) << ", " << std::sin(want) << ")");
}
static void eqMod(double got, double want, double tol, const char* what, double turn) {
  REQUIRE(std::fabs(std::remainder(got - want, turn)) <= tol && std::fabs(got) <= turn / 2 + tol,
          what << " is " << got << ", expected " << want << " modulo a turn");
}

PROPERTY("C18", "translation-algebra", 150000, 3000000,
         "two random translations and a scalar: every vector operation against plain "
         "arithmetic; non-trivial: no coordinate is zero and the scalar is not 0 or 1") {
  double u = unit(s);
  P a{u * coordinate(s), u * coordinate(s)}, b{u * coordinate(s), u * coordinate(s)};
  double k = s.chance(0.3) ? s.range(-5, 5) : s.coord(7);
  int ki = s.range(-6, 6);
  NOTE("a=(" << a.x << ", " << a.y << ") b=(" << b.x << ", " << b.y << ") k=" << k);
  if (a.x != 0 && a.y != 0 && b.x != 0 && b.y != 0 && k != 0 && k != 1) s.nontrivial();
  Translation2d A{a.x, a.y}, B{b.x, b.y};
  double m = std::max({std::fabs(a.x), std::fabs(a.y), std::fabs(b.x), std::fabs(b.y)});
  REQUIRE(A.X() == a.x && A.Y() == a.y, "components of a translation");
  REQUIRE(Translation2d{}.X() == 0 && Translation2d{}.Y() == 0, "default translation");
  eq(A + B, {a.x + b.x, a.y + b.y}, m, "a + b");
  eq(A - B, {a.x - b.x, a.y - b.y}, m, "a - b");
  eq(-A, {-a.x, -a.y}, m, "-a");
  eq(A * k, {a.x * k, a.y * k}, m * k, "a * k");
  eq(A * ki, {a.x * ki, a.y * ki}, m * ki, "a * int");
  if (k != 0) eq(A / k, {a.x / k, a.y / k}, m / k, "a / k");
  if (ki != 0) eq(A / ki, {a.x / ki, a.y / ki}, m, "a / int");
  eq(A.Dot(B), a.x * b.x + a.y * b.y, m * m, "a . b");
  eq(A.Cross(B), a.x * b.y - a.y * b.x, m * m, "a x b");
  eq(A.SquaredNorm(), a.x * a.x + a.y * a.y, m * m, "squared norm");
  eq(A.Norm(), len(a), m, "norm");
  eq(A.Distance(B), len({a.x - b.x, a.y - b.y}), m, "distance");
  REQUIRE(get<0>(A) == a.x && get<1>(A) == a.y, "get<I>");
  const auto& [x, y] = A;
  REQUIRE(x == a.x && y == a.y, "structured binding");
  static_assert(std::tuple_size<Translation2d>::value == 2);
  static_assert(std::is_same_v<std::tuple_element<0, Translation2d>::type, double>);
  static_assert(std::is_same_v<std::tuple_element<1, Translation2d>::type, double>);
  Translation2d C{A};
  REQUIRE(C.X() == a.x && C.Y() == a.y, "copy");
  C = B;
  REQUIRE(C.X() == b.x && C.Y() == b.y, "assignment");
}

PROPERTY("C18", "rotation-group", 150000, 3000000,
         "three random angles (many multiples of pi/4 or beside them, up to 500 rad): composition, "
         "inverse, angles; non-trivial: all angles differ and none is zero") {
  double a = angleOf(s), b = angleOf(s), c = angleOf(s);
  NOTE("a=" << a << " b=" << b << " c=" << c);
  if (a != 0 && b != 0 && c != 0 && a != b && b != c && a != c) s.nontrivial();
  Rotation2d A{a}, B{b}, C{c}, one;
  double tol = 1e-12;
  eqAngle(one, 0, 0, "default rotation");
  eqAngle(A, a, tol, "rotation from angle");
  eqAngle(Rotation2d{std::cos(a), std::sin(a)}, a, tol, "rotation from components");
  eqAngle(A + B, a + b, tol, "a + b");
  eqAngle(A - B, a - b, tol, "a - b");
  eqAngle(-A, -a, tol, "-a");
  eqAngle(A.RotateBy(B), a + b, tol, "a rotated by b");
  eqAngle((A + B) + C, a + b + c, tol, "(a + b) + c");
  eqAngle(A + (B + C), a + b + c, tol, "a + (b + c)");
  eqAngle(B + A, a + b, tol, "b + a");
  eqAngle(A + -A, 0, tol, "a + -a");
  eqAngle(A + one, a, tol, "a + 0");
  Rotation2d copy{A};
  REQUIRE(copy.Cos() == A.Cos() && copy.Sin() == A.Sin(), "copy");
  eqMod(A.Radians(), a, 1e-11, "radians", 2 * kPi);
  eqMod(A.Degrees(), a * 180 / kPi, 1e-9, "degrees", 360);
  double back = Rotation2d{A.Radians()}.Radians();
  eqMod(back, a, 1e-11, "round trip through radians", 2 * kPi);
}

PROPERTY("C18", "rotation-action", 150000, 3000000,
         "random translations turned by random angles and polar construction; "
         "non-trivial: both vectors and both angles are non-zero") {
  double u = unit(s);
  P p{u * coordinate(s), u * coordinate(s)}, q{u * coordinate(s), u * coordinate(s)};
  double a = angleOf(s), b = angleOf(s), r = u * s.coord(20);
  NOTE("p=(" << p.x << ", " << p.y << ") q=(" << q.x << ", " << q.y << ") a=" << a << " b=" << b
             << " r=" << r);
  if (len(p) > 0 && len(q) > 0 && a != 0 && b != 0) s.nontrivial();
  Translation2d Pt{p.x, p.y}, Qt{q.x, q.y};
  Rotation2d A{a}, B{b};
  double m = std::max(len(p), len(q)), m2 = m * m;
  eq(Pt.RotateBy(A), rot(p, a), m, "p rotated by a");
  eq(Pt.RotateBy(A).RotateBy(B), rot(p, a + b), m, "p rotated by a, then b");
  eq(Pt.RotateBy(A + B), rot(p, a + b), m, "p rotated by a + b");
  eq(Pt.RotateBy(A).RotateBy(-A), p, m, "p rotated there and back");
  auto Pr = Pt.RotateBy(A), Qr = Qt.RotateBy(A);
  eq(Pr.Norm(), len(p), m, "length after rotation");
  eq(Pr.Dot(Qr), p.x * q.x + p.y * q.y, m2, "dot product after rotation");
  eq(Pr.Cross(Qr), p.x * q.y - p.y * q.x, m2, "cross product after rotation");
  eq(Pr.Distance(Qr), len({p.x - q.x, p.y - q.y}), m, "distance after rotation");
  eq(Translation2d{r, A}, {r * std::cos(a), r * std::sin(a)}, r, "polar construction");
  if (len(p) > 0) {
    auto dir = Pt.Angle();
    eqMod(dir.Radians(), std::atan2(p.y, p.x), 1e-11, "direction", 2 * kPi);
    double n = std::hypot(dir.Cos(), dir.Sin());
    if (std::fabs(n - 1) > 1e-9) {
      REQUIRE(dir.Cos() == p.x && dir.Sin() == p.y,
              "the direction of (" << p.x << ", " << p.y << ") is neither a rotation nor the "
                                   << "translation itself");
      s.finding("C18-angle-not-unit",
                "Translation2::Angle() of a translation whose length is not 1 is not a unit "
                "rotation");
    }
  }
}

PROPERTY("C18", "pose", 80000, 1500000,
         "random poses, built in each way, read and turned; non-trivial: off the origin, "
         "with non-zero headings") {
  double u = unit(s);
  P p{u * coordinate(s), u * coordinate(s)};
  double h = angleOf(s), a = angleOf(s);
  NOTE("p=(" << p.x << ", " << p.y << ") heading=" << h << " a=" << a);
  if (len(p) > 0 && h != 0 && a != 0) s.nontrivial();
  auto check = [&](const Pose2d& q, P want, double heading, double m, const char* what) {
    eq(q.Translation(), want, m, what);
    eq(q.X(), want.x, m, what);
    eq(q.Y(), want.y, m, what);
    eqAngle(q.Rotation(), heading, 1e-12, what);
  };
  check(Pose2d{}, {0, 0}, 0, 0, "default pose");
  Pose2d A{p.x, p.y, Rotation2d{h}}, B{Translation2d{p.x, p.y}, Rotation2d{h}}, C{p.x, p.y, h};
  check(A, p, h, 0, "pose from x, y, rotation");
  check(B, p, h, 0, "pose from translation, rotation");
  check(C, p, h, 0, "pose from x, y, angle");
  check(Pose2d{A}, p, h, 0, "copied pose");
  check(A.RotateBy(Rotation2d{a}), rot(p, a), h + a, len(p), "turned pose");
  check(A.RotateBy(Rotation2d{a}).RotateBy(-Rotation2d{a}), p, h, len(p), "pose turned back");
}

// ---------------------------------------------------------------- C19
/// Variables that have other values while expressions are built.
struct Late {
  pbt::Src& s;
  sym::Space sp;
  int mode = s.range(0, 3);  // at the final values, at 0, at 1, or any
  std::vector<std::pair<Variable, double>> all;
  Variable var(double v) {
    double first = mode == 0 ? v : mode == 1 ? 0 : mode == 2 ? 1 : s.chance(0.5) ? 0 : s.coord(3);
    all.emplace_back(sp.var(first), v);
    return all.back().first;
  }
  void assign() {
    for (auto& [x, v] : all) x.SetValue(v);
  }
};
// A scalar that may be a number or a variable.
template <typename T>
T lift(Late& l, double v) {
  if constexpr (std::is_same_v<T, double>) return v;
  else return l.var(v);
}
static double val(double v) { return v; }
static double val(const Variable& v) { return v.Value(); }
template <typename T>
P val(const Translation2<T>& t) {
  return {val(t.X()), val(t.Y())};
}
template <typename T>
P val(const Rotation2<T>& t) {
  return {val(t.Cos()), val(t.Sin())};
}
static void eqP(P got, P want, double scale, const char* what) {
  eq(got.x, want.x, scale, what);
  eq(got.y, want.y, scale, what);
}

template <typename T, typename U>
static void mixed(pbt::Src& s, P a, P b, double h, double g, double k) {
  Late sp{s};
  auto x = lift<T>(sp, a.x), y = lift<T>(sp, a.y);
  auto u = lift<U>(sp, b.x), v = lift<U>(sp, b.y);
  auto hc = lift<T>(sp, std::cos(h)), hs = lift<T>(sp, std::sin(h));
  auto gc = lift<U>(sp, std::cos(g)), gs = lift<U>(sp, std::sin(g));
  auto kk = lift<U>(sp, k);
  Translation2<T> A{x, y};
  Translation2<U> B{u, v};
  Rotation2<T> H{hc, hs};
  Rotation2<U> G{gc, gs};
  // The numeric side is the numeric class itself: this is a differential check.
  Translation2d An{a.x, a.y}, Bn{b.x, b.y};
  Rotation2d Hn{std::cos(h), std::sin(h)}, Gn{std::cos(g), std::sin(g)};
  auto sum = A + B;
  auto diff = A - B;
  auto prod = A * kk;
  auto quot = A / kk;
  auto turned = A.RotateBy(G);
  auto dot = A.Dot(B);
  auto cross = A.Cross(B);
  auto dist = A.Distance(B);
  auto comp = H.RotateBy(G);
  Translation2<decltype(std::declval<T>() + std::declval<U>())> polar{
      decltype(std::declval<T>() + std::declval<U>())(x), G};
  double m = std::max({std::fabs(a.x), std::fabs(a.y), std::fabs(b.x), std::fabs(b.y)});
  auto round = [&](const char* when) {
    double m2 = m * m;
    eqP(val(sum), val(An + Bn), m, "a + b");
    eqP(val(diff), val(An - Bn), m, "a - b");
    eqP(val(prod), val(An * k), m * k, "a * k");
    if (k != 0) eqP(val(quot), val(An / k), m / k, "a / k");
    eqP(val(turned), val(An.RotateBy(Gn)), m, "a rotated");
    eq(val(dot), An.Dot(Bn), m2, "a . b");
    eq(val(cross), An.Cross(Bn), m2, "a x b");
    eq(val(dist), An.Distance(Bn), m, "distance");
    eqP(val(comp), val(Hn.RotateBy(Gn)), 1, "rotation composed");
    eqP(val(polar), val(Translation2d{a.x, Gn}), m, "polar construction");
    (void)when;
  };
  sp.assign();
  round("as built");
  // The expressions follow the variables: assign afresh and compare again.
  if constexpr (std::is_same_v<T, Variable> && std::is_same_v<U, Variable>) {
    std::swap(a, b);
    std::swap(h, g);
    k = k * 0.5 - 1.25;
    x.SetValue(a.x); y.SetValue(a.y);
    u.SetValue(b.x); v.SetValue(b.y);
    hc.SetValue(std::cos(h)); hs.SetValue(std::sin(h));
    gc.SetValue(std::cos(g)); gs.SetValue(std::sin(g));
    kk.SetValue(k);
    An = Translation2d{a.x, a.y}; Bn = Translation2d{b.x, b.y};
    Hn = Rotation2d{std::cos(h), std::sin(h)}; Gn = Rotation2d{std::cos(g), std::sin(g)};
    round("after reassignment");
  }
}

PROPERTY("C19", "mixed-operations", 100000, 1000000,
         "every two-operand operation on number/variable operands in all four combinations "
         "at random values, re-evaluated after reassigning the variables; non-trivial: all "
         "values non-zero") {
  P a{coordinate(s), coordinate(s)}, b{coordinate(s), coordinate(s)};
  double h = angleOf(s), g = angleOf(s), k = s.coord(7);
  NOTE("a=(" << a.x << ", " << a.y << ") b=(" << b.x << ", " << b.y << ") h=" << h << " g=" << g
             << " k=" << k);
  if (a.x != 0 && a.y != 0 && b.x != 0 && b.y != 0 && h != 0 && g != 0 && k != 0) s.nontrivial();
  mixed<double, double>(s, a, b, h, g, k);
  mixed<double, Variable>(s, a, b, h, g, k);
  mixed<Variable, double>(s, a, b, h, g, k);
  mixed<Variable, Variable>(s, a, b, h, g, k);
}

PROPERTY("C19", "one-operand-operations", 100000, 1000000,
         "every one-operand operation, accessor, conversion and pose operation on "
         "variables at random values; non-trivial: all values non-zero") {
  P a{coordinate(s), coordinate(s)};
  double h = angleOf(s), g = angleOf(s);
  NOTE("a=(" << a.x << ", " << a.y << ") h=" << h << " g=" << g);
  if (a.x != 0 && a.y != 0 && h != 0 && g != 0) s.nontrivial();
  Late sp{s};
  auto x = sp.var(a.x), y = sp.var(a.y), t = sp.var(h);
  Translation2v A{x, y};
  Translation2d An{a.x, a.y};
  Rotation2v H{t}, G{sp.var(std::cos(g)), sp.var(std::sin(g))};
  Rotation2d Hn{h}, Gn{std::cos(g), std::sin(g)};
  double m = len(a);
  auto negated = -A;
  auto norm = A.Norm(), squared = A.SquaredNorm(), direction = A.Angle().Radians();
  auto negatedH = -H, sum = H + G, diff = H - G;
  auto radians = H.Radians(), degrees = H.Degrees();
  Pose2v p{x, y, H}, q{A, H}, r{Pose2d{a.x, a.y, Hn}};
  auto turned = p.RotateBy(G);
  sp.assign();
  eqP(val(A), a, 0, "components");
  eqP(val(negated), val(-An), 0, "-a");
  eq(val(norm), An.Norm(), m, "norm");
  eq(val(squared), An.SquaredNorm(), m * m, "squared norm");
  eqMod(val(direction), An.Angle().Radians(), 1e-11, "direction", 2 * kPi);
  eqP(val(H), val(Hn), 1, "rotation from a symbolic angle");
  eqP(val(negatedH), val(-Hn), 1, "-h");
  eqP(val(sum), val(Hn + Gn), 1, "h + g");
  eqP(val(diff), val(Hn - Gn), 1, "h - g");
  eqMod(val(radians), Hn.Radians(), 1e-11, "radians", 2 * kPi);
  eqMod(val(degrees), Hn.Degrees(), 1e-9, "degrees", 360);
  eqP(val(Rotation2v{}), {1, 0}, 0, "default rotation");
  eqP(val(Translation2v{}), {0, 0}, 0, "default translation");
  eqP(val(Rotation2v{Hn}), val(Hn), 0, "rotation made symbolic");
  eqP(val(Translation2v{An}), a, 0, "translation made symbolic");
  for (auto* w : {&p, &q, &r}) {
    eqP(val(w->Translation()), a, 0, "pose translation");
    eqP({w->X().Value(), w->Y().Value()}, a, 0, "pose x, y");
    eqP(val(w->Rotation()), val(Hn), 1, "pose rotation");
  }
  Pose2d pn{a.x, a.y, Hn};
  eqP(val(turned.Translation()), val(pn.RotateBy(Gn).Translation()), m, "turned pose");
  eqP(val(turned.Rotation()), val(pn.RotateBy(Gn).Rotation()), 1, "turned pose heading");
  const auto& [bx, by] = A;
  REQUIRE(bx.Value() == a.x && by.Value() == a.y, "structured binding");
}

static double miss(const sleipnir::EqualityConstraints& c) { return sym::violation(c.constraints, {}); }

PROPERTY("C19", "equality-constraints", 200000, 2000000,
         "equality of symbolic translations, rotations and poses at equal values, and with "
         "one component off by 0.01..3, for number/variable operands on either side; "
         "non-trivial: an unequal pair") {
  P a{s.coord(10), s.coord(10)}, b = a;
  double h = angleOf(s), g = h, n = 1, m = 1;
  int mode = s.range(0, 5);
  double d = s.sgn() * s.real(0.01, 3);
  switch (mode) {
    case 1: b.x += d; break;
    case 2: b.y += d; break;
    case 3: g += d; break;  // at most 3 rad: never the opposite direction
    case 4: n = s.chance(0.5) ? s.real(0, 0.95) : s.real(1.05, 3); break;
    case 5: m = s.chance(0.5) ? s.real(0, 0.95) : s.real(1.05, 3); break;
  }
  NOTE("mode=" << mode << " a=(" << a.x << ", " << a.y << ") b=(" << b.x << ", " << b.y
               << ") h=" << h << " g=" << g << " |h|=" << n << " |g|=" << m);
  if (mode) s.nontrivial();
  s.label("mode " + std::to_string(mode));
  Late sp{s};
  Translation2d A{a.x, a.y}, B{b.x, b.y};
  Translation2v Av{sp.var(a.x), sp.var(a.y)}, Bv{sp.var(b.x), sp.var(b.y)};
  Rotation2d H{n * std::cos(h), n * std::sin(h)}, G{m * std::cos(g), m * std::sin(g)};
  Rotation2v Hv{sp.var(H.Cos()), sp.var(H.Sin())}, Gv{sp.var(G.Cos()), sp.var(G.Sin())};
  Pose2d Pn{A, H}, Qn{B, G};
  Pose2v Pv{Av, Hv}, Qv{Bv, Gv};
  struct Claim {
    sleipnir::EqualityConstraints c;
    bool equal;
    const char* what;
  };
  std::vector<Claim> claims;
  auto judge = [&](sleipnir::EqualityConstraints c, bool equal, const char* what) { claims.push_back({std::move(c), equal, what}); };
  bool tEq = mode != 1 && mode != 2;
  judge((Av == Bv), tEq, "variable translation == variable translation");
  judge((Av == B), tEq, "variable translation == translation");
  judge((A == Bv), tEq, "translation == variable translation");
  // A constant that is not a unit vector is outside the domain.
  bool rEq = mode < 3;
  judge((Hv == Gv), rEq, "variable rotation == variable rotation");
  if (mode != 5) judge((Hv == G), rEq, "variable rotation == rotation");
  if (mode != 4) judge((H == Gv), rEq, "rotation == variable rotation");
  judge((Pv == Qv), tEq && rEq, "variable pose == variable pose");
  if (mode != 5) judge((Pv == Qn), tEq && rEq, "variable pose == pose");
  if (mode != 4) judge((Pn == Qv), tEq && rEq, "pose == variable pose");
  sp.assign();
  for (auto& [c, equal, what] : claims) {
    double v = miss(c);
    if (equal) {
      REQUIRE(v <= 1e-9, what << ": equal values are rejected, missed by " << v);
    } else {
      REQUIRE(v >= 1e-5, what << ": unequal values are accepted");
    }
  }
}
