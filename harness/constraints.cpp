// C07 (velocity, acceleration, direction), C08 (point-at), C09 (keep-out).
#include "pbt.hpp"
#include "sym.hpp"
#include "trajopt/constraint/Constraint.hpp"

using namespace trajopt;
static constexpr double kPi = 3.14159265358979323846;

// A robot state; heading as an angle.
struct State {
  double x = 0, y = 0, h = 0, vx = 0, vy = 0, w = 0, ax = 0, ay = 0, al = 0;
};
static State anyState(pbt::Src& s) {
  State q;
  for (double* p : {&q.x, &q.y, &q.vx, &q.vy, &q.w, &q.ax, &q.ay, &q.al}) *p = s.coord(10);
  q.h = s.coord(kPi);
  if (s.chance(0.06)) {  // far from the field's origin
    q.x *= s.real(10, 1000);
    q.y *= s.real(10, 1000);
  }
  return q;
}
static std::string show(const State& q) {
  return "x=" + pbt::show(q.x) + " y=" + pbt::show(q.y) + " h=" + pbt::show(q.h) +
         " v=(" + pbt::show(q.vx) + ", " + pbt::show(q.vy) + ") w=" + pbt::show(q.w) + " a=(" +
         pbt::show(q.ax) + ", " + pbt::show(q.ay) + ") alpha=" + pbt::show(q.al);
}

/// Whether the constraint, applied on its own, accepts the state.
static bool accepts(Constraint c, const State& q) {
  sym::Space sp;
  // The problem is stated first and the state assigned afterwards, so that a
  // constraint cannot depend on the values at the time it is applied.
  std::vector<sleipnir::Variable> v;
  for (int i = 0; i < 10; ++i) v.push_back(sp.var(0.1 * i));
  const Pose2v pose{v[0], v[1], Rotation2v{v[2], v[3]}};
  const Translation2v lv{v[4], v[5]}, la{v[7], v[8]};
  std::visit([&](auto&& arg) { arg.Apply(sp.problem, pose, lv, v[6], la, v[9]); }, c);
  const double values[10] = {q.x, q.y, std::cos(q.h), std::sin(q.h), q.vx,
                             q.vy, q.w, q.ax, q.ay, q.al};
  for (int i = 0; i < 10; ++i) v[i].SetValue(values[i]);
  return sym::accepts(sp.problem);
}

static void judge(pbt::Src& s, Constraint c, const State& q, bool want, const std::string& why) {
  NOTE(" | " << show(q) << " expect " << (want ? "accept" : "reject"));
  bool got = accepts(c, q);
  REQUIRE(got == want, (got ? "accepts a state it must reject: " : "rejects a state it must accept: ")
                           << why << " at " << show(q));
}

static double margin(pbt::Src& s) {
  static const std::vector<double> m{0.1, 1e-2, 1e-3, 1e-5, 0.5, 3.0};
  return s.pick(m);
}

// Exactly along an axis for multiples of a quarter turn.
static double cosOf(double a) {
  double c = std::cos(a);
  return std::fabs(c) < 1e-12 ? 0 : c;
}
static double sinOf(double a) {
  double c = std::sin(a);
  return std::fabs(c) < 1e-12 ? 0 : c;
}

// A magnitude relative to a limit, and whether it is within it.
struct Rel {
  double value;
  bool within;
};
static Rel relative(pbt::Src& s, double limit) {
  if (limit == 0) {
    if (s.choose(2) == 0) return {0, true};
    return {std::vector<double>{1e-3, 0.1, 1, 20}[s.choose(4)], false};
  }
  switch (s.range(0, 4)) {
    case 0: return {limit * s.real(0, 0.999), true};
    case 1: return {limit, true};
    case 2: return {0, true};
    case 3: return {limit / (1 + margin(s)), true};
    default: return {limit * (1 + margin(s)), false};
  }
}
static double limitOf(pbt::Src& s) {
  switch (s.weighted({5, 2, 1, 1, 1})) {
    case 0: return s.real(0.05, 8);
    case 1: return 0.0;
    case 2: return s.real(1e-3, 0.05);
    case 3: return std::pow(10, s.real(-6, 5));
    default: return s.real(8, 500);
  }
}

PROPERTY("C07", "max-magnitudes", 400000, 8000000,
         "random limits (0 included) and states whose constrained magnitude is relative to "
         "the limit by factors from 1e-5 off to several times, in any direction, with all "
         "other quantities random; non-trivial: not at zero") {
  double limit = limitOf(s);
  auto q = anyState(s);
  auto r = relative(s, limit);
  double dir = s.chance(0.3) ? s.range(-4, 4) * kPi / 4 : s.coord(kPi);
  double cx = r.value * cosOf(dir), cy = r.value * sinOf(dir);
  if (r.value != 0) s.nontrivial();
  int kind = s.range(0, 2);
  s.label(std::vector<std::string>{"velocity", "acceleration", "angular"}[kind] +
          (r.within ? " within" : " beyond") + (limit == 0 ? " zero limit" : ""));
  NOTE("kind=" << kind << " limit=" << limit << " magnitude=" << r.value);
  switch (kind) {
    case 0:
      q.vx = cx, q.vy = cy;
      judge(s, LinearVelocityMaxMagnitudeConstraint{limit}, q, r.within,
            "max linear velocity " + pbt::show(limit));
      break;
    case 1:
      q.ax = cx, q.ay = cy;
      judge(s, LinearAccelerationMaxMagnitudeConstraint{limit}, q, r.within,
            "max linear acceleration " + pbt::show(limit));
      break;
    default:
      q.w = r.value * s.sgn();
      judge(s, AngularVelocityMaxMagnitudeConstraint{limit}, q, r.within,
            "max angular velocity " + pbt::show(limit));
  }
}

PROPERTY("C07", "velocity-direction", 300000, 6000000,
         "random field angles (beyond a turn too) and velocities parallel (either sense), "
         "zero, or off by 0.001 rad to perpendicular; non-trivial: velocity not zero") {
  double a = s.chance(0.3) ? s.range(-12, 12) * kPi / 4 : s.chance(0.1) ? s.coord(1e4) : s.coord(20);
  auto q = anyState(s);
  double v = s.chance(0.1) ? 0.0 : (s.chance(0.2) ? s.real(10, 5000) : s.real(0.01, 10)) * s.sgn();
  bool off = s.choose(2);
  double d = off ? s.sgn() * std::vector<double>{kPi / 2, 1, 0.3, 0.05, 0.01, kPi / 4, std::fabs(v) < 1 ? 0.1 : 1e-3}[s.choose(7)] : 0;
  q.vx = v * cosOf(a + d);
  q.vy = v * sinOf(a + d);
  NOTE("angle=" << a << " v=" << v << " off by " << d);
  if (v != 0) s.nontrivial();
  s.label(v == 0 ? "zero" : off ? "off" : v > 0 ? "parallel" : "antiparallel");
  judge(s, LinearVelocityDirectionConstraint{a}, q, v == 0 || !off,
        "velocity direction " + pbt::show(a));
}

PROPERTY("C08", "point-at", 600000, 12000000,
         "random poses and field points 2 mm to 500 m away in any direction, tolerances from 0 to beyond "
         "a turn, heading errors relative to the tolerance from 1e-6 rad off to opposite; "
         "non-trivial: error between 0 and pi") {
  auto q = anyState(s);
  double dist = s.chance(0.1)    ? s.real(20, 500)
                : s.chance(0.06) ? s.real(0.002, 0.05)
                                 : s.real(0.05, 20);
  double bearing = s.chance(0.3) ? s.range(-4, 4) * kPi / 4 : s.coord(kPi);
  Translation2d p{q.x + dist * std::cos(bearing), q.y + dist * std::sin(bearing)};
  double tol;
  switch (s.weighted({4, 2, 2, 2, 1})) {
    case 0: tol = s.real(0.01, 3.1); break;
    case 1: tol = 0; break;
    case 2: tol = s.real(kPi, 12); break;
    case 3: tol = s.real(0.0, s.choose(3) ? 0.05 : 0.001); break;
    default: tol = kPi; break;
  }
  double err;
  static const std::vector<double> small{0.001, 0.01, 0.1, 0.5, 1.5, 1e-4, 1e-5, 1e-6};
  switch (s.range(0, 4)) {
    case 0: err = 0; break;
    case 1: err = tol + s.pick(small); break;
    case 2: err = std::max(0.0, tol - s.pick(small)); break;
    case 3: err = s.real(0, kPi); break;
    default: err = kPi; break;
  }
  err = std::min(err, kPi);
  // Rounding must not decide.
  if (err != std::min(tol, kPi) && std::fabs(std::cos(err) - std::cos(std::min(tol, kPi))) <
                       1e-9 * (1 + (std::fabs(q.x) + std::fabs(q.y)) / dist))
    throw pbt::Discard{};
  bool want = err <= tol;
  q.h = bearing + err * s.sgn();
  NOTE("distance=" << dist << " bearing=" << bearing << " tolerance=" << tol << " error=" << err);
  if (err > 0 && err < kPi) s.nontrivial();
  s.label(std::string(tol == 0 ? "zero tolerance" : tol < kPi ? "tolerance" : "tolerance >= pi") +
          (want ? " within" : " beyond"));
  judge(s, PointAtConstraint{p, tol}, q, want,
        "point at, tolerance " + pbt::show(tol) + ", error " + pbt::show(err));
}

// ---------------------------------------------------------------- C09
struct P {
  double x, y;
};
static P toField(const State& q, P p) {
  return {q.x + p.x * std::cos(q.h) - p.y * std::sin(q.h),
          q.y + p.x * std::sin(q.h) + p.y * std::cos(q.h)};
}
static P toRobot(const State& q, P p) {
  double dx = p.x - q.x, dy = p.y - q.y;
  return {dx * std::cos(q.h) + dy * std::sin(q.h), -dx * std::sin(q.h) + dy * std::cos(q.h)};
}
static double dist(P a, P b) { return std::hypot(a.x - b.x, a.y - b.y); }
static double segDist(P a, P b, P p) {
  double lx = b.x - a.x, ly = b.y - a.y;
  if (lx == 0 && ly == 0) return dist(a, p);
  double t = ((p.x - a.x) * lx + (p.y - a.y) * ly) / (lx * lx + ly * ly);
  t = std::min(1.0, std::max(0.0, t));
  return dist({a.x + t * lx, a.y + t * ly}, p);
}
static Translation2d tr(P p) { return {p.x, p.y}; }

// Picks a minimum distance relative to the true one; says whether it is kept.
struct Min {
  double min;
  bool kept;
};
static Min minFor(pbt::Src& s, double d, double size) {
  double m;
  switch (s.range(0, 4)) {
    case 0: m = 0; break;
    case 1: m = d * (1 + margin(s)); break;
    case 2: m = d / (1 + margin(s)); break;
    case 3: m = s.real(0, 3); break;
    default: m = d > 0 ? std::sqrt(d) : 0.3; break;
  }
  if (m != 0 && std::fabs(m * m - d * d) < 1e-11 * (size * size)) throw pbt::Discard{};
  return {m, m == 0 || d >= m};
}

PROPERTY("C09", "keep-out", 600000, 12000000,
         "random poses, robot and field points and segments placed relative to each other "
         "(beside the interior, at and beyond either end, on the line, touching) with minimum "
         "distances relative to the true distance; non-trivial: positive minimum distance "
         "and true distance") {
  auto q = anyState(s);
  int kind = s.range(0, 2);
  double scale = s.chance(0.1) ? std::pow(10, s.real(-2, 2)) : std::vector<double>{1, 0.2, 5}[s.choose(3)];
  // The segment (in its own frame) and a point relative to it.
  P a{s.coord(2), s.coord(2)};
  double len = s.chance(0.08) ? 0 : s.real(0.05, 3) * scale, ang = s.coord(kPi);
  if (s.chance(0.05)) len *= std::pow(10, s.real(-3, 0));
  P u{std::cos(ang), std::sin(ang)}, b{a.x + len * u.x, a.y + len * u.y};
  double t;
  switch (s.range(0, 4)) {
    case 0: t = s.real(0.05, 0.95); break;
    case 1: t = s.real(-3, -0.05); break;
    case 2: t = s.real(1.05, 3); break;
    case 3: t = 0; break;
    default: t = 1; break;
  }
  double off = s.chance(0.15) ? 0.0 : s.coord(2) * scale;
  P p{a.x + t * len * u.x - off * u.y, a.y + t * len * u.y + off * u.x};
  Constraint c = PointPointConstraint{Translation2d{}, Translation2d{}, 0};
  double d;
  Min m{};
  std::string what;
  if (kind == 0) {  // points: a on the robot, p on the field
    P f = toField(q, p);
    d = dist(a, p);
    m = minFor(s, d, 25 * std::max(1.0, scale) + std::fabs(q.x) + std::fabs(q.y));
    c = PointPointConstraint{tr(a), tr(f), m.min};
    what = "point-point";
  } else if (kind == 1) {  // segment on the robot
    P f = toField(q, p);
    d = segDist(a, b, p);
    m = minFor(s, d, 25 * std::max(1.0, scale) + std::fabs(q.x) + std::fabs(q.y));
    c = LinePointConstraint{tr(a), tr(b), tr(f), m.min};
    what = "line-point";
  } else {  // segment on the field
    P r = toRobot(q, p);
    d = segDist(a, b, p);
    m = minFor(s, d, 25 * std::max(1.0, scale) + std::fabs(q.x) + std::fabs(q.y));
    c = PointLineConstraint{tr(r), tr(a), tr(b), m.min};
    what = "point-line";
  }
  NOTE(what << " a=(" << a.x << ", " << a.y << ") b=(" << b.x << ", " << b.y << ") p=(" << p.x
            << ", " << p.y << ") distance=" << d << " minimum=" << m.min);
  if (m.min > 0 && d > 0) s.nontrivial();
  s.label(what + (m.kept ? " kept" : " broken"));
  if (kind) s.label(len == 0 ? "length zero" : t < 0 ? "before the start" : t > 1 ? "past the end" : "beside");
  judge(s, c, q, m.kept, what + ", minimum " + pbt::show(m.min) + ", distance " + pbt::show(d));
}
