// C01-C06, C10 (in whole problems), C12, C25, C27.
#include "pristine.hpp"
#include "world.hpp"

using namespace trajopt;
using namespace world;
using pbt::near;

namespace {

/// A problem whose variables are identified, or no verdict (C13 judges that).
std::unique_ptr<Posed> pose(const SwervePathBuilder& b) {
  auto p = std::make_unique<Posed>(b);
  if (!p->unidentified.empty()) throw pbt::Discard{};
  return p;
}
void set(Posed& p, const Traj& t) {
  if (auto e = p.set(t); !e.empty()) throw pbt::Discard{};
}

struct Placed {
  Spec c;
  bool seg = false;
  size_t from = 0, to = 0;
  std::vector<size_t> required;
};
std::string show(const Placed& p) {
  return world::show(p.c) + (p.seg ? " from " : " at ") + std::to_string(p.from) + (p.seg ? " to " + std::to_string(p.to) : "");
}
void where(pbt::Src& s, const Traj& t, Placed& p) {
  p.seg = t.waypoints() > 1 && s.choose(2);
  p.from = p.seg ? s.size(0, t.waypoints() - 2) : s.choose(t.waypoints());
  p.to = p.seg ? s.size(p.from + 1, t.waypoints() - 1) : p.from;
  p.required.clear();
  for (size_t i = t.sampleOf(p.from); i <= t.sampleOf(p.to); ++i) p.required.push_back(i);
}
void put(SwervePathBuilder& b, const Placed& p) {
  if (p.seg) b.SgmtConstraint(p.from, p.to, p.c.make());
  else b.WptConstraint(p.from, p.c.make());
}
/// Constraints met wherever they are placed, but for at most one sample if asked.
std::vector<Placed> constraints(pbt::Src& s, const Traj& t, bool* reject, size_t most, std::string* text, bool* telling) {
  std::vector<Placed> r;
  size_t count = s.size(1, most);
  bool have = false;
  for (size_t k = 0; k < count; ++k) {
    bool want = *reject && !have;
    std::optional<Placed> best;
    size_t missed = 0, elsewhere = 0;
    for (int tries = 0; tries < 5; ++tries) {
      Placed p;
      p.c = spec(s, t.at);
      where(s, t, p);
      paths::Applied a{{p.c.make()}};
      std::vector<bool> ok;
      for (auto& q : t.at) ok.push_back(a.accepts(q));
      size_t in = 0, out = 0, last = 0;
      for (size_t i : p.required)
        if (!ok[i]) { ++in; last = i; }
      for (bool x : ok) out += !x;
      out -= in;
      if (want ? in == 0 : in > 0) continue;
      // Few misses where it counts, many where it does not.
      if (!best || (want ? in < missed : out > elsewhere)) {
        best = p;
        missed = in;
        elsewhere = out;
        if (want) *text = show(p) + " is missed at " + std::to_string(in) + " samples, the last of them " + std::to_string(last);
      }
      if (want && in == 1) break;
      if (!want && out > 0) break;
    }
    if (!best) continue;
    have = have || want;
    r.push_back(*best);
    if (elsewhere) *telling = true;
  }
  if (*reject && !have) *reject = false;
  for (size_t i = r.size(); i > 1; --i) std::swap(r[i - 1], r[s.choose(i)]);
  return r;
}

/// Other things on the path, all of which the trajectory keeps to.
void furnish(pbt::Src& s, SwervePathBuilder& b, const Traj& t) {
  if (!s.chance(0.3)) return;
  bool reject = false, telling = false;
  std::string text;
  if (s.choose(4))
    for (auto& c : constraints(s, t, &reject, 3, &text, &telling)) {
      put(b, c);
      NOTE(show(c) << "\n");
    }
  if (!s.choose(3)) {  // far away
    b.AddBumpers(Bumpers{.safetyDistance = s.real(0, 0.1), .points = {{0.4, 0.4}, {-0.4, 0.4}, {-0.4, -0.4}, {0.4, -0.4}}});
    double x = s.sgn() * s.real(1e3, 1e4), y = s.coord(1e3);
    Obstacle o{.safetyDistance = s.real(0, 1), .points = {{x, y}}};
    if (s.choose(2)) o.points.push_back({x + 1, y});
    Placed pl;
    where(s, t, pl);
    if (pl.seg) b.SgmtObstacle(pl.from, pl.to, o);
    else b.WptObstacle(pl.from, o);
    NOTE("obstacle at (" << x << ", " << y << ") waypoints " << pl.from << ".." << pl.to << "\n");
  }
  if (t.waypoints() > 1 && !s.choose(3)) {
    std::vector<Pose2d> g;
    for (int n = s.range(1, 3); n > 0; --n) g.push_back({s.coord(8), s.coord(8), {s.coord(4)}});
    b.SgmtInitialGuessPoints(s.choose(t.waypoints() - 1), g);
  }
  s.label("furnished");
}
/// Waypoints, counts and drivetrain, with other things before or after.
void lay(pbt::Src& s, SwervePathBuilder& b, const Drive& d, const Traj& t, const Pins& p, const Traj* kept = nullptr) {
  bool before = s.choose(2);
  if (before) furnish(s, b, kept ? *kept : t);
  place(s, b, d, t, p);
  if (!before) furnish(s, b, kept ? *kept : t);
}

/// Poses a path through a trajectory and decides whether it is accepted.
void decide(pbt::Src& s, const char* property, Defect::Kind kind, bool pinPose = false) {
  Drive d = drive(s);
  Defect def;
  Traj t = trajectory(s, d, {}, kind, &def);
  Pins p = pins(s, t.waypoints(), pinPose);
  SwervePathBuilder b;
  if (kind == Defect::kNonUnit || kind == Defect::kAlternating) place(s, b, d, t, p);
  else lay(s, b, d, t, p);
  NOTE(show(d) << "\n" << show(p) << "\n" << show(t) << "\ndefect " << Defect::name(kind) << " at " << def.sample);
  auto posed = pose(b);
  set(*posed, t);
  s.label(kind == Defect::kNone ? "exact" : Defect::name(kind));
  if (t.total() > 2 && d.modules.size() > 1) s.nontrivial();
  if (kind == Defect::kNone) {
    if (auto e = posed->broken(property))
      FAIL("a trajectory that obeys mechanics, limits and waypoints is rejected: " << e->text);
    return;
  }
  bool accepted = posed->accepts();
  bool posePinned = std::count(p.kind.begin(), p.kind.end(), 0) > 0;
  if (kind == Defect::kHalfTurn) {
    if (accepted) s.finding("C01-half-turn", "heading off by half a turn at sample " + std::to_string(def.sample) + " is accepted");
    return;
  }
  if (kind == Defect::kAlternating && !posePinned) {
    if (accepted) s.finding("C01-non-unit-headings", "headings of length k, 1/k, ... are accepted on a path without pose waypoint");
    return;
  }
  REQUIRE(!accepted, "accepted with a wrong " << Defect::name(kind) << " at sample " << def.sample);
}

Defect::Kind pickDefect(pbt::Src& s, std::vector<Defect::Kind> kinds) { return s.pick(kinds); }

}  // namespace

// ---------------------------------------------------------------- C01
PROPERTY("C01", "kinematics", 50000, 900000,
         "random drivetrains (0..5 modules) and mechanically exact trajectories over 1..5 "
         "waypoints, pins and limits placed along them: accepted as they are, rejected with one "
         "wrong position, velocity, heading, angular velocity, heading length or step of another "
         "segment at one sample; non-trivial: more than two samples and one module") {
  using D = Defect;
  auto kind = pickDefect(s, {D::kNone, D::kPosition, D::kVelocity, D::kHeading, D::kAngularVelocity, D::kStep,
                             D::kNone, D::kNonUnit, D::kAlternating, D::kHalfTurn});
  decide(s, "C01", kind, kind == D::kNonUnit || (kind == D::kAlternating && s.choose(4) != 0));
}

// ---------------------------------------------------------------- C02
PROPERTY("C02", "dynamics", 50000, 900000,
         "the same with forces that give the acceleration and torque exactly, distributed at "
         "random; rejected with a net force or torque that is off at one sample, the first "
         "included; non-trivial: more than two samples and one module") {
  using D = Defect;
  decide(s, "C02", pickDefect(s, {D::kNone, D::kForce, D::kTorque}));
}

// ---------------------------------------------------------------- C03
PROPERTY("C03", "module-limits", 50000, 900000,
         "exact trajectories with one module's speed or force limit placed just above its largest "
         "value (accepted) or between its two largest values over all samples (rejected, because of "
         "one sample only), or at zero; non-trivial: several modules and samples") {
  Drive d = drive(s);
  if (d.modules.empty()) throw pbt::Discard{};
  Traj t = trajectory(s, d, {}, Defect::kNone, nullptr);
  size_t m = s.choose(d.modules.size());
  bool speed = s.choose(2), reject = s.choose(2), zero = s.chance(0.08);
  if (zero && !reject) {  // at rest, no limit is too low
    for (auto& q : t.at) {
      auto& o = t.at[0];
      q.x = o.x, q.y = o.y, q.h = o.h, q.c = o.c, q.s = o.s;
      q.vx = q.vy = q.w = q.ax = q.ay = q.al = 0;
      for (auto& f : q.f) f = {0, 0};
    }
  }
  std::vector<double> values;
  for (auto& q : t.at) values.push_back(speed ? wheelSpeed(q, d.modules[m]) : force(q.f[m]));
  size_t top = std::max_element(values.begin(), values.end()) - values.begin();
  double most = values[top], next = 0;
  for (size_t i = 0; i < values.size(); ++i)
    if (i != top) next = std::max(next, values[i]);
  static const std::vector<double> margins{1e-2, 1e-6, 0.3, 10};
  double margin = s.pick(margins), limit;
  if (zero) {
    limit = 0;
    if (reject && most < 1e-3) throw pbt::Discard{};
  } else if (reject) {
    limit = most / (1 + margin);
    if (limit <= next) limit = (most + next) / 2;
    if (most < 1e-3 || limit > most / (1 + 1e-7)) throw pbt::Discard{};
  } else {
    limit = std::max(most, 1e-3) * (1 + margin);
    if (speed) {
      double dtMax = 1e-3;
      for (double x : t.dt) dtMax = std::max(dtMax, x);
      limit = std::min(limit, std::max(most * (1 + 1e-9), d.spacing() / dtMax * (1 - 1e-9)));
    }
  }
  (speed ? d.modules[m].maxSpeed : d.modules[m].maxForce) = limit;
  Pins p = pins(s, t.waypoints());
  SwervePathBuilder b;
  lay(s, b, d, t, p);
  NOTE(show(d) << "\n" << show(p) << "\n" << show(t) << "\n" << (speed ? "speed" : "force") << " of module " << m
               << " is " << most << " at sample " << top << ", limit " << limit);
  auto posed = pose(b);
  set(*posed, t);
  if (d.modules.size() > 1 && t.total() > 1) s.nontrivial();
  s.label(std::string(reject ? "over " : "within ") + (speed ? "speed" : "force") +
          (top == 0 ? " at the first sample" : top + 1 == t.total() ? " at the last sample" : ""));
  if (reject) {
    REQUIRE(!posed->accepts(), "accepted though module " << m << " has " << most << " at sample " << top
                                                         << " with limit " << limit);
  } else if (auto e = posed->broken("C03")) {
    FAIL("rejected within every limit: " << e->text);
  }
}

// ---------------------------------------------------------------- C04
PROPERTY("C04", "step-bounds", 50000, 900000,
         "exact trajectories with one module's full speed placed so that in the longest step the "
         "wheel rolls just under or over the smallest nonzero axis-aligned spacing of the modules "
         "(accepted, rejected), any speed if there is no spacing; zero and negative steps; "
         "non-trivial: two or more modules") {
  Drive d = drive(s);
  if (d.modules.size() > 1 && s.chance(0.2)) {  // almost in line
    size_t i = s.choose(d.modules.size()), j = s.choose(d.modules.size());
    double by = s.sgn() * std::pow(10, s.choose(3) ? s.real(-5, -2) : s.real(-12, -5));
    if (s.choose(2)) d.modules[i].at.x = d.modules[j].at.x + by;
    else d.modules[i].at.y = d.modules[j].at.y + by;
    if (d.spread() < 0.005) throw pbt::Discard{};
    s.label("almost in line");
  }
  int what = s.range(0, 4);  // 0 negative step
  Traj t = trajectory(s, d, {}, what == 0 ? Defect::kNegativeStep : Defect::kNone, nullptr);
  double dtMax = 0;
  for (double x : t.dt) dtMax = std::max(dtMax, x);
  bool reject = what == 0;
  if (what > 1 && !d.modules.empty()) {
    static const std::vector<double> margins{1e-2, 1e-6, 0.3, 1e-4};
    double margin = s.pick(margins), sp = d.spacing();
    auto& m = d.modules[s.choose(d.modules.size())];
    if (!std::isfinite(sp) || dtMax == 0) {
      m.maxSpeed = s.real(1, 1e6) + m.maxSpeed;
      s.label("no bound");
    } else {
      reject = what > 2 && s.choose(4) != 0;
      double keeps = m.maxSpeed;
      m.maxSpeed = sp / dtMax * (reject ? 1 + margin : 1 - std::min(margin, 0.25));
      if (m.maxSpeed < keeps && !reject) m.maxSpeed = std::min(keeps, sp / dtMax * (1 - 1e-9));
      double need = 0;
      for (auto& q : t.at) need = std::max(need, wheelSpeed(q, m));
      if (reject) {  // by more than the rounding that is allowed for
        double over = sp < 1e-3 ? 1e-5 : 0, most = std::max({1.0, m.radius, m.maxSpeed / m.radius});
        m.maxSpeed = std::max(m.maxSpeed, (sp + std::max(over, 1e-11 * most)) / dtMax);
      }
      if (m.maxSpeed < need) {
        if (!reject) throw pbt::Discard{};
        m.maxSpeed = need * (1 + margin);  // further over the bound
      }
    }
  }
  Pins p = pins(s, t.waypoints());
  SwervePathBuilder b;
  lay(s, b, d, t, p);
  NOTE(show(d) << "\n" << show(p) << "\n" << show(t) << "\nspacing " << d.spacing() << " longest step " << dtMax);
  auto posed = pose(b);
  set(*posed, t);
  if (d.modules.size() > 1) s.nontrivial();
  s.label(what == 0 ? "negative step" : reject ? "step too long" : "step in bounds");
  if (reject) {
    REQUIRE(!posed->accepts(), "accepted with " << (what == 0 ? "a negative step" : "a step in which a wheel can roll too far"));
  } else if (auto e = posed->broken("C04")) {
    FAIL("steps within bounds are rejected: " << e->text);
  }
}

PROPERTY("C04", "objective", 50000, 900000,
         "two random assignments of all variables: the objective must order them as their total "
         "durations do, equal durations by other splits alike; non-trivial: several segments") {
  Drive d = drive(s);
  Traj a = trajectory(s, d, {.longSegment = 0.05, .minWaypoints = 2}, Defect::kNone, nullptr);
  Pins p = pins(s, a.waypoints());
  SwervePathBuilder b;
  lay(s, b, d, a, p);
  auto posed = pose(b);
  Traj t = a;
  int how = s.range(0, 3);
  // The second assignment also moves everything else.
  if (how != 2)
    for (auto& q : t.at) { q.x += s.coord(1); q.vx += s.coord(1); q.c += s.coord(1); q.w += s.coord(1); q.al -= s.coord(3); for (auto& f : q.f) f.x += s.coord(5); }
  if (how == 0) {
    for (auto& x : t.dt) x = s.real(0, 2);
  } else if (how == 1 || how == 2) {
    t.dt[s.choose(t.dt.size())] += s.sgn() * s.real(1e-6, 0.1);
  } else if (t.dt.size() > 1) {  // same duration, other split
    size_t i = s.choose(t.dt.size()), j = s.choose(t.dt.size());
    if (i == j) j = (i + 1) % t.dt.size();
    double move = s.real(0, t.dt[i] * t.n[i]);
    t.dt[i] -= move / t.n[i];
    t.dt[j] += move / t.n[j];
  }
  NOTE("counts " << pbt::show(a.n) << " steps " << pbt::show(a.dt) << " against " << pbt::show(t.dt));
  if (t.dt.size() > 1) s.nontrivial();
  REQUIRE(posed->problem->objective.has_value(), "nothing is minimised");
  set(*posed, a);
  double oa = posed->problem->objective->Value();
  set(*posed, t);
  double ot = posed->problem->objective->Value();
  double da = a.duration(), dt = t.duration();
  double tol = 1e-12 * (std::fabs(da) + std::fabs(dt) + 1), to = 1e-11 * (std::fabs(oa) + std::fabs(ot) + 1);
  s.label(da < dt - tol ? "longer" : da > dt + tol ? "shorter" : "same duration");
  if (da < dt - tol) REQUIRE(oa < ot, "durations " << da << " < " << dt << " but objectives " << oa << ", " << ot);
  else if (da > dt + tol) REQUIRE(oa > ot, "durations " << da << " > " << dt << " but objectives " << oa << ", " << ot);
  else REQUIRE(std::fabs(oa - ot) <= to, "equal durations " << da << " but objectives " << oa << ", " << ot);
}

// ---------------------------------------------------------------- C05
PROPERTY("C05", "waypoint-pins", 50000, 900000,
         "exact trajectories with pose and translation waypoints on their states: accepted as "
         "they are, rejected when one waypoint's x, y or heading is off or all are those of the one "
         "before; non-trivial: two or more "
         "waypoints") {
  Drive d = drive(s);
  Traj t = trajectory(s, d, {}, Defect::kNone, nullptr);
  Pins p = pins(s, t.waypoints());
  // Some waypoint's pin is off: the state it was made from is.
  int what = s.range(0, 5);  // 0, 4 none; 1 x; 2 y; 3 heading; 5 where the one before is
  std::vector<size_t> pinned;
  for (size_t w = 0; w < p.kind.size(); ++w)
    if (p.kind[w] == 0 || (p.kind[w] == 1 && what != 3)) pinned.push_back(w);
  if (pinned.empty()) what = 0;
  Traj at = t;
  bool half = false;
  size_t w = 0;
  if (what == 5) {
    w = s.pick(pinned);
    if (w == 0) {
      what = 0;
    } else {
      auto& q = at.at[t.sampleOf(w)];
      auto& o = t.at[t.sampleOf(w - 1)];
      bool moved = std::hypot(q.x - o.x, q.y - o.y) > 1e-3;
      if (!moved && (p.kind[w] == 1 || std::fabs(std::sin(q.h - o.h)) < 1e-3)) throw pbt::Discard{};
      q.x = o.x, q.y = o.y, q.h = o.h;
    }
  } else if (what != 0 && what != 4) {
    w = s.pick(pinned);
    auto& q = at.at[t.sampleOf(w)];
    double by = s.sgn() * defectSize(s) * 2;
    if (what == 1) q.x += by;
    if (what == 2) q.y += by;
    if (what == 3) {
      half = s.chance(0.1);
      q.h += half ? kPi : by;
    }
  }
  SwervePathBuilder b;
  lay(s, b, d, at, p, &t);
  NOTE(show(d) << "\n" << show(p) << "\n" << show(t) << "\n" << (what == 1 ? "x" : what == 2 ? "y" : what == 3 ? "heading" : what == 5 ? "everything" : "nothing")
               << " is off at waypoint " << w);
  auto posed = pose(b);
  set(*posed, t);
  if (t.waypoints() > 1) s.nontrivial();
  static const char* labels[] = {"met", "x off", "y off", "heading off", "met", "that of the one before"};
  s.label(labels[what]);
  if (what == 0 || what == 4) {
    if (auto e = posed->broken("C05")) FAIL("rejected though it passes through every waypoint: " << e->text);
  } else if (half) {
    if (posed->accepts()) s.finding("C05-half-turn", "a pose waypoint accepts the opposite heading");
  } else {
    REQUIRE(!posed->accepts(), "accepted though it misses waypoint " << w);
  }
}

// ---------------------------------------------------------------- C06
PROPERTY("C06", "placement", 50000, 800000,
         "1..6 constraints of any kind at waypoints or along segments, chosen so that a random "
         "exact trajectory meets them at every sample they are placed on (accepted) or misses one "
         "of them there (rejected, mostly one sample); non-trivial: missed at some sample "
         "where it was not placed") {
  Drive d = drive(s);
  Traj t = trajectory(s, d, {}, Defect::kNone, nullptr);
  bool reject = s.choose(2);
  std::string text;
  bool telling = false;
  auto cs = constraints(s, t, &reject, s.chance(0.05) ? 20 : 6, &text, &telling);
  if (telling) s.nontrivial();
  Pins p = pins(s, t.waypoints());
  SwervePathBuilder b;
  bool before = s.choose(2);
  if (before) for (auto& c : cs) put(b, c);
  place(s, b, d, t, p);
  if (!before) for (auto& c : cs) put(b, c);
  NOTE(show(d) << "\n" << show(p) << "\n" << show(t));
  for (auto& c : cs) NOTE("\n" << show(c));
  NOTE("\n" << text);
  auto posed = pose(b);
  set(*posed, t);
  s.label(reject ? "missed" : "met");
  for (auto& c : cs) s.label(std::string(c.seg ? "segment" : "waypoint") + " kind " + std::to_string(c.c.kind));
  if (reject) {
    REQUIRE(!posed->accepts(), "accepted though " << text);
  } else if (auto e = posed->broken("C06")) {
    FAIL("rejected though every constraint is met where it was placed: " << e->text);
  }
}

// ---------------------------------------------------------------- C10
PROPERTY("C10", "obstacles-in-problems", 8000, 300000,
         "whole problems with 1..2 bumpers and 1..3 obstacles of 1..5 corners along an exact "
         "trajectory, at waypoints and along segments; accepted exactly when the true distances are "
         "kept at every sample they are placed on; non-trivial: not kept at some other sample") {
  Drive d = drive(s);
  Traj t = trajectory(s, d, {}, Defect::kNone, nullptr);
  std::vector<paths::Outline> bumpers;
  std::vector<double> safety;
  size_t nb = s.chance(0.03) ? s.size(1, 5) : s.size(1, 2);
  SwervePathBuilder b;
  for (size_t i = 0; i < nb; ++i) {
    bumpers.push_back(i && s.chance(0.1) ? bumpers[s.choose(i)] : paths::outline(s, 5, 0.8));
    safety.push_back(s.choose(2) ? 0.0 : s.real(0, 0.2));
    b.AddBumpers(Bumpers{.safetyDistance = safety[i], .points = paths::points(bumpers[i])});
    NOTE("bumper " << paths::show(bumpers[i]) << " safety " << safety[i] << "; ");
  }
  Pins p = pins(s, t.waypoints());
  place(s, b, d, t, p);
  NOTE("\n" << show(p) << "\n" << show(t));
  bool kept = true;
  size_t count = s.chance(0.03) ? s.size(1, 8) : s.size(1, 3);
  for (size_t k = 0; k < count; ++k) {
    auto o = paths::outline(s, s.chance(0.05) ? 12 : 5, 1);
    auto& near = t.at[s.choose(t.total())];
    double dx = near.x + s.coord(3), dy = near.y + s.coord(3);
    for (auto& c : o) { c.x += dx; c.y += dy; }
    Placed pl;
    where(s, t, pl);
    // Slack over the bumpers of every sample.
    std::vector<double> slack;
    for (auto& q : t.at) {
      double m = INFINITY;
      for (size_t i = 0; i < nb; ++i) m = std::min(m, paths::outlineDist(paths::toField(q, bumpers[i]), o) - safety[i]);
      slack.push_back(m);
    }
    double least = INFINITY;
    for (size_t i : pl.required) least = std::min(least, slack[i]);
    if (least <= 0) continue;
    static const std::vector<double> factors{0.99, 0.5, 1.01, 0.9};
    double so = least * s.pick(factors);
    if (!kept && so > least) so = 0.5 * least;
    if (so > least) kept = false;
    for (size_t i = 0; i < t.total(); ++i) {
      for (size_t x = 0; x < nb; ++x) {
        double dd = paths::outlineDist(paths::toField(t.at[i], bumpers[x]), o), m = so + safety[x];
        if (std::fabs(dd * dd - m * m) < 1e-7) throw pbt::Discard{};
      }
      if (slack[i] < so && std::find(pl.required.begin(), pl.required.end(), i) == pl.required.end()) s.nontrivial();
    }
    Obstacle obs{.safetyDistance = so, .points = paths::points(o)};
    NOTE("\nobstacle " << paths::show(o) << " safety " << so << " waypoints " << pl.from << ".." << pl.to);
    if (pl.seg) b.SgmtObstacle(pl.from, pl.to, obs);
    else b.WptObstacle(pl.from, obs);
  }
  auto posed = pose(b);
  set(*posed, t);
  s.label(kept ? "kept" : "broken");
  if (!kept) {
    REQUIRE(!posed->accepts(), "accepted though an obstacle is too near");
  } else if (auto e = posed->broken("C10")) {
    FAIL("rejected though every distance is kept: " << e->text);
  }
}

// ---------------------------------------------------------------- C12
PROPERTY("C12", "start", 60000, 900000,
         "random paths with guess points between waypoints, constraints, obstacles and drivetrains of 0..5 "
         "modules: at the solver's start every variable has the value of the builder's guess or its "
         "differences, and objective and constraints are finite; non-trivial: three or more samples") {
  Drive d = drive(s);
  for (auto& m : d.modules) { m.maxSpeed = s.real(0.1, 6); m.maxForce = s.real(1, 500); }
  SwervePathBuilder b;
  b.SetDrivetrain(d.real());
  bool great = s.chance(0.004);
  size_t w = great ? paths::longCount(s) + 1 : s.chance(0.02) ? s.size(1, 15) : s.size(1, 5);
  std::vector<size_t> n;
  for (size_t k = 0; k < w; ++k) {
    auto g = paths::anyGuess(s);
    switch (s.range(0, 2)) {
      case 0: b.PoseWpt(k, g.x, g.y, g.h); break;
      case 1: b.TranslationWpt(k, g.x, g.y, g.h); break;
      default: b.WptInitialGuessPoint(k, {g.x, g.y, {g.h}});
    }
    if (k) {
      std::vector<Pose2d> more;
      size_t c = !great && s.chance(0.05) ? s.size(0, 9) : s.size(0, 2);
      for (size_t i = 0; i < c; ++i) {
        auto q = paths::anyGuess(s);
        more.emplace_back(q.x, q.y, Rotation2d{q.h});
      }
      b.SgmtInitialGuessPoints(k - 1, more);
      n.push_back(great ? s.size(1, 2) : s.chance(0.005) ? paths::longCount(s) : s.size(1, 6));
    }
  }
  auto counts = n;
  b.ControlIntervalCounts(std::move(counts));
  auto guess = b.CalculateInitialGuess();
  // Constraints whose meaning is defined at every guess.
  std::vector<Sample> at;
  for (size_t i = 0; i < guess.x.size(); ++i) {
    Sample q;
    q.x = guess.x[i];
    q.y = guess.y[i];
    q.h = std::atan2(guess.thetasin[i], guess.thetacos[i]);
    at.push_back(q);
  }
  size_t count = s.size(0, 3);
  for (size_t k = 0; k < count; ++k) {
    Spec c = spec(s, at);
    c.v = s.real(0, 3);
    bool on = false;
    for (auto& q : at) on = on || std::hypot(q.x - c.x, q.y - c.y) < 1e-6;
    if (c.kind == 4 && on) continue;
    if (w > 1 && s.choose(2)) b.SgmtConstraint(0, w - 1, c.make());
    else b.WptConstraint(s.choose(w), c.make());
    NOTE(show(c) << "\n");
  }
  for (size_t k = s.chance(0.3) ? s.size(1, 2) : 0; k > 0; --k) {
    auto o = paths::outline(s, great ? 2 : 5, 0.5), u = paths::outline(s, great ? 3 : 5, 0.5);
    b.AddBumpers({.safetyDistance = s.real(0, 0.1), .points = paths::points(u)});
    Obstacle obstacle{.safetyDistance = s.real(0, 0.1), .points = paths::points(o)};
    if (w > 1 && s.choose(2)) b.SgmtObstacle(0, w - 1, obstacle);
    else b.WptObstacle(s.choose(w), obstacle);
    NOTE("bumpers " << paths::show(u) << " obstacle " << paths::show(o) << "\n");
  }
  NOTE(show(d) << "\n" << w << " waypoints, counts " << pbt::show(n) << "\n x " << pbt::show(guess.x) << " y " << pbt::show(guess.y)
               << " cos " << pbt::show(guess.thetacos) << " sin " << pbt::show(guess.thetasin) << " dt " << pbt::show(guess.dt));
  auto posed = pose(b);
  auto& sol = posed->solution;
  auto start = [&](double number) { return posed->initial[static_cast<size_t>(number - Posed::kBase)]; };
  size_t total = guess.x.size();
  REQUIRE(sol.x.size() == total, "samples of the solution and the guess");
  if (total > 2) s.nontrivial();
  if (d.modules.size() == 1) s.label("one module");
  auto same = [&](const char* what, size_t i, double number, double want) {
    double got = start(number);
    REQUIRE(std::isfinite(got), what << "[" << i << "] starts at " << got);
    REQUIRE(near(got, want, 1e-9, 1e-9), what << "[" << i << "] starts at " << got << " instead of " << want);
    return got;
  };
  std::vector<double> vx(total), vy(total), om(total);
  for (size_t i = 0; i < total; ++i) {
    same("x", i, sol.x[i], guess.x[i]);
    same("y", i, sol.y[i], guess.y[i]);
    same("cos", i, sol.thetacos[i], guess.thetacos[i]);
    same("sin", i, sol.thetasin[i], guess.thetasin[i]);
    double h = i ? guess.dt.at(i) : 1;
    vx[i] = i ? (guess.x[i] - guess.x[i - 1]) / h : 0;
    vy[i] = i ? (guess.y[i] - guess.y[i - 1]) / h : 0;
    double c = 1, sn = 0;
    if (i) {
      c = guess.thetacos[i] * guess.thetacos[i - 1] + guess.thetasin[i] * guess.thetasin[i - 1];
      sn = guess.thetasin[i] * guess.thetacos[i - 1] - guess.thetacos[i] * guess.thetasin[i - 1];
    }
    om[i] = i ? std::atan2(sn, c) / h : 0;
    same("vx", i, sol.vx[i], vx[i]);
    same("vy", i, sol.vy[i], vy[i]);
    if (i && std::fabs(std::fabs(om[i] * h) - kPi) < 1e-6) {  // either way round
      if (near(start(sol.omega[i]), -om[i], 1e-6, 1e-6)) om[i] = -om[i];
      om[i] = start(sol.omega[i]);
      REQUIRE(std::fabs(std::fabs(om[i] * h) - kPi) < 1e-5, "omega[" << i << "] starts at " << om[i]);
    } else {
      same("omega", i, sol.omega[i], om[i]);
    }
    auto close = [&](const char* what, double number, double now, double last) {
      double got = start(number), want = i ? (now - last) / h : 0;
      double tol = 1e-8 * (1 + (std::fabs(now) + std::fabs(last)) / h);
      REQUIRE(std::fabs(got - want) <= tol, what << "[" << i << "] starts at " << got << " instead of " << want);
    };
    close("ax", sol.ax[i], vx[i], i ? vx[i - 1] : 0);
    close("ay", sol.ay[i], vy[i], i ? vy[i - 1] : 0);
    close("alpha", sol.alpha[i], om[i], i ? om[i - 1] : 0);
    for (auto* f : {&sol.moduleFX[i], &sol.moduleFY[i]})
      for (double x : *f) REQUIRE(std::isfinite(start(x)), "a force starts at " << start(x));
  }
  for (double x : sol.dt) REQUIRE(start(x) > 0 && std::isfinite(start(x)), "a time step starts at " << start(x));
  auto& vars = posed->problem->decisionVariables;
  for (size_t i = 0; i < vars.size(); ++i) vars[i].SetValue(posed->initial[i]);
  auto finite = [&](const sleipnir::Variable& v, const char* what) {
    REQUIRE(std::isfinite(v.Value()), what << " starts at " << v.Value() << " over" << posed->classify(v).text);
  };
  for (auto& c : posed->problem->equality) finite(c, "an equality");
  for (auto& c : posed->problem->inequality) finite(c, "an inequality");
  if (posed->problem->objective) finite(*posed->problem->objective, "the objective");
}

// ---------------------------------------------------------------- C25
namespace {

struct Values {
  std::vector<double> eq, ineq;
  double objective = 0;
};
Values valuesAt(Posed& p, const Traj& t) {
  set(p, t);
  Values v;
  auto ordered = [](double x) { return std::isnan(x) ? 1e308 : x; };
  for (auto& c : p.problem->equality) v.eq.push_back(ordered(c.Value()));
  for (auto& c : p.problem->inequality) v.ineq.push_back(ordered(c.Value()));
  if (p.problem->objective) v.objective = p.problem->objective->Value();
  std::sort(v.eq.begin(), v.eq.end());
  std::sort(v.ineq.begin(), v.ineq.end());
  return v;
}
void same(const Values& a, const Values& b, double tol, const char* what) {
  auto list = [&](const std::vector<double>& x, const std::vector<double>& y, const char* kind) {
    REQUIRE(x.size() == y.size(), what << ": " << x.size() << " and " << y.size() << " " << kind);
    double big = 1;
    for (double v : x) if (std::isfinite(v)) big = std::max(big, std::fabs(v));
    for (size_t i = 0; i < x.size(); ++i)
      REQUIRE(x[i] == y[i] || std::fabs(x[i] - y[i]) <= tol * big || (std::isnan(x[i]) && std::isnan(y[i])),
              what << ": " << kind << " differ, " << x[i] << " and " << y[i]);
  };
  list(a.eq, b.eq, "equalities");
  list(a.ineq, b.ineq, "inequalities");
  REQUIRE(near(a.objective, b.objective, tol, tol), what << ": objectives " << a.objective << " and " << b.objective);
}
/// Any values at all, to compare problems away from what they accept.
Traj scramble(pbt::Src& s, Traj t) {
  for (auto& q : t.at) {
    q.x += s.coord(2); q.y += s.coord(2); q.c += s.coord(0.5); q.s += s.coord(0.5);
    q.vx += s.coord(2); q.vy += s.coord(2); q.w += s.coord(2);
    q.ax += s.coord(2); q.ay += s.coord(2); q.al += s.coord(2);
    for (auto& f : q.f) { f.x += s.coord(9); f.y += s.coord(9); }
  }
  for (auto& x : t.dt) x += s.real(0, 0.5);
  return t;
}
struct Scene {
  Drive d;
  Traj t;
  Pins p;
  std::vector<Placed> cs;
  std::vector<paths::Outline> bumpers;
  paths::Outline obstacle;
  double safety = 0;
  Placed at;
};
Scene scene(pbt::Src& s, Defect::Kind kind, size_t most = 4) {
  Scene c;
  c.d = drive(s);
  c.t = trajectory(s, c.d, {.maxWaypoints = most}, kind, nullptr);
  c.p = pins(s, c.t.waypoints());
  bool reject = s.chance(0.3);
  std::string text;
  bool telling = false;
  if (s.choose(2)) c.cs = constraints(s, c.t, &reject, 3, &text, &telling);
  if (telling) s.nontrivial();
  if (s.chance(0.4)) {
    c.bumpers.push_back(paths::outline(s, 4, 0.5));
    c.obstacle = paths::outline(s, 4, 1);
    for (auto& x : c.obstacle) { x.x += s.coord(8); x.y += s.coord(8); }
    for (size_t i = 0; i < c.obstacle.size(); ++i)
      if (c.obstacle.size() > 1 && paths::dist(c.obstacle[i], c.obstacle[(i + 1) % c.obstacle.size()]) < 0.01) throw pbt::Discard{};
    c.safety = s.real(0, 1);
    where(s, c.t, c.at);
  }
  return c;
}
void build(pbt::Src& s, SwervePathBuilder& b, const Scene& c) {
  for (auto& o : c.bumpers) b.AddBumpers(Bumpers{.safetyDistance = 0.1, .points = paths::points(o)});
  place(s, b, c.d, c.t, c.p);
  for (auto& x : c.cs) put(b, x);
  if (!c.obstacle.empty()) {
    Obstacle o{.safetyDistance = c.safety, .points = paths::points(c.obstacle)};
    if (c.at.seg) b.SgmtObstacle(c.at.from, c.at.to, o);
    else b.WptObstacle(c.at.from, o);
  }
}
Defect::Kind anyDefect(pbt::Src& s) {
  return s.choose(2) ? Defect::kNone
                     : s.pick(std::vector<Defect::Kind>{Defect::kPosition, Defect::kVelocity, Defect::kHeading, Defect::kAngularVelocity,
                                                        Defect::kForce, Defect::kTorque, Defect::kNegativeStep});
}

}  // namespace

namespace {
struct Told {
  Scene c;
  SwervePathBuilder b;
  std::vector<Traj> at;
};
Told told(pbt::Src& s) {
  Told r;
  r.c = scene(s, Defect::kNone, s.chance(0.05) ? 15 : 4);
  build(s, r.b, r.c);
  r.at = {r.c.t, scramble(s, r.c.t), scramble(s, r.c.t)};
  return r;
}
/// A problem's starting point, and its constraints with every variable at a number of its own.
std::vector<double> whole(const SwervePathBuilder& b) {
  Posed p{b};
  std::vector<double> r{double(p.initial.size())};
  r.insert(r.end(), p.initial.begin(), p.initial.end());
  for (auto& c : p.problem->equality) r.push_back(c.Value());
  for (auto& c : p.problem->inequality) r.push_back(c.Value());
  if (p.problem->objective) r.push_back(p.problem->objective->Value());
  r.insert(r.begin(), double(r.size()));
  return r;
}
/// What becomes of a path that is told nothing but its waypoints and drivetrain.
std::vector<double> plain() {
  SwervePathBuilder b;
  b.SetDrivetrain({45, 6, {{{0.3, 0.3}, 0.04, 70, 2}, {{-0.3, -0.2}, 0.04, 70, 2}}});
  b.PoseWpt(0, 0, 0, 0);
  b.TranslationWpt(2, 3, 1);
  return whole(b);
}
/// The same path but for one thing.
SwervePathBuilder nearTwin(pbt::Src& s, SwervePathBuilder b) {
  auto& path = b.GetPath();
  auto counts = b.GetControlIntervalCounts();
  auto& ms = path.drivetrain.modules;
  size_t w = path.waypoints.size(), k = s.choose(w);
  switch (s.range(0, 6)) {
    case 0:
      NOTE("| twin with another guess at " << k << " ");
      b.WptInitialGuessPoint(k, {s.coord(5), s.coord(5), {s.coord(3)}});
      break;
    case 1:
      NOTE("| twin with another guess at 0 ");
      b.WptInitialGuessPoint(0, {s.coord(5), s.coord(5), {s.coord(3)}});
      break;
    case 2:
      if (counts.empty()) break;
      NOTE("| twin with other counts ");
      if (counts.size() > 1 && s.choose(2)) std::swap(counts[0], counts[1 + s.choose(counts.size() - 1)]);
      else ++counts[s.choose(counts.size())];
      b.ControlIntervalCounts(std::move(counts));
      break;
    case 3:
      NOTE("| twin of another drivetrain ");
      if (ms.empty() || s.choose(3) == 0) {
        (s.choose(2) ? path.drivetrain.mass : path.drivetrain.moi) *= 1.5;
      } else {
        auto& m = ms[s.choose(ms.size())];
        switch (s.range(0, 4)) {
          case 0: m.wheelRadius *= 1.5; break;
          case 1: m.wheelMaxAngularVelocity *= 1.5; break;
          case 2: m.wheelMaxTorque *= 1.5; break;
          case 3: m.translation = m.translation + Translation2d{0.1, 0.05}; break;
          default: std::swap(m, ms[0]);
        }
      }
      break;
    case 4: {
      NOTE("| twin with constraints elsewhere ");
      auto &p = path.waypoints[k], &q = path.waypoints[s.choose(w)];
      std::swap(p.waypointConstraints, q.waypointConstraints);
      break;
    }
    case 5:
      if (w < 2) break;
      NOTE("| twin with one more guess ");
      b.SgmtInitialGuessPoints(s.choose(w - 1), {{s.coord(5), s.coord(5), {s.coord(3)}}});
      break;
    default: {
      NOTE("| twin without a constraint ");
      auto& p = path.waypoints[k];
      auto& cs = s.choose(2) ? p.waypointConstraints : p.segmentConstraints;
      if (!cs.empty()) cs.erase(cs.begin() + s.choose(cs.size()));
    }
  }
  return b;
}
/// All that a path's problem says about it, as numbers.
std::vector<double> numbers(pbt::Src& s) {
  std::vector<double> r = plain();  // before the other path says more
  Told x = told(s);
  auto p = pose(x.b);
  r.push_back(double(p->initial.size()));
  r.insert(r.end(), p->initial.begin(), p->initial.end());
  for (auto& t : x.at) {
    auto v = valuesAt(*p, t);
    r.push_back(double(v.eq.size()));
    r.insert(r.end(), v.eq.begin(), v.eq.end());
    r.insert(r.end(), v.ineq.begin(), v.ineq.end());
    r.push_back(v.objective);
  }
  return r;
}
}  // namespace

PROPERTY("C25", "determinism", 4000, 300000,
         "a path's problem built from the builder, from a copy of it, again after other "
         "problems were built and solved, one that differs from it in one thing right after it and again later, and in a process of its own that has run no other case: "
         "same starting point, constraint and objective values at three "
         "assignments; non-trivial: constraints or obstacles on the path") {
  pristine::server.start();
  Told x = told(s);
  auto prefix = s.choices();
  auto& [c, b, at] = x;
  SwervePathBuilder copy = b;
  if (!c.cs.empty() || !c.obstacle.empty()) s.nontrivial();
  auto one = pose(b);
  std::vector<Values> v;
  for (auto& t : at) v.push_back(valuesAt(*one, t));
  auto start = one->initial;
  if (s.choose(2)) {
    auto t = nearTwin(s, b);
    auto after = whole(t);
    plain();
    auto again = whole(t);
    s.label("near twin");
    REQUIRE(after.size() == again.size(), "another number of values right after a path nearly the same");
    for (size_t i = 0; i < after.size(); ++i)
      REQUIRE(after[i] == again[i] || (std::isnan(after[i]) && std::isnan(again[i])),
              "value " << i << " is " << after[i] << " right after a path nearly the same, and " << again[i] << " later");
  }
  int others = s.range(0, 2);
  std::vector<std::unique_ptr<Posed>> kept;
  for (int i = 0; i < others; ++i) {
    Scene o = scene(s, Defect::kNone, s.chance(0.05) ? 15 : 4);
    SwervePathBuilder ob;
    build(s, ob, o);
    auto p = pose(ob);
    if (s.choose(2)) kept.push_back(std::move(p));
  }
  if (s.choose(3) == 0) {
    s.label("another process");
    auto here = pbt::Src::replay(prefix, nullptr);
    auto a = numbers(here), z = pristine::server.ask(numbers, prefix);
    REQUIRE(a.size() == z.size(), "another number of values in a process of its own");
    for (size_t i = 0; i < a.size(); ++i)
      REQUIRE(a[i] == z[i] || (std::isnan(a[i]) && std::isnan(z[i])),
              "value " << i << " is " << a[i] << " here, and " << z[i] << " in a process of its own");
  }
  auto check = [&](SwervePathBuilder& from, const char* what) {
    auto p = pose(from);
    REQUIRE(p->initial.size() == start.size(), what << ": number of variables");
    for (size_t i = 0; i < start.size(); ++i)
      REQUIRE(p->initial[i] == start[i] || (std::isnan(start[i]) && std::isnan(p->initial[i])),
              what << ": a variable starts at " << p->initial[i] << " instead of " << start[i]);
    for (size_t i = 0; i < at.size(); ++i) same(v[i], valuesAt(*p, at[i]), 0, what);
  };
  check(b, "built again");
  if (s.choose(2)) one.reset();
  check(copy, "built from a copy");
  if (one)
    for (size_t i = 0; i < at.size(); ++i) same(v[i], valuesAt(*one, at[i]), 0, "the first problem later");
}

PROPERTY("C25", "module-order", 8000, 400000,
         "the same path with the modules in another order: same constraint and objective values "
         "with the forces in that order, and the same verdict; non-trivial: another order") {
  Scene c = scene(s, anyDefect(s));
  std::vector<size_t> order;
  for (size_t i = 0; i < c.d.modules.size(); ++i) order.push_back(i);
  for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[s.choose(i)]);
  auto permuted = [&](Traj t) {
    for (auto& q : t.at) {
      auto f = q.f;
      for (size_t i = 0; i < order.size(); ++i) q.f[i] = f[order[i]];
    }
    return t;
  };
  // Full speeds that make the step bound matter.
  if (!c.d.modules.empty() && s.choose(2)) c.d.modules[s.choose(c.d.modules.size())].maxSpeed *= s.real(0.5, 5);
  Scene o = c;
  for (size_t i = 0; i < order.size(); ++i) {
    o.d.modules[i] = c.d.modules[order[i]];
    if (order[i] != i) s.nontrivial();
  }
  NOTE(show(c.d) << "\norder " << pbt::show(order) << "\n" << show(c.t));
  SwervePathBuilder b, ob;
  build(s, b, c);
  build(s, ob, o);
  auto p = pose(b), q = pose(ob);
  Traj other = scramble(s, c.t);
  same(valuesAt(*p, other), valuesAt(*q, permuted(other)), 1e-9, "modules in another order");
  set(*p, c.t);
  set(*q, permuted(c.t));
  bool a = p->accepts(), z = q->accepts();
  s.label(a ? "accepted" : "rejected");
  REQUIRE(a == z, "the order of the modules decides whether a trajectory is accepted");
}

PROPERTY("C25", "rigid-motion", 10000, 400000,
         "the whole field turned and shifted: an exact or defective trajectory moved along gets "
         "the same verdict, the objective stays, and the starting point moves along; "
         "non-trivial: constraints or obstacles on the path") {
  Scene c = scene(s, anyDefect(s));
  double phi = s.chance(0.3) ? s.range(-4, 4) * kPi / 2 : s.coord(kPi);
  P by{s.coord(5), s.coord(5)};
  auto point = [&](P p) { return paths::toField({by.x, by.y, phi}, p); };
  auto turn = [&](double& x, double& y) {
    P p = paths::toField({0, 0, phi}, {x, y});
    x = p.x;
    y = p.y;
  };
  Scene o = c;
  for (auto& q : o.t.at) {
    P p = point({q.x, q.y});
    q.x = p.x;
    q.y = p.y;
    q.h += phi;
    turn(q.c, q.s);
    turn(q.vx, q.vy);
    turn(q.ax, q.ay);
    for (auto& f : q.f) turn(f.x, f.y);
  }
  for (auto& x : o.cs) x.c = x.c.moved(phi, by);
  for (auto& x : o.obstacle) x = point(x);
  if (!c.cs.empty() || !c.obstacle.empty()) s.nontrivial();
  // Borderline constraints are not judged: both sides of each must agree.
  for (size_t k = 0; k < c.cs.size(); ++k) {
    paths::Applied a{{c.cs[k].c.make()}}, m{{o.cs[k].c.make()}};
    for (size_t i = 0; i < c.t.total(); ++i) {
      if (c.cs[k].c.threshold()) {
        double d = c.cs[k].c.measure(c.t.at[i]);
        if (std::fabs(d - c.cs[k].c.v) < 1e-6 * (1 + d) || d < 1e-4) throw pbt::Discard{};
      }
      if (a.accepts(c.t.at[i]) != m.accepts(o.t.at[i])) throw pbt::Discard{};
    }
  }
  for (auto& out : c.bumpers)
    for (auto& q : c.t.at) {
      double d = paths::outlineDist(paths::toField(q, out), c.obstacle), m = c.safety + 0.1;
      if (std::fabs(d * d - m * m) < 1e-6) throw pbt::Discard{};
    }
  // Both are built by the same calls, but for the motion.
  SwervePathBuilder b, ob;
  auto plain = [&](SwervePathBuilder& to, const Scene& x) {
    for (auto& out : x.bumpers) to.AddBumpers(Bumpers{.safetyDistance = 0.1, .points = paths::points(out)});
    to.SetDrivetrain(x.d.real());
    for (size_t w = 0; w < x.t.waypoints(); ++w) {
      auto& q = x.t.at[x.t.sampleOf(w)];
      if (x.p.kind[w] == 0) to.PoseWpt(w, q.x, q.y, q.h);
      else if (x.p.kind[w] == 1) to.TranslationWpt(w, q.x, q.y, q.h);
      else to.WptInitialGuessPoint(w, {q.x, q.y, {q.h}});
    }
    auto n = x.t.n;
    to.ControlIntervalCounts(std::move(n));
    for (auto& y : x.cs) put(to, y);
    if (!x.obstacle.empty()) {
      Obstacle obs{.safetyDistance = x.safety, .points = paths::points(x.obstacle)};
      if (x.at.seg) to.SgmtObstacle(x.at.from, x.at.to, obs);
      else to.WptObstacle(x.at.from, obs);
    }
  };
  plain(b, c);
  plain(ob, o);
  NOTE(show(c.d) << "\n" << show(c.p) << "\n" << show(c.t) << "\nturned by " << phi << " shifted by (" << by.x << ", " << by.y << ")");
  for (auto& x : c.cs) NOTE("\n" << show(x));
  auto p = pose(b), q = pose(ob);
  REQUIRE(p->initial.size() == q->initial.size(), "number of variables");
  auto start = [](Posed& x, double number) { return x.initial[static_cast<size_t>(number - Posed::kBase)]; };
  bool opposite = false;  // guesses half a turn apart may turn either way
  for (size_t w = 1; w < c.t.waypoints(); ++w)
    opposite = opposite || std::fabs(std::fabs(std::remainder(c.t.at[c.t.sampleOf(w)].h - c.t.at[c.t.sampleOf(w - 1)].h, 2 * kPi)) - kPi) < 1e-6;
  for (size_t i = 0; i < c.t.total() && !opposite; ++i) {
    auto &u = p->solution, &v = q->solution;
    P x = point({start(*p, u.x[i]), start(*p, u.y[i])});
    REQUIRE(near(x.x, start(*q, v.x[i]), 1e-9) && near(x.y, start(*q, v.y[i]), 1e-9), "starting position of sample " << i);
    double a = start(*p, u.thetacos[i]), z = start(*p, u.thetasin[i]);
    turn(a, z);
    REQUIRE(near(a, start(*q, v.thetacos[i]), 1e-8) && near(z, start(*q, v.thetasin[i]), 1e-8), "starting heading of sample " << i);
    REQUIRE(near(start(*p, u.omega[i]), start(*q, v.omega[i]), 1e-6, 1e-6), "starting angular velocity of sample " << i);
  }
  set(*p, c.t);
  set(*q, o.t);
  if (p->problem->objective && q->problem->objective)
    REQUIRE(near(p->problem->objective->Value(), q->problem->objective->Value()), "objectives differ");
  auto e = p->broken(""), f = q->broken("");
  s.label(e ? "rejected" : "accepted");
  REQUIRE(!e == !f, "a motion of the field decides whether a trajectory is accepted: " << (e ? e->text : f->text));
}

// ---------------------------------------------------------------- C27
PROPERTY("C27", "startable", 6000, 300000,
         "random scenes of 1..4 waypoints with constraints and obstacles, a guess of their own: at the "
         "starting point, along the trajectory and with samples at rest or without forces, values and "
         "first derivatives of objective and constraints by all variables are finite, and the path's own "
         "equalities leave freedom; non-trivial: constraints, obstacles or three or more modules") {
  Scene c = scene(s, Defect::kNone);
  SwervePathBuilder b;
  build(s, b, c);
  // The robot's centre on the very point, or an end of the line, to keep away from.
  for (int k = s.chance(0.4) ? s.range(1, 2) : 0; k > 0; --k) {
    Placed p;
    p.c.kind = s.range(7, 9);
    p.seg = c.t.waypoints() > 1 && s.choose(2);
    p.from = p.seg ? s.size(0, c.t.waypoints() - 2) : s.choose(c.t.waypoints());
    p.to = p.from + p.seg;
    auto& q = c.t.at[c.t.sampleOf(s.choose(2) ? p.from : p.to)];
    P other{s.coord(2), s.coord(2)};
    p.c.v = s.choose(2) ? 0 : s.real(0, 1);
    p.c.x = q.x;
    p.c.y = q.y;
    if (p.c.kind == 8) (s.choose(2) ? p.c.a : p.c.b) = other;
    if (p.c.kind == 9) {
      p.c.b = {q.x + other.x, q.y + other.y};
      if (s.choose(2)) { std::swap(p.c.x, p.c.b.x); std::swap(p.c.y, p.c.b.y); }
    }
    put(b, p);
    c.cs.push_back(p);
    s.label("in touch");
  }
  // Or facing precisely what it is to face.
  if (s.chance(0.2)) {
    Placed p;
    p.c.kind = 4;
    p.from = p.to = s.choose(c.t.waypoints());
    auto& q = c.t.at[c.t.sampleOf(p.from)];
    double far = s.real(0.1, 5);
    p.c.v = s.choose(2) ? 0 : s.real(0, 1);
    p.c.x = q.x + far * q.c;
    p.c.y = q.y + far * q.s;
    put(b, p);
    c.cs.push_back(p);
    s.label("facing");
  }
  // Guesses: as placed, all at one spot, or anywhere in between.
  size_t w = c.t.waypoints();
  if (w > 1 && s.choose(2)) {
    bool still = s.choose(2);
    for (size_t k = 0; k + 1 < w; ++k) {
      std::vector<Pose2d> g;
      for (int n = s.range(0, 2); n > 0; --n)
        g.push_back(still ? Pose2d{c.t.at[0].x, c.t.at[0].y, {c.t.at[0].h}} : Pose2d{s.coord(8), s.coord(8), {s.coord(4)}});
      b.SgmtInitialGuessPoints(k, g);
    }
    s.label(still ? "a guess that stays" : "a guess of its own");
  }
  if (!c.cs.empty() || !c.obstacle.empty() || c.d.modules.size() > 2) s.nontrivial();
  NOTE(show(c.d) << "\n" << show(c.p) << "\n" << show(c.t));
  for (auto& x : c.cs) NOTE("\n" << show(x));
  if (!c.obstacle.empty()) NOTE("\nobstacle " << paths::show(c.obstacle));
  auto posed = pose(b);
  auto& vars = posed->problem->decisionVariables;
  // A robot on the point that it is to face has no direction to turn.
  auto onTarget = [&](double x, double y) {
    for (auto& q : c.cs)
      if (q.c.kind == 4 && std::hypot(x - q.c.x, y - q.c.y) < 1e-6) return true;
    return false;
  };
  auto smooth = [&](const char* where) {
    auto& sol = posed->solution;
    for (size_t i = 0; i < sol.x.size(); ++i) {
      double x = vars[static_cast<size_t>(sol.x[i] - Posed::kBase)].Value(), y = vars[static_cast<size_t>(sol.y[i] - Posed::kBase)].Value();
      if (onTarget(x, y)) return;
    }
    auto each = [&](const sleipnir::Variable& v, const char* what) {
      REQUIRE(sym::differentiable(v), where << ": " << what << " of value " << v.Value() << " has no finite derivative, over"
                                            << posed->classify(v).text);
    };
    for (auto& v : posed->problem->equality) each(v, "an equality");
    for (auto& v : posed->problem->inequality) each(v, "an inequality");
    if (posed->problem->objective) each(*posed->problem->objective, "the objective");
  };
  for (size_t i = 0; i < vars.size(); ++i) vars[i].SetValue(posed->initial[i]);
  smooth("at the start");
  set(*posed, c.t);
  smooth("along the trajectory");
  Traj r = c.t;
  int what = s.range(1, 7);
  for (auto& q : r.at) {
    if (s.choose(2)) continue;
    if (what & 1) q.vx = q.vy = q.w = 0;
    if (what & 2) q.ax = q.ay = q.al = 0;
    if (what & 4) for (auto& f : q.f) f = {};
  }
  set(*posed, r);
  smooth("at rest");
  // From rest at one pose to rest at another, something must be left to choose.
  if (c.d.modules.size() > 1 && w > 1) {
    SwervePathBuilder rest;
    rest.SetDrivetrain(c.d.real());
    for (size_t k : {size_t{0}, w - 1}) {
      auto& q = c.t.at[c.t.sampleOf(k)];
      rest.PoseWpt(k, q.x, q.y, q.h);
      rest.WptConstraint(k, LinearVelocityMaxMagnitudeConstraint{0});
      rest.WptConstraint(k, AngularVelocityMaxMagnitudeConstraint{0});
    }
    auto n = c.t.n;
    rest.ControlIntervalCounts(std::move(n));
    auto p = pose(rest);
    REQUIRE(p->problem->equality.size() <= p->problem->decisionVariables.size(),
            p->problem->equality.size() << " equalities over " << p->problem->decisionVariables.size() << " variables");
  }
}
