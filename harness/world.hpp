// Random drivetrains, physically exact trajectories (optionally with one
// injected defect), and problems posed by the generator with their variables
// identified.
#pragma once

#include <array>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

#include <sleipnir/optimization/OptimizationProblem.hpp>

#include "paths.hpp"
#include "trajopt/SwerveTrajectoryGenerator.hpp"
#include "trajopt/path/SwervePathBuilder.hpp"

namespace world {

using paths::kPi;
using paths::P;
using paths::State;

// ------------------------------------------------------------ drivetrain
struct Module {
  P at;
  double maxSpeed = 1, maxForce = 1, radius = 0.05;
};
struct Drive {
  double mass = 1, moi = 1;
  std::vector<Module> modules;
  /// Smallest nonzero axis-aligned spacing of any two modules.
  double spacing() const {
    double d = INFINITY;
    for (size_t i = 0; i < modules.size(); ++i)
      for (size_t j = 0; j < i; ++j)
        for (double g : {std::fabs(modules[i].at.x - modules[j].at.x),
                         std::fabs(modules[i].at.y - modules[j].at.y)})
          if (g != 0) d = std::min(d, g);
    return d;
  }
  P centre() const {
    P c{0, 0};
    for (auto& m : modules) {
      c.x += m.at.x / modules.size();
      c.y += m.at.y / modules.size();
    }
    return c;
  }
  double spread() const {
    double r = 0;
    P c = centre();
    for (auto& m : modules) {
      double d = paths::dist(m.at, c);
      r += d * d;
    }
    return r;
  }
  bool free() const { return spread() > 1e-4; }  // any force and torque possible
  trajopt::SwerveDrivetrain real() const {
    trajopt::SwerveDrivetrain d{mass, moi, {}};
    for (auto& m : modules)
      d.modules.push_back({paths::tr(m.at), m.radius, m.maxSpeed / m.radius, m.maxForce * m.radius});
    return d;
  }
};
inline std::string show(const Drive& d) {
  std::string r = "mass " + pbt::show(d.mass) + " moi " + pbt::show(d.moi);
  for (auto& m : d.modules)
    r += " module (" + pbt::show(m.at.x) + ", " + pbt::show(m.at.y) + ") speed<=" +
         pbt::show(m.maxSpeed) + " force<=" + pbt::show(m.maxForce) + " radius " + pbt::show(m.radius);
  return r;
}
/// Mass, inertia and placement; limits are set to suit a trajectory.
inline Drive drive(pbt::Src& s) {
  Drive d;
  d.mass = s.real(1, 100);
  d.moi = s.real(0.1, 20);
  switch (s.weighted({4, 3, 2, 1, 1, 1})) {
    case 0: {  // rectangle
      double l = s.real(0.1, 0.5), w = s.real(0.1, 0.5);
      d.modules = {{{l, w}}, {{l, -w}}, {{-l, w}}, {{-l, -w}}};
      break;
    }
    case 1: {  // anything
      size_t n = s.chance(0.1) ? s.size(5, 10) : s.size(2, 5);
      for (size_t i = 0; i < n; ++i) d.modules.push_back({{s.real(-1, 1), s.real(-1, 1)}});
      break;
    }
    case 2: {  // some in line
      size_t n = s.size(2, 4);
      double x = s.real(-1, 1);
      for (size_t i = 0; i < n; ++i) d.modules.push_back({{s.choose(3) ? x : s.real(-1, 1), s.real(-1, 1)}});
      if (s.choose(2)) for (auto& m : d.modules) std::swap(m.at.x, m.at.y);
      break;
    }
    case 3: d.modules = {{{s.real(-1, 1), s.real(-1, 1)}}}; break;
    case 4: {  // all in one place
      P p{s.real(-1, 1), s.real(-1, 1)};
      d.modules = {{p}, {p}};
      break;
    }
    default: break;
  }
  if (d.modules.size() && s.chance(0.08)) {  // at the robot's centre, on an axis, in another's place
    auto& m = d.modules[s.choose(d.modules.size())];
    switch (s.choose(4)) {
      case 0: m.at.x = 0; break;
      case 1: m.at.y = 0; break;
      case 2: m.at = {0, 0}; break;
      default: m.at = d.modules[s.choose(d.modules.size())].at;
    }
  }
  // Modules are in one place or well apart.
  double sp = d.spacing();
  if (std::isfinite(sp) && (sp < 0.01 || d.spread() < 0.005)) throw pbt::Discard{};
  for (size_t i = d.modules.size(); i > 1; --i) std::swap(d.modules[i - 1], d.modules[s.choose(i)]);
  for (auto& m : d.modules) m.radius = s.real(0.01, 0.2);
  if (d.modules.size() && s.chance(0.06))
    d.modules[s.choose(d.modules.size())].radius = s.choose(3) ? s.real(1e-4, 0.01) : s.real(0.2, 20);
  if (s.chance(0.03)) d.mass = s.choose(2) ? s.real(0.01, 1) : s.real(100, 5000);
  if (s.chance(0.03)) d.moi = s.choose(2) ? s.real(0.001, 0.1) : s.real(20, 500);
  if (d.free() && s.chance(0.03)) (s.choose(3) ? d.moi : d.mass) = 0;
  return d;
}

// ------------------------------------------------------------ trajectories
struct Sample : State {
  double c = 1, s = 0;  // what the heading's variables hold
  std::vector<P> f;
};
struct Traj {
  std::vector<size_t> n;    // intervals per segment
  std::vector<double> dt;   // step per segment
  std::vector<Sample> at;
  size_t waypoints() const { return n.size() + 1; }
  size_t total() const { return at.size(); }
  /// The sample of a waypoint.
  size_t sampleOf(size_t w) const {
    size_t r = 0;
    for (size_t i = 0; i < w; ++i) r += n[i];
    return r;
  }
  /// The segment that ends in or contains sample i >= 1.
  size_t segmentOf(size_t i) const {
    size_t end = 0;
    for (size_t k = 0; k < n.size(); ++k)
      if (i <= (end += n[k])) return k;
    return n.size() - 1;
  }
  double duration() const {
    double t = 0;
    for (size_t k = 0; k < n.size(); ++k) t += n[k] * dt[k];
    return t;
  }
};
inline std::string show(const Traj& t) {
  std::string r = "counts " + pbt::show(t.n) + " steps " + pbt::show(t.dt);
  for (size_t i = 0; i < t.at.size() && i < 12; ++i) r += "\n  " + std::to_string(i) + ": " + paths::show(t.at[i]);
  return r;
}
inline double wheelSpeed(const Sample& q, const Module& m) {
  P v{q.vx * q.c + q.vy * q.s, -q.vx * q.s + q.vy * q.c};
  return std::hypot(v.x - q.w * m.at.y, v.y + q.w * m.at.x);
}
inline double force(const P& f) { return std::hypot(f.x, f.y); }

/// What goes wrong at which sample.
struct Defect {
  enum Kind {
    kNone, kPosition, kStep, kVelocity, kHeading, kHalfTurn, kAngularVelocity, kNonUnit,
    kAlternating, kForce, kTorque, kNegativeStep
  } kind = kNone;
  size_t sample = 0;
  static const char* name(Kind k) {
    static const char* n[] = {"none", "position", "position by another segment's step",
      "velocity", "heading", "heading by a half turn", "angular velocity", "non-unit heading",
      "alternating non-unit headings", "net force", "net torque", "negative step"};
    return n[k];
  }
};

struct Options {
  double longSegment = 0.01;  // how often one has a great many intervals
  size_t minWaypoints = 1, maxWaypoints = 5;
  bool special = true;  // straight and resting stretches
  double negative = 0;  // not used unless the defect asks
};

/// How large a defect is, relative to what it disturbs.
inline double defectSize(pbt::Src& s) {
  static const std::vector<double> sizes{0.3, 1e-3, 0.05, 1};
  return s.pick(sizes) * s.real(0.5, 1);
}
inline P direction(pbt::Src& s) {
  switch (s.range(0, 4)) {
    case 0: return {s.sgn(), 0};
    case 1: return {0, s.sgn()};
    default: { double a = s.coord(kPi); return {std::cos(a), std::sin(a)}; }
  }
}

/// A trajectory that obeys mechanics exactly, but for the defect; then gives the
/// modules limits it keeps.
inline Traj trajectory(pbt::Src& s, Drive& d, const Options& o, Defect::Kind kind, Defect* where) {
  Traj t;
  size_t w = s.size(std::max<size_t>(o.minWaypoints, kind == Defect::kNone ? 1 : kind == Defect::kStep ? 3 : (kind == Defect::kForce || kind == Defect::kTorque) ? 1 : 2), s.chance(0.03) ? 3 * o.maxWaypoints : o.maxWaypoints);
  bool great = o.maxWaypoints >= 5 && s.chance(0.004);
  if (great) w = paths::longCount(s) + 1;
  bool defaults = w > 1 && w <= 3 && s.chance(0.02);
  for (size_t k = 0; k + 1 < w; ++k) {
    t.n.push_back(defaults ? 40 : great ? s.size(1, 2) : s.choose(3) ? s.size(1, 4) : s.size(1, 8));
    t.dt.push_back(s.chance(0.05) ? 0.0 : s.choose(2) ? s.real(0.01, 0.3) : s.real(0.001, 2));
  }
  if (w > 1 && w <= 4 && s.chance(o.longSegment)) {
    static const std::vector<size_t> longer{511, 520, 700, 1030};
    t.n[s.choose(t.n.size())] = s.chance(0.12) ? s.pick(longer) : paths::longCount(s);
  }
  size_t total = 1;
  for (auto n : t.n) total += n;
  Defect def{kind, 0};
  switch (kind) {
    case Defect::kNone: break;
    case Defect::kForce:
    case Defect::kTorque:
    case Defect::kAlternating: def.sample = s.choose(total); break;
    case Defect::kStep: {  // often the first of a segment
      def.sample = s.size(1, total - 1);
      if (s.choose(2)) { size_t k = s.size(1, t.n.size() - 1); def.sample = t.sampleOf(k) + 1; }
      break;
    }
    case Defect::kNegativeStep: {
      size_t k = s.choose(t.dt.size());
      t.dt[k] = -(t.dt[k] + 1e-3) * defectSize(s);
      def.sample = t.sampleOf(k) + 1;
      break;
    }
    default: def.sample = s.size(1, total - 1);
  }
  if (where) *where = def;
  double dtMax = 1e-3;
  for (double x : t.dt) dtMax = std::max(dtMax, std::fabs(x));
  double vmax = std::min(5.0, 0.35 * d.spacing() / dtMax), rmax = 0.1;
  for (auto& m : d.modules) rmax = std::max(rmax, std::hypot(m.at.x, m.at.y));
  double wmax = std::min(6.0, vmax / rmax);
  bool straight = o.special && s.chance(0.2), turning = s.chance(0.8);
  P dir = direction(s);
  std::vector<bool> rest(t.n.size());
  for (size_t k = 0; k < rest.size(); ++k) rest[k] = o.special && s.chance(0.1);

  Sample q;
  q.x = s.coord(8);
  q.y = s.coord(8);
  q.h = s.chance(0.2) ? s.range(-4, 4) * kPi / 4 : s.coord(kPi);
  auto pickVelocity = [&](Sample& n, bool still) {
    if (still) {
      n.vx = n.vy = n.w = 0;
      return;
    }
    P u = straight ? dir : direction(s);
    double speed = vmax * s.real(straight ? -1 : 0, 1);
    n.vx = u.x * speed;
    n.vy = u.y * speed;
    n.w = turning ? s.coord(wmax) : 0;
  };
  // Robot-frame forces with the sum m*a (a in the robot frame) and torque, and
  // how much these are to be off.
  auto forces = [&](Sample& n, P a, double alpha, P offF, double offTau) {
    size_t count = d.modules.size();
    P c = d.centre(), sum{d.mass * a.x + offF.x, d.mass * a.y + offF.y};
    double tau = d.moi * alpha + offTau, scale = std::hypot(sum.x, sum.y) / count + std::fabs(tau) + 1;
    std::vector<P> f(count);
    for (auto& x : f) x = {s.coord(scale), s.coord(scale)};
    for (auto& x : f) { sum.x -= x.x; sum.y -= x.y; }
    for (auto& x : f) { x.x += sum.x / count; x.y += sum.y / count; }
    for (size_t i = 0; i < count; ++i) tau -= d.modules[i].at.x * f[i].y - d.modules[i].at.y * f[i].x;
    double k = tau / d.spread();
    for (size_t i = 0; i < count; ++i) {
      f[i].x += -k * (d.modules[i].at.y - c.y);
      f[i].y += k * (d.modules[i].at.x - c.x);
    }
    n.f.clear();
    for (auto& x : f) n.f.push_back(paths::toField({0, 0, n.h}, x));
  };
  for (size_t i = 0; i < total; ++i) {
    Sample n = q;
    double dt = 0;
    bool first = i == 0, hit = def.kind != Defect::kNone && def.sample == i;
    size_t k = first ? 0 : t.segmentOf(i);
    if (!first) dt = t.dt[k];
    auto size = [&] { return hit ? defectSize(s) : 0.0; };
    P aDefect{0, 0};
    double alphaDefect = 0;
    if (d.free()) {
      bool still = !first && rest[k];
      if (first || dt != 0) pickVelocity(n, still);
      if (first || dt == 0) {
        n.ax = s.coord(5);
        n.ay = s.coord(5);
        n.al = s.coord(5);
      } else {
        n.ax = (n.vx - q.vx) / dt;
        n.ay = (n.vy - q.vy) / dt;
        n.al = (n.w - q.w) / dt;
      }
    } else {
      // One place where forces act, or none: they decide the motion.
      P f = d.modules.empty() ? P{0, 0} : P{s.coord(10), s.coord(10)}, at = d.centre();
      n.al = d.modules.empty() ? 0 : (at.x * f.y - at.y * f.x) / d.moi;
      if (hit && def.kind == Defect::kTorque) n.al += s.sgn() * size() * std::max(1.0, std::fabs(n.al));
      if (first) pickVelocity(n, false);
      else n.w = q.w + n.al * dt;
      if (hit && def.kind == Defect::kAngularVelocity) n.w += s.sgn() * size() * 0.3;
      double h = q.h + (first ? 0 : n.w * dt);
      if (hit && def.kind == Defect::kHeading) h += s.sgn() * std::min(3.0, size() * 2);
      if (hit && def.kind == Defect::kHalfTurn) h += kPi;
      P a = paths::toField({0, 0, h}, {f.x / d.mass, f.y / d.mass});
      if (hit && def.kind == Defect::kForce) {
        P u = direction(s);
        double z = size() * std::max(1.0, std::hypot(a.x, a.y));
        a = {a.x + u.x * z, a.y + u.y * z};
      }
      n.ax = a.x;
      n.ay = a.y;
      if (!first) {
        n.vx = q.vx + n.ax * dt;
        n.vy = q.vy + n.ay * dt;
      }
      n.h = h;
      n.f.clear();
      for (size_t j = 0; j < d.modules.size(); ++j) {
        P part = j + 1 < d.modules.size() ? P{s.coord(5), s.coord(5)} : f;
        f = {f.x - part.x, f.y - part.y};
        n.f.push_back(paths::toField({0, 0, h}, part));
      }
    }
    if (hit && def.kind == Defect::kVelocity) {
      P u = direction(s);
      double z = size() * std::min(0.3, 0.2 * vmax);
      n.vx += u.x * z;
      n.vy += u.y * z;
    }
    if (hit && d.free() && def.kind == Defect::kAngularVelocity) n.w += s.sgn() * size() * std::min(0.3, 0.2 * wmax);
    if (!first) {
      double step = dt;
      if (hit && def.kind == Defect::kStep) {
        std::vector<double> others;
        for (double x : t.dt)
          if (std::fabs(x - dt) > 1e-3) others.push_back(x);
        if (others.empty()) throw pbt::Discard{};
        step = s.pick(others);
        if (std::hypot(n.vx, n.vy) * std::fabs(step - dt) < 1e-5) throw pbt::Discard{};
      }
      n.x = q.x + n.vx * step;
      n.y = q.y + n.vy * step;
      if (d.free()) n.h = q.h + n.w * dt;
    }
    if (hit && def.kind == Defect::kPosition) {
      P u = direction(s);
      double z = size();
      n.x += u.x * z;
      n.y += u.y * z;
    }
    if (d.free()) {
      if (hit && def.kind == Defect::kHeading) n.h += s.sgn() * std::min(3.0, size() * 2);
      if (hit && def.kind == Defect::kHalfTurn) n.h += kPi;
      P a{n.ax, n.ay}, offF{0, 0};
      double offTau = 0;
      if (hit && def.kind == Defect::kForce) {
        P u = direction(s);
        double z = size() * std::max(1.0, std::hypot(a.x, a.y)) * (d.mass > 0 ? d.mass : 1);
        offF = {u.x * z, u.y * z};
      }
      if (hit && def.kind == Defect::kTorque)
        offTau = s.sgn() * size() * std::max(1.0, std::fabs(n.al)) * (d.moi > 0 ? d.moi : 1);
      forces(n, paths::toRobot({0, 0, n.h}, a), n.al, offF, offTau);
    }
    n.c = std::cos(n.h);
    n.s = std::sin(n.h);
    t.at.push_back(n);
    q = n;
  }
  if (kind == Defect::kNonUnit || kind == Defect::kAlternating) {
    // Scaled rotations scale torque arms, which the forces make up for.
    if (!d.free() && !d.modules.empty()) throw pbt::Discard{};
    double k = kind == Defect::kNonUnit ? 1 + s.sgn() * std::min(0.9, defectSize(s)) : 1 + 0.5 * defectSize(s);
    for (size_t i = 0; i < total; ++i) {
      if (kind == Defect::kNonUnit && i != def.sample) continue;
      auto& x = t.at[i];
      double z = kind == Defect::kAlternating && i % 2 == 0 ? 1 / k : k;
      x.c *= z;
      x.s *= z;
      if (!d.modules.empty()) forces(x, paths::toRobot({0, 0, x.h}, {x.ax, x.ay}), x.al / z, {0, 0}, 0);
    }
  }

  // Limits that are kept: generous, or just so.
  static const std::vector<double> margins{0.5, 1e-2, 1e-6, 3};
  for (size_t j = 0; j < d.modules.size(); ++j) {
    double v = 0, f = 0;
    for (auto& x : t.at) {
      v = std::max(v, wheelSpeed(x, d.modules[j]));
      f = std::max(f, force(x.f[j]));
    }
    double cap = d.spacing() / dtMax * (1 - 1e-9);
    d.modules[j].maxSpeed = std::min(std::max(v, 1e-3) * (1 + s.pick(margins)), std::max(v * (1 + 1e-9), cap));
    d.modules[j].maxForce = std::max(f, 1e-3) * (1 + s.pick(margins));
  }
  return t;
}

// ------------------------------------------------------------ constraints
/// A constraint of the public variant by its parameters.
struct Spec {
  int kind = 0;
  double v = 0, x = 0, y = 0, h = 0;  // threshold or angle, field pose or point
  P a{}, b{};                         // robot point, second point
  static constexpr int kKinds = 10;
  bool threshold() const { return kind <= 2 || kind == 4 || kind >= 7; }
  trajopt::Constraint make() const {
    using namespace trajopt;
    switch (kind) {
      case 0: return LinearVelocityMaxMagnitudeConstraint{v};
      case 1: return LinearAccelerationMaxMagnitudeConstraint{v};
      case 2: return AngularVelocityMaxMagnitudeConstraint{v};
      case 3: return LinearVelocityDirectionConstraint{v};
      case 4: return PointAtConstraint{Translation2d{x, y}, v};
      case 5: return PoseEqualityConstraint{x, y, h};
      case 6: return TranslationEqualityConstraint{x, y};
      case 7: return PointPointConstraint{paths::tr(a), Translation2d{x, y}, v};
      case 8: return LinePointConstraint{paths::tr(a), paths::tr(b), Translation2d{x, y}, v};
      default: return PointLineConstraint{paths::tr(a), Translation2d{x, y}, paths::tr(b), v};
    }
  }
  /// What the threshold is compared with, in a state.
  double measure(const State& q) const {
    P f{x, y};
    switch (kind) {
      case 0: return std::hypot(q.vx, q.vy);
      case 1: return std::hypot(q.ax, q.ay);
      case 2: return std::fabs(q.w);
      case 4: return std::fabs(std::remainder(std::atan2(y - q.y, x - q.x) - q.h, 2 * kPi));
      case 7: return paths::dist(paths::toField(q, a), f);
      case 8: return paths::segDist(paths::toField(q, a), paths::toField(q, b), f);
      case 9: return paths::segDist(f, b, paths::toField(q, a));
      default: return 0;
    }
  }
  /// The same on a field turned by phi and then shifted.
  Spec moved(double phi, P by) const {
    Spec r = *this;
    P p = paths::toField({by.x, by.y, phi}, {x, y});
    r.x = p.x;
    r.y = p.y;
    r.h += phi;
    if (kind == 3) r.v += phi;
    if (kind == 9) r.b = paths::toField({by.x, by.y, phi}, b);
    return r;
  }
};
inline std::string show(const Spec& c) {
  static const char* n[] = {"max velocity", "max acceleration", "max angular velocity", "velocity direction",
                            "point at", "pose", "translation", "point-point", "line-point", "point-line"};
  return std::string(n[c.kind]) + " v=" + pbt::show(c.v) + " (" + pbt::show(c.x) + ", " + pbt::show(c.y) +
         ", " + pbt::show(c.h) + ") a=(" + pbt::show(c.a.x) + ", " + pbt::show(c.a.y) + ") b=(" +
         pbt::show(c.b.x) + ", " + pbt::show(c.b.y) + ")";
}
/// One that some of the states meet, and others miss.
inline Spec spec(pbt::Src& s, const std::vector<Sample>& at) {
  Spec c;
  c.kind = s.range(0, Spec::kKinds - 1);
  auto& q = at[s.choose(at.size())];
  c.x = q.x + s.coord(3);
  c.y = q.y + s.coord(3);
  c.a = {s.coord(1), s.coord(1)};
  c.b = {c.a.x + s.sgn() * s.real(0.1, 1), c.a.y + s.coord(1)};
  if (c.kind == 9) c.b = {c.x + s.coord(1), c.y + s.sgn() * s.real(0.1, 1)};
  if (c.kind == 3) c.v = std::hypot(q.vx, q.vy) > 0 ? std::atan2(q.vy, q.vx) + kPi * s.range(-1, 1) : s.coord(4);
  if (c.kind == 5 || c.kind == 6) {
    c.x = q.x;
    c.y = q.y;
    c.h = q.h + 2 * kPi * s.range(-1, 1);
  }
  if (c.threshold()) {
    static const std::vector<double> factors{1.3, 0.7, 1.001, 0.999, 1};
    c.v = c.measure(q) * s.pick(factors);
  }
  return c;
}

// ------------------------------------------------------------ posed problem
enum Quantity { kX, kY, kCos, kSin, kVx, kVy, kW, kAx, kAy, kAl, kFx, kFy, kDt };

struct Posed {
  trajopt::SwervePathBuilder builder;
  std::unique_ptr<trajopt::SwerveTrajectoryGenerator> gen;
  sleipnir::OptimizationProblem* problem = nullptr;
  std::vector<double> initial;       // of each decision variable
  trajopt::SwerveSolution solution;  // with variable numbers as values
  std::string unidentified;          // why the variables cannot be told apart
  struct What {
    Quantity q;
    size_t sample, module;
  };
  std::map<const sleipnir::detail::Expression*, What> what;

  static constexpr double kBase = 1000;

  explicit Posed(trajopt::SwervePathBuilder b, int64_t handle = 0) : builder{std::move(b)} {
    gen = std::make_unique<trajopt::SwerveTrajectoryGenerator>(builder, handle);
    sleipnir::model::onSolve = [this](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
      problem = &p;
      for (size_t i = 0; i < p.decisionVariables.size(); ++i) {
        initial.push_back(p.decisionVariables[i].Value());
        p.decisionVariables[i].SetValue(kBase + i);
      }
      return sleipnir::SolverStatus{};
    };
    auto r = gen->Generate();
    sleipnir::model::onSolve = nullptr;
    if (!r.has_value()) {
      unidentified = "a solved problem gave no solution";
      return;
    }
    solution = *r;
    identify();
  }

  sleipnir::Variable* var(double number) {
    double i = number - kBase;
    if (!(i >= 0) || i != std::floor(i) || i >= problem->decisionVariables.size()) return nullptr;
    return &problem->decisionVariables[static_cast<size_t>(i)];
  }
  void identify() {
    auto& sol = solution;
    size_t total = sol.x.size();
    std::vector<double>* all[] = {&sol.x, &sol.y, &sol.thetacos, &sol.thetasin, &sol.vx, &sol.vy,
                                  &sol.omega, &sol.ax, &sol.ay, &sol.alpha};
    auto add = [&](double number, Quantity q, size_t sample, size_t module) {
      auto* v = var(number);
      if (!v) {
        unidentified = "a value in the solution is not a variable's";
        return;
      }
      auto [it, fresh] = what.emplace(v->expr.get(), What{q, sample, module});
      if (!fresh && !(q == kDt && it->second.q == kDt)) unidentified = "a variable is reported as two quantities";
    };
    for (size_t q = 0; q < 10; ++q) {
      if (all[q]->size() != total) {
        unidentified = "the solution's vectors differ in length";
        return;
      }
      for (size_t i = 0; i < total; ++i) add((*all[q])[i], static_cast<Quantity>(q), i, 0);
    }
    if (sol.moduleFX.size() != total || sol.moduleFY.size() != total) {
      unidentified = "not one list of forces per sample";
      return;
    }
    for (size_t i = 0; i < total; ++i) {
      if (sol.moduleFX[i].size() != sol.moduleFY[i].size()) unidentified = "forces differ in number";
      for (size_t j = 0; j < sol.moduleFX[i].size(); ++j) add(sol.moduleFX[i][j], kFx, i, j);
      for (size_t j = 0; j < sol.moduleFY[i].size(); ++j) add(sol.moduleFY[i][j], kFy, i, j);
    }
    for (size_t i = 0; i < sol.dt.size(); ++i) add(sol.dt[i], kDt, i, 0);
    if (unidentified.empty() && what.size() != problem->decisionVariables.size())
      unidentified = "a variable is not reported";
  }
  /// Sets every variable; empty if possible.
  std::string set(const Traj& t) {
    if (!unidentified.empty()) return unidentified;
    size_t total = t.total();
    if (solution.x.size() != total) return std::to_string(solution.x.size()) + " samples instead of " + std::to_string(total);
    if (solution.dt.size() + 1 != total) return std::to_string(solution.dt.size()) + " time steps instead of " + std::to_string(total - 1);
    for (size_t i = 0; i < total; ++i) {
      auto& q = t.at[i];
      if (solution.moduleFX[i].size() != q.f.size()) return "number of forces";
      const double values[] = {q.x, q.y, q.c, q.s, q.vx, q.vy, q.w, q.ax, q.ay, q.al};
      std::vector<double>* all[] = {&solution.x, &solution.y, &solution.thetacos, &solution.thetasin,
                                    &solution.vx, &solution.vy, &solution.omega, &solution.ax,
                                    &solution.ay, &solution.alpha};
      for (size_t k = 0; k < 10; ++k) var((*all[k])[i])->SetValue(values[k]);
      for (size_t j = 0; j < q.f.size(); ++j) {
        var(solution.moduleFX[i][j])->SetValue(q.f[j].x);
        var(solution.moduleFY[i][j])->SetValue(q.f[j].y);
      }
      if (i) var(solution.dt[i - 1])->SetValue(t.dt[t.segmentOf(i)]);
    }
    // One step variable per segment, and another for each.
    for (size_t i = 1; i < total; ++i)
      if (var(solution.dt[i - 1])->Value() != t.dt[t.segmentOf(i)]) return "segments share a time step";
    return "";
  }

  struct Broken {
    std::set<std::string> properties;  // that the constraint may belong to
    std::string text;
  };
  /// The first broken constraint that may be one of this property's.
  std::optional<Broken> broken(const std::string& property) {
    uint64_t epoch = sleipnir::detail::NextEpoch();
    auto value = [&](const sleipnir::Variable& v) { return sleipnir::detail::Evaluate(v.expr.get(), epoch); };
    auto size = [&](const sleipnir::Variable& v) {
      std::set<const void*> seen;
      return sym::scale(v.expr.get(), epoch, seen);
    };
    auto look = [&](const sleipnir::Variable& v, const char* kind) -> std::optional<Broken> {
      auto b = classify(v);
      if (!property.empty() && !b.properties.count(property)) return {};
      b.text = std::string(kind) + " " + pbt::show(value(v)) + " over" + b.text;
      return b;
    };
    for (auto& c : problem->equality) {
      double v = value(c);
      if (v == 0 || std::fabs(v) <= 1e-10 * size(c)) continue;
      if (auto b = look(c, "equality misses by")) return b;
    }
    for (auto& c : problem->inequality) {
      double v = value(c);
      if (v >= 0 || v >= -1e-12 * size(c)) continue;
      if (auto b = look(c, "inequality has")) return b;
    }
    return {};
  }
  bool accepts() { return !broken(""); }

  Broken classify(const sleipnir::Variable& v) {
    static const char* names[] = {"x", "y", "cos", "sin", "vx", "vy", "omega", "ax", "ay", "alpha", "Fx", "Fy", "dt"};
    std::set<const sleipnir::detail::Expression*> seen, leaves;
    sleipnir::detail::Support(v.expr.get(), seen, leaves);
    Broken b;
    std::set<size_t> samples;
    std::set<std::string> shown;
    bool has[13] = {};
    for (auto* l : leaves) {
      auto it = what.find(l);
      if (it == what.end()) continue;
      has[it->second.q] = true;
      if (it->second.q != kDt) samples.insert(it->second.sample);
      shown.insert(std::string(names[it->second.q]) + "[" + std::to_string(it->second.sample) + "]" +
                   (it->second.q == kFx || it->second.q == kFy ? "." + std::to_string(it->second.module) : ""));
    }
    for (auto& n : shown) b.text += " " + n;
    bool f = has[kFx] || has[kFy], a = has[kAx] || has[kAy] || has[kAl];
    bool th = has[kCos] || has[kSin], lin = has[kVx] || has[kVy], state = th || lin || a || has[kX] || has[kY] || has[kW];
    if (f && a) b.properties = {"C02"};
    else if (f) b.properties = {"C02", "C03"};
    else if (samples.size() > 1 || (has[kDt] && state)) b.properties = {"C01"};
    else if (has[kDt]) b.properties = {"C04"};
    else if (lin && (th || has[kW])) b.properties = {"C03"};
    else b.properties = {"C01", "C02", "C03", "C05", "C06", "C10"};
    b.properties.insert("C13");
    b.properties.insert("C25");
    return b;
  }
};

/// Waypoints through the trajectory's own states.
struct Pins {
  std::vector<int> kind;  // 0 pose, 1 translation, 2 nothing
};
inline Pins pins(pbt::Src& s, size_t waypoints, bool pose = false) {
  Pins p;
  for (size_t w = 0; w < waypoints; ++w) p.kind.push_back(s.range(0, 2));
  if (pose) p.kind[s.choose(waypoints)] = 0;
  return p;
}
inline void place(pbt::Src& s, trajopt::SwervePathBuilder& b, const Drive& d, const Traj& t, const Pins& p) {
  bool driveFirst = s.choose(2);
  if (driveFirst) b.SetDrivetrain(d.real());
  for (size_t k = 0; k < t.waypoints(); ++k) {
    auto& q = t.at[t.sampleOf(k)];
    switch (p.kind[k]) {
      case 0: b.PoseWpt(k, q.x, q.y, q.h + 2 * kPi * s.range(-1, 1)); break;
      case 1: b.TranslationWpt(k, q.x, q.y, s.coord(4)); break;
      default: b.WptInitialGuessPoint(k, {s.coord(8), s.coord(8), {s.coord(4)}});
    }
  }
  bool defaults = !t.n.empty();
  for (auto n : t.n) defaults = defaults && n == 40;
  if (!defaults) {
    auto n = t.n;
    b.ControlIntervalCounts(std::move(n));
  }
  if (!driveFirst) b.SetDrivetrain(d.real());
}
inline std::string show(const Pins& p) {
  static const char* n[] = {"pose", "translation", "free"};
  std::string r;
  for (int k : p.kind) r += std::string(r.empty() ? "" : ", ") + n[k];
  return r;
}

}  // namespace world
