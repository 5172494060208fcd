// Random path ingredients and the geometry oracle for obstacles.
#pragma once

#include <cmath>
#include <string>
#include <vector>

#include "pbt.hpp"
#include "sym.hpp"
#include "trajopt/constraint/Constraint.hpp"
#include "trajopt/obstacle/Bumpers.hpp"
#include "trajopt/obstacle/Obstacle.hpp"

namespace paths {

inline constexpr double kPi = 3.14159265358979323846;

/// A robot state; heading as an angle.
struct State {
  double x = 0, y = 0, h = 0, vx = 0, vy = 0, w = 0, ax = 0, ay = 0, al = 0;
};
inline std::string show(const State& q) {
  return "x=" + pbt::show(q.x) + " y=" + pbt::show(q.y) + " h=" + pbt::show(q.h) +
         " v=(" + pbt::show(q.vx) + ", " + pbt::show(q.vy) + ") w=" + pbt::show(q.w) + " a=(" +
         pbt::show(q.ax) + ", " + pbt::show(q.ay) + ") alpha=" + pbt::show(q.al);
}

struct P {
  double x, y;
};
inline trajopt::Translation2d tr(P p) { return {p.x, p.y}; }
inline P toField(const State& q, P p) {
  return {q.x + p.x * std::cos(q.h) - p.y * std::sin(q.h),
          q.y + p.x * std::sin(q.h) + p.y * std::cos(q.h)};
}
inline P toRobot(const State& q, P p) {
  double dx = p.x - q.x, dy = p.y - q.y;
  return {dx * std::cos(q.h) + dy * std::sin(q.h), -dx * std::sin(q.h) + dy * std::cos(q.h)};
}
inline double dist(P a, P b) { return std::hypot(a.x - b.x, a.y - b.y); }
inline double segDist(P a, P b, P p) {
  double lx = b.x - a.x, ly = b.y - a.y;
  if (lx == 0 && ly == 0) return dist(a, p);
  double t = ((p.x - a.x) * lx + (p.y - a.y) * ly) / (lx * lx + ly * ly);
  t = std::min(1.0, std::max(0.0, t));
  return dist({a.x + t * lx, a.y + t * ly}, p);
}

using Outline = std::vector<P>;
inline std::string show(const Outline& o) {
  std::string r = "{";
  for (auto& p : o) r += "(" + pbt::show(p.x) + ", " + pbt::show(p.y) + ")";
  return r + "}";
}
inline std::vector<trajopt::Translation2d> points(const Outline& o) {
  std::vector<trajopt::Translation2d> r;
  for (auto& p : o) r.emplace_back(p.x, p.y);
  return r;
}
/// Distance of a point from an outline's edges (its only point if it has one).
inline double outlineDist(const Outline& o, P p) {
  if (o.size() == 1) return dist(o[0], p);
  double d = INFINITY;
  for (size_t i = 0; i + 1 < o.size(); ++i) d = std::min(d, segDist(o[i], o[i + 1], p));
  if (o.size() >= 3) d = std::min(d, segDist(o.back(), o.front(), p));
  return d;
}
/// Smallest corner-to-edge distance of two outlines.
inline double outlineDist(const Outline& a, const Outline& b) {
  double d = INFINITY;
  for (auto& p : a) d = std::min(d, outlineDist(b, p));
  for (auto& p : b) d = std::min(d, outlineDist(a, p));
  return d;
}
inline Outline toField(const State& q, const Outline& o) {
  Outline r;
  for (auto& p : o) r.push_back(toField(q, p));
  return r;
}
/// Counts about which narrow types give out.
inline size_t longCount(pbt::Src& s) {
  static const std::vector<size_t> counts{127, 128, 129, 200, 255, 256, 257, 300};
  return s.pick(counts);
}
/// 1..max corners, successive ones the same or well apart.
inline Outline outline(pbt::Src& s, size_t max, double size) {
  Outline o;
  size_t n = max > 100 ? max : s.size(1, max);
  bool regular = n < 20 && s.choose(2);
  double start = s.coord(kPi);
  for (size_t i = 0; i < n; ++i) {
    if (regular) {
      double a = start + 2 * kPi * i / n, r = size * s.real(0.3, 1);
      o.push_back({r * std::cos(a), r * std::sin(a)});
    } else {
      o.push_back({s.coord(size), s.coord(size)});
    }
  }
  for (size_t i = 0; i < n; ++i)
    if (n > 1 && dist(o[i], o[(i + 1) % n]) < 0.02 * size) throw pbt::Discard{};
  // Some polygons are closed by repeating a corner.
  if (n < max && s.chance(0.12)) {
    size_t i = s.choose(n);
    if (s.choose(2)) o.push_back(P{o[0]});
    else o.insert(o.begin() + i, P{o[i]});
  }
  return o;
}

/// A constraint applied on its own to one state's variables.
struct Applied {
  sym::Space sp;
  std::vector<sleipnir::Variable> v;
  template <class C>
  void apply(C c) {
    const trajopt::Pose2v pose{v[0], v[1], trajopt::Rotation2v{v[2], v[3]}};
    const trajopt::Translation2v lv{v[4], v[5]}, la{v[7], v[8]};
    std::visit([&](auto&& arg) { arg.Apply(sp.problem, pose, lv, v[6], la, v[9]); }, c);
  }
  Applied() {
    for (int i = 0; i < 10; ++i) v.push_back(sp.var(0.1 * i));
  }
  explicit Applied(const std::vector<trajopt::Constraint>& cs) : Applied() {
    for (auto& c : cs) apply(c);
  }
  void at(const State& q) {
    const double values[10] = {q.x, q.y, std::cos(q.h), std::sin(q.h), q.vx,
                               q.vy, q.w, q.ax, q.ay, q.al};
    for (int i = 0; i < 10; ++i) v[i].SetValue(values[i]);
  }
  bool accepts(const State& q) {
    at(q);
    return sym::accepts(sp.problem);
  }
};

/// What a constraint demands: its type and residuals at fixed states.
inline std::vector<double> fingerprint(const trajopt::Constraint& c) {
  Applied a{{c}};
  std::vector<double> r{static_cast<double>(c.index())};
  static const State at[] = {{0.3, -1.1, 0.7, 1.3, -0.4, 0.9, 2.1, -1.7, 0.6},
                             {-2.2, 0.8, -2.1, -0.6, 1.9, -1.4, 0.3, 0.8, -1.2},
                             {5.1, 3.3, 1.9, 0.2, 0.1, 0.4, -0.9, 1.1, 2.7}};
  for (auto& q : at) {
    a.at(q);
    for (auto& e : a.sp.problem.equality) r.push_back(e.Value());
    for (auto& e : a.sp.problem.inequality) r.push_back(e.Value());
  }
  return r;
}

/// Any constraint of the public variant, and its description.
struct Any {
  trajopt::Constraint c;
  std::string text;
};
inline Any anyConstraint(pbt::Src& s) {
  using namespace trajopt;
  auto n = [](double v) { return pbt::show(v); };
  auto m = [&] { return s.real(0, 5); };
  auto c = [&] { return s.coord(5); };
  switch (s.range(0, 9)) {
    case 0: { auto a = m(); return {LinearVelocityMaxMagnitudeConstraint{a}, "max velocity " + n(a)}; }
    case 1: { auto a = m(); return {LinearAccelerationMaxMagnitudeConstraint{a}, "max acceleration " + n(a)}; }
    case 2: { auto a = m(); return {AngularVelocityMaxMagnitudeConstraint{a}, "max angular velocity " + n(a)}; }
    case 3: { auto a = c(); return {LinearVelocityDirectionConstraint{a}, "direction " + n(a)}; }
    case 4: { auto x = c(), y = c(), t = s.real(0, 3); return {PointAtConstraint{Translation2d{x, y}, t}, "point at (" + n(x) + ", " + n(y) + ") within " + n(t)}; }
    case 5: { auto x = c(), y = c(), h = c(); return {PoseEqualityConstraint{x, y, h}, "pose (" + n(x) + ", " + n(y) + ", " + n(h) + ")"}; }
    case 6: { auto x = c(), y = c(); return {TranslationEqualityConstraint{x, y}, "translation (" + n(x) + ", " + n(y) + ")"}; }
    case 7: { auto x = c(), y = c(), u = c(), v = c(), d = m(); return {PointPointConstraint{Translation2d{x, y}, Translation2d{u, v}, d}, "point-point " + n(x) + " " + n(y) + " " + n(u) + " " + n(v) + " " + n(d)}; }
    case 8: { auto x = c(), y = c(), u = c(), v = c(), d = m(); return {LinePointConstraint{Translation2d{x, y}, Translation2d{x + 1 + m(), y}, Translation2d{u, v}, d}, "line-point " + n(x) + " " + n(y) + " " + n(u) + " " + n(v) + " " + n(d)}; }
    default: { auto x = c(), y = c(), u = c(), v = c(), d = m(); return {PointLineConstraint{Translation2d{x, y}, Translation2d{u, v}, Translation2d{u, v + 1 + m()}, d}, "point-line " + n(x) + " " + n(y) + " " + n(u) + " " + n(v) + " " + n(d)}; }
  }
}

/// The linear initial guess, written down from its description.
struct Guess {
  double x, y, h;
};
struct GuessCheck {
  /// Compares a solution with the guess described; empty string if equal.
  template <class Solution>
  static std::string compare(const Solution& sol, const std::vector<std::vector<Guess>>& pts,
                             const std::vector<size_t>& counts) {
    size_t total = 1;
    for (auto n : counts) total += n;
    auto bad = [](const char* what, size_t i, double got, double want) {
      return std::string(what) + " of sample " + std::to_string(i) + " is " + pbt::show(got) +
             " instead of " + pbt::show(want);
    };
    for (auto* v : {&sol.x, &sol.y, &sol.thetacos, &sol.thetasin})
      if (v->size() != total)
        return std::to_string(v->size()) + " values for " + std::to_string(total) + " samples";
    if (sol.dt.size() < total) return "time steps do not cover every sample";
    for (double d : sol.dt)
      if (!(d > 0) || !std::isfinite(d)) return "time step " + pbt::show(d);
    size_t i = 0;
    auto check = [&](Guess a, Guess b, double d, size_t k, size_t n) -> std::string {
      double f = n ? double(k) / n : 1;
      double x = a.x + (b.x - a.x) * f, y = a.y + (b.y - a.y) * f, h = a.h + d * f;
      if (!pbt::near(sol.x[i], x, 1e-9, 1e-9)) return bad("x", i, sol.x[i], x);
      if (!pbt::near(sol.y[i], y, 1e-9, 1e-9)) return bad("y", i, sol.y[i], y);
      if (!pbt::near(sol.thetacos[i], std::cos(h), 1e-8, 0)) return bad("cosine", i, sol.thetacos[i], std::cos(h));
      if (!pbt::near(sol.thetasin[i], std::sin(h), 1e-8, 0)) return bad("sine", i, sol.thetasin[i], std::sin(h));
      return "";
    };
    Guess last = pts.at(0).back();
    if (auto e = check(pts[0].front(), pts[0].front(), 0, 0, 0); !e.empty()) return e;
    ++i;
    for (size_t seg = 0; seg < counts.size(); ++seg) {
      auto& g = pts.at(seg + 1);
      size_t share = counts[seg] / g.size();
      for (size_t p = 0; p < g.size(); ++p) {
        size_t n = p + 1 < g.size() ? share : counts[seg] - share * (g.size() - 1);
        double d = std::remainder(g[p].h - last.h, 2 * kPi);
        bool either = std::fabs(d) > kPi - 1e-6;
        std::string first;
        size_t start = i;
        for (size_t k = 1; k <= n; ++k, ++i)
          if (first = check(last, g[p], d, k, n); !first.empty()) break;
        if (!first.empty() && either) {
          i = start;
          first = "";
          d = d > 0 ? d - 2 * kPi : d + 2 * kPi;
          for (size_t k = 1; k <= n; ++k, ++i)
            if (first = check(last, g[p], d, k, n); !first.empty()) break;
        }
        if (!first.empty())
          return first + " (segment " + std::to_string(seg) + ", piece " + std::to_string(p) + ")";
        last = g[p];
      }
    }
    return "";
  }
};

inline double anyHeading(pbt::Src& s) {
  return s.chance(0.3) ? s.range(-12, 12) * kPi / 4 : s.coord(10);
}
inline Guess anyGuess(pbt::Src& s) { return {s.coord(10), s.coord(10), anyHeading(s)}; }
inline std::string show(const Guess& g) {
  return "(" + pbt::show(g.x) + ", " + pbt::show(g.y) + ", " + pbt::show(g.h) + ")";
}

}  // namespace paths
