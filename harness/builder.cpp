// C10 (obstacles), C11 (initial guess), C21 (histories of builder calls).
#include <optional>

#include "paths.hpp"
#include "trajopt/path/SwervePathBuilder.hpp"
#include "trajopt/solution/DifferentialSolution.hpp"
#include "trajopt/util/GenerateLinearInitialGuess.hpp"

using namespace trajopt;
using namespace paths;

// ---------------------------------------------------------------- C10
PROPERTY("C10", "builder-obstacles", 20000, 1500000,
         "1..3 random bumper outlines (points, lines, polygons up to 6 corners) and an obstacle "
         "of 1..6 corners at a waypoint or along segments; a random pose with one outline beside "
         "another and safety distances relative to the true smallest distance; accepted by the "
         "placed constraints exactly when kept; non-trivial: positive distances and more "
         "than two corners in all") {
  SwervePathBuilder builder;
  size_t nb = s.size(1, s.chance(0.03) ? 8 : 3);
  size_t great = s.chance(0.008) ? longCount(s) : 0;  // a circle's worth of corners
  bool which = s.choose(2);
  std::vector<Outline> bumpers;
  std::vector<double> safety;
  for (size_t i = 0; i < nb; ++i) {
    bumpers.push_back(i && s.chance(0.08) ? bumpers[s.choose(i)] : outline(s, great && which && !i ? great : great ? 3 : s.chance(0.03) ? 16 : 6, 1.0));
    safety.push_back(s.chance(0.4) ? 0.0 : s.real(0, 0.3));
  }
  Outline obstacle = outline(s, great && !which ? great : great ? 3 : s.chance(0.03) ? 16 : 6, s.choose(2) ? 0.5 : 2.0);
  // The robot is put so that a point of a bumper outline is near one of the
  // obstacle's.
  State q;
  q.h = s.chance(0.2) ? s.range(-4, 4) * kPi / 4 : s.coord(kPi);
  auto pointOf = [&](const Outline& o) {
    size_t i = s.choose(o.size());
    double t = s.real(0, 1);
    P a = o[i], b = o[(i + 1) % o.size()];
    return P{a.x + t * (b.x - a.x), a.y + t * (b.y - a.y)};
  };
  P on = pointOf(obstacle), of = toField(q, pointOf(s.pick(bumpers)));
  double gap = s.chance(0.1) ? s.real(3, 10) : s.real(0, 1.5), dir = s.coord(kPi);
  q.x = on.x - of.x + gap * std::cos(dir);
  q.y = on.y - of.y + gap * std::sin(dir);
  double slack = INFINITY, atLeast = INFINITY;
  for (size_t i = 0; i < nb; ++i) {
    double d = outlineDist(toField(q, bumpers[i]), obstacle);
    slack = std::min(slack, d - safety[i]);
    atLeast = std::min(atLeast, d);
  }
  double so;
  static const std::vector<double> margins{0.1, 1e-2, 1e-3, 0.5, 3.0};
  switch (s.range(0, 3)) {
    case 0: so = std::max(0.0, slack) / (1 + s.pick(margins)); break;
    case 1: so = std::max(0.0, slack) * (1 + s.pick(margins)); break;
    case 2: so = 0; break;
    default: so = s.real(0, 2); break;
  }
  bool kept = so <= slack;
  for (size_t i = 0; i < nb; ++i) {
    double d = outlineDist(toField(q, bumpers[i]), obstacle), m = safety[i] + so;
    if (m != 0 && std::fabs(m * m - d * d) < 1e-7) throw pbt::Discard{};
    if (m == 0 && nb == 1) kept = true;
  }
  size_t wpts = s.size(2, s.chance(0.03) ? 20 : 4);
  bool seg = s.choose(2);
  size_t from = s.size(0, wpts - 2), to = seg ? s.size(from + 1, wpts - 1) : from;
  builder.WptInitialGuessPoint(wpts - 1, {0, 0, {0}});
  for (size_t i = 0; i < nb; ++i) {
    builder.AddBumpers(Bumpers{.safetyDistance = safety[i], .points = points(bumpers[i])});
    NOTE("bumper " << show(bumpers[i]) << " safety " << safety[i] << "; ");
  }
  Obstacle o{.safetyDistance = so, .points = points(obstacle)};
  NOTE("obstacle " << show(obstacle) << " safety " << so << " at " << show(q) << " waypoints " << from << ".." << to
                   << " expect " << (kept ? "accept" : "reject"));
  if (seg) builder.SgmtObstacle(from, to, o);
  else builder.WptObstacle(from, o);
  size_t corners = obstacle.size();
  for (auto& b : bumpers) corners += b.size();
  if (atLeast > 0 && corners > 2) s.nontrivial();
  s.label(std::string(kept ? "kept" : "broken") + (obstacle.size() == 1 ? " point" : obstacle.size() == 2 ? " line" : " polygon"));
  if (nb > 1) s.label("several bumpers");

  auto& path = builder.GetPath();
  REQUIRE(path.waypoints.size() == wpts, "number of waypoints");
  for (size_t w = 0; w < wpts; ++w) {
    auto& wp = path.waypoints[w];
    bool inWpt = Applied{wp.waypointConstraints}.accepts(q);
    bool inSeg = Applied{wp.segmentConstraints}.accepts(q);
    bool placedWpt = w >= from && w <= to, placedSeg = seg && w > from && w <= to;
    // Whether a segment's end is covered by its waypoint or its segment.
    bool atWpt = placedSeg ? inWpt && inSeg : inWpt;
    REQUIRE(atWpt == (!placedWpt || kept),
            (atWpt ? "accepted" : "rejected") << " at waypoint " << w << " with obstacle " << so
                << " and distance " << atLeast << ", slack " << slack);
    REQUIRE(inSeg == (!placedSeg || kept), (inSeg ? "accepted" : "rejected")
                                               << " in segment to waypoint " << w);
  }
}

// ---------------------------------------------------------------- C11
PROPERTY("C11", "generated-guess", 400000, 6000000,
         "1..6 waypoints with 1..6 guess points each (before the waypoint's own), interval "
         "counts 1..60 equal to, above and below multiples of the guess points, headings beyond a "
         "turn and opposite; as both solution types; non-trivial: a segment of several pieces") {
  bool great = s.chance(0.004);
  size_t wpts = great ? longCount(s) + 1 : s.size(1, s.chance(0.01) ? 40 : 6);
  std::vector<std::vector<Guess>> pts(wpts);
  std::vector<std::vector<Pose2d>> poses(wpts);
  std::vector<size_t> counts;
  for (size_t w = 0; w < wpts; ++w) {
    size_t n = w == 0 ? 1 : great ? s.size(1, 2) : s.chance(0.004) ? longCount(s) : s.size(1, s.chance(0.01) ? 40 : 6);
    for (size_t i = 0; i < n; ++i) {
      Guess g = s.chance(0.15) && w ? Guess{s.coord(5), 1, pts[w - 1].back().h + kPi * s.range(-3, 3)} : anyGuess(s);
      pts[w].push_back(g);
      poses[w].emplace_back(g.x, g.y, Rotation2d{g.h});
      NOTE(show(g));
    }
    if (n > 1) s.nontrivial();
    if (w) counts.push_back(great ? s.size(1, 3) : s.chance(0.01) ? s.size(60, 600) : s.choose(2) ? s.size(1, 12) : s.size(1, 60));
    NOTE("; ");
  }
  NOTE("counts " << pbt::show(counts));
  auto e = GuessCheck::compare(GenerateLinearInitialGuess<SwerveSolution>(poses, counts), pts, counts);
  REQUIRE(e.empty(), e);
  e = GuessCheck::compare(GenerateLinearInitialGuess<DifferentialSolution>(poses, counts), pts, counts);
  REQUIRE(e.empty(), "differential: " << e);
}

PROPERTY("C11", "builder-guess", 200000, 3000000,
         "the same through a builder: pose, translation and empty waypoints in random order with "
         "guess points between them and counts set or left at 40; non-trivial: guess points "
         "between waypoints") {
  bool great = s.chance(0.004);
  size_t wpts = great ? longCount(s) + 1 : s.size(1, s.chance(0.01) ? 40 : 6);
  SwervePathBuilder b;
  std::vector<std::vector<Guess>> pts(wpts);
  std::vector<size_t> order;
  for (size_t w = 0; w < wpts; ++w) order.push_back(w);
  for (size_t w = wpts; w > 1; --w) std::swap(order[w - 1], order[s.choose(w)]);
  for (auto w : order) {
    Guess g = anyGuess(s);
    pts[w].push_back(g);
    int kind = s.range(0, 3);
    NOTE(w << (kind == 0 ? " pose" : kind == 1 ? " translation" : kind == 2 ? " guess" : " translation, no heading") << show(g) << "; ");
    switch (kind) {
      case 0: b.PoseWpt(w, g.x, g.y, g.h); break;
      case 1: b.TranslationWpt(w, g.x, g.y, g.h); break;
      case 2: b.WptInitialGuessPoint(w, {g.x, g.y, {g.h}}); break;
      default:
        b.TranslationWpt(w, g.x, g.y);
        pts[w].back().h = 0;
    }
  }
  for (size_t w = 1; w < wpts; ++w) {
    if (s.choose(2)) continue;
    std::vector<Pose2d> poses;
    std::vector<Guess> gs;
    size_t n = great ? s.size(0, 1) : s.chance(0.004) ? longCount(s) : s.size(0, s.chance(0.01) ? 100 : 4);
    for (size_t i = 0; i < n; ++i) {
      gs.push_back(anyGuess(s));
      poses.emplace_back(gs.back().x, gs.back().y, Rotation2d{gs.back().h});
      NOTE("after " << w - 1 << " " << show(gs.back()) << "; ");
    }
    b.SgmtInitialGuessPoints(w - 1, poses);
    pts[w].insert(pts[w].begin(), gs.begin(), gs.end());
    if (n) s.nontrivial();
  }
  std::vector<size_t> counts(wpts - 1, 40);
  if (s.choose(2)) {
    for (auto& c : counts) c = great ? s.size(1, 3) : s.size(1, s.chance(0.01) ? 400 : 30);
    auto copy = counts;
    b.ControlIntervalCounts(std::move(copy));
  }
  NOTE("counts " << pbt::show(counts));
  auto e = GuessCheck::compare(b.CalculateInitialGuess(), pts, counts);
  REQUIRE(e.empty(), e);
}

// ---------------------------------------------------------------- C21
namespace {

struct Block {  // constraints placed by one call
  std::vector<double> one;  // fingerprint of a single constraint
  std::vector<std::vector<double>> many;  // of an obstacle's
};
struct ModelWpt {
  std::vector<std::vector<double>> wpt, seg;
  std::vector<Guess> before1, before2;  // segment guesses, by order of calls
  Guess own{0, 0, 0};
  int calls = 0;
};
struct Model {
  std::vector<ModelWpt> w;
  std::vector<size_t> counts;
  SwerveDrivetrain drivetrain;
  std::vector<int> callbacks;
  std::vector<std::pair<Outline, double>> bumpers;
  void grow(size_t index) {
    while (w.size() <= index) {
      if (!w.empty()) counts.push_back(40);
      w.emplace_back();
    }
  }
};
struct Pair {
  SwervePathBuilder real;
  Model model;
};

std::vector<std::vector<double>> prints(const std::vector<Constraint>& c) {
  std::vector<std::vector<double>> r;
  for (auto& x : c) r.push_back(fingerprint(x));
  return r;
}

/// Twice the same, or in another order, is the same.
std::vector<std::vector<double>> distinct(std::vector<std::vector<double>> a, const std::vector<std::vector<double>>& b = {}) {
  a.insert(a.end(), b.begin(), b.end());
  std::sort(a.begin(), a.end());
  a.erase(std::unique(a.begin(), a.end()), a.end());
  return a;
}

std::vector<int>& log() {
  static std::vector<int> l;
  return l;
}

void compare(Pair& p, const std::string& after) {
  auto& path = p.real.GetPath();
  auto& m = p.model;
  REQUIRE(path.waypoints.size() == m.w.size(),
          path.waypoints.size() << " waypoints instead of " << m.w.size() << " after " << after);
  for (size_t i = 0; i < m.w.size(); ++i) {
    auto seg = prints(path.waypoints[i].segmentConstraints);
    // A segment's constraints hold at its end too.
    REQUIRE(distinct(prints(path.waypoints[i].waypointConstraints), seg) == distinct(m.w[i].wpt, m.w[i].seg),
            "constraints at waypoint " << i << " after " << after);
    REQUIRE(distinct(seg) == distinct(m.w[i].seg),
            "segment constraints of waypoint " << i << " after " << after);
  }
  REQUIRE(p.real.GetControlIntervalCounts() == m.counts,
          "interval counts " << pbt::show(p.real.GetControlIntervalCounts()) << " instead of "
                             << pbt::show(m.counts) << " after " << after);
  auto& d = path.drivetrain;
  auto& e = m.drivetrain;
  bool same = d.mass == e.mass && d.moi == e.moi && d.modules.size() == e.modules.size();
  for (size_t i = 0; same && i < d.modules.size(); ++i) {
    auto &a = d.modules[i], &b = e.modules[i];
    same = a.translation.X() == b.translation.X() && a.translation.Y() == b.translation.Y() &&
           a.wheelRadius == b.wheelRadius &&
           a.wheelMaxAngularVelocity == b.wheelMaxAngularVelocity &&
           a.wheelMaxTorque == b.wheelMaxTorque;
  }
  REQUIRE(same, "drivetrain differs after " << after);
  log().clear();
  SwerveSolution sol;
  for (auto& c : path.callbacks) c(sol, 5);
  REQUIRE(log() == m.callbacks, "callbacks differ after " << after);
  if (!m.w.empty()) {
    auto got = p.real.CalculateInitialGuess();
    std::vector<std::vector<Guess>> a, b;
    for (auto& w : m.w) {
      a.push_back(w.before1);
      a.back().push_back(w.own);
      b.push_back(w.before2);
      b.back().push_back(w.own);
    }
    auto e1 = GuessCheck::compare(got, a, m.counts);
    if (!e1.empty() && !GuessCheck::compare(got, b, m.counts).empty())
      FAIL("initial guess: " << e1 << " after " << after);
  }
}

}  // namespace

PROPERTY("C21", "histories", 25000, 900000,
         "1..20 random builder calls on two builders (one may become a copy of the other), with "
         "waypoints mentioned in any order; after the calls path, counts, guess, drivetrain and "
         "callbacks of both must be what a model of the calls says; non-trivial: at least 5 calls") {
  std::vector<Pair> ps(2);
  // The drivetrain is unspecified until it is set.
  for (auto& p : ps) {
    SwerveDrivetrain d{1, 2, {}};
    p.real.SetDrivetrain(d);
    p.model.drivetrain = d;
  }
  int n = s.range(1, s.chance(0.02) ? 80 : 20), nextCallback = 0;
  if (n >= 5) s.nontrivial();
  std::string after;
  bool great = s.chance(0.008), everyStep = s.choose(2) && !great;
  for (int k = 0; k < n; ++k) {
    size_t which = s.choose(2);
    Pair& p = ps[which];
    auto& m = p.model;
    size_t i = s.size(0, great && s.choose(4) == 0 ? 300 : s.chance(0.01) ? 40 : 4);
    std::string what;
    switch (s.range(0, 11)) {
      case 0: {
        Guess g = anyGuess(s);
        what = "PoseWpt " + std::to_string(i) + show(g);
        p.real.PoseWpt(i, g.x, g.y, g.h);
        m.grow(i);
        m.w[i].wpt.push_back(fingerprint(PoseEqualityConstraint{g.x, g.y, g.h}));
        m.w[i].own = g;
        break;
      }
      case 1: {
        Guess g = anyGuess(s);
        bool heading = s.choose(2);
        what = "TranslationWpt " + std::to_string(i) + show(g);
        if (heading) {
          p.real.TranslationWpt(i, g.x, g.y, g.h);
        } else {
          g.h = 0;
          p.real.TranslationWpt(i, g.x, g.y);
        }
        m.grow(i);
        m.w[i].wpt.push_back(fingerprint(TranslationEqualityConstraint{g.x, g.y}));
        m.w[i].own = g;
        break;
      }
      case 2: {
        Guess g = anyGuess(s);
        what = "WptInitialGuessPoint " + std::to_string(i) + show(g);
        p.real.WptInitialGuessPoint(i, {g.x, g.y, {g.h}});
        m.grow(i);
        m.w[i].own = g;
        break;
      }
      case 3: {
        std::vector<Pose2d> poses;
        std::vector<Guess> gs;
        size_t c = s.size(0, s.chance(0.01) ? 60 : 3);
        for (size_t j = 0; j < c; ++j) {
          gs.push_back(anyGuess(s));
          poses.emplace_back(gs[j].x, gs[j].y, Rotation2d{gs[j].h});
        }
        what = "SgmtInitialGuessPoints " + std::to_string(i) + " x" + std::to_string(c);
        p.real.SgmtInitialGuessPoints(i, poses);
        m.grow(i + 1);
        auto& w = m.w[i + 1];
        w.before1.insert(w.before1.begin(), gs.begin(), gs.end());
        w.before2.insert(w.before2.end(), gs.begin(), gs.end());
        break;
      }
      case 4: {
        auto c = anyConstraint(s);
        what = "WptConstraint " + std::to_string(i) + " " + c.text;
        p.real.WptConstraint(i, c.c);
        m.grow(i);
        m.w[i].wpt.push_back(fingerprint(c.c));
        break;
      }
      case 5:
      case 6: {
        auto c = anyConstraint(s);
        size_t to = s.size(i + 1, i + (s.chance(0.02) ? 20 : 3));
        what = "SgmtConstraint " + std::to_string(i) + " " + std::to_string(to) + " " + c.text;
        p.real.SgmtConstraint(i, to, c.c);
        m.grow(to);
        auto f = fingerprint(c.c);
        for (size_t j = i; j <= to; ++j) {
          m.w[j].wpt.push_back(f);
          if (j > i) m.w[j].seg.push_back(f);
        }
        break;
      }
      case 7: {
        auto o = outline(s, s.chance(0.02) ? 12 : 4, 1);
        double d = s.real(0, 1);
        what = "AddBumpers " + show(o);
        p.real.AddBumpers(Bumpers{.safetyDistance = d, .points = points(o)});
        m.bumpers.emplace_back(o, d);
        break;
      }
      case 8: {
        if (m.bumpers.empty()) continue;  // needs bumpers to have an effect
        auto o = outline(s, s.chance(0.02) ? 12 : 4, 1);
        Obstacle obs{.safetyDistance = s.real(0, 1), .points = points(o)};
        bool seg = s.choose(2);
        size_t to = seg ? s.size(i + 1, i + 2) : i;
        what = (seg ? "SgmtObstacle " : "WptObstacle ") + std::to_string(i) + " " + std::to_string(to) + show(o);
        if (seg) p.real.SgmtObstacle(i, to, obs);
        else p.real.WptObstacle(i, obs);
        m.grow(to);
        auto& wp = p.real.GetPath().waypoints;
        REQUIRE(wp.size() == m.w.size(), wp.size() << " waypoints instead of " << m.w.size()
                                                   << " after " << after << "; " << what);
        // What is new keeps all bumpers so far away, and stays.
        std::vector<State> at(2);
        std::vector<bool> kept, close;
        for (auto& q : at) {
          q.x = s.coord(4);
          q.y = s.coord(4);
          q.h = s.coord(kPi);
          kept.push_back(true);
          close.push_back(false);
          for (auto& [bumper, safety] : m.bumpers) {
            double dd = outlineDist(toField(q, bumper), o), need = obs.safetyDistance + safety;
            if (dd < need) kept.back() = false;
            if (std::fabs(dd * dd - need * need) < 1e-6) close.back() = true;
          }
        }
        for (size_t j = i; j <= to; ++j) {
          auto before = distinct(m.w[j].wpt, m.w[j].seg);
          std::vector<Constraint> inSeg, inBoth;
          auto learn = [&](std::vector<std::vector<double>>& mine, const std::vector<Constraint>& now, bool segment) {
            for (auto& c : now) {
              auto f = fingerprint(c);
              if (std::binary_search(before.begin(), before.end(), f)) continue;
              mine.push_back(f);
              inBoth.push_back(c);
              if (segment) inSeg.push_back(c);
            }
          };
          learn(m.w[j].wpt, wp[j].waypointConstraints, false);
          if (j > i) learn(m.w[j].seg, wp[j].segmentConstraints, true);
          for (size_t x = 0; x < at.size(); ++x) {
            if (close[x]) continue;
            bool here = Applied{inBoth}.accepts(at[x]), along = j > i ? Applied{inSeg}.accepts(at[x]) : kept[x];
            REQUIRE(here == kept[x] && along == kept[x],
                    "the obstacle is " << (kept[x] ? "kept clear of" : "too near") << " at " << show(at[x]) << " but "
                        << (here == kept[x] ? "in the segment to" : "at") << " waypoint " << j << " that is "
                        << (kept[x] ? "rejected" : "accepted") << " after " << after << "; " << what);
          }
        }
        break;
      }
      case 9: {
        if (m.w.empty()) continue;
        for (auto& c : m.counts) c = s.size(1, s.chance(0.005) ? 300 : 20);
        auto copy = m.counts;
        what = "ControlIntervalCounts " + pbt::show(copy);
        p.real.ControlIntervalCounts(std::move(copy));
        break;
      }
      case 10: {
        if (s.choose(2)) {
          SwerveDrivetrain d{s.real(1, 80), s.real(0.5, 10), {}};
          size_t c = s.size(0, s.chance(0.02) ? 40 : 5);
          for (size_t j = 0; j < c; ++j)
            d.modules.push_back({{s.coord(1), s.coord(1)}, s.real(0.01, 0.1), s.real(10, 100), s.real(0.1, 5)});
          what = "SetDrivetrain with " + std::to_string(c) + " modules";
          p.real.SetDrivetrain(d);
          m.drivetrain = d;
        } else {
          int id = nextCallback++;
          what = "AddIntermediateCallback " + std::to_string(id);
          p.real.AddIntermediateCallback([id](SwerveSolution&, int64_t h) { log().push_back(id + (h == 5 ? 0 : 1000)); });
          m.callbacks.push_back(id);
        }
        break;
      }
      case 11: {
        what = "copy to the other";
        ps[1 - which] = ps[which];
        s.label("copied");
        break;
      }
    }
    after += (after.empty() ? "" : "; ") + std::to_string(which) + ": " + what;
    NOTE(which << ": " << what << "; ");
    if (everyStep) {
      compare(ps[0], "[builder 0] " + after);
      compare(ps[1], "[builder 1] " + after);
    }
  }
  compare(ps[0], "[builder 0] " + after);
  compare(ps[1], "[builder 1] " + after);
}
