// C26: whatever numbers, counts and outlines, calls complete or throw.
#include <cstddef>
#include <limits>

extern "C" size_t __sanitizer_get_current_allocated_bytes();

#include "trajopt/trajectory/HolonomicTrajectory.hpp"
#include "trajopt/util/Cancellation.hpp"
#include "world.hpp"

using namespace trajopt;
using sleipnir::SolverExitCondition;

namespace {

double wild(pbt::Src& s) {
  using L = std::numeric_limits<double>;
  switch (s.weighted({4, 3, 3})) {
    case 0: return s.coord(10);
    case 1: return s.range(-3, 3);
    default: {
      static const std::vector<double> v{0.0, -0.0, 1e300, -1e300, L::infinity(), -L::infinity(), L::quiet_NaN(),
                                         L::denorm_min(), L::max(), L::lowest(), 1e-300, 1e16, -1e16, 9.3e18, 4.3e9};
      return s.pick(v);
    }
  }
}
/// Distances and magnitudes must not be negative: that is asserted.
double distance(pbt::Src& s) {
  double d = std::fabs(wild(s));
  return std::isnan(d) ? 0 : d;
}
std::vector<Translation2d> outline(pbt::Src& s) {
  std::vector<Translation2d> r;
  size_t n = s.chance(0.03) ? 0 : s.size(1, s.chance(0.05) ? 20 : 5);
  for (size_t i = 0; i < n; ++i) {
    if (i && s.chance(0.15)) r.push_back(r[s.choose(i)]);
    else r.emplace_back(wild(s), wild(s));
  }
  return r;
}
Constraint constraint(pbt::Src& s) {
  double a = wild(s), b = wild(s), c = wild(s), m = distance(s);
  Translation2d p{wild(s), wild(s)}, q = s.choose(4) ? Translation2d{wild(s), wild(s)} : p, f{wild(s), wild(s)};
  switch (s.range(0, 9)) {
    case 0: return LinearVelocityMaxMagnitudeConstraint{m};
    case 1: return LinearAccelerationMaxMagnitudeConstraint{m};
    case 2: return AngularVelocityMaxMagnitudeConstraint{m};
    case 3: return LinearVelocityDirectionConstraint{a};
    case 4: return PointAtConstraint{f, m};
    case 5: return PoseEqualityConstraint{a, b, c};
    case 6: return TranslationEqualityConstraint{a, b};
    case 7: return PointPointConstraint{p, f, m};
    case 8: return LinePointConstraint{p, q, f, m};
    default: return PointLineConstraint{f, p, q, m};
  }
}

struct Wild {
  pbt::Src& s;
  SwervePathBuilder b;
  bool drivetrain = false;
  int calls = 0, thrown = 0, reports = 0;

  /// Completes or throws a std::exception; the engine sees the rest.
  template <typename F>
  bool attempt(const std::string& what, F f) {
    NOTE(what);
    ++calls;
    try {
      f();
      NOTE("; ");
      return true;
    } catch (const pbt::Failure&) {
      throw;
    } catch (const pbt::Discard&) {
      throw;
    } catch (const std::exception& e) {
      ++thrown;
      NOTE(" threw " << e.what() << "; ");
      return false;
    } catch (...) {
      FAIL(what << " throws something that is no std::exception");
    }
  }
  void call() {
    size_t i = s.size(0, s.chance(0.02) ? 30 : 3), to = s.choose(8) ? s.size(i, i + 3) : s.size(0, i);
    double x = wild(s), y = wild(s), h = wild(s);
    std::string at = " " + std::to_string(i), range = at + " " + std::to_string(to);
    switch (s.range(0, 10)) {
      case 0: attempt("PoseWpt" + at, [&] { b.PoseWpt(i, x, y, h); }); break;
      case 1: attempt("TranslationWpt" + at, [&] { b.TranslationWpt(i, x, y, h); }); break;
      case 2: attempt("WptInitialGuessPoint" + at, [&] { b.WptInitialGuessPoint(i, {x, y, {h}}); }); break;
      case 3: {
        std::vector<Pose2d> g;
        size_t n = s.size(0, s.chance(0.05) ? 40 : 4);
        for (size_t k = 0; k < n; ++k) g.emplace_back(wild(s), wild(s), Rotation2d{wild(s)});
        attempt("SgmtInitialGuessPoints" + at + " x" + std::to_string(n), [&] { b.SgmtInitialGuessPoints(i, g); });
        break;
      }
      case 4: {
        auto c = constraint(s);
        attempt("WptConstraint" + at + " kind " + std::to_string(c.index()), [&] { b.WptConstraint(i, c); });
        break;
      }
      case 5: {
        auto c = constraint(s);
        if (to <= i) to = i + 1;
        attempt("SgmtConstraint" + range + " kind " + std::to_string(c.index()), [&] { b.SgmtConstraint(i, to, c); });
        break;
      }
      case 6: {
        Bumpers u{.safetyDistance = distance(s), .points = outline(s)};
        attempt("AddBumpers with " + std::to_string(u.points.size()) + " corners", [&] { b.AddBumpers(std::move(u)); });
        break;
      }
      case 7: {
        Obstacle o{.safetyDistance = distance(s), .points = outline(s)};
        std::string what = " with " + std::to_string(o.points.size()) + " corners";
        if (s.choose(2)) {
          if (to <= i) to = i + 1;
          attempt("SgmtObstacle" + range + what, [&] { b.SgmtObstacle(i, to, o); });
        } else {
          attempt("WptObstacle" + at + what, [&] { b.WptObstacle(i, o); });
        }
        break;
      }
      case 8: drive(); break;
      case 9: {
        size_t wpts = b.GetPath().waypoints.size();
        counts(wpts ? wpts - 1 : 0);
        break;
      }
      default: {
        bool spoil = s.choose(2);
        attempt("AddIntermediateCallback", [&] {
          b.AddIntermediateCallback([this, spoil](SwerveSolution& sol, int64_t) {
            ++reports;
            if (!spoil) return;
            sol.x.clear();
            sol.moduleFX.assign(3, {});
            sol.dt.push_back(NAN);
          });
        });
      }
    }
  }
  void counts(size_t n) {
    std::vector<size_t> c;
    for (size_t k = 0; k < n; ++k) c.push_back(s.chance(0.03) ? 0 : s.size(1, s.chance(0.02) ? 300 : 6));
    attempt("ControlIntervalCounts " + pbt::show(c), [&] { b.ControlIntervalCounts(std::move(c)); });
  }
  void drive() {
    SwerveDrivetrain d{wild(s), wild(s), {}};
    size_t n = s.size(0, s.chance(0.05) ? 12 : 4);
    for (size_t k = 0; k < n; ++k) d.modules.push_back({{wild(s), wild(s)}, wild(s), wild(s), wild(s)});
    attempt("SetDrivetrain with " + std::to_string(n) + " modules", [&] { b.SetDrivetrain(d); });
    drivetrain = true;
  }
  void generate() {
    if (!drivetrain) drive();
    bool empty = b.GetPath().waypoints.empty();
    if (empty && s.choose(4)) {
      b.PoseWpt(0, 1, 2, 3);
      empty = false;
    }
    if (empty) return;  // there is no path yet
    size_t total = 1, wpts = b.GetPath().waypoints.size(), modules = b.GetPath().drivetrain.modules.size();
    // A list of another length than there are segments is no path's.
    if (b.GetControlIntervalCounts().size() + 1 != wpts) counts(wpts - 1);
    auto given = b.GetControlIntervalCounts();
    for (size_t n : given) total += n;
    if (total > 60 && !s.chance(0.04)) {
      counts(wpts - 1);  // else most cases would be long ones
      given = b.GetControlIntervalCounts();
      total = 1;
      for (size_t n : given) total += n;
    }
    if (total > 1500) throw pbt::Discard{};
    SwerveSolution guess;
    if (attempt("CalculateInitialGuess", [&] { guess = b.CalculateInitialGuess(); }))
      REQUIRE(guess.x.size() == total && guess.y.size() == total && guess.thetacos.size() == total &&
                  guess.thetasin.size() == total && guess.dt.size() >= total,
              "the guess has " << guess.x.size() << " samples instead of " << total);
    std::unique_ptr<SwerveTrajectoryGenerator> g;
    bool made = attempt("generator", [&] {
      auto given = std::make_unique<SwervePathBuilder>(b);
      g = std::make_unique<SwerveTrajectoryGenerator>(*given, s.range(-1, 1));
    });
    REQUIRE(made, "a path cannot be made into a problem");
    if (s.chance(0.25)) {
      NOTE("moved; ");
      auto moved = std::make_unique<SwerveTrajectoryGenerator>(std::move(*g));
      g = std::move(moved);  // ends the one moved from
      s.label("moved generator");
    }
    std::vector<double> values;
    for (int k = 0; k < 7; ++k) values.push_back(wild(s));
    int iterations = s.range(0, 3);
    bool fails = s.chance(0.3);
    sleipnir::model::onSolve = [&](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
      for (int i = 0; i <= iterations; ++i) {
        for (size_t k = 0; k < p.decisionVariables.size(); ++k) p.decisionVariables[k].SetValue(values[(k + i) % values.size()]);
        for (auto& c : p.equality) c.Value();
        for (auto& c : p.inequality) c.Value();
        if (i < iterations) p.callback({i});
      }
      sleipnir::SolverStatus st;
      if (fails) st.exitCondition = SolverExitCondition::kDivergingIterates;
      return st;
    };
    int times = s.chance(0.15) ? 2 : 1;
    bool told = attempt("Generate", [&] {
      if (times > 1) (void)g->Generate(false);
      auto r = g->Generate(s.choose(2));
      REQUIRE(r.has_value() == !fails, "outcome");
      if (!r) {
        REQUIRE(!r.error().empty(), "an error without a text");
        return;
      }
      REQUIRE(r->x.size() == total && r->y.size() == total && r->alpha.size() == total && r->dt.size() + 1 == total &&
                  r->moduleFX.size() == total && r->moduleFY.size() == total,
              "the solution has " << r->x.size() << " samples and " << r->dt.size() << " steps instead of " << total);
      for (auto& f : r->moduleFX) REQUIRE(f.size() == modules, "forces of " << f.size() << " modules");
      HolonomicTrajectory t{*r};
      REQUIRE(t.samples.size() == total, "the trajectory has " << t.samples.size() << " samples");
      s.label("trajectory");
    });
    sleipnir::model::onSolve = nullptr;
    REQUIRE(told, "generating throws");
    GetCancellationFlag() = 0;
    if (thrown) s.label("after an exception");
    if (calls > 5) s.nontrivial();
  }
};

}  // namespace

PROPERTY("C26", "wild-inputs", 26000, 1500000,
         "1..16 builder calls with any numbers (zeros, huge, tiny, infinite, NaN), outlines of 0..20 corners "
         "with repeats, counts from 0 to 300, then 1..2 generations with such values "
         "from the solver: every call completes or throws a std::exception, sizes are right, and "
         "Address- and UndefinedBehaviorSanitizer find nothing; non-trivial: more than 5 calls and a generation") {
  Wild w{s};
  int n = s.range(1, 16);
  for (int i = 0; i < n; ++i) {
    w.call();
    if (s.chance(0.05)) w.generate();
  }
  w.generate();
}

PROPERTY("C26", "memory-returned", 3000, 150000,
         "1..12 builder calls and a generation as in wild-inputs, four times over: once builder, generator, "
         "solution and trajectory are gone, the fourth round leaves no more memory allocated than the third did; "
         "non-trivial: more than 5 calls and a generation") {
  static auto* trail = new pbt::Trail;
  uint64_t seed = s.choose(uint64_t{1} << 48);
  int n = s.range(1, 12);
  size_t held[4];
  int calls = 0;
  for (size_t& h : held) {
    trail->n = 0;
    {
      pbt::Src inner = pbt::Src::random(seed, trail);
      Wild w{inner};
      for (int i = 0; i < n; ++i) w.call();
      w.generate();
      calls = w.calls;
    }
    h = __sanitizer_get_current_allocated_bytes();
  }
  NOTE(n << " calls of seed " << seed << ", bytes held " << held[0] << " " << held[1] << " " << held[2] << " " << held[3]);
  REQUIRE(held[3] <= held[2] || held[2] <= held[1],
          "each round leaves " << held[3] - held[2] << " bytes allocated that nothing gives back");
  if (calls > 5) s.nontrivial();
}
