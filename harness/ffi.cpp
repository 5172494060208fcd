// C23: the C++ side of the Rust bridge, called as cxx's shims call it.
#include "bridge_calls.h"
#include "clock.hpp"
#include "trajopt/SwerveTrajectoryGenerator.hpp"
#include "trajopt/trajectory/HolonomicTrajectory.hpp"
#include "trajopt/util/Cancellation.hpp"
#include "world.hpp"

using namespace trajopt;
using pbt::near;
using sleipnir::SolverExitCondition;

namespace {

using Numbers = std::vector<double>;

/// Everything a trajectory holds, in one list.
Numbers flat(const rsffi::HolonomicTrajectory& t) {
  Numbers r;
  for (auto& q : t.samples) {
    r.insert(r.end(), {q.timestamp, q.x, q.y, q.heading, q.velocity_x, q.velocity_y, q.angular_velocity,
                       double(q.module_forces_x.size()), double(q.module_forces_y.size())});
    for (double f : q.module_forces_x) r.push_back(f);
    for (double f : q.module_forces_y) r.push_back(f);
  }
  return r;
}
Numbers flat(const HolonomicTrajectory& t) {
  Numbers r;
  for (auto& q : t.samples) {
    r.insert(r.end(), {q.timestamp, q.x, q.y, q.heading, q.velocityX, q.velocityY, q.angularVelocity,
                       double(q.moduleForcesX.size()), double(q.moduleForcesY.size())});
    for (double f : q.moduleForcesX) r.push_back(f);
    for (double f : q.moduleForcesY) r.push_back(f);
  }
  return r;
}

struct Report {
  int id;
  int64_t handle;
  Numbers values;
  bool operator==(const Report&) const = default;
};
std::vector<Report>* reports = nullptr;

template <int Id>
void callbackOf(rsffi::HolonomicTrajectory t, int64_t handle) {
  if (reports) reports->push_back({Id, handle, flat(t)});
}
using Callback = void (*)(rsffi::HolonomicTrajectory, int64_t);
const Callback kCallbacks[] = {callbackOf<0>, callbackOf<1>, callbackOf<2>, callbackOf<3>};

struct Drawn {  // what one generation does, drawn before it runs
  bool diagnostics = false;
  int64_t handle = 0;
  SolverExitCondition exit = SolverExitCondition::kSuccess;
  Numbers assign;  // cycled over the variables
  std::vector<int64_t> iterations;  // ns before each
  int cancelAt = -1;
  bool cancelBefore = false;
  int requests = 1;  // in a row, when cancelling
  bool resetAfter = false;  // before the iteration's answer is taken
};
struct Seen {  // what it did
  Numbers initial, eq, ineq;
  bool cost = false;
  double objective = 0;
  bool diagnostics = false;
  double tolerance = 0;
  std::vector<bool> answers;
  std::vector<Report> reports;
  bool ok = false;
  std::string error;
  Numbers result;
  int solves = 0;
};
double plain(double v) { return std::isnan(v) ? 1e308 : v; }

template <typename Call, typename Cancel>
Seen watch(const Drawn& g, Call call, Cancel cancel) {
  Seen w;
  fakeclock::now += 1'000'000'000;
  reports = &w.reports;
  if (g.cancelBefore) cancel();
  sleipnir::model::onSolve = [&](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig& c) {
    ++w.solves;
    w.diagnostics = c.diagnostics;
    w.tolerance = c.tolerance;
    for (auto& v : p.decisionVariables) w.initial.push_back(plain(v.Value()));
    auto& vars = p.decisionVariables;
    for (size_t i = 0; i < vars.size(); ++i) vars[i].SetValue(g.assign[i * 7 % g.assign.size()] + 0.001 * double(i));
    for (auto& x : p.equality) w.eq.push_back(plain(x.Value()));
    for (auto& x : p.inequality) w.ineq.push_back(plain(x.Value()));
    std::sort(w.eq.begin(), w.eq.end());
    std::sort(w.ineq.begin(), w.ineq.end());
    w.cost = p.objective.has_value();
    if (w.cost) w.objective = plain(p.objective->Value());
    sleipnir::SolverStatus st;
    st.exitCondition = g.exit;
    int k = 0;
    for (int64_t t : g.iterations) {
      fakeclock::now += t;
      for (size_t i = 0; i < vars.size(); ++i) vars[i].SetValue(g.assign[(i + k) % g.assign.size()] + double(i));
      if (k++ == g.cancelAt)
        for (int n = 0; n < g.requests; ++n) cancel();
      bool stop = p.callback({k});
      w.answers.push_back(stop);
      if (stop) {
        st.exitCondition = SolverExitCondition::kCallbackRequestedStop;
        break;
      }
    }
    return st;
  };
  try {
    w.result = call();
    w.ok = true;
  } catch (const std::exception& e) {
    w.error = e.what();
  } catch (...) {
    w.error = "something that is no std::exception";
  }
  sleipnir::model::onSolve = nullptr;
  reports = nullptr;
  return w;
}

void same(const Numbers& a, const Numbers& b, const char* what, double tol = 1e-9) {
  REQUIRE(a.size() == b.size(), what << ": " << b.size() << " instead of " << a.size());
  double big = 1;
  for (double v : a) if (std::fabs(v) < 1e300) big = std::max(big, std::fabs(v));
  for (size_t i = 0; i < a.size(); ++i)
    REQUIRE(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])) || std::fabs(a[i] - b[i]) <= tol * std::max(1.0, std::fabs(a[i])) + (tol > 0 ? 1e-13 * big : 0),
            what << "[" << i << "]: " << b[i] << " instead of " << a[i]);
}

/// The bridge and the C++ API, called alike.
struct Twins {
  pbt::Src& s;
  std::unique_ptr<rsffi::SwervePathBuilder> rs = bridge::swerve_path_builder_new();
  SwervePathBuilder cpp;
  bool drivetrain = false, obstacles = false;
  std::string history;

  explicit Twins(pbt::Src& s) : s{s} {}
  double number() {
    if (s.chance(0.02)) return s.coord(std::vector<double>{2000, 1e-3, 1e5}[s.choose(3)]);
    return s.choose(4) ? s.coord(6) : s.coord(0.5);
  }
  double limit() {
    if (s.chance(0.04)) return std::vector<double>{0.0, 1e-3, 60, 1000, 1e4, 1e6, 1e-6, 300}[s.choose(8)];
    return s.real(0, 9);
  }
  double angle() { return s.choose(3) ? s.coord(4) : s.coord(s.chance(0.1) ? 200 : 12); }
  void say(const std::string& name, std::initializer_list<double> args) {
    std::string t = name;
    for (double a : args) t += " " + pbt::show(a);
    NOTE(t << "; ");
  }
  void call() {
    size_t i = s.size(0, s.chance(0.01) ? 20 : 3), to = s.size(i, i + 1 + s.choose(3));
    double a = number(), b = number(), c = angle(), m = limit();
    auto& r = *rs;
    switch (s.range(0, 19)) {
      case 0:
        say("pose_wpt", {double(i), a, b, c});
        bridge::pose_wpt(r, i, a, b, c);
        cpp.PoseWpt(i, a, b, c);
        break;
      case 1:
        say("translation_wpt", {double(i), a, b, c});
        bridge::translation_wpt(r, i, a, b, c);
        cpp.TranslationWpt(i, a, b, c);
        break;
      case 2:
        say("empty_wpt", {double(i), a, b, c});
        bridge::empty_wpt(r, i, a, b, c);
        cpp.WptInitialGuessPoint(i, {a, b, c});
        break;
      case 3: {
        rust::Vec<rsffi::Pose2d> ps;
        std::vector<Pose2d> qs;
        size_t n = s.size(0, s.chance(0.05) ? 12 : 3);
        for (size_t k = 0; k < n; ++k) {
          double x = number(), y = number(), h = angle();
          ps.push_back({x, y, h});
          qs.emplace_back(x, y, h);
          say("guess", {x, y, h});
        }
        say("sgmt_initial_guess_points", {double(i)});
        bridge::sgmt_initial_guess_points(r, i, ps);
        cpp.SgmtInitialGuessPoints(i, qs);
        break;
      }
      case 4:
        say("wpt_linear_velocity_direction", {double(i), c});
        bridge::wpt_linear_velocity_direction(r, i, c);
        cpp.WptConstraint(i, LinearVelocityDirectionConstraint{c});
        break;
      case 5:
        say("wpt_linear_velocity_max_magnitude", {double(i), m});
        bridge::wpt_linear_velocity_max_magnitude(r, i, m);
        cpp.WptConstraint(i, LinearVelocityMaxMagnitudeConstraint{m});
        break;
      case 6:
        say("wpt_angular_velocity_max_magnitude", {double(i), m});
        bridge::wpt_angular_velocity_max_magnitude(r, i, m);
        cpp.WptConstraint(i, AngularVelocityMaxMagnitudeConstraint{m});
        break;
      case 7:
        say("wpt_linear_acceleration_max_magnitude", {double(i), m});
        bridge::wpt_linear_acceleration_max_magnitude(r, i, m);
        cpp.WptConstraint(i, LinearAccelerationMaxMagnitudeConstraint{m});
        break;
      case 8:
        say("wpt_point_at", {double(i), a, b, m});
        bridge::wpt_point_at(r, i, a, b, m);
        cpp.WptConstraint(i, PointAtConstraint{Translation2d{a, b}, m});
        break;
      case 9:
        if (to == i) ++to;
        say("sgmt_linear_velocity_direction", {double(i), double(to), c});
        bridge::sgmt_linear_velocity_direction(r, i, to, c);
        cpp.SgmtConstraint(i, to, LinearVelocityDirectionConstraint{c});
        break;
      case 10:
        if (to == i) ++to;
        say("sgmt_linear_velocity_max_magnitude", {double(i), double(to), m});
        bridge::sgmt_linear_velocity_max_magnitude(r, i, to, m);
        cpp.SgmtConstraint(i, to, LinearVelocityMaxMagnitudeConstraint{m});
        break;
      case 11:
        if (to == i) ++to;
        say("sgmt_angular_velocity_max_magnitude", {double(i), double(to), m});
        bridge::sgmt_angular_velocity_max_magnitude(r, i, to, m);
        cpp.SgmtConstraint(i, to, AngularVelocityMaxMagnitudeConstraint{m});
        break;
      case 12:
        if (to == i) ++to;
        say("sgmt_linear_acceleration_max_magnitude", {double(i), double(to), m});
        bridge::sgmt_linear_acceleration_max_magnitude(r, i, to, m);
        cpp.SgmtConstraint(i, to, LinearAccelerationMaxMagnitudeConstraint{m});
        break;
      case 13:
        if (to == i) ++to;
        say("sgmt_point_at", {double(i), double(to), a, b, m});
        bridge::sgmt_point_at(r, i, to, a, b, m);
        cpp.SgmtConstraint(i, to, PointAtConstraint{Translation2d{a, b}, m});
        break;
      case 14: {
        if (to == i) ++to;
        say("sgmt_circle_obstacle", {double(i), double(to), a, b, m});
        bridge::sgmt_circle_obstacle(r, i, to, a, b, m);
        cpp.SgmtObstacle(i, to, Obstacle{.safetyDistance = m, .points = {{a, b}}});
        obstacles = true;
        break;
      }
      case 15: {
        if (to == i) ++to;
        rust::Vec<double> xs, ys;
        std::vector<Translation2d> ps;
        size_t n = s.size(1, s.chance(0.05) ? 20 : 5), extra = s.chance(0.25) ? s.size(1, 2) : 0;
        bool more = s.choose(2);
        for (size_t k = 0; k < n; ++k) {
          xs.push_back(number());
          ys.push_back(number());
          ps.emplace_back(xs[k], ys[k]);
          say("corner", {xs[k], ys[k]});
        }
        for (size_t k = 0; k < extra; ++k) (more ? xs : ys).push_back(number());
        say("sgmt_polygon_obstacle", {double(i), double(to), double(xs.size()), double(ys.size()), m});
        bridge::sgmt_polygon_obstacle(r, i, to, xs, ys, m);
        if (extra) {
          s.label("unequal lists");
          break;
        }
        cpp.SgmtObstacle(i, to, Obstacle{.safetyDistance = m, .points = ps});
        obstacles = true;
        break;
      }
      case 16: {
        double l = limit(), w = limit();
        say("set_bumpers", {l, w});
        bridge::set_bumpers(r, l, w);
        cpp.AddBumpers(Bumpers{.safetyDistance = 0.01,
                               .points = {{l / 2, w / 2}, {-l / 2, w / 2}, {-l / 2, -w / 2}, {l / 2, -w / 2}}});
        break;
      }
      case 17: drive(); break;
      case 18: {
        size_t id = s.choose(4);
        say("add_progress_callback", {double(id)});
        bridge::add_progress_callback(r, kCallbacks[id]);
        cpp.AddIntermediateCallback([id = int(id)](SwerveSolution& sol, int64_t handle) {
          if (reports) reports->push_back({id, handle, flat(HolonomicTrajectory{sol})});
        });
        break;
      }
      default: counts(); break;
    }
  }
  void drive() {
    rsffi::SwerveDrivetrain d{s.real(0.1, 90), s.real(0.1, 20), {}};
    SwerveDrivetrain e{d.mass, d.moi, {}};
    size_t n = s.size(0, s.chance(0.05) ? 12 : 4);
    for (size_t k = 0; k < n; ++k) {
      rsffi::SwerveModule m{number(), number(), s.real(0.01, 0.2), s.real(1, 99), s.real(0.1, 9)};
      d.modules.push_back(m);
      e.modules.push_back(SwerveModule{{m.x, m.y}, m.wheel_radius, m.wheel_max_angular_velocity, m.wheel_max_torque});
      say("module", {m.x, m.y, m.wheel_radius, m.wheel_max_angular_velocity, m.wheel_max_torque});
    }
    say("set_drivetrain", {d.mass, d.moi});
    bridge::set_drivetrain(*rs, d);
    cpp.SetDrivetrain(e);
    drivetrain = true;
  }
  void counts() {
    size_t wpts = cpp.GetPath().waypoints.size();
    if (wpts < 2) return;
    rust::Vec<size_t> c;
    std::vector<size_t> v;
    for (size_t k = 0; k + 1 < wpts; ++k) {
      c.push_back(s.chance(0.003) ? s.pick(std::vector<size_t>{127, 128, 256, 300}) : s.size(1, 4));
      v.push_back(c[k]);
    }
    NOTE("set_control_interval_counts " << pbt::show(v) << "; ");
    bridge::set_control_interval_counts(*rs, c);
    cpp.ControlIntervalCounts(std::move(v));
  }
  void generate() {
    if (!drivetrain) drive();
    if (cpp.GetPath().waypoints.empty()) {
      bridge::pose_wpt(*rs, 0, 1, 2, 3);
      cpp.PoseWpt(0, 1, 2, 3);
    }
    counts();
    Drawn g;
    g.diagnostics = s.choose(2);
    g.handle = s.pick(std::vector<int64_t>{0, 1, -1, 77, INT64_MAX, INT64_MIN});
    if (s.chance(0.3)) g.handle = static_cast<int64_t>(s.choose(1ull << 31) << s.choose(33)) * (s.choose(2) ? 1 : -1);
    static const std::vector<SolverExitCondition> exits{
        SolverExitCondition::kSuccess, SolverExitCondition::kSolvedToAcceptableTolerance,
        SolverExitCondition::kTooFewDOFs, SolverExitCondition::kLocallyInfeasible,
        SolverExitCondition::kFeasibilityRestorationFailed,
        SolverExitCondition::kNonfiniteInitialCostOrConstraints, SolverExitCondition::kDivergingIterates,
        SolverExitCondition::kMaxIterationsExceeded, SolverExitCondition::kTimeout};
    if (s.chance(0.4)) g.exit = s.pick(exits);
    for (int k = 0; k < 29; ++k) g.assign.push_back(s.coord(3));
    int n = s.range(0, s.chance(0.03) ? 40 : 3);
    for (int k = 0; k < n; ++k) g.iterations.push_back(s.choose(3) ? 20'000'000 : 10'000'000);
    if (n && s.chance(0.25)) g.cancelAt = s.range(0, n - 1);
    g.cancelBefore = s.chance(0.2);
    g.requests = s.chance(0.3) ? s.range(2, 4) : 1;
    NOTE("\ngenerate diagnostics " << g.diagnostics << " handle " << g.handle << " outcome " << int(g.exit)
                                   << " iterations " << n << " cancel at " << g.cancelAt << (g.cancelBefore ? " and before" : "") << "; ");
    auto a = watch(
        g,
        [&] {
          SwerveTrajectoryGenerator gen{cpp, g.handle};
          auto r = gen.Generate(g.diagnostics);
          if (!r.has_value()) throw std::runtime_error{r.error()};
          return flat(HolonomicTrajectory{*r});
        },
        [] { GetCancellationFlag() = 1; });
    auto b = watch(
        g, [&] { return flat(bridge::generate(*rs, g.diagnostics, g.handle)); }, [] { bridge::cancel_all(); });
    REQUIRE(b.solves == 1, b.solves << " problems solved by one call");
    same(a.initial, b.initial, "initial values");
    same(a.eq, b.eq, "equality values");
    same(a.ineq, b.ineq, "inequality values");
    REQUIRE(a.cost == b.cost && near(a.objective, b.objective), "objective " << b.objective << " instead of " << a.objective);
    REQUIRE(a.diagnostics == b.diagnostics, "diagnostics " << b.diagnostics << " instead of " << a.diagnostics);
    REQUIRE(a.tolerance == b.tolerance, "tolerance " << b.tolerance);
    REQUIRE(a.answers == b.answers, "other answers to the solver's iterations");
    REQUIRE(a.reports.size() == b.reports.size(), b.reports.size() << " progress reports instead of " << a.reports.size());
    for (size_t k = 0; k < a.reports.size(); ++k) {
      auto &x = a.reports[k], &y = b.reports[k];
      REQUIRE(x.id == y.id, "callback " << y.id << " called instead of " << x.id);
      REQUIRE(x.handle == y.handle, "handle " << y.handle << " instead of " << x.handle);
      same(x.values, y.values, "reported trajectory", 0);
    }
    REQUIRE(a.ok == b.ok, (b.ok ? "a trajectory" : "an error") << " instead of " << (a.ok ? "a trajectory" : "an error") << " " << b.error);
    REQUIRE(a.error == b.error, "error \"" << b.error << "\" instead of \"" << a.error << "\"");
    same(a.result, b.result, "trajectory", 0);
    s.label(b.ok ? "trajectory" : "error");
    if (!b.reports.empty()) s.label("reports");
    if (obstacles) s.label("obstacles");
    // What the C++ call says is judged by C14 to C17; here, that it was said.
    if (b.ok && !b.result.empty()) s.nontrivial();
    GetCancellationFlag() = 0;
  }
};

}  // namespace

PROPERTY("C23", "bridge-histories", 20000, 700000,
         "1..14 random bridge calls (bumpers, obstacles, limits, waypoints, guesses, counts, "
         "drivetrains, callbacks) and 1..2 generations with random outcome, iterations and "
         "cancelling, against the same calls of the C++ API: same values of all constraints, "
         "objective and starting values, same reports, trajectory or error; non-trivial: a "
         "trajectory is returned") {
  Twins t{s};
  int n = s.range(1, 14);
  for (int i = 0; i < n; ++i) {
    t.call();
    if (s.chance(0.05)) t.generate();
  }
  t.generate();
}
