// C13 (solutions), C14 (outcomes), C15 (cancellation), C16 (progress).
#include "clock.hpp"

#include "trajopt/util/Cancellation.hpp"
#include "world.hpp"

using namespace trajopt;
using namespace world;
using pbt::near;
using sleipnir::SolverExitCondition;

namespace {

Pins pinsOf(pbt::Src& s, const Traj& t) { return pins(s, t.waypoints()); }

/// A small random path.
struct Path {
  Drive d;
  Traj t;
  SwervePathBuilder b;
};
Path path(pbt::Src& s, size_t most = 4) {
  Path p;
  p.d = drive(s);
  p.t = trajectory(s, p.d, {.maxWaypoints = most}, Defect::kNone, nullptr);
  place(s, p.b, p.d, p.t, pinsOf(s, p.t));
  return p;
}
bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
bool equal(const std::vector<double>& a, const std::vector<double>& b) {
  return std::equal(a.begin(), a.end(), b.begin(), b.end(), same);
}
bool equal(const std::vector<std::vector<double>>& a, const std::vector<std::vector<double>>& b) {
  return std::equal(a.begin(), a.end(), b.begin(), b.end(), [](auto& v, auto& w) { return equal(v, w); });
}
bool equal(const SwerveSolution& a, const SwerveSolution& b) {
  return equal(a.dt, b.dt) && equal(a.x, b.x) && equal(a.y, b.y) && equal(a.thetacos, b.thetacos) && equal(a.thetasin, b.thetasin) &&
         equal(a.vx, b.vx) && equal(a.vy, b.vy) && equal(a.omega, b.omega) && equal(a.ax, b.ax) && equal(a.ay, b.ay) &&
         equal(a.alpha, b.alpha) && equal(a.moduleFX, b.moduleFX) && equal(a.moduleFY, b.moduleFY);
}
/// What a solver that went astray may leave in a variable.
double astray(pbt::Src& s) {
  static const std::vector<double> odd{NAN, INFINITY, -INFINITY, -0.0, -1.0, 1e300, 5e-324};
  return s.pick(odd);
}

}  // namespace

// ---------------------------------------------------------------- C13
PROPERTY("C13", "solution", 30000, 900000,
         "random problems whose variables the solver leaves at numbers of their own: every variable "
         "is reported as one quantity of one sample, steps once per interval; a mechanically exact "
         "trajectory read through the solution is accepted, and objectives are in proportion to "
         "reported durations; non-trivial: several segments and modules") {
  Drive d = drive(s);
  Traj t = trajectory(s, d, {}, Defect::kNone, nullptr);
  Pins p = pinsOf(s, t);
  SwervePathBuilder b;
  place(s, b, d, t, p);
  NOTE(show(d) << "\n" << show(p) << "\n" << show(t));
  if (t.n.size() > 1 && d.modules.size() > 1) s.nontrivial();
  Posed posed{b};
  REQUIRE(posed.unidentified.empty(), posed.unidentified);
  auto e = posed.set(t);
  REQUIRE(e.empty(), e);
  if (auto broken = posed.broken("C13"))
    FAIL("the solution, read as a trajectory, is not what the problem is about: " << broken->text);
  // The values of the end, whatever they were before; either good outcome.
  bool acceptable = s.choose(2);
  size_t vars = posed.problem->decisionVariables.size();
  std::vector<double> end(vars);
  const std::vector<double> odd = s.choose(4) ? std::vector<double>{0, -0.0, 1e300, -1e-300}
                                              : std::vector<double>{NAN, INFINITY, -INFINITY, 1e300};
  for (size_t i = 0; i < vars; ++i) end[i] = s.choose(8) ? (double(s.choose(1 << 20)) - (1 << 19)) / 1024 : s.pick(odd);
  int iterations = s.chance(0.01) ? s.range(4, 300) : s.range(0, 3);
  if (iterations && s.choose(3) == 0) {  // all but one quantity as last reported
    auto only = s.range(0, kDt);
    for (size_t i = 0; i < vars; ++i)
      if (posed.what.at(posed.problem->decisionVariables[i].expr.get()).q != only) end[i] = iterations - 0.5;
    s.label("one quantity changed");
  }
  sleipnir::model::onSolve = [&](sleipnir::OptimizationProblem& q, const sleipnir::SolverConfig&) {
    for (int i = 0; i < iterations; ++i) {
      for (auto& v : q.decisionVariables) v.SetValue(i + 0.5);
      fakeclock::now += 20'000'000;
      q.callback({});
    }
    for (size_t i = 0; i < vars; ++i) q.decisionVariables[i].SetValue(end[i]);
    sleipnir::SolverStatus st;
    st.exitCondition = acceptable ? SolverExitCondition::kSolvedToAcceptableTolerance : SolverExitCondition::kSuccess;
    return st;
  };
  auto r = posed.gen->Generate();
  sleipnir::model::onSolve = nullptr;
  REQUIRE(r.has_value(), "a solved problem gave no solution");
  auto want = [&](const std::vector<double>& numbers, const std::vector<double>& got, const char* what) {
    REQUIRE(numbers.size() == got.size(), "number of values of " << what);
    for (size_t i = 0; i < got.size(); ++i) {
      double w = end[static_cast<size_t>(numbers[i] - Posed::kBase)];
      REQUIRE(got[i] == w || (std::isnan(got[i]) && std::isnan(w)), what << "[" << i << "] is reported as " << got[i] << " but ended as " << w);
    }
  };
  auto& m = posed.solution;
  want(m.x, r->x, "x");
  want(m.y, r->y, "y");
  want(m.thetacos, r->thetacos, "cos");
  want(m.thetasin, r->thetasin, "sin");
  want(m.vx, r->vx, "vx");
  want(m.vy, r->vy, "vy");
  want(m.omega, r->omega, "omega");
  want(m.ax, r->ax, "ax");
  want(m.ay, r->ay, "ay");
  want(m.alpha, r->alpha, "alpha");
  want(m.dt, r->dt, "dt");
  REQUIRE(m.moduleFX.size() == r->moduleFX.size() && m.moduleFY.size() == r->moduleFY.size(), "forces per sample");
  for (size_t i = 0; i < m.moduleFX.size(); ++i) {
    want(m.moduleFX[i], r->moduleFX[i], "Fx");
    want(m.moduleFY[i], r->moduleFY[i], "Fy");
  }
  // Durations.
  if (!posed.problem->objective || t.n.empty()) return;
  Traj u = t;
  for (auto& x : u.dt) x = s.real(0.01, 1);
  posed.set(u);
  double ou = posed.problem->objective->Value(), du = u.duration();
  for (auto& x : u.dt) x = s.real(0.01, 1);
  posed.set(u);
  double ov = posed.problem->objective->Value();
  sleipnir::model::onSolve = [](sleipnir::OptimizationProblem&, const sleipnir::SolverConfig&) { return sleipnir::SolverStatus{}; };
  auto z = posed.gen->Generate();
  sleipnir::model::onSolve = nullptr;
  REQUIRE(z.has_value(), "a solved problem gave no solution");
  double dv = 0;
  for (double x : z->dt) dv += x;
  REQUIRE(near(ou * dv, ov * du, 1e-9, 1e-9), "objectives " << ou << ", " << ov << " but durations " << du << ", " << dv);
}

// ---------------------------------------------------------------- C14
PROPERTY("C14", "outcomes", 40000, 1500000,
         "1..6 generations on 1..2 generators, each with a random solver outcome, diagnostics on or "
         "off and some iterations: a solution exactly for the two good outcomes, else the solver's "
         "message; tolerance 1e-4 and diagnostics reach the solver; non-trivial: outcomes of both "
         "kinds in one history") {
  static const std::vector<SolverExitCondition> all{
      SolverExitCondition::kSuccess, SolverExitCondition::kSolvedToAcceptableTolerance,
      SolverExitCondition::kCallbackRequestedStop, SolverExitCondition::kTooFewDOFs,
      SolverExitCondition::kLocallyInfeasible, SolverExitCondition::kFeasibilityRestorationFailed,
      SolverExitCondition::kNonfiniteInitialCostOrConstraints, SolverExitCondition::kDivergingIterates,
      SolverExitCondition::kMaxIterationsExceeded, SolverExitCondition::kTimeout};
  auto p = path(s, 3), q = path(s, 2);
  int seen = 0;
  for (int c = s.choose(3) ? 0 : s.range(1, 3); c > 0; --c) p.b.AddIntermediateCallback([&seen](SwerveSolution&, int64_t) { ++seen; });
  SwerveTrajectoryGenerator g[2] = {SwerveTrajectoryGenerator{p.b}, SwerveTrajectoryGenerator{q.b}};
  bool many = s.chance(0.02);  // generations, or iterations of one
  int n = many ? s.range(7, 40) : s.range(1, 6);
  bool good = false, bad = false;
  for (int k = 0; k < n; ++k) {
    auto exit = s.pick(all);
    bool diagnostics = s.choose(2), cancel = s.chance(0.2);
    int iterations = s.chance(0.01) ? s.range(3, 400) : s.range(0, 2), which = s.range(0, 1), calls = 0;
    double mark = s.chance(0.1) ? astray(s) : s.coord(9), odd = s.chance(0.1) ? astray(s) : mark;
    sleipnir::SolverConfig config;
    sleipnir::model::onSolve = [&](sleipnir::OptimizationProblem& pr, const sleipnir::SolverConfig& c) {
      ++calls;
      config = c;
      for (int i = 0; i < iterations; ++i) {
        fakeclock::now += s.choose(2) ? 20'000'000 : 1'000;
        pr.callback({i});
      }
      if (cancel) GetCancellationFlag() = 1;
      size_t strange = s.choose(pr.decisionVariables.size() + 1), k = 0;
      for (auto& v : pr.decisionVariables) v.SetValue(k++ == strange ? odd : mark);
      sleipnir::SolverStatus st;
      st.exitCondition = exit;
      return st;
    };
    auto r = diagnostics ? g[which].Generate(true) : s.choose(2) ? g[which].Generate(false) : g[which].Generate();
    sleipnir::model::onSolve = nullptr;
    bool want = exit == SolverExitCondition::kSuccess || exit == SolverExitCondition::kSolvedToAcceptableTolerance;
    NOTE("outcome " << int(exit) << " diagnostics " << diagnostics << (cancel ? " flag set" : "") << "; ");
    s.label(std::string{sleipnir::ToMessage(exit)});
    (want ? good : bad) = true;
    REQUIRE(calls == 1, "the solver was called " << calls << " times");
    REQUIRE(config.tolerance == 1e-4, "tolerance " << config.tolerance);
    REQUIRE(config.diagnostics == diagnostics, "diagnostics passed on as " << config.diagnostics);
    REQUIRE(r.has_value() == want, (r.has_value() ? "a solution" : "an error") << " for outcome " << int(exit));
    if (want) {
      for (double x : r->x) REQUIRE(same(x, mark) || same(x, odd), "x is " << x << " instead of " << mark);
    } else {
      REQUIRE(r.error() == std::string{sleipnir::ToMessage(exit)},
              "error \"" << r.error() << "\" instead of \"" << sleipnir::ToMessage(exit) << "\"");
    }
  }
  GetCancellationFlag() = 0;
  if (good && bad) s.nontrivial();
}

// ---------------------------------------------------------------- C15
namespace {

/// Generations nested in one another's iterations, with requests anywhere.
struct Cancelling {
  pbt::Src& s;
  std::vector<std::unique_ptr<SwerveTrajectoryGenerator>> gens;
  std::vector<bool> busy;
  struct Running {
    bool mustStop = false;
    bool startedSince = false;  // another generation started after the request
  };
  std::vector<Running*> running;
  int budget = 40, requests = 0, stopped = 0, nested = 0;

  explicit Cancelling(pbt::Src& s) : s{s} {}
  void request(const char* from) {
    int value = s.chance(0.8) ? 1 : s.pick(std::vector<int>{2, -1, 1 << 20, 256});
    NOTE("[request " << value << " from " << from << "] ");
    GetCancellationFlag() = value;
    ++requests;
    for (auto* r : running) {
      if (r->mustStop && r->startedSince) r->startedSince = false;
      r->mustStop = true;
      r->startedSince = false;
    }
  }
  void generate(size_t which) {
    NOTE("{start " << which << " ");
    busy[which] = true;
    Running me;
    for (auto* r : running) r->startedSince = r->startedSince || r->mustStop;
    if (!running.empty()) ++nested;
    bool told = false;
    auto saved = sleipnir::model::onSolve;
    sleipnir::model::onSolve = [&](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
      running.push_back(&me);
      sleipnir::SolverStatus st;
      int iterations = budget > 100 && s.choose(2) ? s.range(6, 500) : s.range(0, 5);
      for (int i = 0; i < iterations && budget-- > 0; ++i) {
        fakeclock::now += s.choose(2) ? 20'000'000 : 1'000'000;
        for (int events = iterations > 5 ? s.chance(0.02) : s.weighted({5, 3, 2}); events > 0; --events) {
          if (s.choose(2)) {
            request("outside");
          } else {
            size_t other = s.choose(gens.size());
            if (!busy[other]) generate(other);
          }
        }
        bool before = me.mustStop;
        bool stop = p.callback({i});
        NOTE("iteration " << which << (stop ? " told to stop " : " goes on "));
        // A progress callback may have requested it during this iteration.
        if (before || me.mustStop) {
          if (!stop && me.startedSince) {
            s.finding("C15-new-generation-uncancels",
                      "a generation that was asked to stop goes on because another was started before its next iteration");
            me.mustStop = me.startedSince = false;
            continue;
          }
          if (before || stop) {
            REQUIRE(stop, "asked to stop, but generator " << which << " goes on");
          } else {
            // Requested within this very iteration: due at the next one at the latest.
            continue;
          }
        } else {
          REQUIRE(!stop, "generator " << which << " stops without a request");
        }
        if (stop) {
          told = true;
          ++stopped;
          st.exitCondition = SolverExitCondition::kCallbackRequestedStop;
          break;
        }
      }
      running.pop_back();
      return st;
    };
    auto r = gens[which]->Generate();
    sleipnir::model::onSolve = saved;
    busy[which] = false;
    NOTE("} ");
    if (told) {
      REQUIRE(!r.has_value(), "a stopped generation returns a solution");
      REQUIRE(r.error() == std::string{sleipnir::ToMessage(SolverExitCondition::kCallbackRequestedStop)}, "error " << r.error());
    } else {
      REQUIRE(r.has_value(), "a generation that was not stopped returns the error " << r.error());
    }
  }
};

}  // namespace

PROPERTY("C15", "requests", 30000, 1200000,
         "1..3 generators, generations in sequence and nested in one another's iterations, requests "
         "(any nonzero value) while idle, between iterations, and from progress callbacks: told "
         "to stop at the next iteration exactly if requested while running; non-trivial: a request "
         "stopped a generation and another generation was not stopped") {
  Cancelling c{s};
  bool many = s.chance(0.02);
  if (many) c.budget = 1500;
  size_t n = many ? s.size(1, 9) : s.size(1, 3);
  for (size_t i = 0; i < n; ++i) {
    auto p = path(s, 2);
    if (s.choose(2)) {
      double often = many ? s.real(0, 0.01) : s.real(0, 0.5);
      p.b.AddIntermediateCallback([&c, often](SwerveSolution&, int64_t) {
        if (c.s.chance(often)) c.request("a callback");
      });
    }
    c.gens.push_back(std::make_unique<SwerveTrajectoryGenerator>(p.b));
    c.busy.push_back(false);
  }
  int runs = many ? s.range(1, 40) : s.range(1, 5);
  for (int i = 0; i < runs; ++i) {
    if (s.chance(0.3)) c.request("idle");
    c.generate(s.choose(n));
  }
  s.label(c.stopped ? "stopped" : "not stopped");
  if (c.nested) s.label("nested");
  if (c.stopped && runs + c.nested > c.stopped) s.nontrivial();
  GetCancellationFlag() = 0;
}

// ---------------------------------------------------------------- C16
namespace {

struct Reporting {
  pbt::Src& s;
  struct Gen {
    std::unique_ptr<Posed> posed;
    std::vector<int> callbacks;
    int64_t handle = 0, last = 0;
    bool busy = false;
    std::vector<double> values;
    std::vector<int> quantity;  // of each variable
  };
  std::vector<Gen> gens;
  struct Call {
    int id;
    int64_t handle;
    SwerveSolution got;
  };
  std::vector<Call> calls;
  int budget = 30, reports = 0, quiet = 0, nested = 0, reentered = 0, slow = 0;

  static constexpr int64_t kFrame = 16'666'667;  // the first whole ns that is due

  void advance() {
    int64_t by = 0;
    switch (s.weighted({6, 4, 4, 6, 1, 1})) {
      case 0: by = int64_t(s.choose(5)) * 4'000'000; break;
      case 1: by = kFrame - 1; break;
      case 2: by = kFrame; break;
      case 3: by = int64_t(s.choose(40'000'000)); break;
      case 4: by = int64_t(s.choose(3)) * 3'600'000'000'000; break;
      default: {  // where narrower counts of time wrap round: just after, or some frames after
        static const std::vector<int64_t> wraps{int64_t{1} << 31, int64_t{1} << 32, (int64_t{1} << 31) * 1000, (int64_t{1} << 32) * 1000, int64_t{65536} * 1000000,
                                                1'000'000'000, 60'000'000'000, 86'400'000'000'000, (int64_t{1} << 31) * 1'000'000};
        by = s.pick(wraps) + (s.choose(2) ? int64_t(s.choose(40'000'000)) : 0);
      }
    }
    fakeclock::now += by;
    NOTE("+" << by << "ns ");
    if (s.chance(0.06)) {  // someone sets the wall clock
      static const std::vector<int64_t> sets{-1'000'000'000, 1'000'000'000, -3'600'000'000'000, 3'600'000'000'000, -kFrame, kFrame};
      fakeclock::wall += s.pick(sets);
      s.label("wall clock set");
    }
  }
  SwerveSolution expected(const Gen& g) {
    auto sol = g.posed->solution;
    auto fill = [&](std::vector<double>& v) {
      for (auto& x : v) x = g.values[static_cast<size_t>(x - Posed::kBase)];
    };
    for (auto* v : {&sol.dt, &sol.x, &sol.y, &sol.thetacos, &sol.thetasin, &sol.vx, &sol.vy, &sol.omega, &sol.ax, &sol.ay, &sol.alpha}) fill(*v);
    for (auto* m : {&sol.moduleFX, &sol.moduleFY})
      for (auto& v : *m) fill(v);
    return sol;
  }
  /// Generates with another generator while one reports.
  void reenter() {
    size_t other = s.choose(gens.size());
    if (gens[other].busy || budget <= 0) return;
    auto saved = std::move(calls);
    ++reentered;
    NOTE("from a callback: ");
    generate(other);
    calls = std::move(saved);
  }
  void generate(size_t which) {
    Gen& g = gens[which];
    g.busy = true;
    NOTE("{start " << which << " ");
    auto saved = sleipnir::model::onSolve;
    sleipnir::model::onSolve = [&](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
      int iterations = budget > 100 && s.choose(2) ? s.range(9, 300) : s.range(0, 8);
      for (int i = 0; i < iterations && budget-- > 0; ++i) {
        advance();
        if (s.chance(iterations > 8 ? 0.01 : 0.15)) {
          size_t other = s.choose(gens.size());
          if (!gens[other].busy) {
            ++nested;
            generate(other);
          }
        }
        double base = double(s.choose(1000));
        int only = s.choose(4) ? -1 : s.range(0, kDt);  // one quantity changes
        double wrong = s.chance(0.04) ? astray(s) : 0;
        size_t at = wrong != 0 ? s.choose(p.decisionVariables.size()) : p.decisionVariables.size();
        for (size_t k = 0; k < p.decisionVariables.size(); ++k) {
          if (only < 0 || g.quantity[k] == only) g.values[k] = base + k * 0.25;
          if (k == at) g.values[k] = wrong;
          p.decisionVariables[k].SetValue(g.values[k]);
        }
        calls.clear();
        int64_t arrived = fakeclock::now.load();
        bool due = arrived - g.last >= kFrame;
        bool stop = p.callback({i});
        NOTE("iteration " << which << (due ? " due " : " not due "));
        REQUIRE(!stop, "stopped without a request");
        if (!due) {
          ++quiet;
          REQUIRE(calls.empty(), calls.size() << " callbacks called " << (arrived - g.last)
                                              << " ns after the last report");
        } else {
          ++reports;
          g.last = arrived;  // callbacks may take time of their own
          auto want = expected(g);
          REQUIRE(calls.size() == g.callbacks.size(), calls.size() << " calls for " << g.callbacks.size() << " callbacks");
          for (size_t k = 0; k < calls.size(); ++k) {
            REQUIRE(calls[k].id == g.callbacks[k], "callbacks out of order");
            REQUIRE(calls[k].handle == g.handle, "handle " << calls[k].handle << " instead of " << g.handle);
            REQUIRE(equal(calls[k].got, want), "callback " << k << " was given other values than the current ones");
          }
        }
        for (size_t k = 0; k < p.decisionVariables.size(); ++k)
          REQUIRE(same(p.decisionVariables[k].Value(), g.values[k]), "a report changed the solver's variables");
      }
      return sleipnir::SolverStatus{};
    };
    auto r = g.posed->gen->Generate();
    sleipnir::model::onSolve = saved;
    g.busy = false;
    NOTE("} ");
    REQUIRE(r.has_value(), "no solution");
    REQUIRE(equal(*r, expected(g)), "the solution is not what the solver ended with");
  }
};

}  // namespace

PROPERTY("C16", "reports", 24000, 900000,
         "1..3 generators with 0..4 callbacks and own handles (some moved after creation), "
         "generations in sequence, nested between iterations and started by callbacks, iterations at times around 1/60 s apart by a "
         "controlled clock, callbacks that take time, the last callback spoiling its argument; compared with a model of who "
         "must be told what and when; non-trivial: both reported and unreported iterations") {
  Reporting r{s};
  bool many = s.chance(0.02);
  if (many) r.budget = 600;
  size_t n = many ? s.size(1, 6) : s.size(1, 3);
  fakeclock::now = int64_t(s.choose(4)) * 1'000'000'000'000 + 1'000'000'000;
  fakeclock::wall = 1'000'000'000'000'000'000;
  r.gens.resize(n);
  int next = 0;
  for (size_t i = 0; i < n; ++i) {
    auto& g = r.gens[i];
    auto p = path(s, 3);
    static const std::vector<int64_t> handles{0, 1, -1, 42, INT64_MAX, INT64_MIN, int64_t(1) << 40};
    g.handle = s.pick(handles);
    // A solution's layout is learnt from another generator of the same path.
    g.posed = std::make_unique<Posed>(p.b);
    if (!g.posed->unidentified.empty()) throw pbt::Discard{};
    g.values = g.posed->initial;
    for (auto& v : g.posed->problem->decisionVariables) g.quantity.push_back(g.posed->what.at(v.expr.get()).q);
    int c = s.chance(0.02) ? s.range(5, 40) : s.range(0, 4);
    bool spoil = s.choose(2);
    for (int k = 0; k < c; ++k) {
      int id = next++;
      bool last = k + 1 == c;
      p.b.AddIntermediateCallback([&r, id, many, spoil = spoil && last](SwerveSolution& sol, int64_t handle) {
        auto& s = r.s;
        r.calls.push_back({id, handle, sol});
        if (s.chance(many ? 0.01 : 0.08)) r.reenter();
        if (s.chance(0.1)) {
          NOTE("callback takes ");
          r.advance();
          ++r.slow;
        }
        if (spoil) {
          for (auto& x : sol.x) x = NAN;
          sol.dt.clear();
          sol.moduleFX.clear();
        }
      });
      g.callbacks.push_back(id);
    }
    r.advance();
    auto made = std::make_unique<SwerveTrajectoryGenerator>(p.b, g.handle);
    g.last = fakeclock::now.load();
    if (s.choose(2)) {
      r.advance();
      SwerveTrajectoryGenerator moved{std::move(*made)};
      if (s.choose(2)) {
        r.advance();
        made = std::make_unique<SwerveTrajectoryGenerator>(std::move(moved));
      } else {
        *made = std::move(moved);
      }
      s.label("moved");
    }
    g.posed->gen = std::move(made);
    // Later changes to the builder do not matter.
    p.b.AddIntermediateCallback([&r](SwerveSolution&, int64_t) { r.calls.push_back({-1, 0, {}}); });
    NOTE("generator " << i << ": " << c << " callbacks, handle " << g.handle << "; ");
  }
  int runs = many ? s.range(1, 12) : s.range(1, 3);
  for (int i = 0; i < runs; ++i) {
    r.advance();
    r.generate(s.choose(n));
  }
  if (r.nested) s.label("nested");
  if (r.reentered) s.label("from a callback");
  if (r.slow) s.label("slow callback");
  if (r.reports && r.quiet) s.nontrivial();
  s.label(r.reports > 2 ? "several reports" : r.reports ? "reports" : "no report");
}
