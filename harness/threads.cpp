// C15, C16 and C25 with generators on several threads, under ThreadSanitizer.
#define FAKECLOCK_PER_THREAD
#include <time.h>

#include <thread>

#include "clock.hpp"
#include "trajopt/util/Cancellation.hpp"
#include "world.hpp"

using namespace trajopt;
using namespace world;
using sleipnir::SolverExitCondition;

namespace {

using Numbers = std::vector<double>;

double realTime() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return double(t.tv_sec) + double(t.tv_nsec) * 1e-9;
}
/// Waits for another thread; false after a long time.
template <typename F>
bool await(F done, double seconds = 30) {
  double end = realTime() + seconds;
  for (int i = 0; !done(); ++i) {
    std::this_thread::yield();
    if (i % 1024 == 1023 && realTime() > end) return false;
  }
  return true;
}

void place(pbt::Src& s, SwervePathBuilder& b, Drive& d, Traj& t) {
  d = drive(s);
  t = trajectory(s, d, {.maxWaypoints = 3}, Defect::kNone, nullptr);
  world::place(s, b, d, t, pins(s, t.waypoints()));
}

// ------------------------------------------------------------ C25
/// One thread's work, drawn before it runs.
struct Plan {
  SwervePathBuilder builder;
  Numbers assign;
  std::vector<int64_t> waits;
  int64_t handle = 0;
  int times = 1, callbacks = 0;
  bool success = true;
};
struct Outcome {
  std::vector<Numbers> values;
  std::vector<std::string> words;
  bool operator==(const Outcome&) const = default;
};
struct Told {
  int id;
  int64_t handle;
  Numbers x;
};
thread_local std::vector<Told> told;

Numbers flat(const SwerveSolution& s) {
  Numbers r;
  for (auto* v : {&s.dt, &s.x, &s.y, &s.thetacos, &s.thetasin, &s.vx, &s.vy, &s.omega, &s.ax, &s.ay, &s.alpha})
    r.insert(r.end(), v->begin(), v->end());
  for (auto* m : {&s.moduleFX, &s.moduleFY})
    for (auto& v : *m) r.insert(r.end(), v.begin(), v.end());
  return r;
}
double plain(double v) { return std::isnan(v) ? 1e308 : v; }

Outcome carryOut(const Plan& p) {
  Outcome o;
  for (int round = 0; round < p.times; ++round) {
    fakeclock::now = 1'000'000'000;
    SwerveTrajectoryGenerator gen{p.builder, p.handle};
    sleipnir::model::onSolve = [&](sleipnir::OptimizationProblem& q, const sleipnir::SolverConfig&) {
      auto& vars = q.decisionVariables;
      Numbers start, eq, ineq;
      for (auto& v : vars) start.push_back(plain(v.Value()));
      for (size_t i = 0; i < vars.size(); ++i) vars[i].SetValue(p.assign[i % p.assign.size()] + 0.01 * double(i));
      for (auto& c : q.equality) eq.push_back(plain(c.Value()));
      for (auto& c : q.inequality) ineq.push_back(plain(c.Value()));
      if (q.objective) eq.push_back(q.objective->Value());
      o.values.push_back(start);
      o.values.push_back(eq);
      o.values.push_back(ineq);
      int k = 0;
      for (auto w : p.waits) {
        fakeclock::now += w;
        for (auto& v : vars) v.SetValue(++k);
        told.clear();
        bool stop = q.callback({});
        o.words.push_back(stop ? "stop" : "go on");
        for (auto& t : told) {
          o.words.push_back(std::to_string(t.id) + " " + std::to_string(t.handle));
          o.values.push_back(t.x);
        }
      }
      sleipnir::SolverStatus st;
      if (!p.success) st.exitCondition = SolverExitCondition::kMaxIterationsExceeded;
      return st;
    };
    auto r = gen.Generate();
    sleipnir::model::onSolve = nullptr;
    if (r.has_value()) o.values.push_back(flat(*r));
    else o.words.push_back(r.error());
  }
  return o;
}

}  // namespace

PROPERTY("C25", "concurrent-generations", 800, 60000,
         "2..5 threads that build generators from their own or a shared builder and run them at the "
         "same time, iterations and progress callbacks included: each has the same starting values, "
         "constraint values, reports, answers and result as alone, and ThreadSanitizer finds no "
         "race; non-trivial: different paths on several threads") {
  size_t n = s.size(2, 5);
  std::vector<Plan> plans(n);
  int id = 0;
  for (size_t i = 0; i < n; ++i) {
    auto& p = plans[i];
    if (i && s.chance(0.3)) {
      p = plans[0];  // copies of the builder share what they point to
    } else {
      Drive d;
      Traj t;
      bool bumpers = s.choose(2);
      if (bumpers) p.builder.AddBumpers(Bumpers{.safetyDistance = 0.1, .points = paths::points(paths::outline(s, 4, 0.5))});
      place(s, p.builder, d, t);
      if (i) s.nontrivial();
      if (bumpers) p.builder.WptObstacle(0, Obstacle{.safetyDistance = 0.1, .points = paths::points(paths::outline(s, 3, 2))});
      if (s.choose(2)) p.builder.WptConstraint(0, spec(s, t.at).make());
      if (s.choose(2) && t.waypoints() > 1) p.builder.SgmtConstraint(0, 1, spec(s, t.at).make());
      p.callbacks = s.range(0, 2);
      for (int c = 0; c < p.callbacks; ++c) {
        p.builder.AddIntermediateCallback([id = id++](SwerveSolution& sol, int64_t handle) {
          told.push_back({id, handle, flat(sol)});
        });
      }
    }
    p.handle = s.range(0, 99);
    p.times = s.range(1, 3);
    p.success = s.choose(4) != 0;
    for (int k = 0; k < 17; ++k) p.assign.push_back(s.coord(3));
    int iterations = s.range(0, 4);
    p.waits.clear();
    for (int k = 0; k < iterations; ++k) p.waits.push_back(s.choose(2) ? 17'000'000 : 9'000'000);
    NOTE("thread " << i << ": " << p.times << " generations, " << iterations << " iterations, " << p.callbacks << " callbacks; ");
  }
  GetCancellationFlag() = 0;
  std::vector<Outcome> alone(n), together(n);
  for (size_t i = 0; i < n; ++i) alone[i] = carryOut(plans[i]);
  std::atomic<size_t> ready{0};
  std::vector<std::thread> threads;
  for (size_t i = 0; i < n; ++i) {
    threads.emplace_back([&, i] {
      ++ready;
      await([&] { return ready == n; });
      together[i] = carryOut(plans[i]);
    });
  }
  for (auto& t : threads) t.join();
  for (size_t i = 0; i < n; ++i) {
    REQUIRE(alone[i].words == together[i].words, "thread " << i << " was told other things than alone");
    REQUIRE(alone[i].values == together[i].values, "thread " << i << " had other values than alone");
  }
}

// ------------------------------------------------------------ C15
PROPERTY("C15", "concurrent-requests", 4000, 80000,
         "1..4 generations on threads of their own, all started before 0..2 other threads (or the "
         "progress callback of one) request cancellation at any moment: an iteration that begins after "
         "a request is told to stop, none is told before one, stopped generations return the "
         "callback-stop error, and ThreadSanitizer finds no race; twice in a row; non-trivial: "
         "several generations were stopped") {
  size_t n = s.size(1, 4), requesters = s.size(0, 2);
  struct Gen {
    SwervePathBuilder builder;
    int iterations = 0, requestAt = -1;
    std::string error;
    bool stopped = false;
  };
  std::vector<Gen> gens(n);
  std::atomic<int> asking{0}, asked{0};
  auto request = [&] {
    ++asking;
    GetCancellationFlag() = 1;
    ++asked;
  };
  thread_local int iteration;
  iteration = -1;
  for (auto& g : gens) {
    Drive d;
    Traj t;
    place(s, g.builder, d, t);
    if (s.chance(0.3)) g.requestAt = s.range(0, 5);
    if (g.requestAt >= 0) {
      g.builder.AddIntermediateCallback([&request, &g](SwerveSolution&, int64_t) {
        if (iteration == g.requestAt) request();
      });
    }
  }
  int rounds = s.range(1, 2), stops = 0;
  for (int round = 0; round < rounds; ++round) {
    std::vector<int> delays;
    for (size_t i = 0; i < requesters; ++i) delays.push_back(s.range(0, 300));
    for (auto& g : gens) g.iterations = s.range(1, 40), g.stopped = false, g.error.clear();
    if (s.chance(0.3)) GetCancellationFlag() = 1;  // too early
    asking = asked = 0;
    std::atomic<size_t> started{0};
    std::atomic<bool> gaveUp{false};
    std::vector<std::thread> threads;
    for (auto& g : gens) {
      threads.emplace_back([&] {
        fakeclock::now = 1'000'000'000;
        SwerveTrajectoryGenerator gen{g.builder};
        sleipnir::model::onSolve = [&](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
          ++started;
          if (!await([&] { return started == n; })) gaveUp = true;
          sleipnir::SolverStatus st;
          for (iteration = 0; iteration < g.iterations; ++iteration) {
            fakeclock::now += 20'000'000;
            bool before = asked > 0;
            bool stop = p.callback({});
            bool possible = asking > 0;
            if (before && !stop) g.error = "an iteration after the request goes on";
            if (stop && !possible) g.error = "stopped without a request";
            if (stop) {
              g.stopped = true;
              st.exitCondition = SolverExitCondition::kCallbackRequestedStop;
              break;
            }
            std::this_thread::yield();
          }
          return st;
        };
        auto r = gen.Generate();
        sleipnir::model::onSolve = nullptr;
        if (g.stopped && (r.has_value() || r.error() != std::string{sleipnir::ToMessage(SolverExitCondition::kCallbackRequestedStop)}))
          g.error = "a stopped generation does not return the callback-stop error";
        if (!g.stopped && !r.has_value()) g.error = "a generation that went on returns " + r.error();
      });
    }
    for (int delay : delays) {
      threads.emplace_back([&, delay] {
        if (!await([&] { return started == n; })) gaveUp = true;
        for (int k = 0; k < delay; ++k) std::this_thread::yield();
        request();
      });
    }
    for (auto& t : threads) t.join();
    REQUIRE(!gaveUp, "a generation never reached the solver");
    for (auto& g : gens) {
      REQUIRE(g.error.empty(), g.error);
      stops += g.stopped;
    }
  }
  GetCancellationFlag() = 0;
  if (stops > 1) s.nontrivial();
  s.label(stops ? "stopped" : "not stopped");
}
