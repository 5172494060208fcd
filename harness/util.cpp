// C17 (solution -> trajectory), C20 (indexing and interpolation), C15 (the flag).
#include <stddef.h>

#include <limits>
#include <thread>

#include "pbt.hpp"
#include "trajopt/solution/SwerveSolution.hpp"
#include "trajopt/trajectory/HolonomicTrajectory.hpp"
#include "trajopt/trajectory/HolonomicTrajectorySample.hpp"
#include "trajopt/util/Cancellation.hpp"
#include "trajopt/util/TrajoptUtil.hpp"

using namespace trajopt;
using pbt::near;

static constexpr double kPi = 3.14159265358979323846;

// ---------------------------------------------------------------- C20
static std::vector<size_t> counts(pbt::Src& s, size_t maxLen, size_t maxCount) {
  std::vector<size_t> N(s.size(0, maxLen));
  for (auto& n : N) n = s.size(0, maxCount);
  return N;
}

PROPERTY("C20", "index-formula", 600000, 20000000,
         "random interval counts (0..8 segments, counts up to 2^40), any waypoint and "
         "offset, and once more after a count was changed; non-trivial: at least two segments before the waypoint") {
  size_t maxCount = std::vector<size_t>{5, 100, size_t{1} << 33, size_t{1} << 40}[s.choose(4)];
  auto N = counts(s, s.chance(0.01) ? 400 : 8, maxCount);
  size_t wpt = s.size(0, N.size() + 1);
  size_t samp = wpt == 0 ? 0 : s.size(0, 200);
  NOTE("N=" << pbt::show(N) << " wpt=" << wpt << " samp=" << samp);
  size_t expect = wpt == 0 ? 0 : 1 + samp;
  for (size_t i = 0; i + 1 < wpt; ++i) expect += N[i];
  auto copy = N;
  size_t got = GetIndex(N, wpt, samp);
  if (wpt >= 3) s.nontrivial();
  REQUIRE(got == expect, "GetIndex gave " << got << ", expected " << expect);
  if (samp == 0) {
    REQUIRE(GetIndex(N, wpt) == expect, "default offset is not 0");
  }
  REQUIRE(N == copy, "counts changed");
  if (!N.empty() && s.choose(2)) {  // other counts in the same place
    size_t at = s.choose(N.size());
    if (s.choose(2)) std::swap(N[at], N[0]);
    else N[at] = s.size(0, maxCount);
    expect = wpt == 0 ? 0 : 1 + samp;
    for (size_t i = 0; i + 1 < wpt; ++i) expect += N[i];
    got = GetIndex(N, wpt, samp);
    REQUIRE(got == expect, "GetIndex gave " << got << " after count " << at << " was changed to " << N[at] << ", expected " << expect);
  }
}

PROPERTY("C20", "index-consecutive", 150000, 3000000,
         "all (waypoint, offset) pairs of a random path in order number the samples "
         "0,1,2,...; non-trivial: at least three segments of different length") {
  auto N = s.chance(0.005) ? counts(s, 60, 300) : counts(s, 10, 12);
  NOTE("N=" << pbt::show(N));
  std::set<size_t> distinct(N.begin(), N.end());
  if (N.size() >= 3 && distinct.size() > 1) s.nontrivial();
  size_t next = 1;
  REQUIRE(GetIndex(N, 0, 0) == 0, "first waypoint is not sample 0");
  for (size_t w = 1; w <= N.size(); ++w) {
    for (size_t k = 0; k < N[w - 1]; ++k) {
      size_t got = GetIndex(N, w, k);
      REQUIRE(got == next, "sample " << k << " of segment " << w - 1 << " has index " << got
                                     << ", expected " << next);
      ++next;
    }
  }
  REQUIRE(GetIndex(N, N.size() + 1, 0) == next, "total number of samples is wrong");
}

static size_t spacingCount(pbt::Src& s) {
  switch (s.weighted({6, 3, 1})) {
    case 0: return s.size(0, 12);
    case 1: return s.size(0, 300);
    default: return s.size(0, s.chance(0.03) ? 70000 : 20000);
  }
}

static void equalSteps(const std::vector<double>& r, double a, double total, size_t n,
                       double tol) {
  REQUIRE(r.size() == n, "got " << r.size() << " values, expected " << n);
  for (size_t i = 0; i < n; ++i) {
    double expect = static_cast<double>(
        static_cast<long double>(a) +
        static_cast<long double>(total) * static_cast<long double>(i + 1) / n);
    REQUIRE(std::fabs(r[i] - expect) <= tol,
            "value " << i << " of " << n << " is " << r[i] << ", expected " << expect);
  }
}

static double endpoint(pbt::Src& s) {
  double scale = std::vector<double>{1, 20, 1e-6, 1e6, 1e12}[s.choose(5)];
  return s.coord(scale);
}

PROPERTY("C20", "linspace", 200000, 4000000,
         "random end points (1e-6..1e12) and 0..20000 values; non-trivial: at least two "
         "values and distinct end points") {
  double a = endpoint(s), b = endpoint(s);
  if (s.chance(0.05)) b = a;
  size_t n = spacingCount(s);
  NOTE("Linspace(" << a << ", " << b << ", " << n << ")");
  if (n >= 2 && a != b) s.nontrivial();
  if (n == 0) s.label("zero values");
  auto r = Linspace(a, b, n);
  equalSteps(r, a, b - a, n, 1e-9 * (std::fabs(a) + std::fabs(b)));
  if (n > 0) {
    REQUIRE(std::fabs(r.back() - b) <= 1e-9 * (std::fabs(a) + std::fabs(b)),
            "does not end at the end");
  }
}

static double angle(pbt::Src& s) {
  switch (s.weighted({3, 3, 3, 1, 1})) {
    case 0: return s.coord(kPi);
    case 1: return static_cast<double>(s.range(-16, 16)) * kPi / 4;
    case 2: return s.coord(4 * kPi);
    case 3: return s.coord(1000);
    default: {  // just beside a multiple of pi
      double k = static_cast<double>(s.range(-6, 6)) * kPi;
      return k + s.sgn() * std::pow(10.0, -s.range(3, 14));
    }
  }
}

PROPERTY("C20", "angle-linspace", 300000, 6000000,
         "random angles, many at or beside multiples of pi/4 and far outside (-pi, pi], "
         "0..20000 values; non-trivial: at least two values and end points that differ by "
         "more than pi before wrapping") {
  double a = angle(s), b = angle(s);
  size_t n = spacingCount(s);
  NOTE("AngleLinspace(" << a << ", " << b << ", " << n << ")");
  if (n >= 2 && std::fabs(b - a) > kPi) s.nontrivial();
  double shortest = std::remainder(b - a, 2 * kPi);
  double tol = 1e-9 + 1e-12 * (std::fabs(a) + std::fabs(b));
  auto r = AngleLinspace(a, b, n);
  REQUIRE(r.size() == n, "got " << r.size() << " values, expected " << n);
  if (n == 0) return;
  double total = r.back() - a;
  REQUIRE(std::fabs(std::remainder(r.back() - b, 2 * kPi)) <= tol,
          "ends at " << r.back() << ", not at the end angle modulo a full turn");
  REQUIRE(std::fabs(total) <= kPi + tol, "turns by " << total << ", not the shorter way");
  if (std::fabs(shortest) < kPi - 10 * tol) {
    REQUIRE(std::fabs(total - shortest) <= tol,
            "turns by " << total << " instead of " << shortest);
  } else {
    s.label("half turn");
  }
  equalSteps(r, a, total, n, tol);
}

// ---------------------------------------------------------------- C17
static double anyValue(pbt::Src& s) {
  switch (s.weighted({4, 4, 2, 1})) {
    case 0: return s.coord(10);
    case 1: return s.coord(1e3);
    case 2: return s.coord(1e-6);
    default: {
      static const std::vector<double> special{
          -0.0, 1e300, -1e300, 5e-324, 1.0 / 3.0, 123456789.123456789,
          std::numeric_limits<double>::infinity(),
          std::numeric_limits<double>::quiet_NaN()};
      return s.pick(special);
    }
  }
}

static bool same(double a, double b) {
  return a == b || (std::isnan(a) && std::isnan(b));
}

static bool sameList(const std::vector<double>& a, const std::vector<double>& b) {
  bool r = a.size() == b.size();
  for (size_t i = 0; r && i < a.size(); ++i) r = same(a[i], b[i]);
  return r;
}

static SwerveSolution solution(pbt::Src& s, size_t n, size_t modules, bool extraDt) {
  SwerveSolution sol;
  double unit = s.chance(0.2) ? s.pick(std::vector<double>{1e-3, 1e-6, 1e-9, 1e2, 1e5}) : 1;
  bool ragged = s.chance(0.1);  // not the same number of modules everywhere
  for (size_t i = 0; i < n; ++i) {
    if (i > 0 || extraDt) {
      sol.dt.push_back(s.chance(0.1) ? 0.0 : unit * s.real(1e-4, 2.0));
    }
    sol.x.push_back(anyValue(s));
    sol.y.push_back(anyValue(s));
    double a = s.chance(0.15) ? s.range(-4, 4) * kPi / 4 : s.coord(kPi);
    double m = s.chance(0.8) ? 1.0 : s.real(0.1, 3.0);
    sol.thetacos.push_back(m * std::cos(a));
    sol.thetasin.push_back(m * std::sin(a));
    sol.vx.push_back(anyValue(s));
    sol.vy.push_back(anyValue(s));
    sol.omega.push_back(anyValue(s));
    sol.ax.push_back(anyValue(s));
    sol.ay.push_back(anyValue(s));
    sol.alpha.push_back(anyValue(s));
    auto& fx = sol.moduleFX.emplace_back();
    auto& fy = sol.moduleFY.emplace_back();
    size_t count = ragged ? s.size(0, modules) : modules;
    for (size_t k = 0; k < count; ++k) {
      fx.push_back(anyValue(s));
      fy.push_back(anyValue(s));
    }
  }
  return sol;
}

static void checkTrajectory(const HolonomicTrajectory& t, const SwerveSolution& sol) {
  size_t n = sol.x.size();
  REQUIRE(t.samples.size() == n, t.samples.size() << " samples from " << n << " states");
  long double time = 0, span = 0;
  for (size_t i = 0; i < n; ++i) {
    auto& p = t.samples[i];
    if (i > 0) {
      time += sol.dt[i - 1];
      span += std::fabs(sol.dt[i - 1]);
    }
    REQUIRE(std::fabs(p.timestamp - static_cast<double>(time)) <= 1e-11 * (double)span,
            "sample " << i << " has timestamp " << p.timestamp << ", expected " << (double)time);
    REQUIRE(same(p.x, sol.x[i]), "x of sample " << i << " is " << p.x << " not " << sol.x[i]);
    REQUIRE(same(p.y, sol.y[i]), "y of sample " << i << " is " << p.y << " not " << sol.y[i]);
    REQUIRE(same(p.velocityX, sol.vx[i]), "velocityX of sample " << i << " is " << p.velocityX);
    REQUIRE(same(p.velocityY, sol.vy[i]), "velocityY of sample " << i << " is " << p.velocityY);
    REQUIRE(same(p.angularVelocity, sol.omega[i]),
            "angularVelocity of sample " << i << " is " << p.angularVelocity);
    double h = std::atan2(sol.thetasin[i], sol.thetacos[i]);
    REQUIRE(std::fabs(std::remainder(p.heading - h, 2 * kPi)) <= 1e-12 &&
                std::fabs(p.heading) <= kPi + 1e-12,
            "heading of sample " << i << " is " << p.heading << " not " << h);
    REQUIRE(p.moduleForcesX.size() == sol.moduleFX[i].size() &&
                p.moduleForcesY.size() == sol.moduleFY[i].size(),
            "wrong number of module forces at sample " << i);
    for (size_t k = 0; k < sol.moduleFX[i].size(); ++k) {
      REQUIRE(same(p.moduleForcesX[k], sol.moduleFX[i][k]) &&
                  same(p.moduleForcesY[k], sol.moduleFY[i][k]),
              "force of module " << k << " at sample " << i << " differs");
    }
  }
}

static bool equalSolutions(const SwerveSolution& a, const SwerveSolution& b) {
  auto lists = [&](const std::vector<std::vector<double>>& a, const std::vector<std::vector<double>>& b) {
    bool r = a.size() == b.size();
    for (size_t i = 0; r && i < a.size(); ++i) r = sameList(a[i], b[i]);
    return r;
  };
  return sameList(a.dt, b.dt) && sameList(a.x, b.x) && sameList(a.y, b.y) && sameList(a.thetacos, b.thetacos) && sameList(a.thetasin, b.thetasin) &&
         sameList(a.vx, b.vx) && sameList(a.vy, b.vy) && sameList(a.omega, b.omega) && sameList(a.ax, b.ax) && sameList(a.ay, b.ay) &&
         sameList(a.alpha, b.alpha) && lists(a.moduleFX, b.moduleFX) && lists(a.moduleFY, b.moduleFY);
}

PROPERTY("C17", "convert-solution", 60000, 2000000,
         "random solutions: 0..60 samples (now and then thousands), 0..8 modules, steps 0..2 s varying per sample (or of another unit), "
         "non-unit headings; non-trivial: at least three samples with differing steps and "
         "at least one module") {
  size_t n = s.chance(0.3) ? s.size(0, 3) : s.chance(0.005) ? s.size(61, 3000) : s.size(0, 60);
  size_t modules = s.chance(0.01) && n < 100 ? s.size(9, 70) : s.size(0, 8);
  auto sol = solution(s, n, modules, s.chance(0.3));
  NOTE("samples=" << n << " modules=" << modules << " dt=" << pbt::show(sol.dt)
                  << " x=" << pbt::show(sol.x));
  if (n >= 3 && modules > 0 &&
      std::set<double>(sol.dt.begin(), sol.dt.end()).size() > 1) {
    s.nontrivial();
  }
  auto before = sol;
  HolonomicTrajectory t{sol};
  REQUIRE(equalSolutions(sol, before), "the conversion changed the solution");
  checkTrajectory(t, sol);
  // The trajectory holds its own data.
  HolonomicTrajectory copy = t;
  for (auto& v : sol.x) v = 77;
  for (auto& v : sol.moduleFX) v.assign(v.size(), 77);
  checkTrajectory(t, before);
  for (auto& p : t.samples) {
    p.timestamp = -1;
    p.moduleForcesX.clear();
  }
  checkTrajectory(copy, before);
  HolonomicTrajectory moved = std::move(copy);
  checkTrajectory(moved, before);
  HolonomicTrajectory assigned;
  REQUIRE(assigned.samples.empty(), "a default trajectory has samples");
  assigned = moved;
  checkTrajectory(assigned, before);
}

PROPERTY("C17", "hand-built", 150000, 3000000,
         "samples and trajectories built field by field, with and without forces; "
         "non-trivial: at least one module force and all fields different") {
  std::vector<double> v;
  for (int i = 0; i < 7; ++i) v.push_back(anyValue(s));
  std::vector<double> fx(s.size(0, 6)), fy(fx.size());
  for (auto& f : fx) f = anyValue(s);
  for (auto& f : fy) f = anyValue(s);
  NOTE("values=" << pbt::show(v) << " fx=" << pbt::show(fx) << " fy=" << pbt::show(fy));
  if (!fx.empty() && std::set<double>(v.begin(), v.end()).size() == 7) s.nontrivial();
  auto check = [&](const HolonomicTrajectorySample& p, bool forces, const char* what) {
    REQUIRE(same(p.timestamp, v[0]) && same(p.x, v[1]) && same(p.y, v[2]) &&
                same(p.heading, v[3]) && same(p.velocityX, v[4]) && same(p.velocityY, v[5]) &&
                same(p.angularVelocity, v[6]),
            what << " changed a value");
    REQUIRE(sameList(p.moduleForcesX, forces ? fx : std::vector<double>{}) &&
                sameList(p.moduleForcesY, forces ? fy : std::vector<double>{}),
            what << " changed the forces");
  };
  HolonomicTrajectorySample plain{v[0], v[1], v[2], v[3], v[4], v[5], v[6]};
  check(plain, false, "sample");
  HolonomicTrajectorySample full{v[0], v[1], v[2], v[3], v[4], v[5], v[6], fx, fy};
  check(full, true, "sample with forces");
  HolonomicTrajectorySample none;
  REQUIRE(none.timestamp == 0 && none.x == 0 && none.y == 0 && none.heading == 0 &&
              none.velocityX == 0 && none.velocityY == 0 && none.angularVelocity == 0 &&
              none.moduleForcesX.empty() && none.moduleForcesY.empty(),
          "a default sample is not zero");
  std::vector<HolonomicTrajectorySample> list;
  size_t n = s.size(0, 5);
  std::vector<bool> forces;
  for (size_t i = 0; i < n; ++i) {
    forces.push_back(s.choose(2));
    list.push_back(forces.back() ? full : plain);
  }
  HolonomicTrajectory t{list};
  REQUIRE(t.samples.size() == n, "trajectory has " << t.samples.size() << " of " << n);
  for (size_t i = 0; i < n; ++i) check(t.samples[i], forces[i], "trajectory from samples");
  if (n > 0) {
    list[0].x = 4321;
    check(t.samples[0], forces[0], "changing the list afterwards");
  }
}

// ---------------------------------------------------------------- C15
static const int kInitialFlag = GetCancellationFlag().load();

PROPERTY("C15", "flag-history", 20000, 300000,
         "random sequences of writes and reads of the cancellation flag from this and other "
         "threads against one integer; non-trivial: a write on one thread read on another") {
  REQUIRE(kInitialFlag == 0, "the flag is set before anybody asked");
  auto* home = &GetCancellationFlag();
  GetCancellationFlag() = 0;
  int model = 0, lastWriter = -1;
  size_t steps = s.size(1, 12);
  for (size_t i = 0; i < steps; ++i) {
    int thread = s.range(0, 2);
    int op = s.range(0, 3);
    int value = s.range(0, 3);
    NOTE("t" << thread << (op == 0 ? " store " : op == 1 ? " read " : op == 2 ? " add " : " xchg ")
             << value << "; ");
    int seen = 0, old = 0;
    std::atomic<int>* where = nullptr;
    auto body = [&] {
      auto& flag = GetCancellationFlag();
      where = &flag;
      old = flag.load();
      if (op == 0) flag = value;
      if (op == 2) flag += value;
      if (op == 3) flag.exchange(value);
      seen = GetCancellationFlag().load();
    };
    if (thread == 0) body();
    else std::thread(body).join();
    if (lastWriter >= 0 && lastWriter != thread) s.nontrivial();
    REQUIRE(where == home, "two different flags in one process");
    REQUIRE(old == model, "flag is " << old << ", last value given was " << model);
    if (op == 0 || op == 3) model = value;
    if (op == 2) model += value;
    if (op != 1) lastWriter = thread;
    REQUIRE(seen == model, "flag reads " << seen << " after it was given " << model);
  }
  GetCancellationFlag() = 0;
}
