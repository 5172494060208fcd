// Driver of the engine: parallel generation, crash capture, shrinking, replay.
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <optional>
#include <unordered_set>

#include "pbt.hpp"

namespace pbt {

std::vector<Sub>& registry() {
  static std::vector<Sub> r;
  return r;
}

namespace {

struct Shared {
  volatile int32_t sub = -1;
  volatile int64_t index = -1;
  Trail trail;
};

enum Code { kPass = 0, kDiscard = 3, kFail = 10, kHang = 77 };

// The real clock, by system call: harnesses may interpose on libstdc++'s.
double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t z = a * 0x9e3779b97f4a7c15ull ^ (b + 0x7f4a7c159e3779b9ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

uint64_t strhash(const char* s) {
  uint64_t h = 1469598103934665603ull;
  for (; *s; ++s) h = (h ^ static_cast<unsigned char>(*s)) * 1099511628211ull;
  return h;
}

void onHang(int) { _exit(kHang); }

void armTimer(double cpuSeconds) {
  itimerval t{};
  t.it_value.tv_sec = static_cast<time_t>(cpuSeconds);
  t.it_value.tv_usec =
      static_cast<suseconds_t>((cpuSeconds - std::floor(cpuSeconds)) * 1e6);
  setitimer(ITIMER_PROF, &t, nullptr);
}

template <typename T>
T* sharedAlloc() {
  void* p = mmap(nullptr, sizeof(T), PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    exit(2);
  }
  return new (p) T;
}

/// Runs one case in this process.
Code runCase(const Sub& sub, Src& s, std::string* msg) {
  try {
    sub.fn(s);
    return kPass;
  } catch (const Failure& f) {
    *msg = f.msg;
    return kFail;
  } catch (const Discard&) {
    return kDiscard;
  } catch (const std::exception& e) {
    *msg = std::string("unexpected exception: ") + e.what();
    return kFail;
  } catch (...) {
    *msg = "unexpected exception of unknown type";
    return kFail;
  }
}

struct Attempt {
  Code code = kPass;
  std::string msg;
  std::vector<uint64_t> choices;
  std::map<std::string, std::string> findings;
  std::string text;
};

Shared* g_attempt = nullptr;

/// Runs one case in a child process, so that crashes are outcomes.
Attempt attempt(const Sub& sub, const std::vector<uint64_t>* choices,
                uint64_t seed, double cpu, bool verbose = false) {
  if (!g_attempt) g_attempt = sharedAlloc<Shared>();
  g_attempt->trail.n = 0;
  char msgPath[] = "/tmp/pbt.XXXXXX";
  int fd = mkstemp(msgPath);
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    signal(SIGPROF, onHang);
    armTimer(cpu);
    int err = open((std::string(msgPath) + ".err").c_str(),
                   O_CREAT | O_WRONLY | O_TRUNC, 0600);
    dup2(err, 2);
    dup2(err, 1);
    Src s = choices ? Src::replay(*choices, &g_attempt->trail)
                    : Src::random(seed, &g_attempt->trail);
    s.verbose = verbose;
    s.out.precision(17);
    if (verbose) s.echo = fopen((std::string(msgPath) + ".notes").c_str(), "w");
    std::string msg;
    Code c = runCase(sub, s, &msg);
    std::string all = "M " + std::to_string(msg.size()) + "\n" + msg;
    for (auto& [id, what] : s.findings()) {
      all += "F " + id + "\t" + what + "\n";
    }
    all += "T\n" + s.out.str();
    [[maybe_unused]] auto r = write(fd, all.data(), all.size());
    _exit(c);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  Attempt a;
  std::string content;
  {
    std::ifstream in(msgPath);
    content.assign(std::istreambuf_iterator<char>(in), {});
  }
  if (!content.empty() && WIFEXITED(st) && (WEXITSTATUS(st) == kPass || WEXITSTATUS(st) == kDiscard ||
                                            WEXITSTATUS(st) == kFail)) {
    a.code = static_cast<Code>(WEXITSTATUS(st));
    size_t nl = content.find('\n');
    if (nl != std::string::npos) {
      size_t len = std::stoul(content.substr(2, nl - 2));
      a.msg = content.substr(nl + 1, len);
      std::istringstream rest(content.substr(nl + 1 + len));
      std::string line;
      while (std::getline(rest, line)) {
        if (line == "T") {
          a.text.assign(std::istreambuf_iterator<char>(rest), {});
          break;
        }
        size_t tab = line.find('\t');
        a.findings[line.substr(2, tab - 2)] = line.substr(tab + 1);
      }
    }
  } else if (WIFEXITED(st) && WEXITSTATUS(st) == kHang) {
    a.code = kHang;
    a.msg = "did not terminate within " + std::to_string(int(cpu)) +
            " s of CPU time";
  } else {
    a.code = kFail;
    if (verbose) {
      std::ifstream notes(std::string(msgPath) + ".notes");
      a.text.assign(std::istreambuf_iterator<char>(notes), {});
    }
    std::ifstream err(std::string(msgPath) + ".err");
    std::string line, picked;
    while (std::getline(err, line)) {
      if (line.find("ERROR:") != std::string::npos ||
          line.find("runtime error:") != std::string::npos ||
          line.find("Assertion") != std::string::npos ||
          line.find("terminate called") != std::string::npos ||
          line.find("WARNING: ThreadSanitizer") != std::string::npos ||
          line.find("SUMMARY:") != std::string::npos ||
          line.find("what():") != std::string::npos) {
        picked += (picked.empty() ? "" : " | ") + line;
        if (picked.size() > 600) break;
      }
    }
    a.msg = "crash (" +
            (WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st))
                             : "exit " + std::to_string(WEXITSTATUS(st))) +
            "): " + picked;
  }
  uint32_t n = g_attempt->trail.n;
  a.choices.assign(g_attempt->trail.v, g_attempt->trail.v + n);
  close(fd);
  unlink(msgPath);
  unlink((std::string(msgPath) + ".err").c_str());
  unlink((std::string(msgPath) + ".notes").c_str());
  return a;
}

bool bad(const Attempt& a) { return a.code == kFail || a.code == kHang; }

/// Deletes and lowers choices while the case still fails.
Attempt shrink(const Sub& sub, Attempt best, double seconds, int* tries) {
  double end = now() + seconds;
  bool hang = best.code == kHang;
  double cpu = hang ? 4 : 20;
  auto improve = [&](const std::vector<uint64_t>& cand) {
    if (now() > end) return false;
    ++*tries;
    Attempt a = attempt(sub, &cand, 0, cpu);
    if (bad(a) && (a.choices.size() < best.choices.size() ||
                   (a.choices.size() == best.choices.size() &&
                    a.choices < best.choices))) {
      best = a;
      return true;
    }
    return false;
  };
  bool progress = true;
  while (progress && now() < end) {
    progress = false;
    for (size_t len = std::max<size_t>(1, best.choices.size() / 2); len >= 1;
         len /= 2) {
      for (size_t i = 0; i + len <= best.choices.size() && now() < end;) {
        auto c = best.choices;
        c.erase(c.begin() + i, c.begin() + i + len);
        if (improve(c)) {
          progress = true;
          continue;
        }
        c = best.choices;
        if (std::any_of(c.begin() + i, c.begin() + i + len,
                        [](uint64_t v) { return v != 0; })) {
          std::fill(c.begin() + i, c.begin() + i + len, 0);
          if (improve(c)) progress = true;
        }
        i += len;
      }
      if (len == 1) break;
    }
    for (size_t i = 0; i < best.choices.size() && now() < end; ++i) {
      uint64_t lo = 0, hi = best.choices[i];
      while (lo < hi && now() < end) {  // least failing value at position i
        uint64_t mid = lo + (hi - lo) / 2;
        auto c = best.choices;
        c[i] = mid;
        size_t before = best.choices.size();
        if (improve(c)) {
          progress = true;
          if (best.choices.size() != before || i >= best.choices.size()) break;
          hi = best.choices[i];
        } else {
          lo = mid + 1;
        }
      }
    }
  }
  return best;
}

std::string jsonEscape(const std::string& s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if (c == '\n') {
      r += "\\n";
    } else if (c < 0x20) {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else {
      r += c;
    }
  }
  return r;
}

struct SubStats {
  int64_t evaluations = 0;
  int64_t discarded = 0;
  int64_t nontrivial = 0;
  std::map<std::string, int64_t> labels;
  std::map<std::string, std::string> findings;
  std::map<std::string, int64_t> findingCount;
  std::unordered_set<uint64_t> hashes;
};

/// A case that fails only after the cases its worker ran before it.
struct History {
  std::vector<std::pair<int, int64_t>> cases;  // (sub, number of cases) of the property
  int64_t worker = 0, jobs = 1;
};

uint64_t caseSeed(uint64_t seed, const Sub& s, int64_t index) {
  return mix(mix(seed, strhash(s.name)), static_cast<uint64_t>(index));
}

/// Runs a worker's cases in one child process up to the last; true if it fails.
bool runHistory(const std::vector<Sub>& subs, const History& h, uint64_t seed,
                std::string* msg) {
  char path[] = "/tmp/pbt.XXXXXX";
  int fd = mkstemp(path);
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    dup2(fd, 1);
    dup2(fd, 2);
    signal(SIGPROF, onHang);
    auto* trail = new Trail;
    for (size_t k = 0; k < h.cases.size(); ++k) {
      auto& sub = subs[h.cases[k].first];
      for (int64_t i = h.worker; i < h.cases[k].second; i += h.jobs) {
        trail->n = 0;
        armTimer(30);
        Src s = Src::random(caseSeed(seed, sub, i), trail);
        std::string m;
        if (runCase(sub, s, &m) == kFail) {
          std::cerr << "ERROR: after " << i / h.jobs << " other cases: " << m << std::endl;
          _exit(kFail);
        }
      }
    }
    _exit(kDiscard);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  std::ifstream in(path);
  std::string line;
  while (std::getline(in, line)) {
    if (line.find("ERROR:") != std::string::npos || line.find("runtime error:") != std::string::npos ||
        line.find("Assertion") != std::string::npos || line.find("terminate called") != std::string::npos ||
        line.find("WARNING: ThreadSanitizer") != std::string::npos || !msg->empty()) {
      if (msg->size() < 600) *msg += (msg->empty() ? "" : " | ") + line;
    }
  }
  close(fd);
  unlink(path);
  return !(WIFEXITED(st) && WEXITSTATUS(st) == kDiscard);
}

void writeReplay(const std::string& path, const Sub& sub, const Attempt& a,
                 uint64_t seed, int attempts = 1, const History* h = nullptr) {
  std::ofstream o(path);
  o << "property " << sub.property << "\nsub " << sub.name << "\nseed " << seed;
  if (attempts > 1) o << "\nattempts " << attempts;
  if (h) {
    o << "\nhistory " << h->worker << ' ' << h->jobs;
    for (auto& c : h->cases) o << ' ' << c.first << ' ' << c.second;
  }
  o << "\nchoices";
  for (uint64_t v : a.choices) o << ' ' << v;
  o << "\nmessage " << a.msg << "\n--- case ---\n" << a.text << "\n";
}

int replay(const std::string& path) {
  std::ifstream in(path);
  std::string line, prop, name;
  std::vector<uint64_t> choices;
  uint64_t seed = 0;
  int attempts = 1;
  std::optional<History> history;
  while (std::getline(in, line)) {
    std::istringstream ls(line);
    std::string key;
    ls >> key;
    if (key == "property") ls >> prop;
    if (key == "sub") ls >> name;
    if (key == "seed") ls >> seed;
    if (key == "attempts") ls >> attempts;
    if (key == "history") {
      history.emplace();
      ls >> history->worker >> history->jobs;
      int k;
      int64_t n;
      while (ls >> k >> n) history->cases.push_back({k, n});
    }
    if (key == "choices") {
      uint64_t v;
      while (ls >> v) choices.push_back(v);
    }
    if (key == "message") break;
  }
  if (history) {
    std::vector<Sub> subs;
    for (auto& sub : registry())
      if (prop == sub.property) subs.push_back(sub);
    if (subs.empty()) return 2;
    for (int r = 0; r < attempts; ++r) {
      std::string msg;
      if (runHistory(subs, *history, seed, &msg)) {
        std::cout << "FAIL: " << msg << "\n";
        return 1;
      }
    }
    std::cout << "pass\n";
    return 0;
  }
  for (auto& sub : registry()) {
    if (prop == sub.property && name == sub.name) {
      Attempt a = attempt(sub, &choices, 0, 60, true);
      for (int r = 1; r < attempts && !bad(a); ++r) a = attempt(sub, &choices, 0, 60, true);
      std::cout << a.text << "\n" << (bad(a) ? "FAIL: " : "pass ") << a.msg << "\n";
      for (auto& [id, what] : a.findings) {
        std::cout << "finding " << id << ": " << what << "\n";
      }
      return bad(a) ? 1 : 0;
    }
  }
  std::cerr << "no such sub-property: " << prop << " " << name << "\n";
  return 2;
}

int mainImpl(int argc, char** argv) {
  std::string prop, tier = "quick", out, replayDir = ".", replayFile, only;
  std::set<std::string> known;
  uint64_t seed = 1;
  int jobs = 8;
  double cap = 600;
  double scale = 1.0;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--prop") prop = v;
    else if (k == "--tier") tier = v;
    else if (k == "--seed") seed = std::stoull(v);
    else if (k == "--out") out = v;
    else if (k == "--replay-dir") replayDir = v;
    else if (k == "--replay") replayFile = v;
    else if (k == "--jobs") jobs = std::stoi(v);
    else if (k == "--cap") cap = std::stod(v);
    else if (k == "--scale") scale = std::stod(v);
    else if (k == "--sub") only = v;
    else if (k == "--known") known.insert(v);
    else {
      std::cerr << "unknown option " << k << "\n";
      return 2;
    }
  }
  if (!replayFile.empty()) return replay(replayFile);

  std::vector<Sub> subs;
  for (auto& s : registry()) {
    if (prop == s.property && (only.empty() || only == s.name)) subs.push_back(s);
  }
  if (subs.empty()) {
    std::cerr << "no sub-property for " << prop << "\n";
    return 2;
  }
  double start = now();
  bool thorough = tier == "thorough";
  auto cases = [&](const Sub& s) {
    return std::max<int64_t>(1, static_cast<int64_t>((thorough ? s.thorough : s.quick) * scale));
  };
  auto caseSeed = [&](const Sub& s, int64_t index) {
    return pbt::caseSeed(seed, s, index);
  };

  std::vector<Shared*> shared(jobs);
  std::vector<pid_t> pids(jobs);
  char dirTemplate[] = "/tmp/pbtrun.XXXXXX";
  std::string dir = mkdtemp(dirTemplate);
  for (int w = 0; w < jobs; ++w) {
    shared[w] = sharedAlloc<Shared>();
    fflush(stdout);
    pids[w] = fork();
    if (pids[w] == 0) {
      signal(SIGPROF, onHang);
      int log = open((dir + "/log" + std::to_string(w)).c_str(),
                     O_CREAT | O_WRONLY | O_TRUNC, 0600);
      dup2(log, 1);
      dup2(log, 2);
      std::ofstream st(dir + "/st" + std::to_string(w));
      for (size_t k = 0; k < subs.size(); ++k) {
        SubStats stats;
        bool failed = false;
        for (int64_t i = w; i < cases(subs[k]); i += jobs) {
          if (now() - start > cap) {
            break;
          }
          shared[w]->sub = static_cast<int32_t>(k);
          shared[w]->index = i;
          shared[w]->trail.n = 0;
          armTimer(30);
          Src s = Src::random(caseSeed(subs[k], i), &shared[w]->trail);
          std::string msg;
          Code c = runCase(subs[k], s, &msg);
          for (auto& [id, what] : s.findings()) {
            if (!known.count(id)) {
              c = kFail;
            }
            stats.findings.emplace(id, what);
            ++stats.findingCount[id];
          }
          if (c == kFail) {
            failed = true;
            break;
          }
          ++stats.evaluations;
          if (c == kDiscard) {
            ++stats.discarded;
            continue;
          }
          for (auto& l : s.labels()) ++stats.labels[l];
          if (s.isNontrivial()) {
            ++stats.nontrivial;
            stats.hashes.insert(s.hash());
          }
        }
        st << "sub " << k << ' ' << stats.evaluations << ' ' << stats.discarded
           << ' ' << stats.nontrivial << "\n";
        for (auto& [l, n] : stats.labels) st << "label " << n << ' ' << l << "\n";
        for (auto& [id, what] : stats.findings)
          st << "finding " << stats.findingCount[id] << ' ' << id << ' ' << what << "\n";
        st << "hashes";
        for (uint64_t h : stats.hashes) st << ' ' << h;
        st << "\n";
        st.flush();
        if (failed) _exit(kFail);
      }
      shared[w]->sub = -1;
      armTimer(0);
      _exit(0);
    }
  }
  struct Hit {
    int sub;
    int64_t index;
    int worker;
  };
  std::vector<Hit> hits;
  int live = jobs;
  while (live > 0) {
    int st = 0;
    pid_t p = waitpid(-1, &st, 0);
    if (p < 0) break;
    int w = static_cast<int>(std::find(pids.begin(), pids.end(), p) - pids.begin());
    if (w >= jobs) continue;
    --live;
    // A worker that ended within a case failed, whatever its exit status.
    bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
    if (shared[w]->sub >= 0) {
      hits.push_back({shared[w]->sub, shared[w]->index, w});
      for (int o = 0; o < jobs; ++o) {
        if (pids[o] != p) kill(pids[o], SIGKILL);
      }
      // The others were ended on purpose; reap them.
      while (waitpid(-1, &st, 0) > 0) {
      }
      break;
    } else if (!ok) {
      std::cerr << "worker ended abnormally outside a case\n";
      return 2;
    }
  }

  // Collect.
  std::vector<SubStats> total(subs.size());
  for (int w = 0; w < jobs; ++w) {
    std::ifstream st(dir + "/st" + std::to_string(w));
    std::string line;
    size_t cur = 0;
    while (std::getline(st, line)) {
      std::istringstream ls(line);
      std::string key;
      ls >> key;
      if (key == "sub") {
        int64_t e, d, n;
        ls >> cur >> e >> d >> n;
        total[cur].evaluations += e;
        total[cur].discarded += d;
        total[cur].nontrivial += n;
      } else if (key == "label") {
        int64_t n;
        std::string l;
        ls >> n;
        std::getline(ls, l);
        total[cur].labels[l.substr(1)] += n;
      } else if (key == "finding") {
        int64_t n;
        std::string id, what;
        ls >> n >> id;
        std::getline(ls, what);
        total[cur].findings.emplace(id, what.substr(1));
        total[cur].findingCount[id] += n;
      } else if (key == "hashes") {
        uint64_t h;
        while (ls >> h) total[cur].hashes.insert(h);
      }
    }
  }
  for (int w = 0; w < jobs; ++w) {
    unlink((dir + "/st" + std::to_string(w)).c_str());
    unlink((dir + "/log" + std::to_string(w)).c_str());
  }
  rmdir(dir.c_str());

  // Verdict.
  std::string violation, violationMsg, violationSub;
  bool unstable = false, lost = false;
  int shrinkTries = 0;
  for (auto& h : hits) {
    const Sub& sub = subs[h.sub];
    auto judge = [&](Attempt& a) {
      if (!bad(a)) {
        for (auto& [id, what] : a.findings) {
          if (!known.count(id)) {
            a.code = kFail;
            a.msg = "finding " + id + " (not listed): " + what;
          }
        }
      }
      return bad(a);
    };
    mkdir(replayDir.c_str(), 0755);
    violation = replayDir + "/" + prop + "-" + sub.name + ".replay";
    violationSub = sub.name;
    int fresh = 0;
    Attempt first;
    bool isFinding = false;
    for (int r = 0; r < 10 && fresh < (r < 3 ? 3 : 1); ++r) {
      Attempt a = attempt(sub, nullptr, caseSeed(sub, h.index), 30);
      bool f = !bad(a);
      if (judge(a)) {
        if (!fresh++) {
          first = a;
          isFinding = f;
        }
      }
    }
    if (fresh >= 3) {
      Attempt best = first;
      if (!isFinding) {
        best = shrink(sub, first, first.code == kHang ? 30 : 25, &shrinkTries);
      }
      int repro = 0;
      auto confirm = [&] {
        repro = 0;
        for (int r = 0; r < 3; ++r) {
          Attempt a = attempt(sub, &best.choices, 0, best.code == kHang ? 10 : 60, true);
          if (judge(a)) {
            ++repro;
            best.text = a.text;
            best.msg = a.msg;
          }
        }
      };
      confirm();
      if (repro < 3) {
        best = first;
        confirm();
      }
      writeReplay(violation, sub, best, seed);
      violationMsg = best.msg;
      break;
    }
    unstable = true;
    if (fresh > 0) {
      // Depends on timing: report it as found, unshrunk.
      writeReplay(violation, sub, first, seed, 30);
      violationMsg = first.msg + " (in some runs of the case only)";
      break;
    }
    // Perhaps it depends on the cases before it.
    History past{{}, h.worker, jobs};
    for (int k = 0; k < h.sub; ++k) past.cases.push_back({k, cases(subs[k])});
    past.cases.push_back({h.sub, h.index + 1});
    for (int r = 0; r < 3 && violationMsg.empty(); ++r) {
      std::string m;
      if (runHistory(subs, past, seed, &m)) violationMsg = m.empty() ? "failure" : m;
    }
    if (!violationMsg.empty()) {
      first.text = "worker " + std::to_string(h.worker) + " of " + std::to_string(jobs) +
                   ", after the cases before it in the same process";
      first.msg = violationMsg;
      if (past.cases.size() > 1) {
        // Shorter: this sub-property alone.
        History own{{past.cases.back()}, h.worker, jobs};
        std::string m;
        if (runHistory(subs, own, seed, &m)) past = own;
      }
      writeReplay(violation, sub, first, seed, 3, &past);
      break;
    }
    violation.clear();
    std::cerr << "unstable: " << sub.name << " case " << h.index
              << " failed once and did not reproduce\n";
    lost = true;
  }

  // Samples: re-run a few non-trivial cases and keep their description.
  std::string samples;
  int nSamples = 0;
  for (auto& sub : subs) {
    int got = 0;
    for (int64_t i = 0; i < std::min<int64_t>(cases(sub), 40) && got < 2 && nSamples < 24; ++i) {
      Attempt a = attempt(sub, nullptr, caseSeed(sub, i), 30, true);
      if (a.code == kPass && a.text.size() > 3) {
        if (a.text.size() > 1500) a.text = a.text.substr(0, 1500) + "...";
        samples += (nSamples ? ",\n    " : "") + std::string("\"") + sub.name +
                   ": " + jsonEscape(a.text) + "\"";
        ++got;
        ++nSamples;
      }
    }
  }

  std::ofstream o(out.empty() ? "/dev/stdout" : out);
  int64_t ev = 0, dn = 0, dis = 0;
  std::string subJson, findJson;
  std::set<std::string> seenFindings;
  for (size_t k = 0; k < subs.size(); ++k) {
    auto& t = total[k];
    ev += t.evaluations;
    dn += static_cast<int64_t>(t.hashes.size());
    dis += t.discarded;
    subJson += (k ? ",\n    " : "") + std::string("{\"name\": \"") + subs[k].name +
               "\", \"rule\": \"" + jsonEscape(subs[k].rule) +
               "\", \"planned\": " + std::to_string(cases(subs[k])) +
               ", \"evaluations\": " + std::to_string(t.evaluations) +
               ", \"discarded\": " + std::to_string(t.discarded) +
               ", \"distinct_nontrivial\": " + std::to_string(t.hashes.size()) +
               ", \"labels\": {";
    bool f = true;
    for (auto& [l, n] : t.labels) {
      subJson += (f ? "" : ", ") + std::string("\"") + jsonEscape(l) + "\": " + std::to_string(n);
      f = false;
    }
    subJson += "}}";
    for (auto& [id, what] : t.findings) {
      if (!seenFindings.insert(id).second) continue;
      findJson += (findJson.empty() ? "" : ",\n    ") + std::string("{\"id\": \"") +
                  jsonEscape(id) + "\", \"what\": \"" + jsonEscape(what) +
                  "\", \"cases\": " + std::to_string(t.findingCount[id]) + "}";
    }
  }
  o << "{\n  \"evaluations\": " << ev << ",\n  \"distinct_nontrivial\": " << dn
    << ",\n  \"discarded\": " << dis << ",\n  \"subs\": [\n    " << subJson
    << "],\n  \"findings\": [" << findJson << "],\n  \"samples\": [\n    "
    << samples << "],\n  \"unstable\": " << (unstable ? "true" : "false")
    << ",\n  \"capped\": " << (now() - start > cap ? "true" : "false")
    << ",\n  \"shrink_tries\": " << shrinkTries
    << ",\n  \"wall_s\": " << now() - start << ",\n  \"violation\": "
    << (violation.empty() ? std::string("null")
                          : "{\"sub\": \"" + violationSub + "\", \"replay\": \"" +
                                jsonEscape(violation) + "\", \"message\": \"" +
                                jsonEscape(violationMsg) + "\"}")
    << "\n}\n";
  // A failure that never came back is no answer.
  return !violation.empty() ? 1 : lost ? 2 : 0;
}

}  // namespace
}  // namespace pbt

int main(int argc, char** argv) { return pbt::mainImpl(argc, argv); }
