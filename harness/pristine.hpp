// Numbers computed in a process that has run no other case before.
#pragma once

#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstdint>
#include <vector>

#include "pbt.hpp"

namespace pristine {

using Fn = std::vector<double> (*)(pbt::Src&);

inline bool readAll(int fd, void* data, size_t n) {
  auto* p = static_cast<char*>(data);
  while (n) {
    auto k = read(fd, p, n);
    if (k <= 0) return false;
    p += k;
    n -= static_cast<size_t>(k);
  }
  return true;
}
inline bool writeAll(int fd, const void* data, size_t n) {
  auto* p = static_cast<const char*>(data);
  while (n) {
    auto k = write(fd, p, n);
    if (k <= 0) return false;
    p += k;
    n -= static_cast<size_t>(k);
  }
  return true;
}
inline constexpr uint64_t kCrashed = ~uint64_t{0};

/// The process that has run nothing; start() before the first case that does.
class Server {
 public:
  void start() {
    if (m_owner == getpid()) return;  // forked children need one of their own
    int in[2], out[2];
    if (pipe(in) || pipe(out)) throw pbt::Failure{"no pipes"};
    pid_t pid = fork();
    if (pid < 0) throw pbt::Failure{"no process"};
    if (pid == 0) {
      close(in[1]);
      close(out[0]);
      serve(in[0], out[1]);
      _exit(0);
    }
    close(in[0]);
    close(out[1]);
    m_owner = getpid();
    m_to = in[1];
    m_from = out[0];
  }
  /// What the function makes of these choices there.
  std::vector<double> ask(Fn fn, const std::vector<uint64_t>& choices) {
    uint64_t head[2] = {reinterpret_cast<uint64_t>(fn), choices.size()}, n = 0;
    if (!writeAll(m_to, head, sizeof head) || !writeAll(m_to, choices.data(), choices.size() * 8) || !readAll(m_from, &n, 8))
      throw pbt::Failure{"the process that has run nothing is gone"};
    if (n == kCrashed) throw pbt::Failure{"fails in a process of its own"};
    std::vector<double> r(n);
    if (!readAll(m_from, r.data(), n * 8)) throw pbt::Failure{"the process that has run nothing is gone"};
    return r;
  }

 private:
  static void serve(int in, int out) {
    signal(SIGPROF, SIG_DFL);
    for (;;) {
      uint64_t head[2];
      if (!readAll(in, head, sizeof head)) return;
      std::vector<uint64_t> choices(head[1]);
      if (!readAll(in, choices.data(), choices.size() * 8)) return;
      int back[2];
      if (pipe(back)) return;
      pid_t pid = fork();
      if (pid == 0) {
        alarm(60);
        std::vector<double> r;
        try {
          auto s = pbt::Src::replay(std::move(choices), nullptr);
          r = reinterpret_cast<Fn>(head[0])(s);
        } catch (...) {
          _exit(1);
        }
        uint64_t n = r.size();
        writeAll(back[1], &n, 8);
        writeAll(back[1], r.data(), n * 8);
        _exit(0);
      }
      close(back[1]);
      uint64_t n = 0;
      std::vector<double> r;
      bool good = pid > 0 && readAll(back[0], &n, 8) && n < (uint64_t{1} << 32);
      if (good) {
        r.resize(n);
        good = readAll(back[0], r.data(), n * 8);
      }
      close(back[0]);
      if (pid > 0) waitpid(pid, nullptr, 0);
      if (!good) {
        n = kCrashed;
        r.clear();
      }
      if (!writeAll(out, &n, 8) || !writeAll(out, r.data(), r.size() * 8)) return;
    }
  }
  pid_t m_owner = 0;
  int m_to = -1, m_from = -1;
};
inline Server server;

}  // namespace pristine
