// libFuzzer driver: the same properties, bytes decoded into draws.  The first
// byte selects the sub-property; PBT_PROP selects the property.
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

#include <cstdlib>
#include <fstream>
#include <iostream>

#include "pbt.hpp"

namespace pbt {
std::vector<Sub>& registry() {
  static std::vector<Sub> r;
  return r;
}
}  // namespace pbt

extern "C" int LLVMFuzzerInitialize(int*, char***) {
  pbt::realClock = true;
  return 0;
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  static std::vector<pbt::Sub> subs = [] {
    std::vector<pbt::Sub> r;
    const char* p = std::getenv("PBT_PROP");
    for (auto& s : pbt::registry()) {
      if (p && std::string(p) == s.property) r.push_back(s);
    }
    if (r.empty()) {
      std::cerr << "no sub-property\n";
      std::_Exit(2);
    }
    return r;
  }();
  static std::set<std::string> known = [] {
    std::set<std::string> k;
    std::istringstream in(std::getenv("PBT_KNOWN") ? std::getenv("PBT_KNOWN") : "");
    std::string id;
    while (in >> id) k.insert(id);
    return k;
  }();
  if (size < 1) return 0;
  auto& sub = subs[data[0] % subs.size()];
  // For a case that ends the process: its draws, left in a file.
  static pbt::Trail* trail = []() -> pbt::Trail* {
    const char* path = std::getenv("PBT_TRAIL");
    int fd = path ? open(path, O_RDWR | O_CREAT, 0600) : -1;
    if (fd < 0 || ftruncate(fd, sizeof(pbt::Trail)) != 0) return nullptr;
    void* m = mmap(nullptr, sizeof(pbt::Trail), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    return m == MAP_FAILED ? nullptr : static_cast<pbt::Trail*>(m);
  }();
  if (trail) {
    std::ofstream(std::string(std::getenv("PBT_TRAIL")) + ".sub") << sub.name << "\n";
    trail->n = 0;
  }
  pbt::Src s = pbt::Src::bytes(data + 1, size - 1, trail);
  std::string msg;
  bool failed = false;
  struct Case {  // libFuzzer itself needs the time that passes
    Case() { pbt::realClock = false; }
    ~Case() { pbt::realClock = true; }
  };
  try {
    Case inside;
    sub.fn(s);
    for (auto& [id, what] : s.findings()) {
      if (!known.count(id)) {
        failed = true;
        msg = "finding " + id + " (not listed): " + what;
      }
    }
  } catch (const pbt::Failure& f) {
    failed = true;
    msg = f.msg;
  } catch (const pbt::Discard&) {
  } catch (const std::exception& e) {
    failed = true;
    msg = std::string("unexpected exception: ") + e.what();
  }
  if (failed) {
    const char* path = std::getenv("PBT_FUZZ_REPLAY");
    if (path) {
      std::ofstream o(path);
      o << "property " << sub.property << "\nsub " << sub.name
        << "\nseed 0\nchoices";
      for (uint64_t v : s.choices()) o << ' ' << v;
      o << "\nmessage " << msg << "\n";
    }
    std::cerr << "PBT FAILURE " << sub.name << ": " << msg << "\n";
    std::abort();
  }
  return 0;
}
