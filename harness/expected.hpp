// C22: trajopt::expected against std::expected, operation by operation.
#pragma once

#include <sys/wait.h>
#include <unistd.h>

#include <array>
#include <exception>
#include <expected>
#include <memory>
#include <optional>
#include <string>
#include <unordered_set>
#include <vector>

#include "pbt.hpp"
#include "trajopt/util/expected"

namespace exph {

struct Boom {};

/// Every tracked object alive, and the first misuse of one.
struct Registry {
  std::unordered_set<const void*> live;
  std::string error;
  void bad(const char* what) {
    if (error.empty()) error = what;
  }
  void born(const void* p) {
    if (!live.insert(p).second) bad("object constructed over a living one");
  }
  void died(const void* p) {
    if (!live.erase(p)) bad("object destroyed that is not alive");
  }
  void used(const void* p) {
    if (!live.count(p)) bad("access to an object that is not alive");
  }
};
inline Registry& reg() {
  static Registry r;
  return r;
}

enum : unsigned {
  kCopyNx = 1, kMoveNx = 2, kCopyAsgNx = 4, kMoveAsgNx = 8,
  kIntNx = 16, kCopyable = 32, kDefault = 64,
  kAllNx = 1 | 2 | 4 | 8 | 16,
};

/// A value that knows whether it is alive and throws when armed and copied or
/// moved by an operation that may throw.
template <int Tag, unsigned F>
struct Tr {
  static constexpr unsigned flags = F;
  int v = 0;
  bool armed = false;

  Tr() requires((F & kDefault) != 0) { reg().born(this); }
  Tr(int x) noexcept((F & kIntNx) != 0) : v{x} {  // NOLINT
    if constexpr (!(F & kIntNx)) {
      if (x >= 1000) throw Boom{};
    }
    reg().born(this);
  }
  Tr(std::initializer_list<int> il, int extra) noexcept((F & kIntNx) != 0) : v{extra} {
    for (int x : il) v += x;
    if constexpr (!(F & kIntNx)) {
      if (v >= 1000) throw Boom{};
    }
    reg().born(this);
  }
  Tr(const Tr& o) noexcept((F & kCopyNx) != 0) requires((F & kCopyable) != 0) : v{o.v} {
    reg().used(&o);
    if constexpr (!(F & kCopyNx)) {
      if (o.armed) throw Boom{};
    }
    reg().born(this);
  }
  Tr(Tr&& o) noexcept((F & kMoveNx) != 0) : v{o.v} {
    reg().used(&o);
    if constexpr (!(F & kMoveNx)) {
      if (o.armed) throw Boom{};
    }
    armed = o.armed;
    o.armed = false;
    o.v = -1;
    reg().born(this);
  }
  Tr& operator=(const Tr& o) noexcept((F & kCopyAsgNx) != 0) requires((F & kCopyable) != 0) {
    reg().used(this);
    reg().used(&o);
    if constexpr (!(F & kCopyAsgNx)) {
      if (o.armed) throw Boom{};
    }
    v = o.v;
    if (this != &o) armed = false;
    return *this;
  }
  Tr& operator=(Tr&& o) noexcept((F & kMoveAsgNx) != 0) {
    reg().used(this);
    reg().used(&o);
    if constexpr (!(F & kMoveAsgNx)) {
      if (o.armed) throw Boom{};
    }
    if (this != &o) {
      v = o.v;
      armed = o.armed;
      o.v = -1;
      o.armed = false;
    }
    return *this;
  }
  ~Tr() { reg().died(this); }
  friend bool operator==(const Tr& a, const Tr& b) {
    reg().used(&a);
    reg().used(&b);
    return a.v == b.v;
  }
  friend bool operator!=(const Tr& a, const Tr& b) { return !(a == b); }
};

template <class T>
struct Kind;
template <int Tag, unsigned F>
struct Kind<Tr<Tag, F>> {
  using X = Tr<Tag, F>;
  static constexpr bool tracked = true;
  static constexpr bool copyNx = F & kCopyNx, moveNx = F & kMoveNx;
  static X make(int k) { return X(k); }
  static std::string show(const X& x) {
    reg().used(&x);
    return std::to_string(x.v) + (x.armed ? "!" : "");
  }
  static void arm(X& x) { x.armed = !x.armed; }
  static bool armed(const X& x) { return x.armed; }
};
template <>
struct Kind<int> {
  static constexpr bool tracked = false, copyNx = true, moveNx = true;
  static int make(int k) { return k; }
  static std::string show(int x) { return std::to_string(x); }
  static void arm(int&) {}
  static bool armed(int) { return false; }
};
template <>
struct Kind<std::string> {
  static constexpr bool tracked = false, copyNx = true, moveNx = true;
  static std::string make(int k) { return std::string(k % 2 ? 3 : 40, static_cast<char>('a' + k % 20)); }
  static std::string show(const std::string& x) { return "\"" + x + "\""; }
  static void arm(std::string&) {}
  static bool armed(const std::string&) { return false; }
};
template <>
struct Kind<std::vector<double>> {
  static constexpr bool tracked = false, copyNx = true, moveNx = true;
  static std::vector<double> make(int k) { return std::vector<double>(k % 4, k); }
  static std::string show(const std::vector<double>& x) { return pbt::show(x); }
  static void arm(std::vector<double>&) {}
  static bool armed(const std::vector<double>&) { return false; }
};

template <class T, class E>
struct TL {
  static constexpr bool tl = true;
  using X = trajopt::expected<T, E>;
  using U = trajopt::unexpected<E>;
  template <class A, class B>
  using Exp = trajopt::expected<A, B>;
  template <class A>
  using Un = trajopt::unexpected<A>;
  using Bad = trajopt::bad_expected_access<E>;
  static constexpr const auto& unexpect = trajopt::unexpect;
  static constexpr const auto& in_place = trajopt::in_place;
};
template <class T, class E>
struct ST {
  static constexpr bool tl = false;
  using X = std::expected<T, E>;
  using U = std::unexpected<E>;
  template <class A, class B>
  using Exp = std::expected<A, B>;
  template <class A>
  using Un = std::unexpected<A>;
  using Bad = std::bad_expected_access<E>;
  static constexpr const auto& unexpect = std::unexpect;
  static constexpr const auto& in_place = std::in_place;
};

template <class X>
std::string showExp(const X& x) {
  using T = typename X::value_type;
  using E = typename X::error_type;
  if (x.has_value()) {
    if constexpr (std::is_void_v<T>) {
      return "value";
    } else {
      return "value " + Kind<T>::show(*x);
    }
  }
  if constexpr (requires { Kind<E>::tracked; }) {
    return "error " + Kind<E>::show(x.error());
  } else {
    return "error";
  }
}

template <class A>
const char* category() {
  if constexpr (std::is_lvalue_reference_v<A>) {
    return std::is_const_v<std::remove_reference_t<A>> ? "const&" : "&";
  } else {
    return std::is_const_v<std::remove_reference_t<A>> ? "const&&" : "&&";
  }
}

/// Calls f with the object as &, const &, && or const &&.
template <class X, class F>
auto as(int how, X& x, F&& f) {
  switch (how) {
    case 0: return f(x);
    case 1: return f(std::as_const(x));
    case 2: return f(std::move(x));
    default: return f(std::move(std::as_const(x)));
  }
}

constexpr int kSlots = 3;

template <class T, class E>
class History {
  using KE = Kind<E>;
  static constexpr bool isVoid = std::is_void_v<T>;
  using V = std::conditional_t<isVoid, int, T>;
  using KV = Kind<V>;
  static constexpr bool copyable =
      (isVoid || std::is_copy_constructible_v<V>) && std::is_copy_constructible_v<E>;
  static constexpr bool eCopyable = std::is_copy_constructible_v<E>;

  template <class L>
  struct Side {
    using Lib = L;
    std::array<std::unique_ptr<typename L::X>, kSlots> x;
  };
  Side<TL<T, E>> t;
  Side<ST<T, E>> q;
  pbt::Src& s;
  std::string log;

  void fail(const std::string& what) { FAIL(what << " after " << log); }

  /// Runs the operation on both sides; outcomes and states must agree.
  template <class F>
  void both(const std::string& name, F&& f) {
    log += (log.empty() ? "" : "; ") + name;
    NOTE(name << "; ");
    std::string a, b;
    try {
      a = f(t);
    } catch (const Boom&) {
      a = "threw";
    }
    if (!reg().error.empty()) fail(reg().error);
    try {
      b = f(q);
    } catch (const Boom&) {
      b = "threw";
    }
    if (a == "threw") s.label("an operation threw");
    if (a != b) fail("'" + a + "' instead of '" + b + "'");
    compare();
  }

  void compare() {
    size_t live = 0;
    for (int i = 0; i < kSlots; ++i) {
      auto a = showExp(*t.x[i]), b = showExp(*q.x[i]);
      if (a != b) fail("slot " + std::to_string(i) + " holds '" + a + "' instead of '" + b + "'");
      if (t.x[i]->has_value()) {
        if constexpr (!isVoid) live += 2 * KV::tracked;
      } else {
        live += 2 * KE::tracked;
      }
    }
    if (!reg().error.empty()) fail(reg().error);
    if (reg().live.size() != live) {
      fail(std::to_string(reg().live.size()) + " objects alive instead of " + std::to_string(live));
    }
  }

  int val() {
    if constexpr (KV::tracked) return s.chance(0.15) ? s.range(1000, 1005) : s.range(1, 9);
    return s.range(1, 9);
  }
  bool armedVal(int i) {
    if constexpr (isVoid) return false;
    else return t.x[i]->has_value() && KV::armed(**t.x[i]);
  }
  bool armedErr(int i) { return !t.x[i]->has_value() && KE::armed(t.x[i]->error()); }
  // Construction from an armed object is judged by throwing-construction.
  bool copyThrows(int i) {
    return (armedVal(i) && !KV::copyNx) || (armedErr(i) && !KE::copyNx);
  }
  bool moveThrows(int i) {
    return (armedVal(i) && !KV::moveNx) || (armedErr(i) && !KE::moveNx);
  }

 public:
  explicit History(pbt::Src& src) : s{src} {}

  void run() {
    reg().live.clear();
    reg().error.clear();
    traits();
    for (int i = 0; i < kSlots; ++i) {
      bool err = s.choose(2);
      int k = s.range(1, 9);
      construct(i, err, k);
    }
    compare();
    int n = s.range(1, 24);
    for (int i = 0; i < n; ++i) step();
    for (int i = 0; i < kSlots; ++i) {
      t.x[i].reset();
      q.x[i].reset();
    }
    if (!reg().error.empty()) fail(reg().error + std::string(" (final destruction)"));
    if (!reg().live.empty()) fail("objects leaked");
    if (n >= 4) s.nontrivial();
  }

 private:
  void construct(int i, bool err, int k) {
    auto f = [&](auto& side) {
      using L = typename std::decay_t<decltype(side)>::Lib;
      if (err) {
        side.x[i].reset(new typename L::X(L::unexpect, KE::make(k)));
      } else if constexpr (isVoid) {
        side.x[i].reset(new typename L::X());
      } else {
        side.x[i].reset(new typename L::X(L::in_place, KV::make(k)));
      }
    };
    f(t);
    f(q);
    log += (log.empty() ? "" : "; ") + std::string(err ? "error " : "value ") + std::to_string(k);
    NOTE((err ? "error " : "value ") << k << "; ");
  }

  void traits() {
    using A = trajopt::expected<T, E>;
    using B = std::expected<T, E>;
#define SAME(trait)                                                              \
  REQUIRE((std::trait<A>::value == std::trait<B>::value), #trait " is " << std::trait<A>::value \
                                                                      << " for expected")
    SAME(is_copy_constructible);
    SAME(is_move_constructible);
    SAME(is_copy_assignable);
    SAME(is_move_assignable);
    SAME(is_default_constructible);
    SAME(is_trivially_destructible);
#undef SAME
    REQUIRE((std::is_convertible_v<trajopt::unexpected<E>, A>), "unexpected does not convert");
    if constexpr (!isVoid) {
      REQUIRE((std::is_convertible_v<T, A>), "value does not convert");
    }
  }

  void step() {
    int i = s.range(0, kSlots - 1), j = s.range(0, kSlots - 1);
    std::string ij = " " + std::to_string(i) + " " + std::to_string(j);
    switch (s.range(0, 15)) {
      case 0:
        if constexpr (copyable) {
          both("copy-assign" + ij, [&](auto& d) {
            auto& r = (*d.x[i] = *d.x[j]);
            return std::string(&r == d.x[i].get() ? "ok" : "not itself");
          });
        }
        break;
      case 1:
        if (i == j) break;  // self-move leaves contents unspecified
        both("move-assign" + ij, [&](auto& d) {
          auto& r = (*d.x[i] = std::move(*d.x[j]));
          return std::string(&r == d.x[i].get() ? "ok" : "not itself");
        });
        break;
      case 2: assignValue(i); break;
      case 3: assignError(i); break;
      case 4: emplace(i); break;
      case 5: swap(i, j); break;
      case 6: copyOrMove(i, j); break;
      case 7: reconstruct(i); break;
      case 8: convert(i); break;
      case 9: access(i); break;
      case 10: valueOr(i); break;
      case 11: compareOps(i, j); break;
      case 12: arm(i); break;
      case 13: mapLike(i); break;
      case 14: errorLike(i); break;
      case 15: andThen(i); break;
    }
  }

  void assignValue(int i) {
    if constexpr (!isVoid) {
      int k = s.range(1, 9);
      int how = s.range(0, 2);
      bool armIt = s.chance(0.2);
      std::string n = " " + std::to_string(i) + " from value " + std::to_string(k) + (armIt ? " (armed)" : "");
      if (how == 0) {
        if constexpr (copyable) {
          both("assign lvalue" + n, [&](auto& d) {
            V v = KV::make(k);
            if (armIt) KV::arm(v);
            *d.x[i] = v;
            return KV::show(v);
          });
        }
      } else if (how == 1) {
        both("assign rvalue" + n, [&](auto& d) {
          V v = KV::make(k);
          if (armIt) KV::arm(v);
          *d.x[i] = std::move(v);
          return std::string("ok");
        });
      } else if constexpr (KV::tracked) {
        int big = val();
        both("assign int " + std::to_string(i) + " " + std::to_string(big), [&](auto& d) {
          *d.x[i] = big;
          return std::string("ok");
        });
      }
    }
  }

  static void armUnexpected(auto& u) {
    if constexpr (requires { u.error(); }) KE::arm(u.error());
    else KE::arm(u.value());
  }
  void assignError(int i) {
    int k = s.range(1, 9);
    bool armIt = s.chance(0.2);
    std::string n = " " + std::to_string(i) + " error " + std::to_string(k);
    if (s.choose(2)) {
      if constexpr (eCopyable) {
        both("assign unexpected lvalue" + n, [&](auto& d) {
          using L = typename std::decay_t<decltype(d)>::Lib;
          typename L::U u(KE::make(k));
          if (armIt) armUnexpected(u);
          *d.x[i] = u;
          return std::string("ok");
        });
      }
    } else {
      both("assign unexpected rvalue" + n, [&](auto& d) {
        using L = typename std::decay_t<decltype(d)>::Lib;
        typename L::U u(KE::make(k));
        if (armIt) armUnexpected(u);
        *d.x[i] = std::move(u);
        return std::string("ok");
      });
    }
  }

  void emplace(int i) {
    if constexpr (!isVoid) {
      int how = s.range(0, 1);
      int k = val();
      if constexpr (KV::tracked) {
        // A value that cannot be moved safely cannot be kept when its
        // replacement throws.
        if (!KV::moveNx && t.x[i]->has_value()) k %= 1000;
        if (how == 0) {
          both("emplace " + std::to_string(i) + " " + std::to_string(k), [&](auto& d) {
            using L = typename std::decay_t<decltype(d)>::Lib;
            if constexpr (L::tl) {
              d.x[i]->emplace(k);
            } else {
              stdEmplace(*d.x[i], [&] { return V(k); });
            }
            return std::string("ok");
          });
        } else {
          both("emplace list " + std::to_string(i) + " " + std::to_string(k), [&](auto& d) {
            using L = typename std::decay_t<decltype(d)>::Lib;
            if constexpr (L::tl) {
              d.x[i]->emplace({1, 2, k}, 4);
            } else {
              stdEmplace(*d.x[i], [&] { return V({1, 2, k}, 4); });
            }
            return std::string("ok");
          });
        }
      } else {
        both("emplace " + std::to_string(i) + " " + std::to_string(k), [&](auto& d) {
          using L = typename std::decay_t<decltype(d)>::Lib;
          if constexpr (L::tl) {
            d.x[i]->emplace(KV::make(k));
          } else {
            stdEmplace(*d.x[i], [&] { return KV::make(k); });
          }
          return std::string("ok");
        });
      }
    }
  }
  // std::expected has no emplace that may throw; this is what it would do.
  template <class X, class F>
  static void stdEmplace(X& x, F&& make) {
    if constexpr (std::is_nothrow_move_constructible_v<V>) {
      V v = make();
      x.emplace(std::move(v));
    } else {
      V v = make();
      if (x.has_value()) {
        std::destroy_at(std::addressof(*x));
        std::construct_at(std::addressof(*x), std::move(v));
      } else {
        x = std::move(v);
      }
    }
  }

  void swap(int i, int j) {
    if (i == j) return;  // std::swap moves an object into itself
    int how = s.range(0, 1);
    if constexpr (requires { t.x[i]->swap(*t.x[j]); } && requires { q.x[i]->swap(*q.x[j]); }) {
      both((how ? "swap " : "adl swap ") + std::to_string(i) + " " + std::to_string(j), [&](auto& d) {
        if (how) {
          d.x[i]->swap(*d.x[j]);
        } else {
          using std::swap;
          swap(*d.x[i], *d.x[j]);
        }
        return std::string("ok");
      });
    }
  }

  void copyOrMove(int i, int j) {
    if (i == j) return;
    if (s.choose(2)) {
      if (moveThrows(j)) return;
      both("move-construct " + std::to_string(i) + " from " + std::to_string(j), [&](auto& d) {
        using L = typename std::decay_t<decltype(d)>::Lib;
        d.x[i].reset(new typename L::X(std::move(*d.x[j])));
        return std::string("ok");
      });
    } else if constexpr (copyable) {
      if (copyThrows(j)) return;
      both("copy-construct " + std::to_string(i) + " from " + std::to_string(j), [&](auto& d) {
        using L = typename std::decay_t<decltype(d)>::Lib;
        d.x[i].reset(new typename L::X(std::as_const(*d.x[j])));
        return std::string("ok");
      });
    }
  }

  void reconstruct(int i) {
    int how = s.range(0, 8);
    int k = val(), e = s.range(1, 9);
    both("construct#" + std::to_string(how) + " " + std::to_string(i) + " " + std::to_string(k), [&](auto& d) {
      using L = typename std::decay_t<decltype(d)>::Lib;
      using X = typename L::X;
      std::unique_ptr<X> x;
      switch (how) {
        case 0:
          if constexpr (std::is_default_constructible_v<X>) x.reset(new X());
          break;
        case 1:
          if constexpr (isVoid) x.reset(new X());
          else if constexpr (KV::tracked) x.reset(new X(L::in_place, k));
          else x.reset(new X(L::in_place, KV::make(k)));
          break;
        case 2:
          if constexpr (!isVoid) {
            if constexpr (KV::tracked) x.reset(new X(L::in_place, {k, 2}, 3));
          }
          break;
        case 3:
          if constexpr (!isVoid) {
            if constexpr (KV::tracked) x.reset(new X(k));
            else x.reset(new X(KV::make(k)));
          }
          break;
        case 4:
          if constexpr (KE::tracked) x.reset(new X(L::unexpect, e));
          break;
        case 5:
          if constexpr (KE::tracked) x.reset(new X(L::unexpect, {e, 5}, 6));
          break;
        case 6:
          x.reset(new X(typename L::U(KE::make(e))));
          break;
        case 7:
          if constexpr (eCopyable) {
            typename L::U u(KE::make(e));
            x.reset(new X(u));
          }
          break;
        case 8:
          if constexpr (!isVoid && copyable) {
            V v = KV::make(k % 1000);
            x.reset(new X(v));
          }
          break;
      }
      if (!x) return std::string("skipped");
      d.x[i] = std::move(x);
      return std::string("ok");
    });
  }

  // From an expected of other types.
  void convert(int i) {
    if constexpr (!isVoid) {
      if constexpr (KV::tracked && KE::tracked && std::is_default_constructible_v<V>) {
        bool rvalue = s.choose(2), err = s.choose(2);
        int k = s.range(1, 9);
        both("convert " + std::to_string(i) + (err ? " error " : " value ") + std::to_string(k), [&](auto& d) {
          using L = typename std::decay_t<decltype(d)>::Lib;
          using X = typename L::X;
          using O = typename L::template Exp<int, int>;
          O o = err ? O(L::unexpect, k) : O(L::in_place, k);
          if (rvalue) d.x[i].reset(new X(std::move(o)));
          else d.x[i].reset(new X(std::as_const(o)));
          return std::string("ok");
        });
      }
    }
  }

  void access(int i) {
    int how = s.range(0, 3);
    std::string n = std::to_string(how) + " " + std::to_string(i);
    if constexpr (eCopyable) {
      if (s.choose(2)) {
        both("value() as " + n, [&](auto& d) {
          using L = typename std::decay_t<decltype(d)>::Lib;
          try {
            return as(how, *d.x[i], [&](auto&& x) -> std::string {
              if constexpr (isVoid) {
                if constexpr (requires { std::forward<decltype(x)>(x).value(); }) {
                  std::forward<decltype(x)>(x).value();
                } else if (!x.has_value()) {
                  throw typename L::Bad(std::forward<decltype(x)>(x).error());
                }
                return "value";
              } else {
                using R = decltype(std::forward<decltype(x)>(x).value());
                return std::string(category<R>()) + " " +
                       KV::show(std::forward<decltype(x)>(x).value());
              }
            });
          } catch (const typename L::Bad& b) {
            const std::exception& e = b;
            return "bad access " + KE::show(b.error()) + (e.what()[0] ? "" : " without text");
          }
        });
        return;
      }
    }
    both("access as " + n, [&](auto& d) {
      auto& x = *d.x[i];
      std::string r = x.has_value() ? "has" : "has not";
      r += static_cast<bool>(x) == x.has_value() ? "" : " bool differs";
      if (x.has_value()) {
        if constexpr (!isVoid) {
          r += as(how, x, [](auto&& y) {
            using R = decltype(*std::forward<decltype(y)>(y));
            return " " + std::string(category<R>()) + " " + KV::show(*std::forward<decltype(y)>(y));
          });
          if (x.operator->() != std::addressof(*x)) r += " arrow points elsewhere";
          if (std::as_const(x).operator->() != std::addressof(*x)) r += " arrow points elsewhere";
        }
      } else {
        r += as(how, x, [](auto&& y) {
          using R = decltype(std::forward<decltype(y)>(y).error());
          return " " + std::string(category<R>()) + " " +
                 KE::show(std::forward<decltype(y)>(y).error());
        });
      }
      return r;
    });
  }

  void valueOr(int i) {
    if constexpr (!isVoid) {
      bool rvalue = s.choose(2);
      int k = s.range(1, 9);
      both("value_or " + std::to_string(i) + (rvalue ? " &&" : " const&"), [&](auto& d) {
        if (!rvalue) {
          if constexpr (std::is_copy_constructible_v<V>) {
            return KV::show(std::as_const(*d.x[i]).value_or(KV::make(k)));
          } else {
            return std::string("n/a");
          }
        }
        return KV::show(std::move(*d.x[i]).value_or(KV::make(k)));
      });
    }
  }

  void compareOps(int i, int j) {
    int k = s.range(1, 9);
    both("compare " + std::to_string(i) + " " + std::to_string(j) + " " + std::to_string(k), [&](auto& d) {
      using L = typename std::decay_t<decltype(d)>::Lib;
      auto& a = *d.x[i];
      auto& b = *d.x[j];
      std::string r;
      auto bit = [&](bool x) { r += x ? "1" : "0"; };
      bit(a == b);
      bit(a != b);
      typename L::U u(KE::make(k));
      bit(a == u);
      bit(a != u);
      bit(u == a);
      bit(u != a);
      if constexpr (!isVoid) {
        V v = KV::make(k);
        bit(a == v);
        bit(a != v);
        bit(v == a);
        bit(v != a);
      }
      return r;
    });
  }

  void arm(int i) {
    both("arm " + std::to_string(i), [&](auto& d) {
      if (d.x[i]->has_value()) {
        if constexpr (!isVoid) KV::arm(**d.x[i]);
      } else {
        KE::arm(d.x[i]->error());
      }
      return std::string("ok");
    });
  }

  /// What chained functions do with their argument.
  template <class A>
  static std::string take(A&& a) {
    using D = std::decay_t<A>;
    std::string r = category<A&&>();
    if constexpr (std::is_constructible_v<D, A&&>) {
      D taken(std::forward<A>(a));
      return r + " " + Kind<D>::show(taken);
    } else {
      return r + " " + Kind<D>::show(a);
    }
  }

  // map / transform
  void mapLike(int i) {
    int how = s.range(0, 3);
    bool toVoid = s.choose(2), alias = s.choose(2);
    if (s.chance(0.1)) {
      both("map throws " + std::to_string(i), [&](auto& d) {
        using L = typename std::decay_t<decltype(d)>::Lib;
        if constexpr (isVoid) {
          auto f = [](auto&&...) -> int { throw Boom{}; };
          if constexpr (L::tl) return showExp(d.x[i]->map(f));
          else return showExp(d.x[i]->transform(f));
        } else {
          auto f = [](auto&&) -> int { throw Boom{}; };
          if constexpr (L::tl && eCopyable) return showExp(d.x[i]->map(f));
          else if constexpr (eCopyable) return showExp(d.x[i]->transform(f));
          else return std::string("n/a");
        }
      });
      return;
    }
    if (how != 2 && !eCopyable) return;
    both((alias ? "transform" : "map") + std::string(toVoid ? " to void " : " ") + std::to_string(i) + " as " +
             std::to_string(how), [&](auto& d) {
      using L = typename std::decay_t<decltype(d)>::Lib;
      std::string calls;
      auto go = [&](auto&& x, auto&& f) -> std::string {
        if constexpr (L::tl) {
          if (alias) return showExp(std::forward<decltype(x)>(x).transform(f));
          return showExp(std::forward<decltype(x)>(x).map(f));
        } else {
          return showExp(std::forward<decltype(x)>(x).transform(f));
        }
      };
      auto run = [&](auto&& x) -> std::string {
        if constexpr (isVoid) {
          if (toVoid) return go(std::forward<decltype(x)>(x), [&] { calls += "called "; });
          return go(std::forward<decltype(x)>(x), [&] {
            calls += "called ";
            return 77;
          });
        } else {
          if (toVoid) return go(std::forward<decltype(x)>(x), [&](auto&& a) { calls += take(std::forward<decltype(a)>(a)) + " "; });
          return go(std::forward<decltype(x)>(x), [&](auto&& a) {
            calls += take(std::forward<decltype(a)>(a)) + " ";
            return 77;
          });
        }
      };
      std::string r;
      if constexpr (eCopyable) r = as(how, *d.x[i], run);
      else r = run(std::move(*d.x[i]));
      return calls + "-> " + r;
    });
  }

  // map_error / transform_error / or_else
  void errorLike(int i) {
    int how = s.range(0, 3);
    int what = s.range(0, 4);
    bool toError = s.choose(2);
    if (how != 2 && !copyable) return;
    // or_else copies or moves the expected itself.
    if (what >= 3 && (copyThrows(i) || moveThrows(i))) return;
    static const char* names[] = {"map_error ", "transform_error ", "map_error to void ", "or_else ", "or_else to void "};
    both(names[what] + std::to_string(i) + " as " + std::to_string(how), [&](auto& d) {
      using L = typename std::decay_t<decltype(d)>::Lib;
      std::string calls;
      auto run = [&](auto&& x) -> std::string {
        using Q = decltype(x);
        auto f = [&](auto&& a) {
          calls += take(std::forward<decltype(a)>(a)) + " ";
          return 55;
        };
        auto fv = [&](auto&& a) { calls += take(std::forward<decltype(a)>(a)) + " "; };
        auto fo = [&](auto&& a) -> typename L::X {
          calls += take(std::forward<decltype(a)>(a)) + " ";
          if (toError) return typename L::X(L::unexpect, KE::make(4));
          if constexpr (isVoid) return typename L::X();
          else return typename L::X(L::in_place, KV::make(3));
        };
        switch (what) {
          case 0:
            if constexpr (L::tl) return showExp(std::forward<Q>(x).map_error(f));
            else return showExp(std::forward<Q>(x).transform_error(f));
          case 1:
            return showExp(std::forward<Q>(x).transform_error(f));
          case 2:
            if constexpr (L::tl) {
              auto r = std::forward<Q>(x).map_error(fv);
              static_assert(std::is_same_v<typename decltype(r)::error_type, trajopt::monostate>);
              if constexpr (!isVoid) return r.has_value() ? "value " + KV::show(*r) : "error";
              else return r.has_value() ? "value" : "error";
            } else {
              auto r = std::forward<Q>(x).transform_error([&](auto&& a) {
                fv(std::forward<decltype(a)>(a));
                return 0;
              });
              if constexpr (!isVoid) return r.has_value() ? "value " + KV::show(*r) : "error";
              else return r.has_value() ? "value" : "error";
            }
          case 3:
            return showExp(std::forward<Q>(x).or_else(fo));
          default:
            if constexpr (L::tl) {
              return showExp(std::forward<Q>(x).or_else(fv));
            } else {
              if (!x.has_value()) fv(std::forward<Q>(x).error());
              typename L::X r(std::forward<Q>(x));
              return showExp(r);
            }
        }
      };
      std::string r;
      if constexpr (copyable) r = as(how, *d.x[i], run);
      else r = run(std::move(*d.x[i]));
      return calls + "-> " + r;
    });
  }

  void andThen(int i) {
    int how = s.range(0, 3);
    bool toError = s.choose(2);
    if (how != 2 && !eCopyable) return;
    both("and_then " + std::to_string(i) + " as " + std::to_string(how), [&](auto& d) {
      using L = typename std::decay_t<decltype(d)>::Lib;
      using R = typename L::template Exp<int, E>;
      std::string calls;
      auto result = [&]() -> R {
        if (toError) return R(L::unexpect, KE::make(8));
        return R(L::in_place, 6);
      };
      auto run = [&](auto&& x) -> std::string {
        using Q = decltype(x);
        if constexpr (isVoid) {
          return showExp(std::forward<Q>(x).and_then([&] {
            calls += "called ";
            return result();
          }));
        } else {
          return showExp(std::forward<Q>(x).and_then([&](auto&& a) {
            calls += take(std::forward<decltype(a)>(a)) + " ";
            return result();
          }));
        }
      };
      std::string r;
      if constexpr (eCopyable) r = as(how, *d.x[i], run);
      else r = run(std::move(*d.x[i]));
      return calls + "-> " + r;
    });
  }
};

/// Construction of an expected from an armed one, in a child process.
/// Returns the child's exit status: 0 as std::expected, 3 terminated.
template <class T, class E>
struct Throwing {
  using X = trajopt::expected<T, E>;
  static void child(int op, bool err) {
    reg().live.clear();
    reg().error.clear();
    std::set_terminate([] { _exit(3); });
    {
      X src = err ? X(trajopt::unexpect, 5) : X(trajopt::in_place, 5);
      if (err) src.error().armed = true;
      else src->armed = true;
      bool threw = false;
      try {
        if (op == 0) {
          X x(src);
        } else if (op == 1) {
          X x(std::move(src));
        } else {
          (void)std::as_const(src).or_else([&](auto&&) { return X(trajopt::in_place, 1); });
        }
      } catch (const Boom&) {
        threw = true;
      }
      bool may = err ? (op == 1 ? !Kind<E>::moveNx : !Kind<E>::copyNx) && op != 2
                     : (op == 1 ? !Kind<T>::moveNx : !Kind<T>::copyNx);
      if (threw != may) _exit(4);
      if (src.has_value() == err) _exit(5);
    }
    if (!reg().error.empty()) _exit(6);
    if (!reg().live.empty()) _exit(7);
    _exit(0);
  }
  static int run(int op, bool err) {
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) child(op, err);
    int st = 0;
    waitpid(p, &st, 0);
    return WIFEXITED(st) ? WEXITSTATUS(st) : 100 + WTERMSIG(st);
  }
};

using Nx = Tr<0, kAllNx | kCopyable | kDefault>;          // nothing throws
using NxE = Tr<1, kAllNx | kCopyable>;                    // no default
using Cp = Tr<2, kMoveNx | kMoveAsgNx | kCopyable | kDefault>;  // copies throw
using CpE = Tr<3, kMoveNx | kMoveAsgNx | kCopyable>;
using Mv = Tr<4, kCopyable>;                              // everything throws
using MvE = Tr<5, kCopyable>;
using As = Tr<6, kCopyNx | kMoveNx | kCopyable | kDefault>;  // assignments throw
using Mo = Tr<7, kMoveNx | kMoveAsgNx | kIntNx>;          // move-only
using MoE = Tr<8, kMoveNx | kMoveAsgNx | kIntNx>;

/// The configurations, spread over several translation units.
struct Config {
  const char* name;
  void (*run)(pbt::Src&);
};
template <class T, class E>
void history(pbt::Src& s) {
  History<T, E>{s}.run();
}
extern const std::vector<Config> trackedA, trackedB, plainA, plainB;

}  // namespace exph
