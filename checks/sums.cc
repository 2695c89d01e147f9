// PART 1: variant (C06), PART 2: optional (C07), PART 3: unique_ptr,
// offset_ptr, wrapped (C08).  All operation histories vs. a reference model.
#include "mc.h"
#include "tracked.h"

#include <sys/mman.h>

#include <array>
#include <functional>
#include <limits>
#include <optional>
#include <stdexcept>
#include <string>
#include <variant>

#include "cista/containers/offset_ptr.h"
#include "cista/containers/optional.h"
#include "cista/containers/string.h"
#include "cista/containers/unique_ptr.h"
#include "cista/containers/variant.h"
#include "cista/containers/vector.h"
#include "cista/hashing.h"
#include "cista/memory_holder.h"

using trk::tr;

namespace {

#if PART == 3
struct ptr_tag {};
using ptr_step = cista::strong<int, ptr_tag>;
#endif

// -1: disarmed, otherwise the n-th construction from now on throws
int g_arm = -1;
// optional's move operations are declared noexcept: payload moves must not throw
[[maybe_unused]] constexpr bool kMoveThrows = PART != 2;
struct boom {};
void tick() {
  if (g_arm >= 0 && g_arm-- == 0) {
    throw boom{};
  }
}

// tracked type whose constructors / assignments throw when armed
struct thr {
  thr() : t_{0} {}
  thr(int v) : t_{(tick(), v)} {}  // NOLINT
  thr(thr const& o) : t_{(tick(), o.t_)} {}
  thr(thr&& o) : t_{(kMoveThrows ? tick() : void(), std::move(o.t_))} {}
  thr& operator=(thr const& o) {
    tick();
    t_ = o.t_;
    return *this;
  }
  thr& operator=(thr&& o) {
    if (kMoveThrows) {
      tick();
    }
    t_ = std::move(o.t_);
    return *this;
  }
  int get() const { return t_.get(); }
  friend bool operator==(thr const& a, thr const& b) { return a.t_ == b.t_; }
  friend bool operator!=(thr const& a, thr const& b) { return a.t_ != b.t_; }
  friend bool operator<(thr const& a, thr const& b) { return a.t_ < b.t_; }
  friend bool operator>(thr const& a, thr const& b) { return a.t_ > b.t_; }
  friend bool operator<=(thr const& a, thr const& b) { return a.t_ <= b.t_; }
  friend bool operator>=(thr const& a, thr const& b) { return a.t_ >= b.t_; }
  tr t_;
};

int value_of(int x) { return x; }
int value_of(tr const& x) { return x.get(); }
int value_of(thr const& x) { return x.get(); }

void lifetimes(unsigned const expected, char const* op) {
  MC_CHECK(trk::R.error == nullptr, "lifetime", "after %s: %s", op,
           trk::R.error);
  MC_CHECK(trk::R.n == expected, "live",
           "after %s: %u live objects, expected %u", op, trk::R.n, expected);
}

#if PART == 1
using V = cista::variant<tr, thr, int>;

struct model {
  int idx{-1};  // -1: no value
  int v{0};
  bool tracked() const { return idx == 0 || idx == 1; }
};

void expect(V& x, model const& m, char const* op) {
  auto const& c = x;
  MC_CHECK(c.valid() == (m.idx >= 0), "valid", "%s: valid()=%d expected %d", op,
           c.valid(), m.idx >= 0);
  MC_CHECK(static_cast<bool>(c) == (m.idx >= 0), "valid", "%s: bool", op);
  MC_CHECK(cista::holds_alternative<tr>(c) == (m.idx == 0) &&
               cista::holds_alternative<thr>(c) == (m.idx == 1) &&
               cista::holds_alternative<int>(c) == (m.idx == 2),
           "index", "%s: wrong alternative", op);
  if (m.idx < 0) {
    auto thrown = false;
    try {
      c.apply([](auto&&) {});
    } catch (std::exception const&) {
      thrown = true;
    }
    MC_CHECK(thrown, "valueless", "%s: visiting a valueless variant", op);
    return;
  }
  MC_CHECK(c.index() == static_cast<std::size_t>(m.idx), "index",
           "%s: index %zu expected %d", op, c.index(), m.idx);
  auto calls = 0;
  auto which = -1;
  auto val = 0;
  auto visitor = [&](auto&& e) {
    ++calls;
    using T = std::decay_t<decltype(e)>;
    which = std::is_same_v<T, tr> ? 0 : std::is_same_v<T, thr> ? 1 : 2;
    val = value_of(e);
  };
  c.apply(visitor);
  MC_CHECK(calls == 1 && which == m.idx, "visit",
           "%s: visit called %d times for alternative %d", op, calls, which);
  MC_CHECK(val == m.v, "value", "%s: value %d expected %d", op, val, m.v);
  x.apply(visitor);
  MC_CHECK(calls == 2 && which == m.idx && val == m.v, "visit",
           "%s: mutable visit", op);
  MC_CHECK((cista::get_if<tr>(x) != nullptr) == (m.idx == 0) &&
               (cista::get_if<1>(x) != nullptr) == (m.idx == 1) &&
               (cista::get_if<int>(c) != nullptr) == (m.idx == 2) &&
               (cista::get_if<2>(c) != nullptr) == (m.idx == 2),
           "get_if", "%s: get_if", op);
  auto const g = m.idx == 0   ? value_of(cista::get<0>(c))
                 : m.idx == 1 ? value_of(cista::get<thr>(x))
                              : cista::get<int>(c);
  MC_CHECK(g == m.v, "get", "%s: get returns %d expected %d", op, g, m.v);
}

void compare(V const& a, V const& b, model const& ma, model const& mb) {
  auto const lt = ma.idx != mb.idx
                      ? static_cast<std::uint8_t>(ma.idx) <
                            static_cast<std::uint8_t>(mb.idx)
                      : (ma.idx >= 0 && ma.v < mb.v);
  auto const eq = ma.idx == mb.idx && (ma.idx < 0 || ma.v == mb.v);
  MC_CHECK((a == b) == eq && (a != b) == !eq, "equality",
           "== or != wrong for %d:%d and %d:%d", ma.idx, ma.v, mb.idx, mb.v);
  MC_CHECK((a < b) == lt && (a >= b) == !lt && (a > b) == (!lt && !eq) &&
               (a <= b) == (lt || eq),
           "ordering", "ordering wrong for %d:%d and %d:%d", ma.idx, ma.v,
           mb.idx, mb.v);
}

template <typename F>
bool armed(int const arm, F&& f) {
  g_arm = arm;
  auto thrown = false;
  try {
    f();
  } catch (boom const&) {
    thrown = true;
  } catch (...) {
    g_arm = -1;
    throw;
  }
  g_arm = -1;
  return thrown;
}

MC_SCENARIO("variant: all histories on two variants", 3, 4) {
  trk::R.reset();
  g_arm = -1;
  {
    V x[2];
    model m[2];
    auto fresh_v = 1;
    for (auto d = 0; d != mc::bound(); ++d) {
      auto const a = mc::choose(2);
      auto const b = 1 - a;
      enum {
        EMPLACE,
        EMPLACE_I,
        ASSIGN_R,
        ASSIGN_L,
        ASSIGN_C,
        COPY,
        MOVE,
        SELF_COPY,
        SELF_MOVE,
        CTOR_COPY,
        CTOR_MOVE,
        CTOR_VAL,
        SWAP,
        SELF_SWAP,
        CLEAR,
        N
      };
      auto const op = mc::choose(N);
      auto const arm = mc::choose(4) - 1;  // -1 none, n-th construction throws
      auto const v = fresh_v++;
      auto thrown = false;
      auto alt = -1;
      auto& X = x[a];
      char const* name = "?";
      auto value_op = [&](char const* n, auto&& f) {
        alt = mc::choose(3);
        name = n;
        mc::op(n);
        mc::logf("x%d: %s(alternative %d, %d) arm=%d", a, n, alt, v, arm);
        thrown = armed(arm, [&] { f(); });
      };
      auto plain_op = [&](char const* n, auto&& f) {
        name = n;
        mc::op(n);
        mc::logf("x%d: %s arm=%d", a, n, arm);
        thrown = armed(arm, [&] { f(); });
      };
      auto const before = m[a];
      auto const before_b = m[b];
      auto want = m[a];
      auto want_b = m[b];
      auto moved_b = false;  // b is a moved-from source
      switch (op) {
        case EMPLACE:
          value_op("emplace<T>", [&] {
            auto const r = alt == 0   ? value_of(X.emplace<tr>(v))
                           : alt == 1 ? value_of(X.emplace<thr>(v))
                                      : X.emplace<int>(v);
            MC_CHECK(r == v, "emplace", "emplace returned %d", r);
          });
          want = {alt, v};
          break;
        case EMPLACE_I:
          value_op("emplace<I>", [&] {
            auto const r = alt == 0   ? value_of(X.emplace<0>(v))
                           : alt == 1 ? value_of(X.emplace<1>(v))
                                      : X.emplace<2>(v);
            MC_CHECK(r == v, "emplace", "emplace returned %d", r);
          });
          want = {alt, v};
          break;
        case ASSIGN_R:
          value_op("assign rvalue", [&] {
            alt == 0   ? void(X = tr{v})
            : alt == 1 ? void(X = thr{v})
                       : void(X = int{v});
          });
          want = {alt, v};
          break;
        case ASSIGN_L:
          value_op("assign lvalue", [&] {
            if (alt == 0) {
              tr t{v};
              X = t;
              MC_CHECK(t.get() == v, "source", "assignment changed its source");
            } else if (alt == 1) {
              thr t{v};
              X = t;
              MC_CHECK(t.get() == v, "source", "assignment changed its source");
            } else {
              int t{v};
              X = t;
            }
          });
          want = {alt, v};
          break;
        case ASSIGN_C:
          value_op("assign const lvalue", [&] {
            tr const t0{v};
            thr const t1 = thr{v};
            int const t2{v};
            alt == 0 ? void(X = t0) : alt == 1 ? void(X = t1) : void(X = t2);
          });
          want = {alt, v};
          break;
        case COPY:
          plain_op("copy assign", [&] {
            X = static_cast<V const&>(x[b]);
          });
          want = m[b];
          break;
        case MOVE:
          plain_op("move assign", [&] { X = std::move(x[b]); });
          want = m[b];
          moved_b = true;
          break;
        case SELF_COPY:
          plain_op("self copy assign",
                   [&] { X = static_cast<V const&>(x[a]); });
          break;
        case SELF_MOVE:
          plain_op("self move assign", [&] { X = std::move(x[a]); });
          break;
        case CTOR_COPY:
          plain_op("copy construct", [&] {
            V t{static_cast<V const&>(x[b])};
            g_arm = -1;
            expect(t, m[b], "copy construct");
            X = t;
          });
          want = m[b];
          break;
        case CTOR_MOVE:
          plain_op("move construct", [&] {
            V t{std::move(x[b])};
            g_arm = -1;
            expect(t, m[b], "move construct");
            X = std::move(t);
          });
          want = m[b];
          moved_b = true;
          break;
        case CTOR_VAL:
          value_op("construct from value", [&] {
            if (alt == 0) {
              V t{tr{v}};
              expect(t, {0, v}, "construct");
              X = std::move(t);
            } else if (alt == 1) {
              thr l{v};
              V t{l};
              X = std::move(t);
            } else {
              V t{v};
              X = std::move(t);
            }
          });
          want = {alt, v};
          break;
        case SWAP:
          plain_op("swap", [&] { X.swap(x[b]); });
          std::swap(want, want_b);
          break;
        case SELF_SWAP: plain_op("self swap", [&] { X.swap(x[a]); }); break;
        case CLEAR:
          plain_op("assign valueless", [&] {
            V t;
            X = t;
          });
          want = {};
          break;
      }
      mc::step();
      // an armed run in which nothing threw repeats the unarmed history
      if (arm >= 0 && !thrown) {
        return;
      }
      if (!thrown) {
        m[a] = want;
        m[b] = want_b;
        if (op == SELF_MOVE && m[a].tracked() && X.index() != V::NO_VALUE) {
          // value after self move is whatever the element type leaves
          X.apply([&](auto&& e) { m[a].v = value_of(e); });
        }
        if (moved_b && m[b].idx >= 0) {
          MC_CHECK(x[b].valid() &&
                       x[b].index() == static_cast<std::size_t>(m[b].idx),
                   "moved", "%s: moved-from variant changed alternative", name);
          x[b].apply([&](auto&& e) { m[b].v = value_of(e); });
        }
      } else {
        // old value, new value or no value; never a dead object
        for (auto i : {a, b}) {
          auto& mm = m[i];
          auto const old = i == a ? before : before_b;
          auto const now = i == a ? want : want_b;
          if (!x[i].valid()) {
            mm = {};
          } else {
            mm.idx = static_cast<int>(x[i].index());
            x[i].apply([&](auto&& e) { mm.v = value_of(e); });
            MC_CHECK((mm.idx == old.idx &&
                      (mm.v == old.v || mm.v == trk::kMovedFrom)) ||
                         (mm.idx == now.idx && mm.v == now.v),
                     "throw", "%s threw: variant %d holds %d:%d", name, i,
                     mm.idx, mm.v);
          }
        }
      }
      for (auto i : {0, 1}) {
        expect(x[i], m[i], name);
      }
      lifetimes(static_cast<unsigned>(m[0].tracked()) +
                    static_cast<unsigned>(m[1].tracked()),
                name);
      compare(x[0], x[1], m[0], m[1]);
      compare(x[1], x[0], m[1], m[0]);
      compare(x[0], x[0], m[0], m[0]);
      mc::checked();
      mc::state(mc::H{}(static_cast<std::uint64_t>(m[0].idx + 1))(
          static_cast<std::uint64_t>(m[1].idx + 1))(
          static_cast<std::uint64_t>(m[0].v))(
          static_cast<std::uint64_t>(m[1].v)));
    }
  }
  lifetimes(0, "destruction");
}

// hash follows index and value
MC_SCENARIO("variant: hash and comparison over all pairs", 0, 0) {
  using S = cista::variant<std::uint32_t, std::uint64_t, cista::raw::string>;
  S vals[] = {S{std::uint32_t{0}},      S{std::uint32_t{1}},
              S{std::uint64_t{0}},      S{std::uint64_t{1}},
              S{cista::raw::string{""}}, S{cista::raw::string{"a"}},
              S{cista::raw::string{"a string that is long"}}, S{}};
  auto const n = static_cast<int>(sizeof(vals) / sizeof(vals[0]));
  auto const i = mc::choose(n), j = mc::choose(n);
  mc::op("hash");
  S a{vals[i]}, b{vals[j]};
  mc::step();
  MC_CHECK((a == b) == (i == j), "equality", "values %d and %d", i, j);
  MC_CHECK((a < b) == (i < j), "ordering", "values %d and %d", i, j);
  auto const ha = cista::hashing<S>{}(a), hb = cista::hashing<S>{}(b);
  MC_CHECK(i != j || ha == hb, "hash", "equal values, different hash");
  MC_CHECK(i == j || ha != hb, "hash", "hash ignores index or value (%d, %d)",
           i, j);
  mc::checked();
  mc::state(mc::H{}(static_cast<std::uint64_t>(i * 100 + j)));
}

// visiting works for every alternative of variants of every size
template <int I>
struct alt_t {
  int v;
};
template <std::size_t... I>
void wide(std::index_sequence<I...>, int const k) {
  using W = cista::variant<alt_t<static_cast<int>(I)>...>;
  W w;
  auto made = false;
  ((static_cast<int>(I) == k
        ? (w = alt_t<static_cast<int>(I)>{static_cast<int>(I) * 3}, made = true)
        : false),
   ...);
  MC_CHECK(made && w.index() == static_cast<std::size_t>(k), "wide:index",
           "alternative %d", k);
  auto got = -1, val = -1;
  w.apply([&](auto&& e) {
    ((std::is_same_v<std::decay_t<decltype(e)>, alt_t<static_cast<int>(I)>>
          ? (got = static_cast<int>(I))
          : 0),
     ...);
    val = e.v;
  });
  MC_CHECK(got == k && val == 3 * k, "wide:visit",
           "visit of alternative %d called for %d (value %d)", k, got, val);
  W c{static_cast<W const&>(w)};
  MC_CHECK(c.index() == static_cast<std::size_t>(k), "wide:copy", "copy");
}
MC_SCENARIO("variant: visit for every width and alternative", 0, 0) {
  mc::op("wide");
  switch (mc::choose(5)) {
    case 0: wide(std::make_index_sequence<1>{}, mc::choose(1)); break;
    case 1: wide(std::make_index_sequence<5>{}, mc::choose(5)); break;
    case 2: wide(std::make_index_sequence<15>{}, mc::choose(15)); break;
#ifdef WIDE
    case 3: wide(std::make_index_sequence<16>{}, mc::choose(16)); break;
    case 4: wide(std::make_index_sequence<40>{}, mc::choose(40)); break;
#endif
    default: return;
  }
  mc::step();
  mc::checked();
}

// variants inside a growing container
MC_SCENARIO("variant: as vector element, also valueless", 3, 4) {
  trk::R.reset();
  g_arm = -1;
  {
    cista::raw::vector<V> v;
    std::vector<model> m;
    for (auto d = 0; d != mc::bound(); ++d) {
      switch (mc::choose(5)) {
        case 0:
          mc::op("emplace_back()");
          v.emplace_back();
          m.push_back({});
          break;
        case 1:
          mc::op("emplace_back(tr)");
          v.emplace_back(tr{d});
          m.push_back({0, d});
          break;
        case 2:
          mc::op("emplace_back(int)");
          v.emplace_back(int{d});
          m.push_back({2, d});
          break;
        case 3:
          mc::op("erase front");
          if (!m.empty()) {
            v.erase(v.begin());
            m.erase(m.begin());
          }
          break;
        case 4: {
          mc::op("copy");
          auto c = v;
          v = c;
          break;
        }
      }
      mc::step();
      MC_CHECK(v.size() == m.size(), "vec:size", "size");
      auto n = 0U;
      for (auto i = 0U; i != m.size(); ++i) {
        expect(v[i], m[i], "vector of variants");
        n += m[i].tracked();
      }
      lifetimes(n, "vector of variants");
      mc::checked();
    }
  }
  lifetimes(0, "destruction");
}
#endif

#if PART == 2
using O = cista::optional<tr>;
using OT = cista::optional<thr>;

template <typename Opt>
void expect(Opt& x, std::optional<int> const& m, char const* op) {
  auto const& c = x;
  MC_CHECK(c.has_value() == m.has_value() &&
               static_cast<bool>(c) == m.has_value(),
           "engaged", "%s: has_value()=%d", op, c.has_value());
  if (m.has_value()) {
    MC_CHECK(value_of(c.value()) == *m && value_of(*c) == *m &&
                 value_of(x.value()) == *m && value_of(*x) == *m &&
                 c->get() == *m && x->get() == *m,
             "value", "%s: value %d expected %d", op, value_of(*c), *m);
  } else {
    auto n = 0;
    try {
      c.value();
    } catch (std::bad_optional_access const&) {
      ++n;
    }
    try {
      x.value();
    } catch (std::bad_optional_access const&) {
      ++n;
    }
    MC_CHECK(n == 2, "access", "%s: value() of an empty optional", op);
  }
}

template <typename Opt, typename T>
void optional_history() {
  trk::R.reset();
  g_arm = -1;
  {
    Opt x[2];
    std::optional<int> m[2];
    auto next = 1;
    for (auto d = 0; d != mc::bound(); ++d) {
      auto const a = mc::choose(2), b = 1 - a;
      auto const op = mc::choose(14);
      auto const v = next++;
      auto& X = x[a];
      char const* name = "?";
      auto const arm = std::is_same_v<T, thr> ? mc::choose(3) - 1 : -1;
      auto thrown = false;
      auto want = m[a];
      auto moved = false;
      auto moved_self = false;
      auto go = [&](char const* n, auto&& f) {
        name = n;
        mc::op(n);
        mc::logf("x%d: %s %d arm=%d", a, n, v, arm);
        g_arm = arm;
        try {
          f();
        } catch (boom const&) {
          thrown = true;
        } catch (...) {
          g_arm = -1;
          throw;
        }
        g_arm = -1;
        mc::step();
      };
      switch (op) {
        case 0:
          go("assign rvalue", [&] { X = T{v}; });
          want = v;
          break;
        case 1:
          go("assign lvalue", [&] {
            T t{v};
            X = t;
          });
          want = v;
          break;
        case 2:
          go("copy assign", [&] { X = static_cast<Opt const&>(x[b]); });
          want = m[b];
          break;
        case 3:
          go("copy assign from non-const", [&] { X = x[b]; });
          want = m[b];
          break;
        case 4:
          go("move assign", [&] { X = std::move(x[b]); });
          want = m[b];
          moved = true;
          break;
        case 5:
          go("self copy assign", [&] { X = static_cast<Opt const&>(x[a]); });
          break;
        case 6:
          go("self move assign", [&] { X = std::move(x[a]); });
          moved_self = true;
          break;
        case 7:
          go("assign nullopt", [&] { X = std::nullopt; });
          want = std::nullopt;
          break;
        case 8:
          go("copy construct const", [&] {
            Opt t{static_cast<Opt const&>(x[b])};
            g_arm = -1;
            expect(t, m[b], "copy construct const");
            X = std::move(t);
          });
          want = m[b];
          break;
        case 9:
          go("copy construct non-const", [&] {
            Opt t(x[b]);
            g_arm = -1;
            expect(t, m[b], "copy construct non-const");
            X = std::move(t);
          });
          want = m[b];
          break;
        case 10:
          go("move construct", [&] {
            Opt t(std::move(x[b]));
            g_arm = -1;
            expect(t, m[b], "move construct");
            X = std::move(t);
          });
          want = m[b];
          moved = true;
          break;
        case 11:
          go("construct from value", [&] {
            Opt t{v};
            g_arm = -1;
            expect(t, v, "construct from value");
            X = std::move(t);
          });
          want = v;
          break;
        case 12:
          go("construct from nullopt", [&] {
            Opt t(std::nullopt);
            g_arm = -1;
            expect(t, std::nullopt, "construct from nullopt");
            X = t;
          });
          want = std::nullopt;
          break;
        case 13:
          go("modify through access", [&] {
            if (X.has_value()) {
              *X = T{v};
              want = v;
            }
          });
          if (thrown) {
            want = m[a];
          }
          break;
      }
      if (arm >= 0 && !thrown) {
        return;
      }
      auto const old = m[a];
      if (!thrown) {
        m[a] = want;
        if (moved && m[b].has_value()) {
          MC_CHECK(x[b].has_value(), "moved", "moved-from optional is empty");
          m[b] = value_of(*x[b]);
        }
        if (moved_self && m[a].has_value()) {
          m[a] = value_of(*x[a]);
        }
      } else {
        for (auto i : {0, 1}) {
          if (x[i].has_value()) {
            auto const now = value_of(*x[i]);
            MC_CHECK(now == trk::kMovedFrom || (m[i] && *m[i] == now) ||
                         (i == a && want && *want == now),
                     "throw", "%s threw: value %d", name, now);
            m[i] = now;
          } else {
            m[i] = std::nullopt;
          }
        }
      }
      expect(x[0], m[0], name);
      expect(x[1], m[1], name);
      lifetimes(static_cast<unsigned>(m[0].has_value()) +
                    static_cast<unsigned>(m[1].has_value()),
                name);
      mc::checked();
      mc::state(mc::H{}(static_cast<std::uint64_t>(m[0].value_or(-5)))(
          static_cast<std::uint64_t>(m[1].value_or(-5))));
    }
  }
  lifetimes(0, "destruction");
}

MC_SCENARIO("optional: all histories, tracked element", 4, 5) {
  optional_history<O, tr>();
}
MC_SCENARIO("optional: all histories, throwing element", 3, 4) {
  optional_history<OT, thr>();
}
MC_SCENARIO("optional: owned memory and containers of optionals", 3, 4) {
  using S = cista::optional<cista::raw::string>;
  cista::raw::vector<S> v;
  std::vector<std::optional<std::string>> m;
  auto const lit = std::string(40, 'x');
  for (auto d = 0; d != mc::bound(); ++d) {
    switch (mc::choose(6)) {
      case 0:
        mc::op("emplace_back()");
        v.emplace_back();
        m.emplace_back();
        break;
      case 1:
        mc::op("emplace_back(long)");
        v.emplace_back(cista::raw::string{lit});
        m.emplace_back(lit);
        break;
      case 2:
        mc::op("emplace_back(short)");
        v.emplace_back(cista::raw::string{"s"});
        m.emplace_back("s");
        break;
      case 3:
        mc::op("erase");
        if (!m.empty()) {
          v.erase(v.begin());
          m.erase(m.begin());
        }
        break;
      case 4: {
        mc::op("copy");
        auto c = v;
        v = c;
        break;
      }
      case 5:
        mc::op("overwrite");
        if (!m.empty()) {
          v[0] = S{cista::raw::string{lit + "2"}};
          m[0] = lit + "2";
        }
        break;
    }
    mc::step();
    MC_CHECK(v.size() == m.size(), "size", "size");
    for (auto i = 0U; i != m.size(); ++i) {
      MC_CHECK(v[i].has_value() == m[i].has_value() &&
                   (!m[i] || v[i]->view() == *m[i]),
               "content", "element %u", i);
    }
    mc::checked();
  }
}
#endif

#if PART == 3
template <template <typename> typename UPtr, typename U>
void unique_history() {
  trk::R.reset();
  {
    tr external{500};
    tr external2{501};
    UPtr<tr> x[2];
    struct model {
      int id{-1};  // -1 null
      bool owning{false};
    } m[2];
    auto next = 1;
    for (auto d = 0; d != mc::bound(); ++d) {
      auto const a = mc::choose(2), b = 1 - a;
      auto& X = x[a];
      char const* name = "?";
      auto const v = next++;
      auto go = [&](char const* n, auto&& f) {
        name = n;
        mc::op(n);
        mc::logf("x%d: %s", a, n);
        f();
        mc::step();
      };
      switch (mc::choose(11)) {
        case 0:
          go("assign make_unique", [&] { X = U::template make<tr>(v); });
          m[a] = {v, true};
          break;
        case 1:
          go("assign non-owning",
             [&] { X = UPtr<tr>{a ? &external : &external2, false}; });
          m[a] = {a ? 500 : 501, false};
          break;
        case 2:
          go("move assign", [&] { X = std::move(x[b]); });
          m[a] = m[b];
          m[b] = {};
          break;
        case 3: go("self move assign", [&] { X = std::move(x[a]); }); break;
        case 4:
          go("assign nullptr", [&] { X = nullptr; });
          m[a] = {};
          break;
        case 5:
          go("reset", [&] { X.reset(); });
          m[a] = {};
          break;
        case 6:
          go("move construct", [&] {
            UPtr<tr> t{std::move(x[b])};
            MC_CHECK(x[b] == nullptr, "moved", "moved-from pointer not null");
            X = std::move(t);
          });
          m[a] = m[b];
          m[b] = {};
          break;
        case 7:
          go("construct and drop", [&] {
            UPtr<tr> t{std::move(x[a])};
          });
          m[a] = {};
          break;
        case 8:
          go("construct from nullptr", [&] {
            UPtr<tr> t{nullptr};
            X = std::move(t);
          });
          m[a] = {};
          break;
        case 9:
          go("swap", [&] {
            using std::swap;
            swap(x[0], x[1]);
          });
          std::swap(m[0], m[1]);
          break;
        case 10:
          go("modify", [&] {
            if (m[a].id >= 0 && m[a].owning) {
              *X = tr{v};
              m[a].id = v;
            }
          });
          break;
      }
      auto owned = 0U;
      for (auto i : {0, 1}) {
        owned += m[i].owning;
        auto const& c = x[i];
        MC_CHECK((c == nullptr) == (m[i].id < 0) &&
                     (nullptr == c) == (m[i].id < 0) &&
                     (c != nullptr) == (m[i].id >= 0) &&
                     static_cast<bool>(c) == (m[i].id >= 0) &&
                     (c.get() == nullptr) == (m[i].id < 0),
                 "null", "%s: pointer %d null=%d expected null=%d", name, i,
                 c == nullptr, m[i].id < 0);
        if (m[i].id >= 0) {
          MC_CHECK(c->get() == m[i].id && (*c).get() == m[i].id &&
                       x[i]->get() == m[i].id,
                   "target", "%s: pointer %d refers to %d expected %d", name, i,
                   c->get(), m[i].id);
        }
      }
      lifetimes(2U + owned, name);
      mc::checked();
      mc::state(mc::H{}(static_cast<std::uint64_t>(m[0].id + 2))(
          static_cast<std::uint64_t>(m[1].id + 2))(m[0].owning)(m[1].owning));
    }
  }
  lifetimes(0, "destruction");
}
struct RawU {
  template <typename T>
  static auto make(int v) {
    return cista::raw::make_unique<T>(v);
  }
};
struct OffU {
  template <typename T>
  static auto make(int v) {
    return cista::offset::make_unique<T>(v);
  }
};
MC_SCENARIO("unique_ptr (raw): all histories", 4, 5) {
  unique_history<cista::raw::unique_ptr, RawU>();
}
MC_SCENARIO("unique_ptr (offset): all histories", 4, 5) {
  unique_history<cista::offset::unique_ptr, OffU>();
}

// relative pointers living at different addresses, all copy/assign histories
MC_SCENARIO("offset_ptr: all histories over a graph of pointers", 3, 4) {
  using P = cista::offset_ptr<int>;
  struct cell {
    P p;
    int v[4];
  };
  std::vector<cell> mem(3);  // pointers next to their possible targets
  auto heap_cell = std::make_unique<cell>();
  P local;
  struct at {
    P* p;
    int* m;
  };
  at ptrs[] = {{&mem[0].p, nullptr},
               {&mem[2].p, nullptr},
               {&heap_cell->p, nullptr},
               {&local, nullptr}};
  // all possible targets: arrays, and the pointer's own address
  auto check = [&](char const* name) {
    for (auto& x : ptrs) {
      P const& p = *x.p;
      MC_CHECK(p.get() == x.m && static_cast<int*>(p) == x.m &&
                   (p == nullptr) == (x.m == nullptr) &&
                   static_cast<bool>(p) == (x.m != nullptr),
               "offset_ptr", "%s: refers to %p expected %p", name,
               static_cast<void*>(p.get()), static_cast<void*>(x.m));
      MC_CHECK(static_cast<void const*>(p) == x.m, "offset_ptr", "void cast");
      for (auto& y : ptrs) {
        MC_CHECK((*x.p == *y.p) == (x.m == y.m) &&
                     (*x.p != *y.p) == (x.m != y.m),
                 "offset_ptr:compare", "%s: comparison", name);
      }
    }
  };
  auto inside = [&](int* p) {
    for (auto* c : {&mem[0], &mem[1], &mem[2], heap_cell.get()}) {
      if (p >= &c->v[0] && p <= &c->v[3]) {
        return p - &c->v[0];
      }
    }
    return static_cast<std::ptrdiff_t>(-1);
  };
  for (auto d = 0; d != mc::bound(); ++d) {
    auto& a = ptrs[mc::choose(4)];
    char const* name = "?";
    switch (mc::choose(9)) {
      case 0: {
        name = "assign target";
        int* const t[] = {&mem[0].v[0], &mem[2].v[3],
                          reinterpret_cast<int*>(a.p),  // its own address
                          reinterpret_cast<int*>(a.p) + 1};
        a.m = t[mc::choose(4)];
        *a.p = a.m;
        break;
      }
      case 1:
        name = "assign null";
        *a.p = nullptr;
        a.m = nullptr;
        break;
      case 2: {
        name = "copy assign";
        auto& b = ptrs[mc::choose(4)];
        *a.p = static_cast<P const&>(*b.p);
        a.m = b.m;
        break;
      }
      case 3: {
        name = "move assign";
        auto& b = ptrs[mc::choose(4)];
        *a.p = std::move(*b.p);
        a.m = b.m;  // the source of a move keeps its target
        break;
      }
      case 4: {
        name = "copy and move construct";
        P t{static_cast<P const&>(*a.p)};
        P u{std::move(t)};
        MC_CHECK(u.get() == a.m, "offset_ptr", "copy construct");
        *a.p = nullptr;
        *a.p = u;
        break;
      }
      case 5:
        name = "increment";
        if (inside(a.m) >= 0 && inside(a.m) < 3) {
          auto& r = ++*a.p;
          ++a.m;
          MC_CHECK(&r == a.p, "offset_ptr", "++ returns itself");
        }
        break;
      case 6:
        name = "decrement";
        if (inside(a.m) > 0) {
          --*a.p;
          --a.m;
        }
        break;
      case 7:
        name = "post increment";
        if (inside(a.m) >= 0 && inside(a.m) < 3) {
          P const r = (*a.p)++;
          MC_CHECK(r.get() == a.m, "offset_ptr:post",
                   "post increment returns %td after the old target",
                   r.get() - a.m);
          ++a.m;
        }
        break;
      case 8:
        name = "post decrement";
        if (inside(a.m) > 0) {
          P const r = (*a.p)--;
          MC_CHECK(r.get() == a.m, "offset_ptr:post",
                   "post decrement returns %td after the old target",
                   r.get() - a.m);
          --a.m;
        }
        break;
    }
    mc::op(name);
    mc::logf("%s", name);
    mc::step();
    check(name);
    if (auto const i = inside(a.m); i >= 0) {
      for (auto k = -i; k != 4 - i; ++k) {
        MC_CHECK(*a.p + k == a.m + k && *a.p - (-k) == a.m + k, "offset_ptr",
                 "arithmetic");
        if (k >= 0) {
          MC_CHECK(&(*a.p)[static_cast<std::size_t>(k)] == a.m + k &&
                       *a.p + ptr_step{static_cast<int>(k)} == a.m + k,
                   "offset_ptr", "index");
        }
      }
      MC_CHECK(&**a.p == a.m, "offset_ptr", "dereference");
    }
    mc::checked();
    auto h = mc::H{};
    for (auto& x : ptrs) {
      h(x.m == nullptr ? 0U : 1U + static_cast<std::uint64_t>(inside(x.m) + 1));
    }
    mc::state(h);
  }
}

// Arithmetic over every distance of a reserved region that is never touched:
// powers of two and their neighbours in both directions, from every end.
template <typename Step, typename P, typename E>
void distance(P const& p, E* const q, E* const lo, std::uint64_t const n, std::uint64_t const d) {
  using I = cista::base_t<Step>;
  if (d > static_cast<std::uint64_t>(std::numeric_limits<I>::max())) {
    return;
  }
  auto const at = static_cast<std::uint64_t>(q - lo);
  auto const k = static_cast<std::ptrdiff_t>(d);
  auto const s = Step{static_cast<I>(d)};
  auto c = p;
  if (at + d <= n) {
    MC_CHECK(c + s == q + k, "offset_ptr:far", "+ %llu (%zu byte step)",
             static_cast<unsigned long long>(d), sizeof(s));
    if constexpr (std::is_same_v<Step, std::size_t>) {
      MC_CHECK(&c[s] == q + k, "offset_ptr:far", "[%llu]",
               static_cast<unsigned long long>(d));
    }
  }
  if (d <= at) {
    MC_CHECK(c - s == q - k, "offset_ptr:far", "- %llu (%zu byte step)",
             static_cast<unsigned long long>(d), sizeof(s));
    if constexpr (std::is_signed_v<I>) {
      MC_CHECK(c + Step{static_cast<I>(-static_cast<I>(d))} == q - k,
               "offset_ptr:far", "+ -%llu (%zu byte step)",
               static_cast<unsigned long long>(d), sizeof(s));
    }
  }
  mc::step();
}

template <typename E>
void far() {
  constexpr auto const kBytes = std::size_t{1} << 40U;
  static auto* const mem = ::mmap(nullptr, kBytes, PROT_NONE,
                                  MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (mem == MAP_FAILED) {
    return;
  }
  auto* const lo = static_cast<E*>(mem);
  auto const n = kBytes / sizeof(E);
  auto const at = std::array<std::uint64_t, 5>{0U, n, n / 2U, 1U, 70000U}[static_cast<std::size_t>(mc::choose(5))];
  auto* const q = lo + at;
  mc::op("far arithmetic");
  struct {
    cista::offset_ptr<E> p{nullptr};
    char pad;
    cista::offset_ptr<void> v{nullptr};
  } x[2];
  auto const via = mc::choose(4);
  switch (via) {
    case 0: x[0].p = q; x[0].v = q; break;
    case 1: x[1].p = q; x[0].p = x[1].p; x[1].v = q; x[0].v = x[1].v; break;
    case 2: x[1].p = q; x[0].p = std::move(x[1].p); x[1].v = q; x[0].v = std::move(x[1].v); break;
    case 3: {
      x[0].p = cista::offset_ptr<E>{q};
      auto const t = cista::offset_ptr<void>{q};
      x[0].v = cista::offset_ptr<void>{t};
      break;
    }
  }
  auto const& p = x[0].p;
  MC_CHECK(p.get() == q && x[0].v.get() == q && static_cast<bool>(p) &&
               static_cast<bool>(x[0].v) && p != nullptr && static_cast<void*>(p) == q &&
               static_cast<void const*>(p) == q,
           "offset_ptr:far", "target");
  for (auto b = 0U; b != 40U; ++b) {
    for (auto const e : {-1, 0, 1}) {
      auto const d = (std::uint64_t{1} << b) + static_cast<std::uint64_t>(e);
      distance<int>(p, q, lo, n, d);
      distance<unsigned>(p, q, lo, n, d);
      distance<std::ptrdiff_t>(p, q, lo, n, d);
      distance<std::size_t>(p, q, lo, n, d);
      distance<std::uint8_t>(p, q, lo, n, d);
      distance<std::uint16_t>(p, q, lo, n, d);
      distance<cista::strong<std::uint8_t, ptr_tag>>(p, q, lo, n, d);
      distance<cista::strong<std::uint16_t, ptr_tag>>(p, q, lo, n, d);
      distance<cista::strong<std::uint32_t, ptr_tag>>(p, q, lo, n, d);
      distance<cista::strong<std::uint64_t, ptr_tag>>(p, q, lo, n, d);
      distance<cista::strong<std::int64_t, ptr_tag>>(p, q, lo, n, d);
      distance<ptr_step>(p, q, lo, n, d);
    }
  }
  mc::checked();
  mc::state(mc::H{}(at)(static_cast<std::uint64_t>(via))(sizeof(E)));
}

MC_SCENARIO("offset_ptr: distances", 0, 0) {
  struct three { char c_[3]; };
  struct page { char c_[4096]; };
  switch (mc::choose(5)) {
    case 0: far<char>(); break;
    case 1: far<std::uint32_t>(); break;
    case 2: far<three>(); break;
    case 3: far<std::uint64_t>(); break;
    case 4: far<page>(); break;
  }
}

MC_SCENARIO("wrapped: element of held memory is destroyed exactly once", 2, 3) {
  trk::R.reset();
  auto const owning = mc::choose(2) == 1;
  {
    cista::wrapped<tr> w;
    auto live = false;
    if (owning) {
      mc::op("wrap owning");
      w = cista::wrapped<tr>{cista::raw::make_unique<tr>(7)};
      live = true;
    } else {
      mc::op("wrap buffer");
      auto mem = cista::byte_buf(sizeof(tr));
      auto* el = new (mem.data()) tr{7};
      w = cista::wrapped<tr>{cista::memory_holder{std::move(mem)}, el};
      live = true;
    }
    for (auto d = 0; d != mc::bound(); ++d) {
      mc::step();
      switch (mc::choose(3)) {
        case 0:
          MC_CHECK((w == nullptr) == !live, "wrapped", "null");
          if (live) {
            MC_CHECK(w->get() == 7 && (*w).get() == 7, "wrapped", "value");
          }
          break;
        case 1: {
          mc::op("move");
          auto u = cista::wrapped<tr>{std::move(w)};
          MC_CHECK(!live || u->get() == 7, "wrapped", "moved value");
          w = std::move(u);
          break;
        }
        case 2:
          mc::op("reset");
          if (live) {
            w.reset();
            live = false;
          }
          break;
      }
      lifetimes(live ? 1U : 0U, "wrapped");
      mc::checked();
    }
    if (live && !owning) {
      w.reset();
    }
  }
  lifetimes(0, "destruction");
}
#endif

}  // namespace
