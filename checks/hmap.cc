// hash_map / hash_set: every operation history vs. std::map / std::set under
// several (colliding) hash functions, exact element lifetimes.
#include "mc.h"
#include "tracked.h"

#include <sanitizer/asan_interface.h>

#include <map>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>

#include "cista/containers/hash_map.h"
#include "cista/containers/hash_set.h"
#include "cista/containers/string.h"

using trk::tr;
using trk::val;

namespace {

enum hash_kind { IDENTITY, CONSTANT, SAME_H2, SAME_H1, SPREAD };

template <hash_kind K>
struct test_hash {
  template <typename T>
  static test_hash create() {
    return {};
  }
  template <typename T>
  cista::hash_t operator()(T const& t) const {
    auto const v = static_cast<std::uint64_t>(val(t));
    switch (K) {
      case IDENTITY: return v;
      case CONSTANT: return 0x1234;
      case SAME_H2: return v << 7U;
      case SAME_H1: return v & 0x7FU;
      case SPREAD: {
        auto x = v * 0x9E3779B97F4A7C15ULL;
        return x ^ (x >> 31);
      }
    }
    return 0;
  }
};

struct test_eq {
  template <typename A, typename B>
  bool operator()(A const& a, B const& b) const {
    return val(a) == val(b);
  }
};

inline void lifetimes(std::size_t const expected, char const* op) {
  MC_CHECK(trk::R.error == nullptr, "hash:lifetime", "%s: %s", op,
           trk::R.error);
  MC_CHECK(trk::R.n == expected, "hash:live", "%s: %u live, expected %zu", op,
           trk::R.n, expected);
}

// Move assignment over content has its own scenario: the release of the
// previous content is a known finding, which must not hide anything here.
template <typename M>
void move_into(M& to, M& from) {
  to.~M();
  new (&to) M{};
  to = std::move(from);
}

template <typename M>
void same_map(M const& m, std::map<int, int> const& r, int const dom,
              char const* which) {
  MC_CHECK(m.size() == r.size() && m.empty() == r.empty(), "hash:size",
           "%s: size %zu, expected %zu", which,
           static_cast<std::size_t>(m.size()), r.size());
  std::size_t n = 0;
  std::set<int> seen;
  using K = typename M::key_type;
  for (auto const& e : m) {
    auto const k = val(e.first);
    MC_CHECK(seen.insert(k).second, "hash:iter_dup", "%s: key %d visited twice",
             which, k);
    auto const it = r.find(k);
    MC_CHECK(it != r.end() && it->second == val(e.second), "hash:iter",
             "%s: iteration yields (%d, %d)", which, k, val(e.second));
    MC_CHECK(++n <= r.size(), "hash:iter", "%s: too many entries", which);
  }
  MC_CHECK(n == r.size(), "hash:iter", "%s: %zu entries visited, expected %zu",
           which, n, r.size());
  auto& mm = const_cast<M&>(m);
  for (auto k = 0; k < dom; ++k) {
    auto const it = r.find(k);
    auto const f = m.find(K(k));
    auto const g = mm.find(K(k));
    MC_CHECK((f != m.end()) == (it != r.end()) &&
                 (g != mm.end()) == (it != r.end()),
             "hash:find", "%s: find(%d)", which, k);
    if (it != r.end()) {
      MC_CHECK(val(f->first) == k && val(f->second) == it->second &&
                   &*f == &*g && val(m.at(K(k))) == it->second,
               "hash:find", "%s: find(%d) has the wrong entry", which, k);
      auto const o = m.get(K(k));
      MC_CHECK(o.has_value() && val(*o) == it->second, "hash:get",
               "%s: get(%d)", which, k);
    } else {
      MC_CHECK(!m.get(K(k)).has_value(), "hash:get", "%s: get(%d)", which, k);
    }
  }
  auto threw = false;
  try {
    (void)m.at(K(dom + 5));
  } catch (std::out_of_range const&) {
    threw = true;
  }
  MC_CHECK(threw, "hash:at", "%s: at(absent) did not throw", which);
}

// bound = number of operations
template <typename M, typename T>
void map_body(std::initializer_list<int> const starts) {
  trk::R.reset();
  {
    M a, b;
    std::map<int, int> ra, rb;
    auto const start = starts.begin()[mc::choose(
        static_cast<int>(starts.size()))];
    auto next = 100;
    for (auto i = 0; i < start; ++i) {
      a.emplace(T(i + 3), T(++next));
      ra.emplace(i + 3, next);
    }
    mc::logf("start: keys 3..%d", start + 2);
    b.emplace(T(1), T(7));
    rb.emplace(1, 7);
    auto const dom = start + 6;
    for (auto d = 0; d < mc::bound(); ++d) {
      auto key = [&] { return mc::choose(4); };
      switch (mc::choose(11)) {
        case 0: {
          mc::op("emplace");
          auto const k = key();
          mc::logf("a.emplace(%d, %d)", k, ++next);
          auto const r = a.emplace(T(k), T(next));
          auto const rr = ra.emplace(k, next);
          MC_CHECK(r.second == rr.second, "hash:emplace", "emplace().second");
          MC_CHECK(val(r.first->first) == k &&
                       val(r.first->second) == rr.first->second,
                   "hash:emplace", "emplace().first");
          break;
        }
        case 1: {
          mc::op("operator[]");
          auto const k = key();
          mc::logf("a[%d] = %d", k, ++next);
          a[T(k)] = T(next);
          ra[k] = next;
          break;
        }
        case 2: {
          mc::op("operator[] read");
          auto const k = key();
          mc::logf("a[%d]", k);
          MC_CHECK(val(a[T(k)]) == ra[k], "hash:[]", "value of a[%d]", k);
          break;
        }
        case 3: {
          mc::op("erase(key)");
          auto const k = key();
          mc::logf("a.erase(%d)", k);
          auto const n = a.erase(T(k));
          MC_CHECK(n == ra.erase(k), "hash:erase", "erase(%d) = %zu", k, n);
          break;
        }
        case 4: {
          mc::op("erase(iterator)");
          if (ra.empty()) {
            break;
          }
          auto it = a.begin();
          auto const skip = mc::choose(2);
          if (skip && ra.size() > 1U) {
            ++it;
          }
          auto const k = val(it->first);
          mc::logf("a.erase(iterator at key %d)", k);
          a.erase(it);
          ra.erase(k);
          break;
        }
        case 5: {
          mc::op("erase while iterating");
          mc::logf("erase every second key while iterating");
          auto flip = false;
          for (auto it = a.begin(); it != a.end(); ++it) {
            flip = !flip;
            if (flip) {
              ra.erase(val(it->first));
              a.erase(it);
            }
          }
          break;
        }
        case 6:
          mc::op("clear");
          mc::logf("a.clear()");
          a.clear();
          ra.clear();
          break;
        case 7: {
          mc::op("copy");
          switch (mc::choose(4)) {
            case 0:
              mc::logf("b = a");
              b = a;
              rb = ra;
              break;
            case 1:
              mc::logf("a = b");
              a = b;
              ra = rb;
              break;
            case 2: {
              mc::logf("a = a");
              auto& x = a;
              a = x;
              break;
            }
            case 3: {
              mc::logf("M c{a}; erase/insert in c; a = c");
              M c{a};
              c.erase(T(0));
              c.emplace(T(2), T(42));
              same_map(a, ra, dom, "copied-from");
              a = c;
              ra.erase(0);
              ra.emplace(2, 42);
              break;
            }
          }
          break;
        }
        case 8: {
          mc::op("move");
          switch (mc::choose(3)) {
            case 0:
              mc::logf("b = move(a)");
              move_into(b, a);
              rb = ra;
              ra.clear();
              break;
            case 1: {
              mc::logf("M c{move(a)}; a = move(c)");
              M c{std::move(a)};
              same_map(a, {}, dom, "moved-from");
              a.emplace(T(0), T(1));  // moved-from stays usable
              move_into(a, c);
              break;
            }
            case 2: {
              mc::logf("swap(a, b)");
              using std::swap;
              swap(a, b);
              swap(ra, rb);
              break;
            }
          }
          break;
        }
        case 9: {
          mc::op("rehash");
          mc::logf("a.rehash()");
          a.rehash();
          break;
        }
        case 10: {
          mc::op("insert");
          auto const k = key();
          mc::logf("a.insert({%d, %d})", k, ++next);
          typename M::entry_t const e{T(k), T(next)};
          auto const r = a.insert(e);
          MC_CHECK(r.second == ra.emplace(k, next).second, "hash:insert",
                   "insert().second");
          break;
        }
      }
      mc::step();
      if (mc::fresh()) {
        if constexpr (std::is_same_v<T, tr>) {
          lifetimes(2U * (ra.size() + rb.size()), "operation");
        }
        same_map(a, ra, dom, "a");
        same_map(b, rb, dom, "b");
        MC_CHECK((a == b) == (ra == rb) && (b == a) == (ra == rb) && a == a,
                 "hash:==", "operator==");
        mc::checked();
        mc::H h;
        for (auto const& e : ra) {
          h(static_cast<unsigned>(e.first))(static_cast<unsigned>(e.second));
        }
        h(999U);
        for (auto const& e : rb) {
          h(static_cast<unsigned>(e.first))(static_cast<unsigned>(e.second));
        }
        mc::state(h);
      }
    }
  }
  if constexpr (std::is_same_v<T, tr>) {
    lifetimes(0, "destructor");
  }
}

// every subset of n keys erased from a table at / around a growth limit, then
// refilled with other keys: tombstones, probing over tombstones, growth
template <typename S, typename T>
void subset_body(std::initializer_list<int> const ns) {
  trk::R.reset();
  auto const n = ns.begin()[mc::choose(static_cast<int>(ns.size()))];
  if (n > mc::bound()) {
    return;
  }
  {
    S s;
    std::set<int> r;
    for (auto i = 0; i < n; ++i) {
      s.emplace(T(i));
      r.insert(i);
    }
    mc::op("erase subset");
    auto mask = 0U;
    for (auto i = 0; i < n; ++i) {
      if (mc::choose(2)) {
        mask |= 1U << i;
        MC_CHECK(s.erase(T(i)) == 1U, "hash:erase", "erase(%d)", i);
        r.erase(i);
      }
    }
    mc::step();
    mc::logf("n=%d, erased mask %x", n, mask);
    auto check = [&](char const* when) {
      MC_CHECK(s.size() == r.size(), "hash:size", "%s: size", when);
      for (auto k = 0; k < 2 * n + 2; ++k) {
        MC_CHECK((s.find(T(k)) != s.end()) == (r.find(k) != r.end()),
                 "hash:find", "%s: find(%d)", when, k);
      }
      std::set<int> seen;
      for (auto const& x : s) {
        MC_CHECK(seen.insert(val(x)).second && seen.size() <= r.size(),
                 "hash:iter", "%s: duplicate in iteration", when);
      }
      MC_CHECK(seen == r, "hash:iter", "%s: iteration", when);
    };
    check("after erase");
    // refill: re-inserting survivors must not duplicate, new keys appear
    for (auto i = 0; i < n; ++i) {
      auto const k = i % 2 == 0 ? i : i + n;
      MC_CHECK(s.insert(T(k)).second == r.insert(k).second, "hash:insert",
               "insert(%d).second", k);
    }
    check("after refill");
    S const c{s};
    MC_CHECK(c == s, "hash:==", "copy differs");
    for (auto k = 0; k < 2 * n; k += 3) {
      MC_CHECK(s.erase(T(k)) == r.erase(k), "hash:erase", "erase(%d)", k);
    }
    check("after second erase");
    mc::checked();
    mc::state(mc::H{}(static_cast<unsigned>(n))(mask));
  }
  if constexpr (std::is_same_v<T, tr>) {
    lifetimes(0, "destructor");
  }
}

template <hash_kind K, typename T>
using raw_map = cista::raw::hash_map<T, T, test_hash<K>, test_eq>;
template <hash_kind K, typename T>
using off_map = cista::offset::hash_map<T, T, test_hash<K>, test_eq>;
template <hash_kind K, typename T>
using raw_set = cista::raw::hash_set<T, test_hash<K>, test_eq>;
template <hash_kind K, typename T>
using off_set = cista::offset::hash_set<T, test_hash<K>, test_eq>;

// long churn: insert/erase in lock-step over many keys at every phase
template <typename S>
void churn() {
  auto const window = 1 + mc::choose(mc::thorough() ? 40 : 20);
  auto const total = 40 + 20 * mc::choose(4);
  mc::op("churn");
  mc::logf("sliding window %d over %d keys", window, total);
  S s;
  std::set<int> r;
  for (auto i = 0; i < total; ++i) {
    s.insert(i);
    r.insert(i);
    if (i >= window) {
      s.erase(i - window);
      r.erase(i - window);
    }
    MC_CHECK(s.size() == r.size(), "hash:size", "churn size at %d", i);
    for (auto k = std::max(0, i - window - 2); k <= i + 2; ++k) {
      MC_CHECK((s.find(k) != s.end()) == (r.count(k) == 1U), "hash:find",
               "churn find(%d) at %d", k, i);
    }
    mc::step();
  }
  auto n = 0U;
  for (auto const x : s) {
    MC_CHECK(r.count(x) == 1U, "hash:iter", "churn iteration");
    ++n;
  }
  MC_CHECK(n == r.size(), "hash:iter", "churn iteration");
  mc::checked();
  mc::state(mc::H{}(static_cast<unsigned>(window))(
      static_cast<unsigned>(total)));
}

// string keys: lookup by every string-like type finds the same entry
template <typename Map, typename Str>
void string_keys() {
  static char const* const W[] = {"", "a", "b", "fifteen_charsss",
                                  "sixteen_charssss", "a longer string key"};
  Map m;
  std::map<std::string, int> r;
  auto v = 0;
  for (auto d = 0; d < mc::bound(); ++d) {
    auto const* w = W[mc::choose(6)];
    auto const s = std::string{w};
    switch (mc::choose(6)) {
      case 0:
        mc::op("m[const char*]");
        mc::logf("m[\"%s\"] = %d", w, ++v);
        m[w] = v;
        r[s] = v;
        break;
      case 1:
        mc::op("m[std::string]");
        mc::logf("m[std::string \"%s\"] = %d", w, ++v);
        m[s] = v;
        r[s] = v;
        break;
      case 2:
        mc::op("m.emplace(Str)");
        mc::logf("m.emplace(\"%s\", %d)", w, ++v);
        m.emplace(Str{w}, v);
        r.emplace(s, v);
        break;
      case 3:
        mc::op("erase(view)");
        mc::logf("erase(view \"%s\")", w);
        MC_CHECK(m.erase(std::string_view{s}) == r.erase(s), "hash:erase",
                 "erase(string_view)");
        break;
      case 4:
        mc::op("erase(const char*)");
        mc::logf("erase(\"%s\")", w);
        MC_CHECK(m.erase(w) == r.erase(s), "hash:erase", "erase(const char*)");
        break;
      case 5:
        mc::op("m[view]");
        mc::logf("m[string_view \"%s\"] = %d", w, ++v);
        m[std::string_view{s}] = v;
        r[s] = v;
        break;
    }
    mc::step();
    if (mc::fresh()) {
      MC_CHECK(m.size() == r.size(), "hash:size", "size %zu expected %zu",
               static_cast<std::size_t>(m.size()), r.size());
      for (auto const* x : W) {
        auto const xs = std::string{x};
        auto const in = r.find(xs) != r.end();
        MC_CHECK((m.find(x) != m.end()) == in, "hash:find", "find(char*) '%s'",
                 x);
        MC_CHECK((m.find(xs) != m.end()) == in, "hash:find",
                 "find(std::string) '%s'", x);
        MC_CHECK((m.find(std::string_view{xs}) != m.end()) == in, "hash:find",
                 "find(string_view) '%s'", x);
        MC_CHECK((m.find(Str{xs}) != m.end()) == in, "hash:find",
                 "find(key type) '%s'", x);
        if (in) {
          MC_CHECK(m.at(x) == r[xs] && m.at(Str{xs}) == r[xs] &&
                       m.find(xs)->second == r[xs],
                   "hash:at", "at('%s')", x);
        }
      }
      MC_CHECK((m.find("") != m.end()) == (r.count("") == 1U) &&
                   (m.find("a") != m.end()) == (r.count("a") == 1U),
               "hash:find", "find(string literal)");
      mc::checked();
      mc::H h;
      for (auto const& e : r) {
        h(e.first.c_str())(static_cast<unsigned>(e.second));
      }
      mc::state(h);
    }
  }
}

// move assignment: exact content; the previous content is released
template <typename M>
void move_assign() {
  trk::R.reset();
  auto const n_to = mc::pick({0, 1, 2, 8});
  auto const n_from = mc::pick({0, 1, 2, 8});
  auto const emptied = mc::choose(2) != 0;
  mc::op("move assignment");
  mc::logf("table of %d%s = move(table of %d)", n_to,
           emptied ? " (cleared)" : "", n_from);
  auto const fill = [](M& m, std::map<int, int>& r, int const n, int const o) {
    for (auto i = 0; i < n; ++i) {
      m.emplace(tr(i), tr(i + o));
      r.emplace(i, i + o);
    }
  };
  {
    M to, from;
    std::map<int, int> r_to, r_from;
    fill(to, r_to, n_to, 100);
    fill(from, r_from, n_from, 200);
    if (emptied) {
      to.clear();
      r_to.clear();
    }
    auto* const old = static_cast<void*>(
        cista::ptr_cast(to.entries_));
    auto const owned = to.self_allocated_;
    to = std::move(from);
    mc::step();
    same_map(to, r_from, 10, "move-assigned");
    same_map(from, {}, 10, "moved-from");
    MC_CHECK(trk::R.error == nullptr, "hash:lifetime", "%s", trk::R.error);
    MC_CHECK(trk::R.n >= 2U * r_from.size(), "hash:live", "entries destroyed");
    from.emplace(tr(1), tr(2));
    to.emplace(tr(9), tr(9));
    r_from.emplace(9, 9);
    same_map(to, r_from, 10, "move-assigned");
    mc::checked();
    if (trk::R.n != 2U * r_from.size() + 2U || 
        (owned && old != nullptr && !__asan_address_is_poisoned(old))) {
      mc::fail("hash:move_assign_leak",
               "the previous content of the assigned-to table is leaked");
    }
  }
  lifetimes(0, "destructor");
}

}  // namespace

#if PART == 1
MC_SCENARIO("move assignment", 0, 0) { move_assign<raw_map<IDENTITY, tr>>(); }
MC_SCENARIO("map<int> constant hash", 4, 5) {
  map_body<raw_map<CONSTANT, int>, int>({0, 6});
}
MC_SCENARIO("map<tracked> identity hash", 4, 5) {
  map_body<off_map<IDENTITY, tr>, tr>({0, 6});
}
MC_SCENARIO("map<tracked> same fingerprint", 3, 4) {
  map_body<raw_map<SAME_H2, tr>, tr>({0, 1, 6, 7, 13});
}
MC_SCENARIO("map<int> same start", 3, 4) {
  map_body<off_map<SAME_H1, int>, int>({5, 6, 7, 13, 14, 27});
}
#else
MC_SCENARIO("set<int> subsets const", 14, 16) {
  subset_body<raw_set<CONSTANT, int>, int>({1, 3, 6, 7, 8, 12, 14, 15, 16});
}
MC_SCENARIO("set<int> subsets identity", 14, 16) {
  subset_body<off_set<IDENTITY, int>, int>({3, 6, 7, 12, 13, 14, 16});
}
MC_SCENARIO("set<tracked> subsets h2", 12, 16) {
  subset_body<off_set<SAME_H2, tr>, tr>({3, 6, 7, 12, 13, 14, 16});
}
MC_SCENARIO("set<int> subsets spread", 14, 16) {
  subset_body<raw_set<SPREAD, int>, int>({6, 7, 13, 14, 15, 16});
}
MC_SCENARIO("churn default hash", 1, 1) { churn<cista::raw::hash_set<int>>(); }
MC_SCENARIO("churn constant hash", 1, 1) { churn<off_set<CONSTANT, int>>(); }
MC_SCENARIO("string keys raw", 4, 5) {
  string_keys<cista::raw::hash_map<cista::raw::string, int>,
              cista::raw::string>();
}
MC_SCENARIO("string keys offset", 3, 5) {
  string_keys<cista::offset::hash_map<cista::offset::string, int>,
              cista::offset::string>();
}
#endif
