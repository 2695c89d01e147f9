// H01: equal values hash equal and are found; equality and order are consistent.
// Every type: all pairs (ordered: all triples through a total order of the
// reference values) of a set of values that contains every value in several
// representations (capacity, inline/heap, owning/viewing, unused bits, table
// layout, address).
#include "mc.h"

#include <array>
#include <chrono>
#include <limits>
#include <optional>
#include <string>
#include <tuple>
#include <variant>
#include <vector>

#include "cista/containers.h"
#include "cista/containers/vecvec.h"
#include "cista/equal_to.h"
#include "cista/hashing.h"
#include "cista/reflection/comparable.h"
#include "cista/strong.h"

namespace {

template <typename A, typename B>
constexpr auto has_eq = cista::is_eq_comparable_v<A const&, B const&>;

template <typename T, typename = void>
constexpr auto has_ne = false;
template <typename T>
constexpr auto has_ne<T, std::void_t<decltype(std::declval<T const&>() != std::declval<T const&>())>> = true;

template <typename T>
cista::hash_t h(T const& t, cista::hash_t const seed = cista::BASE_HASH) {
  auto x = cista::hashing<T>{};
  return x(t, seed);
}

// --- checks
template <bool Op = true, typename T, typename K>
void equality(T const& a, T const& b, K const& ka, K const& kb) {
  auto const same = ka == kb;
  MC_CHECK((cista::equal_to<T>{}(a, b)) == same, "equal_to", "equal_to yields %d for %s values", !same, same ? "equal" : "different");
  if constexpr (Op && has_eq<T, T>) {
    MC_CHECK((a == b) == same, "==", "== yields %d for %s values", !same, same ? "equal" : "different");
    if constexpr (has_ne<T>) {
      MC_CHECK((a != b) != same, "!=", "!= yields %d for %s values", same, same ? "equal" : "different");
    }
  }
  if (same) {
    for (auto const seed : {cista::hash_t{cista::BASE_HASH}, cista::hash_t{0}, cista::hash_t{1}}) {
      MC_CHECK(h(a, seed) == h(b, seed), "hash", "equal values, different hashes");
    }
  }
}

template <typename T, typename U, typename K>
void order(T const& a, U const& b, K const& ka, K const& kb) {
  auto const lt = ka < kb, gt = kb < ka, eq = !lt && !gt;
  MC_CHECK((a < b) == lt, "order", "<: %d", !lt);
  MC_CHECK((a > b) == gt, "order", ">: %d", !gt);
  MC_CHECK((a <= b) == !gt, "order", "<=: %d", gt);
  MC_CHECK((a >= b) == !lt, "order", ">=: %d", lt);
  MC_CHECK((a == b) == eq, "order", "==: %d", !eq);
  MC_CHECK((a != b) == !eq, "order", "!=: %d", eq);
}

template <typename T>
void found(T const& a, T const& b, bool const same) {
  auto s = cista::raw::hash_set<T>{};
  s.emplace(a);
  MC_CHECK((s.find(b) != s.end()) == same, "lookup", "hash_set lookup yields %d for %s keys", !same, same ? "equal" : "different");
  auto m = cista::offset::hash_map<T, int>{};
  m.emplace(a, 1);
  MC_CHECK((m.find(b) != m.end()) == same, "lookup", "hash_map lookup yields %d for %s keys", !same, same ? "equal" : "different");
  m.emplace(b, 2);
  MC_CHECK(m.size() == (same ? 1U : 2U), "lookup", "hash_map size");
}

template <typename T, typename K>
struct val {
  T t_;
  K k_;
};

// all pairs
template <bool Order, bool Op, typename T, typename K>
void pairs(std::vector<val<T, K>> const& v) {
  auto const i = static_cast<std::size_t>(mc::choose(static_cast<int>(v.size())));
  mc::op("all pairs with value");
  for (auto j = std::size_t{0}; j != v.size(); ++j) {
    mc::logf("values %zu, %zu", i, j);
    equality<Op>(v[i].t_, v[j].t_, v[i].k_, v[j].k_);
    if constexpr (Order) {
      order(v[i].t_, v[j].t_, v[i].k_, v[j].k_);
    }
    if constexpr (std::is_copy_constructible_v<T>) {
      found(v[i].t_, v[j].t_, v[i].k_ == v[j].k_);
      auto const c = v[i].t_;  // at another address
      equality<Op>(c, v[j].t_, v[i].k_, v[j].k_);
    }
    mc::state(mc::H{}(static_cast<int>(i))(static_cast<int>(j)));
  }
  mc::checked(v.size());
}

// --- string contents
std::vector<std::string> contents() {
  auto const alpha = std::string{"a\xff", 2};
  auto r = std::vector<std::string>{""};
  auto const depth = static_cast<std::size_t>(mc::bound());
  for (auto i = std::size_t{0}; i < r.size(); ++i) {
    if (r[i].size() < depth) {
      auto const base = r[i];
      for (auto const c : alpha + (depth > 2U ? "b" : "")) {
        r.push_back(base + c);
      }
    }
  }
  for (auto const n : {14U, 15U, 16U, 17U, 40U}) {
    r.push_back(std::string(n, 'x'));
    r.push_back(std::string(n - 1U, 'x') + "y");
  }
  return r;
}
std::vector<std::string> contents_nul() {
  auto r = contents();
  r.push_back(std::string{"\0", 1});
  r.push_back(std::string{"a\0", 2});
  r.push_back(std::string{"a\0b", 3});
  r.push_back(std::string{"xxxxxxxxxxxxxxx\0x", 17});
  return r;
}
bool has_nul(std::string const& s) { return s.find('\0') != std::string::npos; }

// every representation of one content
template <typename S>
std::vector<S> string_reps(std::string const& c, std::string const& stable) {
  auto r = std::vector<S>{};
  r.push_back(S{std::string_view{stable}});  // owning
  r.emplace_back();
  r.back().set_non_owning(std::string_view{stable});
  r.emplace_back();
  r.back().set_owning(std::string(60, 'q').c_str(), 60);
  r.back().set_owning(c.data(), static_cast<typename S::msize_t>(c.size()));
  return r;
}

template <typename S>
void strings() {
  auto const cs = contents_nul();
  auto v = std::vector<val<S, std::string>>{};
  for (auto const& c : cs) {
    for (auto const& s : string_reps<S>(c, c)) {
      v.push_back({s, c});
    }
  }
  // through erase/append histories: same content, larger capacity
  pairs<true, true>(v);
}

template <typename V>
void views() {
  auto const cs = contents_nul();
  auto const cs2 = cs;
  auto v = std::vector<val<V, std::string>>{};
  for (auto i = std::size_t{0}; i != cs.size(); ++i) {
    v.push_back({V{cs[i].data(), static_cast<typename V::msize_t>(cs[i].size())}, cs[i]});
    v.push_back({V{cs2[i].data(), static_cast<typename V::msize_t>(cs[i].size())}, cs[i]});
  }
  pairs<true, true>(v);
}

void cstrings() {
  using S = cista::offset::cstring;
  auto const cs = contents();
  auto v = std::vector<val<S, std::string>>{};
  for (auto const& c : cs) {
    v.push_back({S{std::string_view{c}}, c});
    auto s = S{};
    s.set_non_owning(c.c_str());
    v.push_back({std::move(s), c});
  }
  pairs<true, true>(v);
}

// --- interchangeable string types
constexpr auto kKinds = 13;
template <typename Fn>
void with_string(int const kind, std::string const& c, Fn&& fn) {
  namespace o = cista::offset;
  namespace r = cista::raw;
  char buf[64] = {};
  std::memcpy(buf, c.data(), c.size());
  switch (kind) {
    case 0: fn(o::string{std::string_view{c}}); break;
    case 1: fn(r::string{std::string_view{c}}); break;
    case 2: fn(o::string_view{std::string_view{c}}); break;
    case 3: fn(r::string_view{std::string_view{c}}); break;
    case 4: fn(o::cstring{std::string_view{c}}); break;
    case 5: fn(r::cstring{std::string_view{c}}); break;
    case 6: {
      auto s = cista::basic_cstring_view<o::ptr<char const>>{c.c_str()};
      fn(s);
      break;
    }
    case 7: fn(c); break;
    case 8: fn(std::string_view{c}); break;
    case 9: fn(static_cast<char const*>(c.c_str())); break;
    case 10: fn(buf); break;
    case 11: {  // literal: array of exactly the right size
      if (c.empty()) {
        fn("");
      } else if (c == "a") {
        fn("a");
      } else if (c == "aa") {
        fn("aa");
      } else if (c == "xxxxxxxxxxxxxxxy") {
        fn("xxxxxxxxxxxxxxxy");
      }
      break;
    }
    case 12: {
      auto s = o::string{};
      s.set_non_owning(std::string_view{c});
      fn(s);
      break;
    }
    default: break;
  }
}
constexpr bool zero_terminated(int const kind) { return (kind >= 4 && kind <= 6) || (kind >= 9 && kind <= 11); }

template <typename Key, typename X>
void lookup(std::string const& stored, X const& x, bool const same, char const* key) {
  auto s = cista::raw::hash_set<Key>{};
  s.emplace(Key{std::string_view{stored}});
  MC_CHECK((s.find(x) != s.end()) == same, "lookup", "hash_set<%s>: lookup by an interchangeable key yields %d", key, !same);
  auto m = cista::offset::hash_map<Key, int>{};
  m.emplace(Key{std::string_view{stored}}, 1);
  MC_CHECK((m.find(x) != m.end()) == same, "lookup", "hash_map<%s>: lookup by an interchangeable key yields %d", key, !same);
  MC_CHECK(m.erase(x) == (same ? 1U : 0U), "lookup", "hash_map<%s>: erase by an interchangeable key", key);
}

void interchangeable() {
  auto const cs = contents_nul();
  auto const n = static_cast<int>(cs.size());
  auto const k1 = mc::choose(kKinds), k2 = mc::choose(kKinds);
  auto const& c1 = cs[static_cast<std::size_t>(mc::choose(n))];
  auto const& c2 = cs[static_cast<std::size_t>(mc::choose(n))];
  if ((has_nul(c1) && zero_terminated(k1)) || (has_nul(c2) && zero_terminated(k2))) {
    return;
  }
  mc::op("string pair");
  mc::logf("kind %d len %zu, kind %d len %zu", k1, c1.size(), k2, c2.size());
  auto const same = c1 == c2;
  with_string(k1, c1, [&](auto const& a) {
    with_string(k2, c2, [&](auto const& b) {
      using A = std::decay_t<decltype(a)>;
      using B = std::decay_t<decltype(b)>;
      if (same) {
        for (auto const seed : {cista::hash_t{cista::BASE_HASH}, cista::hash_t{0}}) {
          MC_CHECK(h(a, seed) == h(b, seed), "hash", "equal strings of two types hash differently");
        }
      }
      constexpr auto cista_a = cista::is_string_v<A>;
      constexpr auto cista_b = cista::is_string_v<B>;
      if constexpr ((cista_a || cista_b) && has_eq<decltype(a), decltype(b)> &&
                    (!cista_a || !cista_b || std::is_same_v<A, B>)) {
        order(a, b, c1, c2);
      }
    });
  });
  if (k1 == 0) {
    with_string(k2, c2, [&](auto const& b) {
      lookup<cista::offset::string>(c1, b, same, "offset::string");
      lookup<cista::raw::string>(c1, b, same, "raw::string");
      lookup<cista::raw::string_view>(c1, b, same, "raw::string_view");
      if constexpr (!std::is_same_v<std::decay_t<decltype(b)>, cista::basic_cstring_view<cista::offset::ptr<char const>>> &&
                    !std::is_same_v<std::decay_t<decltype(b)>, cista::offset::cstring> &&
                    !std::is_same_v<std::decay_t<decltype(b)>, cista::raw::cstring>) {
        lookup<std::string>(c1, b, same, "std::string");
      }
    });
  }
  mc::state(mc::H{}(k1)(k2)(c1.c_str()[0])(static_cast<int>(c1.size()))(static_cast<int>(c2.size())));
}

// --- sequences
std::vector<std::vector<int>> seqs() {
  auto r = std::vector<std::vector<int>>{{}};
  auto const depth = static_cast<std::size_t>(mc::bound());
  for (auto i = std::size_t{0}; i < r.size(); ++i) {
    if (r[i].size() < depth) {
      auto const base = r[i];
      for (auto const c : {-1, 0, 7}) {
        r.push_back(base);
        r.back().push_back(c);
      }
    }
  }
  return r;
}

template <typename V, typename Fn>
void vectors(Fn&& el) {
  auto v = std::vector<val<V, std::vector<int>>>{};
  for (auto const& s : seqs()) {
    auto a = V{};
    for (auto const x : s) {
      a.push_back(el(x));
    }
    v.push_back({a, s});
    auto b = V{};
    b.reserve(20);
    for (auto const x : s) {
      b.push_back(el(x));
    }
    for (auto i = 0; i != 9; ++i) {
      b.push_back(el(3));
    }
    while (b.size() != s.size()) {
      b.pop_back();
    }
    v.push_back({std::move(b), s});
  }
  pairs<true, true>(v);
}

// --- tuples of members
struct plain {
  int a_{};
  cista::offset::string b_{};
  std::uint8_t c_{};
};
struct comparable {
  CISTA_COMPARABLE()
  int a_{};
  cista::offset::string b_{};
  std::uint8_t c_{};
};
struct friendly {
  CISTA_FRIEND_COMPARABLE(friendly)
  int a_{};
  cista::offset::string b_{};
  std::uint8_t c_{};
};
struct outer {
  CISTA_COMPARABLE()
  comparable x_{};
  cista::offset::vector<friendly> y_{};
};
struct members {
  auto cista_members() { return std::tie(a_, b_, c_); }
  members() = default;
  members(int a, cista::offset::string b, std::uint8_t c) : c_{c}, b_{std::move(b)}, a_{a} {}
  std::uint8_t c_{};
  cista::offset::string b_{};
  int a_{};
};

using key3 = std::tuple<int, std::string, int>;
std::vector<key3> keys3() {
  auto r = std::vector<key3>{};
  for (auto const a : {-1, 0, 2}) {
    for (auto const* b : {"", "a", "aaaaaaaaaaaaaaaaaaaa"}) {
      for (auto const c : {0, 255}) {
        r.push_back({a, b, c});
      }
    }
  }
  return r;
}
template <typename T>
std::vector<val<T, key3>> vals3() {
  auto v = std::vector<val<T, key3>>{};
  static auto const ks = keys3();
  for (auto const& k : ks) {
    v.push_back({T{int{std::get<0>(k)}, cista::offset::string{std::get<1>(k).c_str()}, static_cast<std::uint8_t>(std::get<2>(k))}, k});
    auto s = cista::offset::string{};
    s.set_non_owning(std::get<1>(k).c_str());
    v.push_back({T{int{std::get<0>(k)}, cista::offset::string{s}, static_cast<std::uint8_t>(std::get<2>(k))}, k});
  }
  return v;
}

// --- scalars
template <typename T>
void scalars() {
  auto v = std::vector<val<T, T>>{};
  using L = std::numeric_limits<T>;
  for (auto const x : {L::min(), T{L::min() + T{1}}, static_cast<T>(0), static_cast<T>(1), static_cast<T>(-1), static_cast<T>(L::max() - T{1}), L::max()}) {
    v.push_back({x, x});
  }
  pairs<true, true>(v);
}
template <typename T>
void floats() {
  auto v = std::vector<val<T, T>>{};
  using L = std::numeric_limits<T>;
  for (auto const x : {T{0}, -T{0}, T{1}, T{0.5}, T{0.25}, L::min(), L::denorm_min(), L::max() / T{1e20}, L::epsilon()}) {
    v.push_back({x, x});
  }
  pairs<true, true>(v);
}
// integers of different width that compare equal can be used for lookups
template <typename K, typename X>
void width() {
  for (auto const k : {0, 1, 5, 127}) {
    for (auto const x : {0, 1, 5, 127}) {
      auto s = cista::raw::hash_map<K, int>{};
      s.emplace(static_cast<K>(k), 1);
      MC_CHECK((s.find(static_cast<X>(x)) != s.end()) == (k == x), "lookup", "lookup of %d by an integer of another width (%zu/%zu bytes)", x, sizeof(K),
               sizeof(X));
    }
  }
}

enum class color : std::uint16_t { A, B, C = 65535 };
struct tag {};

template <std::size_t N>
void bitsets() {
  using B = cista::bitset<N>;
  auto v = std::vector<val<B, std::string>>{};
  auto const w = N > 7U ? std::size_t{7} : N;  // low 4 and high bits vary
  for (auto i = 0U; i != (1U << w); ++i) {
    auto s = std::string(N, '0');
    for (auto b = std::size_t{0}; b != w; ++b) {
      if ((i >> b) & 1U) {
        auto const at = b < 4U ? b : N - 1U - (b - 4U);
        s[N - 1U - at] = '1';
      }
    }
    v.push_back({B{s}, s});
    // unused bits set
    auto d = B::max();
    for (auto b = std::size_t{0}; b != N; ++b) {
      d.set(b, s[N - 1U - b] == '1');
    }
    v.push_back({d, s});
    auto e = B{s};
    e = ~e;
    e = ~e;
    v.push_back({e, s});
  }
  pairs<true, true>(v);
}

template <typename B>
void bitvecs() {
  auto const n = static_cast<std::size_t>(std::array<int, 6>{0, 1, 5, 63, 64, 67}[static_cast<std::size_t>(mc::choose(6))]);
  using K = std::pair<std::size_t, std::string>;
  auto v = std::vector<val<B, K>>{};
  auto const w = n > 4U ? std::size_t{4} : n;
  for (auto i = 0U; i != (1U << w); ++i) {
    auto s = std::string(n, '0');
    for (auto b = std::size_t{0}; b != w; ++b) {
      if ((i >> b) & 1U) {
        auto const at = b < 2U ? b : n - 1U - (b - 2U);
        s[n - 1U - at] = '1';
      }
    }
    auto a = B{};
    a.set(s);
    v.push_back({a, {n, s}});
    // unused bits set, larger capacity
    auto d = B{};
    d.resize(200);
    d.one_out();
    d.resize(static_cast<unsigned>(n));
    if (n != 0U) {
      d.one_out();
    }
    d.set(s);
    v.push_back({d, {n, s}});
    auto e = B{};
    e.set(s);
    e = ~e;
    e = ~e;
    v.push_back({e, {n, s}});
  }
  pairs<true, true>(v);
}
template <typename B>
void bitvec_sizes() {
  auto v = std::vector<val<B, std::string>>{};
  for (auto const n : {0U, 1U, 2U, 64U, 65U, 128U}) {
    for (auto const one : {false, true}) {
      if (one && n == 0U) {
        continue;
      }
      auto s = std::string(n, '0');
      if (one) {
        s[0] = '1';
      }
      auto a = B{};
      a.set(s);
      v.push_back({std::move(a), s});
    }
  }
  pairs<false, true>(v);
}

// --- hash tables as values
template <typename M>
M build_map(std::vector<int> const& order, int const rep) {
  auto m = M{};
  if (rep == 2) {
    for (auto i = 100; i != 120; ++i) {
      m.emplace(i, i);
    }
  }
  for (auto const i : order) {
    m.emplace(i, i / 2);
  }
  if (rep == 2) {
    for (auto i = 100; i != 120; ++i) {
      m.erase(i);
    }
  }
  return m;
}
template <typename S>
S build_set(std::vector<int> const& order, int const rep) {
  auto m = S{};
  if (rep == 2) {
    for (auto i = 100; i != 120; ++i) {
      m.emplace(i);
    }
  }
  for (auto const i : order) {
    m.emplace(i);
  }
  if (rep == 2) {
    for (auto i = 100; i != 120; ++i) {
      m.erase(i);
    }
  }
  return m;
}
void tables() {
  auto const n = mc::choose(4);
  auto const off = mc::choose(40);
  auto ids = std::vector<int>{};
  for (auto i = 0; i != n; ++i) {
    ids.push_back(off + i * 17);
  }
  auto v = std::vector<val<cista::offset::hash_map<int, int>, std::vector<int>>>{};
  auto s = std::vector<val<cista::offset::hash_set<int>, std::vector<int>>>{};
  auto perm = ids;
  do {
    for (auto rep = 0; rep != 3; ++rep) {
      v.push_back({build_map<cista::offset::hash_map<int, int>>(perm, rep), ids});
      s.push_back({build_set<cista::offset::hash_set<int>>(perm, rep), ids});
      if (rep == 1) {
        v.back().t_.rehash();
        s.back().t_.rehash();
      }
    }
  } while (std::next_permutation(perm.begin(), perm.end()));
  auto more = ids;
  more.push_back(1000);
  v.push_back({build_map<cista::offset::hash_map<int, int>>(more, 0), more});
  s.push_back({build_set<cista::offset::hash_set<int>>(more, 0), more});
  mc::op("tables");
  for (auto i = std::size_t{0}; i != v.size(); ++i) {
    for (auto j = std::size_t{0}; j != v.size(); ++j) {
      equality(v[i].t_, v[j].t_, v[i].k_, v[j].k_);
      equality(s[i].t_, s[j].t_, s[i].k_, s[j].k_);
    }
  }
}

// members whose equality is not bitwise
struct holder {
  auto cista_members() { return std::tie(a_, b_, c_, d_, e_); }
  cista::bitset<5> a_{};
  cista::offset::bitvec b_{};
  cista::offset::hash_map<int, int> c_{};
  double d_{};
  cista::pair<cista::bitset<5>, int> e_{};
};
void holders() {
  auto v = std::vector<val<holder, int>>{};
  for (auto k = 0; k != 2; ++k) {
    for (auto rep = 0; rep != 3; ++rep) {
      auto x = holder{};
      x.a_ = rep == 0 ? cista::bitset<5>{} : cista::bitset<5>::max();
      x.b_.resize(rep == 0 ? 5U : 30U);
      if (rep != 0) {
        x.b_.one_out();
      }
      x.b_.resize(5U);
      for (auto i = 0U; i != 5U; ++i) {
        x.a_.set(i, i % 2U == 0U);
        x.b_.set(i, i % 2U == 0U);
      }
      x.c_ = build_map<cista::offset::hash_map<int, int>>(rep == 1 ? std::vector<int>{4, 1, 2} : std::vector<int>{1, 2, 4}, rep);
      x.d_ = rep == 1 ? -0.0 : 0.0;
      x.e_.first = x.a_;
      x.e_.second = k;
      v.push_back({std::move(x), k});
    }
  }
  pairs<false, false>(v);
  auto w = std::vector<val<cista::offset::vector<cista::bitset<5>>, int>>{};
  for (auto const& x : v) {
    w.push_back({{x.t_.a_}, 0});
  }
  pairs<false, false>(w);
}

// --- sums
template <typename Vals>
auto valueless(Vals& v, int) -> decltype(v.front().t_.clear(), void()) {
  auto x = v.front().t_;  // never had / lost its value
  x.clear();
  v.push_back({x, {255, 0, ""}});
  v.push_back({decltype(x){}, {255, 0, ""}});
}
template <typename Vals>
void valueless(Vals&, long) {}

template <typename V>
void variants() {
  using K = std::tuple<int, int, std::string>;
  auto v = std::vector<val<V, K>>{};
  for (auto const i : {0, 1, 7}) {
    v.push_back({V{i}, {0, i, ""}});
    auto x = V{cista::offset::string{"something rather long, on the heap"}};
    x = i;
    v.push_back({x, {0, i, ""}});
  }
  static auto const texts = std::array<std::string, 4>{"", "0", "a", "aaaaaaaaaaaaaaaaaaaaaaaaa"};
  for (auto const& t : texts) {
    v.push_back({V{cista::offset::string{t.c_str()}}, {1, 0, t}});
    auto s = cista::offset::string{};
    s.set_non_owning(t.c_str());
    v.push_back({V{s}, {1, 0, t}});
  }
  for (auto const c : {0U, 1U, 7U}) {
    auto x = V{1};
    x = static_cast<std::uint8_t>(c);
    v.push_back({x, {2, static_cast<int>(c), ""}});
  }
  valueless(v, 0);
  pairs<true, true>(v);
}
void optionals() {
  using O = std::optional<cista::offset::string>;
  auto v = std::vector<val<O, std::pair<int, std::string>>>{};
  v.push_back({O{}, {0, ""}});
  for (auto const* t : {"", "a", "aaaaaaaaaaaaaaaaaaaaaaaaa"}) {
    v.push_back({O{cista::offset::string{t}}, {1, t}});
    auto s = cista::offset::string{};
    s.set_non_owning(t);
    v.push_back({O{s}, {1, t}});
  }
  pairs<true, true>(v);
}

// --- pointers
void pointers() {
  using P = cista::offset::ptr<int>;
  int x[3] = {0, 0, 0};
  auto const i = mc::choose(4), j = mc::choose(4);
  mc::op("pointers");
  int* const a = i == 3 ? nullptr : &x[i];
  int* const b = j == 3 ? nullptr : &x[j];
  P pa = a;
  auto holder = std::array<P, 7>{};
  holder[static_cast<std::size_t>(mc::choose(7))] = b;
  for (auto const& pb : holder) {
    auto const same = pa.get() == pb.get();
    MC_CHECK((cista::equal_to<P>{}(pa, pb)) == same, "equal_to", "equal_to of offset pointers");
    if (same) {
      MC_CHECK(h(pa) == h(pb), "hash", "hash of offset pointers to the same object");
      MC_CHECK(h(pa) == h(pb.get()), "hash", "hash of offset and raw pointers to the same object");
    }
    auto s = cista::offset::hash_set<P>{};
    s.emplace(pa);
    MC_CHECK((s.find(pb) != s.end()) == same, "lookup", "lookup by offset pointer");
    MC_CHECK((s.find(pb.get()) != s.end()) == same, "lookup", "lookup by raw pointer");
  }
}

void chrono() {
  using D = std::chrono::duration<std::int32_t, std::ratio<60>>;
  using TP = std::chrono::time_point<std::chrono::system_clock, std::chrono::seconds>;
  auto v = std::vector<val<D, int>>{};
  auto w = std::vector<val<TP, int>>{};
  for (auto const i : {-5, 0, 1, 60}) {
    v.push_back({D{i}, i});
    w.push_back({TP{std::chrono::seconds{i}}, i});
  }
  if (mc::choose(2) == 0) {
    pairs<true, true>(v);
  } else {
    pairs<true, true>(w);
  }
}

template <typename P>
void std_pairs() {
  using K = std::pair<std::string, int>;
  auto v = std::vector<val<P, K>>{};
  static auto const texts = std::array<std::string, 4>{"", "0", "a", "aaaaaaaaaaaaaaaaaaaaaaaaa"};
  for (auto const& t : texts) {
    for (auto const i : {-1, 0, 97}) {
      v.push_back({P{cista::offset::string{t.c_str()}, i}, {t, i}});
      auto s = cista::offset::string{};
      s.set_non_owning(t.c_str());
      v.push_back({P{s, i}, {t, i}});
    }
  }
  pairs<true, true>(v);
}

template <typename A>
void arrays() {
  using K = std::vector<int>;
  auto v = std::vector<val<A, K>>{};
  for (auto const a : {-1, 0, 3}) {
    for (auto const b : {-1, 0, 3}) {
      v.push_back({A{{static_cast<std::int16_t>(a), static_cast<std::int16_t>(b)}}, {a, b}});
    }
  }
  pairs<true, true>(v);
}

void vecvecs() {
  using V = cista::raw::vecvec<std::uint32_t, int>;
  using K = std::vector<std::vector<int>>;
  auto v = std::vector<val<V, K>>{};
  auto shapes = std::vector<K>{{}, {{}}, {{}, {1}}, {{1}, {}}, {{1}}, {{1}, {2, 3}}, {{1, 2}, {3}}, {{1, 2, 3}}, {{}, {1, 2, 3}}};
  for (auto const& s : shapes) {
    auto a = V{}, b = V{};
    for (auto const& x : s) {
      a.emplace_back(x);
      b.emplace_back(std::vector<int>{});
      for (auto const y : x) {
        b.back().push_back(y);
      }
    }
    v.push_back({std::move(a), s});
    v.push_back({std::move(b), s});
  }
  auto const n = static_cast<int>(v.size());
  auto const i = static_cast<std::size_t>(mc::choose(n)), j = static_cast<std::size_t>(mc::choose(n));
  mc::op("vecvec pair");
  equality<false>(v[i].t_, v[j].t_, v[i].k_, v[j].k_);
}

}  // namespace

#if PART == 1
MC_SCENARIO("offset::string", 2, 3) { strings<cista::offset::string>(); }
MC_SCENARIO("raw::string", 2, 3) { strings<cista::raw::string>(); }
MC_SCENARIO("offset::string_view", 2, 3) { views<cista::offset::string_view>(); }
MC_SCENARIO("raw::string_view", 2, 3) { views<cista::raw::string_view>(); }
MC_SCENARIO("cstring", 2, 3) { cstrings(); }
MC_SCENARIO("interchangeable strings", 1, 2) { interchangeable(); }
#else
MC_SCENARIO("offset::vector<int>", 2, 3) {
  vectors<cista::offset::vector<int>>([](int const i) { return i; });
}
MC_SCENARIO("raw::vector<strong>", 2, 3) {
  using S = cista::strong<int, tag>;
  vectors<cista::raw::vector<S>>([](int const i) { return S{i}; });
}
MC_SCENARIO("struct", 1, 1) { pairs<false, true>(vals3<plain>()); }
MC_SCENARIO("comparable struct", 1, 1) { pairs<true, true>(vals3<comparable>()); }
MC_SCENARIO("friend comparable struct", 1, 1) { pairs<true, true>(vals3<friendly>()); }
MC_SCENARIO("struct with cista_members", 1, 1) { pairs<false, true>(vals3<members>()); }
MC_SCENARIO("std::tuple", 1, 1) { pairs<true, true>(vals3<std::tuple<int, cista::offset::string, std::uint8_t>>()); }
MC_SCENARIO("tuple", 1, 1) {
  // not hashable: order only
  auto const v = vals3<cista::tuple<int, cista::offset::string, std::uint8_t>>();
  auto const n = static_cast<int>(v.size());
  auto const i = static_cast<std::size_t>(mc::choose(n)), j = static_cast<std::size_t>(mc::choose(n));
  mc::op("tuple");
  order(v[i].t_, v[j].t_, v[i].k_, v[j].k_);
}
MC_SCENARIO("nested comparable structs", 1, 1) {
  auto const a = vals3<comparable>();
  auto const b = vals3<friendly>();
  using K = std::pair<key3, std::vector<key3>>;
  auto v = std::vector<val<outer, K>>{};
  for (auto i = std::size_t{0}; i < a.size(); i += 5U) {
    v.push_back({outer{a[i].t_, {}}, {a[i].k_, {}}});
    for (auto j = std::size_t{0}; j < b.size(); j += 7U) {
      v.push_back({outer{a[i].t_, {b[j].t_}}, {a[i].k_, {b[j].k_}}});
    }
  }
  pairs<true, true>(v);
}
MC_SCENARIO("integers", 1, 1) {
  switch (mc::choose(8)) {
    case 0: return scalars<std::int8_t>();
    case 1: return scalars<std::uint8_t>();
    case 2: return scalars<std::int16_t>();
    case 3: return scalars<std::uint16_t>();
    case 4: return scalars<std::int32_t>();
    case 5: return scalars<std::uint32_t>();
    case 6: return scalars<std::int64_t>();
    default: return scalars<std::uint64_t>();
  }
}
MC_SCENARIO("bool, enum", 1, 1) {
  if (mc::choose(2) == 0) {
    pairs<true, true>(std::vector<val<char, int>>{{'a', 'a'}, {'b', 'b'}});
  } else {
    pairs<true, true>(std::vector<val<color, int>>{{color::A, 0}, {color::B, 1}, {color::C, 2}});
  }
}
MC_SCENARIO("floating point", 1, 1) {
  if (mc::choose(2) == 0) {
    floats<float>();
  } else {
    floats<double>();
  }
}
MC_SCENARIO("integers of different width", 1, 1) {
  mc::op("width");
  switch (mc::choose(6)) {
    case 0: return width<std::uint64_t, int>();
    case 1: return width<std::uint32_t, std::uint64_t>();
    case 2: return width<std::uint8_t, std::uint32_t>();
    case 3: return width<std::int16_t, std::uint64_t>();
    case 4: return width<std::uint64_t, std::uint8_t>();
    default: return width<std::int64_t, std::size_t>();
  }
}
MC_SCENARIO("strong", 1, 1) {
  using S = cista::strong<std::int16_t, tag>;
  auto v = std::vector<val<S, int>>{};
  for (auto const i : {-1, 0, 1, 255, 256}) {
    v.push_back({S{static_cast<std::int16_t>(i)}, i});
  }
  pairs<true, true>(v);
}
MC_SCENARIO("bitset<5>", 1, 1) { bitsets<5>(); }
MC_SCENARIO("bitset<64>", 1, 1) { bitsets<64>(); }
MC_SCENARIO("bitset<70>", 1, 1) { bitsets<70>(); }
MC_SCENARIO("offset::bitvec", 1, 1) { bitvecs<cista::offset::bitvec>(); }
MC_SCENARIO("raw::bitvec", 1, 1) { bitvecs<cista::raw::bitvec>(); }
MC_SCENARIO("bitvec sizes", 1, 1) { bitvec_sizes<cista::raw::bitvec>(); }
MC_SCENARIO("hash tables", 1, 1) { tables(); }
MC_SCENARIO("members", 1, 1) { holders(); }
MC_SCENARIO("variant", 1, 1) { variants<cista::variant<int, cista::offset::string, std::uint8_t>>(); }
MC_SCENARIO("std::variant", 1, 1) { variants<std::variant<int, cista::offset::string, std::uint8_t>>(); }
MC_SCENARIO("std::optional", 1, 1) { optionals(); }
MC_SCENARIO("pointers", 1, 1) { pointers(); }
MC_SCENARIO("chrono", 1, 1) { chrono(); }
MC_SCENARIO("pair", 1, 1) { std_pairs<cista::pair<cista::offset::string, int>>(); }
MC_SCENARIO("std::pair", 1, 1) { std_pairs<std::pair<cista::offset::string, int>>(); }
MC_SCENARIO("array", 1, 1) { arrays<cista::array<std::int16_t, 2>>(); }
MC_SCENARIO("std::array", 1, 1) { arrays<std::array<std::int16_t, 2>>(); }
MC_SCENARIO("vecvec", 1, 1) { vecvecs(); }
#endif
