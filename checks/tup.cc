// tuple for all element type combinations, pair, array and strong types for all operands.
#include "mc.h"
#include "tracked.h"

#include <algorithm>
#include <array>
#include <functional>
#include <sstream>
#include <string>
#include <tuple>

#include "cista/containers/array.h"
#include "cista/containers/pair.h"
#include "cista/containers/string.h"
#include "cista/containers/tuple.h"
#include "cista/strong.h"

namespace {

struct alignas(32) big {
  friend bool operator==(big const& a, big const& b) { return a.v_ == b.v_; }
  friend bool operator<(big const& a, big const& b) { return a.v_ < b.v_; }
  friend bool operator!=(big const& a, big const& b) { return a.v_ != b.v_; }
  friend bool operator>(big const& a, big const& b) { return a.v_ > b.v_; }
  friend bool operator<=(big const& a, big const& b) { return a.v_ <= b.v_; }
  friend bool operator>=(big const& a, big const& b) { return a.v_ >= b.v_; }
  char v_;
};

using str = cista::offset::string;
using types = std::tuple<char, std::uint16_t, double, big, str, trk::tr, std::uint32_t>;
constexpr auto kTypes = std::tuple_size_v<types>;
constexpr auto kValues = 3;
template <int I>
using type_at = std::tuple_element_t<static_cast<std::size_t>(I), types>;

template <typename T>
T val(int const i) {
  if constexpr (std::is_same_v<T, big>) {
    return big{static_cast<char>(i - 1)};
  } else if constexpr (std::is_same_v<T, str>) {
    return i == 0 ? str{""} : i == 1 ? str{"abc"} : str{"abcdefghijklmnopqrstuvwxyz"};
  } else if constexpr (std::is_same_v<T, std::uint32_t>) {
    return i == 0 ? 0U : i == 1 ? 1U : 0xFFFFFFFFU;
  } else {
    return static_cast<T>(i * 3);
  }
}

template <typename... Ts, std::size_t... Is>
cista::tuple<Ts...> make(int const* v, std::index_sequence<Is...>) {
  return cista::tuple<Ts...>{val<Ts>(v[Is])...};
}

template <typename... Ts, std::size_t... Is>
void expect(cista::tuple<Ts...> const& t, int const* v, char const* what, std::index_sequence<Is...>) {
  auto const ok = std::array<bool, sizeof...(Ts)>{(cista::get<Is>(t) == val<Ts>(v[Is]))...};
  for (auto i = std::size_t{0}; i != ok.size(); ++i) {
    MC_CHECK(ok[i], "element", "%s: element %zu has the wrong value", what, i);
  }
  // storage: inside, aligned, disjoint
  auto const addr = std::array<std::uintptr_t, sizeof...(Ts)>{reinterpret_cast<std::uintptr_t>(&cista::get<Is>(t))...};
  auto const size = std::array<std::size_t, sizeof...(Ts)>{sizeof(Ts)...};
  auto const align = std::array<std::size_t, sizeof...(Ts)>{alignof(Ts)...};
  auto const base = reinterpret_cast<std::uintptr_t>(&t);
  for (auto i = std::size_t{0}; i != addr.size(); ++i) {
    MC_CHECK(addr[i] >= base && addr[i] + size[i] <= base + sizeof(t), "storage", "element %zu lies outside", i);
    MC_CHECK(addr[i] % align[i] == 0U, "storage", "element %zu is misaligned", i);
    for (auto j = std::size_t{0}; j != i; ++j) {
      MC_CHECK(addr[i] >= addr[j] + size[j] || addr[j] >= addr[i] + size[i], "storage", "elements %zu and %zu overlap", i, j);
    }
  }
}

template <typename... Ts>
void check_types() {
  using T = cista::tuple<Ts...>;
  constexpr auto N = sizeof...(Ts);
  constexpr auto seq = std::make_index_sequence<N>{};
  static_assert(cista::tuple_size_v<T> == N && std::tuple_size_v<T> == N);
  static_assert(std::is_same_v<std::tuple_element_t<N - 1U, T>, std::tuple_element_t<N - 1U, std::tuple<Ts...>>>);
  static_assert(std::is_same_v<cista::tuple_element_t<0U, T>, std::tuple_element_t<0U, std::tuple<Ts...>>>);
  static_assert(alignof(T) >= std::max({alignof(Ts)...}));
  trk::R.reset();
  {
    int v[N], w[N];
    for (auto i = std::size_t{0}; i != N; ++i) {
      v[i] = mc::choose(kValues);
    }
    for (auto i = std::size_t{0}; i != N; ++i) {
      w[i] = mc::choose(kValues);
    }
    auto a = make<Ts...>(v, seq);
    auto b = make<Ts...>(w, seq);
    expect(a, v, "constructed", seq);
    auto const sa = std::vector<int>(v, v + N), sb = std::vector<int>(w, w + N);
    auto const& ca = a;
    auto const& cb = b;
    MC_CHECK((ca == cb) == (sa == sb) && (a == b) == (sa == sb), "==", "==");
    MC_CHECK((ca != cb) == (sa != sb), "!=", "!=");
    MC_CHECK((ca < cb) == (sa < sb) && (ca > cb) == (sa > sb) && (ca <= cb) == (sa <= sb) && (ca >= cb) == (sa >= sb), "order",
             "order of two tuples");
    // apply: in order, once each, to the elements themselves
    auto seen = std::vector<void const*>{};
    auto const collect = [&](auto&... x) { (seen.push_back(&x), ...); };
    auto const all = [&](auto const& t) {
      return std::apply([&](auto... i) { return std::vector<void const*>{&cista::get<decltype(i)::value>(t)...}; },
                        [&]<std::size_t... Is>(std::index_sequence<Is...>) {
                          return std::tuple<std::integral_constant<std::size_t, Is>...>{};
                        }(seq));
    };
    cista::apply(collect, a);
    MC_CHECK(seen == all(a), "apply", "apply on a mutable tuple");
    seen.clear();
    cista::apply([&](auto const&... x) { (seen.push_back(&x), ...); }, ca);
    MC_CHECK(seen == all(a), "apply", "apply on a const tuple");
    auto const n = cista::apply([](auto const&... x) { return sizeof...(x); }, ca);
    MC_CHECK(n == N, "apply", "apply returns the result");
    // element-wise apply on two tuples
    auto both = std::vector<void const*>{};
    seen.clear();
    cista::apply(
        [&](auto const& x, auto const& y) {
          seen.push_back(&x);
          both.push_back(&y);
        },
        ca, cb);
    MC_CHECK(seen == all(a) && both == all(b), "apply2", "apply on two tuples");

    auto c = ca;
    expect(c, v, "copy", seq);
    expect(a, v, "source of copy", seq);
    b = ca;
    expect(b, v, "copy assigned", seq);
    expect(a, v, "source of copy assignment", seq);
    auto& self = b;
    b = self;
    expect(b, v, "self assigned", seq);
    auto d = std::move(c);
    expect(d, v, "moved", seq);
    auto e = make<Ts...>(w, seq);
    e = std::move(d);
    expect(e, v, "move assigned", seq);
    d = make<Ts...>(w, seq);
    expect(d, w, "assigned after move", seq);
    std::swap(d, e);
    expect(d, v, "swapped", seq);
    expect(e, w, "swapped", seq);
    // write through get
    cista::get<N - 1U>(d) = cista::get<N - 1U>(e);
    v[N - 1U] = w[N - 1U];
    expect(d, v, "element assigned", seq);
    auto f = T{};
    auto const z = std::array<bool, N>{(cista::apply([](auto const&... x) { return ((x == std::decay_t<decltype(x)>{}) && ...); }, f),
                                        sizeof(Ts) != 0U)...};
    MC_CHECK(z[0] && cista::apply([](auto const&... x) { return ((x == std::decay_t<decltype(x)>{}) && ...); }, f), "default",
             "default constructed elements");
  }
  MC_CHECK(trk::R.error == nullptr, "lifetime", "%s", trk::R.error);
  MC_CHECK(trk::R.n == 0U, "lifetime", "%u elements not destroyed", trk::R.n);
  mc::checked();
}

template <int A, int B, int... C>
void third(int const c, std::integer_sequence<int, C...>) {
  ((c == C ? check_types<type_at<A>, type_at<B>, type_at<C>>() : void()), ...);
}
template <int A, int... B>
void second(int const b, std::integer_sequence<int, B...> s) {
  auto const c = mc::choose(static_cast<int>(kTypes) + 1) - 1;
  if (c == -1) {
    ((b == B ? check_types<type_at<A>, type_at<B>>() : void()), ...);
  } else {
    ((b == B ? third<A, B>(c, s) : void()), ...);
  }
}

constexpr auto kSeq = std::make_integer_sequence<int, static_cast<int>(kTypes)>{};

#if PART <= 7
MC_SCENARIO("tuple", 1, 1) {
  auto const b = mc::choose(static_cast<int>(kTypes) + 1) - 1;
  mc::logf("types: %d %d", PART - 1, b);
  if (b == -1) {
    check_types<type_at<PART - 1>>();
  } else {
    second<PART - 1>(b, kSeq);
  }
}
#else

// higher arities, nesting
MC_SCENARIO("tuple arity 6", 1, 1) { check_types<char, str, char, double, std::uint16_t, trk::tr>(); }
MC_SCENARIO("tuple nested", 1, 1) {
  using in = cista::tuple<char, double>;
  using out = cista::tuple<char, in, std::uint16_t>;
  int v[4], w[4];
  for (auto& x : v) {
    x = mc::choose(3);
  }
  for (auto& x : w) {
    x = mc::choose(3);
  }
  auto const mk = [](int const* x) {
    return out{static_cast<char>(x[0]), in{static_cast<char>(x[1]), static_cast<double>(x[2])}, static_cast<std::uint16_t>(x[3])};
  };
  auto const a = mk(v), b = mk(w);
  auto const sa = std::vector<int>(v, v + 4), sb = std::vector<int>(w, w + 4);
  MC_CHECK((a == b) == (sa == sb) && (a != b) == (sa != sb) && (a < b) == (sa < sb) && (a > b) == (sa > sb) &&
               (a <= b) == (sa <= sb) && (a >= b) == (sa >= sb),
           "nested", "comparison of nested tuples");
  mc::checked();
}
struct move_only {
  explicit move_only(int const v) : v_{v} {}
  move_only(move_only&& o) noexcept : v_{std::exchange(o.v_, -1)} {}
  move_only& operator=(move_only&& o) noexcept {
    v_ = std::exchange(o.v_, -1);
    return *this;
  }
  int v_;
};
MC_SCENARIO("tuple move only", 1, 1) {
  auto const x = mc::choose(3), y = mc::choose(3), z = mc::choose(3);
  using T = cista::tuple<move_only, char, move_only>;
  auto t = T{move_only{x}, static_cast<char>(y), move_only{z}};
  MC_CHECK(cista::get<0>(t).v_ == x && cista::get<1>(t) == y && cista::get<2>(t).v_ == z, "move_only", "constructed");
  auto u = std::move(t);
  MC_CHECK(cista::get<0>(u).v_ == x && cista::get<1>(u) == y && cista::get<2>(u).v_ == z && cista::get<0>(t).v_ == -1, "move_only",
           "moved");
  auto w = T{move_only{7}, 'c', move_only{8}};
  w = std::move(u);
  MC_CHECK(cista::get<0>(w).v_ == x && cista::get<1>(w) == y && cista::get<2>(w).v_ == z && cista::get<2>(u).v_ == -1, "move_only",
           "move assigned");
  mc::checked();
}

template <typename P, typename Mk>
void pairs_like(Mk&& mk) {
  int v[2], w[2];
  for (auto* x : {v, v + 1, w, w + 1}) {
    *x = mc::choose(3);
  }
  auto const sa = std::vector<int>(v, v + 2), sb = std::vector<int>(w, w + 2);
  P const a = mk(v), b = mk(w);
  MC_CHECK((a == b) == (sa == sb) && (a != b) == (sa != sb) && (a < b) == (sa < sb) && (a > b) == (sa > sb) &&
               (a <= b) == (sa <= sb) && (a >= b) == (sa >= sb),
           "compare", "%d,%d vs %d,%d", v[0], v[1], w[0], w[1]);
  auto c = a;
  MC_CHECK(c == a, "copy", "copy");
  c = b;
  MC_CHECK(c == b, "copy", "assign");
  auto d = std::move(c);
  MC_CHECK(d == b, "move", "move");
  mc::checked();
}
template <typename A, typename B>
void pair_of() {
  pairs_like<cista::pair<A, B>>([](int const* v) { return cista::pair<A, B>{val<A>(v[0]), val<B>(v[1])}; });
}
MC_SCENARIO("pair", 1, 1) {
  switch (mc::choose(6)) {
    case 0: pair_of<char, double>(); break;
    case 1: pair_of<double, char>(); break;
    case 2: pair_of<str, std::uint32_t>(); break;
    case 3: pair_of<std::uint16_t, str>(); break;
    case 4: pair_of<str, str>(); break;
    case 5: pair_of<big, char>(); break;
  }
}
MC_SCENARIO("array", 1, 1) {
  switch (mc::choose(3)) {
    case 0: pairs_like<cista::array<std::uint32_t, 2>>([](int const* v) { return cista::array<std::uint32_t, 2>{val<std::uint32_t>(v[0]), val<std::uint32_t>(v[1])}; }); break;
    case 1: pairs_like<cista::array<str, 2>>([](int const* v) { return cista::array<str, 2>{val<str>(v[0]), val<str>(v[1])}; }); break;
    case 2: pairs_like<cista::array<big, 2>>([](int const* v) { return cista::array<big, 2>{val<big>(v[0]), val<big>(v[1])}; }); break;
  }
}

// --- strong types: every pair of operands ---
struct tag {};
template <typename T>
void strong_ops(T const a, T const b) {
  using S = cista::strong<T, tag>;
  constexpr auto const wide = sizeof(T) >= 4U;
  auto const x = S{a}, y = S{b};
  MC_CHECK(x.v_ == a && cista::to_idx(x) == a && static_cast<T const&>(x) == a && cista::to_idx(a) == a, "value", "value");
  MC_CHECK((x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x > y) == (a > b) && (x <= y) == (a <= b) &&
               (x >= y) == (a >= b),
           "compare", "compare %lld %lld", static_cast<long long>(a), static_cast<long long>(b));
  MC_CHECK((x == b) == (a == b) && (x != b) == (a != b) && (x < b) == (a < b) && (x > b) == (a > b) && (x <= b) == (a <= b) &&
               (x >= b) == (a >= b),
           "compare", "compare with wrapped %lld %lld", static_cast<long long>(a), static_cast<long long>(b));
  using W = std::conditional_t<wide, __int128, long long>;
  auto const fits = [](W const r) {
    return std::is_unsigned_v<T> || !wide || (r >= static_cast<W>(std::numeric_limits<T>::min()) && r <= static_cast<W>(std::numeric_limits<T>::max()));
  };
  auto const bin = [&](W const r, S const s, S const t, char const* what) {
    MC_CHECK(s.v_ == static_cast<T>(r) && t.v_ == static_cast<T>(r), "arithmetic", "%lld %s %lld", static_cast<long long>(a), what,
             static_cast<long long>(b));
  };
  auto const wa = static_cast<W>(a), wb = static_cast<W>(b);
  if (fits(wa + wb)) {
    bin(wa + wb, x + y, x + b, "+");
    auto z = x;
    auto& r = z += b;
    MC_CHECK(&r == &z, "+=", "returns itself");
    bin(wa + wb, z, z, "+=");
  }
  if (fits(wa - wb)) {
    bin(wa - wb, x - y, x - b, "-");
    auto z = x;
    auto& r = z -= b;
    MC_CHECK(&r == &z, "-=", "returns itself");
    bin(wa - wb, z, z, "-=");
  }
  if (fits(wa * wb) && (sizeof(T) != 2U || wa * wb <= 0x7FFFFFFF)) {  // u16 * u16 promotes to int
    bin(wa * wb, x * y, x * b, "*");
  }
  if (b != 0 && fits(wa / wb)) {
    bin(wa / wb, x / y, x / b, "/");
  }
  constexpr auto const bits = static_cast<W>(sizeof(T) < 4U ? 31 : sizeof(T) * 8U);
  if (wb >= 0 && wb < bits) {
    auto const sh = static_cast<int>(wb);
    bin(static_cast<T>(a >> sh), x >> y, x >> b, ">>");
    if (a >= 0 && (!std::is_signed_v<T> || sizeof(T) >= 4U || sh < 16) && fits(wa << sh) && (sizeof(T) >= 4U || (wa << sh) <= 0x7FFFFFFF)) {
      bin(static_cast<T>(static_cast<W>(wa << sh)), x << y, x << b, "<<");
    }
  }
  {
    auto z = x;
    z |= y;
    MC_CHECK(z.v_ == static_cast<T>(a | b), "|=", "|=");
    z = x;
    z &= y;
    MC_CHECK(z.v_ == static_cast<T>(a & b), "&=", "&=");
  }
  if (fits(wa + 1)) {
    auto z = x;
    MC_CHECK((z++).v_ == a && z.v_ == static_cast<T>(wa + 1) && &++(z = x) == &z && z.v_ == static_cast<T>(wa + 1), "++", "++");
  }
  if (fits(wa - 1)) {
    auto z = x;
    MC_CHECK((z--).v_ == a && z.v_ == static_cast<T>(wa - 1) && &--(z = x) == &z && z.v_ == static_cast<T>(wa - 1), "--", "--");
  }
  MC_CHECK(S::invalid().v_ == std::numeric_limits<T>::max() && std::numeric_limits<S>::max().v_ == std::numeric_limits<T>::max() &&
               std::numeric_limits<S>::min().v_ == std::numeric_limits<T>::min() && std::numeric_limits<S>::is_integer,
           "limits", "limits");
  MC_CHECK((a != b) || std::hash<S>{}(x) == std::hash<S>{}(y), "hash", "hash");
  std::ostringstream p, q;
  p << x;
  q << a;
  MC_CHECK(p.str() == q.str(), "print", "print");
}

template <typename T>
void strong_all(int const stride) {
  // 8 bit: every pair; wider: boundaries
  auto vals = std::vector<T>{};
  if (sizeof(T) == 1U) {
    for (auto i = 0; i < 256; i += stride) {
      vals.push_back(static_cast<T>(i));
    }
  } else {
    for (auto const b : {T{0}, std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), static_cast<T>(std::numeric_limits<T>::max() / 2)}) {
      for (auto d = -3; d <= 3; ++d) {
        vals.push_back(static_cast<T>(static_cast<std::make_unsigned_t<T>>(b) + static_cast<std::make_unsigned_t<T>>(d)));
      }
    }
    for (auto i = 4; i != static_cast<int>(sizeof(T) * 8U); ++i) {
      vals.push_back(static_cast<T>(i));
      vals.push_back(static_cast<T>(std::make_unsigned_t<T>{1} << i));
    }
  }
  auto const a = vals[static_cast<std::size_t>(mc::choose(static_cast<int>(vals.size())))];
  for (auto const b : vals) {
    strong_ops<T>(a, b);
  }
  mc::checked(vals.size());
}
MC_SCENARIO("strong", 1, 1) {
  switch (mc::choose(8)) {
    case 0: strong_all<std::uint8_t>(mc::thorough() ? 1 : 5); break;
    case 1: strong_all<std::int8_t>(mc::thorough() ? 1 : 5); break;
    case 2: strong_all<std::uint16_t>(1); break;
    case 3: strong_all<std::int16_t>(1); break;
    case 4: strong_all<std::uint32_t>(1); break;
    case 5: strong_all<std::int32_t>(1); break;
    case 6: strong_all<std::uint64_t>(1); break;
    case 7: strong_all<std::int64_t>(1); break;
  }
}
#endif

}  // namespace
