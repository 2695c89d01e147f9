#pragma once
// R01: what reflection reports about generated aggregates.  The expected
// members are given as member pointers in declaration order.
#include <chrono>
#include <sstream>
#include <string>

#include "mc.h"

#include "cista/cista_member_offset.h"
#include "cista/containers.h"
#include "cista/reflection/arity.h"
#include "cista/reflection/comparable.h"
#include "cista/reflection/for_each_field.h"
#include "cista/reflection/member_index.h"
#include "cista/reflection/printable.h"
#include "cista/reflection/to_tuple.h"
#include "cista/strong.h"

namespace {

namespace data = cista::offset;
enum class color : std::int16_t { RED = 3, BLUE = 9 };
struct nested0 {};
struct nested1 {
  std::uint16_t x_;
};
struct nested2 {
  std::uint8_t x_;
  std::uint32_t y_;
};
struct cn2 {
  CISTA_FRIEND_COMPARABLE(cn2)
  std::int32_t x_, y_;
};
struct pn2 {
  CISTA_PRINTABLE(pn2, "x")
  std::int32_t x_, y_;
};
using arr3 = cista::array<std::uint8_t, 3>;
using sarr = cista::array<std::string, 2>;
using prt = cista::pair<std::uint8_t, std::uint32_t>;
using tup2 = cista::tuple<std::uint8_t, std::string>;
using var2 = cista::variant<std::uint8_t, std::uint32_t>;
using strong32 = cista::strong<std::uint32_t, struct strong32_>;
using hmap = data::hash_map<std::uint32_t, std::uint32_t>;
using pmem = cista::basic_string_view<char const*>;

using seen_t = std::vector<std::pair<void const*, std::size_t>>;

template <typename T>
struct unwrap {
  using type = T;
};
template <typename T>
struct unwrap<std::reference_wrapper<T>> {
  using type = T;
};

template <typename T, typename... M, std::size_t... I>
void reflect_impl(std::tuple<M T::*...> const& ms, std::index_sequence<I...>) {
  constexpr auto const n = sizeof...(M);
  MC_CHECK(cista::arity<T>() == n, "arity", "arity is %zu instead of %zu",
           cista::arity<T>(), n);
  MC_CHECK(cista::arity<T const&>() == n, "arity", "arity of const reference");
  T t{};
  T const& ct = t;
  seen_t const expected{
      std::pair<void const*, std::size_t>{&(t.*std::get<I>(ms)),
                                          sizeof(t.*std::get<I>(ms))}...};
  auto check = [&](seen_t const& seen, char const* what) {
    MC_CHECK(seen.size() == n, "count", "%s visits %zu of %zu members", what,
             seen.size(), n);
    for (auto i = std::size_t{0}; i != n; ++i) {
      MC_CHECK(seen[i].first == expected[i].first, "member",
               "%s: visit %zu does not get member %zu", what, i, i);
      MC_CHECK(seen[i].second == expected[i].second, "type",
               "%s: visit %zu has another type", what, i);
    }
    mc::checked();
  };
  seen_t s;
  cista::for_each_field(t, [&](auto& m) { s.push_back({&m, sizeof(m)}); });
  check(s, "for_each_field");
  s.clear();
  cista::for_each_field(ct, [&](auto& m) {
    static_assert(std::is_const_v<std::remove_reference_t<decltype(m)>>);
    s.push_back({&m, sizeof(m)});
  });
  check(s, "for_each_field(const)");
  s.clear();
  cista::for_each_ptr_field(t, [&](auto* m) { s.push_back({m, sizeof(*m)}); });
  check(s, "for_each_ptr_field");
  s.clear();
  auto* tp = &t;
  cista::for_each_field(tp, [&](auto& m) { s.push_back({&m, sizeof(m)}); });
  check(s, "for_each_field(pointer)");
  tp = nullptr;
  cista::for_each_field(tp, [&](auto&) {
    mc::fail("null", "a member of nothing was visited");
  });
  auto calls = std::size_t{0};
  cista::for_each_field<T>([&](auto&) { ++calls; });
  MC_CHECK(calls == n, "count", "for_each_field<T>() visits %zu members", calls);

  auto tt = cista::to_tuple(t);
  static_assert(std::is_same_v<decltype(tt), std::tuple<M&...>>);
  check(seen_t{std::pair<void const*, std::size_t>{&std::get<I>(tt),
                                                   sizeof(std::get<I>(tt))}...},
        "to_tuple");
  auto ctt = cista::to_tuple(ct);
  static_assert(std::is_same_v<decltype(ctt), std::tuple<M const&...>>);
  auto pt = cista::to_ptr_tuple(t);
  static_assert(std::is_same_v<decltype(pt), std::tuple<M*...>>);
  check(seen_t{std::pair<void const*, std::size_t>{
            std::get<I>(pt), sizeof(*std::get<I>(pt))}...},
        "to_ptr_tuple");

  ((
      [&] {
        MC_CHECK(cista::member_index(std::get<I>(ms)) == I, "member_index",
                 "member_index of member %zu is %zu", I,
                 cista::member_index(std::get<I>(ms)));
        mc::checked();
      }()),
   ...);
  if constexpr (std::is_trivially_copyable_v<T>) {
    ((
        [&] {
          auto const o = reinterpret_cast<char const*>(&(t.*std::get<I>(ms))) -
                         reinterpret_cast<char const*>(&t);
          MC_CHECK(cista::member_offset(&t, std::get<I>(ms)) == o &&
                       cista::member_offset(&t, &(t.*std::get<I>(ms))) == o,
                   "member_offset", "offset of member %zu", I);
        }()),
     ...);
  }
  // modifications reach the object
  auto k = 0;
  cista::for_each_field(t, [&](auto& m) {
    using V = std::decay_t<decltype(m)>;
    ++k;
    if constexpr (std::is_same_v<V, std::string>) {
      m = std::to_string(k);
    } else if constexpr (std::is_arithmetic_v<V> && !std::is_same_v<V, bool>) {
      m = static_cast<V>(k);
    }
  });
  k = 0;
  ((
      [&] {
        ++k;
        auto const& m = ct.*std::get<I>(ms);
        using V = std::decay_t<decltype(m)>;
        if constexpr (std::is_same_v<V, std::string>) {
          MC_CHECK(m == std::to_string(k), "modify", "member %zu not modified", I);
        } else if constexpr (std::is_arithmetic_v<V> &&
                             !std::is_same_v<V, bool>) {
          MC_CHECK(m == static_cast<V>(k), "modify", "member %zu not modified", I);
        }
        mc::checked();
      }()),
   ...);
  mc::state(mc::H{}(n)(typeid(T).hash_code()));
}

template <typename T, typename... M>
void reflect(std::tuple<M T::*...> const& ms) {
  reflect_impl<T>(ms, std::index_sequence_for<M...>{});
}
template <typename T>
void reflect(std::tuple<>&&) {
  reflect_impl<T>(std::tuple<>{}, std::index_sequence<>{});
}

// members listed by cista_members()
template <typename T, typename... M, std::size_t... I>
void listed_impl(std::tuple<M T::*...> const& ms, std::index_sequence<I...>) {
  T t{};
  T const& ct = t;
  std::vector<void const*> const expected{&(t.*std::get<I>(ms))...};
  std::vector<void const*> s;
  cista::for_each_field(t, [&](auto& m) { s.push_back(&m); });
  MC_CHECK(s == expected, "listed", "for_each_field visits other members");
  s.clear();
  cista::for_each_field(ct, [&](auto const& m) {
    using V = typename unwrap<std::decay_t<decltype(m)>>::type;
    V const& x = m;
    s.push_back(&x);
  });
  MC_CHECK(s == expected, "listed", "for_each_field(const) visits other members");
  s.clear();
  cista::for_each_ptr_field(t, [&](auto* m) { s.push_back(m); });
  MC_CHECK(s == expected, "listed", "for_each_ptr_field visits other members");
  mc::checked();
  mc::state(mc::H{}(typeid(T).hash_code()));
}
template <typename T, typename... M>
void listed(std::tuple<M T::*...> const& ms) {
  listed_impl<T>(ms, std::index_sequence_for<M...>{});
}

// ------------------------------------------------------------- comparison
template <typename V>
void set(V& x, int const k) {  // larger for larger k
  if constexpr (std::is_same_v<V, std::string> || std::is_same_v<V, data::string>) {
    static char const* const v[] = {"", "b", "ba0123456789abcdef"};
    x = v[k];
  } else if constexpr (std::is_same_v<V, cn2>) {
    x = k == 0 ? cn2{-1, 5} : k == 1 ? cn2{-1, 6} : cn2{0, -9};
  } else if constexpr (std::is_same_v<V, data::vector<std::int32_t>>) {
    x.clear();
    for (auto i = 0; i != k; ++i) {
      x.push_back(i);
    }
  } else {
    static int const v[] = {std::is_signed_v<V> ? -3 : 0, 1, 2};
    x = static_cast<V>(v[k]);
  }
}

template <typename T>
void all_operators(T const& a, T const& b, int const expected) {
  MC_CHECK((a == b) == (expected == 0), "eq", "operator==");
  MC_CHECK((a != b) == (expected != 0), "ne", "operator!=");
  MC_CHECK((a < b) == (expected < 0), "lt", "operator<");
  MC_CHECK((a <= b) == (expected <= 0), "le", "operator<=");
  MC_CHECK((a > b) == (expected > 0), "gt", "operator>");
  MC_CHECK((a >= b) == (expected >= 0), "ge", "operator>=");
  mc::checked();
}

template <typename T, typename... M, std::size_t... I>
void compare_impl(std::tuple<M T::*...> const& ms, std::index_sequence<I...>) {
  T a{}, b{};
  std::vector<int> va, vb;
  ((va.push_back(mc::choose(3)), set(a.*std::get<I>(ms), va.back())), ...);
  ((vb.push_back(mc::choose(3)), set(b.*std::get<I>(ms), vb.back())), ...);
  mc::op("compare");
  all_operators(a, b, va < vb ? -1 : va == vb ? 0 : 1);
  mc::state(mc::H{}(typeid(T).hash_code()).bytes(va.data(), va.size() * 4U));
}
template <typename T, typename... M>
void compare(std::tuple<M T::*...> const& ms) {
  compare_impl<T>(ms, std::index_sequence_for<M...>{});
}
// two positions differ, each in either direction
template <typename T, typename... M, std::size_t... I>
void compare_wide_impl(std::tuple<M T::*...> const& ms, std::index_sequence<I...>) {
  T a{}, b{};
  std::vector<int*> pa{&(a.*std::get<I>(ms))...}, pb{&(b.*std::get<I>(ms))...};
  auto const n = static_cast<int>(sizeof...(M));
  auto const p = static_cast<unsigned>(mc::choose(n));
  auto const q = static_cast<unsigned>(mc::choose(n));
  auto const dp = mc::choose(3) - 1, dq = mc::choose(3) - 1;
  *pa[p] += dp;
  *pa[q] += dq;
  auto expected = 0;
  for (auto i = 0U; i != sizeof...(M) && expected == 0; ++i) {
    expected = *pa[i] < *pb[i] ? -1 : *pa[i] > *pb[i] ? 1 : 0;
  }
  mc::op("compare");
  all_operators(a, b, expected);
}
template <typename T, typename... M>
void compare_wide(std::tuple<M T::*...> const& ms) {
  compare_wide_impl<T>(ms, std::index_sequence_for<M...>{});
}

// --------------------------------------------------------------- printing
template <typename V>
std::string put(V& x, int const k) {
  if constexpr (std::is_same_v<V, std::string>) {
    return x = k == 0 ? "" : "some, text";
  } else if constexpr (std::is_same_v<V, pn2>) {
    x = pn2{k, 7};
    return "{x=" + std::to_string(k) + ", 7}";
  } else if constexpr (std::is_same_v<V, color>) {
    x = k == 0 ? color::RED : color::BLUE;
    return k == 0 ? "3" : "9";
  } else if constexpr (std::is_same_v<V, bool>) {
    x = k != 0;
    return k != 0 ? "1" : "0";
  } else if constexpr (std::is_same_v<V, char>) {
    x = k == 0 ? 'a' : ',';
    return std::string(1, x);
  } else if constexpr (std::is_same_v<V, double>) {
    x = k == 0 ? 0.5 : -2.0;
    return k == 0 ? "0.5" : "-2";
  } else {
    x = k == 0 ? -17 : 123456;
    return k == 0 ? "-17" : "123456";
  }
}
template <typename T, typename... M, std::size_t... I>
void print_impl(unsigned const names, std::tuple<M T::*...> const& ms, std::index_sequence<I...>) {
  T a{};
  std::string expected = "{";
  auto v = sizeof...(M) > 4U ? mc::choose(2) : 0;
  ((
      [&] {
        v = sizeof...(M) > 4U ? 1 - v : mc::choose(2);
        expected += I == 0U ? "" : ", ";
        if (I < names) {
          expected += "n" + std::to_string(I) + "=";
        }
        expected += put(a.*std::get<I>(ms), v);
      }()),
   ...);
  expected += "}";
  std::stringstream ss;
  mc::op("print");
  ss << a;
  MC_CHECK(ss.str() == expected, "print", "printed %s, expected %s", ss.str().c_str(), expected.c_str());
  mc::checked();
  mc::state(mc::H{}(expected.c_str()));
}
template <typename T, typename... M>
void print(unsigned const names, std::tuple<M T::*...> const& ms) {
  print_impl<T>(names, ms, std::index_sequence_for<M...>{});
}

}  // namespace
