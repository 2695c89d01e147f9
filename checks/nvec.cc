// nvec: every sequence of nested shapes vs nested std::vectors.
#include "mc.h"

#include "cista/containers/nvec.h"
#include "cista/containers/string.h"

namespace {

struct kt {};
using strong_key = cista::strong<std::uint32_t, kt>;

template <typename E, std::size_t N>
struct nest {
  using type = std::vector<typename nest<E, N - 1>::type>;
};
template <typename E>
struct nest<E, 0> {
  using type = E;
};
template <typename E, std::size_t N>
using nest_t = typename nest<E, N>::type;

unsigned g_next;

template <typename V>
V make() {
  auto const i = g_next++;
  if constexpr (std::is_integral_v<V>) {
    return static_cast<V>('A' + i);
  } else {
    auto s = std::string(1, static_cast<char>('A' + i % 50U));
    return V{std::string_view{i % 2U ? s + " and a long rest" : s}};
  }
}

// shape by choice: up to `width` entries per level
template <typename E, std::size_t N>
nest_t<E, N> shape(int const width, int const bottom) {
  nest_t<E, N> x;
  auto const k = mc::choose((N == 1 ? bottom : width) + 1);
  for (auto i = 0; i != k; ++i) {
    if constexpr (N == 1) {
      x.push_back(make<E>());
    } else {
      x.push_back(shape<E, N - 1>(width, bottom));
    }
  }
  return x;
}

template <typename T>
std::string show(T const& x) {
  if constexpr (std::is_integral_v<T>) {
    return std::to_string(x);
  } else if constexpr (std::is_class_v<T> && !std::is_same_v<T, cista::raw::string> &&
                       !std::is_same_v<T, cista::offset::string>) {
    auto s = std::string{"["};
    for (auto const& e : x) {
      s += show(e) + " ";
    }
    return s + "]";
  } else {
    return x.str();
  }
}

// one level: sizes, begin/end iteration, iterator steps and indexing
template <typename It, typename X>
void level(It const first, It const last, X const& x);

template <typename B, typename X>
void entry(B&& b, X const& x) {
  MC_CHECK(b.size() == x.size(), "size", "inner size %zu, expected %zu",
           static_cast<std::size_t>(b.size()), x.size());
  using E = typename X::value_type;
  if constexpr (std::is_integral_v<E> || !std::is_class_v<E> ||
                std::is_same_v<E, cista::raw::string> || std::is_same_v<E, cista::offset::string>) {
    auto const& kb = b;
    MC_CHECK(b.empty() == x.empty() && std::equal(b.begin(), b.end(), x.begin(), x.end()) &&
                 std::equal(kb.begin(), kb.end(), x.begin(), x.end()) &&
                 std::equal(begin(kb), end(kb), x.begin(), x.end()),
             "content", "innermost content");
    for (auto i = 0U; i != x.size(); ++i) {
      MC_CHECK(b[i] == x[i] && kb[i] == x[i] && b.at(i) == x[i] && kb.at(i) == x[i], "content", "[%u]", i);
    }
    if (!x.empty()) {
      MC_CHECK(b.front() == x.front() && b.back() == x.back(), "frontback", "innermost");
      MC_CHECK(data(kb)[0] == x[0] && size(kb) == x.size(), "data", "data(bucket)");
    }
    if constexpr (std::is_same_v<E, char>) {
      MC_CHECK((b.view() == std::string_view{x.data(), x.size()}), "view", "view");
    }
    auto threw = false;
    if (x.size() % 2U == 1U) {
      try {
        (void)b.at(x.size());
      } catch (std::exception const&) {
        threw = true;
      }
      MC_CHECK(threw, "at_oob", "bucket::at(size) must throw");
    }
  } else {
    auto const& kb = b;
    level(b.begin(), b.end(), x);
    level(kb.begin(), kb.end(), x);
    level(begin(kb), end(kb), x);
    for (auto i = 0U; i != x.size(); ++i) {
      entry(b[i], x[i]);
      entry(kb[i], x[i]);
    }
  }
}

template <typename It, typename X>
void level(It const first, It const last, X const& x) {
  auto const n = static_cast<int>(x.size());
  auto k = 0;
  for (auto it = first; it != last; ++it) {
    MC_CHECK(k < n, "iter", "iteration does not end");
    if constexpr (std::is_same_v<It, It>) {
      MC_CHECK((*it).size() == x[static_cast<std::size_t>(k)].size(), "iter", "size at %d", k);
    }
    ++k;
  }
  MC_CHECK(k == n, "iter", "iteration visits %d of %d", k, n);
  auto e = first;
  e += n;
  MC_CHECK(e == last, "iter", "+= size is not the end");
  e -= n;
  MC_CHECK(e == first && first + n == last && last - n == first, "iter", "end - size is not begin");
  for (auto i = 0; i != n; ++i) {
    auto it = first + i;
    MC_CHECK((*it).size() == x[static_cast<std::size_t>(i)].size(), "iter", "begin + %d", i);
    ++it;
    --it;
    MC_CHECK(it == first + i && (it != last), "iter", "++ --");
    auto d = last - (n - i);
    MC_CHECK(d == it, "iter", "end - k");
  }
}

// size(i...) and at(i...) for all index tuples
template <std::size_t N, typename M, typename X, typename... I>
void paths(M const& c, M& m, X const& x, I... i) {
  if constexpr (sizeof...(I) > 0) {
    MC_CHECK(c.size(i...) == x.size(), "size(i...)", "size with %zu indices: %zu, expected %zu", sizeof...(I),
             static_cast<std::size_t>(c.size(i...)), x.size());
  }
  if constexpr (sizeof...(I) == N) {
    entry(m.at(i...), x);
    entry(c.at(i...), x);
  } else {
    for (auto k = 0U; k != x.size(); ++k) {
      if constexpr (sizeof...(I) == 0) {
        paths<N>(c, m, x[k], typename M::key_type{k});
      } else {
        paths<N>(c, m, x[k], i..., k);
      }
    }
  }
}

template <typename Base, typename Key>
struct keyed : Base {
  using key_type = Key;
};

template <std::size_t N, typename M, typename R>
void same(M& m, R const& r) {
  M const& c = m;
  MC_CHECK(m.size() == r.size(), "size", "size %zu, expected %zu", static_cast<std::size_t>(m.size()), r.size());
  level(m.begin(), m.end(), r);
  level(c.begin(), c.end(), r);
  for (auto i = 0U; i != r.size(); ++i) {
    entry(m[typename M::key_type{i}], r[i]);
    entry(c[typename M::key_type{i}], r[i]);
  }
  if (!r.empty()) {
    entry(*m.front(), r.front());
    entry(*m.back(), r.back());
    entry(*c.front(), r.front());
    entry(*c.back(), r.back());
  }
  paths<N>(c, m, r);
  if constexpr (N == 2) {
    auto threw = 0;
    try {
      (void)m.at(typename M::key_type{static_cast<unsigned>(r.size())}, 0U);
    } catch (std::exception const&) {
      ++threw;
    }
    try {
      (void)c.size(typename M::key_type{static_cast<unsigned>(r.size())});
    } catch (std::exception const&) {
      ++threw;
    }
    MC_CHECK(threw == 2, "at_oob", "at/size beyond the last key must throw");
  }
  // range for at all levels (constant)
  if constexpr (N == 2) {
    std::vector<typename M::data_value_type> all, exp;
    for (auto const a : c) {
      for (auto const b : a) {
        for (auto const& e : b) {
          all.push_back(e);
        }
      }
    }
    std::vector<typename M::data_value_type> all2;
    for (auto&& a : m) {
      for (auto&& b : a) {
        for (auto&& e : b) {
          all2.push_back(e);
        }
      }
    }
    for (auto const& a : r) {
      for (auto const& b : a) {
        for (auto const& e : b) {
          exp.push_back(e);
        }
      }
    }
    MC_CHECK(all == exp && all2 == exp, "range_for", "nested range-for");
  }
}

template <typename M, std::size_t N>
void body(int const width, int const bottom, int const entries) {
  using E = typename M::data_value_type;
  g_next = 0;
  {
    M m;
    std::vector<nest_t<E, N>> r;
    auto const n = mc::choose(entries + 1);
    same<N>(m, r);
    for (auto i = 0; i != n; ++i) {
      mc::op("emplace_back");
      mc::step();
      // later entries are smaller for deep nesting
      auto x = i == 0 || (N == 2 && i == 1) ? shape<E, N>(width, bottom) : shape<E, N>(1, 1);
      mc::logf("emplace_back %s", show(x).c_str());
      r.push_back(x);
      switch (N == 2 ? mc::choose(2) : i % 2) {
        case 0:
          m.emplace_back(x);
          MC_CHECK(x == r.back(), "stolen", "emplace_back(lvalue) changed its argument");
          break;
        case 1: m.emplace_back(std::move(x)); break;
      }
    }
    same<N>(m, r);
    switch (mc::choose(5)) {
      case 0: break;
      case 1:
        if (!r.empty()) {
          mc::op("own entry");
          mc::logf("emplace_back(own first entry)");
          auto const x = r.front();
          m.emplace_back(m[typename M::key_type{0U}]);
          r.push_back(x);
          same<N>(m, r);
        }
        break;
      case 2: {
        mc::op("copy");
        M c{m};
        same<N>(c, r);
        M d;
        d = c;
        same<N>(d, r);
        d.emplace_back(nest_t<E, N>{});
        same<N>(c, r);
        break;
      }
      case 3: {
        mc::op("move");
        M c{std::move(m)};
        same<N>(c, r);
        M d;
        d = std::move(c);
        same<N>(d, r);
        break;
      }
      case 4:  // write through the innermost bucket
        mc::op("write");
        if (!r.empty()) {
          auto* x = &r.back();
          if constexpr (N == 2) {
            if (!x->empty() && !x->back().empty()) {
              auto const i = static_cast<unsigned>(r.size() - 1U), j = static_cast<unsigned>(x->size() - 1U);
              auto const v = make<E>();
              m.at(typename M::key_type{i}, j).back() = v;
              x->back().back() = v;
              *m[typename M::key_type{i}][j].begin() = v;
              x->back().front() = v;
            }
          }
          same<N>(m, r);
        }
        break;
    }
    mc::state(mc::H{}(show(r).c_str()));
  }
  mc::checked();
}

template <typename K, typename V, std::size_t N>
using off = keyed<cista::offset::nvec<K, V, N>, K>;
template <typename K, typename V, std::size_t N>
using raw = keyed<cista::raw::nvec<K, V, N>, K>;

MC_SCENARIO("depth 2 offset uint16", 3, 3) {
  body<off<std::uint32_t, std::uint16_t, 2>, 2>(2, 2, mc::bound());
}
MC_SCENARIO("depth 2 raw strong char", 3, 3) {
  body<raw<strong_key, char, 2>, 2>(2, 2, mc::bound());
}
MC_SCENARIO("depth 2 offset string", 3, 3) {
  body<off<std::uint32_t, cista::offset::string, 2>, 2>(2, 2, mc::bound());
}
MC_SCENARIO("depth 3 offset", 2, 2) {
  body<off<std::uint32_t, std::uint16_t, 3>, 3>(2, 2, mc::bound());
}
MC_SCENARIO("depth 3 raw string", 2, 2) {
  body<raw<std::uint32_t, cista::raw::string, 3>, 3>(2, 1, mc::bound());
}
MC_SCENARIO("depth 4 offset", 2, 2) {
  body<off<std::uint32_t, std::uint16_t, 4>, 4>(mc::thorough() ? 2 : 1, mc::thorough() ? 1 : 2, mc::bound());
}

}  // namespace
