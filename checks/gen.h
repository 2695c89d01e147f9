// Exhaustive (choice driven) generators for the serialization checks: every
// representation a container can be in (never allocated, reserved, spare
// capacity, cleared, tombstones, views, inline / heap, null, ...).
#pragma once

#include "kit.h"

namespace kit {

// level: 0 one typical value, 1 two typical shapes, 2 every shape
struct G {
  int level{0};
  unsigned n{0};  // running number: all generated values are distinct

  std::uint64_t next() {
    ++n;
    return 0x0102030405060700ULL + 0x0101010101010101ULL * n;
  }

  int shape(int const all, int const few = 2) {
    return level >= 2 ? mc::choose(all) : level == 1 ? mc::choose(few) : 0;
  }

  // generate members one level down
  template <typename F>
  void sub(F&& f) {
    auto const l = level;
    level = l == 2 ? 1 : 0;
    f();
    level = l;
  }
  template <typename F>
  void flat(F&& f) {
    auto const l = level;
    level = 0;
    f();
    level = l;
  }

  template <typename T>
  void operator()(T& x) {
    make(x);
  }

  template <typename T>
  std::enable_if_t<std::is_integral_v<T>> make(T& x) {
    if (std::is_same_v<T, bool>) {
      x = (++n % 2U) == 1U;
      if (level >= 1) {
        x = mc::choose(2) == 1;
      }
      return;
    }
    switch (level >= 2 ? mc::choose(4) : 0) {
      case 0: x = static_cast<T>(next()); break;
      case 1: x = 0; break;
      case 2: x = std::numeric_limits<T>::max(); break;
      case 3: x = std::numeric_limits<T>::min(); break;
    }
  }
  template <typename T>
  std::enable_if_t<std::is_enum_v<T>> make(T& x) {
    x = static_cast<T>(++n % 3U);
  }
  void make(float& x) { x = level >= 1 && mc::choose(2) ? -0.0F : 1.5F * ++n; }
  void make(double& x) { x = level >= 1 && mc::choose(2) ? -1e300 : 2.25 * ++n; }
  template <typename R, typename P>
  void make(std::chrono::duration<R, P>& x) {
    R r;
    make(r);
    x = std::chrono::duration<R, P>{r};
  }
  template <typename C, typename D>
  void make(std::chrono::time_point<C, D>& x) {
    D d;
    make(d);
    x = std::chrono::time_point<C, D>{d};
  }
  template <typename T, typename Tag>
  void make(cista::strong<T, Tag>& x) {
    make(x.v_);
  }
  template <typename T>
  void make(cista::indexed<T>& x) {
    make(static_cast<T&>(x));
  }

  // ---- strings
  template <typename S>
  std::basic_string<typename S::CharT> text(std::size_t const len,
                                            bool const nul = false) {
    using C = typename S::CharT;
    auto s = std::basic_string<C>{};
    ++n;
    for (auto i = std::size_t{0}; i != len; ++i) {
      auto const v = 'a' + (n + i) % 26U;
      s.push_back(static_cast<C>(
          sizeof(C) == 1U ? v
          : sizeof(C) == 2U ? 0x3000U + v
                            : 0x1F000U + v));
    }
    if (nul && len > 2) {
      s[len / 2U] = C{};
    }
    return s;
  }
  // memory that outlives the value (static: must not count as a leak)
  template <typename C>
  static std::basic_string_view<C> keep(std::basic_string<C> const& s) {
    static C pool[256][40];
    static unsigned next = 0;
    auto* const p = pool[next++ % 256U];
    std::copy(s.begin(), s.end(), p);
    p[s.size()] = C{};
    return {p, s.size()};
  }
  template <typename Ptr>
  void make(cista::basic_string<Ptr>& x) {
    using S = cista::basic_string<Ptr>;
    constexpr auto const lim = std::size_t{S::short_length_limit};
    switch (shape(9)) {
      case 0: x = S{std::basic_string_view<typename S::CharT>{text<S>(lim + 7)}}; break;
      case 1: x = S{std::basic_string_view<typename S::CharT>{text<S>(2)}}; break;
      case 2: x = S{}; break;
      case 3: x = S{std::basic_string_view<typename S::CharT>{text<S>(lim)}}; break;
      case 4: x = S{std::basic_string_view<typename S::CharT>{text<S>(lim + 1)}}; break;
      case 5: x = S{std::basic_string_view<typename S::CharT>{text<S>(lim, true)}}; break;
      case 6: x = S{std::basic_string_view<typename S::CharT>{text<S>(lim + 9, true)}}; break;
      case 7: {
        auto const v = keep(text<S>(lim + 4));
        x.set_non_owning(v.data(), static_cast<unsigned>(v.size()));
        break;
      }
      case 8: {
        x = S{std::basic_string_view<typename S::CharT>{text<S>(lim + 7)}};
        x = S{};
        break;
      }
    }
  }
  template <typename Ptr>
  void make(cista::basic_string_view<Ptr>& x) {
    using S = cista::basic_string_view<Ptr>;
    constexpr auto const lim = std::size_t{S::short_length_limit};
    auto const len = std::initializer_list<std::size_t>{lim + 5, 1, 0, lim,
                                                        lim + 1, lim + 2}
                         .begin()[shape(6)];
    auto const v = keep(text<S>(len));
    x = S{v.data(), static_cast<unsigned>(v.size())};
  }
  template <typename Ptr>
  void make(cista::basic_cstring<Ptr>& x) {
    using S = cista::basic_cstring<Ptr>;
    struct C8 {
      using CharT = char;
    };
    auto const len = std::initializer_list<std::size_t>{25, 1, 0, 14, 15, 16, 17}
                         .begin()[shape(7)];
    auto const t = text<C8>(len);
    if (level >= 2 && mc::choose(2) == 1) {
      auto const v = keep(t);
      x.set_non_owning(v.data(), static_cast<unsigned>(v.size()));
    } else {
      x = S{std::string_view{t}};
    }
  }

  // ---- vector
  template <typename T, template <typename> typename Ptr, bool I, typename S>
  void make(cista::basic_vector<T, Ptr, I, S>& v) {
    auto add = [&](unsigned const k) {
      for (auto i = 0U; i != k; ++i) {
        T t{};
        if (i == 0U) {
          sub([&] { make(t); });
        } else {
          flat([&] { make(t); });
        }
        v.emplace_back(std::move(t));
      }
    };
    switch (shape(8)) {
      case 0: add(2); break;
      case 1: break;
      case 2: add(1); break;
      case 3: add(3); break;
      case 4:  // spare capacity
        v.reserve(8U);
        add(2);
        break;
      case 5: v.reserve(4U); break;  // storage but no element
      case 6:
        add(2);
        v.clear();
        break;
      case 7:
        add(3);
        v.pop_back();
        break;
    }
  }

  // ---- hash tables
  template <typename E>
  struct key_of {
    template <typename X>
    static X& get(X& x) {
      return x;
    }
  };
  template <typename A, typename B>
  struct key_of<cista::pair<A, B>> {
    static A& get(cista::pair<A, B>& x) { return x.first; }
  };
  template <typename T, template <typename> typename Ptr, typename GK,
            typename GV, typename Hash, typename Eq>
  void make(cista::hash_storage<T, Ptr, GK, GV, Hash, Eq>& h) {
    auto keys = std::vector<T>{};
    auto add = [&](unsigned const k) {
      for (auto i = 0U; i != k; ++i) {
        if (i == 0U) {
          T t{};
          sub([&] { make(t); });
          h.emplace(std::move(t));
        } else {
          T t{};
          flat([&] { make(t); });
          h.emplace(std::move(t));
        }
      }
    };
    auto erase = [&](unsigned const k) {
      for (auto i = 0U; i != k && h.size() != 0U; ++i) {
        h.erase(h.begin());
      }
    };
    switch (shape(11)) {
      case 0: add(2); break;
      case 1: break;
      case 2: add(1); break;
      case 3: add(6); break;
      case 4: add(7); break;  // full up to the growth limit
      case 5: add(8); break;  // just grown
      case 6:
        add(6);
        erase(3);
        break;
      case 7:
        add(7);
        erase(7);  // tombstones only
        break;
      case 8:
        add(3);
        h.clear();
        break;
      case 9:
        add(15);
        erase(1);
        add(1);
        break;
      case 10:
        h.resize(15);
        add(2);
        break;
    }
  }

  // ---- sums and products
  template <typename T, typename Ptr>
  void make(cista::basic_unique_ptr<T, Ptr>& p) {
    switch (shape(3)) {
      case 0:
        p = cista::basic_unique_ptr<T, Ptr>{new T{}, true};
        sub([&] { make(*p); });
        break;
      case 1: break;
      case 2:  // owned elsewhere
      {
        static T other{};  // (strings inside stay empty: no heap memory)
        if constexpr (std::is_integral_v<T>) {
          other = static_cast<T>(next());
        }
        p = cista::basic_unique_ptr<T, Ptr>{&other, false};
        break;
      }
    }
  }
  template <typename T>
  void make(cista::optional<T>& o) {
    if (shape(2) == 0) {
      T t{};
      sub([&] { make(t); });
      o = cista::optional<T>{std::move(t)};
    }
  }
  template <typename... T>
  void make(cista::variant<T...>& v) {
    auto const k = level >= 1 ? mc::choose(sizeof...(T)) : sizeof...(T) - 1;
    alternatives<0, T...>(v, static_cast<std::size_t>(k));
  }
  template <std::size_t I, typename A, typename... R, typename V>
  void alternatives(V& v, std::size_t const k) {
    if (k == I) {
      A a{};
      sub([&] { make(a); });
      v.template emplace<I>(std::move(a));
    } else if constexpr (sizeof...(R) > 0) {
      alternatives<I + 1, R...>(v, k);
    }
  }
  template <typename A, typename B>
  void make(cista::pair<A, B>& p) {
    focus(p.first, p.second);
  }
  template <typename A, typename B>
  void make(std::pair<A, B>& p) {
    focus(p.first, p.second);
  }
  template <typename... T>
  void make(cista::tuple<T...>& t) {
    cista::apply([&](auto&... e) { focus(e...); }, t);
  }
  template <typename T, std::size_t N>
  void make(cista::array<T, N>& a) {
    for (auto i = std::size_t{0}; i != N; ++i) {
      i + 1U == N ? sub([&] { make(a[i]); }) : flat([&] { make(a[i]); });
    }
  }
  template <typename T, std::size_t N>
  void make(T (&a)[N]) {
    for (auto i = std::size_t{0}; i != N; ++i) {
      i + 1U == N ? sub([&] { make(a[i]); }) : flat([&] { make(a[i]); });
    }
  }

  // ---- bits
  template <std::size_t N>
  void make(cista::bitset<N>& b) {
    auto const s = shape(4);
    for (auto i = std::size_t{0}; i != N; ++i) {
      b.set(i, s == 0 ? (i % 3U) == 0U : s == 1 ? false : s == 2 ? true : i + 1U == N);
    }
  }
  template <typename Vec, typename Key>
  void make(cista::basic_bitvec<Vec, Key>& b) {
    auto const size = std::initializer_list<std::size_t>{70, 0, 1, 63, 64, 65,
                                                         128, 130}
                          .begin()[shape(8)];
    b.resize(static_cast<typename cista::basic_bitvec<Vec, Key>::size_type>(size));
    for (auto i = std::size_t{0}; i != size; ++i) {
      b.set(Key(static_cast<cista::base_t<Key>>(i)), (i % 5U) == 0U);
    }
    if (level >= 2 && size != 0 && mc::choose(2) == 1) {
      b.resize(static_cast<typename cista::basic_bitvec<Vec, Key>::size_type>(size - 1U));
    }
  }

  // ---- multimaps and nested vectors
  template <typename T>
  T value() {
    T t{};
    flat([&] { make(t); });
    return t;
  }
  // a list of bucket sizes
  std::vector<unsigned> sizes() {
    switch (shape(6)) {
      case 0: return {2, 0, 1};
      case 1: return {};
      case 2: return {0};
      case 3: return {1};
      case 4: return {0, 3, 0};
      default: return {5, 1, 2, 4};
    }
  }
  template <typename D, typename I>
  void make(cista::fws_multimap<D, I>& m) {
    auto const s = sizes();
    for (auto const k : s) {
      for (auto i = 0U; i != k; ++i) {
        m.push_back(value<typename D::value_type>());
      }
      m.finish_key();
    }
    if (level < 2 || mc::choose(2) == 0) {
      m.finish_map();
    }
  }
  template <typename K, typename D, typename I>
  void make(cista::basic_vecvec<K, D, I>& m) {
    for (auto const k : sizes()) {
      std::vector<typename D::value_type> b;
      for (auto i = 0U; i != k; ++i) {
        b.push_back(value<typename D::value_type>());
      }
      m.emplace_back(b);
    }
  }
  template <typename K, typename D, typename I, std::size_t N, typename S>
  void make(cista::basic_nvec<K, D, I, N, S>& m) {
    using E = typename D::value_type;
    for (auto const k : sizes()) {
      if constexpr (N == 2) {
        std::vector<std::vector<E>> b(k);
        for (auto i = 0U; i != k; ++i) {
          for (auto j = 0U; j != i; ++j) {
            b[i].push_back(value<E>());
          }
        }
        m.emplace_back(b);
      } else {
        std::vector<std::vector<std::vector<E>>> b(k);
        for (auto i = 0U; i != k; ++i) {
          b[i].resize(i);
          for (auto j = 0U; j != i; ++j) {
            for (auto l = 0U; l != (i + j) % 3U; ++l) {
              b[i][j].push_back(value<E>());
            }
          }
        }
        m.emplace_back(b);
      }
    }
  }
  template <typename T, typename S, template <typename> typename V,
            std::size_t L>
  void make(cista::dynamic_fws_multimap_base<T, S, V, L>& m) {
    auto const s = sizes();
    for (auto const k : s) {
      auto b = m.emplace_back();
      for (auto i = 0U; i != k; ++i) {
        b.push_back(value<T>());
      }
    }
    if (level >= 2 && !s.empty() && mc::choose(2) == 1) {
      // grow the first bucket: leaves free buckets behind
      for (auto i = 0U; i != 5U; ++i) {
        m[S(static_cast<cista::base_t<S>>(0))].push_back(value<T>());
      }
    }
  }
  template <typename I, typename P, typename K>
  void make(cista::paged_vecvec<I, P, K>& m) {
    using E = typename cista::paged_vecvec<I, P, K>::data_value_type;
    auto const s = sizes();
    for (auto const k : s) {
      std::vector<E> b;
      for (auto i = 0U; i != k; ++i) {
        b.push_back(value<E>());
      }
      m.emplace_back(b);
    }
    if (level >= 2 && !s.empty() && mc::choose(2) == 1) {
      for (auto i = 0U; i != 40U; ++i) {
        m[K(0)].push_back(value<E>());  // moves to larger pages
      }
    }
  }
  template <typename V>
  void make(cista::base_flat_matrix<V>& m) {
    auto const s = shape(4);
    auto const r = std::initializer_list<unsigned>{2, 0, 1, 3}.begin()[s];
    auto const c = std::initializer_list<unsigned>{3, 0, 1, 2}.begin()[s];
    m.resize(r, c);
    for (auto i = 0U; i != r; ++i) {
      for (auto j = 0U; j != c; ++j) {
        m(i, j) = value<typename V::value_type>();
      }
    }
  }
  template <typename T, template <typename, typename...> typename V,
            std::uint32_t D, typename N, std::uint32_t M, typename S>
  void make(cista::basic_rtree<T, V, D, N, M, S>& r) {
    using R = cista::basic_rtree<T, V, D, N, M, S>;
    auto const cnt = std::initializer_list<unsigned>{3, 0, 1, M, M + 1, 3 * M}
                         .begin()[shape(6)];
    for (auto i = 0U; i != cnt; ++i) {
      typename R::coord_t a, b;
      for (auto d = 0U; d != D; ++d) {
        a[d] = static_cast<N>((i * (7 + d)) % 11U);
        b[d] = static_cast<N>(a[d] + i % 3U);
      }
      r.insert(a, b, static_cast<T>(i + 1U));
    }
    if (level >= 2 && cnt > M && mc::choose(2) == 1) {
      for (auto i = 0U; i < cnt; i += 2) {
        typename R::coord_t a, b;
        for (auto d = 0U; d != D; ++d) {
          a[d] = static_cast<N>((i * (7 + d)) % 11U);
          b[d] = static_cast<N>(a[d] + i % 3U);
        }
        r.delete_element(a, b, static_cast<T>(i + 1U));
      }
    }
  }

  // ---- structs: exactly one member takes every shape
  template <typename... M>
  void focus(M&... m) {
    auto const l = level;
    auto const f = l >= 1 ? mc::choose(sizeof...(M)) : -1;
    auto i = 0;
    ((level = i++ == f ? l : 0, make(m)), ...);
    level = l;
  }
  template <typename T>
  auto make(T& x)
      -> std::enable_if_t<(sizeof(std::declval<T&>().gen(std::declval<G&>())),
                           true)> {
    x.gen(*this);
  }
};

#undef KIT_EACH
#define KIT_EACH(...)             \
  template <typename F>           \
  int each(F&& f) const {         \
    kit::each_of(f, __VA_ARGS__); \
    return 0;                     \
  }                               \
  template <typename F>           \
  int gen(F& g) {                 \
    g.focus(__VA_ARGS__);         \
    return 0;                     \
  }

}  // namespace kit
