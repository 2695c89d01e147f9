// S07: deserialized containers behave like containers built in memory and
// never free or grow into memory of the image.  -DFLAVOUR -DGROUP=1..5
// blocks left to elements of the image are released with free(), see below
#define MC_NO_ALLOC_DEALLOC_MISMATCH
#include "gen.h"

#include <sanitizer/allocator_interface.h>

namespace {

using cista::mode;

struct inner {
  std::uint8_t a_{};
  std::uint32_t b_{};
  data::string c_{};
  KIT_EACH(a_, b_, c_)
};

template <typename T>
struct root {
  T a_{};
  std::uint32_t g_{};
  T b_{};
  KIT_EACH(a_, g_, b_)
};

template <typename E>
E mk(unsigned const seed) {
  kit::G g;
  g.level = 0;
  g.n = 60U + 12U * seed;
  E e{};
  g(e);
  return e;
}

template <typename T>
T swapped(T& x) {
  return std::move(x);
}

// ------------------------------------------------------------- operations
// op(x, k, seed) applies the k-th operation; the same on an image resident
// value and on one built in memory.  Returns false for "k too large".
template <typename T>
struct ops;

template <typename T, template <typename> typename Ptr, bool I, typename S>
struct ops<cista::basic_vector<T, Ptr, I, S>> {
  using V = cista::basic_vector<T, Ptr, I, S>;
  static constexpr bool copy = std::is_copy_constructible_v<T>;
  static constexpr int n = copy ? 15 : 11;
  static void run(V& v, int const k, unsigned const s) {
    switch (k) {
      case 0: v.push_back(mk<T>(s)); break;
      case 1:
        if (!v.empty()) {
          v.erase(v.begin());
        }
        break;
      case 2: v.clear(); break;
      case 3: v.resize(v.size() + 3U); break;
      case 4: v.insert(v.begin(), mk<T>(s)); break;
      case 5:
        if (!v.empty()) {
          v.pop_back();
        }
        break;
      case 6: v.reserve(v.size() + 20U); break;
      case 7:
        if (!v.empty()) {
          v.back() = mk<T>(s);
        }
        break;
      case 8:
        if (v.size() > 1U) {
          v.resize(1U);
        }
        break;
      case 9: {
        V o;
        o.push_back(mk<T>(s));
        v = std::move(o);
        break;
      }
      case 10:
        if (v.size() > 1U) {
          using std::swap;
          swap(v[0], v.back());
        }
        break;
      case 11:
        if constexpr (copy) {
          if (!v.empty()) {
            v.push_back(v[0]);
          }
        }
        break;
      case 12:
        if constexpr (copy) {
          V o;
          o.push_back(mk<T>(s));
          o.push_back(mk<T>(s + 1U));
          v = o;
        }
        break;
      case 13:
        if constexpr (copy) {
          auto const e = mk<T>(s);
          std::vector<T> const src(3, e);
          v.set(src.begin(), src.end());
        }
        break;
      case 14:
        if constexpr (copy) {
          auto const& c = v;
          v = c;
        }
        break;
    }
  }
};

template <typename Ptr>
struct ops<cista::basic_string<Ptr>> {
  using S = cista::basic_string<Ptr>;
  using C = typename S::CharT;
  static constexpr int n = 9;
  static std::basic_string<C> t(unsigned const s, unsigned const len) {
    std::basic_string<C> r;
    for (auto i = 0U; i != len; ++i) {
      r.push_back(static_cast<C>('A' + (s + i) % 26U));
    }
    return r;
  }
  static void run(S& x, int const k, unsigned const s) {
    switch (k) {
      case 0: x = S{t(s, 40)}; break;
      case 1: x = t(s, 2); break;
      case 2: x = S{}; break;
      case 3: {
        auto const v = std::basic_string<C>{x.view()} + t(s, 9);
        x.set_owning(v);
        break;
      }
      case 4:
        if (x.size() > 1U) {
          x.erase(0, 1);
        }
        break;
      case 5: {
        auto const o = S{t(s, 33)};
        x = o;
        break;
      }
      case 6:
        if (x.size() != 0U) {
          x.data()[0] = static_cast<C>('#');
        }
        break;
      case 7: {
        auto const& c = x;
        x = c;
        break;
      }
      case 8: x.set_owning(x.view().substr(0, x.size() / 2U)); break;
    }
  }
};

template <typename Ptr>
struct ops<cista::basic_cstring<Ptr>> {
  using S = cista::basic_cstring<Ptr>;
  static constexpr int n = 6;
  static void run(S& x, int const k, unsigned const s) {
    auto const txt = std::string(40, static_cast<char>('A' + s % 26U));
    switch (k) {
      case 0: x = S{std::string_view{txt}}; break;
      case 1: x = std::string_view{"ab"}; break;
      case 2: x.set_owning(x.str()); break;
      case 3: x = S{}; break;
      case 4:
        if (x.size() != 0U) {
          x.data()[0] = '#';
        }
        break;
      case 5: {
        auto const& c = x;
        x = c;
        break;
      }
    }
  }
};

template <typename T, typename P>
struct ops<cista::basic_unique_ptr<T, P>> {
  using U = cista::basic_unique_ptr<T, P>;
  static constexpr int n = 5;
  static void run(U& x, int const k, unsigned const s) {
    switch (k) {
      case 0: x = U{new T(mk<T>(s)), true}; break;
      case 1: x = nullptr; break;
      case 2: x.reset(); break;
      case 3:
        if (x.get() != nullptr) {
          *x = mk<T>(s);
        }
        break;
      case 4: {
        auto y = std::move(x);
        x = std::move(y);
        break;
      }
    }
  }
};

template <typename T>
struct ops<cista::optional<T>> {
  using O = cista::optional<T>;
  static constexpr int n = 5;
  static void run(O& x, int const k, unsigned const s) {
    switch (k) {
      case 0: x = mk<T>(s); break;
      case 1: x.reset(); break;
      case 2: x = std::nullopt; break;
      case 3:
        if (x.has_value()) {
          *x = mk<T>(s);
        }
        break;
      case 4: {
        auto const o = O{mk<T>(s)};
        x = o;
        break;
      }
    }
  }
};

template <typename... T>
struct ops<cista::variant<T...>> {
  using V = cista::variant<T...>;
  static constexpr int n = 2 * sizeof...(T) + 2;
  template <std::size_t I>
  static void put(V& x, int const k, unsigned const s) {
    if constexpr (I < sizeof...(T)) {
      using A = std::tuple_element_t<I, std::tuple<T...>>;
      if (k == static_cast<int>(2 * I)) {
        x = mk<A>(s);
      } else if (k == static_cast<int>(2 * I + 1)) {
        x.template emplace<I>(mk<A>(s));
      } else {
        put<I + 1>(x, k, s);
      }
    }
  }
  static void run(V& x, int const k, unsigned const s) {
    if (k == n - 2) {
      auto const o = x;
      x = o;
    } else if (k == n - 1) {
      auto o = std::move(x);
      x = std::move(o);
    } else {
      put<0>(x, k, s);
    }
  }
};

template <typename A, typename B>
struct ops<cista::tuple<A, B>> {
  using V = cista::tuple<A, B>;
  static constexpr int n = 3;
  static void run(V& x, int const k, unsigned const s) {
    switch (k) {
      case 0: x = mk<V>(s); break;
      case 1: cista::get<1>(x) = mk<B>(s); break;
      case 2: {
        auto const c = x;
        x = c;
        break;
      }
    }
  }
};

template <typename T, std::size_t N>
struct ops<cista::array<T, N>> {
  using V = cista::array<T, N>;
  static constexpr int n = 3;
  static void run(V& x, int const k, unsigned const s) {
    switch (k) {
      case 0: x = mk<V>(s); break;
      case 1: x[N - 1U] = mk<T>(s); break;
      case 2: {
        auto const c = x;
        x = c;
        break;
      }
    }
  }
};

template <typename T, template <typename> typename Ptr, typename GK, typename GV, typename Hash, typename Eq>
struct ops<cista::hash_storage<T, Ptr, GK, GV, Hash, Eq>> {
  using H = cista::hash_storage<T, Ptr, GK, GV, Hash, Eq>;
  static constexpr int n = 13;
  // smallest entry by canonical text: independent of the table's layout
  static auto pick(H& h) {
    auto best = h.begin();
    auto bs = std::string{};
    for (auto it = h.begin(); it != h.end(); ++it) {
      auto const s = kit::dump(*it);
      if (bs.empty() || s < bs) {
        bs = s;
        best = it;
      }
    }
    return best;
  }
  static void run(H& h, int const k, unsigned const s) {
    switch (k) {
      case 0: h.emplace(mk<T>(s)); break;
      case 1:
        if (h.size() != 0U) {
          h.erase(pick(h));
        }
        break;
      case 2:
        for (auto i = 0U; i != 8U; ++i) {
          h.emplace(mk<T>(s + i));
        }
        break;
      case 3: h.clear(); break;
      case 4: h.resize(31U); break;
      case 5: h.rehash(); break;
      case 6: {
        H o;
        o.emplace(mk<T>(s));
        h = o;
        break;
      }
      case 7: {
        H o;
        o.emplace(mk<T>(s));
        h.clear();  // (known finding of C03: move assignment drops the content)
        h = std::move(o);
        break;
      }
      case 8: {
        auto const& c = h;
        h = c;
        break;
      }
      case 9:
        if (h.size() != 0U) {
          h.emplace(T{*pick(h)});
        }
        break;
      case 10:
        if constexpr (kit_has_second<T>::value) {
          if (h.size() != 0U) {
            pick(h)->second = mk<std::decay_t<decltype(pick(h)->second)>>(s);
          }
        } else if (h.size() != 0U) {
          auto const key = T{*pick(h)};
          h.erase(key);
        }
        break;
      case 11:
        if (h.size() != 0U) {
          auto const e = T{*pick(h)};
          h.erase(pick(h));
          h.emplace(e);
        }
        break;
      case 12: {
        H o;
        o.emplace(mk<T>(s));
        std::swap(o, h);
        break;
      }
    }
  }
  template <typename X, typename = void>
  struct kit_has_second : std::false_type {};
  template <typename X>
  struct kit_has_second<X, std::void_t<decltype(std::declval<X&>().second)>> : std::true_type {};
};

template <std::size_t N>
struct ops<cista::bitset<N>> {
  using B = cista::bitset<N>;
  static constexpr int n = 5;
  static void run(B& b, int const k, unsigned) {
    switch (k) {
      case 0: b.set(N - 1U, true); break;
      case 1: b.reset(); break;
      case 2: b = ~b; break;
      case 3: b <<= 3U; break;
      case 4: {
        B o;
        o.set(1U, true);
        b |= o;
        break;
      }
    }
  }
};

template <typename Vec, typename Key>
struct ops<cista::basic_bitvec<Vec, Key>> {
  using B = cista::basic_bitvec<Vec, Key>;
  static constexpr int n = 8;
  static void run(B& b, int const k, unsigned) {
    switch (k) {
      case 0: b.resize(b.size() + 70U); break;
      case 1: b.resize(b.size() / 2U); break;
      case 2:
        if (b.size() != 0U) {
          b.set(Key{static_cast<cista::base_t<Key>>(b.size() - 1U)}, true);
        }
        break;
      case 3: b.reset(); break;
      case 4: b.resize(b.size() + 1U); break;
      case 5: {
        B o;
        o.resize(3U);
        o.set(Key{1}, true);
        b = o;
        break;
      }
      case 6: b = ~b; break;
      case 7: b <<= 5U; break;
    }
  }
};

template <typename D, typename I>
struct ops<cista::fws_multimap<D, I>> {
  using M = cista::fws_multimap<D, I>;
  static constexpr int n = 4;
  static void run(M& m, int const k, unsigned const s) {
    switch (k) {
      case 0:
        if (!m.finished()) {
          m.push_back(mk<typename D::value_type>(s));
        }
        break;
      case 1:
        if (!m.finished()) {
          m.finish_key();
        }
        break;
      case 2: {
        auto const c = m;
        m = c;
        break;
      }
      case 3: m.reserve_index(30U); break;
    }
  }
};

template <typename K, typename D, typename I>
struct ops<cista::basic_vecvec<K, D, I>> {
  using M = cista::basic_vecvec<K, D, I>;
  using E = typename D::value_type;
  static constexpr int n = 9;
  static void run(M& m, int const k, unsigned const s) {
    auto const b = std::vector<E>{mk<E>(s), mk<E>(s + 1U)};
    switch (k) {
      case 0: m.emplace_back(b); break;
      case 1: m.emplace_back(std::vector<E>{}); break;
      case 2:
        if (m.size() != 0U) {
          m[K(0)].push_back(mk<E>(s));
        }
        break;
      case 3: m.resize(m.size() + 2U); break;
      case 4: m.clear(); break;
      case 5: m.add_back_sized(2U)[1] = mk<E>(s); break;
      case 6:
        if (m.size() > 1U) {
          m.resize(1U);
        }
        break;
      case 7: {
        auto const c = m;
        m = c;
        break;
      }
      case 8:
        if (m.size() != 0U) {
          m[K(static_cast<cista::base_t<K>>(m.size() - 1U))].push_back(mk<E>(s));
        }
        break;
    }
  }
};

template <typename K, typename D, typename I, std::size_t N, typename S>
struct ops<cista::basic_nvec<K, D, I, N, S>> {
  using M = cista::basic_nvec<K, D, I, N, S>;
  using E = typename D::value_type;
  static constexpr int n = 4;
  static void run(M& m, int const k, unsigned const s) {
    switch (k) {
      case 0: m.emplace_back(std::vector<std::vector<E>>{{mk<E>(s)}, {}, {mk<E>(s + 1U), mk<E>(s + 2U)}}); break;
      case 1: m.emplace_back(std::vector<std::vector<E>>{}); break;
      case 2: {
        auto const c = m;
        m = c;
        break;
      }
      case 3: m = M{}; break;
    }
  }
};

template <typename V>
struct ops<cista::base_flat_matrix<V>> {
  using M = cista::base_flat_matrix<V>;
  using E = typename V::value_type;
  static constexpr int n = 6;
  static void run(M& m, int const k, unsigned const s) {
    switch (k) {
      case 0: m.resize(m.n_rows_ + 1U, m.n_columns_ + 2U); break;
      case 1: m.resize(1U, 1U); break;
      case 2:
        if (m.n_rows_ * m.n_columns_ != 0U) {
          m(m.n_rows_ - 1U, m.n_columns_ - 1U) = mk<E>(s);
        }
        break;
      case 3: m.reset(mk<E>(s)); break;
      case 4: {
        auto const c = m;
        m = c;
        break;
      }
      case 5: {
        M c;
        c.resize(2U, 2U);
        m = std::move(c);
        break;
      }
    }
  }
};

template <typename T, typename S, template <typename> typename V, std::size_t L>
struct ops<cista::dynamic_fws_multimap_base<T, S, V, L>> {
  using M = cista::dynamic_fws_multimap_base<T, S, V, L>;
  static constexpr int n = 10;
  static void run(M& m, int const k, unsigned const s) {
    using K = typename M::access_t;
    switch (k) {
      case 0: m.emplace_back().push_back(mk<T>(s)); break;
      case 1:
        if (m.size() != 0U) {
          m[K(0)].push_back(mk<T>(s));
        }
        break;
      case 2:
        if (m.size() != 0U) {
          for (auto i = 0U; i != 6U; ++i) {
            m[K(0)].push_back(mk<T>(s + i));
          }
        }
        break;
      case 3:
        if (m.size() != 0U) {
          m.erase(K(0));
        }
        break;
      case 4: m.clear(); break;
      case 5:
        if (m.size() != 0U && m[K(0)].size() != 0U) {
          m[K(0)].pop_back();
        }
        break;
      case 6:
        if (m.size() != 0U) {
          m[K(0)].resize(m[K(0)].size() + 3U);
        }
        break;
      case 7: m.reserve(20U, 50U); break;
      case 8: {
        auto const c = m;
        m = c;
        break;
      }
      case 9:
        if (m.size() != 0U && m[K(0)].size() != 0U) {
          auto b = m[K(0)];
          b.erase(b.begin());
        }
        break;
    }
  }
};

template <typename I, typename P, typename K>
struct ops<cista::paged_vecvec<I, P, K>> {
  using M = cista::paged_vecvec<I, P, K>;
  using E = typename M::data_value_type;
  static constexpr int n = 8;
  static void run(M& m, int const k, unsigned const s) {
    auto const b = std::vector<E>{mk<E>(s), mk<E>(s + 1U)};
    switch (k) {
      case 0: m.emplace_back(b); break;
      case 1:
        if (!m.empty()) {
          m[K(0)].push_back(mk<E>(s));
        }
        break;
      case 2:
        if (!m.empty()) {
          for (auto i = 0U; i != 40U; ++i) {
            m[K(0)].push_back(mk<E>(s + i));
          }
        }
        break;
      case 3: m.clear(); break;
      case 4: m.resize(m.size() + 2U); break;
      case 5:
        if (!m.empty()) {
          m.resize(1U);
        }
        break;
      case 6:
        if (!m.empty()) {
          m.insert(K(0), b);
        }
        break;
      case 7: {
        auto const c = m;
        m = c;
        break;
      }
    }
  }
};

template <typename T, template <typename, typename...> typename V, std::uint32_t D, typename N, std::uint32_t M, typename S>
struct ops<cista::basic_rtree<T, V, D, N, M, S>> {
  using R = cista::basic_rtree<T, V, D, N, M, S>;
  static constexpr int n = 4;
  static void rect(unsigned const s, typename R::coord_t& a, typename R::coord_t& b) {
    for (auto d = 0U; d != D; ++d) {
      a[d] = static_cast<N>((s * (5U + d)) % 13U);
      b[d] = static_cast<N>(a[d] + static_cast<N>(s % 2U));
    }
  }
  static void run(R& r, int const k, unsigned const s) {
    typename R::coord_t a, b;
    switch (k) {
      case 0:
        rect(s, a, b);
        r.insert(a, b, static_cast<T>(100U + s));
        break;
      case 1:
        for (auto i = 0U; i != M + 1U; ++i) {
          rect(s + i, a, b);
          r.insert(a, b, static_cast<T>(200U + s + i));
        }
        break;
      case 2: {
        // delete what a search finds first
        auto hit = false;
        T v{};
        typename R::coord_t lo, hi, fa{}, fb{};
        for (auto d = 0U; d != D; ++d) {
          lo[d] = static_cast<N>(-100);
          hi[d] = static_cast<N>(100);
        }
        r.search(lo, hi, [&](auto const& x, auto const& y, auto const& z) {
          fa = x;
          fb = y;
          v = z;
          hit = true;
          return false;
        });
        if (hit) {
          r.delete_element(fa, fb, v);
        }
        break;
      }
      case 3: {
        auto const c = r;
        r = c;
        break;
      }
    }
  }
};

template <>
struct ops<inner> {
  static constexpr int n = 2;
  static void run(inner& x, int const k, unsigned const s) {
    if (k == 0) {
      x = mk<inner>(s);
    } else {
      auto const c = x;
      x = c;
    }
  }
};

template <typename T>
struct is_view : std::false_type {};
template <typename P>
struct is_view<cista::basic_cstring<P>> : std::true_type {};
template <typename T, template <typename> typename Ptr, bool I, typename S>
struct is_view<cista::basic_vector<T, Ptr, I, S>> : is_view<T> {};

constexpr auto const kMode = kit::is_offset_flavour() ? mode::DEEP_CHECK : mode::NONE;

template <typename T>
constexpr bool can_copy() {
  if constexpr (std::is_copy_constructible_v<T>) {
    return true;
  } else {
    return false;
  }
}
// std::is_copy_constructible does not see through containers of move-only types
template <typename T>
struct copyable : std::bool_constant<can_copy<T>()> {};
template <typename T, template <typename> typename Ptr, bool I, typename S>
struct copyable<cista::basic_vector<T, Ptr, I, S>> : copyable<T> {};

// Known finding (see known_findings.txt and the last scenario): elements that
// live in storage of the image are not destroyed when their container lets go
// of that storage, so memory such an element allocated itself stays behind.
// Exactly these blocks - referred to from the image's bytes outside the root
// object after every object is gone - are released here; everything else
// counts as a leak.
unsigned release_element_blocks(std::uint8_t const* lo, std::uint8_t const* hi, void const* root = nullptr,
                                std::size_t const root_size = 0U) {
  auto released = 0U;
  for (auto const* p = lo; p + 8 <= hi; p += 8) {
    if (p >= static_cast<std::uint8_t const*>(root) && p < static_cast<std::uint8_t const*>(root) + root_size) {
      continue;
    }
    std::uint64_t v;
    std::memcpy(&v, p, 8);
    auto* const b = reinterpret_cast<std::uint8_t*>(
        kit::is_offset_flavour() ? reinterpret_cast<std::uint64_t>(p) + v : v);
    if (v == 0U || b == lo || __sanitizer_get_ownership(b) == 0) {
      continue;
    }
    auto const n = __sanitizer_get_allocated_size(b);
    ++released;
    released += release_element_blocks(b, b + n);
    std::free(b);
  }
  return released;
}

template <typename T>
void type(char const* name) {
  using R = root<T>;
  mc::logf("%s", name);
  mc::op("generate");
  auto fresh = std::make_unique<R>();
  {
    kit::G g;
    g.level = 2;
    g(fresh->a_);
    g.level = 0;
    g(fresh->g_);
    g(fresh->b_);
  }
  mc::op("serialize");
  auto img = std::make_unique<kit::image>(kit::image::of(cista::serialize(*fresh)));
  auto* const el = cista::deserialize<R, kMode>(img->begin(), img->end());
  auto const guard = kit::dump(fresh->b_);
  mc::logf("value: %.300s", kit::dump(fresh->a_).c_str());
  auto compare = [&](char const* when) {
    mc::op("read");
    auto const x = kit::dump(el->a_), y = kit::dump(fresh->a_);
    MC_CHECK(x == y, "differs", "%s, %s: image resident %.300s / in memory %.300s", name, when, x.c_str(), y.c_str());
    MC_CHECK(kit::dump(el->b_) == guard, "neighbour", "%s, %s: another member of the image changed", name, when);
  };
  compare("before");
  auto const depth = mc::bound();
  auto history = [&](T& x, T& y, unsigned const seed, int const d, char const* when) {
    for (auto i = 0; i != d; ++i) {
      auto const k = mc::choose(ops<T>::n + 1);
      if (k == 0) {
        break;
      }
      mc::logf("operation %d", k - 1);
      mc::op("operation on the image");
      ops<T>::run(x, k - 1, seed + static_cast<unsigned>(i) * 3U);
      mc::op("operation in memory");
      ops<T>::run(y, k - 1, seed + static_cast<unsigned>(i) * 3U);
      mc::op("read");
      auto const a = kit::dump(x), b = kit::dump(y);
      MC_CHECK(a == b, "differs", "%s, %s: image resident %.300s / in memory %.300s", name, when, a.c_str(), b.c_str());
      mc::step();
    }
  };
  history(el->a_, fresh->a_, 1U, depth, "after operation");
  compare("after operations");
  auto gone = false;
  auto destroy = [&]() {
    if (!gone) {
      gone = true;
      mc::op("destroy in the image");
      el->~R();
    }
  };
  switch (mc::choose(4)) {
    case 0:
      break;
    case 1:
      if constexpr (copyable<T>::value) {
        mc::logf("copy, drop the image");
        mc::op("copy");
        auto c = el->a_;
        auto f = fresh->a_;
        if (is_view<T>::value) {
          break;
        }
        destroy();
        release_element_blocks(img->begin(), img->end(), el, sizeof(R));
        img.reset();
        mc::op("read the copy");
        auto const x = kit::dump(c), y = kit::dump(f);
        MC_CHECK(x == y, "copy", "%s: copy %.300s expected %.300s", name, x.c_str(), y.c_str());
        history(c, f, 30U, 1, "operation on the copy");
      }
      break;
    case 2: {
      mc::logf("move out, modify, drop");
      mc::op("move");
      auto c = std::move(el->a_);
      auto f = std::move(fresh->a_);
      mc::op("read the moved value");
      auto const x = kit::dump(c), y = kit::dump(f);
      MC_CHECK(x == y, "move", "%s: moved %.300s expected %.300s", name, x.c_str(), y.c_str());
      history(c, f, 30U, 1, "operation on the moved value");
      // both are usable again
      mc::op("assign after move");
      el->a_ = std::move(c);
      fresh->a_ = std::move(f);
      compare("moved back");
      break;
    }
    case 3:
      if constexpr (copyable<T>::value) {
        mc::logf("assign between image and memory");
        mc::op("assign");
        T c{};
        c = el->a_;
        el->a_ = fresh->b_;
        fresh->a_ = fresh->b_;
        compare("assigned from memory");
        el->a_ = el->b_;
        compare("assigned within the image");
      }
      break;
  }
  destroy();
  mc::op("destroy");
  mc::state(mc::H{}(std::hash<std::string>{}(kit::dump(fresh->a_))));
  fresh.reset();
  if (img != nullptr) {
    release_element_blocks(img->begin(), img->end(), el, sizeof(R));
  }
  mc::checked();
}

#define TYPE(...) type<__VA_ARGS__>(#__VA_ARGS__)

MC_SCENARIO("operations on image resident containers", 1, 2) {
#if GROUP == 1
  switch (mc::choose(5)) {
    case 0: TYPE(data::vector<std::uint32_t>); break;
    case 1: TYPE(data::vector<data::string>); break;
    case 2: TYPE(data::vector<data::unique_ptr<std::uint32_t>>); break;
    case 3: TYPE(data::vector<data::vector<data::string>>); break;
    case 4: TYPE(data::indexed_vector<inner>); break;
  }
#elif GROUP == 2
  switch (mc::choose(9)) {
    case 0: TYPE(data::string); break;
    case 1: TYPE(data::u16string); break;
    case 2: TYPE(data::cstring); break;
    case 3: TYPE(data::unique_ptr<inner>); break;
    case 4: TYPE(cista::optional<data::string>); break;
    case 5: TYPE(cista::variant<std::uint32_t, data::string, data::vector<data::string>>); break;
    case 6: TYPE(cista::tuple<std::uint8_t, data::string>); break;
    case 7: TYPE(cista::array<data::string, 2>); break;
    case 8: TYPE(inner); break;
  }
#elif GROUP == 3
  switch (mc::choose(2)) {
    case 0: TYPE(data::hash_map<std::uint32_t, std::uint64_t>); break;
    case 1: TYPE(data::hash_map<data::string, data::string>); break;
  }
#elif GROUP == 4
  switch (mc::choose(6)) {
    case 0: TYPE(cista::bitset<65>); break;
    case 1: TYPE(data::bitvec); break;
    case 2: TYPE(data::fws_multimap<std::uint32_t, data::string>); break;
    case 3: TYPE(data::vecvec<std::uint32_t, data::string>); break;
    case 4: TYPE(data::nvec<std::uint32_t, std::uint16_t, 2>); break;
    case 5: TYPE(data::flat_matrix<data::string>); break;
  }
#elif GROUP == 5
  switch (mc::choose(3)) {
    case 0: TYPE(data::mutable_fws_multimap<std::uint32_t, std::uint16_t>); break;
    case 1:
      TYPE(cista::paged_vecvec<data::vector<typename cista::paged<data::vector<std::uint32_t>>::page_t>,
                               cista::paged<data::vector<std::uint32_t>>, std::uint32_t>);
      break;
    case 2: TYPE(data::rtree<std::uint32_t, 2, std::int32_t, 4, std::uint32_t>); break;
  }
#elif GROUP == 6
  switch (mc::choose(2)) {
    case 0: TYPE(data::hash_set<data::string>); break;
    case 1: TYPE(data::hash_map<std::uint32_t, data::vector<data::string>>); break;
  }
#endif
}

#if GROUP == 1
MC_SCENARIO("memory allocated by elements of image storage is released", 1, 1) {
  auto v = root<data::vector<data::string>>{};
  v.a_.push_back(data::string{"x"});
  kit::image img = kit::image::of(cista::serialize(v));
  auto* const el = cista::deserialize<root<data::vector<data::string>>, kMode>(img.begin(), img.end());
  mc::op("operation on the image");
  el->a_[0] = std::string(60, 'y');
  el->a_.~basic_vector();
  new (&el->a_) data::vector<data::string>{};
  MC_CHECK(release_element_blocks(img.begin(), img.end()) == 0U, "element_of_image_leak",
           "an element in image storage that allocated memory is not destroyed with its container");
}
#endif

}  // namespace
