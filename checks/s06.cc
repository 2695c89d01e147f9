// S06: checked deserialization of arbitrary bytes is memory safe.
// -DGROUP=1..9 selects root types.
//
// Every mutation of every generated image is deserialized from a buffer of
// exactly its size (ASan guards both ends).  If it is accepted, the value is
// traversed completely through the public API; every piece of memory the API
// hands out has to lie inside the buffer.
#include "gen.h"

namespace {

using cista::mode;

// -------------------------------------------------------- complete traversal
struct escape {
  char const* what;
};

struct U {
  std::uintptr_t lo{0}, hi{0};
  bool follow{false};
  std::uint64_t steps{0}, max_steps{30000000};
  unsigned depth{0};
  std::vector<std::pair<void const*, std::size_t>> seen;
  volatile std::uint64_t sink{0};

  template <typename T>
  void in(T const* p, std::uint64_t const n = 1U) {
    using V = std::remove_cv_t<T>;
    if (++steps > max_steps) {
      throw escape{"traversal does not terminate"};
    }
    auto const a = reinterpret_cast<std::uintptr_t>(p);
    if (n == 0U) {
      return;
    }
    if (a < lo || a > hi || n > (hi - a) / sizeof(V)) {
      throw escape{"memory outside of the buffer is accessible"};
    }
    if (a % alignof(V) != 0U) {
      throw escape{"misaligned object is accessible"};
    }
  }

  template <typename T>
  void operator()(T const& x) {
    if (++depth > 5000U) {
      throw escape{"unbounded nesting"};
    }
    in(&x);
    visit(x);
    --depth;
  }

  template <typename T>
  void range(T const* b, T const* e) {
    if (b == e) {
      return;
    }
    if (e < b) {
      throw escape{"negative range"};
    }
    in(b, static_cast<std::uint64_t>(e - b));
    for (; b != e; ++b) {
      (*this)(*b);
    }
  }

  template <typename T>
  std::enable_if_t<std::is_integral_v<T> || std::is_floating_point_v<T> ||
                   std::is_enum_v<T>>
  visit(T const& x) {
    sink = sink + *reinterpret_cast<std::uint8_t const volatile*>(&x);
  }
  template <typename R, typename P>
  void visit(std::chrono::duration<R, P> const&) {}
  template <typename T, typename Tag>
  void visit(cista::strong<T, Tag> const&) {}

  template <typename T>
  void pointer(T const* p) {
    using V = std::remove_cv_t<T>;
    if (p == nullptr) {
      return;
    }
    if constexpr (!std::is_void_v<V>) {
      in(p);
      if (follow) {
        auto const k = std::pair{static_cast<void const*>(p),
                                 typeid(V).hash_code()};
        if (std::find(begin(seen), end(seen), k) == end(seen)) {
          seen.push_back(k);
          (*this)(*p);
        }
      }
    }
  }
  template <typename T>
  void visit(cista::offset_ptr<T> const& p) {
    pointer(static_cast<T const*>(p.get()));
  }

  template <typename S>
  void text(S const& s) {
    auto const v = s.view();
    in(v.data(), v.size());
    std::uint64_t h = v.size() + s.size();
    for (auto const c : v) {
      h = h * 31U + static_cast<std::uint64_t>(c);
    }
    sink = sink + h + (s.empty() ? 1U : 0U) + (s == s ? 1U : 0U);
    range(s.begin(), s.end());
  }
  template <typename Ptr>
  void visit(cista::basic_string<Ptr> const& s) {
    text(s);
  }
  template <typename Ptr>
  void visit(cista::basic_string_view<Ptr> const& s) {
    text(s);
  }
  template <typename Ptr>
  void visit(cista::basic_cstring<Ptr> const& s) {
    in(s.data(), static_cast<std::uint64_t>(s.size()) + 1U);
    sink = sink + strlen(s.c_str());
    text(s);
  }

  template <typename T, template <typename> typename Ptr, bool I, typename S>
  void visit(cista::basic_vector<T, Ptr, I, S> const& v) {
    // (begin + size can wrap around the address space back into the buffer)
    in(v.data(), static_cast<std::uint64_t>(v.size()));
    range(v.begin(), v.end());
    if (!v.empty()) {
      in(&v.back());
      in(&v[v.size() - 1U]);
    }
    auto n = std::uint64_t{0};
    for (auto it = v.rbegin(); it != v.rend() && n < 3U; ++it, ++n) {
      in(&*it);
    }
  }
  template <typename T>
  void visit(cista::indexed<T> const& x) {
    (*this)(static_cast<T const&>(x));
  }
  template <typename T, typename Ptr>
  void visit(cista::basic_unique_ptr<T, Ptr> const& p) {
    if (p) {
      in(p.get());
      (*this)(*p);
    }
  }
  template <typename T>
  void visit(cista::optional<T> const& o) {
    if (o.has_value()) {
      (*this)(*o);
    }
  }
  template <typename... T>
  void visit(cista::variant<T...> const& v) {
    if (v.index() >= sizeof...(T)) {
      throw escape{"variant index out of range"};
    }
    v.apply([&](auto const& e) { (*this)(e); });
  }
  template <typename A, typename B>
  void visit(cista::pair<A, B> const& p) {
    (*this)(p.first);
    (*this)(p.second);
  }
  template <typename A, typename B>
  void visit(std::pair<A, B> const& p) {
    (*this)(p.first);
    (*this)(p.second);
  }
  template <typename... T>
  void visit(cista::tuple<T...> const& t) {
    cista::apply([&](auto const&... e) { ((*this)(e), ...); }, t);
  }
  template <typename T, std::size_t N>
  void visit(cista::array<T, N> const& a) {
    for (auto const& e : a) {
      (*this)(e);
    }
  }

  // ---- hash tables: iterate, find every key, find absent keys
  template <typename T, template <typename> typename Ptr, typename GK,
            typename GV, typename Hash, typename Eq>
  void visit(cista::hash_storage<T, Ptr, GK, GV, Hash, Eq> const& h) {
    for (auto const& e : h) {
      (*this)(e);
      auto const it = h.find(GK{}(e));
      if (it != h.end()) {
        in(&*it);
      }
    }
    using key = std::decay_t<decltype(GK{}(std::declval<T const&>()))>;
    if constexpr (std::is_integral_v<key>) {
      for (auto k = 0U; k != 40U; ++k) {
        absent(h, static_cast<key>(0x1234567ULL * k));
      }
    } else if constexpr (std::is_same_v<key, data::string>) {
      for (auto k = 0U; k != 40U; ++k) {
        auto const c = static_cast<char>('0' + k);
        absent(h, data::string{std::string_view{&c, 1U}});
      }
    }
  }
  template <typename M, typename K>
  void absent(M const& m, K const& k) {
    auto const it = m.find(k);
    if (it != m.end()) {
      in(&*it);
    }
  }

  // ---- bits
  template <std::size_t N>
  void visit(cista::bitset<N> const& b) {
    sink = sink + b.count() + (b.any() ? 1U : 0U);
    b.for_each_set_bit([&](std::size_t const i) {
      if (i >= N) {
        throw escape{"bit outside of the bitset"};
      }
    });
  }
  template <typename Vec, typename Key>
  void visit(cista::basic_bitvec<Vec, Key> const& b) {
    (*this)(b.blocks_);
    auto const n = b.size();
    for (auto i = 0U; i != n; ++i) {
      if (++steps > max_steps) {
        throw escape{"bitvec: size beyond the buffer"};
      }
      in(&b.blocks_.data()[i / 64U]);
      sink = sink + b[Key{i}];
    }
    sink = sink + b.count() + (b.any() ? 1U : 0U);
    b.for_each_set_bit([&](auto const i) { sink = sink + cista::to_idx(i); });
    sink = sink + (b.next_set_bit(0U).has_value() ? 1U : 0U) + b.str().size();
  }

  // ---- multimaps and nested vectors
  template <typename D, typename I>
  void visit(cista::fws_multimap<D, I> const& m) {
    (*this)(m.data_);
    (*this)(m.index_);
    for (auto const& e : m) {
      ++steps;
      range(e.begin(), e.end());
      if (!e.empty()) {
        in(&e[0]);
        in(&e[static_cast<typename I::value_type>(e.size() - 1U)]);
      }
    }
  }
  template <typename K, typename D, typename I>
  void visit(cista::basic_vecvec<K, D, I> const& m) {
    (*this)(m.data_);
    (*this)(m.bucket_starts_);
    for (auto const b : m) {
      ++steps;
      range(b.begin(), b.end());
      if (!b.empty()) {
        in(&b[0]);
        in(&b.back());
        in(&b.at(0));
      }
    }
  }
  template <typename K, typename D, typename I, std::size_t N, typename S>
  void visit(cista::basic_nvec<K, D, I, N, S> const& m) {
    for (auto i = S{0}; i != m.size(); ++i) {
      nested(m[i]);
    }
  }
  template <std::size_t L, typename D, typename I, typename S>
  void nested(cista::const_meta_bucket<L, D, I, S> const& b) {
    ++steps;
    for (auto const x : b) {
      nested(x);
    }
  }
  template <typename D, typename I, typename S>
  void nested(cista::const_bucket<D, I, S> const& b) {
    range(b.begin(), b.end());
  }
  template <typename T, typename S, template <typename> typename V,
            std::size_t L>
  void visit(cista::dynamic_fws_multimap_base<T, S, V, L> const& m) {
    (*this)(m.data_);
    for (auto i = 0U; i != m.size(); ++i) {
      auto const b = m[S{static_cast<cista::base_t<S>>(i)}];
      range(b.begin(), b.end());
      if (!b.empty()) {
        in(&b.at(0));
        in(&b.back());
      }
    }
    // buckets that are free for reuse
    for (auto const& f : m.free_buckets_) {
      for (auto const& e : f) {
        auto const b = static_cast<std::uint64_t>(e.begin_);
        if (b + e.capacity_ > m.data_.size()) {
          throw escape{"free bucket outside of the data"};
        }
      }
    }
  }
  template <typename D, typename S, typename P, P A, P B>
  void visit(cista::paged<D, S, P, A, B> const& p) {
    (*this)(p.data_);
    auto c = std::uint64_t{A};
    for (auto const& n : p.free_list_) {
      auto next = n.next_;
      while (next != std::numeric_limits<S>::max()) {
        if (next + c > p.data_.size()) {
          throw escape{"free page outside of the data"};
        }
        if (++steps > max_steps) {
          throw escape{"free list does not terminate"};
        }
        std::memcpy(&next, &p.data_[next], sizeof(S));
      }
      c *= 2U;
    }
  }
  template <typename I, typename P, typename K>
  void visit(cista::paged_vecvec<I, P, K> const& m) {
    (*this)(m.paged_);
    for (auto i = K{0}; i != m.size(); ++i) {
      auto const b = m[i];
      range(b.begin(), b.end());
      if (!b.empty()) {
        in(&b.at(0));
        in(&b.back());
      }
      auto const& p = m.page(i);
      in(m.data(p), p.capacity_);  // used when the bucket grows
    }
  }
  template <typename V>
  void visit(cista::base_flat_matrix<V> const& m) {
    (*this)(m.entries_);
    auto const c = static_cast<std::uint64_t>(m.n_columns_);
    if (c == 0U) {
      return;
    }
    for (auto i = typename V::size_type{0}; i != m.n_rows_; ++i) {
      auto const r = m[i];
      range(r.begin(), r.end());
      for (auto j = typename V::size_type{0}; j != m.n_columns_; ++j) {
        in(&m(i, j));
      }
    }
  }
  template <typename T, template <typename, typename...> typename V,
            std::uint32_t D, typename N, std::uint32_t M, typename S>
  void visit(cista::basic_rtree<T, V, D, N, M, S> const& r) {
    using R = cista::basic_rtree<T, V, D, N, M, S>;
    typename R::coord_t a, b;
    for (auto i = 0U; i != D; ++i) {
      a[i] = std::numeric_limits<N>::lowest();
      b[i] = std::numeric_limits<N>::max();
    }
    r.search(a, b, [&](auto const& mn, auto const& mx, auto const& d) {
      in(&mn);
      in(&mx);
      (*this)(d);
      return true;
    });
    // nodes that are free for reuse
    auto f = r.m_.free_list_;
    while (f != R::node_idx_t::invalid()) {
      auto const& n = r.get_node(f);
      in(&n);
      if (n.kind_ == R::kind::kEndFreeList) {
        break;
      }
      f = typename R::node_idx_t{n.count_};
    }
  }

  template <typename T>
  auto visit(T const& x)
      -> std::enable_if_t<(sizeof(std::declval<T const&>().each(
                               std::declval<U&>())),
                           true)> {
    x.each(*this);
  }
  template <typename I>
  auto visit(I const& x)
      -> std::enable_if_t<(sizeof(x.begin_) > 0 && sizeof(x.capacity_) > 0)> {}
  template <typename S, typename P>
  void visit(cista::page<S, P> const&) {}
};

// ------------------------------------------------------------------- roots
struct inner {
  std::uint8_t a_{};
  std::uint32_t b_{};
  data::string c_{};
  KIT_EACH(a_, b_, c_)
};

template <typename T>
struct root {
  std::uint8_t p_{};
  T a_{};
  std::uint32_t t_{};
  template <typename F>
  int each(F&& f) const {
    kit::each_of(f, p_, a_, t_);
    return 0;
  }
  template <typename F>
  int gen(F& g) {
    p_ = 0x11;
    t_ = 0x22222222;
    g(a_);
    return 0;
  }
};

// ------------------------------------------------------------ one attempt
struct attempt {
  template <typename T, mode M>
  static bool run(kit::image const& img) {
    T* x = nullptr;
    try {
      x = cista::deserialize<T, M>(img.begin(), img.end());
    } catch (std::exception const&) {
      return false;
    }
    U u;
    u.lo = reinterpret_cast<std::uintptr_t>(img.begin());
    u.hi = reinterpret_cast<std::uintptr_t>(img.end());
    u.follow = (M & mode::DEEP_CHECK) == mode::DEEP_CHECK;
    try {
      u(*x);
    } catch (escape const& e) {
      mc::fail(e.what, "%s", e.what);
    }
    return true;
  }
};

struct window {
  std::size_t off;
  unsigned w;
};

template <typename T, mode M>
struct check {
  kit::image img;  // original
  kit::image cur;  // mutated
  std::vector<window> fields;
  int log_mark{0};
  std::uint64_t tried{0}, accepted{0};

  static kit::image make(kit::G& g) {
    auto v = std::make_unique<T>();
    g(*v);
    auto const buf = cista::serialize(*v);
    return kit::image::of(buf);
  }

  explicit check(kit::G& g) : img{make(g)}, cur{img} {
    cista::deserialize<T, M>(cur.begin(), cur.end());
    kit::W w;
    std::vector<kit::W::field> f;
    w.ints = &f;
    w(*reinterpret_cast<T const*>(cur.begin()));
    std::memcpy(cur.p_, img.p_, img.n_);
    for (auto const& x : f) {
      auto const o = static_cast<std::size_t>(x.p - cur.p_);
      if (x.p >= cur.p_ && o + x.w <= cur.n_ && o != offsetof(T, t_) &&
          std::none_of(begin(fields), end(fields), [&](window const& e) {
            return e.off == o && e.w == x.w;
          })) {
        fields.push_back({o, x.w});
      }
    }
    MC_CHECK(go("unmodified"), "valid-image-rejected",
             "a valid image was rejected");
    log_mark = mc::G->log_len;
  }

  bool go(char const* what) {
    ++tried;
    if (mc::replaying()) {
      mc::G->log_len = log_mark;
      log_mutation(what);
    }
    auto const ok = attempt::run<T, M>(cur);
    accepted += ok ? 1U : 0U;
    mc::checked();
    if ((tried & 1023U) == 0U) {
      mc::beat();
    }
    return ok;
  }

  void log_mutation(char const* what) {
    std::string s;
    auto n = 0U;
    for (auto i = std::size_t{0}; i != img.n_; ++i) {
      if (img.p_[i] != cur.p_[i] && ++n <= 40U) {
        char b[40];
        snprintf(b, sizeof(b), " [%zu]:%02x->%02x", i, img.p_[i], cur.p_[i]);
        s += b;
      }
    }
    mc::logf("%s: image of %zu bytes, changed%s", what, img.n_, s.c_str());
  }

  void restore() { std::memcpy(cur.p_, img.p_, img.n_); }

  std::uint64_t get(window const& f) const {
    std::uint64_t v = 0;
    std::memcpy(&v, img.p_ + f.off, f.w);
    return v;
  }
  void put(window const& f, std::uint64_t const v) {
    std::memcpy(cur.p_ + f.off, &v, f.w);
  }

  // boundary values of a field
  std::vector<std::uint64_t> values(window const& f, bool const all) const {
    auto const v = get(f);
    auto const n = static_cast<std::uint64_t>(img.n_);
    std::vector<std::uint64_t> r;
    auto add = [&](std::uint64_t x) {
      if (f.w < 8U) {
        x &= (1ULL << (8U * f.w)) - 1U;
      }
      if (x != v && std::find(begin(r), end(r), x) == end(r)) {
        r.push_back(x);
      }
    };
    for (auto const d : {1, -1, 2, -2, 8, -8, 16}) {
      add(v + static_cast<std::uint64_t>(static_cast<std::int64_t>(d)));
    }
    add(0);
    add(1);
    add(2);
    add(v * 2U);
    add(n);
    add(~0ULL);
    add(1ULL << (8U * f.w - 1U));
    add((1ULL << (8U * f.w - 1U)) - 1U);
    if (f.w >= 4U) {
      for (auto k = 1U; k <= 4U; ++k) {  // times an element size: wraps around
        add(v + (1ULL << (8U * f.w - k)));
      }
    }
    if (all) {
      for (auto i = 0U; i != 40U; ++i) {
        add(i);
        add(~static_cast<std::uint64_t>(i));
        add(v + i);
        add(v - i);
        add(n + i - 20U);
      }
      for (auto k = 0U; k != 8U * f.w; ++k) {
        add(1ULL << k);
        add((1ULL << k) - 1U);
        add((1ULL << k) + 1U);
        add(v + (1ULL << k));
        add(~0ULL << k);
      }
    }
    if (f.w == 8U && (all || mc::thorough() || n <= 160U)) {
      // a relative pointer to every position of the image
      auto const st = all ? 1U : mc::thorough() ? 4U : 8U;
      for (auto p = std::int64_t{-8}; p <= static_cast<std::int64_t>(n) + 8;
           p += st) {
        add(static_cast<std::uint64_t>(p - static_cast<std::int64_t>(f.off)));
      }
    }
    return r;
  }

  void bytes(std::size_t const i) {
    for (auto b = 0U; b != 256U; ++b) {
      if (b != img.p_[i]) {
        cur.p_[i] = static_cast<std::uint8_t>(b);
        go("byte");
      }
    }
    cur.p_[i] = img.p_[i];
  }

  void wide(window const& f) {
    for (auto const v : values(f, true)) {
      put(f, v);
      go("integer");
    }
    restore();
  }

  void pair(window const& a, window const& b) {
    auto const va = values(a, false), vb = values(b, false);
    for (auto const x : va) {
      put(a, x);
      for (auto const y : vb) {
        put(b, y);
        go("two integers");
      }
    }
    restore();
  }

  void byte_and_field(std::size_t const i, window const& f) {
    for (auto const b : {0x00, 0x01, 0x02, 0x7F, 0x80, 0xFE, 0xFF}) {
      cur.p_[i] = static_cast<std::uint8_t>(b);
      for (auto const y : values(f, false)) {
        put(f, y);
        if (i < f.off || i >= f.off + f.w) {
          cur.p_[i] = static_cast<std::uint8_t>(b);
          go("byte and integer");
        }
      }
    }
    restore();
  }

  void two_bytes(std::size_t const i, std::size_t const j) {
    for (auto const a : {0x00, 0x01, 0x02, 0x7F, 0x80, 0xFE, 0xFF}) {
      for (auto const b : {0x00, 0x01, 0x02, 0x7F, 0x80, 0xFE, 0xFF}) {
        cur.p_[i] = static_cast<std::uint8_t>(a);
        cur.p_[j] = static_cast<std::uint8_t>(b);
        go("two bytes");
      }
    }
    restore();
  }

  // prefix / extension / shift of the image; strings made of one byte
  void resized() {
    auto with = [&](kit::image&& c) {
      ++tried;
      mc::checked();
      if (mc::replaying()) {
        mc::G->log_len = log_mark;
        mc::logf("buffer of %zu bytes instead of %zu", c.size(), img.size());
      }
      attempt::run<T, M>(c);
    };
    for (auto n = std::size_t{0}; n <= img.n_ + 65U; ++n) {
      kit::image c{n};
      std::memset(c.p_, 0, n);
      std::memcpy(c.p_, img.p_, std::min(n, img.n_));
      with(std::move(c));
      for (auto const fill : {0x00, 0x01, 0x7F, 0x80, 0xFF}) {
        kit::image d{n};
        std::memset(d.p_, fill, n);
        with(std::move(d));
      }
      mc::beat();
    }
    for (auto s = std::size_t{1}; s <= 16U && s < img.n_; ++s) {
      kit::image c{img.n_};
      std::memset(c.p_, 0, c.n_);
      std::memcpy(c.p_ + s, img.p_, img.n_ - s);
      with(std::move(c));
      kit::image d{img.n_ - s};
      std::memcpy(d.p_, img.p_ + s, img.n_ - s);
      with(std::move(d));
      kit::image e{img.n_ + s};  // a misaligned buffer
      std::memset(e.p_, 0, e.n_);
      std::memcpy(e.p_ + s, img.p_, img.n_);
      e.p_ += s;
      e.n_ -= s;
      auto const restore_p = e.p_ - s;
      attempt::run<T, M>(e);
      e.p_ = restore_p;
    }
  }
};

// Hash tables: every assignment of control bytes, with everything that is
// derived from them (copies, size, growth) consistent, growth also wrapped.
template <typename Map>
void control_bytes() {
  using R = root<Map>;
  using H = std::decay_t<decltype(std::declval<Map&>())>;
  auto v = std::make_unique<R>();
  // capacity 3, 7 (thorough: 15 with most of the bytes fixed)
  auto const caps = mc::choose(mc::thorough() ? 3 : 2);
  auto const big = caps == 2;
  auto const k = caps == 0 ? 3U : caps == 1 ? 5U : 9U;
  for (auto i = 0U; i != k; ++i) {
    auto e = typename H::entry_t{};
    std::memset(static_cast<void*>(&e), static_cast<int>(i * 17U + 3U), sizeof(e));
    v->a_.emplace(std::move(e));
  }
  auto const buf = cista::serialize(*v);
  auto const img = kit::image::of(buf);
  auto* x = cista::deserialize<R>(img.begin(), img.end());
  auto& h = x->a_;
  auto const cap = h.capacity_;
  auto* const ctrl = cista::ptr_cast(h.ctrl_);
  mc::op("control bytes");
  using C = typename H::ctrl_t;
  auto full = 0U, deleted = 0U;
  std::string s;
  for (auto i = 0U; i != cap; ++i) {
    auto const kind =
        mc::choose(big && i >= 6U ? 2 : 4);  // full: two hashes
    ctrl[i] = kind == 0   ? H::EMPTY
              : kind == 1 ? H::DELETED
              : kind == 2 ? static_cast<C>(0x11)
                          : static_cast<C>(0x7F);
    full += kind >= 2 ? 1U : 0U;
    deleted += kind == 1 ? 1U : 0U;
    s += "_D17"[kind];
  }
  for (auto i = 0U; i != H::WIDTH; ++i) {
    ctrl[cap + 1U + i] = i < cap ? ctrl[i] : H::EMPTY;
  }
  h.size_ = full;
  h.growth_left_ = H::capacity_to_growth(cap) - full - deleted;
  mc::logf("control bytes %s", s.c_str());
  auto const ok = attempt::run<R, mode::NONE>(img);
  MC_CHECK(ok || full + deleted > H::capacity_to_growth(cap), "valid-rejected",
           "a possible state of a hash table was rejected: %s", s.c_str());
  mc::checked();
  mc::step();
  mc::state(mc::H{}(s.c_str()));
}

template <typename T>
void scenario() {
  using R = root<T>;
  auto body = [&](auto m) {
    constexpr auto const M = decltype(m)::value;
    auto const cls = mc::choose(6);
    kit::G g;
    // 0: one typical value, 1: typical shapes, 2: all shapes
    g.level = cls == 0 || cls == 1 ? mc::bound() : std::max(0, mc::bound() - 1);
    auto const big = mc::bound() == 0;
    if (M != mode::NONE && !mc::thorough() && cls != 0 && (cls != 2 || big)) {
      return;
    }
    mc::op("mutate");
    auto c = check<R, M>{g};
    auto const n = static_cast<int>(c.img.n_);
    mc::state(mc::H{}(static_cast<std::uint64_t>(M)).bytes(c.img.p_, c.img.n_));
    auto const fields = static_cast<int>(c.fields.size());
    auto const field = [&](int const limit) -> window const& {
      return c.fields[static_cast<std::size_t>(mc::choose(limit))];
    };
    switch (cls) {
      case 0: mc::op("byte"), c.bytes(static_cast<std::size_t>(mc::choose(n))); break;
      case 1: {
        // every aligned 2, 4 and 8 byte window
        mc::op("integer");
        auto const k = mc::choose(n / 2);
        auto const o = static_cast<std::size_t>(k) * 2U;
        for (auto const w : {2U, 4U, 8U}) {
          if (o % w == 0U && o + w <= c.img.n_) {
            c.wide({o, w});
          }
        }
        break;
      }
      case 2:
        if (fields > 1) {
          mc::op("two integers");
          // quick: fields close to each other (in traversal order)
          auto const i = mc::choose(fields - 1);
          auto const d = fields - 1 - i;
          auto const j = i + 1 + mc::choose(mc::thorough() ? d : std::min(d, big ? 3 : 6));
          c.pair(c.fields[static_cast<std::size_t>(i)],
                 c.fields[static_cast<std::size_t>(j)]);
        }
        break;
      case 3:
        if (fields > 0) {
          mc::op("byte and integer");
          auto const& f = field(fields);
          auto const o = static_cast<int>(f.off);
          for (auto i = 0; i != n; ++i) {
            if (mc::thorough() || (i >= o - (big ? 8 : 24) && i < o + (big ? 16 : 32))) {
              c.byte_and_field(static_cast<std::size_t>(i), f);
            }
          }
        }
        break;
      case 4: {
        mc::op("two bytes");
        auto const i = mc::choose(n);
        auto const to = mc::thorough() ? n : std::min(n, i + (big ? 9 : 33));
        for (auto j = i + 1; j < to; ++j) {
          c.two_bytes(static_cast<std::size_t>(i), static_cast<std::size_t>(j));
        }
        break;
      }
      case 5:
        mc::op("resized");
        c.resized();
        break;
    }
    mc::step();
  };
  if (mc::choose(2) == 0) {
    body(std::integral_constant<mode, mode::NONE>{});
  } else {
    body(std::integral_constant<mode, mode::DEEP_CHECK>{});
  }
}

}  // namespace

#define S06(name, ...) \
  MC_SCENARIO_SPLIT(name, 1, 2, 4) { scenario<__VA_ARGS__>(); }
#define S06_BIG(name, ...) \
  MC_SCENARIO_SPLIT(name, 0, 2, 4) { scenario<__VA_ARGS__>(); }

#if GROUP == 1
S06("vector<u32>", data::vector<std::uint32_t>)
S06("vector<vector<u8>>", data::vector<data::vector<std::uint8_t>>)
S06("vector<string>", data::vector<data::string>)
S06("vector with 64 bit size", cista::basic_vector<std::uint16_t, data::ptr, false, std::uint64_t>)
S06("indexed_vector", data::indexed_vector<std::uint16_t>)
#elif GROUP == 2
S06("string", data::string)
S06("u16string", data::u16string)
S06("u32string", data::u32string)
S06("string_view", data::string_view)
S06("u32string_view", data::u32string_view)
S06("cstring", data::cstring)
S06("vector<cstring>", data::vector<data::cstring>)
#elif GROUP == 3
using m1 = data::hash_map<std::uint32_t, std::uint64_t>;
using m2 = data::hash_map<data::string, data::string>;
using m3 = data::hash_set<std::uint16_t>;
using m4 = data::hash_map<std::uint32_t, data::vector<std::uint32_t>>;
S06("hash_map<u32,u64>", m1)
S06_BIG("hash_map<string,string>", m2)
S06("hash_set<u16>", m3)
S06("hash_map<u32,vector>", m4)
MC_SCENARIO_SPLIT("hash_map control bytes", 1, 1, 5) { control_bytes<m1>(); }
MC_SCENARIO_SPLIT("hash_set control bytes", 1, 1, 5) { control_bytes<m3>(); }
#elif GROUP == 4
using v1 = cista::variant<std::uint8_t, data::string, std::uint64_t>;
using t1 = cista::tuple<std::uint8_t, data::string, std::uint32_t>;
using p1 = cista::pair<std::uint16_t, data::string>;
using a1 = cista::array<data::string, 2>;
S06("unique_ptr<u64>", data::unique_ptr<std::uint64_t>)
S06("unique_ptr<struct>", data::unique_ptr<inner>)
S06("optional<string>", cista::optional<data::string>)
S06("variant", v1)
S06("tuple", t1)
S06("pair", p1)
S06("array", a1)
S06("struct", inner)
S06("duration", std::chrono::seconds)
#elif GROUP == 5
using f1 = data::fws_multimap<std::uint32_t, std::uint16_t>;
using f2 = data::fws_multimap<std::uint32_t, data::string>;
using w1 = data::vecvec<std::uint32_t, std::uint16_t>;
using w2 = data::vecvec<std::uint32_t, char>;
S06("bitset", cista::bitset<70>)
S06("bitvec", data::bitvec)
S06("vector<bitvec>", data::vector<data::bitvec>)
S06("fws_multimap<u32,u16>", f1)
S06("fws_multimap<u32,string>", f2)
S06("vecvec<u32,u16>", w1)
S06("vecvec<u32,char>", w2)
#elif GROUP == 6
using n2 = data::nvec<std::uint32_t, std::uint16_t, 2>;
using n3 = data::nvec<std::uint32_t, std::uint16_t, 3>;
using mm = data::mutable_fws_multimap<std::uint32_t, std::uint32_t>;
using pv = cista::paged_vecvec<
    data::vector<typename cista::paged<data::vector<std::uint32_t>>::page_t>,
    cista::paged<data::vector<std::uint32_t>>, std::uint32_t>;
S06("nvec<2>", n2)
S06("nvec<3>", n3)
S06_BIG("mutable_fws_multimap", mm)
S06("paged_vecvec", pv)
S06("flat_matrix<u32>", data::flat_matrix<std::uint32_t>)
#elif GROUP == 7
using r1 = data::rtree<std::uint32_t, 2, std::int16_t, 4, std::uint32_t>;
S06("rtree", r1)
#elif GROUP == 8
struct tree {
  std::uint32_t v_{};
  data::vector<tree> c_{};
  template <typename F>
  int each(F&& f) const {
    kit::each_of(f, v_, c_);
    return 0;
  }
  template <typename F>
  int gen(F& g) {
    v_ = 7U;
    auto const n = g.level == 0 ? 1 : mc::choose(3);
    c_.resize(static_cast<unsigned>(n));
    for (auto& x : c_) {
      x.v_ = 8U;
      x.c_.resize(g.level == 0 ? 2U : static_cast<unsigned>(mc::choose(2)));
    }
    return 0;
  }
};
struct list {
  std::uint32_t v_{};
  data::unique_ptr<list> n_{};
  template <typename F>
  int each(F&& f) const {
    kit::each_of(f, v_, n_);
    return 0;
  }
  template <typename F>
  int gen(F& g) {
    v_ = 7U;
    auto const n = g.level == 0 ? 2 : mc::choose(3);
    auto* p = this;
    for (auto i = 0; i != n; ++i) {
      p->n_ = cista::offset::make_unique<list>();
      p = p->n_.get();
      p->v_ = 9U;
    }
    return 0;
  }
};
struct table {
  std::uint32_t v_{};
  data::hash_map<std::uint32_t, data::unique_ptr<table>> m_{};
  template <typename F>
  int each(F&& f) const {
    kit::each_of(f, v_, m_);
    return 0;
  }
  template <typename F>
  int gen(F& g) {
    v_ = 7U;
    auto const n = g.level == 0 ? 1 : mc::choose(3);
    for (auto i = 0U; i != static_cast<unsigned>(n); ++i) {
      m_.emplace(i, cista::offset::make_unique<table>());
    }
    return 0;
  }
};
struct pnode {
  std::uint8_t v_{};
  data::ptr<pnode> next_{};
  data::ptr<std::uint32_t> x_{};
  data::string s_{};
  KIT_EACH(v_, s_)
};
struct ring {
  std::uint32_t v_{};
  data::vector<pnode> n_{};
  data::ptr<pnode> first_{};
  data::ptr<data::vector<pnode>> vec_{};
  data::ptr<void> any_{};
  template <typename F>
  int each(F&& f) const {
    kit::each_of(f, v_, n_, first_, vec_);
    for (auto const& n : n_) {
      kit::each_of(f, n.next_, n.x_);
    }
    return 0;
  }
  template <typename F>
  int gen(F& g) {
    auto const n = g.level == 0 ? 2U : 1U + static_cast<unsigned>(mc::choose(2));
    n_.resize(n);
    for (auto i = 0U; i != n; ++i) {
      n_[i].next_ = &n_[(i + 1U) % n];
      n_[i].x_ = &v_;
      n_[i].s_ = i == 0U ? std::string_view{"0123456789abcdefghij"}
                         : std::string_view{"short"};
    }
    first_ = &n_[0];
    vec_ = &n_;
    any_ = n_.data();
    return 0;
  }
};
S06("recursive vector", tree)
S06("recursive unique_ptr", list)
S06_BIG("recursive hash_map", table)
S06("pointers", ring)
#elif GROUP == 9
using x1 = data::vector<data::hash_map<std::uint32_t, data::vector<data::string>>>;
using x2 = data::unique_ptr<data::vector<cista::variant<std::uint32_t, inner>>>;
using x3 = data::hash_map<data::string, cista::tuple<data::unique_ptr<std::uint32_t>, data::string>>;
using x4 = cista::variant<data::vector<std::uint64_t>, data::unique_ptr<inner>>;
S06_BIG("vector<hash_map<vector<string>>>", x1)
S06("unique_ptr<vector<variant>>", x2)
S06_BIG("hash_map<string,tuple>", x3)
S06("variant<vector,unique_ptr>", x4)
#endif
