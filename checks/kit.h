// Shared by the serialization checks (S01..S08): an independent walker that
// turns a value into a canonical text (used as equality oracle) while checking
// that every byte it reads lies inside given bounds, and exhaustive (choice
// driven) generators of values in all their representations.
#pragma once

#include <chrono>
#include <map>
#include <memory>
#include <string>
#include <tuple>
#include <typeindex>
#include <typeinfo>
#include <vector>

#include "mc.h"

#include "cista/containers.h"
#include "cista/containers/flat_matrix.h"
#include "cista/containers/mutable_fws_multimap.h"
#include "cista/containers/nvec.h"
#include "cista/containers/paged.h"
#include "cista/containers/paged_vecvec.h"
#include "cista/containers/rtree.h"
#include "cista/indexed.h"
#include "cista/mmap.h"
#include "cista/serialization.h"

#ifndef FLAVOUR
#define FLAVOUR offset
#endif

namespace data = cista::FLAVOUR;

namespace kit {

#define KIT_STR2(x) #x
#define KIT_STR(x) KIT_STR2(x)
inline bool const kOffset = std::string{KIT_STR(FLAVOUR)} == "offset";
constexpr bool is_offset_flavour() {
  return !std::is_pointer_v<data::ptr<int>>;
}

// ---------------------------------------------------------------- walker
struct out_of_bounds {
  char const* what;
};

struct W {
  std::string out;
  std::uintptr_t lo{0}, hi{0};
  bool bounded{false};
  bool offsets_aligned{true};
  char const* error{nullptr};
  std::uint64_t steps{0}, max_steps{1000000};
  unsigned depth{0};
  bool follow{false};  // follow raw/offset pointers into their target

  struct field {
    unsigned char const* p;
    unsigned w;
  };
  std::vector<field>* ints{nullptr};  // integer fields (for big endian)

  std::map<std::pair<void const*, std::size_t>, int>* objs{nullptr};
  bool registering{false};
  std::vector<void const*> in_progress;

  void bad(char const* what) {
    if (error == nullptr) {
      error = what;
    }
    throw out_of_bounds{what};
  }

  // memory about to be read
  void mem(void const* p, std::size_t const n, std::size_t const align) {
    if (++steps > max_steps) {
      bad("traversal does not terminate (step limit)");
    }
    if (!bounded || n == 0U) {
      return;
    }
    auto const a = reinterpret_cast<std::uintptr_t>(p);
    if (a < lo || a > hi || n > hi - a) {
      bad("refers to memory outside the image");
    }
    if ((a - lo) % align != 0U) {
      bad("object not aligned in the image");
    }
  }

  void txt(char const* s) { out += s; }
  void num(std::uint64_t x) {
    char b[24];
    snprintf(b, sizeof(b), "%" PRIx64, x);
    out += b;
  }

  void int_field(void const* p, unsigned const w) {
    if (ints != nullptr && w > 1U) {
      ints->push_back({static_cast<unsigned char const*>(p), w});
    }
  }
  template <typename T>
  void int_field(T const& x) {
    if constexpr (std::is_pointer_v<T> || std::is_integral_v<T>) {
      int_field(&x, sizeof(T));
    } else {
      int_field(&x, sizeof(x));  // offset_ptr
      static_assert(sizeof(x) == 8);
    }
  }

  template <typename T>
  void reg(T const* p) {
    if (objs != nullptr && registering) {
      objs->emplace(std::pair{static_cast<void const*>(p),
                              typeid(T).hash_code()},
                    static_cast<int>(objs->size()));
    }
  }

  template <typename T>
  void object(T const& x) {
    mem(&x, sizeof(T), alignof(T));
    reg(&x);
  }

  // recursion guard
  struct guard {
    explicit guard(W& w) : w_{w} {
      if (++w_.depth > 2000U) {
        w_.bad("traversal does not terminate (depth limit)");
      }
    }
    ~guard() { --w_.depth; }
    W& w_;
  };

  // ---- dispatch
  template <typename T>
  void operator()(T const& x) {
    guard g{*this};
    object(x);
    visit(x);
  }

  template <typename T>
  std::enable_if_t<std::is_integral_v<T>> visit(T const& x) {
    if (std::is_same_v<T, bool>) {
      auto const v = *reinterpret_cast<unsigned char const*>(&x);
      if (v > 1U) {
        bad("bool is neither true nor false");
      }
    }
    int_field(x);
    num(static_cast<std::uint64_t>(x));
    txt(" ");
  }
  template <typename T>
  std::enable_if_t<std::is_enum_v<T>> visit(T const& x) {
    num(static_cast<std::uint64_t>(x));
    txt("e ");
  }
  void visit(float const& x) {
    std::uint32_t b;
    std::memcpy(&b, &x, 4);
    num(b);
    txt("f ");
  }
  void visit(double const& x) {
    std::uint64_t b;
    std::memcpy(&b, &x, 8);
    num(b);
    txt("d ");
  }
  template <typename R, typename P>
  void visit(std::chrono::duration<R, P> const& x) {
    int_field(&x, sizeof(R));
    num(static_cast<std::uint64_t>(x.count()));
    txt("s ");
  }
  template <typename C, typename D>
  void visit(std::chrono::time_point<C, D> const& x) {
    int_field(&x, sizeof(typename D::rep));
    num(static_cast<std::uint64_t>(x.time_since_epoch().count()));
    txt("tp ");
  }

  // ---- pointers
  template <typename T>
  void pointer(T const* p) {
    using U = std::remove_const_t<T>;
    if (p == nullptr) {
      txt("null ");
      return;
    }
    if constexpr (std::is_void_v<U>) {
      txt("void* ");
    } else {
      mem(p, sizeof(U), alignof(U));
      if (objs != nullptr && !registering) {
        auto const it = objs->find(
            std::pair{static_cast<void const*>(p), typeid(U).hash_code()});
        if (it == objs->end()) {
          txt("->DANGLING ");
        } else {
          txt("->#");
          num(static_cast<std::uint64_t>(it->second));
          txt(" ");
        }
      } else {
        txt("ptr ");
      }
      if (follow) {
        if (std::find(in_progress.begin(), in_progress.end(), p) ==
            in_progress.end()) {
          in_progress.push_back(p);
          (*this)(*p);
        }
      }
    }
  }
  template <typename T>
  void visit(T* const& p) {
    int_field(p);
    pointer(p);
  }
  template <typename T>
  void visit(cista::offset_ptr<T> const& p) {
    int_field(p);
    pointer(static_cast<T const*>(p.get()));
  }

  // ---- strings
  template <typename Ptr>
  void str(cista::generic_string<Ptr> const& s) {
    using C = typename cista::generic_string<Ptr>::CharT;
    auto const b = *reinterpret_cast<unsigned char const*>(&s.s_.is_short_);
    if (b > 1U) {
      bad("string: invalid bool");
    }
    if (s.is_short()) {
      if (sizeof(C) > 1U) {
        for (auto const& c : s.s_.s_) {
          int_field(&c, sizeof(C));
        }
      }
    } else {
      int_field(s.h_.ptr_);
      int_field(s.h_.size_);
      mem(s.data(), s.size() * sizeof(C), alignof(C));
      if (sizeof(C) > 1U) {
        for (auto i = 0U; i != s.size(); ++i) {
          int_field(s.data() + i, sizeof(C));
        }
      }
      if (bounded && s.h_.self_allocated_) {
        bad("string claims to own memory of the image");
      }
    }
    if (s.size() > max_steps) {
      bad("string too long");
    }
    txt("\"");
    for (auto i = 0U; i != s.size(); ++i) {
      num(static_cast<std::uint64_t>(
          static_cast<std::make_unsigned_t<C>>(s.data()[i])));
      txt(".");
    }
    txt("\" ");
  }
  template <typename Ptr>
  void visit(cista::generic_string<Ptr> const& s) {
    str(s);
  }
  template <typename Ptr>
  void visit(cista::basic_string<Ptr> const& s) {
    str(s);
  }
  template <typename Ptr>
  void visit(cista::basic_string_view<Ptr> const& s) {
    str(s);
  }
  template <typename Ptr>
  void cstr(cista::generic_cstring<Ptr> const& s) {
    if (!s.is_short()) {
      int_field(s.h_.ptr_);
      int_field(s.h_.size_);
      if (bounded) {
        mem(s.data(), static_cast<std::size_t>(s.size()) + 1U, 1U);
        if (s.h_.self_allocated_) {
          bad("cstring claims to own memory of the image");
        }
        if (s.data() != nullptr && s.data()[s.size()] != '\0') {
          bad("cstring is not NUL terminated");
        }
      }
    }
    txt("c\"");
    for (auto i = 0U; i != s.size(); ++i) {
      num(static_cast<unsigned char>(s.data()[i]));
      txt(".");
    }
    txt("\" ");
  }
  template <typename Ptr>
  void visit(cista::basic_cstring<Ptr> const& s) {
    cstr(s);
  }
  template <typename Ptr>
  void visit(cista::generic_cstring<Ptr> const& s) {
    cstr(s);
  }

  // ---- vector
  template <typename T, template <typename> typename Ptr, bool I, typename S>
  void visit(cista::basic_vector<T, Ptr, I, S> const& v) {
    int_field(v.el_);
    int_field(v.allocated_size_);
    int_field(v.used_size_);
    if (bounded && v.self_allocated_) {
      bad("vector claims to own memory of the image");
    }
    auto const n = static_cast<std::size_t>(v.used_size_);
    if (n != 0U && n > std::numeric_limits<std::size_t>::max() / sizeof(T)) {
      bad("vector size overflow");
    }
    T const* const p = cista::ptr_cast(v.el_);
    mem(p, n * sizeof(T), alignof(T));
    if (n > max_steps) {
      bad("vector too long");
    }
    txt("[");
    for (std::size_t i = 0; i != n; ++i) {
      (*this)(p[i]);
    }
    txt("] ");
  }

  template <typename T>
  void visit(cista::indexed<T> const& x) {
    (*this)(static_cast<T const&>(x));
  }
  template <typename T, typename Tag>
  void visit(cista::strong<T, Tag> const& x) {
    (*this)(x.v_);
  }
  template <typename T, typename Ptr>
  void visit(cista::basic_unique_ptr<T, Ptr> const& p) {
    int_field(p.el_);
    T const* const t = cista::ptr_cast(p.el_);
    if (bounded && p.self_allocated_) {
      bad("unique_ptr claims to own memory of the image");
    }
    if (t == nullptr) {
      txt("unull ");
    } else {
      txt("u{");
      (*this)(*t);
      txt("} ");
    }
  }
  template <typename T>
  void visit(cista::optional<T> const& o) {
    if (o.has_value()) {
      txt("some(");
      (*this)(*o);
      txt(") ");
    } else {
      txt("none ");
    }
  }
  template <typename... T>
  void visit(cista::variant<T...> const& v) {
    int_field(v.idx_);
    txt("v");
    num(v.idx_);
    txt("<");
    alternative<0, T...>(v);
    txt("> ");
  }
  template <std::size_t I, typename V>
  void alternative(V const&) {
    bad("variant index out of range");
  }
  template <std::size_t I, typename A, typename... R, typename V>
  void alternative(V const& v) {
    if (v.idx_ == I) {
      (*this)(*reinterpret_cast<A const*>(&v.storage_));
    } else if constexpr (sizeof...(R) > 0) {
      alternative<I + 1, R...>(v);
    } else {
      bad("variant index out of range");
    }
  }
  template <typename A, typename B>
  void visit(cista::pair<A, B> const& p) {
    txt("(");
    (*this)(p.first);
    (*this)(p.second);
    txt(") ");
  }
  template <typename A, typename B>
  void visit(std::pair<A, B> const& p) {
    txt("(");
    (*this)(p.first);
    (*this)(p.second);
    txt(") ");
  }
  template <typename... T>
  void visit(cista::tuple<T...> const& t) {
    txt("t(");
    tup(t, std::index_sequence_for<T...>{});
    txt(") ");
  }
  template <typename T, std::size_t... I>
  void tup(T const& t, std::index_sequence<I...>) {
    ((*this)(cista::get<I>(t)), ...);
  }
  template <typename T, std::size_t N>
  void visit(cista::array<T, N> const& a) {
    txt("a[");
    for (std::size_t i = 0; i != N; ++i) {
      (*this)(a[i]);
    }
    txt("] ");
  }
  template <typename T, std::size_t N>
  void visit(T const (&a)[N]) {
    txt("c[");
    for (std::size_t i = 0; i != N; ++i) {
      (*this)(a[i]);
    }
    txt("] ");
  }

  // ---- hash tables
  template <typename T, template <typename> typename Ptr, typename GK,
            typename GV, typename Hash, typename Eq>
  void visit(cista::hash_storage<T, Ptr, GK, GV, Hash, Eq> const& h) {
    using H = cista::hash_storage<T, Ptr, GK, GV, Hash, Eq>;
    int_field(h.entries_);
    int_field(h.ctrl_);
    int_field(h.size_);
    int_field(h.capacity_);
    int_field(h.growth_left_);
    if (bounded && h.self_allocated_) {
      bad("hash table claims to own memory of the image");
    }
    auto const cap = static_cast<std::size_t>(h.capacity_);
    if (cap > max_steps) {
      bad("hash table too large");
    }
    mem(h.ctrl_, cap + 1U + (h.entries_ == nullptr ? 15U : H::WIDTH), 1U);
    mem(h.entries_, cap * sizeof(T), alignof(T));
    T const* const e = cista::ptr_cast(h.entries_);
    auto const* const c = cista::ptr_cast(h.ctrl_);
    std::vector<std::string> all;
    // iteration as the table does it: up to the END marker
    auto n = std::size_t{0};
    for (std::size_t i = 0; i != cap; ++i) {
      if (H::is_full(c[i])) {
        ++n;
        W w;
        w.lo = lo;
        w.hi = hi;
        w.bounded = bounded;
        w.follow = follow;
        w.depth = depth;
        w.steps = steps;
        w.objs = objs;
        w.registering = registering;
        w.ints = ints;
        w.in_progress = in_progress;
        try {
          w(e[i]);
        } catch (out_of_bounds const&) {
          bad(w.error);
        }
        steps = w.steps;
        all.push_back(w.out);
      }
    }
    std::sort(all.begin(), all.end());
    txt("{");
    for (auto const& s : all) {
      txt(s.c_str());
      txt("; ");
    }
    txt("} ");
    if (n != h.size_) {
      bad("hash table: size differs from number of entries");
    }
    // the table's own lookup and iteration
    n = 0;
    for (auto const& x : h) {
      ++n;
      auto const it = h.find(GK{}(x));
      if (it == h.end()) {
        if (find_must_work) {
          bad("hash table: entry not found by its own key");
        }
      } else if (bounded) {
        mem(&*it, sizeof(T), alignof(T));
      }
      if (n > cap) {
        bad("hash table: iteration exceeds capacity");
      }
    }
    if (n != h.size_) {
      bad("hash table: iteration visits a different number of entries");
    }
  }
  bool find_must_work{true};

  // ---- bits
  template <std::size_t N>
  void visit(cista::bitset<N> const& b) {
    (*this)(b.blocks_);
  }
  template <typename Vec, typename Key>
  void visit(cista::basic_bitvec<Vec, Key> const& b) {
    int_field(&b.size_, sizeof(b.size_));
    txt("bv");
    num(static_cast<std::uint64_t>(cista::to_idx(b.size_)));
    txt(":");
    (*this)(b.blocks_);
    auto const n = static_cast<std::size_t>(b.size());
    if (n > max_steps * 8) {
      bad("bitvec too long");
    }
    if (b.blocks_.size() * 64U < n) {
      bad("bitvec: fewer blocks than bits");
    }
    for (auto i = std::size_t{0}; i != n; ++i) {
      txt(b.test(Key(static_cast<cista::base_t<Key>>(i))) ? "1" : "0");
    }
    txt(" ");
  }

  // ---- multimaps and nested vectors
  template <typename D, typename I>
  void visit(cista::fws_multimap<D, I> const& m) {
    (*this)(m.data_);
    (*this)(m.index_);
    (*this)(m.current_start_);
    (*this)(m.complete_);
    if (m.index_.size() > 1U) {
      for (auto i = std::size_t{0}; i + 1U < m.index_.size(); ++i) {
        txt("k(");
        auto const e = m[static_cast<typename I::value_type>(i)];
        bucket(e.begin(), e.end(), m.data_);
        txt(")");
      }
    }
  }
  template <typename It, typename D>
  void bucket(It b, It e, D const& d) {
    using V = typename D::value_type;
    V const* const lo_p = d.data();
    V const* const pb = &*b;
    V const* const pe = &*e;
    if (d.empty() && pb == pe) {
      return;
    }
    if (pb < lo_p || pe < pb || pe > lo_p + d.size()) {
      bad("bucket refers to entries outside the container's data");
    }
    for (auto const* p = pb; p != pe; ++p) {
      (*this)(*p);
    }
  }
  template <typename K, typename D, typename I>
  void visit(cista::basic_vecvec<K, D, I> const& m) {
    (*this)(m.data_);
    (*this)(m.bucket_starts_);
    auto const n = m.size();
    txt("vv");
    for (auto i = std::size_t{0}; i != static_cast<std::size_t>(n); ++i) {
      txt("(");
      auto const b = m[K(static_cast<cista::base_t<K>>(i))];
      bucket(b.begin(), b.end(), m.data_);
      txt(")");
    }
  }
  template <typename K, typename D, typename I, std::size_t N, typename S>
  void visit(cista::basic_nvec<K, D, I, N, S> const& m) {
    (*this)(m.index_);
    (*this)(m.data_);
    for (auto i = std::size_t{0}; i != static_cast<std::size_t>(m.size()); ++i) {
      txt("n(");
      level<N - 1>(m, i);
      txt(")");
    }
  }
  template <std::size_t L, typename M>
  void level(M const& m, std::size_t const i) {
    auto const& idx = m.index_[L];
    if (i + 1U >= idx.size()) {
      bad("nvec: index outside of its level");
    }
    auto const a = static_cast<std::size_t>(idx[i]);
    auto const b = static_cast<std::size_t>(idx[i + 1U]);
    if (b < a) {
      bad("nvec: index not ascending");
    }
    for (auto k = a; k != b; ++k) {
      if constexpr (L == 0U) {
        if (k >= m.data_.size()) {
          bad("nvec: index outside of the data");
        }
        (*this)(m.data_[k]);
      } else {
        txt("(");
        level<L - 1>(m, k);
        txt(")");
      }
    }
  }
  template <typename T, typename S, template <typename> typename V,
            std::size_t L>
  void visit(cista::dynamic_fws_multimap_base<T, S, V, L> const& m) {
    (*this)(m.index_);
    (*this)(m.data_);
    (*this)(m.free_buckets_);
    (*this)(m.element_count_);
    txt("mm");
    for (auto i = std::size_t{0}; i != m.index_.size(); ++i) {
      auto const& e = m.index_[i];
      auto const b = static_cast<std::uint64_t>(e.begin_);
      if (e.size_ > e.capacity_ || b + e.capacity_ > m.data_.size()) {
        bad("mutable multimap: bucket outside of the data");
      }
      txt("(");
      for (auto k = 0U; k != e.size_; ++k) {
        (*this)(m.data_[b + k]);
      }
      txt(")");
    }
    for (auto o = std::size_t{0}; o != m.free_buckets_.size(); ++o) {
      for (auto const& e : m.free_buckets_[o]) {
        if (e.capacity_ != (1ULL << o) ||
            static_cast<std::uint64_t>(e.begin_) + e.capacity_ >
                m.data_.size()) {
          bad("mutable multimap: free bucket outside of the data");
        }
      }
    }
  }
  template <typename I>
  void index_entry(I const& e) {
    (*this)(e.begin_);
    (*this)(e.size_);
    (*this)(e.capacity_);
  }
  template <typename S, typename P>
  void visit(cista::page<S, P> const& p) {
    (*this)(p.size_);
    (*this)(p.capacity_);
    (*this)(p.start_);
  }
  template <typename D, typename S, typename P, P A, P B>
  void visit(cista::paged<D, S, P, A, B> const& p) {
    (*this)(p.data_);
    for (auto const& n : p.free_list_) {
      (*this)(n.next_);
    }
  }
  template <typename I, typename P, typename K>
  void visit(cista::paged_vecvec<I, P, K> const& m) {
    (*this)(m.paged_);
    (*this)(m.idx_);
    txt("pv");
    for (auto const& p : m.idx_) {
      if (p.size_ > p.capacity_ ||
          static_cast<std::uint64_t>(p.start_) + p.capacity_ >
              m.paged_.data_.size()) {
        bad("paged_vecvec: page outside of the data");
      }
      txt("(");
      for (auto k = 0U; k != p.size_; ++k) {
        (*this)(m.paged_.data_[p.start_ + k]);
      }
      txt(")");
    }
    for (auto const& n : m.paged_.free_list_) {
      auto next = n.next_;
      using S = std::decay_t<decltype(next)>;
      auto guard_n = 0U;
      while (next != std::numeric_limits<S>::max()) {
        if (static_cast<std::uint64_t>(next) * sizeof(m.paged_.data_[0]) +
                    sizeof(S) >
                m.paged_.data_.size() * sizeof(m.paged_.data_[0]) ||
            ++guard_n > 100000U) {
          bad("paged: free list outside of the data");
        }
        std::memcpy(&next, &m.paged_.data_[next], sizeof(S));
      }
    }
  }
  template <typename V>
  void visit(cista::base_flat_matrix<V> const& m) {
    (*this)(m.n_rows_);
    (*this)(m.n_columns_);
    (*this)(m.entries_);
    if (static_cast<std::uint64_t>(m.n_rows_) * m.n_columns_ >
        m.entries_.size()) {
      bad("flat matrix: fewer entries than rows*columns");
    }
  }
  template <typename T, template <typename, typename...> typename V,
            std::uint32_t D, typename N, std::uint32_t M, typename S>
  void visit(cista::basic_rtree<T, V, D, N, M, S> const& r) {
    (*this)(r.m_.rect_.min_);
    (*this)(r.m_.rect_.max_);
    (*this)(r.m_.root_);
    (*this)(r.m_.free_list_);
    (*this)(r.m_.count_);
    (*this)(r.m_.height_);
    (*this)(r.m_.path_hint_);
    using R = cista::basic_rtree<T, V, D, N, M, S>;
    auto const& nv = r.nodes_;
    int_field(nv.el_);
    int_field(nv.allocated_size_);
    int_field(nv.used_size_);
    mem(cista::ptr_cast(nv.el_),
        static_cast<std::size_t>(nv.used_size_) * sizeof(typename R::node),
        alignof(typename R::node));
    for (auto i = 0U; i != nv.used_size_; ++i) {
      auto const& n = *(cista::ptr_cast(nv.el_) + i);
      txt("N(");
      num(static_cast<std::uint64_t>(n.kind_));
      if (n.kind_ == R::kind::kEndFreeList) {
        txt(") ");
        continue;
      }
      (*this)(n.count_);
      if (n.count_ > M) {
        if (is_free(r, i)) {
          txt(") ");
          continue;
        }
        bad("rtree: more entries than a node can have");
      }
      if (is_free(r, i)) {
        txt(") ");
        continue;
      }
      for (auto k = 0U; k != n.count_; ++k) {
        (*this)(n.rects_[k].min_);
        (*this)(n.rects_[k].max_);
        if (n.kind_ == R::kind::kLeaf) {
          (*this)(n.data_[k]);
        } else {
          (*this)(n.children_[k]);
        }
      }
      txt(") ");
    }
    // every live entry through a search over everything
    auto cnt = std::uint64_t{0};
    typename R::coord_t lo_c, hi_c;
    for (auto i = 0U; i != D; ++i) {
      lo_c[i] = std::numeric_limits<N>::lowest();
      hi_c[i] = std::numeric_limits<N>::max();
    }
    r.search(lo_c, hi_c, [&](auto const&, auto const&, auto const& d) {
      if (bounded) {
        mem(&d, sizeof(d), 1);
      }
      ++cnt;
      return cnt < max_steps;
    });
    txt("found");
    num(cnt);
    txt(" ");
  }
  template <typename R>
  bool is_free(R const& r, unsigned const node) {
    auto f = r.m_.free_list_;
    auto n = 0U;
    while (f != R::node_idx_t::invalid()) {
      if (cista::to_idx(f) == node) {
        return true;
      }
      auto const& x = r.get_node(f);
      if (x.kind_ == R::kind::kEndFreeList || ++n > 10000U) {
        return false;
      }
      f = typename R::node_idx_t{x.count_};
    }
    return false;
  }

  // ---- plain structs: user types provide each(f)
  template <typename T>
  auto visit(T const& x)
      -> std::enable_if_t<(sizeof(std::declval<T const&>().each(
                               std::declval<W&>())),
                           true)> {
    txt("{");
    x.each(*this);
    txt("} ");
  }
  template <typename T>
  auto visit(T const& x)
      -> std::enable_if_t<
          (sizeof(x.begin_) > 0 && sizeof(x.capacity_) > 0 && sizeof(x.size_) > 0)> {
    index_entry(x);
  }
};

#define KIT_EACH(...)           \
  template <typename F>         \
  int each(F&& f) const {       \
    kit::each_of(f, __VA_ARGS__); \
    return 0;                   \
  }

template <typename F, typename... T>
void each_of(F&& f, T const&... x) {
  (f(x), ...);
}

template <typename T>
std::string dump(T const& x) {
  W w;
  w(x);
  return w.out;
}

// dump restricted to [lo, hi); empty error on success
template <typename T>
std::string dump_in(T const& x, void const* lo, void const* hi,
                    char const** error) {
  W w;
  w.bounded = true;
  w.lo = reinterpret_cast<std::uintptr_t>(lo);
  w.hi = reinterpret_cast<std::uintptr_t>(hi);
  try {
    w(x);
  } catch (out_of_bounds const&) {
  }
  *error = w.error;
  return w.out;
}

// exact size, aligned copy of an image (ASan guards both ends)
struct image {
  explicit image(std::size_t n, std::size_t align = 64U) : n_{n} {
    void* p = nullptr;
    if (posix_memalign(&p, align, n == 0U ? 1U : n) != 0) {
      abort();
    }
    p_ = static_cast<std::uint8_t*>(p);
  }
  template <typename B>
  static image of(B const& b) {
    image i{b.size()};
    if (b.size()) {
      std::memcpy(i.p_, &b[0], b.size());
    }
    return i;
  }
  image(image&& o) : p_{o.p_}, n_{o.n_} { o.p_ = nullptr; }
  image(image const& o) : image{o.n_} { std::memcpy(p_, o.p_, n_); }
  image& operator=(image const&) = delete;
  ~image() { std::free(p_); }
  std::uint8_t* begin() const { return p_; }
  std::uint8_t* end() const { return p_ + n_; }
  std::size_t size() const { return n_; }
  std::uint8_t* p_;
  std::size_t n_;
};

}  // namespace kit
