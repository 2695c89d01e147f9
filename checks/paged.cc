// paged / paged_vecvec: every operation history vs separate sequences.
#include "mc.h"

#include "cista/containers/paged.h"
#include "cista/containers/paged_vecvec.h"
#include "cista/containers/vector.h"
#include "cista/strong.h"

#include <algorithm>
#include <list>

namespace {

struct kt {};
using strong_key = cista::strong<std::uint32_t, kt>;

struct pod {
  pod() = default;
  explicit pod(unsigned const i) : a_{static_cast<std::uint8_t>(i)}, b_{i * 7U} {}
  friend bool operator==(pod const& a, pod const& b) { return a.a_ == b.a_ && a.b_ == b.b_; }
  std::uint8_t a_;
  std::uint32_t b_;
};

template <typename V>
V make(unsigned const i) {
  return static_cast<V>(i + 1U);
}

// capacities of live pages and of the free lists tile the storage
template <typename P>
void layout(P& p, std::vector<typename P::page_t> const& live, bool const exact) {
  auto used = std::vector<char>(p.data_.size(), 0);
  auto mark = [&](std::size_t const start, std::size_t const n, char const what) {
    MC_CHECK(start <= used.size() && n <= used.size() - start, "bounds", "%s [%zu, +%zu) leaves the storage of %zu",
             what == 'l' ? "page" : "free page", start, n, used.size());
    for (auto i = start; i != start + n; ++i) {
      MC_CHECK(used[i] == 0, "overlap", "%s [%zu, +%zu) overlaps a %s page at %zu", what == 'l' ? "page" : "free page", start,
               n, used[i] == 'l' ? "live" : "free", i);
      used[i] = what;
    }
  };
  for (auto const& l : live) {
    MC_CHECK(l.size_ <= l.capacity_ || l.size_ == 0, "capacity", "page with %u elements, capacity %u",
             static_cast<unsigned>(l.size_), static_cast<unsigned>(l.capacity_));
    if (l.valid()) {
      mark(l.start_, l.capacity_, 'l');
    }
  }
  auto const min_capacity = [&] {
    auto c = std::size_t{1};
    while (P::free_list_index(static_cast<typename P::size_type>(c)) != 0U) {
      c *= 2;
    }
    return c;
  }();
  for (auto i = 0U; i != p.free_list_.size(); ++i) {
    auto at = p.free_list_[i].next_;
    auto n = 0U;
    while (at != std::numeric_limits<typename P::size_type>::max()) {
      MC_CHECK(++n <= used.size() + 1U, "free_list", "free list %u does not end", i);
      MC_CHECK(at < used.size(), "bounds", "free list entry outside the storage");
      auto const cap = min_capacity << i;
      mark(at, cap, 'f');
      at = p.template read<typename P::size_type>(at);
    }
  }
  if (exact) {
    for (auto i = std::size_t{0}; i != used.size(); ++i) {
      MC_CHECK(used[i] != 0, "lost", "storage at %zu is neither live nor free", i);
    }
  }
}

template <typename P>
void pages(std::vector<unsigned> const& sizes, unsigned const too_big) {
  using V = typename P::value_type;
  using page_t = typename P::page_t;
  auto next = 0U;
  {
    P p;
    struct ref {
      bool live;
      page_t page;
      std::vector<V> x;
    };
    std::vector<ref> r(3);
    auto verify_all = [&]() {
      std::vector<page_t> live;
      P const& c = p;
      for (auto& e : r) {
        if (!e.live) {
          continue;
        }
        live.push_back(e.page);
        MC_CHECK(e.page.valid() && e.page.size() == e.x.size(), "size", "page size %u, expected %zu",
                 static_cast<unsigned>(e.page.size()), e.x.size());
        MC_CHECK(std::equal(p.begin(e.page), p.end(e.page), e.x.begin(), e.x.end()) &&
                     std::equal(c.begin(e.page), c.end(e.page), e.x.begin(), e.x.end()) &&
                     p.data(e.page) == p.begin(e.page) && c.data(e.page) == c.begin(e.page),
                 "content", "page content");
      }
      layout(p, live, true);
    };
    auto write = [&](ref& e, std::size_t const from) {
      for (auto i = from; i < e.x.size(); ++i) {
        e.x[i] = make<V>(next++ % 200U);
        p.data(e.page)[i] = e.x[i];
      }
    };
    auto free_entries = [&](std::size_t const cap) {
      auto n = 0U;
      auto const i = P::free_list_index(static_cast<typename P::size_type>(cap));
      for (auto at = p.free_list_[i].next_; at != std::numeric_limits<typename P::size_type>::max();
           at = p.template read<typename P::size_type>(at)) {
        ++n;
      }
      return n;
    };
    auto const steps = mc::bound();
    for (auto s = 0; s != steps; ++s) {
      auto const kind = mc::choose(9);
      auto log = [&](char const* what, int const k = 0, unsigned const n = 0) {
        mc::op(what);
        mc::logf("%s %d %u", what, k, n);
      };
      mc::step();
      auto const page = [&]() -> ref& { return r[static_cast<std::size_t>(mc::choose(3))]; };
      auto const size = [&] { return sizes[static_cast<std::size_t>(mc::choose(static_cast<int>(sizes.size())))]; };
      switch (kind) {
        case 0:
        case 1: {
          auto& e = page();
          auto const n = size();
          auto const k = static_cast<int>(&e - r.data());
          if (kind == 0) {
            if (e.live) {
              continue;
            }
            log("create_page", k, n);
            auto const before = p.data_.size();
            e.page = p.create_page(static_cast<typename P::page_size_type>(n));
            e.live = true;
            e.x.assign(n, V{});
            write(e, 0);
            MC_CHECK(e.page.capacity_ >= n && (e.page.capacity_ & (e.page.capacity_ - 1U)) == 0U, "capacity",
                     "capacity %u for %u elements", static_cast<unsigned>(e.page.capacity_), n);
            MC_CHECK(p.data_.size() == before || p.data_.size() == before + e.page.capacity_, "reuse", "storage growth");
            if (p.data_.size() != before) {
              MC_CHECK(free_entries(e.page.capacity_) == 0U, "reuse", "storage grows although a free page exists");
            }
          } else {
            if (!e.live) {
              continue;
            }
            log("resize_page", k, n);
            auto const old = e.x.size();
            e.page = p.resize_page(e.page, static_cast<typename P::page_size_type>(n));
            e.x.resize(n);
            write(e, old);
          }
          break;
        }
        case 2: {
          auto& e = page();
          if (!e.live) {
            continue;
          }
          log("free_page", static_cast<int>(&e - r.data()));
          p.free_page(e.page);
          e = ref{};
          break;
        }
        case 3: {
          auto &a = page(), &b = page();
          if (&a == &b || !a.live || !b.live || a.x.size() < b.x.size()) {
            continue;
          }
          log("copy page", static_cast<int>(&a - r.data()));
          p.copy(a.page, b.page);
          std::copy(b.x.begin(), b.x.end(), a.x.begin());
          break;
        }
        case 4: {
          auto& a = page();
          if (!a.live || a.x.empty()) {
            continue;
          }
          log("copy range", static_cast<int>(&a - r.data()));
          switch (mc::choose(3)) {
            case 0: {
              auto const x = std::vector<V>(a.x.size(), make<V>(next++ % 200U));
              p.copy(a.page, x.begin(), x.end());
              a.x = x;
              break;
            }
            case 1: {  // not contiguous
              auto const x = std::list<V>(a.x.rbegin(), a.x.rend());
              p.copy(a.page, x.begin(), x.end());
              std::reverse(a.x.begin(), a.x.end());
              break;
            }
            case 2: {
              auto const x = std::vector<V>{};
              p.copy(a.page, x.begin(), x.end());
              break;
            }
          }
          break;
        }
        case 5: {
          auto& e = page();
          if (too_big == 0U) {
            continue;
          }
          log("too big", static_cast<int>(&e - r.data()));
          auto threw = false;
          auto const n = p.data_.size();
          try {
            if (e.live) {
              (void)p.resize_page(e.page, static_cast<typename P::page_size_type>(too_big));
            } else {
              (void)p.create_page(static_cast<typename P::page_size_type>(too_big));
            }
          } catch (std::exception const&) {
            threw = true;
          }
          MC_CHECK(threw && p.data_.size() == n, "too_big", "a page of %u elements must be rejected", too_big);
          break;
        }
        case 6: {
          log("free invalid page");
          p.free_page(page_t{});
          auto& e = page();
          if (!e.live) {  // a default page can be grown
            auto const n = size();
            e.page = p.resize_page(page_t{}, static_cast<typename P::page_size_type>(n));
            e.live = e.page.valid();
            MC_CHECK(e.live == (n != 0U), "resize_page", "growing a default page");
            e.x.assign(n, V{});
            write(e, 0);
          }
          break;
        }
        case 7: {
          log("clear");
          p.clear();
          r = std::vector<ref>(3);
          break;
        }
        case 8: {
          log("container copy/move");
          switch (mc::choose(3)) {
            case 0: {
              P q{p};
              p.clear();
              p = q;
              break;
            }
            case 1: {
              P q{std::move(p)};
              p.clear();
              p = std::move(q);
              break;
            }
            case 2: {
              P q;
              q = std::move(p);
              p = std::move(q);
              break;
            }
          }
          break;
        }
      }
      verify_all();
      auto h = mc::H{};
      for (auto const& e : r) {
        h(e.live ? e.x.size() + 1U : 0U)(e.page.start_)(e.page.capacity_);
      }
      for (auto const& f : p.free_list_) {
        h(f.next_);
      }
      mc::state(h);
    }
  }
  mc::checked();
}

template <typename M>
auto K(std::size_t const i) {
  return typename M::k{static_cast<cista::base_t<typename M::k>>(i)};
}

template <typename Index, typename Paged, typename Key>
struct keyed : cista::paged_vecvec<Index, Paged, Key> {
  using k = Key;
};

template <typename B, typename X>
void bucket_is(B& b, X const& x, char const* what, bool const oob) {
  auto const& kb = b;
  MC_CHECK(b.size() == x.size() && b.empty() == x.empty(), "bucket:size", "%s: size %zu, expected %zu", what,
           static_cast<std::size_t>(b.size()), x.size());
  MC_CHECK(std::equal(b.begin(), b.end(), x.begin(), x.end()) && std::equal(kb.begin(), kb.end(), x.begin(), x.end()) &&
               std::equal(begin(b), end(b), x.begin(), x.end()) && std::equal(begin(kb), end(kb), x.begin(), x.end()),
           "bucket:content", "%s", what);
  for (auto i = 0U; i != x.size(); ++i) {
    MC_CHECK(b[i] == x[i] && kb[i] == x[i] && b.at(i) == x[i] && kb.at(i) == x[i], "bucket:access", "%s[%u]", what, i);
  }
  if (!x.empty()) {
    MC_CHECK(b.front() == x.front() && b.back() == x.back() && kb.front() == x.front() && kb.back() == x.back(),
             "bucket:frontback", "%s", what);
  }
  if constexpr (std::is_same_v<typename X::value_type, char>) {
    MC_CHECK((b.view() == std::string_view{x.data(), x.size()}), "bucket:view", "%s", what);
  }
  if (oob) {
    auto threw = 0;
    try {
      (void)b.at(x.size());
    } catch (std::exception const&) {
      ++threw;
    }
    try {
      (void)kb.at(x.size() + 1U);
    } catch (std::exception const&) {
      ++threw;
    }
    MC_CHECK(threw == 2, "bucket:at_oob", "%s: at(size) must throw", what);
  }
}

template <typename M, typename R>
void same(M& m, R const& r, bool const oob) {
  auto const n = r.size();
  M const& c = m;
  MC_CHECK(m.size() == n && m.empty() == (n == 0U), "size", "size %zu, expected %zu", static_cast<std::size_t>(m.size()), n);
  std::vector<typename M::page_t> live;
  for (auto i = std::size_t{0}; i != n; ++i) {
    live.push_back(c.page(K<M>(i)));
    auto b = m[K<M>(i)];
    auto cb = c[K<M>(i)];
    bucket_is(b, r[i], "bucket", oob);
    bucket_is(cb, r[i], "const bucket", oob);
    auto a = m.at(K<M>(i));
    auto ca = c.at(K<M>(i));
    typename M::const_bucket conv = a;
    MC_CHECK(std::equal(a.begin(), a.end(), r[i].begin(), r[i].end()) && conv == ca &&
                 std::equal(ca.begin(), ca.end(), r[i].begin(), r[i].end()),
             "at", "at(%zu)", i);
    if (!r[i].empty()) {
      MC_CHECK(*m.data(K<M>(i)) == r[i][0] && *c.data(K<M>(i)) == r[i][0], "data", "data(%zu)", i);
    }
  }
  layout(m.paged_, live, true);
  if (n != 0U) {
    auto f = m.front();
    auto b = m.back();
    auto cf = c.front();
    auto cb = c.back();
    bucket_is(f, r.front(), "front", false);
    bucket_is(b, r.back(), "back", false);
    bucket_is(cf, r.front(), "const front", false);
    bucket_is(cb, r.back(), "const back", false);
  }
  auto i = 0U;
  for (auto const& b : m) {
    MC_CHECK(i < n && std::equal(b.begin(), b.end(), r[i].begin(), r[i].end()), "iter", "iteration at %u", i);
    ++i;
  }
  MC_CHECK(i == n, "iter", "iteration length");
  i = 0U;
  for (auto const& b : c) {
    MC_CHECK(i < n && std::equal(b.begin(), b.end(), r[i].begin(), r[i].end()), "iter", "const iteration at %u", i);
    ++i;
  }
  MC_CHECK(i == n, "iter", "const iteration length");
  if (oob) {
    auto threw = 0;
    for (auto const bad : {n, n + 1U, n + 1000U}) {
      try {
        (void)m.at(K<M>(bad));
      } catch (std::exception const&) {
        ++threw;
      }
      try {
        (void)c.at(K<M>(bad));
      } catch (std::exception const&) {
        ++threw;
      }
    }
    MC_CHECK(threw == 6, "at_oob", "at() beyond the last bucket must throw");
  }
}

template <typename M, typename R>
void iterators(M& m, R const& r) {
  auto const n = static_cast<int>(r.size());
  auto run = [&](auto const first, auto const last) {
    auto is = [&](auto const& it, int const i, char const* what) {
      MC_CHECK(it - first == i && last - it == n - i, "iterator", "%s at %d, expected %d", what, static_cast<int>(it - first), i);
      if (i < n) {
        auto const& x = r[static_cast<std::size_t>(i)];
        auto const b = *it;
        MC_CHECK(std::equal(b.begin(), b.end(), x.begin(), x.end()), "iterator", "%s", what);
      }
    };
    for (auto i = 0; i <= n; ++i) {
      for (auto j = 0; j <= n; ++j) {
        auto const a = first + i;
        auto const b = first + j;
        MC_CHECK((a == b) == (i == j) && (a != b) == (i != j) && a - b == i - j, "iterator:cmp", "%d %d", i, j);
        is(a + (j - i), j, "+");
        is(a - (i - j), j, "-");
        auto c = a;
        c += j - i;
        is(c, j, "+=");
        auto d = a;
        d -= i - j;
        is(d, j, "-=");
      }
      if (i < n) {
        auto c = first + i;
        is(++c, i + 1, "++");
        is(--c, i, "--");
      }
    }
  };
  run(m.begin(), m.end());
  M const& c = m;
  run(c.begin(), c.end());
  using std::begin;
  using std::end;
  run(begin(m), end(m));
  run(begin(c), end(c));
}

template <typename M>
void vecvec(std::size_t const max = 32768U) {
  using V = typename M::data_value_type;
  auto next = 0U;
  {
    M m;
    std::vector<std::vector<V>> r;
    auto fill = [&](unsigned const k) {
      std::vector<V> x;
      for (auto i = 0U; i != k; ++i) {
        x.push_back(make<V>(next++ % 100U));
      }
      return x;
    };
    auto const min = static_cast<unsigned>(m.paged_.create_page(0U).capacity_);
    m.clear();
    switch (mc::choose(3)) {
      case 0: break;
      case 1:
        for (auto const k : {min, 0U, 1U}) {
          r.push_back(fill(k));
          m.emplace_back(r.back());
        }
        mc::logf("start: min 0 1");
        break;
      case 2:
        for (auto const k : {0U, min + 1U}) {
          r.push_back(fill(k));
          m.emplace_back(r.back());
        }
        mc::logf("start: 0 min+1");
        break;
    }
    auto const steps = mc::bound();
    auto kind = 0;
    for (auto s = 0; s != steps; ++s) {
      kind = mc::choose(18);
      auto const bucket = [&] {
        auto const n = static_cast<int>(r.size());
        return static_cast<std::size_t>(n <= 3 ? mc::choose(n) : mc::pick({0, 1, n - 1}));
      };
      auto const size = [&] { return static_cast<unsigned>(mc::pick({0, 1, static_cast<int>(min), static_cast<int>(min) + 1})); };
      if (kind < 9 && r.empty()) {
        continue;
      }
      auto log = [&](char const* what, std::size_t const k = 0) {
        mc::op(what);
        mc::logf("%s %zu", what, k);
      };
      mc::step();
      switch (kind) {
        case 0: {
          auto const k = bucket();
          log("bucket.push_back", k);
          auto const n = mc::pick({1, 2, static_cast<int>(min)});
          for (auto i = 0; i != n; ++i) {
            auto const v = make<V>(next++ % 100U);
            r[k].push_back(v);
            m[K<M>(k)].push_back(v);
          }
          break;
        }
        case 1: {
          auto const k = bucket(), j = bucket();
          if (r[j].empty()) {
            continue;
          }
          log("bucket.push_back(own element)", k);
          auto const v = r[j].front();
          m[K<M>(k)].push_back(m[K<M>(j)].front());
          r[k].push_back(v);
          break;
        }
        case 2: {
          auto const k = bucket();
          auto const at = mc::pick({0, 1, 2});
          auto const o = at == 0 ? 0 : at == 1 ? static_cast<int>(r[k].size() / 2U) : static_cast<int>(r[k].size());
          log("bucket.insert", k);
          auto const v = make<V>(next++ % 100U);
          auto b = m[K<M>(k)];
          auto const it = b.insert(b.begin() + o, v);
          r[k].insert(r[k].begin() + o, v);
          MC_CHECK(it == b.begin() + o, "bucket:insert", "insert returns an iterator to offset %zd, expected %d",
                   it - b.begin(), o);
          break;
        }
        case 3: {
          auto const k = bucket(), j = bucket();
          if (r[j].empty()) {
            continue;
          }
          log("bucket.insert(own element)", k);
          auto const v = r[j].back();
          auto b = m[K<M>(k)];
          b.insert(b.begin(), m[K<M>(j)].back());
          r[k].insert(r[k].begin(), v);
          break;
        }
        case 4: {
          auto const k = bucket();
          if (r[k].empty()) {
            continue;
          }
          log("assign element", k);
          auto const v = make<V>(next++ % 100U);
          m[K<M>(k)][r[k].size() - 1U] = v;
          r[k].back() = v;
          break;
        }
        case 5: {
          auto const k = bucket();
          log("reverse bucket", k);
          auto b = m[K<M>(k)];
          std::reverse(b.begin(), b.end());
          std::reverse(r[k].begin(), r[k].end());
          break;
        }
        case 6: {
          auto const k = bucket();
          log("emplace_back(own bucket)", k);
          auto const x = r[k];
          M const& c = m;
          if (mc::choose(2)) {
            m.emplace_back(m[K<M>(k)]);
          } else {
            m.emplace_back(c[K<M>(k)]);
          }
          r.push_back(x);
          break;
        }
        case 7: {
          auto const k = bucket(), j = bucket();
          log("insert(own bucket)", k);
          auto const x = r[j];
          m.insert(K<M>(k), m[K<M>(j)]);
          r.insert(r.begin() + static_cast<std::ptrdiff_t>(k), x);
          break;
        }
        case 8: {  // truncate a bucket through its page
          auto const k = bucket();
          if (r[k].empty()) {
            continue;
          }
          log("shrink page", k);
          auto& p = m.page(K<M>(k));
          auto const n = static_cast<std::size_t>(mc::choose(2)) * (r[k].size() - 1U);
          p = m.paged_.resize_page(p, static_cast<typename M::data_t::page_size_type>(n));
          r[k].resize(n);
          break;
        }
        case 9: {
          auto const k = size();
          log("emplace_back", k);
          r.push_back(fill(k));
          m.emplace_back(r.back());
          break;
        }
        case 10: {
          log("emplace_back_empty");
          m.emplace_back_empty();
          r.emplace_back();
          break;
        }
        case 11: {
          log("emplace_back(other containers)");
          auto const x = fill(2);
          switch (mc::choose(4)) {
            case 0: m.emplace_back(std::list<V>(x.begin(), x.end())); break;
            case 1: m.emplace_back({x[0], x[1]}); break;
            case 2:
              if constexpr (std::is_integral_v<V>) {  // elements of another type
                m.emplace_back(std::vector<int>(x.begin(), x.end()));
              } else {
                m.emplace_back(x);
              }
              break;
            case 3:
              if constexpr (std::is_integral_v<V>) {
                m.emplace_back({static_cast<signed char>(x[0]), static_cast<signed char>(x[1])});
              } else {
                m.emplace_back(x);
              }
              break;
          }
          r.push_back(x);
          break;
        }
        case 12: {
          auto const k = size();
          auto const at = static_cast<std::size_t>(mc::choose(3)) * r.size() / 2U;
          log("insert bucket", at);
          auto x = fill(k);
          m.insert(K<M>(at), x);
          r.insert(r.begin() + static_cast<std::ptrdiff_t>(at), x);
          break;
        }
        case 13: {
          auto const n = static_cast<std::size_t>(std::max(0, static_cast<int>(r.size()) + mc::pick({-2, -1, 1, 2})));
          log("resize", n);
          m.resize(static_cast<typename M::size_type>(n));
          r.resize(n);
          break;
        }
        case 14:
          log("clear");
          m.clear();
          r.clear();
          break;
        case 15: {
          log("copy");
          M c{m};
          same(c, r, false);
          c.emplace_back(fill(min));
          if (!r.empty()) {
            c[K<M>(0)].push_back(make<V>(3));
          }
          same(m, r, false);
          c = m;
          m.clear();
          m = c;
          break;
        }
        case 16: {
          log("move");
          M c{std::move(m)};
          same(c, r, false);
          m.clear();
          m = std::move(c);
          break;
        }
        case 17: {
          if constexpr (std::is_same_v<V, char>) {
            log("emplace_back(text)");
            auto const t = mc::choose(2) ? "" : "text";
            if (mc::choose(2)) {
              m.emplace_back(t);
            } else {
              m.emplace_back(std::string{t});
            }
            r.emplace_back(t, t + std::strlen(t));
          } else if constexpr (sizeof(V) == 8U) {
            if (max > 64U && s + 1 != steps) {
              continue;
            }
            log("too many elements");
            auto const n = max + 1U;
            auto threw = 0;
            for (auto const k : {n, std::size_t{65536U}, std::size_t{65537U}}) {
              auto const big = std::vector<V>(k, V{1});
              try {
                m.emplace_back(big);
              } catch (std::exception const&) {
                ++threw;
              }
              try {
                m.insert(K<M>(0), big);
              } catch (std::exception const&) {
                ++threw;
              }
            }
            MC_CHECK(threw == 6, "too_big", "more elements than a page can hold: %d of 6 rejected", threw);
          } else {
            continue;
          }
          break;
        }
      }
      same(m, r, s + 1 == steps);
      auto h = mc::H{};
      for (auto const& p : m.idx_) {
        h(p.size_)(p.start_)(p.capacity_);
      }
      for (auto const& f : m.paged_.free_list_) {
        h(f.next_);
      }
      mc::state(h);
    }
    iterators(m, r);
  }
  mc::checked();
}

template <typename V>
using off = cista::paged<cista::offset::vector<V>>;
template <typename V>
using raw = cista::paged<cista::raw::vector<V>>;
template <typename V>
using small = cista::paged<cista::raw::vector<V>, std::uint32_t, std::uint8_t, 4, 16>;

MC_SCENARIO("pages u8 offset", 3, 4) { pages<off<std::uint8_t>>({0, 8, 9, 17}, 32769); }
MC_SCENARIO("pages u32 raw, max 16", 4, 5) { pages<small<std::uint32_t>>({0, 1, 5, 16}, 17); }
MC_SCENARIO("pages pod raw", 3, 4) { pages<raw<pod>>({0, 1, 2, 3, 5, 9}, 65535); }

template <typename P, typename K, template <typename> class Vec>
using vv = keyed<Vec<typename P::page_t>, P, K>;

MC_SCENARIO("vecvec u16 offset", 3, 3) { vecvec<vv<off<std::uint16_t>, std::uint32_t, cista::offset::vector>>(); }
MC_SCENARIO("vecvec char raw strong", 2, 4) { vecvec<vv<raw<char>, strong_key, cista::raw::vector>>(); }
MC_SCENARIO("vecvec u64 raw, max 64", 2, 3) {
  vecvec<vv<cista::paged<cista::raw::vector<std::uint64_t>, std::uint32_t, std::uint16_t, 4, 64>, std::uint32_t, cista::raw::vector>>(64);
}
MC_SCENARIO("vecvec pod offset strong", 2, 3) { vecvec<vv<off<pod>, strong_key, cista::offset::vector>>(); }

}  // namespace
