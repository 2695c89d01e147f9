// mutable_fws_multimap: every operation history vs a list of lists.
#include "mc.h"

#include <set>

#include "cista/containers/mutable_fws_multimap.h"
#include "cista/strong.h"

namespace {

using R = std::vector<std::vector<unsigned>>;

struct kt {};
using strong_key = cista::strong<std::uint32_t, kt>;

template <typename M>
using key_t_ = typename M::access_t;

template <typename M>
key_t_<M> K(std::size_t const i) {
  return key_t_<M>{static_cast<typename M::size_type>(i)};
}

template <typename M>
void same(M& m, R const& r, bool const oob = true) {
  auto const n = r.size();
  M const& c = m;
  MC_CHECK(m.size() == n && m.empty() == (n == 0U), "size", "size %zu, expected %zu",
           static_cast<std::size_t>(m.size()), n);
  auto total = std::size_t{0};
  for (auto i = std::size_t{0}; i != n; ++i) {
    total += r[i].size();
    auto const& x = r[i];
    auto b = m[K<M>(i)];
    auto const cb = c[K<M>(i)];
    auto const& kb = b;
    MC_CHECK(b.index() == i, "index", "bucket index");
    MC_CHECK(b.size() == x.size() && cb.size() == x.size() &&
                 b.empty() == x.empty() && b.capacity() >= x.size(),
             "bucket:size", "bucket %zu: size %zu, expected %zu", i, b.size(), x.size());
    MC_CHECK(std::equal(b.begin(), b.end(), x.begin(), x.end()) &&
                 std::equal(cb.begin(), cb.end(), x.begin(), x.end()) &&
                 std::equal(kb.begin(), kb.end(), x.begin(), x.end()) &&
                 std::equal(cb.cbegin(), cb.cend(), x.begin(), x.end()) &&
                 std::equal(begin(cb), end(cb), x.begin(), x.end()) &&
                 std::equal(begin(b), end(b), x.begin(), x.end()),
             "bucket:content", "bucket %zu", i);
    for (auto k = 0U; k != x.size(); ++k) {
      MC_CHECK(b[k] == x[k] && cb[k] == x[k] && b.at(k) == x[k] &&
                   cb.at(k) == x[k] && m.data()[b.data_index(k)] == x[k] &&
                   b.bucket_index(b.begin() + k) == k,
               "bucket:access", "bucket %zu[%u]", i, k);
    }
    if (!x.empty()) {
      MC_CHECK(b.front() == x.front() && b.back() == x.back() &&
                   cb.front() == x.front() && cb.back() == x.back(),
               "bucket:frontback", "bucket %zu", i);
    }
    auto threw = oob ? 0 : 3;
    if (oob) {
    try {
      (void)b.at(static_cast<unsigned>(x.size()));
    } catch (std::out_of_range const&) {
      ++threw;
    }
    try {
      (void)cb.at(static_cast<unsigned>(x.size()));
    } catch (std::out_of_range const&) {
      ++threw;
    }
    try {
      (void)cb.bucket_index(cb.end());
    } catch (std::out_of_range const&) {
      ++threw;
    }
    }
    MC_CHECK(threw == 3, "bucket:at_oob", "bucket %zu: out of range access", i);
    auto a = m.at(K<M>(i));
    auto const ca = c.at(K<M>(i));
    MC_CHECK(a.index() == i && ca.index() == i, "at", "at(%zu)", i);
  }
  MC_CHECK(m.element_count() == total, "element_count", "element_count %zu, expected %zu",
           static_cast<std::size_t>(m.element_count()), total);
  auto threw = oob ? 0 : 2;
  if (oob) {
  try {
    (void)m.at(K<M>(n));
  } catch (std::out_of_range const&) {
    ++threw;
  }
  try {
    (void)c.at(K<M>(n));
  } catch (std::out_of_range const&) {
    ++threw;
  }
  }
  MC_CHECK(threw == 2 && m.size() == n, "at_oob", "at(size) must throw");

  if (n != 0U) {
    MC_CHECK(m.front().index() == 0U && c.front().index() == 0U &&
                 m.back().index() == n - 1U && c.back().index() == n - 1U,
             "frontback", "first or last bucket");
  }
  auto bytes = m.index_.allocated_size_ * sizeof(*m.index_.begin()) +
               m.data_.allocated_size_ * sizeof(*m.data_.begin());
  for (auto const& f : m.free_buckets_) {
    bytes += f.allocated_size_ * sizeof(*f.begin());
  }
  MC_CHECK(m.allocated_size() == bytes, "allocated_size", "allocated_size %zu, expected %zu",
           m.allocated_size(), bytes);

  // no two buckets (live or free) overlap and all are inside the data
  std::vector<int> owner(m.data_.size(), -1);
  auto claim = [&](auto const& e, int const who) {
    MC_CHECK(e.size_ <= e.capacity_ &&
                 static_cast<std::size_t>(e.begin_) + e.capacity_ <= owner.size(),
             "layout", "bucket outside of the data");
    for (auto i = e.begin_; i != e.begin_ + e.capacity_; ++i) {
      MC_CHECK(owner[i] == -1, "layout", "buckets %d and %d overlap", owner[i], who);
      owner[i] = who;
    }
  };
  for (auto i = 0U; i != m.index_.size(); ++i) {
    if (m.index_[i].capacity_ != 0U) {
      claim(m.index_[i], static_cast<int>(i));
    }
  }
  for (auto& f : m.free_buckets_) {
    for (auto& e : f) {
      claim(e, 1000);
    }
  }

  // iteration over the buckets
  auto i = 0U;
  for (auto const& b : m) {
    MC_CHECK(i < n && std::equal(b.begin(), b.end(), r[i].begin(), r[i].end()), "iter",
             "iteration at %u", i);
    ++i;
  }
  MC_CHECK(i == n, "iter", "iteration length");
  i = 0U;
  for (auto const b : c) {
    MC_CHECK(i < n && b.index() == i && std::equal(b.begin(), b.end(), r[i].begin(), r[i].end()), "iter",
             "const iteration at %u", i);
    ++i;
  }
  MC_CHECK(i == n, "iter", "iteration length");
}

// iterator arithmetic on all pairs
template <typename M>
void iterators(M& m) {
  auto const n = static_cast<int>(m.size());
  auto run = [&](auto first, auto last) {
    auto is = [&](auto const& it, int const i, char const* what) {
      MC_CHECK(it - first == i && last - it == n - i, "iterator", "%s: %d, expected %d", what, static_cast<int>(it - first), i);
      if (i < n) {
        MC_CHECK(static_cast<int>((*it).index()) == i, "iterator", "%s", what);
      }
    };
    for (auto i = 0; i <= n; ++i) {
      for (auto j = 0; j <= n; ++j) {
        auto const a = first + i;
        auto const b = first + j;
        MC_CHECK((a == b) == (i == j) && (a != b) == (i != j) &&
                     (a < b) == (i < j) && (a > b) == (i > j) &&
                     (a <= b) == (i <= j) && (a >= b) == (i >= j) && a - b == i - j,
                 "iterator:cmp", "%d %d", i, j);
        is(a + (j - i), j, "+");
        is(a - (i - j), j, "-");
        auto c = first + i;
        c += j - i;
        is(c, j, "+=");
        auto d = first + i;
        d -= i - j;
        is(d, j, "-=");
        if (j < n) {
          auto e = first + i;
          MC_CHECK(static_cast<int>(e[j - i].index()) == j, "iterator:[]", "[]");
          MC_CHECK(static_cast<int>(a[j - i].index()) == j, "iterator:[]", "[] const");
        }
      }
      if (i < n) {
        auto c = first + i;
        is(++c, i + 1, "++");
        is(--c, i, "--");
        is(c++, i, "post ++");
        is(c, i + 1, "post ++");
        is(c--, i + 1, "post --");
        is(c, i, "post --");
      }
    }
  };
  run(m.begin(), m.end());
  M const& c = m;
  run(c.begin(), c.end());
  using std::begin;
  using std::end;
  MC_CHECK(begin(m) == m.begin() && end(m) == m.end() && begin(c) == c.begin() && end(c) == c.end(), "iterator", "begin/end");
}

template <typename M>
void body() {
  auto next = 0U;
  {
    M m, o;
    R r, ro;
    auto last_kind = 1;
    auto const steps = mc::bound();
    // start: some buckets
    switch (mc::choose(4)) {
      case 0: break;
      case 1:
        for (auto i = 0U; i != 3U; ++i) {
          r.push_back({});
          auto b = m.emplace_back();
          for (auto k = 0U; k != 2U * i; ++k) {
            b.push_back(++next);
            r.back().push_back(next);
          }
        }
        mc::logf("start: sizes 0 2 4");
        break;
      case 2:
        for (auto i = 0U; i != 3U; ++i) {
          r.push_back({});
          m[K<M>(i)].push_back(++next);
          r.back().push_back(next);
        }
        mc::logf("start: sizes 1 1 1");
        break;
      case 3:  // bucket 0 has moved: free space in front
        r.resize(2);
        m[K<M>(0)].push_back(++next), r[0].push_back(next);
        m[K<M>(1)].push_back(++next), r[1].push_back(next);
        for (auto i = 0U; i != 4U; ++i) {
          m[K<M>(0)].push_back(++next), r[0].push_back(next);
        }
        mc::logf("start: sizes 5 1, freed pages");
        break;
    }
    auto log = [&](char const* o, std::size_t const k) {
      mc::op(o);
      mc::logf("%s bucket=%zu", o, k);
    };
    for (auto s = 0; s != steps; ++s) {
      auto const kind = mc::choose(24);
      auto bucket = [&](bool const existing) {
        if (existing && r.empty()) {
          return std::size_t{0};
        }
        auto const hi = existing ? static_cast<int>(std::min(r.size(), std::size_t{3}))
                                 : static_cast<int>(std::min(r.size() + 1U, std::size_t{4}));
        return static_cast<std::size_t>(mc::choose(hi));
      };
      auto const needs = kind != 0 && kind < 17;
      if (needs && r.empty()) {
        continue;
      }
      last_kind = kind;
      mc::step();
      switch (kind) {
        case 0: {
          auto const k = bucket(false);
          log("[] push_back", k);
          if (k >= r.size()) {
            r.resize(k + 1U);
          }
          auto const di = m[K<M>(k)].push_back(++next);
          r[k].push_back(next);
          MC_CHECK(m.data()[di] == next, "data_index", "returned data index");
          break;
        }
        case 1: {
          auto const k = bucket(true);
          log("emplace_back", k);
          auto const di = m.at(K<M>(k)).emplace_back(++next);
          r[k].push_back(next);
          MC_CHECK(m.data()[di] == next, "data_index", "returned data index");
          break;
        }
        case 2: {  // own element
          auto const k = bucket(true), j = bucket(true);
          if (r[j].empty()) {
            continue;
          }
          log("push_back(own element)", k);
          auto const v = r[j].front();
          m[K<M>(k)].push_back(m[K<M>(j)].front());
          r[k].push_back(v);
          break;
        }
        case 3: {
          auto const k = bucket(true), j = bucket(true);
          if (r[j].empty()) {
            continue;
          }
          log("emplace_back(own element)", k);
          auto const v = r[j].back();
          m[K<M>(k)].emplace_back(m[K<M>(j)].back());
          r[k].push_back(v);
          break;
        }
        case 4:
        case 5: {
          auto const k = bucket(true);
          auto const p = static_cast<std::size_t>(mc::choose(static_cast<int>(std::min(r[k].size() + 1U, std::size_t{3}))));
          auto b = m[K<M>(k)];
          auto const at = p == 2U ? r[k].size() : p;
          log(kind == 4 ? "insert" : "insert(own element)", k);
          if (kind == 5 && r[k].empty()) {
            continue;
          }
          auto const v = kind == 4 ? ++next : r[k].back();
          auto it = kind == 4 ? b.insert(b.begin() + at, std::move(next))
                              : b.insert(b.begin() + at, b.back());
          MC_CHECK(*it == v && it == b.begin() + at, "insert:result", "insert result");
          r[k].insert(r[k].begin() + static_cast<long>(at), v);
          break;
        }
        case 6: {
          auto const k = bucket(true);
          auto const n = static_cast<unsigned>(mc::pick({0, 1, 3, 6}));
          log("resize", k);
          mc::logf("  to %u", n);
          if (mc::choose(2)) {
            m[K<M>(k)].resize(n, 77U);
            r[k].resize(n, 77U);
          } else {
            m[K<M>(k)].resize(n);
            r[k].resize(n);
          }
          break;
        }
        case 7: {
          auto const k = bucket(true);
          log("reserve", k);
          m[K<M>(k)].reserve(static_cast<unsigned>(mc::pick({0, 3, 9})));
          break;
        }
        case 8: {
          auto const k = bucket(true);
          log("pop_back", k);
          m[K<M>(k)].pop_back();
          if (!r[k].empty()) {
            r[k].pop_back();
          }
          break;
        }
        case 9: {
          auto const k = bucket(true);
          log("bucket clear", k);
          m[K<M>(k)].clear();
          r[k].clear();
          break;
        }
        case 10: {
          auto const k = bucket(true);
          if (r[k].empty()) {
            continue;
          }
          auto const n = static_cast<int>(r[k].size());
          auto const p = n > 2 ? mc::pick({0, n / 2, n - 1}) : mc::choose(n);
          log("bucket erase(it)", k);
          auto b = m[K<M>(k)];
          auto it = b.erase(b.begin() + p);
          r[k].erase(r[k].begin() + p);
          MC_CHECK(it - m[K<M>(k)].begin() == p, "erase:result", "erase returns position %d, expected %d", static_cast<int>(it - b.begin()), p);
          break;
        }
        case 11: {
          auto const k = bucket(true);
          auto const n = static_cast<int>(r[k].size());
          auto const p = n > 2 ? mc::pick({0, 1, n}) : mc::choose(n + 1);
          auto const q = p + (n - p > 2 ? mc::pick({0, 1, n - p}) : mc::choose(n - p + 1));
          log("bucket erase(first,last)", k);
          auto b = m[K<M>(k)];
          auto it = b.erase(b.begin() + p, b.begin() + q);
          r[k].erase(r[k].begin() + p, r[k].begin() + q);
          MC_CHECK(it - m[K<M>(k)].begin() == p, "erase:result", "erase(range) returns position %d, expected %d", static_cast<int>(it - b.begin()), p);
          break;
        }
        case 12: {
          auto const k = bucket(true);
          log("erase(key)", k);
          m.erase(K<M>(k));
          r[k].clear();
          break;
        }
        case 13: {
          auto const k = bucket(true);
          if (r[k].empty()) {
            continue;
          }
          log("assign element", k);
          m[K<M>(k)].back() = ++next;
          r[k].back() = next;
          break;
        }
        case 14: {
          log("front/back bucket", 0);
          m.front().push_back(++next);
          r.front().push_back(next);
          m.back().push_back(++next);
          r.back().push_back(next);
          break;
        }
        case 15: {
          auto const k = bucket(true);
          log("get_or_create existing", k);
          m.get_or_create(K<M>(k)).push_back(++next);
          r[k].push_back(next);
          break;
        }
        case 16: {
          auto const k = bucket(true);
          log("via iterator", k);
          (*(m.begin() + static_cast<int>(k))).push_back(++next);
          r[k].push_back(next);
          break;
        }
        case 17: {
          auto const k = bucket(false);
          log("get_or_create", k);
          if (k >= r.size()) {
            r.resize(k + 1U);
          }
          auto b = m.get_or_create(K<M>(k));
          MC_CHECK(b.index() == k, "get_or_create", "index");
          b.push_back(++next);
          r[k].push_back(next);
          break;
        }
        case 18: {
          log("emplace_back()", r.size());
          if (r.size() > 4U) {
            continue;
          }
          m.emplace_back().push_back(++next);
          r.push_back({next});
          break;
        }
        case 19:
          log("clear()", 0);
          m.clear();
          r.clear();
          break;
        case 20:
          log("reserve(n,n)", 0);
          m.reserve(4U, 16U);
          break;
        case 21: {
          log("copy", 0);
          auto const k = mc::choose(3);
          if (k == 0) {
            M c{m};
            same(c, r);
            o = c;
          } else if (k == 1) {
            o = m;
          } else {
            auto& self = m;
            m = self;
            break;
          }
          ro = r;
          break;
        }
        case 22:
          log("move", 0);
          if (mc::choose(2)) {
            o = std::move(m);
            ro = r;
            m = M{};
            r.clear();
          } else {
            M c{std::move(m)};
            same(c, r);
            m = std::move(c);
          }
          break;
        case 23:
          log("swap with the other", 0);
          std::swap(m, o);
          std::swap(r, ro);
          break;
      }
      same(m, r, s + 1 == steps && kind % 4 == 0);
    }
    same(o, ro, false);
    if (last_kind % 4 == 1) {
      iterators(m);
    }
    auto h = mc::H{};
    for (auto const& e : m.index_) {
      h(e.begin_);
      h(e.size_);
      h(e.capacity_);
    }
    mc::state(h(m.data_.size()));
  }
  mc::checked();
}

MC_SCENARIO("offset", 3, 4) {
  body<cista::offset::mutable_fws_multimap<std::uint32_t, unsigned>>();
}
MC_SCENARIO("raw, strong key, small buckets", 2, 3) {
  body<cista::raw::mutable_fws_multimap<strong_key, unsigned, 4>>();
}

// bucket size limit
MC_SCENARIO("bucket size limit", 1, 1) {
  {
    using M = cista::raw::mutable_fws_multimap<std::uint32_t, unsigned, 2>;
    M m;
    R r{{}, {}};
    m[K<M>(1)];
    auto const how = mc::choose(4);
    for (auto i = 0U; i != 4U; ++i) {
      m[0].push_back(i);
      r[0].push_back(i);
    }
    auto threw = false;
    try {
      switch (how) {
        case 0: m[0].push_back(5U); break;
        case 1: m[0].emplace_back(5U); break;
        case 2: m[0].resize(5U); break;
        case 3: {
          auto b = m[0];
          b.insert(b.begin(), 5U);
        }
      }
    } catch (std::exception const&) {
      threw = true;
    }
    MC_CHECK(threw, "limit", "more elements than the bucket limit accepted");
    same(m, r);
  }
  mc::checked();
}

}  // namespace
