// fws_multimap: every build sequence vs a list of lists, every access path.
#include "mc.h"

#include "cista/containers/fws_multimap.h"
#include "cista/containers/string.h"

namespace {

template <typename V>
V make(int const i) {
  if constexpr (std::is_integral_v<V>) {
    return static_cast<V>(1000 + i);
  } else {
    // alternately inline and on the heap
    char buf[] = {static_cast<char>('a' + i % 26), 0};
    auto const s = std::string{buf} + (i % 2 ? " and a long rest" : "");
    return V{std::string_view{s}};
  }
}

template <typename M>
void verify_built(M const& m,
                  std::vector<std::vector<typename M::value_t>> const& r) {
  using index_t = typename M::index_t;
  auto const n = static_cast<int>(r.size());
  MC_CHECK(m.index_size() == r.size() + 1U, "index_size", "index_size");
  auto pos = 0U;
  for (auto k = 0; k != n; ++k) {
    auto const e = m[static_cast<index_t>(k)];
    auto const& x = r[static_cast<std::size_t>(k)];
    MC_CHECK(e.size() == x.size() && e.empty() == x.empty(), "bucket:size",
             "key %d size %zu, expected %zu", k, e.size(), x.size());
    MC_CHECK(std::equal(e.begin(), e.end(), x.begin(), x.end()) &&
                 std::equal(e.cbegin(), e.cend(), x.begin(), x.end()) &&
                 std::equal(begin(e), end(e), x.begin(), x.end()),
             "bucket:content", "key %d", k);
    for (auto i = 0U; i != x.size(); ++i) {
      MC_CHECK(e[static_cast<index_t>(i)] == x[i], "bucket:[]", "key %d [%u]", k, i);
      MC_CHECK(e.data_index(static_cast<index_t>(i)) == pos + i,
               "bucket:data_index", "key %d [%u]", k, i);
      MC_CHECK(m.data_[e.data_index(static_cast<index_t>(i))] == x[i],
               "bucket:data_index", "key %d [%u]", k, i);
    }
    pos += x.size();
  }
  // iteration over all keys
  auto k = 0;
  for (auto const& e : m) {
    MC_CHECK(k < n, "iter", "iteration exceeds the number of keys");
    auto const& x = r[static_cast<std::size_t>(k)];
    MC_CHECK(std::equal(e.begin(), e.end(), x.begin(), x.end()), "iter",
             "iteration key %d", k);
    ++k;
  }
  MC_CHECK(k == n, "iter", "iteration visits %d of %d keys", k, n);
  // iterator arithmetic: all pairs
  auto at = [&](int const i) { return m.begin() + i; };
  auto is = [&](auto const& it, int const i, char const* what) {
    MC_CHECK((it - m.begin()) == i && (m.end() - it) == n - i, "iterator", "%s: at %d, expected %d",
             what, static_cast<int>(it - m.begin()), i);
    if (i < n) {
      auto const& x = r[static_cast<std::size_t>(i)];
      auto const e = *it;
      MC_CHECK(std::equal(e.begin(), e.end(), x.begin(), x.end()), "iterator",
               "%s: content", what);
    }
  };
  using std::begin;
  using std::end;
  MC_CHECK(m.cbegin() == m.begin() && m.cend() == m.end() && begin(m) == m.begin() && end(m) == m.end(), "iterator", "begin/end");
  for (auto i = 0; i <= n; ++i) {
    is(at(i), i, "begin + i");
    is(m.end() - (n - i), i, "end - i");
    for (auto j = 0; j <= n; ++j) {
      auto const a = at(i);
      auto const b = at(j);
      MC_CHECK((a == b) == (i == j) && (a != b) == (i != j) &&
                   (a < b) == (i < j) && (a > b) == (i > j) &&
                   (a <= b) == (i <= j) && (a >= b) == (i >= j),
               "iterator:cmp", "comparison %d %d", i, j);
      MC_CHECK(a - b == i - j, "iterator:diff", "difference %d %d", i, j);
      is(a + (j - i), j, "it + n");
      is(a - (i - j), j, "it - n");
      auto c = a;
      c += j - i;
      is(c, j, "it += n");
      auto d = a;
      d -= i - j;
      is(d, j, "it -= n");
      if (j < n) {
        auto const e = a[j - i];
        auto const& x = r[static_cast<std::size_t>(j)];
        MC_CHECK(std::equal(e.begin(), e.end(), x.begin(), x.end()),
                 "iterator:[]", "it[%d] at %d", j - i, i);
      }
    }
    if (i < n) {
      auto c = at(i);
      ++c;
      is(c, i + 1, "++it");
      --c;
      is(c, i, "--it");
    }
  }
}

template <typename M>
void body() {
  using V = typename M::value_t;
  using index_t = typename M::index_t;
  auto next = 0;
  {
    M m;
    std::vector<std::vector<V>> r;
    std::vector<V> cur, all;
    if (mc::choose(2)) {
      m.reserve_index(static_cast<index_t>(3));
      mc::logf("reserve_index");
    }
    MC_CHECK(m.begin() == m.end(), "empty", "a new map has no keys to iterate");
    auto const steps = mc::bound();
    for (auto i = 0; i != steps; ++i) {
      auto const c = mc::choose(5);
      mc::step();
      if (c == 0) {
        break;
      }
      switch (c) {
        case 1: {
          mc::op("push_back");
          auto const v = make<V>(next++);
          m.push_back(v);
          cur.push_back(v);
          break;
        }
        case 2:
          mc::op("emplace_back");
          m.emplace_back(make<V>(next));
          cur.push_back(make<V>(next++));
          break;
        case 3:
          mc::op("finish_key");
          MC_CHECK(m.current_key() == static_cast<index_t>(r.size()),
                   "current_key", "current_key");
          m.finish_key();
          r.push_back(cur);
          all.insert(all.end(), cur.begin(), cur.end());
          cur.clear();
          break;
        case 4:
          if (all.empty() && cur.empty()) {
            continue;
          }
          mc::op("push_back(own first element)");
          {
            auto const v = all.empty() ? cur.front() : all.front();
            m.push_back(m.data_[0]);
            cur.push_back(v);
          }
          break;
      }
      mc::logf("%s", c == 3 ? "finish_key" : c == 2 ? "emplace_back" : c == 4 ? "push_back(own)" : "push_back");
      MC_CHECK(m.current_key() == static_cast<index_t>(r.size()), "current_key",
               "current_key");
      MC_CHECK(m.data_size() == all.size() + cur.size(), "data_size", "data_size");
      MC_CHECK(!m.finished(), "finished", "finished too early");
    }
    // values of an unfinished last key are no key of their own
    if (!cur.empty()) {
      m.finish_key();
      r.push_back(cur);
    }
    m.finish_map();
    MC_CHECK(m.finished(), "finished", "finished");
    verify_built(m, r);
    switch (mc::choose(3)) {
      case 0: break;
      case 1: {
        mc::op("copy");
        auto c = m;
        verify_built(m, r);
        verify_built(c, r);
        M d;
        d = c;
        verify_built(d, r);
        break;
      }
      case 2: {
        mc::op("move");
        auto c = std::move(m);
        verify_built(c, r);
        M d;
        d = std::move(c);
        verify_built(d, r);
        break;
      }
    }
    auto h = mc::H{};
    h(r.size());
    for (auto const& x : r) {
      h(x.size());
    }
    mc::state(h);
  }
  mc::checked();
}

MC_SCENARIO("offset uint32 -> uint16", 8, 10) {
  body<cista::offset::fws_multimap<std::uint32_t, std::uint16_t>>();
}
MC_SCENARIO("raw uint32 -> string", 7, 9) {
  body<cista::raw::fws_multimap<std::uint32_t, cista::raw::string>>();
}
MC_SCENARIO("offset uint64 -> string", 7, 9) {
  body<cista::offset::fws_multimap<std::uint64_t, cista::offset::string>>();
}

}  // namespace
