// vecvec: every operation history vs std::vector<std::vector>.
#include "mc.h"

#include "cista/containers/string.h"
#include "cista/containers/vecvec.h"
#include "cista/strong.h"

namespace {

struct kt {};
using strong_key = cista::strong<std::uint32_t, kt>;

template <typename V>
V make(unsigned const i) {
  if constexpr (std::is_integral_v<V>) {
    return static_cast<V>('A' + i);
  } else {
    auto s = std::string(1, static_cast<char>('A' + i % 50U));
    return V{std::string_view{i % 2U ? s + " and a long rest" : s}};
  }
}

template <typename M>
auto K(std::size_t const i) {
  return typename M::key{static_cast<cista::base_t<typename M::key>>(i)};
}

template <typename B, typename X>
void bucket_is(B& b, X const& x, char const* what, bool const oob) {
  using V = typename X::value_type;
  auto const& kb = b;
  MC_CHECK(b.size() == x.size() && b.empty() == x.empty() && size(kb) == x.size(), "bucket:size",
           "%s: size %zu, expected %zu", what, static_cast<std::size_t>(b.size()), x.size());
  MC_CHECK(std::equal(b.begin(), b.end(), x.begin(), x.end()) &&
               std::equal(kb.begin(), kb.end(), x.begin(), x.end()) &&
               std::equal(begin(b), end(b), x.begin(), x.end()) &&
               std::equal(begin(kb), end(kb), x.begin(), x.end()),
           "bucket:content", "%s", what);
  for (auto i = 0U; i != x.size(); ++i) {
    MC_CHECK(b[i] == x[i] && kb[i] == x[i] && b.at(i) == x[i] && kb.at(i) == x[i] &&
                 kb.data()[i] == x[i] && data(kb)[i] == x[i],
             "bucket:access", "%s[%u]", what, i);
  }
  MC_CHECK((kb.data() == nullptr) == x.empty(), "bucket:data", "%s", what);
  if (!x.empty()) {
    MC_CHECK(b.front() == x.front() && b.back() == x.back() &&
                 kb.front() == x.front() && kb.back() == x.back(),
             "bucket:frontback", "%s", what);
  }
  if constexpr (std::is_trivially_copyable_v<V>) {
    MC_CHECK((b.view() == std::basic_string_view<V>{x.data(), x.size()}),
             "bucket:view", "%s", what);
  }
  if (oob) {
    auto threw = 0;
    try {
      (void)b.at(x.size());
    } catch (std::exception const&) {
      ++threw;
    }
    try {
      (void)kb.at(x.size() + 1U);
    } catch (std::exception const&) {
      ++threw;
    }
    MC_CHECK(threw == 2, "bucket:at_oob", "%s: at(size) must throw", what);
  }
}

template <typename M, typename R>
void same(M& m, R const& r, bool const oob) {
  auto const n = r.size();
  M const& c = m;
  MC_CHECK(m.size() == n, "size", "size %zu, expected %zu", static_cast<std::size_t>(m.size()), n);
  MC_CHECK(m.empty() == (n == 0U), "empty", "empty() with %zu buckets", n);
  for (auto i = std::size_t{0}; i != n; ++i) {
    auto b = m[K<M>(i)];
    auto cb = c[K<M>(i)];
    bucket_is(b, r[i], "bucket", oob);
    bucket_is(cb, r[i], "const bucket", oob);
    auto ri = r[i].rbegin();
    for (auto it = cb.rbegin(); it != cb.rend(); ++it, ++ri) {
      MC_CHECK(ri != r[i].rend() && *it == *ri, "bucket:reverse", "reverse iteration");
    }
    MC_CHECK(ri == r[i].rend(), "bucket:reverse", "reverse iteration length");
    auto a = m.at(K<M>(i));
    auto ca = c.at(K<M>(i));
    MC_CHECK(std::equal(a.begin(), a.end(), r[i].begin(), r[i].end()) &&
                 std::equal(ca.begin(), ca.end(), r[i].begin(), r[i].end()),
             "at", "at(%zu)", i);
  }
  if (n != 0U) {
    auto f = m.front();
    auto b = m.back();
    auto cf = c.front();
    auto cb = c.back();
    bucket_is(f, r.front(), "front", false);
    bucket_is(b, r.back(), "back", false);
    bucket_is(cf, r.front(), "const front", false);
    bucket_is(cb, r.back(), "const back", false);
  }
  auto i = 0U;
  for (auto const& b : m) {
    MC_CHECK(i < n && std::equal(b.begin(), b.end(), r[i].begin(), r[i].end()), "iter", "iteration at %u", i);
    ++i;
  }
  MC_CHECK(i == n, "iter", "iteration length");
  i = 0U;
  for (auto const& b : c) {
    MC_CHECK(i < n && std::equal(b.begin(), b.end(), r[i].begin(), r[i].end()), "iter", "const iteration at %u", i);
    ++i;
  }
  MC_CHECK(i == n, "iter", "const iteration length");
  if (oob) {
    auto threw = 0;
    for (auto const bad : {n, n + 1U, n + 1000U}) {
      try {
        (void)m.at(K<M>(bad));
      } catch (std::exception const&) {
        ++threw;
      }
      try {
        (void)c.at(K<M>(bad));
      } catch (std::exception const&) {
        ++threw;
      }
    }
    MC_CHECK(threw == 6, "at_oob", "at() beyond the last bucket must throw");
  }
}

template <typename M, typename R>
void iterators(M& m, R const& r) {
  auto const n = static_cast<int>(r.size());
  auto run = [&](auto const first, auto const last) {
    auto is = [&](auto const& it, int const i, char const* what) {
      MC_CHECK(it - first == i && last - it == n - i, "iterator", "%s at %d, expected %d", what, static_cast<int>(it - first), i);
      if (i < n) {
        auto const& x = r[static_cast<std::size_t>(i)];
        auto const b = *it;
        MC_CHECK(std::equal(b.begin(), b.end(), x.begin(), x.end()), "iterator", "%s", what);
      }
    };
    for (auto i = 0; i <= n; ++i) {
      for (auto j = 0; j <= n; ++j) {
        auto const a = first + i;
        auto const b = first + j;
        MC_CHECK((a == b) == (i == j) && (a != b) == (i != j) && a - b == i - j, "iterator:cmp", "%d %d", i, j);
        is(a + (j - i), j, "+");
        is(a - (i - j), j, "-");
        auto c = a;
        c += j - i;
        is(c, j, "+=");
        auto d = a;
        d -= i - j;
        is(d, j, "-=");
      }
      if (i < n) {
        auto c = first + i;
        is(++c, i + 1, "++");
        is(--c, i, "--");
      }
    }
  };
  run(m.begin(), m.end());
  M const& c = m;
  run(c.begin(), c.end());
  using std::begin;
  using std::end;
  run(begin(m), end(m));
  run(begin(c), end(c));
}

template <typename M>
void body() {
  using V = typename M::data_value_type;
  constexpr auto const kText = std::is_same_v<V, char>;
  auto next = 0U;
  {
    M m, o;
    std::vector<std::vector<V>> r, ro;
    auto fill = [&](unsigned const k) {
      std::vector<V> x;
      for (auto i = 0U; i != k; ++i) {
        x.push_back(make<V>(next++));
      }
      return x;
    };
    switch (mc::choose(3)) {
      case 0: break;
      case 1:
        for (auto const k : {2U, 0U, 1U}) {
          r.push_back(fill(k));
          m.emplace_back(r.back());
        }
        mc::logf("start: 2 0 1");
        break;
      case 2:
        for (auto const k : {0U, 3U}) {
          r.push_back(fill(k));
          m.emplace_back(r.back());
        }
        mc::logf("start: 0 3");
        break;
    }
    auto const steps = mc::bound();
    auto kind = 0;
    for (auto s = 0; s != steps; ++s) {
      kind = mc::choose(kText ? 21 : 19);
      auto const bucket = [&] {
        auto const n = static_cast<int>(r.size());
        return static_cast<std::size_t>(n <= 3 ? mc::choose(n) : mc::pick({0, 1, n - 1}));
      };
      if (kind < 9 && r.empty()) {
        continue;
      }
      auto log = [&](char const* what, std::size_t const k = 0) {
        mc::op(what);
        mc::logf("%s %zu", what, k);
      };
      mc::step();
      switch (kind) {
        case 0: {
          auto const k = bucket();
          log("bucket.push_back", k);
          auto v = make<V>(next++);
          r[k].push_back(v);
          if (mc::choose(2)) {
            m[K<M>(k)].push_back(v);
            MC_CHECK(v == r[k].back(), "stolen", "push_back(lvalue) changed its argument");
          } else {
            m.at(K<M>(k)).push_back(std::move(v));
          }
          break;
        }
        case 1: {
          auto const k = bucket(), j = bucket();
          if (r[j].empty()) {
            continue;
          }
          log("bucket.push_back(own element)", k);
          auto const v = r[j].front();
          m[K<M>(k)].push_back(m[K<M>(j)].front());
          r[k].push_back(v);
          break;
        }
        case 2: {
          auto const k = bucket();
          auto const g = static_cast<std::size_t>(mc::choose(3));
          log("bucket.grow", k);
          auto const v = make<V>(next++);
          m[K<M>(k)].grow(r[k].size() + g, v);
          r[k].resize(r[k].size() + g, v);
          break;
        }
        case 3: {
          auto const k = bucket(), j = bucket();
          if (r[j].empty()) {
            continue;
          }
          log("bucket.grow(own element)", k);
          auto const v = r[j].back();
          m[K<M>(k)].grow(r[k].size() + 2U, m[K<M>(j)].back());
          r[k].resize(r[k].size() + 2U, v);
          break;
        }
        case 4: {
          auto const k = bucket();
          if (r[k].empty()) {
            continue;
          }
          log("bucket.grow to less", k);
          auto threw = false;
          try {
            m[K<M>(k)].grow(r[k].size() - 1U);
          } catch (std::exception const&) {
            threw = true;
          }
          MC_CHECK(threw, "grow", "grow to a smaller size must throw");
          break;
        }
        case 5: {
          auto const k = bucket();
          if (r[k].empty()) {
            continue;
          }
          log("assign element", k);
          auto const v = make<V>(next++);
          m[K<M>(k)][r[k].size() - 1U] = v;
          r[k].back() = v;
          break;
        }
        case 6: {
          auto const k = bucket();
          log("reverse bucket", k);
          auto b = m[K<M>(k)];
          std::reverse(b.begin(), b.end());
          std::reverse(r[k].begin(), r[k].end());
          break;
        }
        case 7: {
          auto const k = bucket();
          log("emplace_back(own bucket)", k);
          auto const x = r[k];
          m.emplace_back(m[K<M>(k)]);
          r.push_back(x);
          break;
        }
        case 8: {
          auto const k = bucket();
          log("emplace_back(own const bucket)", k);
          auto const x = r[k];
          M const& c = m;
          m.emplace_back(c[K<M>(k)]);
          r.push_back(x);
          break;
        }
        case 9: {
          auto const k = static_cast<unsigned>(mc::choose(4));
          log("emplace_back(lvalue)", k);
          auto x = fill(k);
          r.push_back(x);
          m.emplace_back(x);
          MC_CHECK(x == r.back(), "stolen", "emplace_back(lvalue) changed its argument");
          break;
        }
        case 10: {
          auto const k = static_cast<unsigned>(mc::choose(3));
          log("emplace_back(rvalue)", k);
          auto x = fill(k);
          r.push_back(x);
          m.emplace_back(std::move(x));
          break;
        }
        case 11: {
          log("emplace_back(init list)");
          auto const x = fill(2);
          m.emplace_back({x[0], x[1]});
          r.push_back(x);
          break;
        }
        case 12: {
          auto const k = static_cast<unsigned>(mc::choose(3));
          log("add_back_sized", k);
          auto b = m.add_back_sized(k);
          r.emplace_back(k);
          MC_CHECK(b.size() == k && std::equal(b.begin(), b.end(), r.back().begin()), "add_back_sized", "result");
          if (k != 0) {
            b[0] = make<V>(next);
            r.back()[0] = make<V>(next++);
          }
          break;
        }
        case 13: {
          auto const n = static_cast<std::size_t>(mc::choose(5));
          log("resize", n);
          m.resize(n);
          r.resize(n);
          break;
        }
        case 14:
          log("clear");
          m.clear();
          r.clear();
          break;
        case 15: {
          log("copy");
          switch (mc::choose(3)) {
            case 0: {
              M c{m};
              same(c, r, false);
              o = c;
              break;
            }
            case 1: o = m; break;
            case 2: {
              auto& self = m;
              m = self;
              continue;
            }
          }
          ro = r;
          break;
        }
        case 16:
          log("move");
          if (mc::choose(2)) {
            o = std::move(m);
            ro = r;
            m = M{};
            r.clear();
          } else {
            M c{std::move(m)};
            same(c, r, false);
            m = std::move(c);
          }
          break;
        case 17:
          log("swap with the other");
          std::swap(m, o);
          std::swap(r, ro);
          break;
        case 18: {
          if (ro.empty()) {
            continue;
          }
          log("emplace_back(bucket of the other)");
          auto const x = ro[0];
          m.emplace_back(o[K<M>(0)]);
          r.push_back(x);
          break;
        }
        case 19:
        case 20:
          if constexpr (kText) {
            if (kind == 19) {
              auto const t = mc::pick({0, 1});
              log("emplace_back(text)");
              m.emplace_back(t ? "xyz" : "");
              r.push_back(t ? std::vector<char>{'x', 'y', 'z'} : std::vector<char>{});
            } else {
              if (r.empty()) {
                continue;
              }
              log("emplace_back(own view)");
              auto const x = r.back();
              m.emplace_back(m.back().view());
              r.push_back(x);
            }
          }
          break;
      }
      same(m, r, s + 1 == steps && kind % 3 == 0);
    }
    same(o, ro, false);
    if (kind % 3 == 1) {
      iterators(m, r);
    }
    auto h = mc::H{};
    for (auto const& x : r) {
      h(x.size());
    }
    mc::state(h(m.data_.size()));
  }
  mc::checked();
}

MC_SCENARIO("offset uint16", 3, 4) {
  body<cista::offset::vecvec<std::uint32_t, std::uint16_t>>();
}
MC_SCENARIO("raw char, strong key", 3, 4) {
  body<cista::raw::vecvec<strong_key, char>>();
}
MC_SCENARIO("offset string", 3, 4) {
  body<cista::offset::vecvec<std::uint32_t, cista::offset::string>>();
}
MC_SCENARIO("raw string", 2, 4) {
  body<cista::raw::vecvec<strong_key, cista::raw::string>>();
}

}  // namespace
