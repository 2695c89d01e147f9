// flat_matrix: every operation history vs a table of rows.
#include "mc.h"

#include "cista/containers/flat_matrix.h"
#include "cista/containers/string.h"

namespace {

template <typename V>
V make(unsigned const i) {
  if constexpr (std::is_integral_v<V>) {
    return static_cast<V>(i + 1U);
  } else {
    auto s = std::to_string(i);
    return V{std::string_view{i % 2U ? s + " and a long rest" : s}};
  }
}

template <typename V>
using table = std::vector<std::vector<V>>;

template <typename M, typename V>
void same(M& m, table<V> const& r, unsigned const cols) {
  M const& c = m;
  auto const rows = static_cast<unsigned>(r.size());
  MC_CHECK(m.n_rows_ == rows && m.n_columns_ == cols, "dims", "%ux%u, expected %ux%u", static_cast<unsigned>(m.n_rows_),
           static_cast<unsigned>(m.n_columns_), rows, cols);
  MC_CHECK(m.entries_.size() == rows * cols, "dims", "%u entries in a %ux%u matrix", static_cast<unsigned>(m.entries_.size()),
           rows, cols);
  auto all = std::vector<V>{};
  for (auto i = 0U; i != rows; ++i) {
    auto row = m[i];
    auto crow = c[i];
    auto arow = m.at(i);
    auto const acrow = c.at(i);
    auto const krow = m[i];
    for (auto j = 0U; j != cols; ++j) {
      auto const& x = r[i][j];
      MC_CHECK(row[j] == x && crow[j] == x && arow[j] == x && acrow[j] == x && m(i, j) == x && c(i, j) == x, "entry",
               "entry %u,%u", i, j);
      all.push_back(x);
    }
    MC_CHECK(std::equal(row.begin(), row.end(), r[i].begin(), r[i].end()) &&
                 std::equal(crow.begin(), crow.end(), r[i].begin(), r[i].end()) &&
                 std::equal(krow.begin(), krow.end(), r[i].begin(), r[i].end()) &&
                 std::equal(begin(row), end(row), r[i].begin(), r[i].end()) &&
                 std::equal(begin(krow), end(krow), r[i].begin(), r[i].end()) &&
                 std::equal(begin(crow), end(crow), r[i].begin(), r[i].end()),
             "row_iteration", "row %u", i);
  }
  MC_CHECK(std::equal(c.entries_.begin(), c.entries_.end(), all.begin(), all.end()), "row_major", "entries");
  auto threw = 0;
  for (auto const i : {rows, rows + 1U, 1000000U}) {
    try {
      (void)m.at(i);
    } catch (std::exception const&) {
      ++threw;
    }
    try {
      (void)c.at(i);
    } catch (std::exception const&) {
      ++threw;
    }
  }
  MC_CHECK(threw == 6, "at_oob", "at() beyond the last row must throw");
}

template <typename M, typename V, typename Make>
void body(Make const& make_matrix) {
  auto const max = mc::thorough() ? 4 : 3;
  auto next = 0U;
  {
    auto dim = [&] { return static_cast<unsigned>(mc::choose(max + 1)); };
    auto cols = 0U;
    table<V> r;
    M m{};
    auto check = [&] { same(m, r, cols); };
    auto write = [&] {
      for (auto i = 0U; i != r.size(); ++i) {
        for (auto j = 0U; j != cols; ++j) {
          auto const v = make<V>(next++);
          switch (next % 3U) {
            case 0: m[i][j] = v; break;
            case 1: m.at(i)[j] = v; break;
            case 2: m(i, j) = v; break;
          }
          r[i][j] = v;
        }
      }
    };
    switch (mc::choose(3)) {
      case 0: break;
      case 1: {
        auto const a = dim(), b = dim();
        auto const v = make<V>(next++);
        mc::logf("make_flat_matrix %u %u", a, b);
        m = make_matrix(a, b, &v);
        r.assign(a, std::vector<V>(b, v));
        cols = b;
        break;
      }
      case 2: {
        auto const a = dim(), b = dim();
        mc::logf("make_flat_matrix default %u %u", a, b);
        m = make_matrix(a, b, static_cast<V const*>(nullptr));
        r.assign(a, std::vector<V>(b, V{}));
        cols = b;
        break;
      }
    }
    check();
    write();
    auto const steps = mc::bound();
    for (auto s = 0; s != steps; ++s) {
      mc::step();
      switch (mc::choose(6)) {
        case 0: {
          auto const a = dim(), b = dim();
          mc::op("resize");
          mc::logf("resize %u %u", a, b);
          m.resize(a, b);
          r.resize(a);
          for (auto& x : r) {
            x.resize(b, V{});
          }
          cols = b;
          check();
          if (mc::choose(2) == 0) {
            write();
          }
          break;
        }
        case 1: {
          mc::op("reset");
          auto const v = make<V>(next++);
          auto const own = !r.empty() && cols != 0U && mc::choose(2) == 1;
          mc::logf("reset %d", own);
          auto const x = own ? r.back().back() : v;
          m.reset(own ? m(static_cast<unsigned>(r.size()) - 1U, cols - 1U) : v);
          for (auto& row : r) {
            std::fill(row.begin(), row.end(), x);
          }
          break;
        }
        case 2: {
          mc::op("copy");
          mc::logf("copy");
          M c{m};
          same(c, r, cols);
          if (!r.empty() && cols != 0U) {
            c(0, 0) = make<V>(next++);
            check();
          }
          c = m;
          same(c, r, cols);
          m = M{};
          m = c;
          break;
        }
        case 3: {
          mc::op("move");
          mc::logf("move");
          M c{std::move(m)};
          same(c, r, cols);
          m = std::move(c);
          break;
        }
        case 4: {
          mc::op("write through rows");
          mc::logf("write through rows");
          for (auto i = 0U; i != r.size(); ++i) {
            auto row = m[i];
            std::reverse(row.begin(), row.end());
            std::reverse(begin(row), end(row));
            std::reverse(row.begin(), row.end());
            std::reverse(r[i].begin(), r[i].end());
          }
          break;
        }
        case 5: {
          mc::op("too large");
          mc::logf("too large");
          auto threw = 0;
          for (auto const [a, b] : {std::pair{65536U, 65536U}, std::pair{1U << 31U, 2U}, std::pair{3U, 0x55555556U}}) {
            try {
              m.resize(a, b);
            } catch (std::exception const&) {
              ++threw;
            }
            try {
              m = make_matrix(a, b, static_cast<V const*>(nullptr));
            } catch (std::exception const&) {
              ++threw;
            }
          }
          MC_CHECK(threw == 6, "too_large", "dimensions whose product overflows must be rejected");
          break;
        }
      }
      check();
      auto h = mc::H{};
      h(r.size())(cols)(m.entries_.size());
      mc::state(h);
    }
  }
  mc::checked();
}

template <typename V>
void off() {
  body<cista::offset::flat_matrix<V>, V>([](unsigned a, unsigned b, V const* v) {
    return v ? cista::offset::make_flat_matrix<V>(a, b, *v) : cista::offset::make_flat_matrix<V>(a, b);
  });
}
template <typename V>
void raw() {
  body<cista::raw::flat_matrix<V>, V>([](unsigned a, unsigned b, V const* v) {
    return v ? cista::raw::make_flat_matrix<V>(a, b, *v) : cista::raw::make_flat_matrix<V>(a, b);
  });
}

MC_SCENARIO("offset u32", 2, 2) { off<std::uint32_t>(); }
MC_SCENARIO("raw u8", 2, 2) { raw<std::uint8_t>(); }
MC_SCENARIO("offset string", 2, 2) { off<cista::offset::string>(); }
MC_SCENARIO("raw string", 2, 2) { raw<cista::raw::string>(); }

}  // namespace
