// bitset / bitvec: every operation history vs. std::vector<bool>.
#include "mc.h"

#include <atomic>
#include <optional>
#include <sstream>
#include <string>

#include "cista/containers/bitset.h"
#include "cista/containers/bitvec.h"

namespace {

using ref_t = std::vector<bool>;

std::string str(ref_t const& r) {
  std::string s;
  for (auto i = r.size(); i-- > 0;) {
    s.push_back(r[i] ? '1' : '0');
  }
  return s;
}

bool less(ref_t const& a, ref_t const& b) {
  for (auto i = a.size(); i-- > 0;) {
    if (a[i] != b[i]) {
      return b[i];
    }
  }
  return false;
}

template <typename B>
std::string text(B const& b) {
  std::stringstream o;
  o << b;
  return o.str();
}

template <typename B, bool Vec>
void same(B const& b, ref_t const& r, char const* w) {
  auto const n = r.size();
  MC_CHECK(b.size() == n, "bits:size", "%s: size %zu expected %zu", w,
           static_cast<std::size_t>(b.size()), n);
  auto cnt = std::size_t{0};
  for (auto i = 0U; i != n; ++i) {
    cnt += r[i] ? 1U : 0U;
    MC_CHECK(b.test(i) == r[i] && b[i] == r[i], "bits:test",
             "%s: bit %u is %d, expected %d", w, i, b.test(i), bool(r[i]));
  }
  MC_CHECK(!b.test(static_cast<unsigned>(n)) &&
               !b.test(static_cast<unsigned>(n) + 1U) &&
               !b.test(static_cast<unsigned>(n) + 64U),
           "bits:test", "%s: test past the end", w);
  MC_CHECK(b.count() == cnt, "bits:count", "%s: count %zu expected %zu", w,
           static_cast<std::size_t>(b.count()), cnt);
  MC_CHECK(b.any() == (cnt != 0U) && b.none() == (cnt == 0U), "bits:any",
           "%s: any/none", w);
  auto next = std::size_t{0};
  auto seen = std::size_t{0};
  b.for_each_set_bit([&](auto const i) {
    while (next < n && !r[next]) {
      ++next;
    }
    MC_CHECK(static_cast<std::size_t>(i) == next && next < n, "bits:for_each",
             "%s: for_each_set_bit yields %zu, expected %zu", w,
             static_cast<std::size_t>(i), next);
    ++next;
    ++seen;
  });
  MC_CHECK(seen == cnt, "bits:for_each", "%s: for_each_set_bit count %zu of %zu",
           w, seen, cnt);
  if constexpr (Vec) {
    MC_CHECK(b.str() == str(r), "bits:str", "%s: str", w);
    MC_CHECK(b.empty() == r.empty(), "bits:empty", "%s: empty", w);
    auto nx = std::optional<std::size_t>{};
    for (auto i = n + 2U; i-- > 0U;) {
      if (i < n && r[i]) {
        nx = i;
      }
      auto const got =
          b.next_set_bit(static_cast<typename B::size_type>(i));
      MC_CHECK(got.has_value() == (i < n && nx.has_value()) &&
                   (!got.has_value() || *got == *nx),
               "bits:next_set_bit", "%s: next_set_bit(%zu) = %ld, expected %ld",
               w, i, got.has_value() ? static_cast<long>(*got) : -1L,
               i < n && nx.has_value() ? static_cast<long>(*nx) : -1L);
    }
    std::atomic_size_t cur{0U};
    for (auto i = 0U; i != n; ++i) {
      if (r[i]) {
        auto const g = b.get_next(cur);
        MC_CHECK(g.has_value() && *g == i, "bits:get_next", "%s: get_next", w);
      }
    }
    MC_CHECK(!b.get_next(cur).has_value(), "bits:get_next",
             "%s: get_next past the last bit", w);
  } else {
    MC_CHECK(b.to_string() == str(r), "bits:str", "%s: to_string", w);
  }
  MC_CHECK(text(b) == str(r), "bits:print", "%s: operator<<", w);
}

template <typename B>
void cmp(B const& a, B const& b, ref_t const& ra, ref_t const& rb) {
  if (ra.size() != rb.size()) {
    MC_CHECK(!(a == b) && a != b, "bits:==", "sizes differ but equal");
    return;
  }
  auto const lt = less(ra, rb);
  auto const gt = less(rb, ra);
  MC_CHECK((a == b) == (ra == rb), "bits:==", "==: %s %s", str(ra).c_str(),
           str(rb).c_str());
  MC_CHECK((a != b) == (ra != rb), "bits:!=", "!=");
  MC_CHECK((a < b) == lt, "bits:<", "<: %s %s", str(ra).c_str(),
           str(rb).c_str());
  MC_CHECK((a > b) == gt, "bits:>", ">: %s %s", str(ra).c_str(),
           str(rb).c_str());
  MC_CHECK((a <= b) == !gt, "bits:<=", "<=");
  MC_CHECK((a >= b) == !lt, "bits:>=", ">=");
}

ref_t shr(ref_t const& r, std::size_t k) {
  ref_t o(r.size());
  for (std::size_t i = 0; i + k < r.size() && k < r.size(); ++i) {
    o[i] = r[i + k];
  }
  return o;
}
ref_t shl(ref_t const& r, std::size_t k) {
  ref_t o(r.size());
  for (auto i = k; i < r.size(); ++i) {
    o[i] = r[i - k];
  }
  return o;
}

std::vector<std::size_t> positions(std::size_t n) {
  std::vector<std::size_t> p;
  for (auto x : {std::size_t{0}, std::size_t{63}, std::size_t{64}, n / 2U,
                 n - 1U}) {
    if (x < n && std::find(p.begin(), p.end(), x) == p.end()) {
      p.push_back(x);
    }
  }
  return p;
}
std::vector<std::size_t> shifts(std::size_t n) {
  std::vector<std::size_t> p;
  for (auto x : {std::size_t{0}, std::size_t{1}, std::size_t{63},
                 std::size_t{64}, std::size_t{65}, n - 1U, n, n + 70U}) {
    if (std::find(p.begin(), p.end(), x) == p.end()) {
      p.push_back(x);
    }
  }
  return p;
}

std::string pattern(std::size_t n, int kind) {
  std::string s(n, '0');
  for (std::size_t i = 0; i < n; ++i) {
    auto const on = kind == 0   ? i % 2 == 0
                    : kind == 1 ? i % 3 != 0
                                : i == 0 || i + 1 == n;
    s[i] = on ? '1' : '0';
  }
  return s;
}

template <typename B, bool Vec>
void op_history(std::size_t size) {
  B a, b;
  ref_t ra(size), rb(size);
  if constexpr (Vec) {
    a.resize(static_cast<typename B::size_type>(size));
    b.resize(static_cast<typename B::size_type>(size));
  }
  mc::logf("size %zu", size);
  {
    auto const k = mc::choose(3);
    auto const s = k == 0 ? std::string(size, '0') : pattern(size, k - 1);
    b.set(std::string_view{s});
    for (std::size_t i = 0; i < size; ++i) {
      rb[i] = s[size - i - 1U] == '1';
    }
    mc::logf("b = %s", s.c_str());
  }
  for (auto d = 0; d < mc::bound(); ++d) {
    auto const n = ra.size();
    auto const same_size = n == rb.size();
    auto any_of = [&](std::vector<std::size_t> const& v) {
      return v[static_cast<std::size_t>(
          mc::choose(static_cast<int>(v.size())))];
    };
    auto const kind = mc::choose(Vec ? 15 : 12);
    switch (kind) {
      case 0: {
        mc::op("set");
        if (n == 0U) {
          break;
        }
        auto const i = any_of(positions(n));
        mc::logf("a.set(%zu)", i);
        a.set(static_cast<unsigned>(i));
        ra[i] = true;
        break;
      }
      case 1: {
        mc::op("set false");
        if (n == 0U) {
          break;
        }
        auto const i = any_of(positions(n));
        mc::logf("a.set(%zu, false)", i);
        a.set(static_cast<unsigned>(i), false);
        ra[i] = false;
        break;
      }
      case 2:
        mc::op("~");
        mc::logf("a = ~a");
        a = ~a;
        ra.flip();
        break;
      case 3: {
        mc::op("<<");
        auto const k = any_of(shifts(n ? n : 1U));
        mc::logf("a <<= %zu", k);
        auto const c = a << k;
        a <<= k;
        ra = shl(ra, k);
        MC_CHECK(c == a, "bits:<<", "<< and <<= differ");
        break;
      }
      case 4: {
        mc::op(">>");
        auto const k = any_of(shifts(n ? n : 1U));
        mc::logf("a >>= %zu", k);
        auto const c = a >> k;
        a >>= k;
        ra = shr(ra, k);
        MC_CHECK(c == a, "bits:>>", ">> and >>= differ");
        break;
      }
      case 5: {
        mc::op("&");
        if (!same_size) {
          break;
        }
        mc::logf("a &= b");
        auto const c = a & b;
        a &= b;
        for (std::size_t i = 0; i < n; ++i) {
          ra[i] = ra[i] && rb[i];
        }
        MC_CHECK(c == a, "bits:&", "& and &= differ");
        break;
      }
      case 6: {
        mc::op("|");
        if (!same_size) {
          break;
        }
        mc::logf("a |= b");
        auto const c = a | b;
        a |= b;
        for (std::size_t i = 0; i < n; ++i) {
          ra[i] = ra[i] || rb[i];
        }
        MC_CHECK(c == a, "bits:|", "| and |= differ");
        break;
      }
      case 7: {
        mc::op("^");
        if (!same_size) {
          break;
        }
        mc::logf("a ^= b");
        auto const c = a ^ b;
        a ^= b;
        for (std::size_t i = 0; i < n; ++i) {
          ra[i] = ra[i] != rb[i];
        }
        MC_CHECK(c == a, "bits:^", "^ and ^= differ");
        break;
      }
      case 8:
        mc::op("reset");
        mc::logf("a.reset()");
        a.reset();
        ra.assign(n, false);
        break;
      case 9:
        mc::op("max");
        mc::logf("a = max()");
        if constexpr (Vec) {
          a = B::max(n);
        } else {
          a = B::max();
        }
        ra.assign(n, true);
        break;
      case 10:
        mc::op("copy");
        mc::logf("swap(a, b)");
        {
          auto c = a;
          a = b;
          b = std::move(c);
          swap(ra, rb);
        }
        break;
      case 11: {
        mc::op("set string");
        auto const s = pattern(n, mc::choose(2));
        mc::logf("a.set(\"%s\")", s.c_str());
        a.set(std::string_view{s});
        for (std::size_t i = 0; i < n; ++i) {
          ra[i] = s[n - i - 1U] == '1';
        }
        break;
      }
      case 12: {
        if constexpr (Vec) {
          mc::op("resize");
          auto const k = any_of({0U, 1U, 63U, 64U, 65U, 128U, 130U});
          mc::logf("a.resize(%zu)", k);
          a.resize(static_cast<typename B::size_type>(k));
          ra.resize(k);
        }
        break;
      }
      case 13: {
        if constexpr (Vec) {
          mc::op("one_out");
          mc::logf("a.one_out()");
          a.one_out();
          ra.assign(n, true);
        }
        break;
      }
      case 14: {
        if constexpr (Vec) {
          mc::op("zero_out");
          mc::logf("a.zero_out()");
          a.zero_out();
          ra.assign(n, false);
        }
        break;
      }
    }
    mc::step();
    if (mc::fresh()) {
      same<B, Vec>(a, ra, "a");
      same<B, Vec>(b, rb, "b");
      cmp(a, b, ra, rb);
      cmp(b, a, rb, ra);
      cmp(a, a, ra, ra);
      mc::checked();
      mc::H h;
      h(str(ra).c_str())(7U)(str(rb).c_str());
      mc::state(h);
    }
  }
}

// every pair of values of small sets, every shift
template <std::size_t N>
void small() {
  using B = cista::bitset<N>;
  auto const x = mc::choose(1 << N);
  auto const y = mc::choose(1 << N);
  mc::op("small");
  mc::logf("bitset<%zu> %d %d", N, x, y);
  B a, b;
  ref_t ra(N), rb(N);
  for (auto i = 0U; i < N; ++i) {
    ra[i] = (x >> i) & 1;
    rb[i] = (y >> i) & 1;
    a.set(i, ra[i]);
    b.set(i, rb[i]);
  }
  same<B, false>(a, ra, "a");
  cmp(a, b, ra, rb);
  MC_CHECK(B{str(ra)} == a, "bits:string", "string constructor");
  for (auto k = 0U; k <= N + 1U; ++k) {
    same<B, false>(a << k, shl(ra, k), "a << k");
    same<B, false>(a >> k, shr(ra, k), "a >> k");
    same<B, false>(~(a << k), [&] {
      auto c = shl(ra, k);
      c.flip();
      return c;
    }(), "~(a << k)");
  }
  same<B, false>(a ^ b, [&] {
    ref_t o(N);
    for (auto i = 0U; i < N; ++i) {
      o[i] = ra[i] != rb[i];
    }
    return o;
  }(), "a ^ b");
  mc::step();
  mc::checked();
  mc::state(mc::H{}(static_cast<unsigned>(x))(static_cast<unsigned>(y)));
}

template <std::size_t N>
void bs() {
  op_history<cista::bitset<N>, false>(N);
}

}  // namespace

#if PART == 1
MC_SCENARIO("bitset<64>", 3, 4) { bs<64>(); }
MC_SCENARIO("bitset<65>", 3, 4) { bs<65>(); }
MC_SCENARIO("bitset<40>", 3, 4) { bs<40>(); }
MC_SCENARIO("bitset<200>", 3, 4) { bs<200>(); }
MC_SCENARIO("bitset<192>", 3, 4) { bs<192>(); }
MC_SCENARIO("bitset<127>", 2, 4) { bs<127>(); }
MC_SCENARIO("bitset<128>", 2, 4) { bs<128>(); }
MC_SCENARIO("bitset<1>", 3, 4) { bs<1>(); }
MC_SCENARIO("all bitset<6> pairs", 1, 1) { small<6>(); }
MC_SCENARIO("all bitset<3> pairs", 1, 1) { small<3>(); }
#else
MC_SCENARIO("raw::bitvec", 3, 4) {
  auto const n = mc::pick<std::size_t>({10, 64, 70});
  op_history<cista::raw::bitvec, true>(n);
}
MC_SCENARIO("offset::bitvec", 3, 4) {
  auto const n = mc::pick<std::size_t>({0, 128, 130, 192});
  op_history<cista::offset::bitvec, true>(n);
}
#endif
