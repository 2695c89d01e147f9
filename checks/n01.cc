// N01: numeric helpers on their whole domain.
#include "mc.h"

#include <cstring>
#include <limits>
#include <vector>

#include "cista/aligned_alloc.h"
#include "cista/aligned_allocator.h"
#include "cista/bit_counting.h"
#include "cista/chunk.h"
#include "cista/endian/conversion.h"
#include "cista/next_power_of_2.h"

namespace {

template <typename T>
unsigned ref_ctz(T const x) {
  auto n = 0U;
  for (auto i = 0U; i != sizeof(T) * 8U && ((x >> i) & 1U) == 0U; ++i) {
    ++n;
  }
  return n;
}
template <typename T>
unsigned ref_clz(T const x) {
  auto n = 0U;
  for (auto i = sizeof(T) * 8U; i != 0U && ((x >> (i - 1U)) & 1U) == 0U; --i) {
    ++n;
  }
  return n;
}
template <typename T>
unsigned ref_pop(T const x) {
  auto n = 0U;
  for (auto i = 0U; i != sizeof(T) * 8U; ++i) {
    n += (x >> i) & 1U;
  }
  return n;
}
template <typename T>
T ref_swap(T const x) {
  T r = 0;
  for (auto i = 0U; i != sizeof(T); ++i) {
    r |= static_cast<T>(((x >> (8U * i)) & 0xFFU)) << (8U * (sizeof(T) - 1U - i));
  }
  return r;
}

#ifdef FULL
struct tables {
  tables() {
    for (auto i = 0U; i != 65536U; ++i) {
      ctz[i] = static_cast<std::uint8_t>(ref_ctz(static_cast<std::uint16_t>(i)));
      clz[i] = static_cast<std::uint8_t>(ref_clz(static_cast<std::uint16_t>(i)));
      pop[i] = static_cast<std::uint8_t>(ref_pop(static_cast<std::uint16_t>(i)));
    }
  }
  std::uint8_t ctz[65536], clz[65536], pop[65536];
} const tab;

void full32(std::uint32_t const top) {
  auto const lo = static_cast<std::uint64_t>(top) << 24U;
  for (auto i = lo; i != lo + (1ULL << 24U); ++i) {
    auto const x = static_cast<std::uint32_t>(i);
    auto const h = x >> 16U, l = x & 0xFFFFU;
    auto const ctz = l != 0U ? tab.ctz[l] : 16U + tab.ctz[h];
    auto const clz = h != 0U ? tab.clz[h] : 16U + tab.clz[l];
    auto const pop = static_cast<std::size_t>(tab.pop[h] + tab.pop[l]);
    auto const ok = cista::trailing_zeros(x) == ctz && cista::leading_zeros(x) == clz && cista::popcount(x) == pop;
    if (!ok) {
      MC_CHECK(cista::trailing_zeros(x) == ctz, "trailing_zeros", "%x: %u", x, cista::trailing_zeros(x));
      MC_CHECK(cista::leading_zeros(x) == clz, "leading_zeros", "%x: %u", x, cista::leading_zeros(x));
      MC_CHECK(false, "popcount", "%x: %zu", x, cista::popcount(x));
    }
  }
  mc::checked(1U << 24U);
}

MC_SCENARIO("bit counting: all 32 bit values", 1, 1) { full32(static_cast<std::uint32_t>(mc::choose(256))); }

void swap32(std::uint32_t const top) {
  auto const lo = static_cast<std::uint64_t>(top) << 24U;
  for (auto i = lo; i != lo + (1ULL << 24U); ++i) {
    auto const x = static_cast<std::uint32_t>(i);
    auto const r = (x >> 24U) | ((x >> 8U) & 0xFF00U) | ((x & 0xFF00U) << 8U) | (x << 24U);
    auto const s = cista::endian_swap(x);
    MC_CHECK(s == r && cista::endian_swap(s) == x, "endian_swap", "%x -> %x", x, s);
  }
  mc::checked(1U << 24U);
}
MC_SCENARIO("byte swap: all 32 bit values", 1, 1) { swap32(static_cast<std::uint32_t>(mc::choose(256))); }

#else

template <typename T>
void pow2_range(std::uint64_t const lo, std::uint64_t const hi) {
  for (auto i = lo; i < hi; ++i) {
    auto p = std::uint64_t{1};
    while (p < i) {
      p <<= 1U;
    }
    auto const r = cista::next_power_of_two(static_cast<T>(i));
    MC_CHECK(r == static_cast<T>(p), "next_power_of_two", "%zu bytes: %llx -> %llx", sizeof(T), (unsigned long long)i, (unsigned long long)r);
  }
  mc::checked(hi - lo);
}

MC_SCENARIO("next power of two: all values of 8, 16, 32 bits", 1, 1) {
  switch (mc::choose(3)) {
    case 0: pow2_range<std::uint8_t>(1, 129); break;
    case 1: pow2_range<std::uint16_t>(1, 32769); break;
    case 2: {
      // intervals (2^k, 2^(k+1)], in slices
      auto const s = static_cast<std::uint64_t>(mc::choose(128)) << 24U;
      std::uint64_t const lo = s + 1U, hi = s + (1ULL << 24U) + 1U;
      auto p = std::uint64_t{1};
      while (p < lo) {
        p <<= 1U;
      }
      for (auto i = lo; i != hi; ++i) {
        if (i > p) {
          p <<= 1U;
        }
        auto const r = cista::next_power_of_two(static_cast<std::uint32_t>(i));
        MC_CHECK(r == p, "next_power_of_two", "%llx -> %x", (unsigned long long)i, r);
      }
      mc::checked(hi - lo);
      break;
    }
  }
}

template <typename T>
void one64(T const x) {
  MC_CHECK(cista::trailing_zeros(x) == ref_ctz(x), "trailing_zeros", "%llx: %u", (unsigned long long)x, cista::trailing_zeros(x));
  MC_CHECK(cista::leading_zeros(x) == ref_clz(x), "leading_zeros", "%llx: %u", (unsigned long long)x, cista::leading_zeros(x));
  MC_CHECK(cista::popcount(x) == ref_pop(x), "popcount", "%llx: %zu", (unsigned long long)x, cista::popcount(x));
  MC_CHECK(cista::endian_swap(x) == ref_swap(x), "endian_swap", "%llx", (unsigned long long)x);
  if (x != 0U) {
    MC_CHECK(cista::constexpr_trailing_zeros(x) == ref_ctz(x), "constexpr_trailing_zeros", "%llx", (unsigned long long)x);
  }
  if (x != 0U && x <= (T{1} << 63U)) {
    auto p = T{1};
    while (p < x) {
      p <<= 1U;
    }
    MC_CHECK(cista::next_power_of_two(x) == p, "next_power_of_two", "%llx", (unsigned long long)x);
  }
}

// all 64 bit values with at most 3 set or 3 clear bits, all runs of ones, and
// their neighbours
MC_SCENARIO("64 bit values: few bits, runs, neighbours", 1, 1) {
  auto const i = mc::choose(64);
  auto both = [](std::uint64_t const x) {
    for (auto const y : {x, ~x, x - 1U, x + 1U}) {
      one64(y);
    }
  };
  for (auto j = 0; j != 64; ++j) {
    for (auto k = 0; k != 64; ++k) {
      both((1ULL << i) | (1ULL << j) | (1ULL << k));
    }
    if (j >= i) {
      both((j == 63 ? ~0ULL : (1ULL << (j + 1)) - 1U) & ~((1ULL << i) - 1U));
    }
  }
  mc::checked(64 * 64 * 4);
}

// all pairs of byte values at all pairs of byte positions
MC_SCENARIO("64 bit values: byte pairs", 1, 1) {
  auto const i = mc::choose(8), j = mc::choose(8);
  auto const bg = mc::choose(2) == 0 ? 0ULL : 0x8040201008040201ULL;
  for (auto a = 0ULL; a != 256U; ++a) {
    for (auto b = 0ULL; b != 256U; ++b) {
      one64((bg & ~(0xFFULL << (8 * i)) & ~(0xFFULL << (8 * j))) | (a << (8 * i)) | (b << (8 * j)));
    }
  }
  mc::checked(65536);
}

MC_SCENARIO("16 bit byte swap, constexpr bit counting of small types", 1, 1) {
  for (auto i = 0U; i != 65536U; ++i) {
    auto const x = static_cast<std::uint16_t>(i);
    MC_CHECK(cista::endian_swap(x) == ref_swap(x), "endian_swap", "%x", i);
    if (i != 0U) {
      MC_CHECK(cista::constexpr_trailing_zeros(static_cast<std::uint16_t>(i)) == ref_ctz(x), "constexpr_trailing_zeros", "%x", i);
      MC_CHECK(cista::constexpr_trailing_zeros(i) == ref_ctz(i), "constexpr_trailing_zeros", "%x", i);
    }
    if (i < 256U) {
      MC_CHECK(cista::endian_swap(static_cast<std::uint8_t>(i)) == i, "endian_swap", "%x", i);
    }
  }
  static_assert(cista::trailing_zeros(8U) == 3U && cista::leading_zeros(8U) == 28U && cista::constexpr_trailing_zeros(64U) == 6U &&
                cista::next_power_of_two(65U) == 128U);
  mc::checked(65536);
}

MC_SCENARIO("rounding up to multiples", 1, 1) {
  // all pairs of small values, then values around the end of the domain
  auto const m = static_cast<unsigned>(mc::choose(mc::thorough() ? 1024 : 300)) + 1U;
  auto one = [&](auto const n, auto const mult) {
    using T = std::decay_t<decltype(n)>;
    auto const r = cista::to_next_multiple(n, mult);
    static_assert(std::is_same_v<std::decay_t<decltype(r)>, T>);
    MC_CHECK(r >= n && r - n < mult && r % mult == 0U, "to_next_multiple", "%llu by %llu -> %llu", (unsigned long long)n,
             (unsigned long long)mult, (unsigned long long)r);
  };
  for (auto n = 0U; n != 4096U; ++n) {
    one(n, m);
    one(static_cast<std::size_t>(n), static_cast<std::size_t>(m));
    one(static_cast<std::uint16_t>(n), static_cast<std::uint16_t>(m));
    one(static_cast<std::size_t>(n), static_cast<std::uint8_t>(m % 255U + 1U));
    auto const top = std::numeric_limits<std::uint64_t>::max() / m * m - n;
    one(top, static_cast<std::uint64_t>(m));
    one(std::numeric_limits<std::uint32_t>::max() / m * m - n, m);
    one((1ULL << 32U) - 2048U + n, static_cast<std::uint64_t>(m));
    one((1ULL << 32U) - 2048U + n, 1ULL << 12U);
    one((1ULL << 32U) - 2048U + n, m);
    one(1ULL + n, 1ULL << 40U);
  }
  mc::checked(4096U * 9U);
}

void one_chunk(unsigned const size, std::size_t const total) {
  auto at = std::size_t{0};
  auto calls = std::size_t{0};
  cista::chunk(size, total, [&](std::size_t const from, unsigned const n) {
    MC_CHECK(from == at, "chunk:gap", "chunk(%u, %zu): call %zu starts at %zu, expected %zu", size, total, calls, from, at);
    MC_CHECK(n != 0U && n <= size && from + n <= total, "chunk:size", "chunk(%u, %zu): call %zu has size %u at %zu", size, total, calls, n, from);
    MC_CHECK(n == size || from + n == total, "chunk:short", "chunk(%u, %zu): short chunk of %u at %zu is not the last", size, total, n, from);
    at += n;
    ++calls;
  });
  MC_CHECK(at == total, "chunk:end", "chunk(%u, %zu) covers %zu", size, total, at);
}

MC_SCENARIO("chunking covers the range exactly once", 1, 1) {
  auto const limit = mc::thorough() ? 256U : 130U;
  auto const s = static_cast<unsigned>(mc::choose(static_cast<int>(limit))) + 1U;
  for (auto t = 0U; t != 3U * limit; ++t) {
    one_chunk(s, t);
  }
  // large sizes: around multiples of the chunk size and of 2^32
  auto const big = std::numeric_limits<unsigned>::max() - s + 1U;
  for (auto k = 0ULL; k != 5U; ++k) {
    for (auto d = 0ULL; d != 3U; ++d) {
      one_chunk(big, k * big + d);
      one_chunk(big, k * big + big - d);
      one_chunk(1U << 31U, (k << 32U) + d * s);
      one_chunk((1U << 28U) + s, (k << 32U) + d);
    }
  }
  mc::checked(3U * limit + 60U);
}

MC_SCENARIO("aligned allocation", 1, 1) {
  auto const a = static_cast<std::size_t>(mc::choose(130)) + 1U;
  for (auto n = std::size_t{1}; n != 70U; ++n) {
    auto* const p = static_cast<unsigned char*>(CISTA_ALIGNED_ALLOC(a, n));
    auto* const q = static_cast<unsigned char*>(CISTA_ALIGNED_ALLOC(a, n));
    MC_CHECK(p != nullptr && q != nullptr, "aligned_alloc", "alignment %zu size %zu: null", a, n);
    auto pw = std::size_t{1};
    while (pw < a) {
      pw <<= 1U;
    }
    MC_CHECK(reinterpret_cast<std::uintptr_t>(p) % pw == 0U && reinterpret_cast<std::uintptr_t>(q) % pw == 0U, "aligned_alloc",
             "alignment %zu size %zu: not aligned", a, n);
    std::memset(p, 0x11, n);
    std::memset(q, 0x22, n);
    MC_CHECK(p[0] == 0x11 && p[n - 1U] == 0x11, "aligned_alloc", "overlap");
    CISTA_ALIGNED_FREE(a, p);
    CISTA_ALIGNED_FREE(a, q);
  }
  mc::checked(70U);
}

MC_SCENARIO("aligned allocator", 1, 1) {
  auto const n = static_cast<std::size_t>(mc::choose(40)) + 1U;
  auto one = [&](auto alloc) {
    using A = decltype(alloc);
    auto* const p = alloc.allocate(n);
    std::memset(static_cast<void*>(p), 0x33, n * sizeof(typename A::value_type));
    alloc.deallocate(p, n);
    return reinterpret_cast<std::uintptr_t>(p);
  };
  MC_CHECK(one(cista::aligned_allocator<char>{}) % 16U == 0U, "aligned_allocator", "16");
  MC_CHECK((one(cista::aligned_allocator<std::uint64_t, 64>{}) % 64U) == 0U, "aligned_allocator", "64");
  MC_CHECK((one(cista::aligned_allocator<std::uint16_t, 4096>{}) % 4096U) == 0U, "aligned_allocator", "4096");
  std::vector<double, cista::aligned_allocator<double, 32>> v;
  for (auto i = std::size_t{0}; i != n; ++i) {
    v.push_back(static_cast<double>(i));
    MC_CHECK(reinterpret_cast<std::uintptr_t>(v.data()) % 32U == 0U, "aligned_allocator", "vector");
  }
  constexpr auto const max = std::numeric_limits<std::size_t>::max();
  for (auto const k : {max / 16U, max / 8U, max / 8U + 1U, max / 8U + 2U, max / 4U, max / 2U, max / 2U + 1U + n, max}) {
    auto thrown = false;
    try {
      auto* const p = cista::aligned_allocator<std::uint64_t>{}.allocate(k);
      cista::aligned_allocator<std::uint64_t>{}.deallocate(p, 0);
    } catch (std::bad_alloc const&) {
      thrown = true;
    }
    MC_CHECK(thrown, "aligned_allocator:overflow", "request for %zu elements of 8 bytes did not throw", k);
  }
  mc::checked();
}

#endif

}  // namespace
