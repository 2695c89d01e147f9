// S04: with integrity protection every alteration, truncation and extension of
// an image is rejected.  -DFLAVOUR -DROOT
#include "roots.h"

#include "iofault.h"

namespace {

using R = roots::ROOT;
using cista::mode;

constexpr auto const V = mode::WITH_VERSION;
constexpr auto const SV = mode::WITH_STATIC_VERSION;
constexpr auto const I = mode::WITH_INTEGRITY;
constexpr auto const BE = mode::SERIALIZE_BIG_ENDIAN;
constexpr auto const DEEP = mode::DEEP_CHECK;
constexpr auto const UNC = mode::UNCHECKED;
constexpr auto const SKV = mode::SKIP_VERSION;
constexpr auto const SKI = mode::SKIP_INTEGRITY;
#ifdef NO_VERSION
constexpr auto const VER1 = mode::NONE;
#else
constexpr auto const VER1 = V;
#endif
#ifdef NO_STATIC_VERSION
constexpr auto const VER2 = mode::NONE;
#else
constexpr auto const VER2 = SV;
#endif

using bytes = std::vector<unsigned char>;

// the root is the first aligned object behind the headers
constexpr std::size_t root_pos(mode const m) {
  return (static_cast<std::size_t>(cista::data_start(m)) + alignof(R) - 1U) / alignof(R) * alignof(R);
}

struct counter {
  std::uint64_t n = 0;
  ~counter() { mc::checked(n); }
};

template <mode DM>
bool accepted(kit::image const& img) {
  try {
    if constexpr (kit::is_offset_flavour() && !cista::endian_conversion_necessary<DM>()) {
      cista::deserialize<R, DM>(static_cast<std::uint8_t const*>(img.begin()), static_cast<std::uint8_t const*>(img.end()));
    } else {
      cista::deserialize<R, DM>(img.begin(), img.end());
    }
    return true;
  } catch (std::exception const&) {
    return false;
  }
}

template <mode DM>
void reject(counter& c, bytes const& b, char const* what, std::size_t const i, std::size_t const j = 0) {
  auto const img = kit::image::of(b);
  ++c.n;
  MC_CHECK(!accepted<DM>(img), what, "image with %s (%zu, %zu) is accepted", what, i, j);
  MC_CHECK(std::memcmp(img.begin(), b.data(), b.size()) == 0, "used", "content was modified before the image was rejected (%s)", what);
}

template <mode SM, mode DM, int Level>
void attack(char const* how) {
  mc::logf("%s", how);
  mc::op("generate");
  bytes b;
  {
    auto v = R{};
    auto g = kit::G{};
    g.level = Level;
    g(v);
    auto const before = kit::dump(v);
    mc::op("serialize");
    auto const s = cista::serialize<SM>(v);
    b.assign(s.begin(), s.end());
    auto const img = kit::image::of(b);
    MC_CHECK(accepted<DM>(img), "rejected", "the unaltered image is rejected");
    char const* err = nullptr;
    auto const start = root_pos(DM);
    auto const d = kit::dump_in(*reinterpret_cast<R const*>(img.begin() + start), img.begin(), img.end(), &err);
    MC_CHECK(err == nullptr && d == before, "value", "the unaltered image differs from the value");
  }
  auto c = counter{};
  auto m = b;
  mc::op("deserialize");
  auto const n = b.size();
  auto const small = n <= 160U;
  switch (mc::choose(5)) {
    case 0: {  // every byte, every value (large images: bit flips, 0 and 255)
      auto const i = static_cast<std::size_t>(mc::choose(static_cast<int>(n)));
      for (auto x = 1U; x != 256U; ++x) {
        m[i] = static_cast<unsigned char>(b[i] ^ x);
        if (small || mc::thorough() || (x & (x - 1U)) == 0U || m[i] == 0U || m[i] == 255U) {
          reject<DM>(c, m, "one byte changed", i, x);
        }
      }
      break;
    }
    case 1:  // every length
      for (auto i = std::size_t{0}; i != n; ++i) {
        reject<DM>(c, bytes(b.begin(), b.begin() + static_cast<std::ptrdiff_t>(i)), "truncation", i);
        if (i != 0) {
          auto cut = bytes(b.begin() + static_cast<std::ptrdiff_t>(i), b.end());
          if (cut.size() > 16U) {
            reject<DM>(c, cut, "bytes missing at the front", i);
          }
        }
      }
      break;
    case 2: {  // extensions and single insertions/deletions
      for (auto k = std::size_t{1}; k <= 40U; ++k) {
        for (auto const fill : {0, 255, static_cast<int>(b.back()), -1}) {
          m = b;
          for (auto q = std::size_t{0}; q != k; ++q) {
            m.push_back(static_cast<unsigned char>(fill == -1 ? b[q % n] : fill));
          }
          reject<DM>(c, m, "extension", k);
        }
      }
      for (auto i = std::size_t{0}; i != n; ++i) {
        m = b;
        m.erase(m.begin() + static_cast<std::ptrdiff_t>(i));
        reject<DM>(c, m, "one byte removed", i);
        m = b;
        m.insert(m.begin() + static_cast<std::ptrdiff_t>(i), b[i]);
        reject<DM>(c, m, "one byte doubled", i);
        m = b;
        m.insert(m.begin() + static_cast<std::ptrdiff_t>(i), 0U);
        reject<DM>(c, m, "zero byte inserted", i);
      }
      break;
    }
    case 3: {  // pairs of bytes
      auto const i = static_cast<std::size_t>(mc::choose(static_cast<int>(n)));
      for (auto j = i + 1U; j < n; j += small || mc::thorough() ? 1U : 1U + (j - i) / 2U) {
        for (auto const x : {0x01, 0x80, 0xFF}) {
          m = b;
          m[i] ^= static_cast<unsigned char>(x);
          m[j] ^= static_cast<unsigned char>(x);
          reject<DM>(c, m, "two bytes changed", i, j);
        }
        m = b;
        ++m[i];
        --m[j];
        reject<DM>(c, m, "two bytes changed", i, j);
        if (b[i] != b[j]) {
          m = b;
          std::swap(m[i], m[j]);
          reject<DM>(c, m, "two bytes swapped", i, j);
        }
      }
      break;
    }
    case 4: {  // blocks: zeroed, copied over another one, swapped
      for (auto const w : {2U, 4U, 8U, 16U, 64U}) {
        for (auto i = std::size_t{0}; i + w <= n; i += w) {
          m = b;
          std::fill_n(m.begin() + static_cast<std::ptrdiff_t>(i), w, static_cast<unsigned char>(0));
          if (m != b) {
            reject<DM>(c, m, "block zeroed", i, w);
          }
          m = b;
          std::reverse(m.begin() + static_cast<std::ptrdiff_t>(i), m.begin() + static_cast<std::ptrdiff_t>(i + w));
          if (m != b) {
            reject<DM>(c, m, "block reversed", i, w);
          }
          for (auto j = std::size_t{0}; j + w <= n; j += w) {
            if (w < (mc::thorough() ? 8U : 64U) && !small && j > 8U * w) {
              break;
            }
            m = b;
            std::copy_n(b.begin() + static_cast<std::ptrdiff_t>(i), w, m.begin() + static_cast<std::ptrdiff_t>(j));
            if (m != b) {
              reject<DM>(c, m, "block copied", i, j);
            }
            std::copy_n(b.begin() + static_cast<std::ptrdiff_t>(j), w, m.begin() + static_cast<std::ptrdiff_t>(i));
            if (m != b) {
              reject<DM>(c, m, "blocks swapped", i, j);
            }
          }
        }
      }
      break;
    }
  }
  mc::step();
}

#ifdef CISTA_WYHASH_FASTEST
// this hash function looks at 12 bytes only
MC_SCENARIO("fastest hash", 1, 1) {
  auto v = R{};
  auto g = kit::G{};
  g.level = 1;
  g(v);
  auto const s = cista::serialize<I>(v);
  auto b = bytes(s.begin(), s.end());
  MC_CHECK(accepted<I>(kit::image::of(b)), "rejected", "the unaltered image is rejected");
  auto const n = b.size() - 8U;
  auto const i = static_cast<std::size_t>(mc::choose(static_cast<int>(n)));
  auto const sampled = i < 4U || i + 4U >= n || (i + 2U >= n / 2U && i < n / 2U + 2U);
  for (auto x = 1U; x != 256U; ++x) {
    auto m = b;
    m[8U + i] ^= static_cast<unsigned char>(x);
    auto const img = kit::image::of(m);
    auto const acc = accepted<I>(img);
    mc::checked();
    MC_CHECK(!acc, sampled ? "fastest:sampled" : "fastest:unsampled", "image with byte %zu changed is accepted", i);
  }
}
#else

#define ATTACK(S, D, L) attack<(S), (D), (L)>(#S " -> " #D)

MC_SCENARIO("alterations", 1, 1) {
#ifdef SMALL
  constexpr auto const L = 1;
#else
  constexpr auto const L = 0;
#endif
  switch (mc::choose(6)) {
    case 0: ATTACK(I, I, L); break;
    case 1: ATTACK(VER1 | I, VER1 | I | DEEP, L); break;
    case 2: ATTACK(VER2 | I, VER2 | I | UNC, L); break;
    case 3: ATTACK(I, I | UNC, 0); break;
#ifndef NO_BE
    case 4: ATTACK(BE | I, BE | I, L); break;
    case 5: ATTACK(BE | VER2 | I, BE | VER2 | I | DEEP, L); break;
#endif
  }
}

// the check is skipped only on request
template <mode SM, mode Skip>
void skipped() {
  auto v = R{};
  auto g = kit::G{};
  g.level = 0;
  g(v);
  auto const before = kit::dump(v);
  auto const s = cista::serialize<SM>(v);
  auto b = bytes(s.begin(), s.end());
  auto const at = static_cast<std::size_t>(cista::integrity_start(SM));
  for (auto i = at; i != at + 8U; ++i) {
    b[i] ^= 0x55U;
    auto const img = kit::image::of(b);
    MC_CHECK((accepted<Skip>(img)), "skip", "skipping the integrity check does not skip it");
    char const* err = nullptr;
    auto const d =
        kit::dump_in(*reinterpret_cast<R const*>(img.begin() + root_pos(Skip)), img.begin(), img.end(), &err);
    MC_CHECK(err == nullptr && d == before, "skip", "value with skipped check");
  }
  mc::checked();
}
MC_SCENARIO("skip", 1, 1) {
  switch (mc::choose(3)) {
    case 0: skipped<I, SKI>(); break;
    case 1: skipped<VER1 | I, VER1 | SKI>(); break;
    case 2: skipped<VER2 | I, (VER2 == mode::NONE ? mode::NONE : SKV) | SKI | UNC>(); break;
  }
}

#ifdef LARGE
// images larger than the blocks a target hashes at once, via every target
MC_SCENARIO("large images", 1, 1) {
  using T = data::vector<std::uint8_t>;
  constexpr auto const M = V | I;
  io::dir dir;
  auto const block = std::size_t{512U * 1024U};
  auto const n = mc::pick({block - 64U, block - 40U, block - 39U, block, block + 1U, 2U * block, 2U * block + 77U});
  auto const target = mc::choose(3);
  mc::logf("%zu bytes, target %d", n, target);
  bytes b;
  {
    T v;
    v.resize(static_cast<unsigned>(n));
    for (auto i = std::size_t{0}; i != n; ++i) {
      v[static_cast<unsigned>(i)] = static_cast<std::uint8_t>(i * 7U + i / 256U);
    }
    if (target == 0) {
      auto const s = cista::serialize<M>(v);
      b.assign(s.begin(), s.end());
    } else if (target == 1) {
      {
        auto f = cista::file{dir.file("a").c_str(), "w+"};
        cista::serialize<M>(f, v);
      }
      b = io::read_all(dir.file("a"));
    } else {
      {
        auto m = cista::buf<cista::mmap>{cista::mmap{dir.file("a").c_str()}};
        cista::serialize<M>(m, v);
      }
      b = io::read_all(dir.file("a"));
    }
  }
  auto const check = [&](bool const ok, char const* what, std::size_t const i) {
    auto const img = kit::image::of(b);
    auto acc = true;
    try {
      cista::deserialize<T, M>(img.begin(), img.end());
    } catch (std::exception const&) {
      acc = false;
    }
    MC_CHECK(acc == ok, ok ? "rejected" : what, "image of %zu bytes via target %d: %s at %zu %s", n, target, what, i,
             acc ? "accepted" : "rejected");
  };
  check(true, "unaltered", 0);
  for (auto const i : {std::size_t{0}, std::size_t{8}, std::size_t{16}, block - 1U, block, block + 15U, block + 16U, n / 2U, b.size() - 1U}) {
    if (i < b.size()) {
      b[i] ^= 0x10U;
      check(false, "one byte changed", i);
      b[i] ^= 0x10U;
    }
  }
  mc::checked();
}
#endif
#endif

}  // namespace
