// S08: big endian images.  -DPART=1 byte order helpers, -DPART=2 images
#if PART == 1
#include "mc.h"

#include <cstring>

#include "cista/endian/conversion.h"

namespace {

using cista::mode;

template <typename T>
T reference(T const x) {
  unsigned char a[sizeof(T)], b[sizeof(T)];
  std::memcpy(a, &x, sizeof(T));
  for (auto i = 0U; i != sizeof(T); ++i) {
    b[i] = a[sizeof(T) - 1U - i];
  }
  T r;
  std::memcpy(&r, b, sizeof(T));
  return r;
}

template <typename T>
void one(T const x) {
  auto const r = reference(x);
  if (std::memcmp(&r, &x, sizeof(T)) == 0 && sizeof(T) == 1U) {
    MC_CHECK(cista::endian_swap(x) == x, "swap", "single byte changed");
  }
  auto const s = cista::endian_swap(x);
  MC_CHECK(s == r, "swap", "width %zu: %llx -> %llx", sizeof(T), (unsigned long long)x, (unsigned long long)s);
  MC_CHECK(cista::endian_swap(s) == x, "inverse", "width %zu: %llx", sizeof(T), (unsigned long long)x);
  MC_CHECK(cista::convert_endian<mode::NONE>(x) == x, "native", "%llx", (unsigned long long)x);
  MC_CHECK(cista::convert_endian<mode::SERIALIZE_BIG_ENDIAN>(x) == r, "big", "%llx", (unsigned long long)x);
  MC_CHECK((cista::convert_endian<mode::SERIALIZE_BIG_ENDIAN | mode::WITH_INTEGRITY | mode::WITH_VERSION>(x)) == r, "big", "%llx", (unsigned long long)x);
}

template <typename T>
void range(std::uint64_t const lo, std::uint64_t const hi) {
  for (auto i = lo; i != hi; ++i) {
    one(static_cast<T>(i));
  }
}

MC_SCENARIO("all values of 8 and 16 bits", 1, 1) {
  switch (mc::choose(5)) {
    case 0: range<std::uint8_t>(0, 256); mc::checked(256); break;
    case 1: range<std::int8_t>(0, 256); mc::checked(256); break;
    case 2: range<std::uint16_t>(0, 65536); mc::checked(65536); break;
    case 3: range<std::int16_t>(0, 65536); mc::checked(65536); break;
    case 4: range<char16_t>(0, 65536); mc::checked(65536); break;
  }
}

MC_SCENARIO("all values of 32 bits", 0, 1) {
  if (mc::bound() == 0) {  // quick: one slice of 2^20 values for each top byte
    auto const top = static_cast<std::uint64_t>(mc::choose(256)) << 24U;
    range<std::uint32_t>(top, top + 0x4000U);
    range<std::uint32_t>(top + 0xFFC000U, top + 0x1000000U);
    range<std::int32_t>(top, top + 0x4000U);
    mc::checked(0xC000);
  } else {
    auto const top = static_cast<std::uint64_t>(mc::choose(256)) << 24U;
    range<std::uint32_t>(top, top + 0x1000000U);
    range<std::int32_t>(top, top + 0x1000000U);
    mc::checked(0x2000000);
  }
}

// every pair of byte positions x every pair of byte values, on three backgrounds
MC_SCENARIO("64 bit values, byte pairs", 1, 1) {
  auto const i = mc::choose(8), j = mc::choose(8);
  for (auto const bg : {std::uint64_t{0}, ~std::uint64_t{0}, std::uint64_t{0x0102040810204080ULL}}) {
    for (auto a = 0U; a != 256U; ++a) {
      for (auto b = 0U; b != 256U; ++b) {
        auto x = bg;
        x &= ~(0xFFULL << (8 * i));
        x |= static_cast<std::uint64_t>(a) << (8 * i);
        x &= ~(0xFFULL << (8 * j));
        x |= static_cast<std::uint64_t>(b) << (8 * j);
        one(x);
        one(static_cast<std::int64_t>(x));
      }
    }
  }
  mc::checked(6 * 65536);
}

#else

#include "roots.h"

namespace roots {
struct R_wide {  // more than 255 alternatives: two byte index
  template <int... I>
  static cista::variant<cista::strong<std::uint16_t, std::integral_constant<int, I>>..., data::string> v(
      std::integer_sequence<int, I...>);
  using var = decltype(v(std::make_integer_sequence<int, 258>{}));
  std::uint8_t pad_{};
  var a_{};
  data::vector<var> b_{};
  KIT_EACH(pad_, a_, b_)
};
}  // namespace roots

namespace {

using R = roots::ROOT;
using cista::mode;
constexpr auto const BE = mode::SERIALIZE_BIG_ENDIAN;
#ifdef NO_VERSION
#ifdef NO_STATIC_VERSION
constexpr auto const VER = mode::NONE;
#else
constexpr auto const VER = mode::WITH_STATIC_VERSION;
#endif
#else
constexpr auto const VER = mode::WITH_VERSION;
#endif
constexpr auto const I = mode::WITH_INTEGRITY;

template <typename T>
void generate(T& v) {
  if constexpr (std::is_same_v<T, roots::R_wide>) {
#ifdef WIDE
    auto put = [](auto& x) {
      switch (mc::choose(5)) {
        case 0: x.template emplace<0>(std::uint16_t{0x1234}); break;
        case 1: x.template emplace<255>(std::uint16_t{0x1234}); break;
        case 2: x.template emplace<256>(std::uint16_t{0x1234}); break;
        case 3: x.template emplace<257>(std::uint16_t{0x1234}); break;
        case 4: x = data::string{"a string that does not fit inline"}; break;
      }
    };
    put(v.a_);
    v.b_.resize(2);
    put(v.b_[0]);
    put(v.b_[1]);
#endif
  } else {
    auto g = kit::G{};
    g.level = mc::bound();
    g(v);
  }
}

template <mode M, typename Bytes>
std::string read(Bytes const& bytes, std::vector<std::pair<std::size_t, unsigned>>* fields, std::vector<unsigned char>* left) {
  auto img = kit::image::of(bytes);
  R const* el = nullptr;
  try {
    el = cista::deserialize<R, M>(img.begin(), img.end());
  } catch (std::exception const& e) {
    MC_CHECK(false, "rejected", "valid image rejected: %s", e.what());
  }
  kit::W w;
  w.bounded = true;
  w.lo = reinterpret_cast<std::uintptr_t>(img.begin());
  w.hi = reinterpret_cast<std::uintptr_t>(img.end());
  std::vector<kit::W::field> f;
  if (fields != nullptr) {
    w.ints = &f;
  }
  try {
    w(*el);
  } catch (kit::out_of_bounds const&) {
    MC_CHECK(false, "bounds", "%s (dump %.300s)", w.error, w.out.c_str());
  }
  if (fields != nullptr) {
    auto s = std::set<std::pair<std::size_t, unsigned>>{};
    for (auto const& x : f) {
      MC_CHECK(x.p >= img.begin() && x.p + x.w <= img.end(), "harness", "field outside of the image");
      s.emplace(static_cast<std::size_t>(x.p - img.begin()), x.w);
    }
    fields->assign(s.begin(), s.end());
  }
  if (left != nullptr) {
    left->assign(img.begin(), img.end());
  }
  return w.out;
}

template <mode M>
void images(char const* what) {
  mc::op("generate");
  auto v = std::make_unique<R>();
  generate(*v);
  auto const before = kit::dump(*v);
  mc::logf("%s value: %.900s", what, before.c_str());
  mc::op("serialize");
  auto const n = cista::serialize<M>(*v);
  auto const b = cista::serialize<M | BE>(*v);
  MC_CHECK(kit::dump(*v) == before, "modified", "serialization modified the value");
  MC_CHECK(n.size() == b.size(), "size", "%s: native %zu big endian %zu", what, n.size(), b.size());
  mc::op("deserialize");
  std::vector<std::pair<std::size_t, unsigned>> fields;
  std::vector<unsigned char> left;
  auto const dn = read<M>(n, &fields, nullptr);
  MC_CHECK(dn == before, "value", "native: got %.600s exp %.600s", dn.c_str(), before.c_str());
  auto const db = read<M | BE>(b, nullptr, &left);
  MC_CHECK(db == before, "value", "big endian: got %.600s exp %.600s", db.c_str(), before.c_str());
  auto const dd = read<M | BE | mode::DEEP_CHECK>(b, nullptr, nullptr);
  MC_CHECK(dd == before, "value", "big endian, deep: got %.600s exp %.600s", dd.c_str(), before.c_str());

  // expected image: the native one with exactly the integer fields reversed
  std::vector<unsigned char> exp(&n[0], &n[0] + n.size());
  auto swap = [&](std::size_t const at, unsigned const w) { std::reverse(exp.begin() + at, exp.begin() + at + w); };
  for (auto const& f : fields) {
    swap(f.first, f.second);
  }
  auto at = std::size_t{0};
  if ((M & (mode::WITH_VERSION | mode::WITH_STATIC_VERSION)) != mode::NONE) {
    swap(0, 8);
    at += 8;
  }
  auto const header = at;
  if ((M & I) == I) {
    auto h = cista::hash(std::string_view{reinterpret_cast<char const*>(&b[0]) + at + 8, b.size() - at - 8}, cista::BASE_HASH);
    for (auto i = 0U; i != 8U; ++i) {
      exp[at + 7U - i] = static_cast<unsigned char>(h & 0xFFU);
      h >>= 8U;
    }
    at += 8;
  }
  for (auto i = std::size_t{0}; i != exp.size(); ++i) {
    MC_CHECK(exp[i] == b[i], "bytes", "%s: byte %zu of %zu is %02x, expected %02x (native %02x)", what, i, exp.size(), b[i], exp[i], n[i]);
  }
#ifdef OFFSET_IMAGE
  // the conversion in place yields the native image again
  for (auto i = at; i != exp.size(); ++i) {
    MC_CHECK(left[i] == n[i], "in_place", "%s: byte %zu after deserialization is %02x, native %02x", what, i, left[i], n[i]);
  }
#endif
  (void)header;
  mc::checked(exp.size());
  mc::state(mc::H{}(std::hash<std::string>{}(before)));
}

MC_SCENARIO("big endian image of every shape", 2, 2) {
  switch (mc::choose(2)) {
    case 0: images<mode::NONE>("plain"); break;
    case 1: images<(VER | I)>("headers"); break;
  }
}

// headers of one type must not be accepted in the other byte order
MC_SCENARIO("images of the other byte order", 1, 2) {
  auto v = std::make_unique<R>();
  generate(*v);
  auto const n = cista::serialize<VER | I>(*v);
  auto const b = cista::serialize<VER | I | BE>(*v);
  auto rejected = [&](auto const& bytes, auto m, char const* what) {
    constexpr auto const M = decltype(m)::value;
    auto img = kit::image::of(bytes);
    auto thrown = false;
    try {
      cista::deserialize<R, M>(img.begin(), img.end());
    } catch (std::exception const&) {
      thrown = true;
    }
    MC_CHECK(thrown, "accepted", "%s", what);
  };
  rejected(n, std::integral_constant<mode, (VER | I | BE)>{}, "native image read as big endian");
  rejected(b, std::integral_constant<mode, (VER | I)>{}, "big endian image read as native");
  mc::checked();
}

}  // namespace
#endif
#if PART == 1
}  // namespace
#endif
