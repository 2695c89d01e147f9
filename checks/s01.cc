// S01: serialize -> deserialize gives an equal value inside the buffer only.
// -DFLAVOUR=raw|offset -DROOT=<type in roots.h>
#include "roots.h"

namespace {

using R = roots::ROOT;
using cista::mode;

constexpr auto const V = mode::WITH_VERSION;
constexpr auto const SV = mode::WITH_STATIC_VERSION;
constexpr auto const I = mode::WITH_INTEGRITY;
constexpr auto const BE = mode::SERIALIZE_BIG_ENDIAN;
constexpr auto const DEEP = mode::DEEP_CHECK;
constexpr auto const UNC = mode::UNCHECKED;
constexpr auto const SKV = mode::SKIP_VERSION;
constexpr auto const SKI = mode::SKIP_INTEGRITY;

// not every type supports both versioning modes (rejected at compile time)
#ifdef NO_VERSION
constexpr auto const VER1 = mode::NONE;
#else
constexpr auto const VER1 = V;
#endif
#ifdef NO_STATIC_VERSION
constexpr auto const VER2 = mode::NONE;
#else
constexpr auto const VER2 = SV;
#endif

bool is_be(mode const m) { return cista::is_mode_enabled(m, BE); }

template <mode DM, typename Bytes>
void access(Bytes const& bytes, std::string const& before, bool const in_place,
            char const* how) {
  auto const img = kit::image::of(bytes);
  auto const lo = img.begin(), hi = img.end();
  R const* el = nullptr;
  try {
    if constexpr (kit::is_offset_flavour() &&
                  !cista::endian_conversion_necessary<DM>()) {
      // the same image through constant memory
      auto const ro = kit::image{img};
      R const* c = cista::deserialize<R, DM>(
          static_cast<std::uint8_t const*>(ro.begin()),
          static_cast<std::uint8_t const*>(ro.end()));
      char const* err = nullptr;
      auto const d = kit::dump_in(*c, ro.begin(), ro.end(), &err);
      MC_CHECK(err == nullptr, "const:bounds", "%s (const): %s", how, err);
      MC_CHECK(d == before, "const:value", "%s (const):\n got %.600s\n exp %.600s",
               how, d.c_str(), before.c_str());
    }
    el = cista::deserialize<R, DM>(lo, hi);
  } catch (std::exception const& e) {
    MC_CHECK(false, "rejected", "%s: valid image rejected: %s", how, e.what());
  }
  char const* err = nullptr;
  auto const d = kit::dump_in(*el, lo, hi, &err);
  MC_CHECK(err == nullptr, "bounds", "%s: %s (dump %.300s)", how, err, d.c_str());
  MC_CHECK(d == before, "value", "%s:\n got %.900s\n exp %.900s", how, d.c_str(),
           before.c_str());
  if (in_place) {
    MC_CHECK(std::memcmp(lo, &bytes[0], img.size()) == 0, "image",
             "%s: deserialization in place changed an offset image", how);
  }
  mc::step();
}

template <mode SM>
auto make_image(std::string* before) {
  mc::op("generate");
  auto v = std::make_unique<R>();
  auto g = kit::G{};
  g.level = mc::bound();
  g(*v);
  *before = kit::dump(*v);
  mc::logf("value: %.900s", before->c_str());
  std::vector<unsigned char> raw(sizeof(R));
  std::memcpy(raw.data(), v.get(), sizeof(R));
  mc::op("serialize");
  auto bytes = cista::serialize<SM>(*v);
  auto const after = kit::dump(*v);
  MC_CHECK(after == *before, "modified", "serialization modified the value");
  MC_CHECK(std::memcmp(raw.data(), v.get(), sizeof(R)) == 0, "modified",
           "serialization modified the object");
  mc::op("destroy original");
  v.reset();
  mc::op("deserialize");
  return bytes;
}

template <mode SM, mode DM>
void trip(char const* how) {
  auto before = std::string{};
  auto const b = make_image<SM>(&before);
  access<DM>(b, before, kit::is_offset_flavour() && !is_be(DM), how);
  mc::checked();
  mc::state(mc::H{}(std::hash<std::string>{}(before)));
}

#define TRIP(S, D) trip<(S), (D)>(#S " -> " #D)

MC_SCENARIO("round trip of every shape", 2, 2) {
#ifndef NO_BE
  constexpr auto kN = 6;
#else
  constexpr auto kN = 4;
#endif
  switch (mc::choose(kN)) {
    case 0: TRIP(mode::NONE, mode::NONE); break;
    case 1: TRIP(mode::NONE, DEEP); break;
    case 2:
      if constexpr (kit::is_offset_flavour()) {
        TRIP(mode::NONE, mode::CAST);
      } else {
        TRIP(mode::NONE, UNC);
      }
      break;
    case 3: TRIP(VER1 | I, VER1 | I | DEEP); break;
#ifndef NO_BE
    case 4: TRIP(BE | VER2 | I, BE | VER2 | I | DEEP); break;
    case 5: TRIP(BE, BE | UNC); break;
#endif
  }
}

#ifdef MATRIX
// every serialization mode x every compatible access mode
template <mode SM>
void all_access() {
  auto before = std::string{};
  auto const b = make_image<SM>(&before);
  constexpr auto const off = kit::is_offset_flavour();
  constexpr auto const be = cista::is_mode_enabled(SM, BE);
  constexpr auto const skv =
      cista::is_mode_enabled(SM, V) || cista::is_mode_enabled(SM, SV);
  constexpr auto const ski = cista::is_mode_enabled(SM, I);
  constexpr auto const base = be ? BE : mode::NONE;
  // header handling: as written, or skipped
  constexpr auto const v1 = SM;
  constexpr auto const v2 = base | (skv ? SKV : mode::NONE) |
                            (ski ? SKI : mode::NONE);
  constexpr auto const v3 =
      base |
      (skv ? (cista::is_mode_enabled(SM, V) ? V : SV) : mode::NONE) |
      (ski ? SKI : mode::NONE);
  constexpr auto const v4 =
      base | (skv ? SKV : mode::NONE) | (ski ? I : mode::NONE);
  auto const in_place = off && !be;
  auto three = [&](auto m) {
    constexpr auto const M = decltype(m)::value;
    access<M>(b, before, in_place, "matrix");
    access<M | DEEP>(b, before, in_place, "matrix deep");
    access<M | UNC>(b, before, in_place, "matrix unchecked");
    if constexpr (off && !be) {
      access<M | mode::CAST>(b, before, in_place, "matrix cast");
    }
  };
  switch (mc::choose(4)) {
    case 0: three(std::integral_constant<mode, v1>{}); break;
    case 1: three(std::integral_constant<mode, v2>{}); break;
    case 2: three(std::integral_constant<mode, v3>{}); break;
    case 3: three(std::integral_constant<mode, v4>{}); break;
  }
  // container and string_view entry points
  auto copy = b;
  char const* err = nullptr;
  auto* el = cista::deserialize<R, SM>(copy);
  auto d = kit::dump_in(*el, &copy[0], &copy[0] + copy.size(), &err);
  MC_CHECK(err == nullptr && d == before, "container", "container access");
  if constexpr (off && !be) {
    auto const img = kit::image::of(b);
    auto const sv = std::string_view{reinterpret_cast<char const*>(img.begin()),
                                     img.size()};
    auto const* e2 = cista::deserialize<R, SM>(sv);
    d = kit::dump_in(*e2, img.begin(), img.end(), &err);
    MC_CHECK(err == nullptr && d == before, "string_view", "string_view access");
    auto const* e3 = cista::deserialize<R, SM>(sv.data(), sv.data() + sv.size());
    MC_CHECK(static_cast<void const*>(e3) == e2, "char", "char pointers");
    auto const cc = b;
    auto* e5 = cista::deserialize<R, SM>(cc);
    d = kit::dump_in(*e5, &cc[0], &cc[0] + cc.size(), &err);
    MC_CHECK(err == nullptr && d == before, "container", "const container");
    auto c3 = b;
    auto* e4 = cista::unchecked_deserialize<R, SM>(c3);
    d = kit::dump_in(*e4, &c3[0], &c3[0] + c3.size(), &err);
    MC_CHECK(err == nullptr && d == before, "unchecked", "unchecked_deserialize");
  }
  mc::checked();
}

MC_SCENARIO("mode matrix", 1, 2) {
  switch (mc::choose(12)) {
    case 0: all_access<mode::NONE>(); break;
    case 1: all_access<V>(); break;
    case 2: all_access<SV>(); break;
    case 3: all_access<I>(); break;
    case 4: all_access<V | I>(); break;
    case 5: all_access<SV | I>(); break;
    case 6: all_access<BE>(); break;
    case 7: all_access<BE | V>(); break;
    case 8: all_access<BE | SV>(); break;
    case 9: all_access<BE | I>(); break;
    case 10: all_access<BE | V | I>(); break;
    case 11: all_access<BE | SV | I>(); break;
  }
}

#endif

}  // namespace
