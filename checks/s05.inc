// S05: images are only accepted for the type they were written with.
#include "cista/mmap.h"
#include "cista/targets/buf.h"
#include "cista/targets/file.h"

namespace {

constexpr auto const kRows = static_cast<int>(sizeof(rows) / sizeof(rows[0]));

struct aligned_image {
  explicit aligned_image(cista::byte_buf const& b) : n_{b.size()} {
    p_ = static_cast<std::uint8_t*>(::operator new(n_ + 1U, std::align_val_t{64}));
    std::memcpy(p_, b.data(), n_);
  }
  ~aligned_image() { ::operator delete(p_, std::align_val_t{64}); }
  aligned_image(aligned_image const&) = delete;
  std::uint8_t* p_;
  std::size_t n_;
};

// index of image writer / readers that verify the version / reader that skips
struct combo {
  char const* name_;
  int writer_, readers_[2], skip_;
};
constexpr combo const combos[] = {{"WITH_VERSION", 0, {0, 4}, 6},
                                  {"WITH_STATIC_VERSION", 1, {1, 5}, 6},
                                  {"WITH_VERSION|WITH_INTEGRITY", 2, {2, 2}, -1}};

void pairs() {
  auto const& c = combos[mc::choose(3)];
  auto const i = mc::choose(kRows);
  auto const& a = rows[i];
  mc::op("serialize");
  auto const img = a.image_[c.writer_]();
  mc::logf("image of %s, %s", a.name_, c.name_);
  mc::state(mc::H{}(c.name_).bytes(img.data(), std::min<std::size_t>(img.size(), 16U)));
  mc::op("deserialize");
  row const* nesting = nullptr;
  for (auto j = 0; j != kRows; ++j) {
    auto const& b = rows[j];
    for (auto const r : c.readers_) {
      aligned_image x{img};
      auto const ok = b.read_[r](x.p_, x.p_ + x.n_) == 0;
      if (i == j) {
        MC_CHECK(ok, "rejected", "image of %s rejected for its own type", a.name_);
      } else if (a.color_ != b.color_) {
        MC_CHECK(!ok || a.flat_ == b.flat_, "accepted", "image of %s accepted as %s", a.name_, b.name_);
        nesting = ok ? &b : nesting;
      }
    }
    mc::checked();
  }
  if (c.skip_ != -1) {
    aligned_image x{img};
    MC_CHECK(a.read_[c.skip_](x.p_, x.p_ + x.n_) == 0, "skip",
             "SKIP_VERSION rejects an image of the same type %s", a.name_);
  }
  mc::step();
  MC_CHECK(nesting == nullptr, "nesting", "image of %s accepted as %s (ends of nested types)", a.name_, nesting->name_);
}

// The marker decides: every other value of every byte of it is rejected, as is
// every image that does not contain a complete one.
void marker() {
  auto const& c = combos[mc::choose(3)];
  auto const i = mc::choose(kRows);
  auto const& a = rows[i];
  mc::op("serialize");
  auto const img = a.image_[c.writer_]();
  mc::logf("image of %s, %s", a.name_, c.name_);
  mc::op("deserialize");
  for (auto const r : c.readers_) {
    for (auto k = 0U; k != sizeof(cista::hash_t); ++k) {
      for (auto v = 1U; v != 256U; ++v) {
        if (!mc::thorough() && (v & (v - 1U)) != 0U && v != 255U) {
          continue;  // quick: single bits and the complement
        }
        aligned_image x{img};
        x.p_[k] = static_cast<std::uint8_t>(x.p_[k] ^ v);
        MC_CHECK(a.read_[r](x.p_, x.p_ + x.n_) != 0, "marker",
                 "image of %s with a modified version (byte %u) was accepted", a.name_, k);
        mc::checked();
      }
    }
    for (auto n = 0U; n <= sizeof(cista::hash_t); ++n) {
      aligned_image x{img};
      MC_CHECK(a.read_[r](x.p_, x.p_ + n) != 0, "truncated",
               "%u bytes of an image of %s were accepted", n, a.name_);
      mc::checked();
    }
  }
  mc::step();
  mc::state(mc::H{}(c.name_)(i));
}

// The same marker in repeated runs, for each target and byte order.
struct plain {
  std::uint32_t a_{1};
  data::string s_{"0123456789abcdefghij", data::string::owning};
  data::vector<std::uint64_t> v_{{1, 2, 3}};
};

template <cista::mode M>
void targets() {
  plain p;
  auto const whole = cista::serialize<M>(p);
  auto const f = "f" + std::to_string(getpid());
  mc::op("serialize");
  switch (mc::choose(3)) {
    case 0: {
      cista::file x{f.c_str(), "w+"};
      cista::serialize<M>(x, p);
      break;
    }
    case 1: {
      cista::buf<cista::mmap> x{cista::mmap{f.c_str(), cista::mmap::protection::WRITE}};
      cista::serialize<M>(x, p);
      break;
    }
    case 2: {
      cista::buf<std::vector<std::uint8_t>> x;
      cista::serialize<M>(x, p);
      auto* o = fopen(f.c_str(), "wb");
      fwrite(x.buf_.data(), x.buf_.size(), 1, o);
      fclose(o);
      break;
    }
  }
  std::uint64_t m = 0;
  auto* in = fopen(f.c_str(), "rb");
  auto const n = fread(&m, sizeof(m), 1, in);
  fclose(in);
  unlink(f.c_str());
  MC_CHECK(n == 1U && std::memcmp(&m, whole.data(), sizeof(m)) == 0, "target", "targets write different version markers");
  using cista::mode;
  auto const h = (M & mode::WITH_VERSION) == mode::WITH_VERSION ? cista::type_hash<plain>() : cista::static_type_hash<plain>();
  MC_CHECK(m == ((M & mode::SERIALIZE_BIG_ENDIAN) == mode::SERIALIZE_BIG_ENDIAN ? __builtin_bswap64(h) : h), "value",
           "version marker is not the type hash in the chosen byte order");
  mc::checked();
  mc::step();
  mc::state(mc::H{}(m));
}

// same names, other pointer representation
namespace r {
struct t1 { cista::raw::vector<std::uint32_t> v_; };
struct t2 { cista::raw::ptr<std::uint32_t> p_; };
struct t3 { cista::raw::string s_; };
struct t4 { cista::raw::unique_ptr<std::uint32_t> p_; };
}
namespace o {
struct t1 { cista::offset::vector<std::uint32_t> v_; };
struct t2 { cista::offset::ptr<std::uint32_t> p_; };
struct t3 { cista::offset::string s_; };
struct t4 { cista::offset::unique_ptr<std::uint32_t> p_; };
}
template <typename A, typename B>
void flavour(char const* what) {
  using V = cista::mode;
  A a{};
  mc::op("deserialize");
  auto const img = cista::serialize<V::WITH_VERSION>(a);
  auto const img2 = cista::serialize<V::WITH_STATIC_VERSION>(a);
  aligned_image x{img}, y{img2};
  auto const ok = ops<B>::template read<md::U>(x.p_, x.p_ + x.n_) == 0;
  auto const ok2 = ops<B>::template read<md::S>(y.p_, y.p_ + y.n_) == 0;
  MC_CHECK(!ok && !ok2, "flavour", "%s image accepted", what);
  mc::checked();
  mc::step();
}

}  // namespace

MC_SCENARIO("pairs of types", 0, 0) { pairs(); }
MC_SCENARIO("version marker", 0, 0) { marker(); }
#ifdef EXTRA
MC_SCENARIO("targets and byte order", 0, 0) {
  switch (mc::choose(6)) {
    case 0: targets<md::V>(); break;
    case 1: targets<md::S>(); break;
    case 2: targets<md::V | md::I>(); break;
    case 3: targets<md::V | md::B>(); break;
    case 4: targets<md::S | md::B>(); break;
    case 5: targets<md::S | md::B | md::I>(); break;
  }
}
MC_SCENARIO("raw and offset", 0, 0) {
  switch (mc::choose(8)) {
    case 0: flavour<r::t1, o::t1>("raw vector"); break;
    case 1: flavour<r::t2, o::t2>("raw pointer"); break;
    case 2: flavour<r::t3, o::t3>("raw string"); break;
    case 3: flavour<r::t4, o::t4>("raw unique_ptr"); break;
    case 4: flavour<o::t1, r::t1>("offset vector"); break;
    case 5: flavour<o::t2, r::t2>("offset pointer"); break;
    case 6: flavour<o::t3, r::t3>("offset string"); break;
    case 7: flavour<o::t4, r::t4>("offset unique_ptr"); break;
  }
}
#endif
