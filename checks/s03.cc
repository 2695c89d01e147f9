// S03: every output target produces the same, aligned, complete image.
// -DPART=1: operation sequences on the targets vs a byte array
// -DPART=2 -DFLAVOUR -DROOT: images of values
#include "iofault.h"

#if PART == 2
#include "roots.h"
#else
#include "mc.h"

#include "cista/containers.h"
#include "cista/serialization.h"
#endif
#include "cista/mmap.h"
#include "cista/targets/buf.h"
#include "cista/targets/file.h"

namespace {

using bytes = std::vector<unsigned char>;

// scratch directory of the current execution (workers are forked)
io::dir const* D = nullptr;
struct scratch {
  scratch() { D = &d_; }
  ~scratch() { D = nullptr; }
  io::dir d_;
};

std::string path(char const* n) { return D->file(n); }

bool same(bytes const& a, bytes const& b, std::size_t* at) {
  for (*at = 0; *at != std::min(a.size(), b.size()); ++*at) {
    if (a[*at] != b[*at]) {
      return false;
    }
  }
  return a.size() == b.size();
}

#define SAME(got, exp, key, what)                                              \
  do {                                                                         \
    auto at = std::size_t{0};                                                  \
    MC_CHECK(same(got, exp, &at), key,                                         \
             "%s: size %zu expected %zu, first difference at %zu", what,       \
             (got).size(), (exp).size(), at);                                  \
  } while (0)

#if PART == 1
// --------------------------------------------------------------- operations
struct model {
  bytes b_;
  cista::offset_t write(void const* p, std::size_t n, std::size_t align) {
    if (align > 1U) {
      while (b_.size() % align != 0U) {
        b_.push_back(0U);
      }
    }
    auto const at = b_.size();
    auto const* c = static_cast<unsigned char const*>(p);
    b_.insert(b_.end(), c, c + n);
    return static_cast<cista::offset_t>(at);
  }
};

struct T8 {
  std::uint8_t x_[3];
};

template <typename Targets>
struct run {
  model m;
  std::uint8_t next{1};

  template <typename T>
  void overwrite(Targets& t, std::size_t const pos) {
    T v;
    auto* p = reinterpret_cast<std::uint8_t*>(&v);
    for (auto i = 0U; i != sizeof(T); ++i) {
      p[i] = static_cast<std::uint8_t>(next++ | 0x80U);
    }
    mc::logf("overwrite %zu bytes at %zu", sizeof(T), pos);
    std::memcpy(&m.b_[pos], &v, sizeof(T));
    t.each([&](auto& x, char const*) { x.write(pos, v); });
  }

  void append(Targets& t, std::size_t const n, std::size_t const align) {
    bytes d(n);
    for (auto& x : d) {
      x = next++;
      next = next == 0U ? 1U : next;
    }
    mc::logf("append %zu bytes aligned %zu", n, align);
    auto const e = m.write(d.data(), n, align);
    t.each([&](auto& x, char const* name) {
      // exact allocation: ASan sees reads past the source
      auto const r = x.write(d.data(), n, align);
      MC_CHECK(r == e, "offset", "%s: reported offset %lld, bytes are at %lld",
               name, static_cast<long long>(r), static_cast<long long>(e));
    });
  }

  void checksum(Targets& t, std::size_t const from) {
    mc::logf("checksum from %zu", from);
    auto const e = cista::hash(std::string_view{
        reinterpret_cast<char const*>(m.b_.data() + from), m.b_.size() - from});
    t.each([&](auto& x, char const* name) {
      auto const r = x.checksum(static_cast<cista::offset_t>(from));
      MC_CHECK(r == e, "checksum", "%s: checksum of bytes from %zu is not the hash of the image's bytes", name, from);
    });
  }

  void compare(Targets& t) {
    t.content([&](bytes const& b, char const* name) {
      SAME(b, m.b_, "content", name);
    });
    mc::step();
  }

  void op(Targets& t, bool const wide) {
    switch (mc::choose(3)) {
      case 0: {
        constexpr std::size_t const kN[] = {0, 1, 3, 8, 2, 16, 33};
        constexpr std::size_t const kA[] = {0, 1, 8, 2, 64, 4, 16, 32};
        auto const n = kN[mc::choose(wide ? 7 : 4)];
        auto const a = kA[mc::choose(wide ? 8 : 5)];
        append(t, n, a);
        break;
      }
      case 1: {
        mc::op("overwrite");
        auto const sz = m.b_.size();
        if (sz == 0U) {
          return;
        }
        switch (mc::choose(wide ? 5 : 3)) {
          case 0: overwrite<std::uint8_t>(t, sz - 1U); break;
          case 1:
            if (sz >= 8U) {
              overwrite<std::uint64_t>(t, sz - 8U);
            } else {
              overwrite<std::uint8_t>(t, 0U);
            }
            break;
          case 2:
            if (sz >= 3U) {
              overwrite<T8>(t, (sz - 3U) / 2U);
            } else {
              overwrite<bool_>(t, 0U);
            }
            break;
          case 3:
            if (sz >= 4U) {
              overwrite<std::uint32_t>(t, 0U);
            }
            break;
          case 4:
            if (sz >= 2U) {
              overwrite<std::uint16_t>(t, sz - 2U);
            }
            break;
        }
        break;
      }
      case 2:
        mc::op("checksum");
        if (m.b_.empty()) {
          return;
        }
        checksum(t, mc::choose(2) == 0 ? 0U : m.b_.size() - 1U);
        break;
    }
  }
  using bool_ = std::uint8_t;
};

// the targets in lockstep
struct targets {
  cista::buf<> a_{};
  std::unique_ptr<cista::buf<cista::mmap>> b_{};
  std::unique_ptr<cista::file> c_{};

  targets() {
    b_ = std::make_unique<cista::buf<cista::mmap>>(cista::mmap{path("a").c_str()});
    c_ = std::make_unique<cista::file>(path("b").c_str(), "w+");
  }
  template <typename F>
  void each(F&& f) {
    mc::op("memory buffer");
    f(a_, "memory buffer");
    mc::op("mapped buffer");
    f(*b_, "mapped buffer");
    mc::op("file");
    f(*c_, "file");
  }
  template <typename F>
  void content(F&& f) {
    f(bytes(a_.buf_.begin(), a_.buf_.end()), "memory buffer");
    f(b_->size() == 0U ? bytes{} : bytes(b_->buf_.begin(), b_->buf_.end()), "mapped buffer");
    std::fflush(c_->f_);
    f(io::read_all(path("b")), "file");
    MC_CHECK(c_->size_ == c_->size(), "content", "file: size_ differs from the size of the file");
  }
  template <typename F>
  void finish(F&& f) {
    mc::op("close");
    b_.reset();
    c_.reset();
    f(io::read_all(path("a")), "mapped file after closing");
    f(io::read_all(path("b")), "file after closing");
  }
};

MC_SCENARIO("write, overwrite and checksum sequences", 3, 4) {
  scratch const sc;
  io::world w;
  w.active = true;
  io::W = &w;
  {
    targets t;
    run<targets> r;
    auto const first = mc::choose(3);
    if (first == 1) {
      r.append(t, 8U, 0U);
    } else if (first == 2) {
      r.append(t, 61U, 0U);
      r.append(t, 5U, 8U);
    }
    for (auto i = 0; i != mc::bound(); ++i) {
      if (mc::choose(2) == 0 && i > 0) {
        break;
      }
      r.op(t, mc::thorough() && i + 1 < mc::bound());
      r.compare(t);
    }
    t.finish([&](bytes const& b, char const* name) { SAME(b, r.m.b_, "content", name); });
    mc::state(mc::H{}(r.m.b_.size())(r.next));
  }
  MC_CHECK(w.error.empty() && w.maps.empty() && w.files.empty(), "handles", "handles: %s", w.error.c_str());
  io::W = nullptr;
  mc::checked();
}

// every alignment at every current size
MC_SCENARIO("every alignment at every size", 1, 1) {
  scratch const sc;
  targets t;
  run<targets> r;
  auto const pre = static_cast<std::size_t>(mc::choose(70));
  auto const align = std::size_t{1} << static_cast<unsigned>(mc::choose(8));
  auto const n = static_cast<std::size_t>(mc::choose(2)) * 5U;
  r.append(t, pre, 0U);
  r.append(t, n, align);
  r.append(t, 3U, align);
  r.compare(t);
  t.finish([&](bytes const& b, char const* name) { SAME(b, r.m.b_, "content", name); });
  mc::checked();
}

// block boundaries of the implementation: chunked checksum, page sizes
MC_SCENARIO("large blocks and checksum chunk boundaries", 1, 1) {
  scratch const sc;
  targets t;
  run<targets> r;
  constexpr std::size_t const kS[] = {4095, 4096, 4097, 8191, 8192, 8193, 524287, 524288, 524289, 1048576, 1048577};
  auto const s = kS[mc::choose(11)];
  auto const head = static_cast<std::size_t>(mc::choose(3)) * 8U;
  r.append(t, head, 0U);
  r.append(t, s, 8U);
  r.checksum(t, head);
  r.checksum(t, 0U);
  r.append(t, 1U, 16U);
  r.checksum(t, 1U);
  r.overwrite<std::uint64_t>(t, s / 2U);
  r.checksum(t, head);
  r.append(t, 4U, 4U);
  r.compare(t);
  t.finish([&](bytes const& b, char const* name) { SAME(b, r.m.b_, "content", name); });
  mc::checked();
}

// a buffer that is reset holds what a new one would hold
MC_SCENARIO("buffers used again after reset", 2, 3) {
  scratch const sc;
  cista::buf<> a;
  auto b = cista::buf<cista::mmap>{cista::mmap{path("a").c_str()}};
  for (auto round = 0; round != 2; ++round) {
    model m;
    std::uint8_t next = 1U;
    for (auto i = 0; i != mc::bound(); ++i) {
      constexpr std::size_t const kN[] = {1, 9, 40};
      constexpr std::size_t const kA[] = {0, 8, 16};
      auto const n = kN[mc::choose(3)];
      auto const al = kA[mc::choose(3)];
      bytes d(n);
      for (auto& x : d) {
        x = next++;
      }
      auto const e = m.write(d.data(), n, al);
      mc::op("memory buffer");
      MC_CHECK(a.write(d.data(), n, al) == e, "offset", "memory buffer: offset");
      mc::op("mapped buffer");
      MC_CHECK(b.write(d.data(), n, al) == e, "offset", "mapped buffer: offset");
    }
    auto const ga = bytes(a.buf_.begin(), a.buf_.end());
    auto const gb = bytes(b.buf_.begin(), b.buf_.end());
    SAME(ga, m.b_, "reset", "memory buffer");
    SAME(gb, m.b_, "reset", "mapped buffer");
    for (auto i = std::size_t{0}; i != m.b_.size(); ++i) {
      MC_CHECK(a[i] == m.b_[i] && *b.addr(static_cast<cista::offset_t>(i)) == m.b_[i], "reset", "access");
    }
    mc::op("reset");
    a.reset();
    b.reset();
    MC_CHECK(a.size() == 0U && b.size() == 0U, "reset", "size after reset");
    mc::step();
  }
  mc::checked();
}
#endif

#if PART == 2
// ------------------------------------------------------------------- values
using R = roots::ROOT;
using cista::mode;
constexpr auto const V = mode::WITH_VERSION;
constexpr auto const SV = mode::WITH_STATIC_VERSION;
constexpr auto const I = mode::WITH_INTEGRITY;
constexpr auto const BE = mode::SERIALIZE_BIG_ENDIAN;
#ifdef NO_VERSION
constexpr auto const VER1 = mode::NONE;
#else
constexpr auto const VER1 = V;
#endif
#ifdef NO_STATIC_VERSION
constexpr auto const VER2 = mode::NONE;
#else
constexpr auto const VER2 = SV;
#endif

template <typename B>
bytes take(B const& b) {
  return b.size() == 0U ? bytes{} : bytes(&b[0], &b[0] + b.size());
}

template <mode M>
void image(R& v, std::string const& before, char const* how) {
  mc::op("memory buffer");
  auto const a = take(cista::serialize<M>(v));
  bytes b, b2, c, c2, d;
  {
    mc::op("mapped buffer");
    auto t = cista::buf<cista::mmap>{cista::mmap{path("a").c_str()}};
    cista::serialize<M>(t, v);
    b = take(t);
  }
  b2 = io::read_all(path("a"));
  {
    mc::op("file");
    auto f = cista::file{path("b").c_str(), "w+"};
    cista::serialize<M>(f, v);
    MC_CHECK(f.size_ == a.size(), "size", "%s: file reports %zu bytes, image has %zu", how, f.size_, a.size());
    auto const x = f.content();
    c = bytes(x.begin(), x.end());
  }
  c2 = io::read_all(path("b"));
  mc::op("memory buffer");
  d = take(cista::serialize<M>(v));
  SAME(d, a, "again", how);
  SAME(b, a, "mmap", how);
  SAME(b2, a, "mmap", how);
  SAME(c, a, "file", how);
  SAME(c2, a, "file", how);
  {
    mc::op("reused buffer");
    auto t = cista::buf<>{};
    cista::serialize<M>(t, v);
    t.reset();
    cista::serialize<M>(t, v);
    SAME(take(t), a, "reused", how);
  }
  // every object at an aligned offset (the walker verifies alignment relative
  // to the start of the image)
  auto img = kit::image::of(a);
  mc::op("deserialize");
  auto* el = cista::deserialize<R, M>(img.begin(), img.end());
  char const* err = nullptr;
  auto const s = kit::dump_in(*el, img.begin(), img.end(), &err);
  MC_CHECK(err == nullptr, "aligned", "%s: %s", how, err);
  MC_CHECK(s == before, "value", "%s: value differs", how);
  mc::step();
  mc::checked();
}

MC_SCENARIO("images of every shape from every target", 2, 2) {
  scratch const sc;
  mc::op("generate");
  auto v = std::make_unique<R>();
  auto g = kit::G{};
  g.level = mc::bound();
  g(*v);
  auto const before = kit::dump(*v);
  mc::logf("value: %.900s", before.c_str());
  io::world w;
  w.active = true;
  io::W = &w;
#define IMG(M) image<(M)>(*v, before, #M)
  IMG(mode::NONE);
  IMG(VER1);
  IMG(VER1 | I);
  IMG(VER2 | I);
  IMG(I);
#ifndef NO_BE
  IMG(BE | I);
  IMG(BE | VER1);
#endif
  MC_CHECK(w.error.empty() && w.maps.empty() && w.files.empty(), "handles", "handles: %s", w.error.c_str());
  io::W = nullptr;
  mc::state(mc::H{}(std::hash<std::string>{}(before)));
}
#endif

}  // namespace
