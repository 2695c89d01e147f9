// S02: non-owning pointers keep the shape of the object graph over a round
// trip, and offset images are valid wherever they are copied.
// -DFLAVOUR=raw|offset -DPART=1|2|3
#include <cstdio>

#include "mc.h"

#include "cista/containers.h"
#include "cista/indexed.h"
#include "cista/serialization.h"

#ifndef FLAVOUR
#define FLAVOUR offset
#endif
namespace data = cista::FLAVOUR;

namespace {

using cista::mode;
constexpr bool kOffset = !std::is_pointer_v<data::ptr<int>>;

constexpr auto const V = mode::WITH_VERSION;
constexpr auto const SV = mode::WITH_STATIC_VERSION;
constexpr auto const I = mode::WITH_INTEGRITY;
constexpr auto const BE = mode::SERIALIZE_BIG_ENDIAN;
constexpr auto const DEEP = mode::DEEP_CHECK;
constexpr auto const UNC = mode::UNCHECKED;

struct node {
  std::uint32_t id_{};
  data::ptr<node> p_{nullptr};
};

// What a pointer refers to: -1 null, -2 nothing known, otherwise target index.
struct view {
  std::vector<void const*> targets, ptrs;
  std::vector<std::uint64_t> content;  // integers next to the pointers
  template <typename T>
  void target(T const& t) {
    targets.push_back(&t);
  }
  template <typename P>
  void ptr(P const& p) {
    if constexpr (std::is_pointer_v<P>) {
      ptrs.push_back(p);
    } else {
      ptrs.push_back(p.get());
    }
  }
  void n(node const& x) {
    target(x);
    ptr(x.p_);
    content.push_back(x.id_);
  }
  void num(std::uint64_t x) { content.push_back(x); }

  std::vector<int> shape() const {
    std::vector<int> r;
    for (auto const* p : ptrs) {
      auto k = p == nullptr ? -1 : -2;
      for (auto i = 0U; p != nullptr && i != targets.size(); ++i) {
        if (targets[i] == p) {
          k = static_cast<int>(i);
          break;
        }
      }
      r.push_back(k);
    }
    return r;
  }
};

std::string show(std::vector<int> const& v) {
  std::string s;
  for (auto const x : v) {
    s += (x == -1 ? "null" : x == -2 ? "WILD" : std::to_string(x)) + " ";
  }
  return s;
}

template <typename R>
void expect(R const& r, std::vector<int> const& shape,
            std::vector<std::uint64_t> const& content, char const* how) {
  view v;
  r.look(v);
  auto const s = v.shape();
  MC_CHECK(s == shape, "shape", "%s: pointers refer to %s expected %s", how,
           show(s).c_str(), show(shape).c_str());
  MC_CHECK(v.content == content, "content", "%s: content next to pointers changed", how);
  mc::step();
}

struct mem {
  explicit mem(std::size_t n) : n_{n} {
    if (posix_memalign(reinterpret_cast<void**>(&p_), 64, n ? n : 1) != 0) {
      abort();
    }
  }
  mem(mem const&) = delete;
  ~mem() { std::free(p_); }
  std::uint8_t* p_{nullptr};
  std::size_t n_;
};

template <typename R, mode SM, mode DM = SM>
void trip(R& r, std::vector<int> const& shape,
          std::vector<std::uint64_t> const& content, char const* how) {
  auto const bytes = cista::serialize<SM>(r);
  mem m{bytes.size()};
  std::memcpy(m.p_, bytes.data(), bytes.size());
  auto const* x = cista::deserialize<R, DM>(m.p_, m.p_ + bytes.size());
  expect(*x, shape, content, how);
}

#define TRIP(...) trip<R, __VA_ARGS__>(r, shape, content, #__VA_ARGS__)

// the image copied elsewhere is the same graph, without any fix-up
template <typename R>
void relocate(R& r, std::vector<int> const& shape,
              std::vector<std::uint64_t> const& content) {
  if constexpr (kOffset) {
    auto const bytes = cista::serialize(r);
    auto const n = bytes.size();
    auto m = std::make_unique<mem>(n + 4096U + 64U);
    std::memcpy(m->p_, bytes.data(), n);
    // any aligned distance, overlapping the old place, and back
    for (auto const d : {8U, 16U, 24U, 64U, 40U, 0U, 4096U}) {
      auto const src = &*m->p_;
      std::memcpy(src, bytes.data(), n);
      std::memmove(src + d, src, n);
      if (d >= n) {
        std::memset(src, 0xEE, n);
      } else {
        std::memset(src, 0xEE, d);
      }
      expect(*reinterpret_cast<R const*>(src + d), shape, content, "moved image");
    }
    auto other = std::make_unique<mem>(n);
    std::memcpy(other->p_, m->p_ + 4096U, n);
    m.reset();
    expect(*reinterpret_cast<R const*>(other->p_), shape, content,
           "copied image, old one freed");
    // deserialize at the new place, move again
    auto const* x = cista::deserialize<R, DEEP>(other->p_, other->p_ + n);
    expect(*x, shape, content, "deserialized copy");
    auto third = std::make_unique<mem>(n);
    std::memcpy(third->p_, other->p_, n);
    other.reset();
    expect(*reinterpret_cast<R const*>(third->p_), shape, content,
           "moved after deserialization");
    // the moved image serializes to the same graph
    auto* again = reinterpret_cast<R*>(third->p_);
    auto const b2 = cista::serialize(*again);
    mem fourth{b2.size()};
    std::memcpy(fourth.p_, b2.data(), b2.size());
    third.reset();
    expect(*cista::deserialize<R>(fourth.p_, fourth.p_ + b2.size()), shape,
           content, "serialized again");
  }
}

template <typename R>
void all(R& r, bool const deep) {
  view v;
  r.look(v);
  auto const shape = v.shape();
  auto const content = v.content;
  mc::logf("graph: %s", show(shape).c_str());
  for (auto const x : shape) {
    if (x == -2) {
      fprintf(stderr, "harness: target not listed\n");
      abort();
    }
  }
  if (deep) {
    TRIP(mode::NONE);
    TRIP(DEEP);
    TRIP(mode::NONE, UNC);
    TRIP(V | I | DEEP);
    TRIP(SV);
    TRIP(I);
    TRIP(BE);
    TRIP(BE | I | DEEP);
    TRIP(BE, BE | UNC);
    relocate(r, shape, content);
  } else {
    switch (mc::choose(3)) {
      case 0:
        TRIP(mode::NONE);
        TRIP(V | I | DEEP);
        break;
      case 1:
        TRIP(DEEP);
        TRIP(BE | I);
        break;
      case 2:
        TRIP(mode::NONE, UNC);
        relocate(r, shape, content);
        break;
    }
  }
  view w;
  r.look(w);
  MC_CHECK(w.ptrs == v.ptrs && w.content == content, "modified",
           "serialization modified the pointers of the original");
  auto h = mc::H{};
  for (auto const x : shape) {
    h(static_cast<std::uint64_t>(x + 3));
  }
  mc::state(h);
  mc::checked();
}

#if PART == 1
// ------------------------------------------------------------------- graphs
struct graph {
  data::ptr<node> first_{nullptr};
  data::indexed_vector<node> a_{};
  data::unique_ptr<node> u_{};
  cista::indexed<node> m_{};
  data::vector<cista::indexed<node>> b_{};
  data::ptr<node> last_{nullptr};

  void look(view& v) const {
    v.ptr(first_);
    for (auto const& x : a_) {
      v.n(x);
    }
    if (u_.get() != nullptr) {
      v.n(*u_);
    }
    v.n(m_);
    for (auto const& x : b_) {
      v.n(x);
    }
    v.ptr(last_);
  }
};

// every assignment of every pointer to every target or null
void graphs(unsigned const na, bool const u, unsigned const nb) {
  graph g;
  auto id = 0U;
  for (auto i = 0U; i != na; ++i) {
    g.a_.emplace_back();
  }
  if (u) {
    g.u_ = data::make_unique<node>();
  }
  for (auto i = 0U; i != nb; ++i) {
    g.b_.emplace_back();
  }
  std::vector<node*> nodes;
  for (auto& x : g.a_) {
    nodes.push_back(&x);
  }
  if (u) {
    nodes.push_back(g.u_.get());
  }
  nodes.push_back(&g.m_);
  for (auto& x : g.b_) {
    nodes.push_back(&x);
  }
  auto pick = [&]() -> node* {
    auto const k = mc::choose(static_cast<int>(nodes.size()) + 1);
    return k == 0 ? nullptr : nodes[static_cast<std::size_t>(k - 1)];
  };
  mc::op("build");
  mc::logf("graph a=%u u=%d b=%u", na, u ? 1 : 0, nb);
  g.first_ = pick();
  g.last_ = pick();
  for (auto* x : nodes) {
    x->id_ = ++id;
    x->p_ = pick();
  }
  all(g, false);
}

MC_SCENARIO("every graph, vector elements, unique pointer, member", 1, 2) {
  switch (mc::choose(mc::bound() >= 2 ? 4 : 3)) {
    case 0: graphs(1, true, 1); break;
    case 1: graphs(2, true, 0); break;
    case 2: graphs(0, false, 2); break;
    case 3: graphs(2, true, 1); break;
  }
}
#endif

#if PART == 2
// --------------------------------------------------------------- containers
// pointers inside every kind of container, at targets in every kind of owner
struct nested {
  std::uint8_t pad_{};
  data::ptr<node> p_{nullptr};
  data::unique_ptr<node> n_{};
};

struct mixed {
  data::ptr<node> first_{nullptr};
  data::vector<data::ptr<node>> vp_{};
  data::indexed_vector<node> iv_{};
  data::hash_map<std::uint32_t, data::unique_ptr<node>> hm_{};
  data::hash_map<std::uint32_t, data::ptr<node>> hp_{};
  cista::variant<std::uint32_t, cista::indexed<node>> va_{};
  cista::variant<std::uint64_t, data::ptr<node>> vpp_{};
  cista::optional<cista::indexed<node>> op_{};
  cista::optional<data::ptr<node>> opp_{};
  cista::pair<std::uint8_t, cista::indexed<node>> pa_{};
  cista::tuple<std::uint8_t, cista::indexed<node>, data::ptr<node>> tu_{};
  cista::array<cista::indexed<node>, 2> ar_{};
  data::unique_ptr<nested> ne_{};
  data::indexed_vector<nested> nv_{};
  cista::array<data::ptr<node const>, 2> ap_{};
  data::vector<data::unique_ptr<node>> vu_{};

  template <typename Self, typename N, typename P>
  static void each(Self& s, N&& n, P&& p) {
    p(s.first_);
    for (auto& x : s.vp_) {
      p(x);
    }
    for (auto& x : s.iv_) {
      n(x);
    }
    for (auto k = 0U; k != 2U; ++k) {
      n(*s.hm_.at(k));
    }
    for (auto k = 0U; k != 2U; ++k) {
      p(s.hp_.at(k));
    }
    n(cista::get<cista::indexed<node>>(s.va_));
    p(cista::get<data::ptr<node>>(s.vpp_));
    n(*s.op_);
    p(*s.opp_);
    n(s.pa_.second);
    n(cista::get<1>(s.tu_));
    p(cista::get<2>(s.tu_));
    n(s.ar_[0]);
    n(s.ar_[1]);
    p(s.ne_->p_);
    n(*s.ne_->n_);
    for (auto& x : s.nv_) {
      p(x.p_);
      n(*x.n_);
    }
    for (auto& x : s.vu_) {
      n(*x);
    }
  }
  void look(view& v) const {
    each(
        *this, [&](node const& x) { v.n(x); },
        [&](auto const& p) { v.ptr(p); });
    v.ptr(ap_[0]);
    v.ptr(ap_[1]);
  }
};

std::unique_ptr<mixed> make() {
  auto m = std::make_unique<mixed>();
  m->vp_.resize(2);
  m->iv_.resize(2);
  for (auto k = 0U; k != 2U; ++k) {
    m->hm_.emplace(k, data::make_unique<node>());
    m->hp_.emplace(k, data::ptr<node>{nullptr});
  }
  m->va_ = cista::indexed<node>{};
  m->vpp_ = data::ptr<node>{nullptr};
  m->op_ = cista::indexed<node>{};
  m->opp_ = data::ptr<node>{nullptr};
  m->ne_ = data::make_unique<nested>();
  m->ne_->n_ = data::make_unique<node>();
  m->nv_.resize(2);
  m->nv_[0].n_ = data::make_unique<node>();
  m->nv_[1].n_ = data::make_unique<node>();
  m->vu_.emplace_back(data::make_unique<node>());
  auto id = 100U;
  mixed::each(
      *m, [&](node& x) { x.id_ = ++id; }, [](auto&) {});
  return m;
}

MC_SCENARIO("every pair of pointer holders at every pair of targets", 1, 2) {
  auto m = make();
  std::vector<node*> nodes;
  std::vector<std::function<void(node*)>> set;
  mixed::each(
      *m,
      [&](node& x) {
        nodes.push_back(&x);
        set.push_back([&x](node* t) { x.p_ = t; });
      },
      [&](auto& p) { set.push_back([&p](node* t) { p = t; }); });
  set.push_back([&m](node* t) { m->ap_[0] = t; });
  set.push_back([&m](node* t) { m->ap_[1] = t; });
  auto const kP = static_cast<int>(set.size());
  auto const kN = static_cast<int>(nodes.size());
  auto const i = mc::choose(kP);
  auto const a = mc::choose(kN);
  set[static_cast<std::size_t>(i)](nodes[static_cast<std::size_t>(a)]);
  mc::op("build");
  mc::logf("holder %d -> %d", i, a);
  if (mc::bound() >= 2) {
    auto const j = mc::choose(kP);
    auto const b = mc::choose(kN);
    set[static_cast<std::size_t>(j)](nodes[static_cast<std::size_t>(b)]);
    mc::op("build");
  mc::logf("holder %d -> %d", j, b);
    all(*m, false);
  } else {
    // every other pointer aims at the next target
    if (mc::choose(2) == 1) {
      for (auto k = 0; k != kP; ++k) {
        if (k != i) {
          set[static_cast<std::size_t>(k)](
              nodes[static_cast<std::size_t>((a + k + 1) % kN)]);
        }
      }
      mc::op("all others to the next ones");
    }
    all(*m, true);
  }
}
#endif

#if PART == 3
// ------------------------------------------------ interior and typed targets
struct rec {
  std::uint8_t a_{};
  std::uint32_t b_{};
  cista::array<std::uint32_t, 2> c_{};
};

struct inter {
  data::ptr<std::uint32_t> p0_{nullptr};
  data::indexed_vector<std::uint32_t> nums_{};
  data::indexed_vector<rec> recs_{};
  data::vector<data::ptr<std::uint32_t>> ps_{};
  data::indexed_vector<std::uint32_t> more_{};
  data::unique_ptr<std::uint32_t> u_{};
  data::ptr<rec> r_{nullptr};
  cista::array<data::ptr<std::uint32_t const>, 1> pc_{};
  data::indexed_vector<data::ptr<std::uint32_t>> ip_{};
  data::ptr<data::ptr<std::uint32_t>> pp_{nullptr};
  data::ptr<void> vo_{nullptr};

  template <typename Self, typename F>
  static void each(Self& s, F&& f) {
    for (auto& x : s.nums_) {
      f(x);
    }
    for (auto& x : s.recs_) {
      f(x.b_);
      f(x.c_[0]);
      f(x.c_[1]);
    }
    for (auto& x : s.more_) {
      f(x);
    }
    f(*s.u_);
  }
  void look(view& v) const {
    each(*this, [&](auto const& x) {
      v.target(x);
      v.num(x);
    });
    for (auto const& x : recs_) {
      v.target(x);
    }
    for (auto const& x : ip_) {
      v.target(x);
      v.ptr(x);
    }
    v.ptr(p0_);
    for (auto const& x : ps_) {
      v.ptr(x);
    }
    v.ptr(r_);
    v.ptr(pc_[0]);
    v.ptr(pp_);
  }
};

MC_SCENARIO("pointers into the interior of indexed vectors", 1, 2) {
  inter r;
  auto const deep = mc::bound() >= 2;
  auto const nn = static_cast<std::uint32_t>(mc::choose(deep ? 4 : 3));
  auto const nr = static_cast<std::uint32_t>(mc::choose(3));
  for (auto i = 0U; i != nn; ++i) {
    r.nums_.push_back(10U + i);
  }
  for (auto i = 0U; i != nr; ++i) {
    r.recs_.push_back(rec{static_cast<std::uint8_t>(i), 20U + i, {30U + i, 40U + i}});
  }
  // spare capacity behind the last element is not part of the value
  if (mc::choose(2) == 1) {
    r.nums_.reserve(16);
    r.recs_.reserve(8);
    r.more_.reserve(4);
  }
  r.more_.push_back(7U);
  r.u_ = data::make_unique<std::uint32_t>(99U);
  r.ps_.resize(2);
  r.ip_.resize(2);
  std::vector<std::uint32_t*> t{nullptr};
  inter::each(r, [&](std::uint32_t& x) { t.push_back(&x); });
  auto pick = [&]() {
    return t[static_cast<std::size_t>(mc::choose(static_cast<int>(t.size())))];
  };
  auto nth = 0U;
  auto cyc = [&]() { return t[(nth++ * 5U + 1U) % t.size()]; };
  mc::op("build");
  mc::logf("interior nums=%u recs=%u", nn, nr);
  r.p0_ = pick();
  r.ps_[0] = pick();
  r.ps_[1] = deep ? pick() : cyc();
  r.pc_[0] = cyc();
  r.ip_[0] = cyc();
  r.ip_[1] = cyc();
  switch (mc::choose(3)) {
    case 0: break;
    case 1:
      r.pp_ = &r.ip_[0];
      if (nr > 0U) {
        r.r_ = &r.recs_[0];
      }
      break;
    case 2:
      r.pp_ = &r.ip_[1];
      if (nr > 0U) {
        r.r_ = &r.recs_[nr - 1U];
      }
      break;
  }
  all(r, false);
}

// a pointer to an object outside the value never becomes a wild pointer
struct lonely {
  data::ptr<std::uint32_t> p_{nullptr};
  data::indexed_vector<std::uint32_t> v_{};
  data::ptr<std::uint32_t> q_{nullptr};
  data::ptr<void> vo_{nullptr};
  void look(view&) const {}
};

MC_SCENARIO("pointers to objects outside the value become null", 1, 1) {
  // adjacent memory around the vector's elements
  auto const n = static_cast<std::uint32_t>(mc::choose(3));
  auto const cap = 4U;
  lonely l;
  l.v_.reserve(cap);
  for (auto i = 0U; i != n; ++i) {
    l.v_.push_back(i);
  }
  std::uint32_t outside = 5U;
  switch (mc::choose(3)) {
    case 0: l.p_ = &outside; break;
    case 1: l.p_ = l.v_.begin() + n; break;  // one past the end
    case 2: l.p_ = &outside; l.vo_ = &outside; break;
  }
  if (n > 0U) {
    l.q_ = &l.v_[n - 1U];
  }
  mc::op("build");
  mc::logf("outside n=%u", n);
  auto run = [&](auto m) {
    constexpr auto const M = decltype(m)::value;
    auto const b = cista::serialize<M>(l);
    mem c{b.size()};
    std::memcpy(c.p_, b.data(), b.size());
    auto const* x = cista::deserialize<lonely, M>(c.p_, c.p_ + b.size());
    MC_CHECK(x->p_ == nullptr, "outside", "pointer to nothing inside is not null");
    MC_CHECK(x->vo_ == nullptr, "outside", "void pointer is not null");
    MC_CHECK(n == 0U ? x->q_ == nullptr : x->q_ == &x->v_[n - 1U], "outside",
             "pointer next to an unresolvable one");
    mc::step();
  };
  run(std::integral_constant<mode, mode::NONE>{});
  run(std::integral_constant<mode, BE>{});
  run(std::integral_constant<mode, I | DEEP>{});
  mc::checked();
}

// reading from memory that is not aligned
struct una {
  std::uint8_t a_{};
  data::indexed_vector<std::uint64_t> v_{};
  data::ptr<std::uint64_t> p_{nullptr};
  std::uint64_t c_{};
};

#if !defined(RAWONLY)
MC_SCENARIO("copy from any misaligned address", 1, 1) {
  if constexpr (kOffset) {
    auto const n = static_cast<std::uint32_t>(mc::choose(4));
    una u;
    u.a_ = 1;
    u.c_ = 0x0102030405060708ULL;
    for (auto i = 0U; i != n; ++i) {
      u.v_.push_back(0xA0U + i);
    }
    auto const at = static_cast<std::size_t>(mc::choose(64));
    mc::op("build");
  mc::logf("n=%u at %zu", n, at);
    auto run = [&](auto m) {
      constexpr auto const M = decltype(m)::value;
      auto const b = cista::serialize<M>(u);
      mem c{b.size() + at};
      std::memcpy(c.p_ + at, b.data(), b.size());
      auto const sv = std::string_view{reinterpret_cast<char const*>(c.p_ + at), b.size()};
      auto const x = cista::copy_from_potentially_unaligned<una, M>(sv);
      MC_CHECK(x.a_ == 1 && x.c_ == u.c_ && x.v_.size() == n, "unaligned", "value");
      for (auto i = 0U; i != n; ++i) {
        MC_CHECK(x.v_[i] == u.v_[i], "unaligned", "element %u", i);
      }
      MC_CHECK(std::memcmp(c.p_ + at, b.data(), b.size()) == 0, "unaligned",
               "the source was modified");
      mc::step();
    };
    run(std::integral_constant<mode, mode::NONE>{});
    run(std::integral_constant<mode, V | I>{});
    run(std::integral_constant<mode, SV | DEEP>{});
    mc::checked();
  }
}
#endif
#endif

}  // namespace
