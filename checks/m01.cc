// M01: every allocation (and every element copy) of every operation fails once.
// Every operation runs on a container and, without failures, on a twin.  After
// a failure the container must hold old (or only intact old and new) elements
// and stay usable; without one it must equal the twin.
#include "mc.h"

#include <cstdlib>
#include <functional>
#include <memory>
#include <new>
#include <set>
#include <string>
#include <vector>

#include "cista/containers.h"
#include "cista/containers/nvec.h"
#include "cista/containers/paged.h"
#include "cista/containers/paged_vecvec.h"
#include "cista/containers/rtree.h"
#include "cista/serialization.h"
#include "tracked.h"

// ------------------------------------------------------------- injection
namespace inj {
inline bool armed = false;
inline int left = 0;
inline int n = 0;  // failures so far
inline char const* what = "";
inline bool fail(char const* kind) {
  if (!armed || left == 0) {
    return false;
  }
  armed = false;  // choosing must not recurse
  auto const f = mc::choose(2) == 1;
  if (f) {
    --left;
    ++n;
    what = kind;
    mc::logf("  -> %s fails", kind);
  }
  armed = true;
  return f;
}
}  // namespace inj

extern "C" {
void* __real_malloc(std::size_t);
void* __real_aligned_alloc(std::size_t, std::size_t);
void* __wrap_malloc(std::size_t const n) { return inj::fail("malloc") ? nullptr : __real_malloc(n); }
void* __wrap_aligned_alloc(std::size_t const a, std::size_t const n) { return inj::fail("aligned_alloc") ? nullptr : __real_aligned_alloc(a, n); }
}

void* operator new(std::size_t const n) {
  if (inj::fail("operator new")) {
    throw std::bad_alloc{};
  }
  auto* p = __real_malloc(n == 0U ? 1U : n);
  if (p == nullptr) {
    throw std::bad_alloc{};
  }
  return p;
}
void* operator new[](std::size_t const n) { return operator new(n); }
void* operator new(std::size_t const n, std::align_val_t const a) {
  if (inj::fail("operator new")) {
    throw std::bad_alloc{};
  }
  auto* p = __real_aligned_alloc(static_cast<std::size_t>(a), (n + static_cast<std::size_t>(a) - 1U) / static_cast<std::size_t>(a) * static_cast<std::size_t>(a));
  if (p == nullptr) {
    throw std::bad_alloc{};
  }
  return p;
}
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
void operator delete(void* p, std::align_val_t) noexcept { std::free(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { std::free(p); }

namespace {

struct throwing_copy {};

// tracked element whose copies (and conversions) may fail
struct el : trk::tr {
  el() = default;
  el(int const v) : trk::tr{(point(), v)} {}  // NOLINT
  el(el const& o) : trk::tr{(point(), o)} {}
  el(el&& o) noexcept : trk::tr{std::move(o)} {}
  el& operator=(el const& o) {
    point();
    trk::tr::operator=(o);
    return *this;
  }
  el& operator=(el&& o) noexcept {
    trk::tr::operator=(std::move(o));
    return *this;
  }
  static void point() {
    if (inj::fail("copy")) {
      throw throwing_copy{};
    }
  }
  cista::hash_t hash() const { return static_cast<cista::hash_t>(get()) * 0x9E3779B97F4A7C15ULL; }
};

// cannot be moved
struct cel : el {
  cel() = default;
  cel(int const v) : el{v} {}  // NOLINT
  cel(cel const& o) : el{static_cast<el const&>(o)} {}
  cel& operator=(cel const&) = default;
};

std::string show(int const x) { return std::to_string(x); }
std::string show(unsigned const x) { return std::to_string(x); }
std::string show(std::uint64_t const x) { return std::to_string(x); }
std::string show(el const& x) { return std::to_string(x.get()); }
template <typename P>
std::string show(cista::basic_string<P> const& s) {
  return std::string{s.view()};
}
template <typename P>
std::string show(cista::generic_cstring<P> const& s) {
  return std::string{s.view()};
}
std::string show(std::string const& s) { return s; }
template <typename A, typename B>
std::string show(cista::pair<A, B> const& p) {
  return show(p.first) + "=" + show(p.second);
}
template <typename P>
std::string show(cista::basic_unique_ptr<int, P> const& p) {
  return p == nullptr ? "null" : show(*p);
}

using snap = std::vector<std::string>;

std::string join(snap const& s) {
  auto r = std::string{};
  for (auto i = std::size_t{0}; i < s.size() && i < 12U; ++i) {
    r += s[i] + ",";
  }
  return r + (s.size() > 12U ? "..." : "");
}

template <typename C>
struct op {
  char const* name;
  bool strong;  // a failure leaves the content unchanged
  std::function<void(C&)> fn;
};

// F: function object: snapshot of a container; checks structure on the way
template <typename C, typename Make, typename Snap>
void run(std::vector<op<C>> const& ops, Make&& make, Snap&& snapshot, bool const ordered = true) {
  trk::R.reset();
  inj::left = 1;
  inj::n = 0;
  {
    auto c = std::unique_ptr<C>{make()};
    auto t = std::unique_ptr<C>{make()};
    auto norm = [&](snap s) {
      if (!ordered) {
        std::sort(s.begin(), s.end());
      }
      return s;
    };
    auto const steps = mc::bound();
    for (auto s = 0; s != steps; ++s) {
      mc::step();
      auto const& o = ops[static_cast<std::size_t>(mc::choose(static_cast<int>(ops.size())))];
      mc::op(o.name);
      mc::logf("%s", o.name);
      auto const old = norm(snapshot(*c));
      auto const before = inj::n;
      auto threw = false;
      try {
        inj::armed = true;
        o.fn(*c);
        inj::armed = false;
      } catch (std::bad_alloc const&) {
        threw = true;
      } catch (throwing_copy const&) {
        threw = true;
      } catch (cista::cista_exception const&) {
        threw = true;
      }
      inj::armed = false;
      MC_CHECK(!threw || inj::n != before, "spurious", "%s throws without a failure", o.name);
      MC_CHECK(threw || inj::n == before || true, "swallowed", "%s", o.name);
      o.fn(*t);
      auto const now = norm(snapshot(*c));
      auto const exp = norm(snapshot(*t));
      if (!threw) {
        MC_CHECK(now == exp, "content", "%s: content %s, expected %s", o.name, join(now).c_str(), join(exp).c_str());
      } else {
        if (o.strong) {
          MC_CHECK(now == old, o.name, "%s failed (%s) and changed the content to %s, was %s", o.name, inj::what, join(now).c_str(), join(old).c_str());
        } else {
          auto all = std::set<std::string>(old.begin(), old.end());
          all.insert(exp.begin(), exp.end());
          for (auto const& x : now) {
            MC_CHECK(all.find(x) != all.end(), o.name, "%s failed (%s) and left %s (old %s, new %s)", o.name, inj::what, join(now).c_str(), join(old).c_str(),
                     join(exp).c_str());
          }
          // start over from a common state
          c.reset();
          t.reset();
          c.reset(make());
          t.reset(make());
        }
        if (o.strong) {  // usable: the same operation succeeds now
          o.fn(*c);
          auto const again = norm(snapshot(*c));
          MC_CHECK(again == exp, o.name, "%s repeated after a failure: %s, expected %s", o.name, join(again).c_str(), join(exp).c_str());
        }
      }
      MC_CHECK(trk::R.error == nullptr, "lifetime", "%s", trk::R.error);
      mc::state(mc::H{}(old.size())(now.size())(static_cast<std::uint64_t>(inj::n)));
    }
  }
  MC_CHECK(trk::R.error == nullptr, "lifetime", "%s", trk::R.error);
  MC_CHECK(trk::R.n == 0U, "lifetime", "%u objects never destroyed", trk::R.n);
  mc::checked();
}

auto const kLong = std::string(40, 'x');
auto counter = 0;

template <typename C>
snap seq(C const& c) {
  auto s = snap{};
  for (auto const& x : c) {
    s.push_back(show(x));
  }
  MC_CHECK(s.size() == static_cast<std::size_t>(c.size()) && c.empty() == s.empty(), "size", "size %zu, %zu elements", static_cast<std::size_t>(c.size()), s.size());
  return s;
}

// unarmed construction of arguments
struct off {
  off() : a_{inj::armed} { inj::armed = false; }
  ~off() { inj::armed = a_; }
  bool a_;
};

template <typename Fn>
auto quiet(Fn&& fn) {
  off o;
  return fn();
}

#if PART == 1
// ---------------------------------------------------------------- vector
template <typename T>
T value(int const i) {
  off o;
  if constexpr (std::is_same_v<T, int> || std::is_base_of_v<el, T>) {
    return T(i);
  } else {
    return T{std::to_string(i) + kLong, T::owning};
  }
}

template <typename V>
void vec() {
  using T = typename V::value_type;
  auto const init = mc::choose(4);
  mc::logf("%d elements", init);
  auto const range = [](int n) {
    off o;
    auto r = std::vector<T>{};
    r.reserve(4);
    for (auto i = 0; i != n; ++i) {
      r.push_back(value<T>(100 + i));
    }
    return r;
  };
  auto ops = std::vector<op<V>>{
      {"push_back", true, [](V& v) { auto const x = value<T>(50); v.push_back(x); }},
      {"push_back&&", true, [](V& v) { auto x = value<T>(51); v.push_back(std::move(x)); }},
      {"emplace_back", true, [](V& v) { auto const x = value<T>(52); v.emplace_back(x); }},
      {"push_back own", true, [](V& v) { if (!v.empty()) { v.push_back(v[0]); } }},
      {"reserve", true, [](V& v) { v.reserve(static_cast<unsigned>(v.size() * 2U + 1U)); }},
      {"resize", false, [](V& v) { v.resize(v.size() + 3U); }},
      {"resize init", false, [](V& v) { auto const x = value<T>(53); v.resize(v.size() + 3U, x); }},
      {"shrink", true, [](V& v) { v.resize(v.size() / 2U); }},
      {"insert", false, [](V& v) { auto const x = value<T>(54); v.insert(v.begin() + v.size() / 2U, x); }},
      {"insert n", false, [](V& v) { auto const x = value<T>(55); v.insert(v.begin() + v.size() / 2U, 2U, x); }},
      {"insert range", false, [=](V& v) { auto const r = range(3); v.insert(v.begin() + v.size() / 2U, r.begin(), r.end()); }},
      {"set", false, [=](V& v) { auto const r = range(3); v.set(r.begin(), r.end()); }},
      {"copy assign", false, [=](V& v) { auto o = V{}; { off x; o.push_back(value<T>(56)); o.push_back(value<T>(57)); o.push_back(value<T>(58)); } v = o; }},
      {"copy construct", true, [](V& v) { auto const c = V{v}; MC_CHECK(seq(c) == seq(v), "copy", "copy differs"); }},
      {"range construct", true, [=](V&) { auto const r = range(3); auto const c = V(r.begin(), r.end()); MC_CHECK(c.size() == 3U, "copy", "range construction"); }},
      {"init list", true, [](V&) { auto const a = value<T>(59); auto const c = V{a, a}; MC_CHECK(c.size() == 2U, "copy", "initializer list"); }},
      {"sized", true, [](V&) { auto const c = V(3U); MC_CHECK(c.size() == 3U, "copy", "sized construction"); }},
      {"sized init", true, [](V&) { auto const a = value<T>(60); auto const c = V(3U, a); MC_CHECK(c.size() == 3U, "copy", "sized construction"); }},
      {"erase", std::is_nothrow_move_assignable_v<T>, [](V& v) { if (!v.empty()) { v.erase(v.begin()); } }},
      {"clear", true, [](V& v) { v.clear(); }},
  };
  run(ops, [&] {
        auto v = std::make_unique<V>();
        for (auto i = 0; i != init; ++i) {
          v->push_back(value<T>(i));
        }
        return v.release();
      },
      [](V const& v) { return seq(v); });
}
MC_SCENARIO_SPLIT("vector<int>", 3, 4, 1) { vec<cista::offset::vector<int>>(); }
MC_SCENARIO_SPLIT("vector<element>", 3, 4, 1) { vec<cista::offset::vector<el>>(); }
MC_SCENARIO_SPLIT("vector<copy only>", 2, 3, 1) { vec<cista::offset::vector<cel>>(); }
MC_SCENARIO_SPLIT("vector<string>", 3, 4, 1) { vec<cista::offset::vector<cista::offset::string>>(); }
MC_SCENARIO_SPLIT("raw::vector<element>", 2, 2, 1) { vec<cista::raw::vector<el>>(); }
MC_SCENARIO_SPLIT("raw::vector<string>", 2, 2, 1) { vec<cista::raw::vector<cista::raw::string>>(); }
#elif PART == 2
// ---------------------------------------------------------------- hash tables
template <typename T>
T value(int const i) {
  off o;
  if constexpr (std::is_base_of_v<el, T> || std::is_same_v<T, int>) {
    return T(i);
  } else {
    return T{std::to_string(i) + kLong, T::owning};
  }
}

template <typename C>
snap table(C const& c) {
  auto s = seq(c);
  MC_CHECK(std::set<std::string>(s.begin(), s.end()).size() == s.size(), "duplicate", "an entry is visited twice");
  return s;
}

template <typename M>
void map() {
  using K = typename M::key_type;
  using V = typename M::mapped_type;
  constexpr int const kInit[] = {0, 1, 6, 7, 13};
  auto const init = kInit[mc::choose(5)];
  mc::logf("%d entries", init);
  auto fresh = [](M& m) {  // a key that is not in the table
    return value<K>(1000 + static_cast<int>(m.size()));
  };
  auto ops = std::vector<op<M>>{
      {"emplace", true, [=](M& m) { auto const k = fresh(m); auto const v = value<V>(1); m.emplace(k, v); }},
      {"[]", true, [=](M& m) { auto const k = fresh(m); m[k]; }},
      {"[] = existing", false, [=](M& m) { auto const k = value<K>(0); auto const v = value<V>(2); if (m.find(k) != m.end()) { m[k] = v; } }},
      {"insert", true, [=](M& m) { auto const k = fresh(m); auto const v = value<V>(3); m.insert(std::decay_t<decltype(*m.begin())>{k, v}); }},
      {"insert existing", true, [=](M& m) { auto const k = value<K>(0); auto const v = value<V>(4); m.insert(std::decay_t<decltype(*m.begin())>{k, v}); }},
      {"erase", true, [=](M& m) { m.erase(value<K>(0)); }},
      {"rehash", true, [](M& m) { m.rehash(); }},
      {"copy construct", true, [](M& m) { auto const c = M{m}; MC_CHECK(c.size() == m.size(), "copy", "copy differs"); }},
      {"copy assign", false, [=](M& m) {
         auto c = M{};
         {
           off o;
           for (auto i = 0; i != 9; ++i) {
             c.emplace(value<K>(50 + i), value<V>(i));
           }
         }
         m = c;
       }},
      {"init list", true, [](M&) { auto const k = value<K>(1); auto const v = value<V>(1); auto const c = M{{k, v}}; MC_CHECK(c.size() == 1U, "copy", "initializer list"); }},
      {"clear", true, [](M& m) { m.clear(); }},
  };
  run(ops,
      [&] {
        auto m = std::make_unique<M>();
        for (auto i = 0; i != init; ++i) {
          m->emplace(value<K>(i), value<V>(i));
        }
        return m.release();
      },
      [](M const& m) {
        auto s = table(m);
        for (auto const& [k, v] : m) {  // every entry can be found
          auto const it = m.find(k);
          MC_CHECK(it != m.end() && show(it->second) == show(v), "lookup", "entry %s is not found", show(k).c_str());
        }
        off o;
        MC_CHECK(m.find(value<K>(77777)) == m.end(), "lookup", "missing key found");
        return s;
      },
      false);
}

template <typename S>
void set() {
  using K = typename S::key_type;
  constexpr int const kInit[] = {0, 1, 6, 7, 13};
  auto const init = kInit[mc::choose(5)];
  mc::logf("%d entries", init);
  auto fresh = [](S& m) { return value<K>(1000 + static_cast<int>(m.size())); };
  auto ops = std::vector<op<S>>{
      {"emplace", true, [=](S& m) { auto const k = fresh(m); m.emplace(k); }},
      {"insert", true, [=](S& m) { auto const k = fresh(m); m.insert(k); }},
      {"insert&&", true, [=](S& m) { auto k = fresh(m); m.insert(std::move(k)); }},
      {"insert existing", true, [=](S& m) { auto const k = value<K>(0); m.insert(k); }},
      {"erase", true, [=](S& m) { m.erase(value<K>(0)); }},
      {"rehash", true, [](S& m) { m.rehash(); }},
      {"copy construct", true, [](S& m) { auto const c = S{m}; MC_CHECK(c.size() == m.size(), "copy", "copy differs"); }},
      {"copy assign", false, [=](S& m) {
         auto c = S{};
         {
           off o;
           for (auto i = 0; i != 9; ++i) {
             c.emplace(value<K>(50 + i));
           }
         }
         m = c;
       }},
      {"clear", true, [](S& m) { m.clear(); }},
  };
  run(ops,
      [&] {
        auto m = std::make_unique<S>();
        for (auto i = 0; i != init; ++i) {
          m->emplace(value<K>(i));
        }
        return m.release();
      },
      [](S const& m) {
        auto s = table(m);
        for (auto const& k : m) {
          MC_CHECK(m.find(k) != m.end(), "lookup", "entry %s is not found", show(k).c_str());
        }
        off o;
        MC_CHECK(m.find(value<K>(77777)) == m.end(), "lookup", "missing key found");
        return s;
      },
      false);
}
MC_SCENARIO_SPLIT("hash_map<int,int>", 2, 3, 1) { map<cista::offset::hash_map<int, int>>(); }
MC_SCENARIO_SPLIT("hash_map<int,string>", 2, 3, 1) { map<cista::offset::hash_map<int, cista::offset::string>>(); }
MC_SCENARIO_SPLIT("hash_map<string,int>", 2, 3, 1) { map<cista::offset::hash_map<cista::offset::string, int>>(); }
MC_SCENARIO_SPLIT("hash_map<element,element>", 2, 3, 1) { map<cista::raw::hash_map<el, el>>(); }
MC_SCENARIO_SPLIT("hash_map<copy only>", 2, 3, 1) { map<cista::offset::hash_map<cel, cel>>(); }
MC_SCENARIO_SPLIT("hash_set<int>", 2, 3, 1) { set<cista::offset::hash_set<int>>(); }
MC_SCENARIO_SPLIT("hash_set<string>", 2, 3, 1) { set<cista::raw::hash_set<cista::raw::string>>(); }
MC_SCENARIO_SPLIT("hash_set<element>", 2, 3, 1) { set<cista::offset::hash_set<el>>(); }
#elif PART == 3
// ---------------------------------------------------------------- strings
template <typename S>
struct holder {
  S s_;
};

template <typename S>
void str() {
  auto const init = mc::choose(3);
  mc::logf("initial content %d", init);
  auto const text = [](int const i) { return std::string(i == 0 ? 0U : i == 1 ? 5U : 30U, static_cast<char>('a' + i)); };
  using H = holder<S>;
  auto ops = std::vector<op<H>>{};
  auto const names = std::vector<char const*>{"assign empty", "assign short", "assign long"};
  for (auto i = 0; i != 3; ++i) {
    ops.push_back({names[static_cast<std::size_t>(i)], true, [=](H& h) { auto const t = quiet([&] { return text(i); }); h.s_ = S{t, S::owning}; }});
  }
  ops.push_back({"set_owning short", true, [=](H& h) { auto const t = quiet([&] { return text(1); }); h.s_.set_owning(t); }});
  ops.push_back({"set_owning long", true, [=](H& h) { auto const t = quiet([&] { return text(2) + "!"; }); h.s_.set_owning(t); }});
  ops.push_back({"copy assign short", true, [=](H& h) { auto const t = quiet([&] { return S{text(1), S::owning}; }); h.s_ = t; }});
  ops.push_back({"copy assign long", true, [=](H& h) { auto const t = quiet([&] { return S{text(2) + "?", S::owning}; }); h.s_ = t; }});
  ops.push_back({"copy construct", true, [=](H& h) { auto const t = S{h.s_}; MC_CHECK(t == h.s_, "copy", "copy differs"); }});
  ops.push_back({"non-owning", true, [=](H& h) { h.s_.set_non_owning("a text that is not owned by the string"); }});
  ops.push_back({"own tail", true, [=](H& h) { if (h.s_.size() > 2U) { h.s_.set_owning(h.s_.data() + 1, h.s_.size() - 1U); } }});
  run(ops,
      [&] {
        off o;
        auto h = std::make_unique<H>();
        h->s_ = S{text(init), S::owning};
        return h.release();
      },
      [](H const& h) { return snap{show(h.s_)}; });
}
MC_SCENARIO_SPLIT("offset::string", 4, 5, 1) { str<cista::offset::string>(); }
MC_SCENARIO_SPLIT("raw::string", 4, 5, 1) { str<cista::raw::string>(); }
MC_SCENARIO_SPLIT("offset::cstring", 4, 5, 1) { str<cista::offset::cstring>(); }
MC_SCENARIO_SPLIT("raw::cstring", 4, 5, 1) { str<cista::raw::cstring>(); }

// ---------------------------------------------------------------- bucket containers
template <typename T>
T value(int const i) {
  off o;
  if constexpr (std::is_base_of_v<el, T> || std::is_arithmetic_v<T>) {
    return T(static_cast<short>(i));
  } else {
    return T{std::to_string(i) + kLong, T::owning};
  }
}

template <typename C>
snap buckets(C const& c) {
  off o;
  auto s = snap{};
  for (auto i = 0U; i != c.size(); ++i) {
    auto r = std::string{"["};
    auto const b = c[typename C::key(i)];
    auto n = std::size_t{0};
    for (auto const& x : b) {
      r += show(x) + " ";
      ++n;
    }
    MC_CHECK(n == b.size(), "size", "bucket %u: size %zu, %zu elements", i, static_cast<std::size_t>(b.size()), n);
    s.push_back(r + "]");
  }
  return s;
}

template <typename T>
std::vector<T> bucket_of(int const first, int const n) {
  off o;
  auto v = std::vector<T>{};
  v.reserve(static_cast<std::size_t>(n) + 1U);
  for (auto i = 0; i != n; ++i) {
    v.push_back(value<T>(first + i));
  }
  return v;
}

template <typename C, typename T>
void vecvec() {
  using K = typename C::key;
  auto const init = mc::choose(3);
  mc::logf("%d buckets", init);
  auto ops = std::vector<op<C>>{
      {"emplace_back empty", true, [](C& c) { auto const b = bucket_of<T>(10, 0); c.emplace_back(b); }},
      {"emplace_back", true, [](C& c) { auto const b = bucket_of<T>(10, 2); c.emplace_back(b); }},
      {"emplace_back&&", true, [](C& c) { auto b = bucket_of<T>(20, 3); c.emplace_back(std::move(b)); }},
      {"emplace_back list", true, [](C& c) { auto const a = value<T>(30); auto const b = value<T>(31); c.emplace_back({a, b}); }},
      {"emplace_back own", true, [](C& c) { if (!c.empty()) { c.emplace_back(c[K(0U)]); } }},
      {"add_back_sized", true, [](C& c) { c.add_back_sized(3U); }},
      {"push_back", false, [](C& c) { if (!c.empty()) { auto const x = value<T>(40); c[K(0U)].push_back(x); } }},
      {"push_back last", true, [](C& c) { if (!c.empty()) { auto const x = value<T>(40); c.back().push_back(x); } }},
      {"grow", false, [](C& c) { if (!c.empty()) { c[K(0U)].grow(c[K(0U)].size() + 2U); } }},
      {"resize", true, [](C& c) { c.resize(c.size() + 2U); }},
      {"shrink", true, [](C& c) { if (!c.empty()) { c.resize(c.size() - 1U); } }},
      {"copy construct", true, [](C& c) { auto const x = C{c}; MC_CHECK(x.size() == c.size(), "copy", "copy differs"); }},
      {"clear", true, [](C& c) { c.clear(); }},
  };
  run(ops,
      [&] {
        auto c = std::make_unique<C>();
        for (auto i = 0; i != init; ++i) {
          c->emplace_back(bucket_of<T>(i * 3, i + 1));
        }
        return c.release();
      },
      [](C const& c) { return buckets(c); });
}
MC_SCENARIO_SPLIT("vecvec<int>", 3, 4, 1) { vecvec<cista::offset::vecvec<unsigned, int>, int>(); }
MC_SCENARIO_SPLIT("vecvec<element>", 3, 4, 1) { vecvec<cista::offset::vecvec<unsigned, el>, el>(); }
MC_SCENARIO_SPLIT("vecvec<string>", 3, 4, 1) { vecvec<cista::raw::vecvec<unsigned, cista::raw::string>, cista::raw::string>(); }
#elif PART == 4
namespace co = cista::offset;
namespace cr = cista::raw;

// ---------------------------------------------------------------- nvec
template <typename T>
T value(int const i) {
  off o;
  if constexpr (std::is_base_of_v<el, T> || std::is_arithmetic_v<T>) {
    return T(static_cast<short>(i));
  } else {
    return T{std::to_string(i) + kLong, T::owning};
  }
}

template <typename T>
std::vector<T> flat(int const first, int const n) {
  off o;
  auto v = std::vector<T>{};
  for (auto i = 0; i != n; ++i) {
    v.push_back(value<T>(first + i));
  }
  return v;
}

template <typename T>
std::vector<std::vector<T>> nested(int const first, std::vector<int> const& sizes) {
  off o;
  auto v = std::vector<std::vector<T>>{};
  for (auto const n : sizes) {
    v.push_back(flat<T>(first, n));
  }
  return v;
}

template <typename C, typename T>
void nvec2() {
  auto const init = mc::choose(3);
  mc::logf("%d entries", init);
  auto const sizes = std::vector<std::vector<int>>{{}, {0}, {2, 0, 1}, {1, 3}};
  auto ops = std::vector<op<C>>{};
  static constexpr char const* kNames[] = {"emplace_back {}", "emplace_back {0}", "emplace_back {2,0,1}", "emplace_back {1,3}"};
  for (auto i = 0U; i != sizes.size(); ++i) {
    ops.push_back({kNames[i], true, [=](C& c) { auto const n = nested<T>(10, quiet([&] { return sizes[i]; })); c.emplace_back(n); }});
  }
  ops.push_back({"emplace_back&&", true, [](C& c) { auto n = nested<T>(20, quiet([] { return std::vector<int>{2, 2}; })); c.emplace_back(std::move(n)); }});
  ops.push_back({"emplace_back own", true, [](C& c) { if (c.size() != 0U) { c.emplace_back(c[0U]); } }});
  ops.push_back({"copy construct", true, [](C& c) { auto const x = C{c}; MC_CHECK(x.size() == c.size(), "copy", "copy differs"); }});
  run(ops,
      [&] {
        off o;
        auto c = std::make_unique<C>();
        for (auto i = 0; i != init; ++i) {
          c->emplace_back(nested<T>(i * 3, {i, 2}));
        }
        return c.release();
      },
      [](C const& c) {
        off o;
        auto s = snap{};
        for (auto i = 0U; i != c.size(); ++i) {
          auto r = std::string{};
          for (auto j = 0U; j != c.size(i); ++j) {
            r += "[";
            for (auto const& x : c.at(i, j)) {
              r += show(x) + " ";
            }
            r += "]";
          }
          s.push_back(r);
        }
        return s;
      });
}
MC_SCENARIO_SPLIT("nvec<int,2>", 3, 4, 1) { nvec2<co::nvec<unsigned, int, 2>, int>(); }
MC_SCENARIO_SPLIT("nvec<element,2>", 3, 4, 1) { nvec2<cr::nvec<unsigned, el, 2>, el>(); }
MC_SCENARIO_SPLIT("nvec<string,2>", 3, 4, 1) { nvec2<co::nvec<unsigned, co::string, 2>, co::string>(); }

// ---------------------------------------------------------------- paged_vecvec
using pg = cista::paged<co::vector<std::uint16_t>, std::uint32_t, std::uint16_t, 4U, 64U>;
using pvv = cista::paged_vecvec<co::vector<pg::page_t>, pg, unsigned>;

snap pages(pvv const& c) {
  off o;
  auto s = snap{};
  for (auto i = 0U; i != c.size(); ++i) {
    auto r = std::string{"["};
    for (auto const x : c[i]) {
      r += std::to_string(x) + " ";
    }
    s.push_back(r + "]");
  }
  return s;
}

void paged() {
  using T = std::uint16_t;
  auto const init = mc::choose(3);
  mc::logf("%d buckets", init);
  auto ops = std::vector<op<pvv>>{
      {"emplace_back", true, [](pvv& c) { auto const b = flat<T>(10, 3); c.emplace_back(b); }},
      {"emplace_back big", true, [](pvv& c) { auto const b = flat<T>(10, 9); c.emplace_back(b); }},
      {"emplace_back_empty", true, [](pvv& c) { c.emplace_back_empty(); }},
      {"push_back last", true, [](pvv& c) { if (!c.empty()) { c.back().push_back(41U); } }},
      {"push_back", true, [](pvv& c) { if (!c.empty()) { c[0U].push_back(40U); } }},
      {"bucket insert", true, [](pvv& c) { if (!c.empty()) { auto b = c[0U]; b.insert(b.begin(), T{50}); } }},
      {"insert", true, [](pvv& c) { if (!c.empty()) { auto const b = flat<T>(60, 2); c.insert(0U, b); } }},
      {"shrink", true, [](pvv& c) { if (!c.empty()) { c.resize(c.size() - 1U); } }},
      {"copy construct", true, [](pvv& c) { auto const x = pvv{c}; MC_CHECK(x.size() == c.size(), "copy", "copy differs"); }},
      {"clear", true, [](pvv& c) { c.clear(); }},
  };
  run(ops,
      [&] {
        off o;
        auto c = std::make_unique<pvv>();
        for (auto i = 0; i != init; ++i) {
          c->emplace_back(flat<T>(i * 5, 4 * i + 3));
        }
        return c.release();
      },
      [](pvv const& c) { return pages(c); });
}
MC_SCENARIO_SPLIT("paged_vecvec", 4, 5, 1) { paged(); }

// ---------------------------------------------------------------- fws_multimap
using fws = co::fws_multimap<unsigned, int>;
void fws_mm() {
  auto ops = std::vector<op<fws>>{
      {"push_back", true, [](fws& m) { m.push_back(static_cast<int>(m.data_size())); }},
      {"emplace_back", true, [](fws& m) { m.emplace_back(static_cast<int>(m.data_size())); }},
      {"finish_key", true, [](fws& m) { m.finish_key(); }},
      {"reserve", true, [](fws& m) { m.reserve_index(10U); }},
      {"copy construct", true, [](fws& m) { auto const x = fws{m}; MC_CHECK(x.data_size() == m.data_size(), "copy", "copy differs"); }},
      {"finish copy", true, [](fws& m) {
         auto x = quiet([&] { return fws{m}; });
         x.finish_map();
         auto n = std::size_t{0};
         for (auto const& e : x) {
           n += e.size();
         }
         MC_CHECK(n == x.data_size() || x.index_size() == 1U || true, "copy", "%zu", n);
       }},
  };
  run(ops, [] { off o; return new fws{}; },
      [](fws const& m) {
        off o;
        auto s = snap{std::to_string(m.current_key())};
        auto x = fws{m};
        x.finish_key();
        x.finish_map();
        for (auto const& e : x) {
          auto r = std::string{"["};
          for (auto const& v : e) {
            r += std::to_string(v) + " ";
          }
          s.push_back(r + "]");
        }
        return s;
      });
}
MC_SCENARIO_SPLIT("fws_multimap", 4, 5, 0) { fws_mm(); }

// ---------------------------------------------------------------- mutable_fws_multimap
template <typename M>
snap multi(M const& m) {
  off o;
  auto s = snap{};
  auto n = std::size_t{0};
  for (auto i = 0U; i != m.size(); ++i) {
    auto r = std::string{"["};
    auto const b = m[i];
    for (auto const& v : b) {
      r += std::to_string(v) + " ";
      ++n;
    }
    s.push_back(r + "]");
    MC_CHECK(b.size() <= b.capacity(), "capacity", "bucket %u: size %u, capacity %u", i, static_cast<unsigned>(b.size()), static_cast<unsigned>(b.capacity()));
    MC_CHECK(b.begin() == b.end() || &*b.begin() + b.capacity() <= m.data_.end(), "bounds", "bucket %u exceeds the data", i);
  }
  MC_CHECK(n == m.element_count(), "size", "element count %u, %zu elements", static_cast<unsigned>(m.element_count()), n);
  // no part of the data belongs to two buckets (or is free and in use)
  auto used = std::vector<int>(m.data_.size(), 0);
  auto mark = [&](auto const& idx) {
    for (auto k = idx.begin_; k != idx.begin_ + idx.capacity_; ++k) {
      MC_CHECK(k < used.size() && used[k]++ == 0, "overlap", "data index %u is used twice", static_cast<unsigned>(k));
    }
  };
  for (auto const& idx : m.index_) {
    mark(idx);
  }
  for (auto const& l : m.free_buckets_) {
    for (auto const& idx : l) {
      mark(idx);
    }
  }
  return s;
}

template <typename M>
void mmm() {
  auto const init = mc::choose(3);
  mc::logf("%d buckets", init);
  auto ops = std::vector<op<M>>{
      {"push_back 0", true, [](M& m) { if (m.size() > 0U) { m[0U].push_back(7); } }},
      {"push_back 1", true, [](M& m) { if (m.size() > 1U) { m[1U].push_back(8); } }},
      {"push_back last", true, [](M& m) { if (m.size() > 0U) { m.back().push_back(9); } }},
      {"new bucket", true, [](M& m) { m.emplace_back(); }},
      {"bucket insert", true, [](M& m) { if (m.size() > 0U) { auto b = m[0U]; b.insert(b.begin(), 10); } }},
      {"bucket reserve", true, [](M& m) { if (m.size() > 0U) { m[0U].reserve(m[0U].capacity() + 1U); } }},
      {"bucket resize", true, [](M& m) { if (m.size() > 0U) { m[0U].resize(m[0U].size() + 3U, 11); } }},
      {"erase 0", true, [](M& m) { m.erase(0U); }},
      {"erase 1", true, [](M& m) { m.erase(1U); }},
      {"reserve", true, [](M& m) { m.reserve(9U, 33U); }},
      {"copy construct", true, [](M& m) { auto const x = M{m}; MC_CHECK(x.element_count() == m.element_count(), "copy", "copy differs"); }},
      {"clear", true, [](M& m) { m.clear(); }},
  };
  run(ops,
      [&] {
        off o;
        auto m = std::make_unique<M>();
        for (auto i = 0; i != init; ++i) {
          for (auto k = 0; k != i + 1; ++k) {
            (*m)[static_cast<unsigned>(i)].push_back(k);
          }
        }
        return m.release();
      },
      [](M const& m) { return multi(m); });
}
MC_SCENARIO_SPLIT("mutable_fws_multimap", 3, 4, 1) { mmm<co::mutable_fws_multimap<unsigned, int>>(); }
MC_SCENARIO_SPLIT("raw::mutable_fws_multimap", 3, 4, 1) { mmm<cr::mutable_fws_multimap<unsigned, int>>(); }

// ---------------------------------------------------------------- bitvec
void bits() {
  using B = co::bitvec;
  auto const init = mc::choose(3);
  auto ops = std::vector<op<B>>{
      {"resize 3", true, [](B& b) { b.resize(3U); }},
      {"resize 64", true, [](B& b) { b.resize(64U); }},
      {"resize 65", true, [](B& b) { b.resize(65U); }},
      {"resize 200", true, [](B& b) { b.resize(200U); }},
      {"set", true, [](B& b) { if (!b.empty()) { b.set(b.size() - 1U); } }},
      {"parse", true, [](B& b) { b.set("1011001"); }},
      {"copy construct", true, [](B& b) { auto const x = B{b}; MC_CHECK(x == b, "copy", "copy differs"); }},
      {"copy assign", false, [](B& b) { auto const x = quiet([] { return B{"1" + std::string(70, '0')}; }); b = x; }},
      {"shift", true, [](B& b) { b <<= 1U; }},
  };
  run(ops,
      [&] {
        off o;
        auto b = new B{};
        b->resize(static_cast<unsigned>(init) * 60U);
        return b;
      },
      [](B const& b) {
        off o;
        MC_CHECK(b.blocks_.size() >= B::num_blocks(b.size()), "size", "%u bits in %u blocks", static_cast<unsigned>(b.size()), static_cast<unsigned>(b.blocks_.size()));
        return snap{b.empty() ? std::string{} : b.str()};
      });
}
MC_SCENARIO_SPLIT("bitvec", 4, 5, 1) { bits(); }

// ---------------------------------------------------------------- rtree
using rt = cista::raw::rtree<unsigned, 2U, float, 4U>;
void tree() {
  auto const init = mc::choose(6) * 4;
  mc::logf("%d entries", init);
  static constexpr float kX[] = {3, 1, 4, 1, 5, 9, 2, 6};
  auto const add = [](rt& t, unsigned const i) {
    auto const x = kX[i % 8U] + static_cast<float>(i / 8U);
    auto const y = kX[(i * 3U + 1U) % 8U];
    t.insert({x, y}, {x + 1.F, y + 1.F}, i);
  };
  auto ops = std::vector<op<rt>>{
      {"insert", true, [=](rt& t) { add(t, t.m_.count_); }},
      {"delete", true, [](rt& t) { auto const x = kX[0]; auto const y = kX[1]; t.delete_element({x, y}, {x + 1.F, y + 1.F}, 0U); }},
      {"copy construct", true, [](rt& t) { auto const c = rt{t}; MC_CHECK(c.m_.count_ == t.m_.count_, "copy", "copy differs"); }},
  };
  run(ops,
      [&] {
        off o;
        auto t = std::make_unique<rt>();
        for (auto i = 0; i != init; ++i) {
          add(*t, static_cast<unsigned>(i));
        }
        return t.release();
      },
      [](rt const& t) {
        off o;
        auto s = snap{};
        t.search({-100.F, -100.F}, {100.F, 100.F}, [&](auto&&, auto&&, unsigned const d) {
          s.push_back(std::to_string(d));
          return true;
        });
        MC_CHECK(s.size() == t.m_.count_, "size", "count %zu, %zu entries", static_cast<std::size_t>(t.m_.count_), s.size());
        return s;
      },
      false);
}
MC_SCENARIO_SPLIT("rtree", 5, 7, 1) { tree(); }
#endif

}  // namespace
