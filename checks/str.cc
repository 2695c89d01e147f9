// string / string_view / cstring: every history of constructions, assignments
// (including from own content), moves, erasures vs. std::basic_string.
#include "mc.h"

#include <sstream>
#include <string>
#include <string_view>

#include "cista/containers/cstring.h"
#include "cista/containers/string.h"

namespace {

template <typename C>
using str_t = std::basic_string<C>;
template <typename C>
using sv_t = std::basic_string_view<C>;

template <typename C>
std::vector<str_t<C>> const& pool() {
  static auto const p = [] {
    auto const L = static_cast<unsigned>(15U / sizeof(C));
    std::vector<str_t<C>> v;
    auto gen = [&](unsigned n, unsigned seed) {
      str_t<C> s;
      for (auto i = 0U; i != n; ++i) {
        // every byte of a code unit is set
        s.push_back(static_cast<C>(('a' + (i * 7U + seed) % 26U) |
                                   (sizeof(C) == 1U   ? 0U
                                    : sizeof(C) == 2U ? 0x3000U
                                                      : 0x01020300U)));
      }
      return s;
    };
    v.push_back(gen(0, 0));
    v.push_back(gen(1, 1));
    v.push_back(gen(L, 2));
    v.push_back(gen(L + 1U, 3));
    v.push_back(gen(2U * L + 3U, 2));
    auto z = gen(3, 2);  // shares the prefix with L and 2L+3, embedded NUL
    z[1] = C(0);
    v.push_back(z);
    auto h = gen(L + 2U, 2);
    h[0] = static_cast<C>(~C(0));  // biggest code unit
    h[L] = C(0);
    v.push_back(h);
    v.push_back(gen(L - 1U, 2));
    auto t = gen(L, 2);
    t[L - 1U] = C(0);  // trailing NUL at the inline limit
    v.push_back(t);
    return v;
  }();
  return p;
}

template <typename C>
std::string show(sv_t<C> s) {
  std::string o = "\"";
  for (auto c : s) {
    auto const u = static_cast<unsigned long>(
        static_cast<std::make_unsigned_t<
            std::conditional_t<sizeof(C) == 1, char,
                               std::conditional_t<sizeof(C) == 2, short, int>>>>(
            c));
    if (u >= 32 && u < 127) {
      o.push_back(static_cast<char>(u));
    } else {
      char b[24];
      snprintf(b, sizeof(b), "\\x%lx", u);
      o += b;
    }
  }
  return o + "\"(" + std::to_string(s.size()) + ")";
}

template <typename S, typename C>
void same(S const& s, str_t<C> const& r, char const* which) {
  MC_CHECK(s.size() == r.size(), "string:size", "%s: size %u, expected %zu %s",
           which, static_cast<unsigned>(s.size()), r.size(),
           show<C>(r).c_str());
  MC_CHECK(s.empty() == r.empty(), "string:empty", "%s: empty", which);
  MC_CHECK(s.view() == sv_t<C>{r}, "string:view", "%s: view %s expected %s",
           which, show<C>(s.view()).c_str(), show<C>(r).c_str());
  MC_CHECK(s.str() == r, "string:str", "%s: str", which);
  MC_CHECK(static_cast<sv_t<C>>(s) == sv_t<C>{r}, "string:conv",
           "%s: conversion", which);
  MC_CHECK(static_cast<std::size_t>(end(s) - begin(s)) == r.size() &&
               std::equal(begin(s), end(s), r.begin(), r.end()),
           "string:iter", "%s: iteration", which);
  for (auto i = 0U; i != r.size(); ++i) {
    MC_CHECK(s[i] == r[i] && s.data()[i] == r[i], "string:[]", "%s[%u]", which,
             i);
  }
}

template <typename A, typename B, typename C>
void cmp(A const& a, B const& b, sv_t<C> ra, sv_t<C> rb, char const* w) {
  MC_CHECK((a == b) == (ra == rb), "string:==", "%s: ==", w);
  MC_CHECK((a != b) == (ra != rb), "string:!=", "%s: !=", w);
  MC_CHECK((a < b) == (ra < rb), "string:<", "%s: <", w);
  MC_CHECK((a > b) == (ra > rb), "string:>", "%s: >", w);
  MC_CHECK((a <= b) == (ra <= rb), "string:<=", "%s: <=", w);
  MC_CHECK((a >= b) == (ra >= rb), "string:>=", "%s: >=", w);
}

inline bool starts(std::string_view, std::string_view) { return false; }

template <typename S, typename C>
void affixes(S const& s, str_t<C> const& r, str_t<C> const& p) {
  auto const sw = r.size() >= p.size() && r.compare(0, p.size(), p) == 0;
  auto const ew = r.size() >= p.size() &&
                  r.compare(r.size() - p.size(), p.size(), p) == 0;
  MC_CHECK(s.starts_with(sv_t<C>{p}) == sw, "string:starts_with",
           "%s starts_with %s", show<C>(r).c_str(), show<C>(p).c_str());
  MC_CHECK(s.ends_with(sv_t<C>{p}) == ew, "string:ends_with",
           "%s ends_with %s", show<C>(r).c_str(), show<C>(p).c_str());
  MC_CHECK(s.starts_with(S{sv_t<C>{p}}) == sw, "string:starts_with", "own type");
  MC_CHECK(s.ends_with(S{sv_t<C>{p}}) == ew, "string:ends_with", "own type");
  MC_CHECK(s.starts_with(p.data(), static_cast<unsigned>(p.size())) == sw &&
               s.ends_with(p.data(), static_cast<unsigned>(p.size())) == ew,
           "string:starts_with", "pointer and length");
  if (p.find(C(0)) == str_t<C>::npos) {
    MC_CHECK(s.starts_with(p.c_str()) == sw && s.ends_with(p.c_str()) == ew,
             "string:starts_with", "c string");
  }
  if (p.size() == 1U) {
    MC_CHECK(s.starts_with(p[0]) == sw && s.ends_with(p[0]) == ew,
             "string:starts_with", "single character");
  }
}

// Owning: string types that copy; otherwise view types that refer
template <typename S, typename C, bool Owning, bool HasErase, bool Affix,
          bool CStr>
void body() {
  auto const& P = pool<C>();
  {
    str_t<C> ra, rb;
    S a{sv_t<C>{}}, b{sv_t<C>{}};
    auto pickv = [&](int n) -> str_t<C> const& {
      return P[static_cast<unsigned>(mc::choose(n))];
    };
    auto const all = static_cast<int>(P.size());
    for (auto d = 0; d < mc::bound(); ++d) {
      auto const deep = d >= 1;
      switch (mc::choose(HasErase ? 15 : 13)) {
        case 0: {
          auto const& v = pickv(all);
          mc::op("assign view");
          mc::logf("a = view %s", show<C>(v).c_str());
          a = sv_t<C>{v};
          ra = v;
          break;
        }
        case 1: {
          auto const& v = pickv(deep ? 5 : all);
          mc::op("assign std::string");
          mc::logf("a = std::string %s", show<C>(v).c_str());
          a = v;
          ra = v;
          break;
        }
        case 2: {
          auto const& v = pickv(deep ? 3 : 5);
          mc::op("assign c string");
          mc::logf("a = c string %s", show<C>(v).c_str());
          a = v.c_str();
          ra = v;
          break;
        }
        case 3: {
          auto const& v = pickv(all);
          mc::op("construct");
          mc::logf("a = move(S{view %s})", show<C>(v).c_str());
          S t{sv_t<C>{v}};
          same(t, v, "constructed");
          a = std::move(t);
          ra = v;
          break;
        }
        case 4:
          mc::op("copy assign");
          mc::logf("b = a");
          b = a;
          rb = ra;
          break;
        case 5: {
          mc::op("copy construct");
          mc::logf("S c{b}; a = c");
          S c{b};
          same(c, rb, "copy");
          a = c;
          ra = rb;
          break;
        }
        case 6:
          mc::op("move assign");
          mc::logf("b = move(a); a = \"\"");
          b = std::move(a);
          rb = ra;
          if (Owning) {
            a = sv_t<C>{};
            ra.clear();
          } else {
            same(a, ra, "moved-from view");
          }
          break;
        case 7: {
          mc::op("move construct");
          mc::logf("S c{move(b)}; b = \"\"; a = move(c)");
          S c{std::move(b)};
          same(c, rb, "moved");
          b = sv_t<C>{};
          a = std::move(c);
          ra = rb;
          rb.clear();
          break;
        }
        case 8: {
          mc::op("self assign");
          mc::logf("a = a");
          auto& r = a;
          a = r;
          break;
        }
        case 9: {
          mc::op("self move assign");
          mc::logf("a = move(a)");
          auto& r = a;
          a = std::move(r);
          break;
        }
        case 10: {
          mc::op("assign part of own content");
          auto const off = std::min<std::size_t>(
              static_cast<std::size_t>(mc::choose(2)), ra.size());
          auto const n = ra.size() - off - (mc::choose(2) && ra.size() > off);
          mc::logf("a = a.view().substr(%zu, %zu)", off, n);
          a = a.view().substr(off, n);
          ra = ra.substr(off, n);
          break;
        }
        case 11: {
          mc::op("swap");
          mc::logf("swap(a, b)");
          using std::swap;
          swap(a, b);
          swap(ra, rb);
          break;
        }
        case 12: {
          mc::op("reset");
          mc::logf("a.reset()");
          a.reset();
          ra.clear();
          break;
        }
        case 13: {
          mc::op("erase");
          auto const n = static_cast<unsigned>(ra.size());
          auto const pos = n ? static_cast<unsigned>(mc::choose(2)) * (n / 2U)
                             : 0U;
          auto const rest = n - pos;
          auto const cnt = mc::pick<unsigned>({0U, 1U, ~0U});
          auto const k = std::min(cnt, rest);
          mc::logf("a.erase(%u, %u)", pos, k);
          if constexpr (HasErase) {
            a.erase(pos, k);
          }
          ra.erase(pos, k);
          break;
        }
        case 14: {
          mc::op("write character");
          if (ra.empty()) {
            break;
          }
          auto const i = mc::choose(2) ? ra.size() - 1U : 0U;
          mc::logf("a[%zu] = 'Q'", i);
          if (Owning) {
            a[i] = C('Q');
            ra[i] = C('Q');
          }
          break;
        }
      }
      mc::step();
      if (mc::fresh()) {
        same(a, ra, "a");
        same(b, rb, "b");
        cmp<S, S, C>(a, b, ra, rb, "string/string");
        cmp<S, sv_t<C>, C>(a, sv_t<C>{rb}, ra, rb, "string/view");
        cmp<sv_t<C>, S, C>(sv_t<C>{ra}, b, ra, rb, "view/string");
        cmp<S, C const*, C>(a, rb.c_str(), ra, sv_t<C>{rb.c_str()},
                            "string/cstr");
        cmp<C const*, S, C>(ra.c_str(), b, sv_t<C>{ra.c_str()}, rb,
                            "cstr/string");
        if constexpr (Affix) {
          affixes<S, C>(a, ra, rb);
        }
        if constexpr (CStr) {
          MC_CHECK(std::strlen(a.c_str()) == std::strlen(ra.c_str()) &&
                       a.c_str()[ra.size()] == 0,
                   "cstring:terminator", "c_str() is not NUL terminated");
        }
        mc::checked();
        mc::H h;
        h(ra.size());
        for (auto c : ra) {
          h(static_cast<std::uint64_t>(c));
        }
        h(rb.size());
        for (auto c : rb) {
          h(static_cast<std::uint64_t>(c));
        }
        mc::state(h);
      }
    }
  }
}

// all strings up to a length over a tiny alphabet: content, comparison with
// every other one, affixes, printing
template <typename S, typename C>
void all_strings() {
  auto const L = static_cast<unsigned>(15U / sizeof(C));
  auto make = [&](char const* n) {
    auto const base = static_cast<unsigned>(mc::choose(3));
    auto const stem = base == 0U ? 0U : base == 1U ? L - 2U : 2U * L;
    str_t<C> s(stem, C('b'));
    auto const len = static_cast<unsigned>(mc::choose(mc::bound() + 1));
    for (auto i = 0U; i != len; ++i) {
      s.push_back(mc::pick<C>({C('a'), C(0), static_cast<C>(~C(0))}));
    }
    mc::logf("%s = %s", n, show<C>(s).c_str());
    return s;
  };
  mc::op("all strings");
  auto const ra = make("a");
  auto const rb = make("b");
  S const a{sv_t<C>{ra}};
  S const b{rb.data(), static_cast<unsigned>(rb.size())};
  same(a, ra, "a");
  same(b, rb, "b");
  cmp<S, S, C>(a, b, ra, rb, "string/string");
  affixes<S, C>(a, ra, rb);
  if constexpr (sizeof(C) == 1U) {
    std::stringstream o;
    o << a;
    MC_CHECK(o.str() == ra, "string:print", "operator<<");
  }
  mc::step();
  mc::checked();
  mc::H h;
  for (auto c : ra) {
    h(static_cast<std::uint64_t>(c));
  }
  h(77U);
  for (auto c : rb) {
    h(static_cast<std::uint64_t>(c));
  }
  mc::state(h);
}

}  // namespace

#if PART == 1
MC_SCENARIO("raw::string", 4, 5) {
  body<cista::raw::string, char, true, true, true, false>();
}
MC_SCENARIO("offset::string", 3, 4) {
  body<cista::offset::string, char, true, true, true, false>();
}
MC_SCENARIO("offset::u16string", 4, 5) {
  body<cista::offset::u16string, char16_t, true, true, true, false>();
}
MC_SCENARIO("raw::u32string", 3, 4) {
  body<cista::raw::u32string, char32_t, true, true, true, false>();
}
#else
MC_SCENARIO("raw::string_view", 3, 4) {
  body<cista::raw::string_view, char, false, false, true, false>();
}
MC_SCENARIO("offset::string_view", 4, 5) {
  body<cista::offset::string_view, char, false, false, true, false>();
}
MC_SCENARIO("raw::u16string_view", 3, 4) {
  body<cista::raw::u16string_view, char16_t, false, false, true, false>();
}
MC_SCENARIO("offset::cstring", 4, 5) {
  body<cista::offset::cstring, char, true, false, false, true>();
}
MC_SCENARIO("all string pairs", 4, 6) {
  all_strings<cista::raw::string, char>();
}
MC_SCENARIO("all u32string pairs", 4, 5) {
  all_strings<cista::offset::u32string, char32_t>();
}
MC_SCENARIO("all string_view pairs", 4, 5) {
  all_strings<cista::offset::string_view, char>();
}
#endif
