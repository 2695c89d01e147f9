// cstring: every history of constructions, owning and non-owning assignments
// (including from own content), copies and moves vs. std::string.
#include "mc.h"

#include <sstream>
#include <string>
#include <string_view>
#include <utility>

#include "cista/containers/cstring.h"

namespace {

std::vector<std::string> const& pool() {
  static auto const p = [] {
    std::vector<std::string> v;
    for (auto const n : {0U, 1U, 14U, 15U, 16U, 40U}) {
      auto s = std::string{};
      for (auto i = 0U; i != n; ++i) {
        s.push_back(static_cast<char>('a' + (i * 7U) % 26U));
      }
      v.push_back(s);
    }
    v.push_back(std::string{"a\0h", 3});  // embedded NUL, shares a prefix
    auto h = v[4];
    h[0] = static_cast<char>(0xFF);
    h[15] = '\0';
    v.push_back(h);
    auto t = v[3];
    t[14] = '\0';  // trailing NUL at the inline limit
    v.push_back(t);
    return v;
  }();
  return p;
}

std::string show(std::string_view s) {
  auto o = std::string{};
  for (auto const c : s) {
    char b[8];
    std::snprintf(b, sizeof(b), c >= 32 && c < 127 ? "%c" : "\\x%02x", static_cast<unsigned char>(c));
    o += b;
  }
  return "\"" + o + "\"(" + std::to_string(s.size()) + ")";
}

template <typename S>
void same(S& s, std::string const& r, bool const terminated, char const* which) {
  S const& c = s;
  MC_CHECK(c.size() == r.size() && c.empty() == r.empty(), "size", "%s: size %u, expected %s", which,
           static_cast<unsigned>(c.size()), show(r).c_str());
  MC_CHECK(c.view() == r && c.str() == r && static_cast<std::string_view>(c) == r, "content", "%s: content %s, expected %s",
           which, show(c.view()).c_str(), show(r).c_str());
  MC_CHECK(c.end() - c.begin() == static_cast<std::ptrdiff_t>(r.size()) && std::equal(c.begin(), c.end(), r.begin()) &&
               std::equal(s.begin(), s.end(), r.begin()) && end(c) - begin(c) == static_cast<std::ptrdiff_t>(r.size()) &&
               begin(s) == s.begin() && end(s) == s.end() && c.data() == c.begin() && s.data() == s.begin(),
           "iter", "%s: iteration", which);
  for (auto i = std::size_t{0}; i != r.size(); ++i) {
    MC_CHECK(s[i] == r[i] && c[i] == r[i], "[]", "%s: [%zu]", which, i);
  }
  if (terminated) {
    MC_CHECK(c.c_str()[c.size()] == '\0', "terminated", "%s: %s is not NUL terminated", which, show(r).c_str());
    MC_CHECK(c.is_owning(), "owning", "%s: does not own its content", which);
  }
}

#define CMP(A, B, RA, RB, WHAT)                                                                                        \
  MC_CHECK(((A) == (B)) == ((RA) == (RB)) && ((A) != (B)) == ((RA) != (RB)) && ((A) < (B)) == ((RA) < (RB)) &&         \
               ((A) > (B)) == ((RA) > (RB)) && ((A) <= (B)) == ((RA) <= (RB)) && ((A) >= (B)) == ((RA) >= (RB)),       \
           "compare", "%s: %s and %s", WHAT, show(RA).c_str(), show(RB).c_str())

template <typename S>
void compare(S const& a, std::string const& ra, S const& b, std::string const& rb) {
  CMP(a, b, ra, rb, "two strings");
  CMP(a, std::string_view{rb}, ra, rb, "view right");
  CMP(std::string_view{ra}, b, ra, rb, "view left");
  auto const za = std::string{ra.c_str()}, zb = std::string{rb.c_str()};
  CMP(a, zb.c_str(), ra, zb, "char const* right");
  CMP(za.c_str(), b, za, rb, "char const* left");
  std::ostringstream o;
  o << a;
  MC_CHECK(o.str() == ra, "print", "prints %s", show(o.str()).c_str());
}

// Kind: 0 = basic_cstring, 1 = basic_cstring_view, 2 = generic_cstring
template <typename S, int Kind>
void history() {
  static auto const small = std::vector<std::string>{pool()[0], pool()[3], pool()[4], pool()[6]};
  auto const& P = mc::bound() > 2 ? small : pool();
  {
    S* s[2];
    std::string r[2];
    bool owns[2];  // content is owned, so NUL terminated and modifiable
    auto const make = [&](int const i) -> S* {
      auto const how = mc::choose(3);
      auto const& x = P[static_cast<std::size_t>(mc::choose(static_cast<int>(P.size())))];
      r[i] = x;
      owns[i] = Kind != 1;
      mc::logf("%d: construct %d %s", i, how, show(x).c_str());
      mc::op("construct");
      if constexpr (Kind == 2) {
        owns[i] = mc::choose(2) == 0;
        if (how == 0) {
          return owns[i] ? new S(x, S::owning) : new S(x, S::non_owning);
        } else if (how == 1) {
          return owns[i] ? new S(std::string_view{x}, S::owning) : new S(std::string_view{x}, S::non_owning);
        }
        auto const l = static_cast<typename S::msize_t>(x.size());
        return owns[i] ? new S(x.c_str(), l, S::owning) : new S(x.c_str(), l, S::non_owning);
      } else {
        if (how == 0) {
          return new S(x);
        } else if (how == 1) {
          return new S(std::string_view{x});
        }
        return new S(x.c_str(), static_cast<typename S::msize_t>(x.size()));
      }
    };
    r[0] = small[static_cast<std::size_t>(mc::choose(3))];
    owns[0] = Kind == 0;
    mc::op("construct");
    mc::logf("a: %s", show(r[0]).c_str());
    if constexpr (Kind == 2) {
      s[0] = new S(r[0], S::owning);
      owns[0] = true;
    } else {
      s[0] = new S(pool()[r[0].empty() ? 0U : r[0].size() == 15U ? 3U : 4U]);
    }
    s[1] = new S(small[2], S::owning);
    r[1] = small[2];
    owns[1] = true;
    auto const steps = mc::bound();
    for (auto step = 0; step != steps; ++step) {
      mc::step();
      auto const op = mc::choose(13);
      auto const i = op == 12 ? 0 : mc::choose(2);
      auto const j = 1 - i;
      auto log = [&](char const* what, std::string_view x = {}) {
        mc::op(what);
        mc::logf("%d: %s %s", i, what, show(x).c_str());
      };
      switch (op) {
        case 0: {  // assign other content
          auto const& x = P[static_cast<std::size_t>(mc::choose(static_cast<int>(P.size())))];
          auto const how = mc::choose(3);
          log("assign", x);
          r[i] = how == 2 ? std::string{x.c_str()} : x;
          if constexpr (Kind != 2) {
            if (how == 0) {
              *s[i] = x;
            } else if (how == 1) {
              *s[i] = std::string_view{x};
            } else {
              *s[i] = x.c_str();
            }
            owns[i] = Kind == 0;
          } else {
            *s[i] = how == 0 ? S{x, S::owning} : how == 1 ? S{std::string_view{x}, S::owning} : S{x.c_str(), S::owning};
            owns[i] = true;
          }
          break;
        }
        case 1:
        case 2: {
          auto const& x = P[static_cast<std::size_t>(mc::choose(static_cast<int>(P.size())))];
          auto const how = mc::choose(4);
          log(op == 1 ? "set_owning" : "set_non_owning", x);
          r[i] = how == 2 ? std::string{x.c_str()} : x;
          auto const l = static_cast<typename S::msize_t>(x.size());
          if (op == 1) {
            how == 0 ? s[i]->set_owning(x) : how == 1 ? s[i]->set_owning(std::string_view{x}) : how == 2 ? s[i]->set_owning(x.c_str()) : s[i]->set_owning(x.c_str(), l);
          } else {
            how == 0 ? s[i]->set_non_owning(x) : how == 1 ? s[i]->set_non_owning(std::string_view{x}) : how == 2 ? s[i]->set_non_owning(x.c_str()) : s[i]->set_non_owning(x.c_str(), l);
            MC_CHECK(s[i]->data() == x.data(), "non_owning", "does not refer to the given characters");
          }
          owns[i] = op == 1;
          break;
        }
        case 3: {  // from own content
          if (!owns[i]) {
            continue;
          }
          auto const from = mc::pick({std::size_t{0}, std::size_t{1}, r[i].size() / 2U});
          auto const how = mc::choose(Kind == 0 ? 3 : 2);
          if (from > r[i].size()) {
            continue;
          }
          log("set to own suffix");
          auto const own = s[i]->view().substr(from);
          auto const x = std::string{own};
          if (how == 0) {
            s[i]->set_owning(own);
            r[i] = x;
          } else if (how == 1) {
            s[i]->set_owning(s[i]->c_str() + from);
            r[i] = std::string{x.c_str()};
          } else if constexpr (Kind == 0) {
            *s[i] = own;
            r[i] = x;
          }
          break;
        }
        case 4:
        case 5: {
          if (Kind == 1 && op == 5 && s[j]->is_short()) {
            continue;  // a view of an inline string ends with it
          }
          log(op == 4 ? "copy assign" : "copy construct");
          if (Kind == 1 && owns[j]) {
            // the copy of a view is a view of the other one's content
            S t{*s[j]};
            MC_CHECK(t.view() == r[j] && t.data() == s[j]->data(), "copy", "copy of a view");
            continue;
          }
          if (op == 4) {
            *s[i] = *s[j];
          } else {
            auto* const n = new S(std::as_const(*s[j]));
            delete s[i];
            s[i] = n;
          }
          r[i] = r[j];
          owns[i] = Kind == 0 || (Kind == 2 && owns[j]);
          MC_CHECK(!owns[i] || s[i]->data() != s[j]->data(), "copy", "the copy shares its content");
          break;
        }
        case 6:
        case 7: {
          if (Kind == 1 && owns[j]) {
            continue;  // moving a view is copying it
          }
          log(op == 6 ? "move assign" : "move construct");
          if (op == 6) {
            *s[i] = std::move(*s[j]);
          } else {
            auto* const n = new S(std::move(*s[j]));
            delete s[i];
            s[i] = n;
          }
          r[i] = r[j];
          owns[i] = owns[j];
          if (Kind != 1) {
            r[j] = s[j]->str();  // unspecified, but valid
            owns[j] = false;
          }
          break;
        }
        case 8: {
          log("self assign");
          auto& self = *s[i];
          if (Kind == 1 && owns[i]) {
            continue;
          }
          if (mc::choose(2) == 0) {
            *s[i] = self;
            owns[i] = Kind == 0 || (Kind == 2 && owns[i]);
          } else {
            *s[i] = std::move(self);
          }
          break;
        }
        case 9: {
          log("reset");
          s[i]->reset();
          r[i].clear();
          owns[i] = true;
          break;
        }
        case 10: {
          if (!owns[i] || r[i].empty()) {
            continue;
          }
          log("modify");
          (*s[i])[r[i].size() - 1U] = r[i].back() = 'Z';
          *s[i]->begin() = r[i][0] = 'Y';
          s[i]->data()[r[i].size() / 2U] = r[i][r[i].size() / 2U] = '\0';
          break;
        }
        case 11: {
          log("replace");
          auto* const n = make(i);
          delete s[i];
          s[i] = n;
          break;
        }
        case 12: {
          if (Kind == 1) {
            continue;
          }
          log("swap");
          std::swap(*s[0], *s[1]);
          std::swap(r[0], r[1]);
          std::swap(owns[0], owns[1]);
          break;
        }
      }
      for (auto k = 0; k != 2; ++k) {
        same(*s[k], r[k], owns[k], k == 0 ? "a" : "b");
      }
      compare<S>(*s[0], r[0], *s[1], r[1]);
      compare<S>(*s[1], r[1], *s[1], r[1]);
      auto h = mc::H{};
      for (auto k = 0; k != 2; ++k) {
        h(r[k].size())(owns[k])(s[k]->is_short());
      }
      mc::state(h);
    }
    delete s[0];
    delete s[1];
  }
  mc::checked();
}

using off = cista::offset::ptr<char const>;
#if PART == 1
MC_SCENARIO("cstring offset", 2, 3) { history<cista::basic_cstring<off>, 0>(); }
MC_SCENARIO("cstring raw", 2, 3) { history<cista::basic_cstring<char const*>, 0>(); }
#elif PART == 2
MC_SCENARIO("cstring_view offset", 2, 3) { history<cista::basic_cstring_view<off>, 1>(); }
MC_SCENARIO("cstring_view raw", 2, 3) { history<cista::basic_cstring_view<char const*>, 1>(); }
#else
MC_SCENARIO("generic_cstring offset", 2, 3) { history<cista::generic_cstring<off>, 2>(); }
MC_SCENARIO("generic_cstring raw", 2, 3) { history<cista::generic_cstring<char const*>, 2>(); }
#endif

// all pairs of strings
MC_SCENARIO("compare", 1, 1) {
  using S = cista::basic_cstring<off>;
  auto const n = static_cast<int>(pool().size());
  auto const& x = pool()[static_cast<std::size_t>(mc::choose(n))];
  auto const& y = pool()[static_cast<std::size_t>(mc::choose(n))];
  compare<S>(S{x}, x, S{y}, y);
  using V = cista::basic_cstring_view<off>;
  compare<V>(V{x}, x, V{y}, y);
  mc::checked();
}

}  // namespace
