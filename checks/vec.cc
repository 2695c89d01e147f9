// vector: every operation history vs std::vector, exact element lifetimes.
#include "mc.h"
#include "tracked.h"

#include <iterator>
#include <optional>
#include <sstream>
#include <stdexcept>

#include "cista/containers/vector.h"

using trk::tr;
using trk::val;
using ref_t = std::vector<int>;

namespace {

// single pass iterator
template <typename T>
struct input_it {
  using iterator_category = std::input_iterator_tag;
  using value_type = T;
  using difference_type = std::ptrdiff_t;
  using pointer = T const*;
  using reference = T const&;
  T const* p_;
  reference operator*() const { return *p_; }
  input_it& operator++() {
    ++p_;
    return *this;
  }
  bool operator==(input_it const& o) const { return p_ == o.p_; }
  bool operator!=(input_it const& o) const { return p_ != o.p_; }
};

template <typename V>
void same(V const& v, ref_t const& r, char const* which) {
  using std::begin;
  using std::end;
  MC_CHECK(v.size() == r.size(), "vector:size", "%s: size %zu, expected %zu",
           which, static_cast<std::size_t>(v.size()), r.size());
  MC_CHECK(v.empty() == r.empty(), "vector:empty", "%s: empty()", which);
  for (auto i = 0U; i != r.size(); ++i) {
    MC_CHECK(val(v[i]) == r[i], "vector:content", "%s[%u] = %d, expected %d",
             which, i, val(v[i]), r[i]);
    MC_CHECK(&v.at(i) == &v[i] && &v.data()[i] == &v[i], "vector:at",
             "%s.at(%u)", which, i);
  }
  auto i = 0U;
  for (auto const& x : v) {
    MC_CHECK(val(x) == r[i], "vector:iter", "%s iterator at %u", which, i);
    ++i;
  }
  MC_CHECK(i == r.size(), "vector:iter", "%s iterator length", which);
  MC_CHECK(static_cast<std::size_t>(end(v) - begin(v)) == r.size() &&
               static_cast<std::size_t>(v.cend() - v.cbegin()) == r.size(),
           "vector:iter", "%s begin/end", which);
  auto& m = const_cast<V&>(v);
  i = static_cast<unsigned>(r.size());
  for (auto it = m.rbegin(); it != m.rend(); ++it) {
    --i;
    MC_CHECK(val(*it) == r[i], "vector:riter", "%s reverse iterator at %u",
             which, i);
  }
  MC_CHECK(i == 0U, "vector:riter", "%s reverse iterator length", which);
  if (!r.empty()) {
    MC_CHECK(val(v.front()) == r.front() && val(v.back()) == r.back(),
             "vector:frontback", "%s front/back", which);
    MC_CHECK(v.contains(&v[0]) && !v.contains(v.data() + r.size()),
             "vector:contains", "%s contains", which);
    MC_CHECK(v.index_of(&v.back()) == r.size() - 1U, "vector:index_of",
             "%s index_of", which);
  }
  if (mc::thorough() || r.size() % 3U == 0U) {
    auto const bad = r.size() + (r.size() > 4U ? 1000U : 0U);
    auto threw = false;
    try {
      (void)m.at(static_cast<std::uint32_t>(bad));
    } catch (std::out_of_range const&) {
      threw = true;
    }
    MC_CHECK(threw, "vector:at_oob", "%s.at(%zu) of %zu did not throw", which,
             bad, r.size());
  }
}

template <typename V>
void cmp(V const& a, V const& b, ref_t const& ra, ref_t const& rb) {
  MC_CHECK((a == b) == (ra == rb), "vector:==", "operator==");
  MC_CHECK((a != b) == (ra != rb), "vector:!=", "operator!=");
  MC_CHECK((a < b) == (ra < rb), "vector:<", "operator<");
  MC_CHECK((a > b) == (ra > rb), "vector:>", "operator>");
  MC_CHECK((a <= b) == (ra <= rb), "vector:<=", "operator<=");
  MC_CHECK((a >= b) == (ra >= rb), "vector:>=", "operator>=");
}

inline void lifetimes(std::size_t const expected_live, char const* op) {
  MC_CHECK(trk::R.error == nullptr, "vector:lifetime", "%s: %s", op,
           trk::R.error);
  MC_CHECK(trk::R.n == expected_live, "vector:live",
           "%s: %u live elements, expected %zu", op, trk::R.n, expected_live);
}

template <typename V, typename T, bool Tracked>
void body() {
  trk::R.reset();
  auto next = 0;
  {
    V a, b;
    ref_t ra, rb;
    // non-initial start states: empty / one / non full / exactly full storage
    auto const start = mc::pick({0, 1, 3, 4});
    for (auto i = 0; i < start; ++i) {
      a.push_back(T{++next});
      ra.push_back(next);
    }
    if (mc::choose(2) == 1) {
      b.emplace_back(50);
      b.emplace_back(51);
      rb = {50, 51};
    }
    mc::logf("start a=%d elements, b=%zu", start, rb.size());

    auto const steps = mc::bound();
    for (auto s = 0; s < steps; ++s) {
      auto const n = static_cast<int>(ra.size());
      auto const kind = mc::choose(21);
      auto pos = [&](int hi) {  // 0, middle, hi
        if (hi == 0) {
          return 0;
        }
        if (hi == 1) {
          return mc::choose(2);
        }
        auto const c = mc::choose(3);
        return c == 0 ? 0 : c == 1 ? hi / 2 : hi;
      };
      char const* op = "?";
      auto B = [&](char const* x) {
        op = x;
        mc::op(x);
      };
      switch (kind) {
        case 0: {
          B("push_back(const&)");
          T const x{++next};
          mc::logf("a.push_back(%d)", next);
          a.push_back(x);
          ra.push_back(next);
          break;
        }
        case 1: {
          B("push_back(&&)");
          mc::logf("a.push_back(move(%d))", ++next);
          a.push_back(T{next});
          ra.push_back(next);
          break;
        }
        case 2: {
          B("emplace_back");
          mc::logf("a.emplace_back(%d)", ++next);
          auto& x = a.emplace_back(next);
          ra.push_back(next);
          MC_CHECK(&x == &a.back(), "vector:emplace_back:ret",
                   "emplace_back does not return the new element");
          break;
        }
        case 3: {
          B("push_back(own element)");
          if (n == 0) {
            continue;
          }
          auto const i = pos(n - 1);
          mc::logf("a.push_back(a[%d])", i);
          a.push_back(a[static_cast<unsigned>(i)]);
          ra.push_back(int{ra[static_cast<unsigned>(i)]});
          break;
        }
        case 4: {
          B("emplace_back(own element)");
          if (n == 0) {
            continue;
          }
          mc::logf("a.emplace_back(a[0])");
          a.emplace_back(a[0]);
          ra.push_back(int{ra[0]});
          break;
        }
        case 5: {
          B("insert(pos,value)");
          auto const i = pos(n);
          mc::logf("a.insert(%d, %d)", i, ++next);
          auto* r = a.insert(a.begin() + i, T{next});
          ra.insert(ra.begin() + i, next);
          MC_CHECK(r == a.begin() + i, "vector:insert:ret",
                   "insert(pos, value) does not return the inserted element");
          break;
        }
        case 6: {
          B("insert(pos,count,value)");
          auto const i = pos(n);
          auto const c = mc::choose(3);
          mc::logf("a.insert(%d, %d x %d)", i, c, ++next);
          T const x{next};
          auto* r = a.insert(a.begin() + i, static_cast<unsigned>(c), x);
          ra.insert(ra.begin() + i, static_cast<std::size_t>(c), next);
          MC_CHECK(c == 0 || r == a.begin() + i, "vector:insert_n:ret",
                   "insert(pos, n, value) returned offset %td",
                   r - a.begin());
          break;
        }
        case 7: {
          B("insert(pos,forward range)");
          auto const i = pos(n);
          auto const c = mc::choose(4);
          mc::logf("a.insert(%d, forward range of %d)", i, c);
          T src[3] = {T{next + 1}, T{next + 2}, T{next + 3}};
          auto const* r = a.insert(a.begin() + i, &src[0], &src[0] + c);
          for (auto j = 0; j < c; ++j) {
            ra.insert(ra.begin() + i + j, next + 1 + j);
          }
          next += 3;
          MC_CHECK(r == a.begin() + i, "vector:insert_range:ret",
                   "insert(pos, first, last) returned offset %td, expected %d",
                   r - a.begin(), i);
          break;
        }
        case 8: {
          B("insert(pos,input range)");
          auto const i = pos(n);
          auto const c = mc::choose(3);
          mc::logf("a.insert(%d, input range of %d)", i, c);
          T const src[2] = {T{next + 1}, T{next + 2}};
          a.insert(a.begin() + i, input_it<T>{src}, input_it<T>{src + c});
          for (auto j = 0; j < c; ++j) {
            ra.insert(ra.begin() + i + j, next + 1 + j);
          }
          next += 2;
          break;
        }
        case 9: {
          B("erase(pos)");
          if (n == 0) {
            continue;
          }
          auto const i = pos(n - 1);
          mc::logf("a.erase(%d)", i);
          auto* r = a.erase(a.begin() + i);
          ra.erase(ra.begin() + i);
          MC_CHECK(r == a.begin() + i, "vector:erase:ret",
                   "erase(pos) returned offset %td, expected %d",
                   r - a.begin(), i);
          break;
        }
        case 10: {
          B("erase(first,last)");
          auto const i = pos(n);
          auto const j = i + pos(n - i);
          mc::logf("a.erase(%d, %d)", i, j);
          auto* r = a.erase(a.begin() + i, a.begin() + j);
          ra.erase(ra.begin() + i, ra.begin() + j);
          MC_CHECK(r == a.begin() + i, "vector:erase_range:ret",
                   "erase(first, last) returned offset %td, expected %d",
                   r - a.begin(), i);
          break;
        }
        case 11: {
          B("pop_back");
          if (n == 0) {
            continue;
          }
          mc::logf("a.pop_back()");
          a.pop_back();
          ra.pop_back();
          break;
        }
        case 12: {
          B("clear");
          mc::logf("a.clear()");
          a.clear();
          ra.clear();
          break;
        }
        case 13: {
          B("resize(n)");
          auto const k = mc::pick({0, 1, 2, 5});
          mc::logf("a.resize(%d)", k);
          a.resize(static_cast<unsigned>(k));
          ra.resize(static_cast<unsigned>(k));
          break;
        }
        case 14: {
          B("resize(n,value)");
          auto const k = mc::pick({0, 3, 9});
          mc::logf("a.resize(%d, %d)", k, ++next);
          a.resize(static_cast<unsigned>(k), T{next});
          ra.resize(static_cast<unsigned>(k), next);
          break;
        }
        case 15: {
          B("reserve");
          auto const k = mc::pick({0, 5, 9});
          mc::logf("a.reserve(%d)", k);
          auto const* before = a.data();
          a.reserve(static_cast<unsigned>(k));
          MC_CHECK(k > n || n == 0 || before == a.data(), "vector:reserve",
                   "reserve(%d) reallocated a vector of %d elements", k, n);
          break;
        }
        case 16: {
          B("set(range)");
          auto const c = mc::choose(3);
          mc::logf("a.set(range of %d)", c);
          T const src[2] = {T{next + 1}, T{next + 2}};
          a.set(&src[0], &src[0] + c);
          ra.clear();
          for (auto j = 0; j < c; ++j) {
            ra.push_back(next + 1 + j);
          }
          next += 2;
          break;
        }
        case 17: {
          switch (mc::choose(4)) {
            case 0:
              B("copy assign");
              mc::logf("a = b");
              a = b;
              ra = rb;
              break;
            case 1:
              B("copy assign");
              mc::logf("b = a");
              b = a;
              rb = ra;
              break;
            case 2: {
              B("self copy assign");
              mc::logf("a = a");
              auto& x = a;
              a = x;
              break;
            }
            case 3: {
              B("copy construct");
              mc::logf("V c{a}; c.push_back; a = c");
              V c{a};
              same(c, ra, "copy");
              c.push_back(T{++next});
              same(a, ra, "original");
              ra.push_back(next);
              a = c;
              break;
            }
          }
          break;
        }
        case 18: {
          switch (mc::choose(3)) {
            case 0:
              B("move assign");
              mc::logf("a = move(b)");
              a = std::move(b);
              ra = rb;
              rb.clear();
              MC_CHECK(b.empty(), "vector:move", "moved-from not empty");
              break;
            case 1: {
              B("move construct");
              mc::logf("V c{move(a)}; b = move(c)");
              V c{std::move(a)};
              MC_CHECK(a.empty(), "vector:move", "moved-from not empty");
              same(c, ra, "moved");
              b = std::move(c);
              rb = ra;
              ra.clear();
              break;
            }
            case 2: {
              B("swap");
              mc::logf("swap(a, b)");
              using std::swap;
              swap(a, b);
              swap(ra, rb);
              break;
            }
          }
          break;
        }
        case 19: {
          B("construct");
          switch (mc::choose(4)) {
            case 0:
              mc::logf("a = V{1,2,3}");
              a = V{T{1}, T{2}, T{3}};
              ra = {1, 2, 3};
              break;
            case 1:
              mc::logf("a = V(5)");
              a = V(5U);
              ra = ref_t(5);
              break;
            case 2:
              mc::logf("a = V(3, 8)");
              a = V(3U, T{8});
              ra = ref_t(3, 8);
              break;
            case 3: {
              mc::logf("a = V(b.begin(), b.end())");
              V c(b.begin(), b.end());
              a = c;
              ra = rb;
              break;
            }
          }
          break;
        }
        case 20: {  // arguments that refer to an element of the vector itself
          if (n == 0) {
            continue;
          }
          auto const src = static_cast<unsigned>(pos(n - 1));
          auto const val = int{ra[src]};
          switch (mc::choose(3)) {
            case 0: {
              B("insert(pos, own element)");
              auto const i = pos(n);
              mc::logf("a.insert(%d, a[%u])", i, src);
              a.insert(a.begin() + i, a[src]);
              ra.insert(ra.begin() + i, val);
              break;
            }
            case 1: {
              B("insert(pos, n, own element)");
              auto const i = pos(n);
              auto const c = mc::pick({1, 5});
              mc::logf("a.insert(%d, %d x a[%u])", i, c, src);
              a.insert(a.begin() + i, static_cast<unsigned>(c), a[src]);
              ra.insert(ra.begin() + i, static_cast<std::size_t>(c), val);
              break;
            }
            case 2: {
              B("resize(n, own element)");
              auto const k = mc::pick({1, 9});
              mc::logf("a.resize(%d, a[%u])", k, src);
              a.resize(static_cast<unsigned>(k), a[src]);
              ra.resize(static_cast<unsigned>(k), val);
              break;
            }
          }
          break;
        }
        default: break;
      }
      mc::step();
      if (mc::fresh()) {
        if (Tracked) {
          lifetimes(ra.size() + rb.size(), op);
        }
        same(a, ra, "a");
        same(b, rb, "b");
        cmp(a, b, ra, rb);
        cmp(a, a, ra, ra);
        if (Tracked) {
          lifetimes(ra.size() + rb.size(), op);
        }
        mc::checked();
        mc::H h;
        h(ra.size());
        for (auto x : ra) {
          h(static_cast<unsigned>(x));
        }
        h(rb.size());
        for (auto x : rb) {
          h(static_cast<unsigned>(x));
        }
        mc::state(h);
      }
    }
  }
  if (Tracked) {
    lifetimes(0, "destructor");
  }
}

// capacity growth over many elements: push until several reallocations
template <typename V, typename T>
void growth() {
  trk::R.reset();
  {
    V a;
    ref_t ra;
    auto const n = mc::choose(mc::bound());
    auto const how = mc::choose(4);
    mc::op("growth");
    mc::logf("grow to %d using method %d", n, how);
    for (auto i = 0; i < n; ++i) {
      switch (how) {
        case 0: a.push_back(T{i}); break;
        case 1: a.emplace_back(i); break;
        case 2: a.insert(a.begin(), T{i}); break;
        case 3: a.resize(static_cast<unsigned>(i) + 1U, T{i}); break;
      }
      if (how == 2) {
        ra.insert(ra.begin(), i);
      } else {
        ra.push_back(i);
      }
      mc::step();
    }
    same(a, ra, "a");
    mc::checked();
    mc::state(mc::H{}(static_cast<unsigned>(n))(static_cast<unsigned>(how)));
    while (!ra.empty()) {
      a.erase(a.begin() + (a.size() / 2U));
      ra.erase(ra.begin() + static_cast<long>(ra.size() / 2U));
      same(a, ra, "a");
    }
  }
  lifetimes(0, "destructor");
}

}  // namespace

MC_SCENARIO("raw::vector<int>", 3, 4) { body<cista::raw::vector<int>, int, false>(); }
MC_SCENARIO("offset::vector<tracked>", 3, 4) {
  body<cista::offset::vector<tr>, tr, true>();
}
MC_SCENARIO("raw::vector<tracked>", 3, 4) {
  body<cista::raw::vector<tr>, tr, true>();
}
MC_SCENARIO("growth raw tracked", 40, 150) {
  growth<cista::raw::vector<tr>, tr>();
}
MC_SCENARIO("growth offset int", 40, 150) {
  growth<cista::offset::vector<int>, int>();
}
