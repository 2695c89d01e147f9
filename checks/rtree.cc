// rtree: every insertion/deletion history vs a plain list of entries.
#include "mc.h"

#include <set>
#include <cstring>
#include <unistd.h>

#include "cista/containers/rtree.h"
#include "cista/serialization.h"

namespace {

template <typename T>
struct ref_entry {
  std::vector<int> lo, hi;
  T id;
};

template <typename Tree, std::uint32_t Dims, typename Num>
struct model {
  using coord = typename Tree::coord_t;
  using T = std::uint32_t;

  static coord at(std::vector<int> const& c) {
    coord x;
    for (auto i = 0U; i != Dims; ++i) {
      x[i] = static_cast<Num>(c[i]);
    }
    return x;
  }

  // structure of the tree
  static void shape(Tree const& t, std::size_t const size) {
    auto const max_items = t.nodes_.size() == 0U ? 0U : t.nodes_[typename Tree::node_idx_t{0U}].rects_.size();
    MC_CHECK(t.m_.count_ == size, "size", "count %zu, expected %zu", static_cast<std::size_t>(t.m_.count_), size);
    auto seen = std::vector<char>(t.nodes_.size(), 0);
    auto entries = std::size_t{0};
    auto const invalid = Tree::node_idx_t::invalid();
    if (t.m_.root_ != invalid) {
      struct frame {
        static void run(Tree const& t, typename Tree::node_idx_t const idx, unsigned const depth, std::vector<char>& seen,
                        std::size_t& entries, std::size_t const max_items, bool const nonempty) {
          auto const i = static_cast<std::size_t>(cista::to_idx(idx));
          MC_CHECK(i < seen.size(), "node_index", "node %zu of %zu", i, seen.size());
          MC_CHECK(seen[i] == 0, "node_twice", "node %zu is reachable twice", i);
          seen[i] = 1;
          auto const& n = t.get_node(idx);
          MC_CHECK(n.count_ <= max_items, "node_count", "%u entries in a node", n.count_);
          MC_CHECK(n.count_ >= 1U || !nonempty, "node_empty", "empty node %zu", i);
          if (n.kind_ == Tree::kind::kLeaf) {
            MC_CHECK(depth + 1U == t.m_.height_, "leaf_depth", "leaf at depth %u of height %u", depth,
                     static_cast<unsigned>(t.m_.height_));
            entries += n.count_;
            return;
          }
          MC_CHECK(n.kind_ == Tree::kind::kBranch, "kind", "node %zu is on the free list", i);
          for (auto k = 0U; k != n.count_; ++k) {
            auto const c = n.children_[k];
            MC_CHECK(static_cast<std::size_t>(cista::to_idx(c)) < seen.size(), "node_index", "child of %zu", i);
            auto const& child = t.get_node(c);
            for (auto j = 0U; j != child.count_; ++j) {
              MC_CHECK(n.rects_[k].contains(child.rects_[j]), "enclose", "box of node %zu does not enclose its entry %u",
                       static_cast<std::size_t>(cista::to_idx(c)), j);
            }
            run(t, c, depth + 1U, seen, entries, max_items, true);
          }
        }
      };
      frame::run(t, t.m_.root_, 0U, seen, entries, max_items, size != 0U);
      auto const& root = t.get_node(t.m_.root_);
      for (auto j = 0U; j != root.count_; ++j) {
        MC_CHECK(t.m_.rect_.contains(root.rects_[j]), "enclose", "box of the tree does not enclose entry %u of the root", j);
      }
    }
    MC_CHECK(entries == size, "entries", "%zu entries in the leaves, expected %zu", entries, size);
    auto f = t.m_.free_list_;
    while (f != invalid) {
      auto const i = static_cast<std::size_t>(cista::to_idx(f));
      MC_CHECK(i < seen.size(), "free_index", "free node %zu of %zu", i, seen.size());
      MC_CHECK(seen[i] == 0, "free_live", "free node %zu is in use or listed twice", i);
      seen[i] = 2;
      auto const& n = t.get_node(f);
      f = n.kind_ == Tree::kind::kEndFreeList ? invalid : typename Tree::node_idx_t{n.count_};
    }
    for (auto i = std::size_t{0}; i != seen.size(); ++i) {
      MC_CHECK(seen[i] != 0, "lost_node", "node %zu is neither in use nor free", i);
    }
  }

  static void content(Tree const& t, std::vector<ref_entry<T>> const& r,
                      std::vector<std::pair<std::vector<int>, std::vector<int>>> const& queries, bool const stop) {
    for (auto const& [lo, hi] : queries) {
      auto got = std::vector<T>{};
      auto wrong = false;
      t.search(at(lo), at(hi), [&](coord const& a, coord const& b, T const& id) {
        got.push_back(id);
        for (auto const& e : r) {
          if (e.id == id) {
            for (auto i = 0U; i != Dims; ++i) {
              wrong |= a[i] != static_cast<Num>(e.lo[i]) || b[i] != static_cast<Num>(e.hi[i]);
            }
          }
        }
        return true;
      });
      auto exp = std::vector<T>{};
      for (auto const& e : r) {
        auto hit = true;
        for (auto i = 0U; i != Dims; ++i) {
          hit = hit && e.lo[i] <= hi[i] && e.hi[i] >= lo[i];
        }
        if (hit) {
          exp.push_back(e.id);
        }
      }
      std::sort(got.begin(), got.end());
      std::sort(exp.begin(), exp.end());
      MC_CHECK(!wrong, "coordinates", "search reports other coordinates than inserted");
      MC_CHECK(got == exp, "search", "search [%d.. - %d..]: %zu results, expected %zu", lo[0], hi[0], got.size(), exp.size());
      if (stop) {
        for (auto k = std::size_t{1}; k <= exp.size(); ++k) {
          auto calls = std::size_t{0};
          t.search(at(lo), at(hi), [&](coord const&, coord const&, T const&) { return ++calls != k; });
          MC_CHECK(calls == k, "stop", "search continues after its callback stopped it: %zu calls, expected %zu", calls, k);
        }
      }
    }
  }
};

using box = std::pair<std::vector<int>, std::vector<int>>;

std::vector<box> boxes(unsigned const dims, int const n) {
  auto one = std::vector<std::pair<int, int>>{};
  for (auto a = 0; a != n; ++a) {
    for (auto b = a; b != n; ++b) {
      one.emplace_back(a, b);
    }
  }
  auto all = std::vector<box>{};
  if (dims == 1U) {
    for (auto const& [a, b] : one) {
      all.push_back({{a}, {b}});
    }
  } else {
    for (auto const& [a, b] : one) {
      for (auto const& [c, d] : one) {
        all.push_back({{a, c}, {b, d}});
      }
    }
  }
  return all;
}

// alphabet of rectangles used for insertions (shifted around the origin)
struct setup {
  std::vector<box> insert;
  std::vector<box> query;
};

setup make(unsigned const dims, int const shift, bool const small) {
  auto s = setup{};
  if (dims == 1U) {
    s.insert = small ? std::vector<box>{{{0}, {0}}, {{1}, {1}}, {{2}, {2}}, {{0}, {2}}} : boxes(1, 3);
    s.query = boxes(1, 3);
  } else {
    s.insert = {{{0, 0}, {0, 0}}, {{2, 2}, {2, 2}}, {{0, 2}, {0, 2}}, {{1, 0}, {2, 0}}, {{1, 1}, {1, 2}}, {{0, 0}, {2, 2}}};
    if (small) {
      s.insert.resize(4);
    }
    s.query = boxes(2, 3);
  }
  s.query.push_back(dims == 1U ? box{{-9}, {9}} : box{{-9, -9}, {9, 9}});
  for (auto* l : {&s.insert, &s.query}) {
    for (auto& [a, b] : *l) {
      for (auto* v : {&a, &b}) {
        for (auto& x : *v) {
          x += shift;
        }
      }
    }
  }
  return s;
}

template <typename Tree, std::uint32_t Dims, typename Num>
struct run {
  using M = model<Tree, Dims, Num>;
  using T = std::uint32_t;

  explicit run(setup s) : s_{std::move(s)} {}

  void check(bool const stop = false) {
    M::shape(t_, r_.size());
    M::content(t_, r_, s_.query, stop);
  }

  void insert(box const& b) {
    mc::op("insert");
    mc::logf("insert [%d.. - %d..] as %u", b.first[0], b.second[0], next_);
    t_.insert(M::at(b.first), M::at(b.second), next_);
    r_.push_back({b.first, b.second, next_});
    ++next_;
  }

  // insert a copy of an entry of the tree, given by references to its coordinates and data
  void insert_own() {
    if (r_.empty()) {
      return;
    }
    mc::op("insert own entry");
    mc::logf("insert own entry");
    typename Tree::coord_t const *a = nullptr, *b = nullptr;
    T const* id = nullptr;
    t_.search(t_.m_.rect_.min_, t_.m_.rect_.max_, [&](auto const& x, auto const& y, T const& d) {
      a = &x;
      b = &y;
      id = &d;
      return true;
    });
    MC_CHECK(id != nullptr, "search", "searching the box of the tree finds nothing");
    auto const v = *id;
    auto e = ref_entry<T>{};
    for (auto const& x : r_) {
      if (x.id == v) {
        e = x;
      }
    }
    t_.insert(*a, *b, *id);
    // both entries have the same id now: give the model two equal entries, then delete one again
    r_.push_back(e);
    check();
    t_.delete_element(M::at(e.lo), M::at(e.hi), v);
    r_.pop_back();
  }

  void erase(std::size_t const i, int const how) {
    auto const e = r_[i];
    mc::op("delete");
    mc::logf("delete %u (%d)", e.id, how);
    switch (how) {
      case 0: t_.delete_element(M::at(e.lo), M::at(e.hi), e.id); break;
      case 1:
        t_.delete_element_with_function(
            M::at(e.lo), M::at(e.hi),
            [&](auto const&, auto const&, T const& id) { return id == e.id; });
        break;
    }
    r_.erase(r_.begin() + static_cast<std::ptrdiff_t>(i));
  }

  void erase_absent(int const how) {
    mc::op("delete absent");
    mc::logf("delete absent (%d)", how);
    switch (how) {
      case 0: {  // id exists with another rectangle
        if (r_.empty()) {
          return;
        }
        auto e = r_.front();
        ++e.hi[0];
        t_.delete_element(M::at(e.lo), M::at(e.hi), e.id);
        break;
      }
      case 1: {  // rectangle exists with another id
        auto const& b = r_.empty() ? s_.insert.front() : box{r_.back().lo, r_.back().hi};
        t_.delete_element(M::at(b.first), M::at(b.second), 9999U);
        break;
      }
      case 2:
        t_.delete_element_with_function(M::at(s_.insert.front().first), M::at(s_.insert.front().second),
                                        [](auto const&, auto const&, T const&) { return false; });
        break;
    }
  }

  void finish(int const how) {
    switch (how) {
      case 0: check(true); break;
      case 1: {
        mc::op("copy");
        mc::logf("copy");
        Tree c{t_};
        std::swap(c, t_);
        check();
        insert(s_.insert.back());
        check();
        if (r_.size() > 1U) {
          erase(0U, 0);
          check();
        }
        break;
      }
      case 2: {
        mc::op("serialize");
        mc::logf("serialize, deserialize");
        auto buf = cista::serialize(t_);
        auto* const x = cista::deserialize<Tree>(buf);
        M::shape(*x, r_.size());
        M::content(*x, r_, s_.query, true);
        std::swap(*x, t_);  // continue on the deserialized tree
        check();
        insert(s_.insert.front());
        check();
        while (!r_.empty()) {
          erase(r_.size() / 2U, 0);
          check();
        }
        std::swap(*x, t_);
        x->~Tree();
        break;
      }
    }
  }

  void state() {
    auto h = mc::H{};
    h(static_cast<std::uint64_t>(cista::to_idx(t_.m_.root_)))(t_.m_.height_);
    for (auto const& e : r_) {
      for (auto const x : e.lo) {
        h(static_cast<std::uint64_t>(x + 100));
      }
      for (auto const x : e.hi) {
        h(static_cast<std::uint64_t>(x + 100));
      }
    }
    mc::state(h);
  }

  Tree t_;
  std::vector<ref_entry<T>> r_;
  setup s_;
  T next_{1U};
};

// all histories of insertions and deletions
template <typename Tree, std::uint32_t Dims, typename Num>
void histories(int const shift, bool const small) {
  {
    auto m = run<Tree, Dims, Num>{make(Dims, shift, small)};
    auto const steps = mc::bound();
    for (auto s = 0; s != steps; ++s) {
      auto const k = static_cast<int>(m.s_.insert.size());
      auto const live = static_cast<int>(m.r_.size());
      auto const c = mc::choose(k + live + 1);
      mc::step();
      if (c < k) {
        m.insert(m.s_.insert[static_cast<std::size_t>(c)]);
      } else if (c < k + live) {
        m.erase(static_cast<std::size_t>(c - k), s % 2);
      } else if (mc::choose(2) == 0) {
        m.erase_absent(s % 3);
      } else {
        m.insert_own();
      }
      m.check();
      m.state();
    }
    m.finish(mc::choose(3));
  }
  mc::checked();
}

// n insertions (all sequences over the alphabet), then all deletion orders
template <typename Tree, std::uint32_t Dims, typename Num>
void drain(int const n, int const alphabet, int const shift) {
  {
    auto m = run<Tree, Dims, Num>{make(Dims, shift, true)};
    for (auto i = 0; i != n; ++i) {
      mc::step();
      m.insert(m.s_.insert[static_cast<std::size_t>(mc::choose(alphabet))]);
    }
    m.check();
    m.state();
    while (!m.r_.empty()) {
      mc::step();
      m.erase(static_cast<std::size_t>(mc::choose(static_cast<int>(m.r_.size()))), 0);
      m.check();
      m.state();
    }
    // and the emptied tree can be used again
    for (auto i = 0; i != 5; ++i) {
      m.insert(m.s_.insert[static_cast<std::size_t>(i) % m.s_.insert.size()]);
      m.check();
    }
  }
  mc::checked();
}

// larger trees: a pattern of insertions, then all short histories
template <typename Tree, std::uint32_t Dims, typename Num>
void large(std::initializer_list<int> const sizes) {
  {
    auto s = make(Dims, -1, false);
    auto m = run<Tree, Dims, Num>{s};
    auto const n = mc::pick(sizes);
    auto const pattern = mc::choose(6);
    auto const side = 7;
    auto at = [&](int const i) {
      auto x = 0, y = 0, w = 0;
      switch (pattern) {
        case 0: x = i; y = i; break;  // diagonal
        case 1: x = n - i; y = 0; w = 1; break;  // descending
        case 2: x = 3; y = 3; break;  // all equal
        case 3: x = i % side; y = i / side; break;  // grid
        case 4: x = -i; y = -i; w = 2 * i; break;  // nested
        case 5: x = (i * 7) % 11; y = (i * 5) % 13; w = i % 3; break;  // scattered
      }
      auto b = box{};
      if constexpr (Dims == 1U) {
        b = {{x}, {x + w}};
      } else {
        b = {{x, y}, {x + w, y + w}};
      }
      return b;
    };
    auto const shift = std::is_unsigned_v<Num> ? 200 : 0;
    auto moved = [&](int const i) {
      auto b = at(i);
      for (auto* v : {&b.first, &b.second}) {
        for (auto& x : *v) {
          x += shift;
        }
      }
      return b;
    };
    m.s_.insert.clear();
    m.s_.query.clear();
    for (auto i = 0; i != n; ++i) {
      m.insert(moved(i));
      m.s_.query.push_back(moved(i));
    }
    for (auto const i : {0, n / 3, n / 2, n - 1}) {
      m.s_.insert.push_back(moved(i));
    }
    m.s_.query.push_back(Dims == 1U ? box{{shift - 300 < 0 && shift ? 0 : shift - 300}, {shift + 300}}
                                    : box{{shift ? 0 : -300, shift ? 0 : -300}, {shift + 300, shift + 300}});
    m.check();
    m.state();
    auto const steps = mc::bound();
    for (auto s2 = 0; s2 != steps; ++s2) {
      mc::step();
      auto const c = mc::choose(9);
      auto const live = m.r_.size();
      if (c < 4) {
        m.insert(m.s_.insert[static_cast<std::size_t>(c)]);
      } else if (c < 7) {
        if (live == 0U) {
          continue;
        }
        m.erase(c == 4 ? 0U : c == 5 ? live / 2U : live - 1U, s2 % 2);
      } else if (c == 7) {
        m.insert_own();
      } else {  // delete a whole run of entries
        for (auto i = 0U; i != live / 2U; ++i) {
          m.erase(m.r_.size() / 3U, 0);
        }
      }
      m.check();
      m.state();
    }
    if (mc::choose(2) == 1) {
      while (!m.r_.empty()) {  // drain
        m.erase(m.r_.size() / 2U, 0);
        m.check();
      }
    }
    m.finish(mc::choose(2) * 2);
  }
  mc::checked();
}

template <std::uint32_t Dims, typename Num, std::uint32_t Max>
using off = cista::offset::rtree<std::uint32_t, Dims, Num, Max>;
template <std::uint32_t Dims, typename Num, std::uint32_t Max>
using raw = cista::raw::rtree<std::uint32_t, Dims, Num, Max>;

#if PART == 1
MC_SCENARIO("histories 1D float max 2 raw", 6, 7) { histories<raw<1, float, 2>, 1, float>(0, true); }
MC_SCENARIO("histories 1D int max 2 offset", 5, 6) { histories<off<1, std::int32_t, 2>, 1, std::int32_t>(-1, true); }
MC_SCENARIO("histories 2D float max 2 offset", 4, 5) { histories<off<2, float, 2>, 2, float>(-1, false); }
MC_SCENARIO("histories 2D double max 3 raw", 5, 6) { histories<raw<2, double, 3>, 2, double>(0, true); }
MC_SCENARIO("histories 1D uint max 3 raw", 4, 5) { histories<raw<1, std::uint32_t, 3>, 1, std::uint32_t>(20, false); }
#else
MC_SCENARIO("drain 1D max 2", 5, 6) { drain<raw<1, float, 2>, 1, float>(mc::bound(), 4, 0); }
MC_SCENARIO("drain 1D max 2 (3 shapes)", 6, 7) { drain<off<1, float, 2>, 1, float>(mc::bound(), mc::thorough() ? 3 : 2, -1); }
MC_SCENARIO("drain 2D max 3", 5, 6) { drain<raw<2, double, 3>, 2, double>(mc::bound(), 4, -1); }
MC_SCENARIO("large 2D max 4", 3, 4) { large<raw<2, float, 4>, 2, float>({5, 9, 14, 21}); }
MC_SCENARIO("large 2D max 2 uint", 2, 3) { large<off<2, std::uint32_t, 2>, 2, std::uint32_t>({3, 6, 9, 17}); }
MC_SCENARIO("large 2D max 64", 1, 2) { large<raw<2, float, 64>, 2, float>({64, 65, 130}); }
// higher than the recorded insertion path
MC_SCENARIO("tall", 1, 1) {
  auto const go = [](auto t, std::vector<int> const& xs) {
    using tree = decltype(t);
    using M = model<tree, 1, float>;
    auto r = std::vector<ref_entry<std::uint32_t>>{};
    auto q = std::vector<box>{box{{-1000}, {1000}}};
    auto next = 1U;
    for (auto const x : xs) {
      mc::op("insert");
      mc::step();
      t.insert(M::at({x}), M::at({x}), next);
      r.push_back({{x}, {x}, next++});
      if (q.size() < 10U) {
        q.push_back(box{{x}, {x}});
      }
      M::shape(t, r.size());
      M::content(t, r, q, false);
    }
    mc::logf("height %u", static_cast<unsigned>(t.m_.height_));
    auto const order = mc::choose(3);
    while (!r.empty()) {
      mc::op("delete");
      auto const i = order == 0 ? 0U : order == 1 ? r.size() - 1U : r.size() / 2U;
      t.delete_element(M::at(r[i].lo), M::at(r[i].hi), r[i].id);
      r.erase(r.begin() + static_cast<std::ptrdiff_t>(i));
      M::shape(t, r.size());
      M::content(t, r, q, false);
    }
    mc::state(mc::H{}(xs.size())(order));
  };
  auto const n = mc::pick({17, 40, 70});
  auto const pattern = mc::choose(4);
  auto xs = std::vector<int>{};
  for (auto i = 0; i != n; ++i) {
    xs.push_back(pattern == 0 ? i : pattern == 1 ? -i : pattern == 2 ? 0 : (i * 7) % 11);
  }
  if (mc::choose(2) == 0) {
    go(raw<1, float, 2>{}, xs);
  } else {
    go(off<1, float, 3>{}, xs);
  }
  mc::checked();
}
// memory-mapped nodes with separately stored meta data
MC_SCENARIO("mapped", 3, 4) {
  using tree = cista::mm_rtree<std::uint32_t, 2U, float, 3U>;
  using M = model<tree, 2, float>;
  char dir[] = "/tmp/mc_rtree_XXXXXX";
  if (mkdtemp(dir) == nullptr) {
    mc::fail("setup", "mkdtemp");
  }
  {
    auto const nodes = std::string{dir} + "/nodes.bin", meta = std::string{dir} + "/meta.bin";
    auto const s = make(2, -1, true);
    auto r = std::vector<ref_entry<std::uint32_t>>{};
    auto next = 1U;
    auto const rounds = mc::bound();
    for (auto k = 0; k != rounds; ++k) {
      mc::step();
      auto t = tree{{}, tree::vector_t{cista::mmap{nodes.c_str(), k == 0 ? cista::mmap::protection::WRITE : cista::mmap::protection::MODIFY}}};
      if (k != 0) {
        mc::op("read_meta");
        t.read_meta(meta);
      }
      M::shape(t, r.size());
      M::content(t, r, s.query, true);
      auto const n = mc::pick({0, 1, 4, 7});
      mc::logf("round %d: insert %d", k, n);
      mc::op("insert");
      for (auto i = 0; i != n; ++i) {
        auto const& b = s.insert[static_cast<std::size_t>(i + k) % s.insert.size()];
        t.insert(M::at(b.first), M::at(b.second), next);
        r.push_back({b.first, b.second, next++});
      }
      mc::op("delete");
      auto const d = mc::pick({0, 1, 3});
      for (auto i = 0; i != d && !r.empty(); ++i) {
        auto const e = r[r.size() / 2U];
        t.delete_element(M::at(e.lo), M::at(e.hi), e.id);
        r.erase(r.begin() + static_cast<std::ptrdiff_t>(r.size() / 2U));
      }
      M::shape(t, r.size());
      M::content(t, r, s.query, true);
      mc::op("write_meta");
      t.write_meta(meta);
      mc::state(mc::H{}(r.size())(static_cast<std::uint64_t>(t.nodes_.size())));
    }
    std::filesystem::remove_all(dir);
  }
  mc::checked();
}
#endif

}  // namespace
