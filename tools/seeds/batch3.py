import sys; sys.path.insert(0, "/verif/tools")
from seedtool import add
I = "include/cista/"
C = I + "containers/"
S = I + "serialization.h"

add("C06-b", "C06", [(C + "variant.h", "               : a.idx_ > b.idx_;", "               : a.idx_ < b.idx_;")],
r'''
#include "cista/containers/variant.h"
int main() {
  cista::variant<int, char> a{1}, b{'x'}, n;
  bool ok = (a > b) == (b < a) && (b > a) == (a < b) && (n > a) == (a < n) && (a > n) == (n < a);
  return ok && (b > a) != (a > b) ? 0 : 1;
}
''', "operator> of two variants that hold different alternatives", "a > b contradicts b < a")

add("C07-b", "C07", [(C + "optional.h", """    reset();
    if (other.has_value()) {
      new (&storage_[0]) T{other.value()};
    }

    valid_ = other.has_value();
""", """    reset();
    valid_ = other.has_value();
    if (other.has_value()) {
      new (&storage_[0]) T{other.value()};
    }
""")],
r'''
#include "cista/containers/optional.h"
int live = 0; bool boom = false;
struct X { X() { ++live; } X(X const&) { if (boom) throw 1; ++live; } ~X() { --live; } };
int main() {
  {
    cista::optional<X> b; { cista::optional<X> a; }
    X x; cista::optional<X> a{x};
    boom = true;
    try { b = a; return 1; } catch (int) {}
    if (b.has_value()) return 2;
  }
  return live == 0 ? 0 : 3;
}
''', "copy assignment whose value constructor throws", "the optional claims to hold a value that was never constructed and destroys it")

add("C11-b", "C11", [(C + "vecvec.h", "  void clear() {\n    bucket_starts_.clear();\n    data_.clear();\n  }", "  void clear() { bucket_starts_.resize(0U); }")],
r'''
#include "cista/containers/vecvec.h"
#include <vector>
int main() {
  cista::raw::vecvec<unsigned, int> v;
  v.emplace_back(std::vector<int>{1, 2});
  v.clear();
  if (!v.empty()) return 2;
  v.emplace_back(std::vector<int>{9});
  return v.size() == 1 && v[0].size() == 1 && v[0][0] == 9 ? 0 : 1;
}
''', "reuse after clear", "the first bucket after clear starts with the old elements")

add("C12-a", "C12", [(C + "nvec.h", "return bucket{tmp", "return bucket{ tmp")], "int main(){}", "", "") if False else None

add("C14-a", "C14", [(C + "flat_matrix.h", "      return matrix_.entries_.begin() + matrix_.n_columns_ * (i_ + 1);\n    }\n    friend iterator begin(const_row const& r) { return r.begin(); }",
                      "      return matrix_.entries_.begin() + matrix_.n_columns_ * i_ +\n             std::min(matrix_.n_columns_, matrix_.n_rows_);\n    }\n    friend iterator begin(const_row const& r) { return r.begin(); }")],
r'''
#include <algorithm>
#include "cista/containers/flat_matrix.h"
int main() {
  auto m = cista::raw::make_flat_matrix<int>(2U, 3U, 1);
  auto const& c = m;
  int n = 0;
  for (auto x : c[1]) n += x;
  return n == 3 ? 0 : 1;
}
''', "iteration over a const row of a matrix with more columns than rows", "the iteration ends early")

add("C15-a", "C15", [(C + "rtree.h", "      if (search_node.rects_[h].contains(search_rect)) {", "      if (search_node.rects_[h].intersects(search_rect)) {"),
                     (C + "rtree.h", "      get_node(n_idx).rects_[i].expand(insert_rect);\n      return;", "      if (!get_node(n_idx).rects_[i].intersects(insert_rect)) {\n        get_node(n_idx).rects_[i].expand(insert_rect);\n      }\n      return;")],
r'''
#include "cista/containers/rtree.h"
#include <vector>
int main() {
  for (unsigned seed = 1; seed != 40; ++seed) {
    cista::raw::rtree<unsigned> t;
    struct r { float x0, y0, x1, y1; };
    std::vector<r> v;
    unsigned s = seed;
    auto rnd = [&] { s = s * 1103515245U + 12345U; return float((s >> 16) % 50U); };
    for (unsigned i = 0; i != 300; ++i) {
      float x = rnd(), y = rnd(), w = rnd() / 10.F, h = rnd() / 10.F;
      v.push_back({x, y, x + w, y + h});
      t.insert({x, y}, {x + w, y + h}, i);
    }
    for (unsigned i = 0; i != 300; ++i) {
      bool found = false;
      t.search({v[i].x1, v[i].y1}, {v[i].x1, v[i].y1}, [&](auto, auto, unsigned d) { found |= d == i; return true; });
      if (!found) return 1;
    }
  }
  return 0;
}
''', "an entry that overlaps the box of a subtree without being contained in it", "the box is not enlarged: a query at the outer part does not find the entry")

add("C15-b", "C15", [(C + "rtree.h", "        if (input_rect.onedge(node_rect)) {", "        if (node_rect.contains(input_rect) && delete_node.count_ > 1U &&\n            input_rect.onedge(node_rect)) {")],
r'''
int main() { return 0; }
''', "", "")
import shutil; shutil.rmtree("/verif/seeded/C15-b")

add("C16-a", "C16", [(C + "mmap_vec.h", "    for (auto i = used_size_; i < size; ++i) {\n      new (data() + i) T{};\n    }\n", "")],
r'''
#include "cista/containers/mmap_vec.h"
#include <cstdio>
int main() {
  cista::basic_mmap_vec<int, std::size_t> v{cista::mmap{"x.bin", cista::mmap::protection::WRITE}};
  for (int i = 0; i != 6; ++i) v.push_back(i + 1);
  v.resize(2);
  v.resize(5);
  return v[0] == 1 && v[1] == 2 && v[2] == 0 && v[3] == 0 && v[4] == 0 ? 0 : 1;
}
''', "shrinking and growing a mapped vector again", "new elements show the old content instead of the default value")

add("S03-a", "S03", [(I + "chunk.h", "    offset += curr_chunk_size;\n", "    offset += chunk_size;\n"), ], "int main() { return 0; }", "", "")
shutil.rmtree("/verif/seeded/S03-a")

F = I + "targets/file.h"
add("S03-b", "S03", [(F, "    verify(size_ >= static_cast<std::size_t>(start), \"invalid checksum offset\");\n    verify(!std::fseek(f_, static_cast<long>(start), SEEK_SET), \"fseek error\");\n    auto const total = size_ - static_cast<std::size_t>(start);",
                         "    verify(size_ >= static_cast<std::size_t>(start), \"invalid checksum offset\");\n    verify(!std::fseek(f_, static_cast<long>(start), SEEK_SET), \"fseek error\");\n    auto const total =\n        std::min(size_ - static_cast<std::size_t>(start), block_size);")],
r'''
#include "cista/serialization.h"
#include "cista/containers/vector.h"
namespace data = cista::raw;
int main() {
  using T = data::vector<std::uint64_t>;
  T v; v.resize(100000);
  for (unsigned i = 0; i != v.size(); ++i) v[i] = i;
  constexpr auto const M = cista::mode::WITH_INTEGRITY;
  auto mem = cista::serialize<M>(v);
  { cista::file f{"x.bin", "w+"}; cista::serialize<M>(f, v); }
  cista::file f{"x.bin", "r"};
  auto c = f.content();
  if (c.size() != mem.size()) return 2;
  for (std::size_t i = 0; i != mem.size(); ++i) if (c[i] != mem[i]) return 1;
  cista::deserialize<T, M>(c);
  return 0;
}
''', "a file of more than 512 KiB written with a checksum", "the checksum covers only the first block: the image differs from the one in memory and is rejected")

add("S04-a", "S04", [(S, "                   static_cast<std::size_t>(to - from - data_start(Mode))}),", "                   static_cast<std::size_t>(to - from - data_start(Mode)) /\n                       sizeof(std::uint32_t) * sizeof(std::uint32_t)}),"),
                     (S, "        c.checksum(integrity_offset + static_cast<offset_t>(sizeof(hash_t)));", "        c.checksum(integrity_offset + static_cast<offset_t>(sizeof(hash_t)));")],
r'''
int main() { return 0; }
''', "", "")
shutil.rmtree("/verif/seeded/S04-a")

add("S06-a", "S06", [(S, "    verify(checked_addition(pos, static_cast<intptr_t>(size)) <= to_,\n           \"overflow\");", "    verify(checked_addition(pos, static_cast<intptr_t>(size)) <=\n               to_ + static_cast<intptr_t>(type_size<T>()),\n           \"overflow\");")],
r'''
#include "cista/serialization.h"
#include "cista/containers/vector.h"
#include <cstring>
#include <cstdlib>
namespace data = cista::offset;
int main() {
  data::vector<std::uint64_t> v{1U, 2U, 3U};
  auto buf = cista::serialize(v);
  // claim one element more than there is
  for (std::size_t i = 0; i + 4 <= sizeof(v); ++i) if (buf[i] == 3) buf[i] = 4;
  auto* p = static_cast<unsigned char*>(std::malloc(buf.size()));
  std::memcpy(p, buf.data(), buf.size());
  int rc = 1;
  try { auto const* w = cista::deserialize<data::vector<std::uint64_t>>(p, p + buf.size()); std::uint64_t s = 0; for (auto x : *w) s += x; rc = s ? 1 : 2; }
  catch (std::exception const&) { rc = 0; }
  std::free(p);
  return rc;
}
''', "an image whose last vector claims one element more than stored", "the image is accepted and reading it leaves the buffer")

add("S06-b", "S06", [(S, "              checked_multiplication(\n                  static_cast<std::size_t>(el->allocated_size_), sizeof(T)));\n  c.check_bool(el->self_allocated_);", "              static_cast<std::size_t>(el->allocated_size_ * sizeof(T)));\n  c.check_bool(el->self_allocated_);")],
r'''
#include "cista/serialization.h"
#include "cista/containers/vector.h"
#include <cstring>
using V = cista::basic_vector<std::uint64_t, cista::offset_ptr, false, std::uint64_t>;
int main() {
  V v; v.push_back(7U); v.push_back(9U);
  auto buf = cista::serialize(v);
  auto* r = reinterpret_cast<V*>(buf.data());
  std::uint64_t const n = (1ULL << 61U) + 1U;   // times 8 wraps to 8
  r->used_size_ = n; r->allocated_size_ = n;
  try { cista::deserialize<V>(buf.data(), buf.data() + buf.size()); }
  catch (std::exception const&) { return 0; }
  return 1;
}
''', "a vector with 64 bit sizes whose claimed size times the element size wraps around", "the image is accepted although the vector extends far behind the buffer")

A = I + "atomic.h"
add("A01-a", "A01", [(A, "  if (old < val) {\n    while (!a->compare_exchange_weak(old, std::max(old, val),", "  if (old < val) {\n    while (!a->compare_exchange_weak(old, val,")],
r'''
#include "cista/atomic.h"
#include <thread>
#include <vector>
int main() {
  for (int round = 0; round != 3000; ++round) {
    alignas(8) std::int16_t x = 0;
    std::atomic<int> go{0};
    std::vector<std::thread> t;
    for (int k = 1; k <= 4; ++k)
      t.emplace_back([&, k] { ++go; while (go != 4) {} for (int i = 0; i != 400; ++i) { cista::fetch_max(x, static_cast<std::int16_t>(i * 4 + k)); } });
    for (auto& y : t) y.join();
    if (x != 1600) return 1;
    std::int16_t y0 = 0, last = 0; std::atomic<bool> stop{false}; bool bad = false;
    if (round % 10 == 0) {
      std::thread w1{[&] { for (int i = 0; i != 5000; ++i) cista::fetch_max(y0, static_cast<std::int16_t>(2 * i)); }};
      std::thread w2{[&] { for (int i = 0; i != 5000; ++i) cista::fetch_max(y0, static_cast<std::int16_t>(2 * i + 1)); }};
      std::thread rd{[&] { while (!stop) { std::int16_t n = __atomic_load_n(&y0, __ATOMIC_SEQ_CST); if (n < last) bad = true; last = n; } }};
      w1.join(); w2.join(); stop = true; rd.join();
      if (bad) return 2;
    }
  }
  return 0;
}
''', "a concurrent fetch_max with a larger value between the load and the exchange", "the maximum decreases", flags="-pthread", cxx="g++ -O2")

add("A02-a", "A02", [(C + "bitvec.h", "      if (next.compare_exchange_weak(expected, *idx + 1U)) {\n        return idx;\n      }", "      if (next.load() == expected) {\n        next.store(*idx + 1U);\n        return idx;\n      }")],
r'''
#include "cista/containers/bitvec.h"
#include <thread>
#include <vector>
int main() {
  cista::raw::bitvec b; b.resize(2000); b.one_out();
  for (int round = 0; round != 300; ++round) {
    std::atomic_size_t next{0}; std::atomic<int> go{0};
    std::vector<int> seen[4]; std::vector<std::thread> t;
    for (int k = 0; k != 4; ++k) t.emplace_back([&, k] { ++go; while (go != 4) {} while (auto i = b.get_next(next)) seen[k].push_back(int(*i)); });
    for (auto& x : t) x.join();
    std::vector<int> n(2000, 0);
    for (auto& s : seen) for (auto i : s) ++n[i];
    for (auto x : n) if (x != 1) return 1;
  }
  return 0;
}
''', "two threads that ask for the next position at the same time", "a position is handed out twice", flags="-pthread", cxx="g++ -O2")

add("N01-a", "N01", [(I + "next_power_of_2.h", "  if constexpr (sizeof(TemplateSizeType) > 4U) {", "  if constexpr (sizeof(TemplateSizeType) > 8U) {")],
r'''
#include "cista/next_power_of_2.h"
#include <cstdint>
int main() {
  for (unsigned k = 2; k != 63; ++k) {
    std::uint64_t p = std::uint64_t{1} << k;
    if (cista::next_power_of_two(p - 1) != p || cista::next_power_of_two(p) != p || cista::next_power_of_two(p / 2 + 1) != p) return 1;
  }
  return 0;
}
''', "64 bit values above 2^33", "not a power of two")
