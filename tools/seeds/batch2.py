import sys; sys.path.insert(0, "/verif/tools")
from seedtool import add
I = "include/cista/"
C = I + "containers/"
S = I + "serialization.h"

add("C04-a", "C04", [(C + "bitset.h", "    check_block(blocks_.size() - 1, sanitized_last_block());", "    check_block(blocks_.size() - 1, blocks_[blocks_.size() - 1]);")],
r'''
#include "cista/containers/bitset.h"
template <std::size_t N> int go() {
  cista::bitset<N> b;
  b.set(1); b.set(N - 1);
  auto const c = ~b;
  std::size_t n = 0, bad = 0;
  c.for_each_set_bit([&](std::size_t i) { ++n; if (i >= N || !c.test(i)) ++bad; });
  return n == N - 2 && bad == 0 ? 0 : 1;
}
int main() { return go<10>() + go<64>() + go<70>() + go<128>() + go<130>(); }
''', "a complement (or max()) of a set whose size is no multiple of 64, then for_each_set_bit", "positions beyond the size are reported as set")

add("C05-a", "C05", [(C + "bitvec.h", """    if (!empty() && (size_ % bits_per_block) != 0U) {
      blocks_[blocks_.size() - 1] &=
          ~((~block_t{0}) << (size_ % bits_per_block));
    }
    blocks_.resize(num_blocks(new_size));""", """    if (num_blocks(new_size) == blocks_.size()) {
      size_ = new_size;
      return;
    }

    if (!empty() && (size_ % bits_per_block) != 0U) {
      blocks_[blocks_.size() - 1] &=
          ~((~block_t{0}) << (size_ % bits_per_block));
    }
    blocks_.resize(num_blocks(new_size));""")],
r'''
#include "cista/containers/bitvec.h"
int main() {
  cista::raw::bitvec b;
  b.resize(40);
  for (unsigned i = 0; i != 40; ++i) b.set(i, true);
  b.resize(10);
  if (b.count() != 10) return 1;
  b.resize(60);
  if (b.count() != 10) return 2;
  b.resize(100);
  b.one_out();
  b.resize(70);
  b.resize(128);
  return b.count() == 70 ? 0 : 3;
}
''', "shrink and grow within one block after bits above the new size were set", "grown bits are not zero: old bits reappear")

add("C05-b", "C05", [(C + "bitvec.h", """    auto const first_block = first_block_idx + 1U == blocks_.size()
                                 ? sanitized_last_block()
                                 : blocks_[first_block_idx];""", """    auto const first_block = blocks_[first_block_idx];""")],
r'''
#include "cista/containers/bitvec.h"
int main() {
  cista::raw::bitvec b;
  b.resize(70);
  b.one_out();
  b.set(68, false); b.set(69, false);
  return !b.next_set_bit(68).has_value() && b.next_set_bit(60) == 60U && b.next_set_bit(65) == 65U ? 0 : 1;
}
''', "stray bits behind the size (one_out, max) and a search starting inside the last block behind its last set bit", "next_set_bit returns a position that is not part of the set")

add("C06-a", "C06", [(C + "variant.h", """  void swap(variant& o) {
    if (!valid() && !o.valid()) {""", """  void swap(variant& o) {
    if (!valid() || !o.valid()) {""")],
r'''
#include "cista/containers/variant.h"
#include <string>
int main() {
  cista::variant<int, std::string> a{std::string(40, 'x')}, b;
  a.swap(b);
  if (a.valid() || !b.valid() || cista::get<1>(b) != std::string(40, 'x')) return 1;
  a.swap(b);
  return a.valid() && !b.valid() ? 0 : 2;
}
''', "swap of a variant with a valueless one", "nothing is swapped")

add("C07-a", "C07", [(C + "optional.h", """    reset();
    if (other.has_value()) {
      new (&storage_[0]) T{other.value()};
    }
""", """    if (other.has_value()) {
      reset();
      new (&storage_[0]) T{other.value()};
    }
""")],
r'''
#include "cista/containers/optional.h"
#include <string>
int live = 0;
struct X { X() { ++live; } X(X const&) { ++live; } X(X&&) { ++live; } ~X() { --live; } int a = 1; };
int main() {
  {
    cista::optional<X> a{X{}}, b;
    a = b;
    if (a.has_value()) return 1;
  }
  return live == 0 ? 0 : 2;
}
''', "copy assignment of an empty optional to a full one", "the old value is never destroyed")

add("C10-a", "C10", [(C + "mutable_fws_multimap.h", "      if (old_bucket.capacity_ != 0U) {\n        move_entries", "      if (old_bucket.size_ > 1U) {\n        move_entries")],
r'''
#include "cista/containers/mutable_fws_multimap.h"
int main() {
  cista::raw::mutable_fws_multimap<unsigned, int> m;
  m[0].push_back(1); m[0].push_back(2);   // bucket of capacity 2
  m[1].push_back(7);                      // capacity 1, behind it
  m[2].push_back(8);
  m[3].push_back(9); 
  m.erase(0);                             // frees the capacity 2 bucket
  m[1].push_back(70);                     // grows into it
  return m[1].size() == 2 && m[1][0] == 7 && m[1][1] == 70 && m[2][0] == 8 && m[3][0] == 9 && m.element_count() == 4 ? 0 : 1;
}
''', "a bucket of capacity 1 grows while a released bucket of capacity 2 exists", "its element is replaced by stale data and its place is lost")

add("C11-a", "C11", [(C + "vecvec.h", "    data_.resize(bucket_starts_[new_size]);\n", "    if (bucket_starts_[new_size] > data_.size()) {\n      data_.resize(bucket_starts_[new_size]);\n    }\n")],
r'''
#include "cista/containers/vecvec.h"
#include <vector>
int main() {
  cista::raw::vecvec<unsigned, int> v;
  v.emplace_back(std::vector<int>{1, 2});
  v.emplace_back(std::vector<int>{3, 4, 5});
  v.resize(1);
  v.emplace_back(std::vector<int>{9});
  return v.size() == 2 && v[0].size() == 2 && v[1].size() == 1 && v[1][0] == 9 ? 0 : 1;
}
''', "resize to fewer buckets, then appending a bucket", "the new bucket starts with the elements of the removed ones")

add("C13-a", "C13", [(C + "paged.h", """      copy(new_page, p);
      free_page(p);
      return new_page;""", """      free_page(p);
      copy(new_page, p);
      return new_page;""")],
r'''
#include "cista/containers/paged.h"
#include "cista/containers/vector.h"
int main() {
  cista::paged<cista::raw::vector<int>> m;
  auto p = m.create_page(4);
  for (int i = 0; i != 4; ++i) m.data(p)[i] = i + 1;
  auto q = m.create_page(4);
  for (int i = 0; i != 4; ++i) m.data(q)[i] = i + 10;
  p = m.resize_page(p, 9);
  for (int i = 0; i != 4; ++i) if (m.data(p)[i] != i + 1 || m.data(q)[i] != i + 10) return 1;
  return 0;
}
''', "a page that has to move when it is resized", "the head of the page is overwritten by the free list link before it is copied")

add("S02-b", "S02", [(S, "    auto const pred = std::prev(vec_it);\n", "    auto const pred = vec_it == end(vector_ranges_) ? std::prev(vec_it) : begin(vector_ranges_);\n")],
r'''
#include "cista/serialization.h"
#include "cista/containers/vector.h"
namespace data = cista::offset;
struct root { data::indexed_vector<int> a, b, c; data::ptr<int> p{nullptr}, q{nullptr}, r{nullptr}; };
int main() {
  root x;
  x.a = {1, 2, 3}; x.b = {4, 5, 6}; x.c = {7, 8, 9};
  x.p = &x.a[1]; x.q = &x.b[2]; x.r = &x.c[1];
  auto buf = cista::serialize(x);
  auto const* y = cista::deserialize<root>(buf);
  return y->p && y->q && y->r && *y->p == 2 && *y->q == 6 && *y->r == 8 && y->p == &y->a[1] && y->q == &y->b[2] && y->r == &y->c[1] ? 0 : 1;
}
''', "pointers into at least three indexed vectors (the middle one by address)", "the pointer is lost (null) after loading")

add("S02-a", "S02", [(S, "    auto const vec_it = vector_ranges_.upper_bound(ptr);", "    auto const vec_it = vector_ranges_.lower_bound(ptr);")],
r'''
#include "cista/serialization.h"
#include "cista/containers/vector.h"
namespace data = cista::offset;
struct root { data::ptr<int> p{nullptr}, q{nullptr}; data::indexed_vector<int> a; };
int main() {
  root x;
  x.a = {1, 2, 3};
  x.p = &x.a[0]; x.q = &x.a[2];
  auto buf = cista::serialize(x);
  auto const* y = cista::deserialize<root>(buf);
  return y->p == &y->a[0] && y->q == &y->a[2] ? 0 : 1;
}
''', "a pointer to the very first element of an indexed vector of elements that are not themselves registered", "the pointer is null after loading")

add("S08-a", "S08", [(S, "          convert_endian<Ctx::MODE>(origin->growth_left_));", "          origin->growth_left_);"),
                     (S, "  c.convert_endian(el->growth_left_);\n", "")],
r'''
#include "cista/serialization.h"
#include "cista/containers/hash_map.h"
#include "cista/containers/hash_set.h"
#include <cstring>
namespace data = cista::offset;
constexpr auto const BE = cista::mode::SERIALIZE_BIG_ENDIAN;
using T = data::hash_set<std::uint32_t>;
int main() {
  T s; s.insert(5U); s.insert(6U);
  auto le = cista::serialize(s);
  auto be = cista::serialize<BE>(s);
  if (le.size() != be.size()) return 3;
  // growth_left_ and size_ have the same width: compare them byte-reversed
  auto const off = [&](auto m) { return reinterpret_cast<char*>(&(s.*m)) - reinterpret_cast<char*>(&s); };
  for (auto o : {off(&T::size_), off(&T::capacity_), off(&T::growth_left_)})
    for (unsigned i = 0; i != sizeof(s.size_); ++i)
      if (le[o + i] != be[o + sizeof(s.size_) - 1 - i]) return 1;
  auto const* t = cista::deserialize<T, BE>(be);
  return t->size() == 2 && t->find(5U) != t->end() && t->find(6U) != t->end() ? 0 : 2;
}
''', "an image of a hash container written for a machine of the other byte order", "both sides skip the conversion of one field: images written here cannot be read on the other kind of machine")

add("S07-a", "S07", [(S, """  c.write(pos + cista_member_offset(Type, self_allocated_), false);

  c.write(pos + cista_member_offset(Type, size_),""", """  c.write(pos + cista_member_offset(Type, self_allocated_),
          static_cast<std::uint8_t>(0U));

  c.write(pos + cista_member_offset(Type, size_),""")], "int main() { return 0; }", "", "")  # placeholder replaced below
import shutil; shutil.rmtree("/verif/seeded/S07-a")

add("S07-b", "S07", [(C + "unique_ptr.h", "    if (self_allocated_ && el_ != nullptr) {", "    if (el_ != nullptr) {")],
r'''
#include "cista/serialization.h"
#include "cista/containers/unique_ptr.h"
#include "cista/containers/vector.h"
namespace data = cista::offset;
struct root { data::vector<int> v; data::unique_ptr<int> p; };
int main() {
  root x; x.v = {1, 2}; x.p = data::make_unique<int>(7);
  auto buf = cista::serialize(x);
  auto* y = cista::deserialize<root>(buf);
  auto moved = std::move(y->p);   // still image memory: must not be freed
  return *moved == 7 && y->p.get() == nullptr ? 0 : 1;
}
''', "destroying or resetting a unique pointer that lives in (or was moved out of) an image", "image memory is passed to the allocator")
