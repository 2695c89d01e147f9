import sys; sys.path.insert(0, "/verif/tools")
from seedtool import add
I = "include/cista/"
C = I + "containers/"
add("C06-d", "C06", [(C + "variant.h", "    if (index_of_type<Arg, T...>() == idx_) {", "    if (std::is_trivially_copyable_v<std::decay_t<Arg>> &&\n        index_of_type<Arg, T...>() == idx_) {")],
r'''
#include "cista/containers/variant.h"
#include <string>
int main() {
  using V = cista::variant<int, std::string>;
  V v{std::string(40, 'x')};
  V const& same = v;
  v = same;
  if (cista::get<std::string>(v) != std::string(40, 'x')) return 1;
  v = cista::get<std::string>(same);
  return cista::get<std::string>(v) == std::string(40, 'x') ? 0 : 2;
}
''', "assignment of a variant, or of its alternative, to itself", "the value is destroyed before it is copied from")
add("C16-c", "C16", [(I + "mmap.h", "        used_size_{o.used_size_},\n        addr_{o.addr_} {\n#ifdef", "        used_size_{o.size_},\n        addr_{o.addr_} {\n#ifdef")],
r'''
#include "cista/containers/mmap_vec.h"
#include <sys/stat.h>
int main() {
  {
    cista::mmap_vec<std::uint32_t> v{cista::mmap{"f.bin"}};
    v.push_back(1); v.push_back(2); v.push_back(3);
    cista::mmap_vec<std::uint32_t> w{std::move(v)};
  }
  struct stat s;
  if (stat("f.bin", &s) != 0) return 1;
  return s.st_size == 12 ? 0 : 2;
}
''', "a filled mapped vector is moved and then closed, with a size that is no power of two", "the file keeps the spare capacity: reopening finds more elements than were stored")
add("H01-b", "H01", [(C + "variant.h", "               : a.idx_ > b.idx_;", "               : a.valid() && a.idx_ > b.idx_;")],
r'''
#include "cista/containers/variant.h"
int main() {
  cista::variant<int, char> a, b{3};
  int n = (a < b) + (a == b) + (a > b);
  return n == 1 && (a > b) == (b < a) ? 0 : 1;
}
''', "comparison of a variant without value with one that has a value", "none of less, equal, greater holds", flags="")
add("S05-b", "S05", [(I + "type_hash/type_hash.h", "  h = hash_combine(h, hash(\"array\"));\n  h = hash_combine(h, Size);\n", "  h = hash_combine(h, hash(\"array\"));\n  h = hash_combine(h, sizeof(T));\n")],
r'''
#include "cista/serialization.h"
namespace d = cista::offset;
int main() {
  constexpr auto const M = cista::mode::WITH_VERSION;
  d::vector<d::array<std::uint8_t, 4>> v; v.resize(8);
  auto buf = cista::serialize<M>(v);
  try { cista::deserialize<d::vector<d::array<std::uint8_t, 3>>, M>(buf); return 1; } catch (std::exception const&) { return 0; }
}
''', "two types that differ only in an array extent", "an image is accepted as another type", flags="")
add("S05-c", "S05", [(I + "type_hash/type_hash.h", "  h = type_hash(T{}, h, done);\n  h = hash_combine(hash(canonical_type_str<Tag>()), h);\n", "  h = hash_combine(hash(canonical_type_str<Tag>()), h);\n")],
r'''
#include "cista/serialization.h"
namespace d = cista::offset;
struct tag {};
int main() {
  constexpr auto const M = cista::mode::WITH_VERSION;
  d::vector<cista::strong<std::uint32_t, tag>> v; v.resize(8);
  auto buf = cista::serialize<M>(v);
  try { cista::deserialize<d::vector<cista::strong<std::uint16_t, tag>>, M>(buf); return 1; } catch (std::exception const&) { return 0; }
}
''', "the value type of a strong type is changed", "an image is accepted as another type", flags="")
add("S04-b", "S04", [(I + "serialization.h", "        c.checksum(integrity_offset + static_cast<offset_t>(sizeof(hash_t)));", "        c.checksum(integrity_offset + static_cast<offset_t>(std::max(sizeof(hash_t), std::alignment_of_v<decay_t<T>> > 8U && integrity_offset != 0 ? std::size_t{24} : std::size_t{8})));")], "", "", "") if False else None
add("S04-b", "S04", [(I + "serialization.h", "        c.checksum(integrity_offset + static_cast<offset_t>(sizeof(hash_t)));", "        c.checksum(root_start<T>(Mode));"),
  (I + "serialization.h", "                   reinterpret_cast<char const*>(from + data_start(Mode)),\n                   static_cast<std::size_t>(to - from - data_start(Mode))}),", "                   reinterpret_cast<char const*>(from + root_start<T>(Mode)),\n                   static_cast<std::size_t>(to - from - root_start<T>(Mode))}),")],
r'''
#include "cista/serialization.h"
struct alignas(16) root { std::uint32_t a_{1}, b_{2}, c_{3}, d_{4}; };
int main() {
  constexpr auto const M = cista::mode::WITH_INTEGRITY;
  root r;
  auto buf = cista::serialize<M>(r);
  alignas(16) std::uint8_t mem[64];
  for (std::size_t i = 0; i <= buf.size(); ++i) {
    for (std::size_t j = 0; j != buf.size(); ++j) mem[j] = buf[j];
    if (i != buf.size()) mem[i] ^= 1;
    bool ok = true;
    try { ok = cista::deserialize<root, M>(mem, mem + buf.size())->d_ == 4; } catch (std::exception const&) { ok = false; }
    if (ok != (i == buf.size())) return 1;
  }
  return 0;
}
''', "a root type that is aligned stricter than the header, so that padding precedes it", "altered padding between header and root goes undetected", flags="")
