import sys; sys.path.insert(0, "/verif/tools")
from seedtool import add
V = "include/cista/containers/vector.h"
add("C01-a", "C01", [(V, "void resize(size_type const size, T init) {", "void resize(size_type const size, T const& init) {")],
r'''
#include "cista/containers/vector.h"
#include "cista/containers/string.h"
#include <string>
int main() {
  cista::raw::vector<std::string> v;
  v.push_back(std::string(40, 'x'));
  v.push_back(std::string(40, 'y'));
  v.resize(9, v[1]);
  if (v.size() != 9) return 1;
  for (unsigned i = 1; i != 9; ++i) if (v[i] != std::string(40, 'y')) return 2;
  return v[0] == std::string(40, 'x') ? 0 : 3;
}
''', "resize(n, v[i]) with an argument that refers into the vector, and a resize that has to reallocate", "the fill value is read from memory that was already moved from / freed")
S = "include/cista/containers/string.h"
add("C02-a", "C02", [(S, "std::memset(data() + size_before - n, 0U, n * sizeof(CharT));", "std::memset(data() + size_before - n, 0U, n);")],
r'''
#include "cista/containers/string.h"
int main() {
  cista::raw::u16string s{u"\x3061\x3062\x3063\x3064"};
  s.erase(1, 1);
  return s == std::u16string_view{u"\x3061\x3063\x3064"} && s.size() == 3 ? 0 : 1;
}
''', "erase of a code unit with a non-zero high byte from an inline UTF-16/UTF-32 string", "cleared tail is too short, stale code units remain part of the string")
H = "include/cista/containers/hash_storage.h"
add("C03-a", "C03", [(H, '''  bool was_never_full(std::size_t const index) const noexcept {
    auto const index_before = (index - WIDTH) & capacity_;

    auto const empty_after = group{ctrl_ + index}.match_empty();
    auto const empty_before = group{ctrl_ + index_before}.match_empty();

    return empty_before && empty_after &&
           (empty_after.trailing_zeros() + empty_before.leading_zeros()) <
               WIDTH;''', '''  bool was_never_full(std::size_t const index) const noexcept {
    auto const index_before = (index - WIDTH) & capacity_;

    auto const empty_after = group{ctrl_ + index}.match_empty();
    auto const empty_before = group{ctrl_ + index_before}.match_empty();

    return empty_before && empty_after &&
           (empty_after.trailing_zeros() + empty_before.leading_zeros()) <=
               WIDTH;''')],
r'''
#include "cista/containers/hash_map.h"
#include <cstdint>
#include <cstdio>
struct H { std::uint64_t operator()(std::uint32_t x) const { return std::uint64_t{x % 32U} * 128U + x / 32U % 2U; } };
struct E { bool operator()(std::uint32_t a, std::uint32_t b) const { return a == b; } };
int main() {
  // runs of neighbouring full slots, erase one in the run, everything else must stay reachable
  for (std::uint32_t start = 0; start != 4; ++start) {
    for (std::uint32_t len = 1; len != 64; ++len) {
      for (std::uint32_t del = 0; del != len; ++del) {
        cista::raw::hash_map<std::uint32_t, std::uint32_t, H, E> m;
        for (std::uint32_t i = 0; i != len; ++i) m[32U * (i + 1U) * 2U + start] = i;  // same probe start
        m.erase(32U * (del + 1U) * 2U + start);
        for (std::uint32_t i = 0; i != len; ++i) {
          auto const f = m.find(32U * (i + 1U) * 2U + start) != m.end();
          if (f != (i != del)) { std::printf("start=%u len=%u del=%u lost %u\n", start, len, del, i); return 1; }
        }
      }
    }
  }
  return 0;
}
''', "more than a group of entries on one probe path and an erase inside the full run", "erase frees the slot as 'never full' although a probe sequence passed over it: entries behind it are no longer found", flags="-DNDEBUG")
Z = "include/cista/serialization.h"
add("S01-a", "S01", [(Z, "convert_endian<Ctx::MODE>(origin->growth_left_));", "origin->growth_left_);")],
r'''
#include "cista/serialization.h"
namespace d = cista::offset;
int main() {
  constexpr auto const M = cista::mode::SERIALIZE_BIG_ENDIAN;
  d::hash_map<std::uint32_t, std::uint32_t> x;
  for (std::uint32_t i = 0; i != 5; ++i) x[i] = i * i;
  try {
    auto b = cista::serialize<M>(x);
    auto* y = cista::deserialize<decltype(x), M>(b);
    for (std::uint32_t i = 5; i != 200; ++i) (*y)[i] = i * i;
    for (std::uint32_t i = 0; i != 200; ++i) if (y->at(i) != i * i) return 1;
    return y->size() == 200 ? 0 : 2;
  } catch (std::exception const&) { return 3; }
}
''', "a hash table serialized in big endian mode", "the remaining growth of the table is not converted: the image is rejected, or filled until no free slot is left", flags="-DNDEBUG")
