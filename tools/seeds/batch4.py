import sys; sys.path.insert(0, "/verif/tools")
from seedtool import add
I = "include/cista/"
C = I + "containers/"
S = I + "serialization.h"

add("C08-b", "C08", [(C + "offset_ptr.h", """  constexpr T* operator-(strong<X, Tag> const& s) {
    return get() - s.v_;""", """  constexpr T* operator-(strong<X, Tag> const& s) {
    return get() - (s.v_ & 0xFFFF);""")],
r"""
#include "cista/containers/ptr.h"
#include "cista/containers/offset_ptr.h"
#include "cista/strong.h"
#include <vector>
using s = cista::strong<unsigned, struct tag>;
int main() {
  std::vector<char> v(100000);
  cista::offset_ptr<char> p = &v[99999];
  return (p - s{3U}) == &v[99996] && (p - s{70000U}) == &v[29999] ? 0 : 1;
}
""", "subtracting a large strong index from a relative pointer", "the result differs from pointer arithmetic")

add("C09-a", "C09", [(C + "fws_multimap.h", "    return index_ >= o.index_;", "    return index_ > o.index_;")],
r'''
#include "cista/containers/fws_multimap.h"
int main() {
  cista::raw::fws_multimap<unsigned, int> m;
  m.push_back(1); m.finish_key(); m.finish_key(); m.finish_map();
  auto a = m.begin(), b = m.begin();
  return a >= b && b >= a && (m.end() >= a) && !(a >= m.end()) ? 0 : 1;
}
''', "iterator >= with equal positions", "an iterator is not >= itself")

add("C14-a", "C14", [(C + "flat_matrix.h", """  const_row at(size_type const i) const {
    verify(i < n_rows_,""", """  const_row at(size_type const i) const {
    verify(i <= n_rows_,""")],
r'''
#include "cista/containers/flat_matrix.h"
int main() {
  auto m = cista::raw::make_flat_matrix<int>(2, 3, 7);
  auto const& c = m;
  (void)c.at(1);
  try { (void)c.at(2); return 1; } catch (std::exception const&) {}
  try { (void)m.at(2); return 2; } catch (std::exception const&) {}
  return 0;
}
''', "const at() exactly one past the last row", "no exception for an index outside the matrix")


add("C18-a", "C18", [(I + "strong.h", """  constexpr const strong operator--(int) {
    auto cpy = *this;
    --v_;
    return cpy;""", """  constexpr const strong operator--(int) {
    --v_;
    auto cpy = *this;
    return cpy;""")],
r'''
#include "cista/strong.h"
using s = cista::strong<unsigned, struct tag>;
int main() { s a{5U}; auto const b = a--; return b.v_ == 5U && a.v_ == 4U ? 0 : 1; }
''', "the value of a postfix decrement of a strong type", "postfix decrement returns the new value")

add("S07-a", "S07", [(C + "unique_ptr.h", """    reset();
    el_ = o.el_;
    self_allocated_ = o.self_allocated_;
""", """    reset();
    el_ = o.el_;
    self_allocated_ = true;
""")],
r'''
#include "cista/containers.h"
#include "cista/serialization.h"
namespace data = cista::offset;
struct R { data::unique_ptr<unsigned> p_; };
int main() {
  R r; r.p_ = data::make_unique<unsigned>(7U);
  auto buf = cista::serialize(r);
  auto* x = cista::deserialize<R>(buf);
  data::unique_ptr<unsigned> q;
  q = std::move(x->p_);
  auto ok = *q == 7U;
  q.reset();
  return ok ? 0 : 1;
}
''', "move assignment from a unique pointer of a deserialized value", "memory of the image is freed")

add("S09-a", "S09", [(I + "type_hash/type_hash.h", """  h = hash_combine(h, hash("variant"));
  ((h = type_hash(T{}, h, done)), ...);
  return h;""", """  h = hash_combine(h, hash("variant"));
  auto c = h;
  ((c = c + (type_hash(T{}, h, done) ^ h)), ...);
  return c;""")],
r'''
#include "cista/containers.h"
#include "cista/type_hash/type_hash.h"
struct A { int a_; char b_; };
int main() {
  using v1 = cista::variant<std::uint8_t, std::uint32_t, std::uint64_t>;
  using v2 = cista::variant<std::uint32_t, std::uint8_t, std::uint64_t>;
  using v3 = cista::variant<std::uint8_t, std::uint32_t>;
  auto a = cista::type_hash<v1>(), b = cista::type_hash<v2>(), c = cista::type_hash<v3>();
  return a != b && a != c && b != c && a == cista::type_hash<v1>() ? 0 : 1;
}
''', "two variants with the same alternatives in different order", "their type hashes are equal")

add("R01-a", "R01", [(I + "reflection/to_tuple.h", """                    p15, p16, p17, p18, p19, p20, p21, p22, p23, p24, p25, p26,
                    p27, p28, p29, p30, p31, p32, p33, p34, p35, p36, p37);""",
"""                    p15, p16, p17, p18, p19, p20, p21, p22, p23, p24, p26, p25,
                    p27, p28, p29, p30, p31, p32, p33, p34, p35, p36, p37);""")],
r'''
#include "cista/reflection/for_each_field.h"
struct A { int a[1]; };
struct S {
  int m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20,
      m21, m22, m23, m24, m25, m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37;
};
int main() {
  S s{};
  auto i = 0; auto ok = true;
  cista::for_each_field(s, [&](int& x) { ok = ok && &x == &s.m1 + i; ++i; });
  return ok && i == 37 ? 0 : 1;
}
''', "a struct with exactly 37 members", "two members are visited in the wrong order")

add("F01-a", "F01", [(I + "mmap.h", """    f_ = std::move(o.f_);
    prot_ = o.prot_;
    size_ = o.size_;""", """    f_ = std::move(o.f_);
    size_ = o.size_;""")],
r'''
#include "cista/mmap.h"
#include <cstdio>
#include <cstring>
int main() {
  {
    cista::mmap a{"x.bin", cista::mmap::protection::WRITE};
    a.resize(5);
    std::memcpy(a.data(), "hello", 5);
    cista::mmap b;
    b = std::move(a);
    try { b.resize(7); } catch (std::exception const&) { return 1; }
  }
  cista::mmap c{"x.bin", cista::mmap::protection::READ};
  return c.size() == 7 && std::memcmp(c.data(), "hello", 5) == 0 ? 0 : 2;
}
''', "move assignment of a writable mapping to a default constructed one, then resizing or closing", "the mapping becomes read-only, the file keeps the wrong size")

add("F02-a", "F02", [(I + "targets/file.h", """    verify(std::fwrite(ptr, 1U, size, f_) == size, "write error");
    size_ = curr_offset + size;""", """    size_ = curr_offset + std::fwrite(ptr, 1U, size, f_);""")],
r'''
#include "cista/targets/file.h"
#include <vector>
#include <cstdio>
int main() {
  // /dev/full: every write fails
  std::vector<char> v(1 << 16, 'x');
  cista::file f{"/dev/full", "r+"};
  try { f.write(v.data(), v.size(), 1); } catch (std::exception const&) { return 0; }
  return 1;
}
''', "a failing write to a file", "a short write is not reported")

add("M01-a", "M01", [(C + "hash_storage.h", "XX", "YY")], "", "", "") if False else None

add("S06-c", "S06", [(S, """  c.require(el->ctrl_[el->capacity_] == Type::END,
            "hash storage: end ctrl byte");
""", "")],
r'''
#include "cista/containers.h"
#include "cista/serialization.h"
namespace data = cista::offset;
using M = data::hash_map<unsigned, unsigned>;
int main() {
  M m; m[1] = 2;
  auto buf = cista::serialize(m);
  auto off = std::size_t{0};
  { auto b = buf; auto* x = cista::deserialize<M>(b);
    off = static_cast<std::size_t>(reinterpret_cast<unsigned char*>(cista::ptr_cast(x->ctrl_)) + x->capacity_ - b.data()); }
  for (auto k = 0U; k != 256U; ++k) {
    auto c = buf;
    if (c[off] == k) { continue; }
    c[off] = static_cast<unsigned char>(k);
    try { cista::deserialize<M>(c); return 1; } catch (std::exception const&) {}
  }
  return 0;
}
''', "an image whose hash map has no end marker", "iteration runs past the buffer")

add("S03-a", "S03", [(I + "targets/file.h", "    if (alignment > 1U) {", "    if (alignment > 2U) {")],
r'''
#include "cista/containers.h"
#include "cista/serialization.h"
#include "cista/mmap.h"
namespace data = cista::offset;
struct R { data::vector<unsigned char> a_; data::vector<unsigned short> b_; };
int main() {
  R r; r.a_.push_back(1); r.b_.push_back(0x1234);
  auto b = cista::serialize(r);
  { cista::file f{"x.bin", "w+"}; cista::serialize(f, r); }
  auto c = cista::file{"x.bin", "r"}.content();
  if (c.size() != b.size()) return 1;
  for (auto i = 0U; i != b.size(); ++i) if (c[i] != b[i]) return 2;
  return 0;
}
''', "two byte objects behind an odd number of bytes, file target", "the object is not aligned and the file differs from the buffer")

add("H01-a", "H01", [(I + "hashing.h", """    std::size_t h = seed;
    h = hashing<T1>{}(el.first, h);
    h = hashing<T2>{}(el.second, h);
    return h;
  }
};

template <typename T1, typename T2>
struct hashing<pair<T1, T2>> {""", """    std::size_t h = seed;
    h = hash_combine(h, hashing<T1>{}(el.first));
    h = hashing<T2>{}(el.second, h);
    return h;
  }
};

template <typename T1, typename T2>
struct hashing<pair<T1, T2>> {""")], "int main(){}", "", "") if False else None

add("C12-a", "C12", [(C + "nvec.h", """    i_ -= n;
    return *this;
  }
  const_meta_bucket operator+(difference_type const n) const {""", """    i_ += n;
    return *this;
  }
  const_meta_bucket operator+(difference_type const n) const {""")],
r'''
#include "cista/containers/nvec.h"
#include <vector>
int main() {
  cista::raw::nvec<unsigned, int, 2> v;
  using c = std::vector<std::vector<int>>;
  v.emplace_back(c{{1}}); v.emplace_back(c{{2, 3}, {4}}); v.emplace_back(c{{5}});
  auto const& k = v;
  auto it = k.end();
  it -= 2;
  return it == k[1] && (k.end() - 3) == k.begin() && it.size() == 2U ? 0 : 1;
}
''', "stepping back from the end of a constant nested vector", "the iterator moves in the wrong direction")

add("C16-b", "C16", [(C + "mmap_vec.h", """    for (auto i = used_size_; i < size; ++i) {
      new (data() + i) T{};
    }
""", "")],
r'''
#include "cista/containers/mmap_vec.h"
int main() {
  cista::mmap_vec<unsigned> v{cista::mmap{"x.bin"}};
  for (auto i = 1U; i != 6U; ++i) v.push_back(i);
  v.resize(2);
  v.resize(4);
  return v[0] == 1 && v[1] == 2 && v[2] == 0 && v[3] == 0 ? 0 : 1;
}
''', "resizing to less and then to more elements", "the new elements show old content")

add("C17-a", "C17", [(C + "cstring.h", """    } else if (s.h_.self_allocated_) {
      set_owning(s.data(), s.size());""", """    } else if (s.h_.self_allocated_) {
      set_owning(s.data());""")],
r'''
#include "cista/containers/cstring.h"
int main() {
  using s = cista::generic_cstring<char const*>;
  std::string t(20, 'a'); t[17] = '\0';
  s a{t, s::owning}; s b{a}; s c; c = a;
  return a.view() == t && b.view() == t && c.view() == t ? 0 : 1;
}
''', "copying an owning heap string with an embedded NUL", "the copy is cut off at the NUL")
