import sys; sys.path.insert(0, "/verif/tools")
from seedtool import add
I = "include/cista/"
C = I + "containers/"
S = I + "serialization.h"


add("S05-a", "S05", [(I + "type_hash/type_hash.h", """  h = hash_combine(h, hash("unique_ptr"));
  return type_hash(T{}, h, done);""", """  h = hash_combine(h, hash("pointer"));
  return type_hash(T{}, h, done);""")],
r'''
#include "cista/containers.h"
#include "cista/serialization.h"
namespace data = cista::offset;
struct A { data::unique_ptr<unsigned> p_; };
struct B { data::ptr<unsigned> p_; };
constexpr auto M = cista::mode::WITH_VERSION;
int main() {
  A a;
  a.p_ = data::make_unique<unsigned>(1U);
  auto b = cista::serialize<M>(a);
  cista::deserialize<A, M>(b);
  try { cista::deserialize<B, M>(b); return 1; } catch (std::exception const& e) {
    return std::string_view{e.what()} == "invalid version" ? 0 : 2; }
}
''', "an owning pointer member replaced by a plain pointer", "the image of the other type has the same version")

add("M01-a", "M01", [(C + "vector.h", """    auto num_bytes = static_cast<std::size_t>(next_size) * sizeof(T);
    auto mem_buf = static_cast<T*>(std::malloc(num_bytes));  // NOLINT
    if (mem_buf == nullptr) {
      throw_exception(std::bad_alloc());
    }
""", """    auto num_bytes = static_cast<std::size_t>(next_size) * sizeof(T);
    auto mem_buf = static_cast<T*>(std::malloc(num_bytes));  // NOLINT
    if (mem_buf == nullptr && size() != 0) {
      throw_exception(std::bad_alloc());
    }
""")],
r"""
#include "cista/containers/vector.h"
#include <sys/resource.h>
#include <new>
int main() {
  struct rlimit l{1ULL << 30U, 1ULL << 30U};
  setrlimit(RLIMIT_AS, &l);
  cista::raw::vector<std::uint64_t> v;
  try { v.reserve(1U << 29U); return 1; } catch (std::bad_alloc const&) {}
  v.push_back(1);
  return v.size() == 1 && v[0] == 1 ? 0 : 2;
}
""", "the first allocation of an empty vector fails", "reserve reports success, the next insertion writes to a null pointer", flags="")

add("C06-c", "C06", [(C + "variant.h", """      variant tmp{std::move(o)};
      o = std::move(*this);
      *this = std::move(tmp);""", """      variant tmp{std::move(o)};
      o = *this;
      *this = std::move(tmp);""")],
r'''
#include "cista/containers/variant.h"
#include <memory>
int copies = 0;
struct X { int v; X(int i) : v{i} {} X(X const& o) : v{o.v} { ++copies; throw 1; } X(X&& o) noexcept : v{o.v} {} X& operator=(X const& o) = default; X& operator=(X&&) = default; };
int main() {
  cista::variant<X, char> a{X{3}}, b{'c'};
  try { a.swap(b); } catch (int) { return 1; }
  return cista::get<X>(b).v == 3 && cista::get<char>(a) == 'c' && copies == 0 ? 0 : 2;
}
''', "swap of different alternatives one of which throws when copied", "swap throws and loses a value")

add("H01-a", "H01", [(C + "string.h", "@", "@")], "", "", "") if False else None
