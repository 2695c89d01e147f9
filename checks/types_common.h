#pragma once
// rows written by types_gen.py: one per enumerated type
#include <chrono>
#include <memory>

#include "mc.h"

#include "cista/containers.h"
#include "cista/containers/flat_matrix.h"
#include "cista/containers/paged_vecvec.h"
#include "cista/serialization.h"

namespace data = cista::offset;
enum class E8 : std::uint8_t { A };
enum class E16 : std::uint16_t { A };
struct strong_tag {};
using sys_s =
    std::chrono::time_point<std::chrono::system_clock, std::chrono::seconds>;
using sys_ms = std::chrono::time_point<std::chrono::system_clock,
                                       std::chrono::milliseconds>;
using steady_s =
    std::chrono::time_point<std::chrono::steady_clock, std::chrono::seconds>;
template <typename T>
using paged_vv = cista::paged_vecvec<
    data::vector<typename cista::paged<data::vector<T>>::page_t>,
    cista::paged<data::vector<T>>, std::uint32_t>;

#ifdef IMAGES  // gives every variant a value
struct filler {
  template <typename T>
  void operator()(T& x) const {
    if constexpr (std::is_class_v<T> && cista::to_tuple_works_v<T>) {
      cista::for_each_field(x, *this);
    }
  }
  template <typename T, typename... Ts>
  void operator()(cista::variant<T, Ts...>& x) const {
    x.template emplace<T>();
    (*this)(cista::get<T>(x));
  }
  template <typename... Ts>
  void operator()(cista::tuple<Ts...>& x) const {
    cista::apply([&](auto&... e) { ((*this)(e), ...); }, x);
  }
  template <typename A, typename B>
  void operator()(cista::pair<A, B>& x) const {
    (*this)(x.first);
    (*this)(x.second);
  }
  template <typename T, std::size_t N>
  void operator()(cista::array<T, N>&) const {}
  template <typename T, template <typename> typename P, bool I, typename S>
  void operator()(cista::basic_vector<T, P, I, S>&) const {}
};
#endif

template <typename T>
struct ops {
  static cista::hash_t dyn() { return cista::type_hash<T>(); }
#ifdef ONLY_DYNAMIC
  static cista::hash_t stat() { return 0U; }
#else
  static cista::hash_t stat() {
    static constexpr auto const h = cista::static_type_hash<T>();
    return h;
  }
#endif
#ifdef IMAGES
  template <cista::mode M>
  static cista::byte_buf image() {
    auto v = std::make_unique<T>();
    filler{}(*v);
    return cista::serialize<M>(*v);
  }
  // 0: accepted, 1: rejected because of the version, 2: rejected later
  template <cista::mode M>
  static int read(std::uint8_t* from, std::uint8_t* to) {
    try {
      cista::deserialize<T, M>(from, to);
      return 0;
    } catch (std::exception const& e) {
      return strstr(e.what(), "version") != nullptr ? 1 : 2;
    }
  }
#endif
};

struct row {
  char const* name_;
  unsigned color_, flat_;
  cista::hash_t (*dyn_)();
  cista::hash_t (*stat_)();
  cista::hash_t (*twin_dyn_)();
  cista::hash_t (*twin_stat_)();
#ifdef IMAGES
  cista::byte_buf (*image_[4])();
  int (*read_[7])(std::uint8_t*, std::uint8_t*);
#endif
};

#ifdef IMAGES
namespace md {
using cista::mode;
constexpr auto V = mode::WITH_VERSION;
constexpr auto S = mode::WITH_STATIC_VERSION;
constexpr auto I = mode::WITH_INTEGRITY;
constexpr auto B = mode::SERIALIZE_BIG_ENDIAN;
constexpr auto VI = V | I;
constexpr auto SK = mode::SKIP_VERSION;
constexpr auto U = mode::UNCHECKED | V;
constexpr auto D = mode::DEEP_CHECK | S;
}  // namespace md
#define MAKE(...) MAKE_(__VA_ARGS__)
#define MAKE_(T, W)                                                          \
  &ops<T>::dyn, &ops<T>::stat, &ops<W>::dyn, &ops<W>::stat,                  \
      {&ops<T>::image<md::V>, &ops<T>::image<md::S>, &ops<T>::image<md::VI>, \
       &ops<T>::image<cista::mode::NONE>},                                   \
  {                                                                          \
    &ops<T>::read<md::V>, &ops<T>::read<md::S>, &ops<T>::read<md::VI>,       \
        &ops<T>::read<cista::mode::NONE>, &ops<T>::read<md::U>,              \
        &ops<T>::read<md::D>, &ops<T>::read<md::SK>                          \
  }
#else
#define MAKE(T, W) &ops<T>::dyn, &ops<T>::stat, &ops<W>::dyn, &ops<W>::stat
#endif
