// Root types of the serialization checks.  -DROOT=n selects one group so that
// the groups compile in parallel.
#pragma once

#include "gen.h"

namespace roots {

struct tag_a {};
using key_t_ = cista::strong<std::uint32_t, tag_a>;
enum class color : std::uint8_t { RED, GREEN, BLUE };

struct inner {
  std::uint8_t a_{};
  std::uint32_t b_{};
  data::string c_{};
  KIT_EACH(a_, b_, c_)
};

struct R_vec {
  std::uint8_t pad_{};
  data::vector<std::uint32_t> a_{};
  data::vector<data::string> b_{};
  data::vector<data::vector<std::uint8_t>> c_{};
  data::vector_map<key_t_, std::uint64_t> d_{};
  data::vector<inner> e_{};
  data::indexed_vector<std::uint16_t> f_{};
  data::vector<bool> g_{};
  cista::basic_vector<std::uint16_t, data::ptr, false, std::uint64_t> h_{};
  KIT_EACH(pad_, a_, b_, c_, d_, e_, f_, g_, h_)
};

struct R_str {
  data::string a_{};
  data::string_view b_{};
  data::u16string c_{};
  std::uint8_t pad_{};
  data::u32string d_{};
  data::u16string_view e_{};
  data::u32string_view f_{};
  data::vector<data::u16string> g_{};
  KIT_EACH(a_, b_, c_, pad_, d_, e_, f_, g_)
};

struct R_cstr {
  std::uint8_t pad_{};
  data::cstring a_{};
  data::vector<data::cstring> b_{};
  KIT_EACH(pad_, a_, b_)
};

struct R_hash {
  data::hash_map<std::uint32_t, std::uint64_t> a_{};
  data::hash_map<data::string, data::string> b_{};
  data::hash_set<std::uint16_t> c_{};
  data::hash_set<data::string> d_{};
  data::hash_map<std::uint8_t, data::vector<std::uint32_t>> e_{};
  data::hash_map<std::uint32_t, data::hash_set<std::uint32_t>> f_{};
  KIT_EACH(a_, b_, c_, d_, e_, f_)
};

struct R_sum {
  std::uint8_t pad_{};
  cista::variant<std::uint8_t, data::string, std::uint64_t> a_{};
  cista::optional<std::uint32_t> b_{};
  cista::optional<data::string> c_{};
  data::unique_ptr<std::uint64_t> d_{};
  data::unique_ptr<inner> e_{};
  cista::tuple<std::uint8_t, data::string, std::uint32_t> f_{};
  cista::pair<std::uint16_t, data::string> g_{};
  cista::array<std::uint32_t, 3> i_{};
  cista::array<data::string, 2> j_{};
  KIT_EACH(pad_, a_, b_, c_, d_, e_, f_, g_, i_, j_)
};

struct R_stdpair {
  std::uint8_t pad_{};
  std::pair<data::string, std::uint16_t> a_{};
  data::vector<std::pair<std::uint8_t, data::string>> b_{};
  KIT_EACH(pad_, a_, b_)
};

struct R_scalar {
  bool a_{};
  std::int8_t b_{};
  std::int16_t c_{};
  std::int32_t d_{};
  std::int64_t e_{};
  std::uint16_t f_{};
  std::uint32_t g_{};
  std::uint64_t h_{};
  char i_{};
  key_t_ j_{};
  std::chrono::seconds k_{};
  std::chrono::duration<std::uint32_t, std::ratio<60>> l_{};
  std::chrono::time_point<std::chrono::system_clock,
                          std::chrono::duration<std::int64_t>>
      m_{};
  data::vector<std::chrono::duration<std::int32_t>> n_{};
#ifndef NO_FLOAT
  float o_{};
  double p_{};
  color q_{};
  KIT_EACH(a_, b_, c_, d_, e_, f_, g_, h_, i_, j_, k_, l_, m_, n_, o_, p_, q_)
#else
  KIT_EACH(a_, b_, c_, d_, e_, f_, g_, h_, i_, j_, k_, l_, m_, n_)
#endif
};

struct R_bits {
  cista::bitset<1> a_{};
  std::uint8_t pad_{};
  cista::bitset<64> b_{};
  cista::bitset<65> c_{};
  cista::bitset<130> d_{};
  data::bitvec e_{};
  data::vector<data::bitvec> f_{};
  KIT_EACH(a_, pad_, b_, c_, d_, e_, f_)
};

struct R_multi {
  data::fws_multimap<std::uint32_t, std::uint16_t> a_{};
  data::fws_multimap<std::uint32_t, data::string> b_{};
  data::vecvec<key_t_, std::uint16_t> c_{};
  data::vecvec<std::uint32_t, char> d_{};
  data::nvec<std::uint32_t, std::uint16_t, 2> e_{};
  data::nvec<std::uint32_t, data::string, 3> f_{};
  KIT_EACH(a_, b_, c_, d_, e_, f_)
};

struct R_paged {
  data::mutable_fws_multimap<std::uint32_t, std::uint32_t> a_{};
  cista::paged_vecvec<
      data::vector<typename cista::paged<data::vector<std::uint32_t>>::page_t>,
      cista::paged<data::vector<std::uint32_t>>, std::uint32_t>
      b_{};
  data::flat_matrix<std::uint32_t> c_{};
  data::flat_matrix<data::string> d_{};
  KIT_EACH(a_, b_, c_, d_)
};

struct R_rtree {
  std::uint8_t pad_{};
  data::rtree<std::uint32_t, 2, std::int32_t, 4, std::uint32_t> a_{};
  data::rtree<std::uint16_t, 3, float, 8, std::uint16_t> b_{};
  KIT_EACH(pad_, a_, b_)
};

// deep nesting of containers that each have an out-of-line part
struct R_nest {
  data::vector<data::hash_map<std::uint32_t, data::vector<data::string>>> a_{};
  data::unique_ptr<data::vector<cista::variant<std::uint32_t, inner>>> b_{};
  data::vector<cista::optional<data::vector<data::string>>> c_{};
  data::hash_map<data::string, cista::tuple<data::unique_ptr<std::uint32_t>, data::string>> d_{};
  cista::variant<data::vector<std::uint64_t>, data::unique_ptr<inner>> e_{};
  data::vector<cista::pair<std::uint8_t, data::unique_ptr<data::string>>> f_{};
  KIT_EACH(a_, b_, c_, d_, e_, f_)
};

struct alignas(16) al16 {
  std::uint64_t x_{};
  std::uint8_t y_{};
  KIT_EACH(x_, y_)
};
struct alignas(64) al64 {
  std::uint32_t x_{};
  KIT_EACH(x_)
};
struct R_align {
  std::uint8_t pad_{};
  data::vector<std::uint8_t> a_{};
  data::vector<al16> b_{};
  data::vector<al64> c_{};
  data::unique_ptr<al16> d_{};
  data::unique_ptr<al64> e_{};
  cista::optional<al16> f_{};
  KIT_EACH(pad_, a_, b_, c_, d_, e_, f_)
};

// alignment larger than the version and integrity headers
struct alignas(64) R_align64 {
  std::uint8_t pad_{};
  data::vector<std::uint16_t> a_{};
  data::unique_ptr<al16> b_{};
  KIT_EACH(pad_, a_, b_)
};
struct R_align8 {
  std::uint8_t pad_{};
  data::vector<al64> c_{};
  data::unique_ptr<al16> b_{};
  cista::optional<al16> d_{};
  KIT_EACH(pad_, c_, b_, d_)
};

// explicit member list instead of reflection
struct R_members {
  R_members() = default;
  auto cista_members() { return std::tie(a_, b_, c_); }
  KIT_EACH(a_, b_, c_)
private:
  std::uint8_t a_{};
  data::vector<data::string> b_{};
  data::hash_set<std::uint32_t> c_{};
};

struct R_small {
  std::uint32_t a_{};
  data::vector<std::uint16_t> b_{};
  data::string c_{};
  data::unique_ptr<std::uint64_t> d_{};
  KIT_EACH(a_, b_, c_, d_)
};

using B_vec = data::vector<std::uint32_t>;
using B_str = data::string;
using B_map = data::hash_map<std::uint32_t, data::string>;
using B_uptr = data::unique_ptr<inner>;

}  // namespace roots
