// mmap, mmap_vec and containers on it: every history incl. close, reopen and move.
#include "iofault.h"
#include "mc.h"

#include <list>
#include <memory>
#include <numeric>
#include <optional>

#include "cista/containers/bitvec.h"
#include "cista/containers/mmap_vec.h"
#include "cista/containers/paged.h"
#include "cista/containers/paged_vecvec.h"
#include "cista/containers/vecvec.h"
#include "cista/strong.h"

namespace {

using prot = cista::mmap::protection;

struct env {
  env() {
    w_.active = true;
    io::W = &w_;
  }
  ~env() { io::W = nullptr; }
  void check(std::size_t const maps, std::size_t const files) {
    MC_CHECK(w_.error.empty(), "handle_misuse", "%s", w_.error.c_str());
    MC_CHECK(w_.maps.size() == maps, "mappings", "%zu live mappings, expected %zu", w_.maps.size(), maps);
    MC_CHECK(w_.files.size() == files, "files", "%zu open files, expected %zu", w_.files.size(), files);
  }
  void done() {
    check(0U, 0U);
    w_.active = false;
  }
  io::dir dir_;
  io::world w_;
};

std::string hex(std::vector<unsigned char> const& v) {
  auto s = std::string{};
  for (auto i = std::size_t{0}; i < v.size() && i < 24U; ++i) {
    char b[4];
    std::snprintf(b, sizeof(b), "%02x ", v[i]);
    s += b;
  }
  return s + (v.size() > 24U ? "..." : "");
}

void file_is(env& e, char const* name, std::vector<unsigned char> const& x) {
  auto const f = io::read_all(e.dir_.file(name));
  MC_CHECK(f.size() == x.size(), "file_size", "file %s has %zu bytes, expected %zu", name, f.size(), x.size());
  MC_CHECK(f == x, "file_content", "file %s is %s, expected %s", name, hex(f).c_str(), hex(x).c_str());
}

#if PART == 1

// --- two mmap objects over two files ---
MC_SCENARIO("mmap", 3, 4) {
  env e;
  {
    struct obj {
      std::optional<cista::mmap> m;
      int file = -1;  // index of the file, -1: none
      prot p = prot::READ;
      std::vector<unsigned char> x;
    };
    obj o[2];
    std::vector<unsigned char> disk[2];
    bool exists[2] = {false, false};
    char const* const names[2] = {"a", "b"};
    unsigned char next = 1;
    auto const init = mc::choose(3);
    if (init != 0) {
      disk[0].resize(init == 1 ? 5U : 5000U);
      std::iota(disk[0].begin(), disk[0].end(), static_cast<unsigned char>(100));
      exists[0] = true;
      io::write_all(e.dir_.file("a"), disk[0].data(), disk[0].size());
    }
    mc::logf("file a: %zu bytes", disk[0].size());
    auto close_model = [&](obj& x) {
      if (x.file != -1 && x.p != prot::READ) {
        disk[x.file] = x.x;
      }
      x.file = -1;
      x.x.clear();
    };
    auto write = [&](obj& x) {
      for (auto i = std::size_t{0}; i < x.x.size(); i += (i < 3U || i + 3U > x.x.size() ? 1U : x.x.size() - 4U)) {
        x.x[i] = next;
        (*x.m)[i] = next++;
      }
    };
    auto verify_all = [&] {
      auto maps = std::size_t{0}, files = std::size_t{0};
      for (auto& x : o) {
        if (!x.m.has_value()) {
          continue;
        }
        cista::mmap& m = *x.m;
        cista::mmap const& c = m;
        files += x.file != -1;
        maps += m.data() != nullptr;
        MC_CHECK(m.size() == x.x.size(), "size", "size %zu, expected %zu", m.size(), x.x.size());
        MC_CHECK(x.x.empty() || m.data() != nullptr, "data", "no data");
        MC_CHECK(m.begin() == m.data() && c.begin() == c.data() && m.end() == m.begin() + x.x.size() &&
                     c.end() == c.begin() + x.x.size() && c.view().size() == x.x.size(),
                 "range", "begin/end/view");
        MC_CHECK(x.x.empty() || std::memcmp(c.data(), x.x.data(), x.x.size()) == 0, "content", "content differs");
      }
      e.check(maps, files);
    };
    auto const steps = mc::bound();
    for (auto s = 0; s != steps; ++s) {
      mc::step();
      auto const kind = mc::choose(7);
      auto& x = o[mc::choose(2)];
      auto& y = &x == o ? o[1] : o[0];
      auto const xi = static_cast<int>(&x - o);
      auto log = [&](char const* what, std::size_t const n = 0) {
        mc::op(what);
        mc::logf("%d: %s %zu", xi, what, n);
      };
      switch (kind) {
        case 0: {  // open
          auto const f = mc::choose(2);
          if (y.file == f) {
            continue;
          }
          auto const p = mc::pick({prot::WRITE, prot::MODIFY, prot::READ});
          log(p == prot::WRITE ? "open WRITE" : p == prot::READ ? "open READ" : "open MODIFY", static_cast<std::size_t>(f));
          x.m.reset();
          close_model(x);
          auto threw = false;
          try {
            x.m.emplace(e.dir_.file(names[f]).c_str(), p);
          } catch (std::exception const&) {
            threw = true;
          }
          auto const should = p != prot::WRITE && !exists[f];
          MC_CHECK(threw == should, "open", "opening %s file: %s", exists[f] ? "an existing" : "a missing",
                   threw ? "exception" : "no exception");
          if (threw) {
            continue;
          }
          if (p == prot::WRITE) {
            disk[f].clear();
            exists[f] = true;
          }
          x.file = f;
          x.p = p;
          x.x = disk[f];
          break;
        }
        case 1: {  // close
          log("close");
          x.m.reset();
          close_model(x);
          break;
        }
        case 2:
        case 3: {
          if (!x.m.has_value() || x.file == -1) {
            continue;
          }
          auto const n = static_cast<std::size_t>(mc::pick({0, 3, 4096, 4097, 9000}));
          log(kind == 2 ? "resize" : "reserve", n);
          auto threw = false;
          try {
            if (kind == 2) {
              x.m->resize(n);
            } else {
              x.m->reserve(n);
            }
          } catch (std::exception const&) {
            threw = true;
          }
          MC_CHECK(threw == (x.p == prot::READ), "read_only", "resizing a %s mapping", x.p == prot::READ ? "read-only" : "writable");
          if (!threw && kind == 2) {
            auto const old = x.x.size();
            x.x.resize(n);
            for (auto i = old; i < n; ++i) {  // new bytes are unspecified
              (*x.m)[i] = x.x[i] = 0xEE;
            }
            write(x);
          }
          break;
        }
        case 4: {
          if (!x.m.has_value() || x.file == -1) {
            continue;
          }
          log("sync");
          x.m->sync();
          if (x.p != prot::READ && x.m->data() != nullptr) {  // visible in the file
            auto f = io::read_all(e.dir_.file(names[x.file]));
            MC_CHECK(f.size() >= x.x.size() && std::equal(x.x.begin(), x.x.end(), f.begin()), "sync", "file after sync()");
          }
          break;
        }
        case 5: {
          if (!y.m.has_value()) {
            continue;
          }
          log("move assign from other");
          if (!x.m.has_value()) {
            x.m.emplace();  // default constructed
          }
          close_model(x);
          *x.m = std::move(*y.m);
          x.file = y.file;
          x.p = y.p;
          x.x = y.x;
          y.file = -1;
          y.x.clear();
          break;
        }
        case 6: {
          if (!x.m.has_value()) {
            continue;
          }
          log("move construct");
          auto t = cista::mmap{std::move(*x.m)};
          MC_CHECK(x.m->size() == 0U && x.m->data() == nullptr, "moved_from", "moved-from mapping still has %zu bytes", x.m->size());
          if (mc::choose(2) == 0) {
            *x.m = std::move(t);
          } else {
            x.m.emplace(std::move(t));
          }
          break;
        }
      }
      verify_all();
      mc::state(mc::H{}(o[0].x.size())(o[1].x.size())(static_cast<std::uint64_t>(o[0].file + 1))(
          static_cast<std::uint64_t>(o[1].file + 1))(static_cast<std::uint64_t>(o[0].p))(static_cast<std::uint64_t>(o[1].p)));
    }
    for (auto& x : o) {
      x.m.reset();
      close_model(x);
    }
    for (auto i = 0; i != 2; ++i) {
      if (exists[i]) {
        file_is(e, names[i], disk[i]);
      }
    }
  }
  e.done();
  mc::checked();
}

// --- cista::file ---
MC_SCENARIO("file", 4, 5) {
  env e;
  {
    std::optional<cista::file> f[2];
    bool open[2] = {false, false};
    auto const steps = mc::bound();
    auto const path = e.dir_.file("a");
    io::write_all(path, "0123456789", 10U);
    for (auto s = 0; s != steps; ++s) {
      mc::step();
      auto const i = mc::choose(2);
      auto const kind = mc::choose(6);
      mc::logf("%d: %d", i, kind);
      mc::op("file");
      switch (kind) {
        case 0:
          f[i].emplace(path.c_str(), "r");
          open[i] = true;
          break;
        case 1:
          f[i].reset();
          open[i] = false;
          break;
        case 2:
          if (!f[1 - i].has_value()) {
            continue;
          }
          if (!f[i].has_value()) {
            f[i].emplace();
          }
          *f[i] = std::move(*f[1 - i]);
          open[i] = open[1 - i];
          open[1 - i] = false;
          break;
        case 3: {
          if (!f[i].has_value()) {
            continue;
          }
          auto t = cista::file{std::move(*f[i])};
          f[i].emplace(std::move(t));
          break;
        }
        case 4: {
          if (!open[i]) {
            continue;
          }
          auto const b = f[i]->content();
          MC_CHECK(b.size() == 10U && std::memcmp(b.data(), "0123456789", 10U) == 0, "content", "content()");
          break;
        }
        case 5: {
          auto threw = false;
          try {
            f[i].emplace(e.dir_.file("missing").c_str(), "r");
          } catch (std::exception const&) {
            threw = true;
          }
          open[i] = false;
          MC_CHECK(threw, "open", "opening a missing file");
          break;
        }
      }
      auto const n = static_cast<std::size_t>(open[0]) + static_cast<std::size_t>(open[1]);
      e.check(0U, n);
      for (auto k = 0; k != 2; ++k) {
        if (f[k].has_value()) {
          MC_CHECK(f[k]->size() == (open[k] ? 10U : 0U), "size", "file size %zu", f[k]->size());
        }
      }
      mc::state(mc::H{}(open[0])(open[1])(f[0].has_value())(f[1].has_value()));
    }
  }
  e.done();
  mc::checked();
}

#elif PART == 2

// --- mmap_vec vs std::vector ---
struct rec {
  friend bool operator==(rec const& a, rec const& b) { return a.a_ == b.a_ && a.b_ == b.b_; }
  std::uint8_t a_;
  std::uint32_t b_;
};

template <typename T>
T make(unsigned const i) {
  if constexpr (std::is_integral_v<T>) {
    return static_cast<T>(i);
  } else {
    T t;
    std::memset(&t, 0, sizeof(t));  // padding takes part in the file comparison
    t.a_ = static_cast<std::uint8_t>(i);
    t.b_ = i * 77U;
    return t;
  }
}

template <typename T>
struct input_it {
  using iterator_category = std::input_iterator_tag;
  using value_type = T;
  using difference_type = std::ptrdiff_t;
  using pointer = T*;
  using reference = T&;
  input_it& operator++() {
    ++p_;
    return *this;
  }
  T& operator*() const { return *p_; }
  friend bool operator==(input_it const& a, input_it const& b) { return a.p_ == b.p_; }
  friend bool operator!=(input_it const& a, input_it const& b) { return a.p_ != b.p_; }
  T* p_;
};

template <typename Vec>
void vec_history(unsigned const prefill) {
  using T = typename Vec::value_type;
  using key = typename Vec::access_type;
  auto K = [](std::size_t const i) { return key{static_cast<cista::base_t<key>>(i)}; };
  env e;
  {
    auto next = 1U;
    auto const path = e.dir_.file("a");
    auto v = std::make_unique<Vec>(cista::mmap{path.c_str()});
    auto r = std::vector<T>{};
    auto read_only = false;
    auto const start = mc::choose(3);
    for (auto i = 0U; i != (start == 0 ? 0U : start == 1 ? 3U : prefill); ++i) {
      r.push_back(make<T>(next++));
      v->push_back(r.back());
    }
    mc::logf("start: %zu", r.size());
    auto check = [&](Vec& x) {
      Vec const& c = x;
      MC_CHECK(x.size() == r.size() && x.empty() == r.empty(), "size", "size %zu, expected %zu", static_cast<std::size_t>(x.size()), r.size());
      MC_CHECK(std::equal(x.begin(), x.end(), r.begin(), r.end()) && std::equal(c.begin(), c.end(), r.begin(), r.end()) &&
                   std::equal(begin(x), end(x), r.begin(), r.end()) && std::equal(begin(c), end(c), r.begin(), r.end()) &&
                   std::equal(c.cbegin(), c.cend(), r.begin(), r.end()) && x.data() == x.begin() && c.data() == c.begin(),
               "content", "content differs");
      for (auto i = std::size_t{0}; i < r.size(); i += 1U + i / 2U) {
        MC_CHECK(x[K(i)] == r[i] && c[K(i)] == r[i], "[]", "[%zu]", i);
      }
    };
    auto const steps = mc::bound();
    for (auto s = 0; s != steps; ++s) {
      mc::step();
      auto const kind = mc::choose(15);
      auto log = [&](char const* what, std::size_t const n = 0) {
        mc::op(what);
        mc::logf("%s %zu", what, n);
      };
      if (read_only && kind < 12) {
        continue;
      }
      auto const pos = [&] { return std::vector<std::size_t>{0U, r.size() / 2U, r.size()}[static_cast<std::size_t>(mc::choose(3))]; };
      switch (kind) {
        case 0:
          log("push_back");
          r.push_back(make<T>(next++));
          v->push_back(r.back());
          break;
        case 1: {
          if (r.empty()) {
            continue;
          }
          log("push_back(own element)");
          auto const x = r[r.size() / 2U];
          if (mc::choose(2) == 0) {
            v->push_back((*v)[K(r.size() / 2U)]);
          } else {
            auto& back = v->emplace_back((*v)[K(r.size() / 2U)]);
            MC_CHECK(&back == v->end() - 1, "emplace_back", "returned reference");
          }
          r.push_back(x);
          break;
        }
        case 2: {
          log("emplace_back");
          auto const x = make<T>(next++);
          auto& y = v->emplace_back(x);
          r.push_back(x);
          MC_CHECK(y == x && &y == v->end() - 1, "emplace_back", "returned reference");
          break;
        }
        case 3:
        case 4: {
          auto const n = mc::pick({std::size_t{0}, r.size() / 2U, r.size() + 1U, r.size() + 1500U});
          log(kind == 3 ? "resize" : "reserve", n);
          if (kind == 3) {
            v->resize(static_cast<typename Vec::size_type>(n));
            r.resize(n, make<T>(0));
          } else {
            v->reserve(static_cast<typename Vec::size_type>(n));
          }
          break;
        }
        case 5: {
          auto const at = pos();
          log("insert", at);
          auto const x = make<T>(next++);
          auto* const it = v->insert(v->begin() + at, x);
          r.insert(r.begin() + static_cast<std::ptrdiff_t>(at), x);
          MC_CHECK(it == v->begin() + at, "insert", "insert returns offset %zd, expected %zu", it - v->begin(), at);
          break;
        }
        case 6: {
          if (r.empty()) {
            continue;
          }
          auto const at = pos();
          log("insert(own element)", at);
          auto const x = r.back();
          v->insert(v->begin() + at, (*v)[K(r.size() - 1U)]);
          r.insert(r.begin() + static_cast<std::ptrdiff_t>(at), x);
          break;
        }
        case 7:
        case 8: {
          auto const at = pos();
          auto const n = static_cast<std::size_t>(mc::pick({0, 1, 2, 5}));
          log(kind == 7 ? "insert range" : "insert input range", at);
          std::vector<T> x;
          for (auto i = 0U; i != n; ++i) {
            x.push_back(make<T>(next++));
          }
          auto* const it = kind == 7 ? v->insert(v->begin() + at, x.begin(), x.end())
                                     : v->insert(v->begin() + at, input_it<T>{x.data()}, input_it<T>{x.data() + n});
          r.insert(r.begin() + static_cast<std::ptrdiff_t>(at), x.begin(), x.end());
          MC_CHECK(it == v->begin() + at, "insert", "insert returns offset %zd, expected %zu", it - v->begin(), at);
          break;
        }
        case 9: {
          auto const n = static_cast<std::size_t>(mc::pick({0, 2, 40}));
          log("set", n);
          r.clear();
          for (auto i = 0U; i != n; ++i) {
            r.push_back(make<T>(next++));
          }
          v->set(r.begin(), r.end());
          break;
        }
        case 10: {
          if (r.empty()) {
            continue;
          }
          log("assign elements");
          r.back() = make<T>(next++);
          r.front() = make<T>(next++);
          (*v)[K(r.size() - 1U)] = r.back();
          *v->begin() = r.front();
          break;
        }
        case 11: {
          log("reverse");
          std::reverse(v->begin(), v->end());
          std::reverse(r.begin(), r.end());
          break;
        }
        case 12: {
          log("move");
          auto t = Vec{std::move(*v)};
          check(t);
          MC_CHECK(v->size() == 0U && v->begin() == v->end(), "moved_from", "moved-from vector claims %zu elements",
                   static_cast<std::size_t>(v->size()));
          if (mc::choose(2) == 0) {
            *v = std::move(t);
          } else {
            v = std::make_unique<Vec>(std::move(t));
          }
          break;
        }
        case 13:
        case 14: {
          log(kind == 13 ? "close, open MODIFY" : "close, open READ");
          v.reset();
          e.check(0U, 0U);
          auto const* const p = reinterpret_cast<unsigned char const*>(r.data());
          file_is(e, "a", std::vector<unsigned char>(p, p + r.size() * sizeof(T)));
          v = std::make_unique<Vec>(cista::mmap{path.c_str(), kind == 13 ? prot::MODIFY : prot::READ});
          read_only = kind == 14;
          break;
        }
      }
      check(*v);
      e.check(v->data() == nullptr ? 0U : 1U, 1U);
      mc::state(mc::H{}(r.size())(read_only)(v->mmap_.size()));
    }
    v.reset();
    auto const* const p = reinterpret_cast<unsigned char const*>(r.data());
    file_is(e, "a", std::vector<unsigned char>(p, p + r.size() * sizeof(T)));
  }
  e.done();
  mc::checked();
}

struct tag {};
MC_SCENARIO("mmap_vec u32", 3, 4) { vec_history<cista::mmap_vec<std::uint32_t>>(1024U); }
MC_SCENARIO("mmap_vec strong rec", 2, 3) { vec_history<cista::mmap_vec_map<cista::strong<std::uint32_t, tag>, rec>>(1023U); }
MC_SCENARIO("mmap_vec u8", 2, 3) { vec_history<cista::mmap_vec<std::uint8_t>>(8U); }

#else

// --- containers on memory-mapped vectors ---
struct tag {};
using key = cista::strong<std::uint32_t, tag>;

MC_SCENARIO("vecvec", 4, 5) {
  using data_t = cista::mmap_vec<char>;
  using idx_t = cista::mmap_vec<std::uint32_t>;
  using vv = cista::basic_vecvec<key, data_t, idx_t>;
  env e;
  {
    auto const open = [&](prot const p) {
      return std::make_unique<vv>(
          vv{data_t{cista::mmap{e.dir_.file("a").c_str(), p}}, idx_t{cista::mmap{e.dir_.file("b").c_str(), p}}});
    };
    auto v = open(prot::WRITE);
    std::vector<std::string> r;
    auto next = 0U;
    auto const text = [&](unsigned const n) {
      auto s = std::string(n, 'a');
      for (auto& c : s) {
        c = static_cast<char>('a' + next++ % 26U);
      }
      return s;
    };
    auto read_only = false;
    auto check = [&] {
      vv const& c = *v;
      MC_CHECK(v->size() == r.size(), "size", "size %zu, expected %zu", static_cast<std::size_t>(v->size()), r.size());
      for (auto i = 0U; i != r.size(); ++i) {
        MC_CHECK((*v)[key{i}].view() == r[i] && c[key{i}].view() == r[i] && c.at(key{i}).size() == r[i].size(), "content", "bucket %u", i);
      }
      auto i = 0U;
      for (auto const& b : c) {
        MC_CHECK(i < r.size() && b.view() == r[i], "iter", "bucket %u", i);
        ++i;
      }
    };
    auto const steps = mc::bound();
    for (auto s = 0; s != steps; ++s) {
      mc::step();
      auto const kind = mc::choose(7);
      if (read_only && kind < 5) {
        continue;
      }
      mc::logf("op %d", kind);
      mc::op("vecvec on mmap");
      switch (kind) {
        case 0:
          r.push_back(text(static_cast<unsigned>(mc::pick({0, 3, 5000}))));
          v->emplace_back(r.back());
          break;
        case 1:
          if (r.empty()) {
            continue;
          }
          r.front().push_back('X');
          (*v)[key{0U}].push_back('X');
          break;
        case 2:
          if (r.empty()) {
            continue;
          }
          r.back().resize(r.back().size() + 2U, 'g');
          (*v)[key{static_cast<std::uint32_t>(r.size() - 1U)}].grow(r.back().size(), 'g');
          break;
        case 3: {
          auto const n = r.size() + static_cast<std::size_t>(mc::choose(2));
          r.resize(n);
          v->resize(n);
          break;
        }
        case 4:
          if (r.empty()) {
            continue;
          }
          r.pop_back();
          v->resize(r.size());
          break;
        case 5:
        case 6:
          v.reset();
          e.check(0U, 0U);
          v = open(kind == 5 ? prot::MODIFY : prot::READ);
          read_only = kind == 6;
          break;
      }
      check();
      e.check((v->data_.data() != nullptr) + (v->bucket_starts_.data() != nullptr), 2U);
      mc::state(mc::H{}(r.size())(read_only)(v->data_.size()));
    }
  }
  e.done();
  mc::checked();
}

MC_SCENARIO("paged_vecvec", 4, 5) {
  using data_t = cista::paged<cista::mmap_vec<char>>;
  using idx_t = cista::mmap_vec<data_t::page_t>;
  using vv = cista::paged_vecvec<idx_t, data_t, key>;
  env e;
  {
    auto free_list = decltype(std::declval<data_t>().free_list_){};
    auto const open = [&](prot const p) {
      auto x = std::make_unique<vv>(
          vv{data_t{cista::mmap_vec<char>{cista::mmap{e.dir_.file("a").c_str(), p}}}, idx_t{cista::mmap{e.dir_.file("b").c_str(), p}}});
      x->paged_.free_list_ = free_list;
      return x;
    };
    auto v = open(prot::WRITE);
    std::vector<std::string> r;
    auto next = 0U;
    auto const text = [&](unsigned const n) {
      auto s = std::string(n, 'a');
      for (auto& c : s) {
        c = static_cast<char>('a' + next++ % 26U);
      }
      return s;
    };
    auto read_only = false;
    auto const steps = mc::bound();
    for (auto s = 0; s != steps; ++s) {
      mc::step();
      auto const kind = mc::choose(7);
      if (read_only && kind < 5) {
        continue;
      }
      mc::logf("op %d", kind);
      mc::op("paged_vecvec on mmap");
      switch (kind) {
        case 0:
          r.push_back(text(static_cast<unsigned>(mc::pick({0, 8, 5000}))));
          v->emplace_back(r.back());
          break;
        case 1:
          if (r.empty()) {
            continue;
          }
          for (auto i = 0; i != 9; ++i) {
            r.front().push_back('X');
            (*v)[key{0U}].push_back('X');
          }
          break;
        case 2: {
          auto const x = text(3);
          r.insert(r.begin(), x);
          v->insert(key{0U}, x);
          break;
        }
        case 3:
          r.resize(r.size() + 1U);
          v->resize(static_cast<std::uint32_t>(r.size()));
          break;
        case 4:
          if (r.empty()) {
            continue;
          }
          r.pop_back();
          v->resize(static_cast<std::uint32_t>(r.size()));
          break;
        case 5:
        case 6:
          free_list = v->paged_.free_list_;
          v.reset();
          e.check(0U, 0U);
          v = open(kind == 5 ? prot::MODIFY : prot::READ);
          read_only = kind == 6;
          break;
      }
      vv const& c = *v;
      MC_CHECK(v->size() == r.size(), "size", "size %zu, expected %zu", static_cast<std::size_t>(v->size()), r.size());
      for (auto i = 0U; i != r.size(); ++i) {
        MC_CHECK((*v)[key{i}].view() == r[i] && c[key{i}].view() == r[i], "content", "bucket %u", i);
      }
      mc::state(mc::H{}(r.size())(read_only)(v->paged_.data_.size()));
    }
  }
  e.done();
  mc::checked();
}

MC_SCENARIO("bitvec", 4, 5) {
  using vec = cista::mmap_vec<std::uint64_t>;
  using bv = cista::basic_bitvec<vec>;
  env e;
  {
    auto n = 0U;
    auto const open = [&](prot const p) {
      return std::make_unique<bv>(vec{cista::mmap{e.dir_.file("a").c_str(), p}}, n);
    };
    auto v = open(prot::WRITE);
    std::vector<bool> r;
    auto read_only = false;
    auto const steps = mc::bound();
    for (auto s = 0; s != steps; ++s) {
      mc::step();
      auto const kind = mc::choose(6);
      if (read_only && kind < 4) {
        continue;
      }
      mc::logf("op %d", kind);
      mc::op("bitvec on mmap");
      switch (kind) {
        case 0: {
          n = mc::pick({0U, 1U, 64U, 65U, 700U});
          v->resize(n);
          r.resize(n);
          break;
        }
        case 1:
          for (auto i = 0U; i < n; i += 3U) {
            v->set(i, !r[i]);
            r[i] = !r[i];
          }
          break;
        case 2:
          if (n == 0U) {
            continue;
          }
          v->set(n - 1U, true);
          r[n - 1U] = true;
          break;
        case 3:
          v->zero_out();
          r.assign(n, false);
          break;
        case 4:
        case 5:
          v.reset();
          e.check(0U, 0U);
          v = open(kind == 4 ? prot::MODIFY : prot::READ);
          read_only = kind == 5;
          break;
      }
      MC_CHECK(v->size() == n, "size", "size %zu, expected %u", static_cast<std::size_t>(v->size()), n);
      auto count = std::size_t{0};
      for (auto i = 0U; i != n; ++i) {
        MC_CHECK(v->test(i) == r[i] && (*v)[i] == r[i], "content", "bit %u", i);
        count += r[i];
      }
      MC_CHECK(v->count() == count, "count", "%zu bits, expected %zu", static_cast<std::size_t>(v->count()), count);
      mc::state(mc::H{}(n)(count)(read_only));
    }
  }
  e.done();
  mc::checked();
}

#endif

}  // namespace
