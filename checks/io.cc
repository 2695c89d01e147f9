// Files, mappings and files of values.
// -DPART=1 (F01): every history against byte arrays
// -DPART=2, 3 (F02): every history with every system call failing
#include "iofault.h"
#include "mc.h"

#include <optional>

#include "cista/containers.h"
#include "cista/containers/mmap_vec.h"
#include "cista/mmap.h"
#include "cista/serialization.h"
#include "cista/targets/buf.h"
#include "cista/targets/file.h"

namespace {

using bytes = std::vector<unsigned char>;
using prot = cista::mmap::protection;

struct env {
  env() {
    w_.active = true;
    io::W = &w_;
  }
  ~env() { io::W = nullptr; }
  void check(std::size_t const maps, std::size_t const files) {
    MC_CHECK(w_.error.empty(), "handle_misuse", "%s", w_.error.c_str());
    MC_CHECK(w_.maps.size() == maps, "mappings", "%zu live mappings, expected %zu", w_.maps.size(), maps);
    MC_CHECK(w_.files.size() == files, "files", "%zu open files, expected %zu", w_.files.size(), files);
  }
  void done() {
    check(0U, 0U);
    w_.active = false;
  }
  io::dir dir_;
  io::world w_;
};

std::string hex(bytes const& v) {
  auto s = std::string{};
  for (auto i = std::size_t{0}; i < v.size() && i < 24U; ++i) {
    char b[4];
    std::snprintf(b, sizeof(b), "%02x ", v[i]);
    s += b;
  }
  return s + (v.size() > 24U ? "..." : "");
}

void same(bytes const& a, bytes const& b, char const* key, char const* what) {
  MC_CHECK(a.size() == b.size(), key, "%s: %zu bytes, expected %zu", what, a.size(), b.size());
  if (a != b) {
    auto i = std::size_t{0};
    for (; a[i] == b[i]; ++i) {
    }
    mc::fail(key, "%s: byte %zu of %zu is %02x, expected %02x", what, i, a.size(), a[i], b[i]);
  }
}

bytes pattern(std::size_t const n, unsigned char const start) {
  bytes b(n);
  for (auto i = std::size_t{0}; i != n; ++i) {
    b[i] = static_cast<unsigned char>(start + i + i / 251U);
  }
  return b;
}

// --------------------------------------------------------------- values
namespace data = cista::offset;

struct rec {
  auto cista_members() { return std::tie(id_, v_, s_, m_, p_); }
  std::uint64_t id_{0};
  data::vector<std::uint32_t> v_;
  data::string s_;
  data::hash_map<std::uint32_t, data::string> m_;
  data::unique_ptr<std::uint64_t> p_;
};

// a value whose content is a function of (n, seed)
rec make(unsigned const n, unsigned const seed) {
  rec r;
  r.id_ = seed;
  for (auto i = 0U; i != n && i != 8U; ++i) {
    r.v_.push_back(seed + i);
  }
  r.s_ = std::string(n * 4U + seed % 20U, static_cast<char>('a' + seed % 26U));
  for (auto i = 0U; i != seed % 4U; ++i) {
    r.m_[seed + i] = data::string{"value outside the object", data::string::owning};
  }
  if (seed % 2U == 0U) {
    r.p_ = data::make_unique<std::uint64_t>(seed);
  }
  return r;
}

void check_rec(rec const& r, rec const& x, char const* what) {
  MC_CHECK(r.id_ == x.id_, "value", "%s: id %llu, expected %llu", what, static_cast<unsigned long long>(r.id_), static_cast<unsigned long long>(x.id_));
  MC_CHECK(r.v_ == x.v_, "value", "%s: vector", what);
  MC_CHECK(r.s_ == x.s_, "value", "%s: string", what);
  MC_CHECK(r.m_.size() == x.m_.size(), "value", "%s: map size", what);
  for (auto const& [k, v] : x.m_) {
    auto const it = r.m_.find(k);
    MC_CHECK(it != r.m_.end() && it->second == v, "value", "%s: map entry", what);
  }
  MC_CHECK((r.p_ == nullptr) == (x.p_ == nullptr) && (x.p_ == nullptr || *r.p_ == *x.p_), "value", "%s: pointer", what);
}

constexpr auto const kMode = cista::mode::WITH_STATIC_VERSION | cista::mode::WITH_INTEGRITY;

bytes image(rec const& r) {
  return cista::serialize<kMode>(const_cast<rec&>(r));
}

#if PART == 1

// --- cista::file: content, size, checksum and the writes of a target ---
MC_SCENARIO("file_modes", 3, 4) {
  env e;
  {
    constexpr std::size_t const kSizes[] = {0, 1, 4095, 4096, 4097, 10000};
    auto disk = pattern(kSizes[mc::choose(6)], 7);
    auto const path = e.dir_.file("a");
    io::write_all(path, disk.data(), disk.size());
    auto x = bytes{};
    std::optional<cista::file> f;
    auto mode = "";
    auto open = [&](char const* m) {
      f.reset();
      mode = m;
      mc::op("open");
      mc::logf("open %s", m);
      f.emplace(path.c_str(), m);
      if (m[0] == 'w') {
        x.clear();
      } else {
        x = disk;
      }
      disk = x;
    };
    open(mc::pick({"r", "r+", "w+"}));
    auto next = static_cast<unsigned char>(1);
    auto const steps = mc::bound();
    for (auto s = 0; s != steps; ++s) {
      mc::step();
      auto const ro = mode[0] == 'r' && mode[1] == '\0';
      switch (mc::choose(8)) {
        case 0: {
          mc::op("content");
          mc::logf("content");
          auto const b = f->content();
          same(bytes(b.begin(), b.end()), x, "content", "content()");
          break;
        }
        case 1: {
          constexpr std::size_t const kStart[] = {0, 1, 4096, 10001};
          auto const from = kStart[mc::choose(4)];
          mc::op("checksum");
          mc::logf("checksum from %zu", from);
          auto threw = false;
          auto h = std::uint64_t{0};
          try {
            h = f->checksum(static_cast<cista::offset_t>(from));
          } catch (std::exception const&) {
            threw = true;
          }
          MC_CHECK(threw == (from > x.size()), "checksum", "checksum from %zu of %zu bytes: exception %d", from, x.size(), threw);
          MC_CHECK(threw || h == cista::hash(std::string_view{reinterpret_cast<char const*>(x.data() + from), x.size() - from}), "checksum",
                   "checksum of bytes from %zu of %zu", from, x.size());
          break;
        }
        case 2: {
          if (ro) {
            continue;
          }
          auto const n = static_cast<std::size_t>(mc::pick({0, 1, 5, 5000}));
          auto const align = static_cast<std::size_t>(mc::pick({0, 8, 64}));
          mc::op("append");
          mc::logf("append %zu aligned %zu", n, align);
          auto const d = pattern(n, next);
          next = static_cast<unsigned char>(next + 31);
          auto const at = f->write(d.data(), n, align);
          while (align > 1U && x.size() % align != 0U) {
            x.push_back(0U);
          }
          MC_CHECK(at == static_cast<cista::offset_t>(x.size()), "offset", "appended at %lld, expected %zu", static_cast<long long>(at), x.size());
          x.insert(x.end(), d.begin(), d.end());
          break;
        }
        case 3: {
          if (ro || x.size() < 8U) {
            continue;
          }
          auto const pos = mc::choose(2) == 0 ? std::size_t{0} : x.size() - 8U;
          auto const v = std::uint64_t{0x0102030405060708ULL} * (1U + next);
          next = static_cast<unsigned char>(next + 17);
          mc::op("overwrite");
          mc::logf("overwrite at %zu", pos);
          f->write(pos, v);
          std::memcpy(&x[pos], &v, 8U);
          break;
        }
        case 4: {
          mc::op("size");
          mc::logf("size");
          MC_CHECK(f->size() == x.size(), "size", "size() %zu, expected %zu (mode %s)", f->size(), x.size(), mode);
          break;
        }
        case 5: {
          mc::op("reopen");
          f.reset();
          same(io::read_all(path), x, "closed_file", "file after close");
          disk = x;
          open(mc::pick({"r", "r+", "w+"}));
          break;
        }
        case 6: {
          mc::op("move");
          mc::logf("move");
          auto t = cista::file{std::move(*f)};
          e.check(0U, 1U);
          MC_CHECK(f->size() == 0U && f->f_ == nullptr, "moved_from", "moved-from file");
          if (mc::choose(2) == 0) {
            *f = std::move(t);
          } else {
            f.emplace(e.dir_.file("a").c_str(), "r");
            *f = std::move(t);
          }
          break;
        }
        case 7: {  // overwriting another handle
          mc::op("move assign");
          mc::logf("move assign over an open file");
          io::write_all(e.dir_.file("b"), "xyz", 3U);
          auto t = cista::file{e.dir_.file("b").c_str(), "r+"};
          e.check(0U, 2U);
          t = std::move(*f);
          e.check(0U, 1U);
          *f = std::move(t);
          same(io::read_all(e.dir_.file("b")), bytes{'x', 'y', 'z'}, "other_file", "other file");
          break;
        }
      }
      e.check(0U, 1U);
      mc::state(mc::H{}(x.size())(disk.size())(static_cast<std::uint64_t>(mode[0]))(static_cast<std::uint64_t>(mode[1])));
    }
    f.reset();
    same(io::read_all(path), x, "closed_file", "file after close");
  }
  e.done();
  mc::checked();
}

// --- growth of mappings: sizes around every page boundary, content of the rest of the file ---
MC_SCENARIO("mmap_sizes", 1, 2) {
  env e;
  {
    constexpr std::size_t const kSizes[] = {0, 1, 8, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 65535, 65536, 65537};
    auto const from = kSizes[mc::choose(13)];
    auto const path = e.dir_.file("a");
    auto x = pattern(from, 3);
    io::write_all(path, x.data(), x.size());
    {
      auto m = cista::mmap{path.c_str(), prot::MODIFY};
      auto const n = mc::bound();
      for (auto i = 0; i != n; ++i) {
        auto const k = mc::choose(2);
        auto const to = kSizes[mc::choose(13)];
        mc::op(k == 0 ? "resize" : "reserve");
        mc::logf("%s %zu", k == 0 ? "resize" : "reserve", to);
        if (k == 0) {
          m.resize(to);
          auto const old = x.size();
          x.resize(to);
          for (auto j = old; j < to; ++j) {
            m[j] = x[j] = static_cast<unsigned char>(j * 7U);
          }
        } else {
          m.reserve(to);
        }
        MC_CHECK(m.size() == x.size() && m.view().size() == x.size(), "size", "size %zu, expected %zu", m.size(), x.size());
        MC_CHECK(x.empty() || std::memcmp(m.data(), x.data(), x.size()) == 0, "content", "content after %s", k == 0 ? "resize" : "reserve");
        if (mc::choose(2) == 1) {
          mc::logf("reopen");
          m = cista::mmap{};
          same(io::read_all(path), x, "file", "file after close");
          m = cista::mmap{path.c_str(), prot::MODIFY};
        }
        mc::step();
      }
    }
    same(io::read_all(path), x, "file", "file after close");
    for (auto const p : {prot::READ, prot::MODIFY}) {
      auto const m = cista::mmap{path.c_str(), p};
      MC_CHECK(m.size() == x.size() && (x.empty() || std::memcmp(m.data(), x.data(), x.size()) == 0), "reopen", "reopened content");
    }
    mc::state(mc::H{}(from)(x.size()));
  }
  e.done();
  mc::checked();
}

// --- files of values: cista::write, read, read_mmap, wrapped ---
MC_SCENARIO("values", 3, 4) {
  env e;
  {
    char const* const names[] = {"a", "b"};
    struct on_disk {
      bool exists = false;
      unsigned n = 0, seed = 0;
    } disk[2];
    struct held {
      std::optional<cista::wrapped<rec>> w;
      unsigned n = 0, seed = 0;
      int kind = 0;  // 1: buffer, 2: mapping, 3: heap
    } h[2];
    auto seed = 1U;
    auto mapped_file = [&](int const f, bool const overwrite) {  // a shared mapping sees changes of its file
      for (auto& x : h) {
        if (x.w.has_value() && x.kind == 2 && x.seed == disk[f].seed && overwrite) {
          return true;
        }
      }
      return false;
    };
    auto const steps = mc::bound();
    for (auto s = 0; s != steps; ++s) {
      mc::step();
      auto const kind = mc::choose(9);
      auto const i = mc::choose(2);
      auto const path = e.dir_.file(names[i]);
      auto& x = h[i];
      auto& y = h[1 - i];
      switch (kind) {
        case 0: {
          if (mapped_file(i, true)) {
            continue;
          }
          auto const n = static_cast<unsigned>(mc::pick({0, 3, 1100}));
          mc::op("write");
          mc::logf("write %s: %u elements, seed %u", names[i], n, seed);
          auto r = make(n, seed);
          cista::write(std::filesystem::path{path}, r);
          disk[i] = {true, n, seed++};
          same(io::read_all(path), cista::serialize<cista::kDefaultMode>(r), "file", "file written by cista::write");
          break;
        }
        case 1:
        case 2: {
          auto const f = mc::choose(2);
          mc::op(kind == 1 ? "read" : "read_mmap");
          mc::logf("%s %s into %d", kind == 1 ? "read" : "read_mmap", names[f], i);
          auto threw = false;
          try {
            auto const p = std::filesystem::path{e.dir_.file(names[f])};
            auto w = kind == 1 ? cista::read<rec>(p) : cista::read_mmap<rec>(p);
            if (mc::choose(2) == 0) {
              x.w.reset();
              x.w.emplace(std::move(w));
            } else if (x.w.has_value()) {
              mc::logf("by assignment");
              x.w->reset();
              *x.w = std::move(w);
            } else {
              x.w.emplace();
              *x.w = std::move(w);
            }
          } catch (cista::cista_exception const&) {
            threw = true;
          }
          MC_CHECK(threw == !disk[f].exists, "missing", "reading %s file", disk[f].exists ? "an existing" : "a missing");
          if (!threw) {
            x.n = disk[f].n;
            x.seed = disk[f].seed;
            x.kind = kind;
          }
          break;
        }
        case 3: {
          if (!x.w.has_value()) {
            continue;
          }
          mc::op("release");
          mc::logf("release %d", i);
          x.w.reset();
          break;
        }
        case 4: {
          if (!x.w.has_value() || x.kind == 0) {
            continue;
          }
          mc::op("reset");
          mc::logf("reset %d", i);
          x.w->reset();
          MC_CHECK(*x.w == nullptr && !static_cast<bool>(*x.w), "reset", "not empty after reset()");
          x.w.reset();
          break;
        }
        case 5: {
          if (!y.w.has_value()) {
            continue;
          }
          mc::op("move");
          mc::logf("move construct from other");
          x.w.reset();
          x.w.emplace(std::move(*y.w));
          y.w.reset();
          x.n = y.n;
          x.seed = y.seed;
          x.kind = y.kind;
          break;
        }
        case 6: {
          mc::op("own");
          mc::logf("wrap a heap object");
          x.w.reset();
          auto p = cista::raw::make_unique<rec>(make(3, seed));
          x.w.emplace(std::move(p));
          x.n = 3;
          x.seed = seed++;
          x.kind = 3;
          break;
        }
        case 7: {
          if (!x.w.has_value() || mapped_file(i, true)) {
            continue;
          }
          mc::op("write wrapped");
          mc::logf("write the wrapped value %d to %s", i, names[i]);
          cista::write(std::filesystem::path{path}, *x.w);
          disk[i] = {true, x.n, x.seed};
          break;
        }
        case 8: {  // grow the value that lives in the buffer
          if (!x.w.has_value() || x.kind == 2) {
            continue;
          }
          mc::op("modify");
          mc::logf("append an element to %d", i);
          if (x.n < 8U) {
            (*x.w)->v_.push_back(x.seed + x.n);
          }
          ++x.n;
          (*x.w)->s_ = make(x.n, x.seed).s_;
          break;
        }
      }
      auto maps = std::size_t{0};
      for (auto& z : h) {
        if (z.w.has_value()) {
          auto const exp = make(z.n, z.seed);
          MC_CHECK(z.w->get() != nullptr && static_cast<bool>(*z.w), "wrapped", "no value");
          check_rec(**z.w, exp, "held value");
          maps += z.kind == 2;
        }
      }
      e.check(maps, maps);
      mc::state(mc::H{}(h[0].kind)(h[1].kind)(h[0].n)(h[1].n)(disk[0].n)(disk[1].n)(disk[0].exists)(disk[1].exists));
    }
  }
  e.done();
  mc::checked();
}

#else

// ------------------------------------------------------------ failing calls
struct faults {
  explicit faults(env& e) : e_{e}, left_{mc::bound() > 100 ? 2 : 1} {
    e.w_.decide = [this](io::call const c) { return decide(c); };
  }
  ~faults() { e_.w_.decide = nullptr; }
  int decide(io::call const c) {
    if (left_ == 0 || c == io::MUNMAP || off_) {
      return 0;
    }
    auto const ways = c == io::FREAD || c == io::FWRITE ? 3 : 2;
    auto const k = mc::choose(ways);
    if (k != 0) {
      --left_;
      ++n_;
      ++by_[c];
      mc::logf("  -> %s fails%s", io::kName[c], k == 2 ? " (half transferred)" : "");
    }
    return k;
  }
  env& e_;
  int left_;
  int n_ = 0;  // failures so far
  int by_[io::N_CALLS] = {};
  bool off_ = false;
};

// runs fn; returns true if it reported a failure; a report without a failed call is an error
template <typename Fn>
bool reported(faults& f, char const* what, Fn&& fn, bool const tolerate = false) {
  auto const before = f.n_;
  try {
    fn();
  } catch (cista::cista_exception const& x) {
    mc::logf("  exception: %s", x.what());
    MC_CHECK(tolerate || f.n_ != before, "spurious", "%s failed without a failing call: %s", what, x.what());
    return true;
  } catch (std::exception const& x) {
    MC_CHECK(tolerate || f.n_ != before, "spurious", "%s failed without a failing call: %s", what, x.what());
    return true;
  }
  return false;
}

#if PART == 2

// --- one mapping (and a second to move from) ---
MC_SCENARIO_SPLIT("mmap", 3, 104, 2) {
  env e;
  {
    constexpr std::size_t const kInit[] = {0, 5, 5000};
    auto disk = pattern(kInit[mc::choose(3)], 50);
    auto const path = e.dir_.file("a");
    io::write_all(path, disk.data(), disk.size());
    io::write_all(e.dir_.file("b"), "bbb", 3U);
    auto const first = mc::choose(3);
    faults f{e};
    auto const steps = mc::bound() % 100;
    auto unclean = false;  // failed while closing
    auto next = static_cast<unsigned char>(1);
    bytes x;
    std::optional<cista::mmap> m;
    auto p = prot::READ;
    auto writes = 0U;
    auto closed = [&] {
      // what was stored in the mapping must be in the file
      auto const d = io::read_all(path);
      if (p == prot::READ) {
        same(d, disk, "file", "file after reading");
      } else if (!unclean) {
        same(d, x, "file", "file after close");
      } else {
        MC_CHECK(d.size() >= x.size() && std::equal(x.begin(), x.end(), d.begin()), "file_prefix", "content lost on close");
      }
      disk = d;
    };
    auto open = [&](int const k) {
      auto const np = k == 0 ? prot::MODIFY : k == 1 ? prot::WRITE : prot::READ;
      mc::op("open");
      mc::logf("open %s", k == 0 ? "MODIFY" : k == 1 ? "WRITE" : "READ");
      std::optional<cista::mmap> t;
      if (reported(f, "open", [&] { t.emplace(path.c_str(), np); })) {
        e.check(0U, 0U);
        disk = io::read_all(path);  // WRITE may have emptied it
        return;
      }
      auto old = disk;
      if (np == prot::WRITE) {
        old.clear();
      }
      m.emplace(std::move(*t));
      p = np;
      x = old;
      unclean = false;
    };
    open(first);
    for (auto s = 0; s != steps; ++s) {
      mc::step();
      auto const k = mc::choose(m.has_value() ? 7 : 1);
      auto const before = f.n_;
      if (!m.has_value()) {
        open(mc::choose(3));
      } else if (k == 0) {
        mc::op("close");
        mc::logf("close");
        m.reset();
        unclean = f.n_ != before;
        e.check(0U, 0U);
        closed();
      } else if (k == 6) {
        mc::op("close()");
        mc::logf("close()");
        auto const fclose = f.by_[io::FCLOSE];
        if (!reported(f, "close", [&] { m->close(); })) {
          MC_CHECK(f.n_ == before || f.by_[io::FCLOSE] != fclose, "close_report", "close() reports success although a call failed");
          MC_CHECK(m->size() == 0U && m->data() == nullptr, "closed", "still %zu bytes after close()", m->size());
          m.reset();
          unclean = false;
          e.check(0U, 0U);
          closed();
        }
      } else if (k == 1 || k == 2) {
        if (p == prot::READ) {
          continue;
        }
        auto const n = static_cast<std::size_t>(mc::pick({4097, 3, 0, 9000}));
        mc::op(k == 1 ? "resize" : "reserve");
        mc::logf("%s %zu", k == 1 ? "resize" : "reserve", n);
        if (!reported(f, "resize", [&] { k == 1 ? m->resize(n) : m->reserve(n); }) && k == 1) {
          auto const old = x.size();
          x.resize(n);
          for (auto i = old; i < n; ++i) {
            (*m)[i] = x[i] = static_cast<unsigned char>(next + i);
          }
          next = static_cast<unsigned char>(next + 13);
        }
      } else if (k == 3) {
        if (p == prot::READ || x.empty()) {
          continue;
        }
        mc::op("store");
        mc::logf("store");
        ++writes;
        (*m)[0] = x[0] = next++;
        (*m)[x.size() - 1U] = x[x.size() - 1U] = next++;
      } else if (k == 4) {
        mc::op("sync");
        mc::logf("sync");
        auto const msync = f.by_[io::MSYNC];
        auto const r = reported(f, "sync", [&] { m->sync(); });
        MC_CHECK(r || f.by_[io::MSYNC] == msync, "sync_report", "sync() reports success although the data was not written");
      } else if (k == 5) {  // move over another mapping of a writable file
        mc::op("move over");
        mc::logf("move over an open mapping");
        std::optional<cista::mmap> t;
        if (reported(f, "open b", [&] { t.emplace(e.dir_.file("b").c_str(), prot::MODIFY); })) {
          e.check(m->data() != nullptr, 1U);
        } else if (!reported(f, "move assign", [&] { *t = std::move(*m); })) {
          m.emplace(std::move(*t));
        } else {
          // nothing moved; both objects are usable
          MC_CHECK(m->size() == x.size(), "move_failed", "source lost its content");
        }
      }
      if (m.has_value()) {
        MC_CHECK(m->size() == x.size(), "size", "size %zu, expected %zu", m->size(), x.size());
        MC_CHECK(x.empty() || m->data() != nullptr, "data", "no data, size %zu", x.size());
        MC_CHECK(x.empty() || std::memcmp(m->data(), x.data(), x.size()) == 0, "content", "content differs");
        e.check(m->data() != nullptr, 1U);
      } else {
        e.check(0U, 0U);
      }
      mc::state(mc::H{}(x.size())(disk.size())(m.has_value())(static_cast<std::uint64_t>(p))(static_cast<std::uint64_t>(f.n_))(writes));
    }
    if (m.has_value()) {
      auto const before = f.n_;
      mc::op("close");
      mc::logf("close (end)");
      m.reset();
      unclean = f.n_ != before;
      e.check(0U, 0U);
      closed();
    }
  }
  e.done();
  mc::checked();
}

// --- one file object ---
MC_SCENARIO_SPLIT("file", 4, 105, 2) {
  env e;
  {
    constexpr std::size_t const kInit[] = {0, 10, 5000};
    auto x = pattern(kInit[mc::choose(3)], 50);
    auto const path = e.dir_.file("a");
    io::write_all(path, x.data(), x.size());
    auto first = mc::choose(3);
    faults f{e};
    auto const steps = mc::bound() % 100;
    auto known = true;  // content known (no failed write)
    auto next = static_cast<unsigned char>(1);
    std::optional<cista::file> o;
    auto ro = false;
    for (auto s = 0; s != steps; ++s) {
      mc::step();
      auto const before = f.n_;
      if (!o.has_value()) {
        auto const k = s == 0 ? first : mc::choose(3);
        ro = k == 2;
        mc::op("open");
        mc::logf("open %s", k == 0 ? "r+" : k == 1 ? "w+" : "r");
        if (reported(f, "open", [&] { o.emplace(path.c_str(), k == 0 ? "r+" : k == 1 ? "w+" : "r"); })) {
          e.check(0U, 0U);
          if (k == 1) {
            x = io::read_all(path);
          }
          continue;
        }
        if (k == 1) {
          x.clear();
          known = true;
        } else if (!known) {
          x = io::read_all(path);
          known = true;
        }
      } else {
        switch (mc::choose(6)) {
          case 0: {
            mc::op("content");
            mc::logf("content");
            bytes b;
            if (!reported(f, "content", [&] {
                  auto const c = o->content();
                  b.assign(c.begin(), c.end());
                }, !known) && known) {
              same(b, x, "content", "content()");
            }
            known = known && (ro || f.n_ == before || f.by_[io::FFLUSH] == 0);
            break;
          }
          case 1: {
            mc::op("checksum");
            mc::logf("checksum");
            auto const from = x.size() / 2U;
            auto h = std::uint64_t{0};
            if (!reported(f, "checksum", [&] { h = o->checksum(static_cast<cista::offset_t>(from)); }, !known) && known) {
              MC_CHECK(h == cista::hash(std::string_view{reinterpret_cast<char const*>(x.data() + from), x.size() - from}), "checksum", "wrong checksum");
            }
            break;
          }
          case 2: {
            if (ro) {
              continue;
            }
            auto const n = static_cast<std::size_t>(mc::pick({5, 5000}));
            auto const align = static_cast<std::size_t>(mc::pick({0, 64}));
            mc::op("append");
            mc::logf("append %zu aligned %zu", n, align);
            auto const d = pattern(n, next);
            next = static_cast<unsigned char>(next + 31);
            auto at = cista::offset_t{0};
            if (reported(f, "append", [&] { at = o->write(d.data(), n, align); }, !known)) {
              known = false;
            } else {
              while (align > 1U && x.size() % align != 0U) {
                x.push_back(0U);
              }
              MC_CHECK(!known || at == static_cast<cista::offset_t>(x.size()), "offset", "appended at %lld, expected %zu", static_cast<long long>(at), x.size());
              x.insert(x.end(), d.begin(), d.end());
            }
            break;
          }
          case 3: {
            if (ro || x.size() < 8U) {
              continue;
            }
            auto const v = std::uint64_t{0x0102030405060708ULL} * (1U + next);
            next = static_cast<unsigned char>(next + 17);
            mc::op("overwrite");
            mc::logf("overwrite");
            if (reported(f, "overwrite", [&] { o->write(0U, v); }, !known)) {
              known = false;
            } else {
              std::memcpy(&x[0], &v, 8U);
            }
            break;
          }
          case 4: {
            mc::op("size");
            mc::logf("size");
            auto n = std::size_t{0};
            if (!reported(f, "size", [&] { n = o->size(); }, !known) && known) {
              MC_CHECK(n == x.size(), "size", "size() %zu, expected %zu", n, x.size());
            }
            known = known && (ro || f.n_ == before);
            break;
          }
          case 5: {
            mc::op("close");
            mc::logf("close");
            o.reset();
            if (f.n_ != before && !ro) {
              known = false;  // a destructor cannot report
            }
            if (known) {
              same(io::read_all(path), x, "file", "file after close");
            }
            break;
          }
        }
      }
      e.check(0U, o.has_value());
      mc::state(mc::H{}(x.size())(o.has_value())(known)(ro)(static_cast<std::uint64_t>(f.n_)));
    }
    auto const before = f.n_;
    o.reset();
    if (known && (f.n_ == before || ro)) {
      same(io::read_all(path), x, "file", "file after close");
    }
  }
  e.done();
  mc::checked();
}

// --- mmap_vec: a failed operation leaves the old content ---
MC_SCENARIO_SPLIT("mmap_vec", 3, 104, 2) {
  env e;
  {
    using vec = cista::mmap_vec<std::uint64_t>;
    auto const path = e.dir_.file("a");
    auto x = std::vector<std::uint64_t>(static_cast<std::size_t>(mc::pick({0, 2, 511, 512})));
    for (auto i = std::size_t{0}; i != x.size(); ++i) {
      x[i] = 1000U + i;
    }
    io::write_all(path, x.data(), x.size() * 8U);
    auto const first = mc::choose(6);
    auto next = std::uint64_t{1};
    std::optional<vec> v;
    v.emplace(cista::mmap{path.c_str(), prot::MODIFY});
    faults f{e};
    auto const steps = mc::bound() % 100;
    auto unclean = false;
    for (auto s = 0; s != steps; ++s) {
      mc::step();
      auto const k = s == 0 ? first : mc::choose(7);
      auto y = x;
      auto r = false;
      auto const n = next++;
      auto at = std::size_t{0};
      switch (k) {
        case 0:
          mc::op("push_back");
          mc::logf("push_back");
          r = reported(f, "push_back", [&] { v->push_back(n); });
          y.push_back(n);
          break;
        case 1: {
          auto const to = static_cast<unsigned>(mc::pick({0, 513, 1100}));
          mc::op("resize");
          mc::logf("resize %u", to);
          r = reported(f, "resize", [&] { v->resize(to); });
          y.resize(to);
          break;
        }
        case 2: {
          auto const d = std::vector<std::uint64_t>(mc::choose(2) == 0 ? 3U : 600U, n);
          mc::op("set");
          mc::logf("set %zu", d.size());
          r = reported(f, "set", [&] { v->set(d.begin(), d.end()); });
          y = d;
          break;
        }
        case 3:
          at = x.size() / 2U;
          mc::op("insert");
          mc::logf("insert at %zu", at);
          r = reported(f, "insert", [&] { v->insert(v->begin() + at, n); });
          y.insert(y.begin() + static_cast<long>(at), n);
          break;
        case 4: {
          auto const d = std::vector<std::uint64_t>(600U, n);
          at = x.size() / 2U;
          mc::op("insert range");
          mc::logf("insert 600 at %zu", at);
          r = reported(f, "insert", [&] { v->insert(v->begin() + at, d.begin(), d.end()); });
          y.insert(y.begin() + static_cast<long>(at), d.begin(), d.end());
          break;
        }
        case 5:
          mc::op("reserve");
          mc::logf("reserve");
          r = reported(f, "reserve", [&] { v->reserve(2000U); });
          break;
        case 6: {
          mc::op("reopen");
          mc::logf("close and reopen");
          auto const before = f.n_;
          v.reset();
          auto const d = io::read_all(path);
          MC_CHECK(f.n_ != before || d.size() == x.size() * 8U, "file", "file has %zu bytes, expected %zu", d.size(), x.size() * 8U);
          MC_CHECK(d.size() >= x.size() * 8U && (x.empty() || std::memcmp(d.data(), x.data(), x.size() * 8U) == 0), "file", "file content");
          if (f.n_ != before) {
            io::write_all(path, x.data(), x.size() * 8U);
          }
          f.off_ = true;
          v.emplace(cista::mmap{path.c_str(), prot::MODIFY});
          f.off_ = false;
          break;
        }
      }
      if (!r) {
        x = y;
      }
      MC_CHECK(v->size() == x.size(), "size", "size %u, expected %zu%s", v->size(), x.size(), r ? " after a failure" : "");
      MC_CHECK(std::equal(v->begin(), v->end(), x.begin()), "content", "content differs%s", r ? " after a failure" : "");
      e.check(v->data() != nullptr, 1U);
      mc::state(mc::H{}(x.size())(static_cast<std::uint64_t>(f.n_))(static_cast<std::uint64_t>(k)));
    }
    auto const before = f.n_;
    v.reset();
    unclean = f.n_ != before;
    auto const d = io::read_all(path);
    MC_CHECK(unclean || d.size() == x.size() * 8U, "file", "file has %zu bytes, expected %zu", d.size(), x.size() * 8U);
    MC_CHECK(d.size() >= x.size() * 8U && (x.empty() || std::memcmp(d.data(), x.data(), x.size() * 8U) == 0), "file", "file content");
  }
  e.done();
  mc::checked();
}

#elif PART == 3

// --- serialization into every target, and reading every file ---
MC_SCENARIO_SPLIT("values", 3, 103, 2) {
  env e;
  {
    auto const path = e.dir_.file("a");
    auto const fs = std::filesystem::path{path};
    auto cur = std::make_unique<rec>(make(0, 0));  // the last value written, or attempted to
    auto old = std::unique_ptr<rec>{};  // the value before a failed attempt
    auto state = 0;  // 0: missing, 1: holds cur, 2: unknown
    auto seed = 1U;
    auto const first = mc::choose(5);
    auto const first_n = mc::choose(2);
    constexpr unsigned const kN[] = {3, 3000};
    faults f{e};
    auto write = [&](int const k, unsigned const n) {
      auto r = make(n, seed++);
      mc::logf("write %u elements with method %d", n, k);
      auto report = true;
      if (k == 0) {
        mc::op("cista::write");
        report = reported(f, "write", [&] { cista::write<kMode>(fs, r); });
      } else if (k == 1) {
        mc::op("serialize to file");
        report = reported(f, "serialize to file", [&] {
          cista::file t{path.c_str(), "w+"};
          cista::serialize<kMode>(t, r);
        });
      } else if (k == 2) {
        mc::op("serialize to mmap");
        report = reported(f, "serialize to mmap", [&] {
          auto t = cista::buf<cista::mmap>{cista::mmap{path.c_str()}};
          cista::serialize<kMode>(t, r);
          t.buf_.close();
        });
      } else if (k == 3) {  // append to the same file object
        mc::op("serialize to memory, append");
        report = reported(f, "append image", [&] {
          auto const b = cista::serialize<kMode>(r);
          cista::file t{path.c_str(), "w+"};
          t.write(b.data(), b.size(), 0U);
          MC_CHECK(t.content().size() == b.size(), "content_size", "content() after write");
        });
      } else {
        mc::op("write wrapped");
        report = reported(f, "write wrapped", [&] {
          auto const w = cista::wrapped<rec>{cista::raw::make_unique<rec>(make(n, seed - 1U))};
          cista::write<kMode>(fs, w);
        });
      }
      e.check(0U, 0U);
      auto const x = image(r);
      old = report && state != 0 ? std::move(cur) : nullptr;
      cur = std::make_unique<rec>(std::move(r));
      if (report) {
        state = 2;
        return;
      }
      state = 1;
      // reported success: the file holds the image
      auto const d = io::read_all(path);
      if (k == 4) {  // another object with the same value
        MC_CHECK(d.size() == x.size(), "lost", "file after a successful write has %zu bytes, expected %zu", d.size(), x.size());
        check_rec(*cista::deserialize<rec, kMode>(d), *cur, "value in the file");
      } else {
        same(d, x, "lost", "file after a successful write");
      }
    };
    auto check_value = [&](rec const& r, char const* what) {
      check_rec(r, old != nullptr && r.id_ == old->id_ ? *old : *cur, what);
    };
    auto read = [&](int const k) {
      mc::logf("read with method %d", k);
      auto const before = f.n_;
      try {
        if (k == 0) {
          mc::op("cista::read");
          auto const w = cista::read<rec, kMode>(fs);
          check_value(*w, "read value");
        } else if (k == 1) {
          mc::op("cista::read_mmap");
          auto const w = cista::read_mmap<rec, kMode>(fs);
          check_value(*w, "mapped value");
          e.check(1U, 1U);
        } else if (k == 2) {
          mc::op("content + deserialize");
          auto b = cista::file{path.c_str(), "r"}.content();
          check_value(*cista::deserialize<rec, kMode>(b), "deserialized value");
        } else {
          mc::op("mmap + copy");
          auto const m = cista::mmap{path.c_str(), prot::READ};
          auto const b = cista::byte_buf{m.begin(), m.end()};
          check_value(*cista::deserialize<rec, kMode>(b), "copied value");
        }
        MC_CHECK(state != 0, "missing", "read a missing file");
      } catch (std::exception const& x) {
        mc::logf("  exception: %s", x.what());
        MC_CHECK(f.n_ != before || state != 1, "spurious", "reading failed without a failing call: %s", x.what());
      }
      e.check(0U, 0U);
    };
    auto const steps = mc::bound() % 100;
    for (auto s = 0; s != steps; ++s) {
      mc::step();
      if (s == 0) {
        write(first, kN[first_n]);
      } else {
        auto const k = mc::choose(9);
        k < 5 ? write(k, kN[mc::choose(2)]) : read(k - 5);
      }
      mc::state(mc::H{}(state)(cur->v_.size())(static_cast<std::uint64_t>(f.n_)));
    }
  }
  e.done();
  mc::checked();
}
#endif
#endif

}  // namespace

