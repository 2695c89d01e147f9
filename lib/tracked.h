// Element type whose every construction / destruction / access is accounted
// for.  Errors are latched (never thrown) and polled by the harness.
#pragma once

#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <iosfwd>
#include <utility>

namespace trk {

struct registry {
  static constexpr unsigned kCap = 4096;
  void const* live[kCap];
  unsigned n{0};
  char const* error{nullptr};
  std::uint64_t ctors{0}, dtors{0};
  bool moved_read{false};

  int find(void const* p) const {
    for (unsigned i = n; i-- > 0;) {
      if (live[i] == p) {
        return static_cast<int>(i);
      }
    }
    return -1;
  }
  void born(void const* p) {
    ++ctors;
    if (find(p) >= 0) {
      latch("object constructed over a live object (never destroyed)");
      return;
    }
    if (n < kCap) {
      live[n++] = p;
    }
  }
  void died(void const* p) {
    ++dtors;
    auto const i = find(p);
    if (i < 0) {
      latch("destructor run on something that is not a live object");
      return;
    }
    live[i] = live[--n];
  }
  void use(void const* p, char const* what) {
    if (find(p) < 0) {
      latch(what);
    }
  }
  void latch(char const* e) {
    if (error == nullptr) {
      error = e;
    }
  }
  void reset() {
    n = 0;
    error = nullptr;
    ctors = dtors = 0;
  }
};

inline registry R;

constexpr int kMovedFrom = -7777;

struct tr {
  tr() : v_{0} { R.born(this); }
  tr(int v) : v_{v} { R.born(this); }  // NOLINT
  tr(tr const& o) : v_{o.v_} {
    R.use(&o, "copy construction from a dead object");
    R.born(this);
  }
  tr(tr&& o) noexcept : v_{o.v_} {
    R.use(&o, "move construction from a dead object");
    o.v_ = kMovedFrom;
    R.born(this);
  }
  tr& operator=(tr const& o) {
    R.use(this, "assignment to a dead object");
    R.use(&o, "copy assignment from a dead object");
    v_ = o.v_;
    return *this;
  }
  tr& operator=(tr&& o) noexcept {
    R.use(this, "assignment to a dead object");
    R.use(&o, "move assignment from a dead object");
    auto const v = o.v_;
    o.v_ = kMovedFrom;
    v_ = v;
    return *this;
  }
  ~tr() {
    R.died(this);
    v_ = -9999;
  }
  int get() const {
    R.use(this, "read of a dead object");
    return v_;
  }
  friend bool operator==(tr const& a, tr const& b) {
    return a.get() == b.get();
  }
  friend bool operator!=(tr const& a, tr const& b) {
    return a.get() != b.get();
  }
  friend bool operator<(tr const& a, tr const& b) { return a.get() < b.get(); }
  friend bool operator>(tr const& a, tr const& b) { return a.get() > b.get(); }
  friend bool operator<=(tr const& a, tr const& b) {
    return a.get() <= b.get();
  }
  friend bool operator>=(tr const& a, tr const& b) {
    return a.get() >= b.get();
  }
  template <typename OS>
  friend OS& operator<<(OS& o, tr const& t) {
    return o << t.get();
  }
  int v_;
};

inline int val(int x) { return x; }
inline int val(unsigned x) { return static_cast<int>(x); }
inline int val(char x) { return x; }
inline int val(unsigned char x) { return x; }
inline int val(tr const& x) { return x.get(); }

}  // namespace trk
