// Controlled scheduler: threads are fibers; the code under test is compiled
// with -fsanitize=thread but linked against the runtime below, which turns
// every access to registered shared memory into a scheduling point.  All
// interleavings (up to a bound on preemptions) are enumerated via mc::choose.
#pragma once

#include <ucontext.h>

#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <vector>

#include "mc.h"

#define SCHED_NI __attribute__((no_sanitize("thread"))) __attribute__((noinline))

namespace sched {

struct fiber {
  ucontext_t ctx;
  std::unique_ptr<char[]> stack;
  std::function<void()> fn;
  bool done{false};
  unsigned steps{0};
};

struct range {
  std::uintptr_t lo, hi;
};

inline ucontext_t g_main;
inline fiber* g_f = nullptr;  // raw copies: the runtime must not call
inline range* g_r = nullptr;   // instrumented code
inline std::size_t g_nr = 0;
inline int g_cur = -1;
inline bool g_want_choice = false;  // fiber asks main for a binary choice
inline int g_choice = 0;
inline int g_spurious_left = 0;
inline std::uint64_t g_clock = 0;

SCHED_NI inline bool shared(void const volatile* p, std::size_t const n) {
  if (g_cur < 0) {
    return false;
  }
  auto const a = reinterpret_cast<std::uintptr_t>(p);
  for (std::size_t i = 0; i != g_nr; ++i) {
    if (a < g_r[i].hi && a + n > g_r[i].lo) {
      return true;
    }
  }
  return false;
}

SCHED_NI inline void point(void const volatile* p, std::size_t const n) {
  if (shared(p, n)) {
    auto& f = g_f[g_cur];
    ++f.steps;
    swapcontext(&f.ctx, &g_main);
  }
}

// may this weak compare-exchange fail spuriously?
SCHED_NI inline bool spurious(void const volatile* p) {
  if (g_spurious_left <= 0 || !shared(p, 1)) {
    return false;
  }
  auto& f = g_f[g_cur];
  g_want_choice = true;
  swapcontext(&f.ctx, &g_main);
  if (g_choice != 0) {
    --g_spurious_left;
  }
  return g_choice != 0;
}

SCHED_NI inline void trampoline(int const i) {
  g_f[i].fn();
  g_f[i].done = true;
}

// logical time, for real time order
inline std::uint64_t now() { return ++g_clock; }

struct options {
  int preemptions{1000};
  int spurious{1};
  std::function<std::uint64_t()> shared_hash{};
  unsigned max_steps{2000};
};

// Runs the threads; every scheduling decision is an mc::choose.
inline void run(std::vector<std::function<void()>> threads, std::vector<range> ranges, options const& o) {
  auto fibers = std::vector<fiber>(threads.size());
  g_f = fibers.data();
  g_r = ranges.data();
  g_nr = ranges.size();
  g_spurious_left = o.spurious;
  g_clock = 0;
  constexpr auto const kStack = std::size_t{256} * 1024;
  for (auto i = std::size_t{0}; i != threads.size(); ++i) {
    auto& f = fibers[i];
    f.fn = std::move(threads[i]);
    f.stack.reset(new char[kStack]);
    getcontext(&f.ctx);
    f.ctx.uc_stack.ss_sp = f.stack.get();
    f.ctx.uc_stack.ss_size = kStack;
    f.ctx.uc_link = &g_main;
    makecontext(&f.ctx, reinterpret_cast<void (*)()>(&trampoline), 1, static_cast<int>(i));
  }
  struct reset {
    ~reset() {
      g_nr = 0;
      g_cur = -1;
    }
  } r;
  auto last = -1;
  auto left = o.preemptions;
  for (auto total = 0U;; ++total) {
    MC_CHECK(total < o.max_steps, "livelock", "more than %u steps: an operation does not terminate", o.max_steps);
    int run[16];
    auto n = 0;
    auto const can_stay = last >= 0 && !fibers[static_cast<std::size_t>(last)].done;
    if (can_stay) {
      run[n++] = last;
    }
    if (!can_stay || left > 0) {
      for (auto i = 0; i != static_cast<int>(fibers.size()); ++i) {
        if (!fibers[static_cast<std::size_t>(i)].done && !(can_stay && i == last)) {
          run[n++] = i;
        }
      }
    }
    if (n == 0) {
      break;
    }
    auto const pick = n == 1 ? 0 : mc::choose(n);
    auto const t = run[pick];
    if (can_stay && t != last) {
      --left;
    }
    last = t;
    g_cur = t;
    swapcontext(&g_main, &fibers[static_cast<std::size_t>(t)].ctx);
    while (g_want_choice) {
      g_want_choice = false;
      g_cur = -1;
      g_choice = mc::choose(2);
      g_cur = t;
      swapcontext(&g_main, &fibers[static_cast<std::size_t>(t)].ctx);
    }
    g_cur = -1;
    mc::step();
    if (o.shared_hash) {
      mc::H h;
      h(o.shared_hash());
      for (auto const& f : fibers) {
        h(f.steps * 2U + (f.done ? 1U : 0U));
      }
      mc::state(h);
    }
  }
}

}  // namespace sched

// ------------------------------------------------------ runtime entry points
extern "C" {
#define TS SCHED_NI void
TS __tsan_init() {}
TS __tsan_func_entry(void*) {}
TS __tsan_func_exit() {}
TS __tsan_ignore_thread_begin() {}
TS __tsan_ignore_thread_end() {}
TS __tsan_vptr_update(void**, void*) {}
TS __tsan_vptr_read(void**) {}
#define TS_ACCESS(n)                                                      \
  TS __tsan_read##n(void* p) { sched::point(p, n); }                      \
  TS __tsan_write##n(void* p) { sched::point(p, n); }                     \
  TS __tsan_read_write##n(void* p) { sched::point(p, n); }                \
  TS __tsan_unaligned_read##n(void* p) { sched::point(p, n); }            \
  TS __tsan_unaligned_write##n(void* p) { sched::point(p, n); }           \
  TS __tsan_unaligned_read_write##n(void* p) { sched::point(p, n); }      \
  TS __tsan_volatile_read##n(void* p) { sched::point(p, n); }             \
  TS __tsan_volatile_write##n(void* p) { sched::point(p, n); }            \
  TS __tsan_unaligned_volatile_read##n(void* p) { sched::point(p, n); }   \
  TS __tsan_unaligned_volatile_write##n(void* p) { sched::point(p, n); }
TS_ACCESS(1)
TS_ACCESS(2)
TS_ACCESS(4)
TS_ACCESS(8)
TS_ACCESS(16)
TS __tsan_read_range(void* p, unsigned long n) { sched::point(p, n); }
TS __tsan_write_range(void* p, unsigned long n) { sched::point(p, n); }
SCHED_NI void* __tsan_memcpy(void* d, void const* s, unsigned long n) {
  sched::point(s, n);
  sched::point(d, n);
  return std::memcpy(d, s, n);
}
SCHED_NI void* __tsan_memmove(void* d, void const* s, unsigned long n) {
  sched::point(s, n);
  sched::point(d, n);
  return std::memmove(d, s, n);
}
SCHED_NI void* __tsan_memset(void* d, int c, unsigned long n) {
  sched::point(d, n);
  return std::memset(d, c, n);
}
TS __tsan_atomic_thread_fence(int) {}
TS __tsan_atomic_signal_fence(int) {}
#define TS_ATOMIC(bits, T)                                                     \
  SCHED_NI T __tsan_atomic##bits##_load(T const volatile* p, int) {            \
    sched::point(p, sizeof(T));                                                \
    return *p;                                                                 \
  }                                                                            \
  TS __tsan_atomic##bits##_store(T volatile* p, T v, int) {                    \
    sched::point(p, sizeof(T));                                                \
    *p = v;                                                                    \
  }                                                                            \
  SCHED_NI T __tsan_atomic##bits##_exchange(T volatile* p, T v, int) {         \
    sched::point(p, sizeof(T));                                                \
    T o = *p;                                                                  \
    *p = v;                                                                    \
    return o;                                                                  \
  }                                                                            \
  SCHED_NI T __tsan_atomic##bits##_fetch_add(T volatile* p, T v, int) {        \
    sched::point(p, sizeof(T));                                                \
    T o = *p;                                                                  \
    *p = static_cast<T>(o + v);                                                \
    return o;                                                                  \
  }                                                                            \
  SCHED_NI T __tsan_atomic##bits##_fetch_sub(T volatile* p, T v, int) {        \
    sched::point(p, sizeof(T));                                                \
    T o = *p;                                                                  \
    *p = static_cast<T>(o - v);                                                \
    return o;                                                                  \
  }                                                                            \
  SCHED_NI T __tsan_atomic##bits##_fetch_and(T volatile* p, T v, int) {        \
    sched::point(p, sizeof(T));                                                \
    T o = *p;                                                                  \
    *p = static_cast<T>(o & v);                                                \
    return o;                                                                  \
  }                                                                            \
  SCHED_NI T __tsan_atomic##bits##_fetch_or(T volatile* p, T v, int) {         \
    sched::point(p, sizeof(T));                                                \
    T o = *p;                                                                  \
    *p = static_cast<T>(o | v);                                                \
    return o;                                                                  \
  }                                                                            \
  SCHED_NI T __tsan_atomic##bits##_fetch_xor(T volatile* p, T v, int) {        \
    sched::point(p, sizeof(T));                                                \
    T o = *p;                                                                  \
    *p = static_cast<T>(o ^ v);                                                \
    return o;                                                                  \
  }                                                                            \
  SCHED_NI T __tsan_atomic##bits##_fetch_nand(T volatile* p, T v, int) {       \
    sched::point(p, sizeof(T));                                                \
    T o = *p;                                                                  \
    *p = static_cast<T>(~(o & v));                                             \
    return o;                                                                  \
  }                                                                            \
  SCHED_NI int __tsan_atomic##bits##_compare_exchange_strong(                  \
      T volatile* p, T* e, T v, int, int) {                                    \
    sched::point(p, sizeof(T));                                                \
    if (*p == *e) {                                                            \
      *p = v;                                                                  \
      return 1;                                                                \
    }                                                                          \
    *e = *p;                                                                   \
    return 0;                                                                  \
  }                                                                            \
  SCHED_NI int __tsan_atomic##bits##_compare_exchange_weak(                    \
      T volatile* p, T* e, T v, int, int) {                                    \
    sched::point(p, sizeof(T));                                                \
    if (*p == *e && !sched::spurious(p)) {                                     \
      *p = v;                                                                  \
      return 1;                                                                \
    }                                                                          \
    *e = *p;                                                                   \
    return 0;                                                                  \
  }                                                                            \
  SCHED_NI T __tsan_atomic##bits##_compare_exchange_val(T volatile* p, T e,    \
                                                        T v, int, int) {       \
    sched::point(p, sizeof(T));                                                \
    T o = *p;                                                                  \
    if (o == e) {                                                              \
      *p = v;                                                                  \
    }                                                                          \
    return o;                                                                  \
  }
TS_ATOMIC(8, std::uint8_t)
TS_ATOMIC(16, std::uint16_t)
TS_ATOMIC(32, std::uint32_t)
TS_ATOMIC(64, std::uint64_t)
}
