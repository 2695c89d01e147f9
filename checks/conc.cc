// A01, A02: atomic helpers and concurrent bit vectors under every schedule.
// Compiled with -fsanitize=thread, linked against lib/fibers.h.
#include "fibers.h"

#include "cista/atomic.h"
#include "cista/containers/bitvec.h"
#include "cista/containers/vector.h"
#include "cista/strong.h"

namespace {

#if PART == 1
struct call {
  int op;  // 0 or, 1 and, 2 min, 3 max
  std::uint64_t arg;
  std::uint64_t ret{0};
  std::uint64_t begin{0}, end{0};
  unsigned thread{0};
};

std::uint64_t apply(int const op, std::uint64_t const v, std::uint64_t const arg) {
  auto const sv = static_cast<std::int16_t>(v), sa = static_cast<std::int16_t>(arg);
  switch (op) {
    case 0: return v | arg;
    case 1: return v & arg;
    case 2: return static_cast<std::uint16_t>(sv < sa ? sv : sa);
    default: return static_cast<std::uint16_t>(sv > sa ? sv : sa);
  }
}

// is there an order of all calls, respecting real time, in which every call
// returns the value before it and that ends in `final`?
bool linear(std::vector<call> const& calls, std::uint64_t const v, std::uint64_t const final, unsigned const used) {
  auto const all = (1U << calls.size()) - 1U;
  if (used == all) {
    return v == final;
  }
  for (auto i = 0U; i != calls.size(); ++i) {
    if ((used & (1U << i)) != 0U || calls[i].ret != v) {
      continue;
    }
    auto first = true;
    for (auto j = 0U; j != calls.size(); ++j) {
      if (j != i && (used & (1U << j)) == 0U && calls[j].end < calls[i].begin) {
        first = false;
      }
    }
    if (first && linear(calls, apply(calls[i].op, v, calls[i].arg), final, used | (1U << i))) {
      return true;
    }
  }
  return false;
}

template <typename Block>
void explore(std::uint64_t const init, std::vector<call>& calls, unsigned const n_threads, int const preemptions) {
  auto cell = std::make_unique<Block[]>(4);
  cell[0] = cell[1] = cell[2] = cell[3] = static_cast<Block>(0x5A5AU);
  auto& block = cell[1];
  block = static_cast<Block>(init);
  auto threads = std::vector<std::function<void()>>{};
  for (auto t = 0U; t != n_threads; ++t) {
    threads.push_back([&, t]() {
      for (auto& c : calls) {
        if (c.thread != t) {
          continue;
        }
        c.begin = sched::now();
        if constexpr (sizeof(Block) == 8U) {
          c.ret = c.op == 0 ? cista::fetch_or(block, c.arg) : cista::fetch_and(block, c.arg);
        } else {
          auto const a = static_cast<std::int16_t>(c.arg);
          c.ret = static_cast<std::uint16_t>(c.op == 2 ? cista::fetch_min(block, a) : cista::fetch_max(block, a));
        }
        c.end = sched::now();
      }
    });
  }
  sched::options o;
  o.preemptions = preemptions;
  o.shared_hash = [&]() {
    mc::H h;
    h(static_cast<std::uint64_t>(block));
    for (auto const& c : calls) {
      h(c.ret)(c.end != 0U ? 1U : 0U);
    }
    return h.h;
  };
  mc::op("run");
  auto const at = reinterpret_cast<std::uintptr_t>(&cell[0]);
  sched::run(std::move(threads), {{at, at + 4 * sizeof(Block)}}, o);
  mc::op("check");
  auto log = std::string{};
  for (auto const& c : calls) {
    char b[128];
    snprintf(b, sizeof(b), "thread %u %s(%llx) -> %llx; ", c.thread,
             c.op == 0 ? "fetch_or" : c.op == 1 ? "fetch_and" : c.op == 2 ? "fetch_min" : "fetch_max",
             static_cast<unsigned long long>(c.arg), static_cast<unsigned long long>(c.ret));
    log += b;
  }
  auto const fin = sizeof(Block) == 8U ? static_cast<std::uint64_t>(block) : static_cast<std::uint16_t>(block);
  mc::logf("initial %llx, %s final %llx", static_cast<unsigned long long>(init), log.c_str(), static_cast<unsigned long long>(fin));
  MC_CHECK(linear(calls, init, fin, 0U), "not_linearizable", "initial %llx, %s final %llx", static_cast<unsigned long long>(init),
           log.c_str(), static_cast<unsigned long long>(fin));
  auto const n = static_cast<Block>(0x5A5AU);
  MC_CHECK(cell[0] == n && cell[2] == n && cell[3] == n, "neighbour", "memory next to the variable changed");
  mc::checked();
}

constexpr std::uint64_t kMasks[] = {0x1ULL, 0x8000000000000000ULL, 0xFFFFFFFF00000001ULL, 0ULL};
constexpr std::uint16_t kVals[] = {0x8000U, 0xFFFFU, 0U, 1U, 0x7FFFU, 0xFFFEU};

void assign(std::vector<call>& calls, unsigned const n_threads, unsigned const per_thread, bool const bits, int const n_args) {
  for (auto t = 0U; t != n_threads; ++t) {
    for (auto i = 0U; i != per_thread; ++i) {
      auto const k = mc::choose(2);
      auto const a = mc::choose(n_args);
      call c;
      c.thread = t;
      c.op = bits ? k : 2 + k;
      c.arg = bits ? (k == 0 ? kMasks[a] : ~kMasks[a]) : kVals[a];
      calls.push_back(c);
    }
  }
}

MC_SCENARIO("fetch_or, fetch_and: two threads, two calls each", 1, 1) {
  std::uint64_t const init = mc::choose(3) == 0 ? 0ULL : mc::choose(2) == 0 ? ~0ULL : 0x8000000000000001ULL;
  auto calls = std::vector<call>{};
  assign(calls, 2, 2, true, mc::thorough() ? 4 : 3);
  explore<std::uint64_t>(init, calls, 2, 1000);
}

MC_SCENARIO("fetch_or, fetch_and: three threads", 1, 1) {
  std::uint64_t const init = mc::choose(2) == 0 ? 0ULL : ~0ULL;
  auto calls = std::vector<call>{};
  assign(calls, 3, mc::thorough() ? 2 : 1, true, 3);
  explore<std::uint64_t>(init, calls, 3, mc::thorough() ? 3 : 1000);
}

MC_SCENARIO("fetch_min, fetch_max: one thread, two calls", 1, 1) {
  std::uint64_t const init = kVals[mc::choose(6)];
  auto calls = std::vector<call>{};
  assign(calls, 1, 2, false, 6);
  explore<std::int16_t>(init, calls, 1, 1000);
}

MC_SCENARIO("fetch_min, fetch_max: two threads, one call each", 1, 1) {
  std::uint64_t const init = kVals[mc::choose(6)];
  auto calls = std::vector<call>{};
  assign(calls, 2, 1, false, 6);
  explore<std::int16_t>(init, calls, 2, 1000);
}

MC_SCENARIO("fetch_min, fetch_max: two threads, two calls each", 1, 1) {
  std::uint64_t const init = kVals[mc::choose(mc::thorough() ? 5 : 3)];
  auto calls = std::vector<call>{};
  assign(calls, 2, 2, false, mc::thorough() ? 4 : 3);
  explore<std::int16_t>(init, calls, 2, mc::thorough() ? 1000 : 3);
}

MC_SCENARIO("fetch_min, fetch_max: three threads, one call each", 1, 1) {
  std::uint64_t const init = kVals[mc::choose(3)];
  auto calls = std::vector<call>{};
  assign(calls, 3, 1, false, mc::thorough() ? 4 : 3);
  explore<std::int16_t>(init, calls, 3, mc::thorough() ? 1000 : 3);
}

#else

struct bit_tag {};
using key = cista::strong<std::uint32_t, bit_tag>;

template <typename BV>
std::vector<bool> content(BV const& b) {
  std::vector<bool> r;
  for (auto i = 0U; i != static_cast<unsigned>(b.size()); ++i) {
    auto const& blk = b.blocks_[i / 64U];
    r.push_back(((blk >> (i % 64U)) & 1U) != 0U);
  }
  return r;
}

struct upd {
  unsigned thread, pos;
  bool val;
};

template <typename BV>
void updates(std::vector<upd> const& us, unsigned const n_threads, unsigned const size, bool const ones, int const preemptions) {
  using K = std::conditional_t<std::is_same_v<BV, cista::basic_bitvec<cista::basic_vector<std::uint64_t, cista::raw::ptr>, key>>, key,
                               typename BV::size_type>;
  auto b = BV{};
  b.resize(size);
  if (ones) {
    b.one_out();
  }
  auto exp = content(b);
  for (auto const& u : us) {
    exp[u.pos] = u.val;
  }
  auto threads = std::vector<std::function<void()>>{};
  for (auto t = 0U; t != n_threads; ++t) {
    threads.push_back([&, t]() {
      for (auto const& u : us) {
        if (u.thread == t) {
          b.template set<true>(K{u.pos}, u.val);
        }
      }
    });
  }
  sched::options o;
  o.preemptions = preemptions;
  o.shared_hash = [&]() { return mc::H{}.bytes(cista::ptr_cast(b.blocks_.el_), b.blocks_.size() * 8U).h; };
  mc::op("run");
  auto const at = reinterpret_cast<std::uintptr_t>(cista::ptr_cast(b.blocks_.el_));
  sched::run(std::move(threads), {{at, at + b.blocks_.size() * 8U}}, o);
  mc::op("check");
  auto const got = content(b);
  auto log = std::string{};
  for (auto const& u : us) {
    char s[64];
    snprintf(s, sizeof(s), "thread %u sets %u to %d; ", u.thread, u.pos, u.val ? 1 : 0);
    log += s;
  }
  mc::logf("%s", log.c_str());
  for (auto i = 0U; i != size; ++i) {
    MC_CHECK(got[i] == exp[i], "lost_update", "bit %u is %d, expected %d: %s", i, got[i] ? 1 : 0, exp[i] ? 1 : 0, log.c_str());
  }
  mc::checked();
}

void all_updates(unsigned const n_threads, unsigned const per_thread, unsigned const n_pos, int const preemptions) {
  constexpr unsigned kPos[] = {0U, 1U, 63U, 31U, 64U, 69U};
  auto us = std::vector<upd>{};
  auto used = 0U;
  for (auto t = 0U; t != n_threads; ++t) {
    for (auto i = 0U; i != per_thread; ++i) {
      auto k = static_cast<unsigned>(mc::choose(static_cast<int>(n_pos - us.size())));
      auto p = 0U;
      for (;; ++p) {
        if ((used & (1U << p)) == 0U && k-- == 0U) {
          break;
        }
      }
      used |= 1U << p;
      us.push_back({t, kPos[p], mc::choose(2) == 1});
    }
  }
  auto const ones = mc::choose(2) == 1;
  switch (mc::choose(2)) {
    case 0: updates<cista::raw::bitvec>(us, n_threads, 70U, ones, preemptions); break;
    case 1:
      updates<cista::basic_bitvec<cista::basic_vector<std::uint64_t, cista::raw::ptr>, key>>(us, n_threads, 70U, ones, preemptions);
      break;
  }
}

MC_SCENARIO("atomic set and clear: two threads, two bits each", 1, 1) { all_updates(2, 2, mc::thorough() ? 6 : 5, 1000); }
MC_SCENARIO("atomic set and clear: three threads, one bit each", 1, 1) { all_updates(3, 1, mc::thorough() ? 6 : 5, 1000); }
MC_SCENARIO("atomic set and clear: three threads, two bits each", 0, 1) {
  if (mc::bound() != 0) {
    all_updates(3, 2, 6, 2);
  }
}

template <typename BV, typename K>
void claim(unsigned const pattern, unsigned const size, unsigned const n_threads, unsigned const start, int const preemptions) {
  constexpr unsigned kPos[] = {0U, 1U, 63U, 64U, 65U, 127U, 128U};
  auto b = BV{};
  b.resize(size);
  auto exp = std::vector<unsigned>{};
  for (auto i = 0U; i != 7U; ++i) {
    if ((pattern & (1U << i)) != 0U && kPos[i] < size) {
      b.set(K{kPos[i]}, true);
      if (kPos[i] >= start) {
        exp.push_back(kPos[i]);
      }
    }
  }
  auto const before = content(b);
  auto next = std::make_unique<std::atomic_size_t>(start);
  auto got = std::vector<std::vector<unsigned>>(n_threads);
  for (auto& g : got) {
    g.reserve(64U);
  }
  auto threads = std::vector<std::function<void()>>{};
  for (auto t = 0U; t != n_threads; ++t) {
    threads.push_back([&, t]() {
      while (true) {
        auto const x = b.get_next(*next);
        if (!x.has_value() || got[t].size() == 64U) {
          break;
        }
        got[t].push_back(static_cast<unsigned>(cista::to_idx(*x)));
      }
    });
  }
  sched::options o;
  o.preemptions = preemptions;
  o.spurious = 1;
  o.shared_hash = [&]() {
    mc::H h;
    h(*next);
    for (auto const& g : got) {
      h(g.size());
      for (auto const x : g) {
        h(x);
      }
    }
    return h.h;
  };
  mc::op("run");
  auto const at = reinterpret_cast<std::uintptr_t>(next.get());
  sched::run(std::move(threads), {{at, at + sizeof(*next)}}, o);
  mc::op("check");
  auto all = std::vector<unsigned>{};
  auto log = std::string{};
  for (auto t = 0U; t != n_threads; ++t) {
    log += "thread " + std::to_string(t) + ":";
    for (auto const x : got[t]) {
      all.push_back(x);
      log += " " + std::to_string(x);
    }
    log += "; ";
    MC_CHECK(std::is_sorted(begin(got[t]), end(got[t])), "order", "%s", log.c_str());
  }
  mc::logf("pattern %x size %u: %s", pattern, size, log.c_str());
  std::sort(begin(all), end(all));
  MC_CHECK(all == exp, "claims", "set bits %zu, handed out %zu: %s", exp.size(), all.size(), log.c_str());
  MC_CHECK(content(b) == before, "modified", "taking bits changed the bit vector");
  mc::checked();
}

void claims(unsigned const n_threads, int const max_bits, int const preemptions) {
  constexpr unsigned kSize[] = {64U, 66U, 128U, 129U, 1U};
  auto const size = kSize[mc::choose(5)];
  auto const pattern = static_cast<unsigned>(mc::choose(128));
  if (__builtin_popcount(pattern) > max_bits) {
    return;
  }
  constexpr unsigned kStart[] = {0U, 1U, 64U, 200U};
  auto const start = kStart[mc::choose(mc::thorough() ? 4 : 2)];
  switch (mc::choose(mc::thorough() ? 2 : 1)) {
    case 0: claim<cista::raw::bitvec, std::uint32_t>(pattern, size, n_threads, start, preemptions); break;
    case 1:
      claim<cista::basic_bitvec<cista::basic_vector<std::uint64_t, cista::raw::ptr>>, std::uint32_t>(pattern, size, n_threads, start,
                                                                                                    preemptions);
      break;
  }
}

MC_SCENARIO("taking set bits: two threads", 1, 1) { claims(2, mc::thorough() ? 7 : 7, mc::thorough() ? 4 : 2); }
MC_SCENARIO("taking set bits: two threads, all schedules", 1, 1) { claims(2, mc::thorough() ? 3 : 2, 1000); }
MC_SCENARIO("taking set bits: three threads", 1, 1) { claims(3, mc::thorough() ? 3 : 3, mc::thorough() ? 3 : 2); }

#endif

}  // namespace
