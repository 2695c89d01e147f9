// Stateless bounded model checker ("mc"): exhaustive depth-first enumeration of
// every sequence of choices a harness body makes, executed on the real code.
//
//   MC_SCENARIO(name, quick_bound, thorough_bound) { ... mc::choose(n) ... }
//
// The body is re-executed from scratch for every choice sequence.  A scenario
// ends when the whole choice tree is exhausted (or a wall-clock cap was hit,
// which is then reported as exhaustive=false).
//
// Workers are forked processes; each owns the subtrees whose prefix hashes to
// it.  The current choice sequence lives in shared memory, so a crash (ASan
// abort, assert, signal) or a hang in the code under test is attributed to the
// exact sequence, replayed alone for confirmation and reported as violation.
#pragma once

#include <cassert>
#include <cinttypes>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <algorithm>
#include <exception>
#include <initializer_list>
#include <new>
#include <set>
#include <string>
#include <utility>
#include <vector>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {

constexpr int kMaxDepth = 4096;

struct violation {};
struct skip_subtree {};

struct slot {
  // current execution
  volatile int pos;
  int len;
  std::uint16_t choice[kMaxDepth];
  std::uint16_t arity[kMaxDepth];
  char op[96];
  // counters
  volatile std::uint64_t execs, transitions, beats, checks;
  std::uint64_t depth_max;
  // end of run
  volatile int finished;  // 1 = exhausted, 2 = stopped (violation / cap)
  volatile int failed;
  int nondet;
  char key[200];
  char msg[2000];
  int fail_len;
  std::uint16_t fail_choice[kMaxDepth];
  // samples
  int n_samples;
  int sample_len[2];
  std::uint16_t sample[2][kMaxDepth];
  // known findings met
  int n_known;
  char known[16][200];
  std::uint64_t known_count[16];
};

struct global_shm {
  volatile int stop;
  char log[1 << 16];
  volatile int log_len;
  slot slots[64];
};

struct scenario {
  char const* name;
  int quick, thorough;
  void (*fn)();
  int split;
};

inline std::vector<scenario>& scenarios() {
  static std::vector<scenario> s;
  return s;
}
struct registrar {
  registrar(char const* n, int q, int t, void (*fn)(), int split = 3) {
    scenarios().push_back(scenario{n, q, t, fn, split});
  }
};

// ---------------------------------------------------------------- state
inline global_shm* G = nullptr;
inline slot* S = nullptr;
inline int g_bound = 0;
inline bool g_thorough = false;
inline bool g_replay = false;  // log operations
inline int g_changed = 0;  // position of the first choice differing from prev
inline int g_split = 3;
inline unsigned g_worker = 0, g_workers = 1;
inline bool g_owned = false;
inline std::vector<std::string> g_known;
inline volatile long g_live = 0;  // live heap blocks (counted via hooks)
inline volatile int g_leak_check = 1;
inline char g_logbuf_dummy;

struct u64set {  // mmap based, so it does not disturb the allocation counters
  std::uint64_t* t{nullptr};
  std::uint64_t cap{0}, n{0};
  void init(std::uint64_t c) {
    cap = c;
    n = 0;
    t = static_cast<std::uint64_t*>(mmap(nullptr, c * 8, PROT_READ | PROT_WRITE,
                                         MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  }
  bool insert(std::uint64_t x) {
    if (x == 0) {
      x = 1;
    }
    if (n * 2 >= cap) {
      if (cap >= (1ULL << 24)) {
        return false;
      }
      u64set o;
      o.init(cap * 2);
      for (std::uint64_t i = 0; i < cap; ++i) {
        if (t[i]) {
          o.insert(t[i]);
        }
      }
      munmap(t, cap * 8);
      *this = o;
    }
    auto i = (x * 0x9E3779B97F4A7C15ULL) >> 20;
    for (;; ++i) {
      auto& e = t[i & (cap - 1)];
      if (e == x) {
        return false;
      }
      if (e == 0) {
        e = x;
        ++n;
        return true;
      }
    }
  }
};
inline u64set g_states;

inline int bound() { return g_bound; }
inline bool thorough() { return g_thorough; }
inline bool replaying() { return g_replay; }

// true iff this point was not executed (with the same choices) before
inline bool fresh() { return S->pos > g_changed || S->pos == 0 || g_replay; }

inline void logf(char const* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void logf(char const* fmt, ...) {
  if (!g_replay) {
    return;
  }
  va_list ap;
  va_start(ap, fmt);
  auto const room = static_cast<int>(sizeof(G->log)) - G->log_len - 2;
  if (room > 0) {
    auto const w = vsnprintf(G->log + G->log_len,
                             static_cast<std::size_t>(room), fmt, ap);
    if (w > 0) {
      G->log_len = G->log_len + std::min(w, room - 1);
      G->log[G->log_len] = '\n';
      G->log_len = G->log_len + 1;
      G->log[G->log_len] = 0;
    }
  }
  va_end(ap);
}

[[noreturn]] inline void fail(char const* key, char const* fmt, ...)
    __attribute__((format(printf, 2, 3)));
[[noreturn]] inline void fail(char const* key, char const* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(S->msg, sizeof(S->msg), fmt, ap);
  va_end(ap);
  snprintf(S->key, sizeof(S->key), "%s", key);
  logf("FAIL [%s] %s", key, S->msg);
  throw violation{};
}

#define MC_CHECK(cond, key, ...)          \
  do {                                    \
    if (!(cond)) {                        \
      ::mc::fail((key), __VA_ARGS__);     \
    }                                     \
  } while (0)

inline void beat() { S->beats = S->beats + 1; }

// records a label for the operation being executed (crash attribution)
inline void op(char const* name) {
  auto i = 0U;
  for (; name[i] != 0 && i + 1 < sizeof(S->op); ++i) {
    S->op[i] = name[i];
  }
  S->op[i] = 0;
}

inline int choose(int const n) {
  if (n <= 0) {
    fprintf(stderr, "mc: choose(%d)\n", n);
    _exit(3);
  }
  auto const p = S->pos;
  if (p >= kMaxDepth) {
    fprintf(stderr, "mc: depth exceeded\n");
    _exit(3);
  }
  if (p == g_split && !g_owned && !g_replay) {
    std::uint64_t h = 0xcbf29ce484222325ULL;
    for (int i = 0; i < p; ++i) {
      h = (h ^ (S->choice[i] + 1U)) * 0x100000001B3ULL;
      h ^= h >> 29;
    }
    if (h % g_workers != g_worker) {
      throw skip_subtree{};
    }
    g_owned = true;
  }
  if (p < S->len) {
    if (g_replay ? S->choice[p] >= n : S->arity[p] != n) {
      S->nondet = 1;
      fprintf(stderr, "mc: nondeterministic replay at %d (%d vs %d)\n", p,
              S->arity[p], n);
      _exit(3);
    }
    S->arity[p] = static_cast<std::uint16_t>(n);
  } else {
    S->choice[p] = 0;
    S->arity[p] = static_cast<std::uint16_t>(n);
    S->len = p + 1;
  }
  S->pos = p + 1;
  return S->choice[p];
}

template <typename T>
T pick(std::initializer_list<T> l) {
  return l.begin()[choose(static_cast<int>(l.size()))];
}

// one transition of the system executed
inline void step() {
  if (fresh() && (S->pos > g_split || g_worker == 0)) {
    S->transitions = S->transitions + 1;
  }
}

struct H {
  std::uint64_t h = 0xcbf29ce484222325ULL;
  H& operator()(std::uint64_t x) {
    h ^= x;
    h *= 0x9E3779B97F4A7C15ULL;
    h ^= h >> 32;
    return *this;
  }
  H& operator()(char const* s) {
    for (; *s; ++s) {
      (*this)(static_cast<std::uint64_t>(static_cast<unsigned char>(*s)));
    }
    return *this;
  }
  H& bytes(void const* p, std::size_t n) {
    for (std::size_t i = 0; i < n; ++i) {
      (*this)(static_cast<unsigned char const*>(p)[i]);
    }
    return *this;
  }
};

inline std::uint64_t g_scen_hash = 0;
inline void state(std::uint64_t h) {
  if (fresh()) {
    g_states.insert(h ^ g_scen_hash);
  }
}
inline void state(H const& h) { state(h.h); }
inline void checked(std::uint64_t const n = 1U) { S->checks = S->checks + n; }

#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define MC_SCENARIO_I(name, q, t, id, split)                                 \
  static void MC_CAT(mc_body_, id)();                                        \
  static ::mc::registrar MC_CAT(mc_reg_, id){name, q, t,                     \
                                             &MC_CAT(mc_body_, id), split};  \
  static void MC_CAT(mc_body_, id)()
#define MC_SCENARIO(name, q, t) MC_SCENARIO_I(name, q, t, __COUNTER__, 3)
#define MC_SCENARIO_SPLIT(name, q, t, split) \
  MC_SCENARIO_I(name, q, t, __COUNTER__, split)

inline double now() {
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return static_cast<double>(ts.tv_sec) + static_cast<double>(ts.tv_nsec) * 1e-9;
}

// ------------------------------------------------------------ one execution
inline bool run_once(scenario const& sc, bool* skipped) {
  S->pos = 0;
  g_owned = g_replay;
  *skipped = false;
  S->op[0] = 0;
  auto ok = true;
  try {
    sc.fn();
  } catch (violation const&) {
    ok = false;
  } catch (skip_subtree const&) {
    *skipped = true;
  } catch (std::exception const& e) {
    snprintf(S->key, sizeof(S->key), "exception:%s", S->op);
    snprintf(S->msg, sizeof(S->msg), "unexpected exception in %s: %s", S->op,
             e.what());
    logf("FAIL unexpected exception: %s", e.what());
    ok = false;
  } catch (char const* e) {
    snprintf(S->key, sizeof(S->key), "exception:%s", S->op);
    snprintf(S->msg, sizeof(S->msg), "unexpected exception in %s: %s", S->op,
             e);
    ok = false;
  }
  return ok;
}

inline bool is_known(char const* key) {
  for (auto const& k : g_known) {
    if (k == key) {
      return true;
    }
  }
  return false;
}

inline void note_known(char const* key) {
  for (int i = 0; i < S->n_known; ++i) {
    if (strcmp(S->known[i], key) == 0) {
      ++S->known_count[i];
      return;
    }
  }
  if (S->n_known < 16) {
    snprintf(S->known[S->n_known], sizeof(S->known[0]), "%s", key);
    S->known_count[S->n_known] = 1;
    ++S->n_known;
  }
}

inline bool backtrack() {
  auto l = S->pos;  // choices beyond pos were not consumed
  while (l > 0 && S->choice[l - 1] + 1 >= S->arity[l - 1]) {
    --l;
  }
  if (l == 0) {
    S->len = 0;
    return false;
  }
  S->choice[l - 1] = static_cast<std::uint16_t>(S->choice[l - 1] + 1);
  S->len = l;
  g_changed = l - 1;
  return true;
}

inline bool run_leak_checked(scenario const& sc, bool* skipped) {
  auto const before = g_live;
  auto ok = run_once(sc, skipped);
  if (ok && !*skipped && g_leak_check && g_live > before) {
    // lazily initialised library state is only allocated once: run again
    auto const before2 = g_live;
    ok = run_once(sc, skipped);
    if (ok && g_live > before2) {
      snprintf(S->key, sizeof(S->key), "leak");
      snprintf(S->msg, sizeof(S->msg),
               "%ld heap block(s) allocated during the history are still "
               "allocated after every object was destroyed (last op: %s)",
               static_cast<long>(g_live - before2), S->op);
      logf("FAIL %s", S->msg);
      ok = false;
    }
  }
  return ok;
}

// worker main loop; the slot may hold a start sequence (restart after crash)
inline void work(scenario const& sc, double const deadline, bool const resumed) {
  if (resumed) {
    S->pos = S->len;
    if (!backtrack()) {
      S->finished = 1;
      return;
    }
  } else {
    S->len = 0;
    g_changed = 0;
  }
  for (std::uint64_t it = 0;; ++it) {
    if (G->stop || ((it & 255U) == 0U && now() > deadline)) {
      S->finished = 2;
      return;
    }
    S->beats = S->beats + 1;
    auto skipped = false;
    auto const ok = run_leak_checked(sc, &skipped);
    if (!skipped) {
      // executions that end before the split depth are run by every worker
      if (S->pos > g_split || g_worker == 0) {
        S->execs = S->execs + 1;
      }
      if (static_cast<std::uint64_t>(S->pos) > S->depth_max) {
        S->depth_max = static_cast<std::uint64_t>(S->pos);
      }
      auto const e = S->execs;
      if (e == 1 || (e & (e - 1)) == 0) {
        auto const i = e == 1 ? 0 : 1;
        S->sample_len[i] = S->pos;
        memcpy(S->sample[i], S->choice,
               sizeof(S->choice[0]) * static_cast<std::size_t>(S->pos));
        S->n_samples = std::max(S->n_samples, i + 1);
      }
    }
    if (!ok) {
      if (is_known(S->key)) {
        note_known(S->key);
      } else {
        S->fail_len = S->pos;
        memcpy(S->fail_choice, S->choice, sizeof(S->choice));
        S->failed = 1;
        S->finished = 2;
        return;
      }
    }
    if (!backtrack()) {
      S->finished = 1;
      return;
    }
  }
}

// ------------------------------------------------------------ parent
inline void json_str(FILE* f, char const* s) {
  fputc('"', f);
  for (; *s; ++s) {
    auto const c = static_cast<unsigned char>(*s);
    if (c == '"' || c == '\\') {
      fprintf(f, "\\%c", c);
    } else if (c == '\n') {
      fputs("\\n", f);
    } else if (c < 0x20 || c >= 0x7f) {
      fprintf(f, "\\u%04x", c);
    } else {
      fputc(c, f);
    }
  }
  fputc('"', f);
}

struct result {
  std::string scenario, key, msg, log;
  std::vector<int> choices;
};

// runs one fixed choice sequence in a fresh child with logging on.
// returns: 0 passed, 1 violation, 2 crashed, 3 hang, 4 internal error
inline int replay_one(scenario const& sc, std::uint16_t const* ch, int len,
                      double timeout, std::string* key, std::string* msg,
                      std::string* log) {
  auto& s = G->slots[63];
  memset(&s, 0, sizeof(s));
  memcpy(s.choice, ch, sizeof(std::uint16_t) * static_cast<std::size_t>(len));
  s.len = len;
  G->log_len = 0;
  G->log[0] = 0;
  fflush(nullptr);
  auto const pid = fork();
  if (pid == 0) {
    S = &s;
    g_replay = true;
    g_changed = 0;
    g_states.init(1 << 12);
    auto skipped = false;
    auto const l = s.len;
    auto const ok = run_leak_checked(sc, &skipped);
    (void)l;
    s.finished = 1;
    s.failed = ok ? 0 : 1;
    _exit(0);
  }
  auto const t0 = now();
  int st = 0;
  for (;;) {
    auto const r = waitpid(pid, &st, WNOHANG);
    if (r == pid) {
      break;
    }
    if (now() - t0 > timeout) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      *key = std::string{"hang:"} + s.op;
      *msg = std::string{"no termination in operation "} + s.op;
      *log = G->log;
      return 3;
    }
    usleep(500);
  }
  *log = G->log;
  if (s.nondet) {
    return 4;
  }
  if (!s.finished) {
    *key = std::string{"crash:"} + s.op;
    char b[128];
    snprintf(b, sizeof(b), " (wait status 0x%x)", static_cast<unsigned>(st));
    *msg = std::string{"crash (sanitizer report, assertion or signal) in "} +
           s.op + b;
    return 2;
  }
  *key = s.key;
  *msg = s.msg;
  return s.failed ? 1 : 0;
}

inline int mc_main(int argc, char** argv) {
  std::string out, only, replay_file, known_file;
  auto jobs = 8U;
  auto cap = 600.0;
  auto hang = 12.0;
  std::vector<int> rep;
  auto list = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&] { return std::string{argv[++i]}; };
    if (a == "--tier") {
      g_thorough = next() == "thorough";
    } else if (a == "--out") {
      out = next();
    } else if (a == "--jobs") {
      jobs = static_cast<unsigned>(std::stoul(next()));
    } else if (a == "--scenario") {
      only = next();
    } else if (a == "--known") {
      g_known.push_back(next());
    } else if (a == "--cap") {
      cap = std::stod(next());
    } else if (a == "--hang") {
      hang = std::stod(next());
    } else if (a == "--list") {
      list = true;
    } else if (a == "--replay") {
      auto s = next();
      auto p = std::size_t{0};
      while (p < s.size()) {
        auto e = s.find(',', p);
        if (e == std::string::npos) {
          e = s.size();
        }
        rep.push_back(std::stoi(s.substr(p, e - p)));
        p = e + 1;
      }
      if (rep.empty()) {
        rep.push_back(0);
      }
    }
  }
  G = static_cast<global_shm*>(mmap(nullptr, sizeof(global_shm),
                                    PROT_READ | PROT_WRITE,
                                    MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (list) {
    for (auto const& sc : scenarios()) {
      printf("%s\n", sc.name);
    }
    return 0;
  }
  if (!rep.empty()) {
    for (auto const& sc : scenarios()) {
      if (only == sc.name) {
        g_bound = g_thorough ? sc.thorough : sc.quick;
        std::vector<std::uint16_t> c(rep.begin(), rep.end());
        std::string key, msg, log;
        auto const r = replay_one(sc, c.data(), static_cast<int>(c.size()),
                                  3 * hang, &key, &msg, &log);
        printf("%s\nresult=%d key=%s msg=%s\n", log.c_str(), r, key.c_str(),
               msg.c_str());
        return r == 0 ? 0 : 1;
      }
    }
    return 3;
  }
  jobs = std::min(jobs, 60U);
  auto const t_begin = now();
  auto const deadline = t_begin + cap;
  std::vector<result> fails;
  FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
  fprintf(f, "{\"scenarios\":[");
  auto first = true;
  auto internal_error = false;
  auto tmpdir = std::string{"/tmp/mc."} + std::to_string(getpid());
  u64set all;
  all.init(1 << 16);
  for (auto const& sc : scenarios()) {
    if (!only.empty() && only != sc.name) {
      continue;
    }
    g_bound = g_thorough ? sc.thorough : sc.quick;
    if (g_bound < 0) {
      continue;
    }
    g_split = sc.split;
    g_workers = jobs;
    g_scen_hash = H{}(sc.name).h;
    auto const t0 = now();
    memset(static_cast<void*>(G->slots), 0, sizeof(G->slots));
    G->stop = 0;
    std::vector<pid_t> pids(jobs, 0);
    std::vector<std::uint64_t> last_beat(jobs, 0);
    std::vector<double> last_t(jobs, now());
    std::vector<int> restarts(jobs, 0);
    struct reaper_fail {
      int w;
      bool hang;
    };
    auto spawn = [&](unsigned w, bool resumed) {
      fflush(nullptr);
      auto const pid = fork();
      if (pid == 0) {
        S = &G->slots[w];
        g_worker = w;
        g_states.init(1 << 14);
        work(sc, deadline, resumed);
        auto const fn = tmpdir + "." + std::to_string(w) + "." +
                        std::to_string(restarts[w]);
        if (auto* o = fopen(fn.c_str(), "wb")) {
          for (std::uint64_t i = 0; i < g_states.cap; ++i) {
            if (g_states.t[i]) {
              fwrite(&g_states.t[i], 8, 1, o);
            }
          }
          fclose(o);
        }
        _exit(0);
      }
      pids[w] = pid;
      last_t[w] = now();
      last_beat[w] = G->slots[w].beats;
    };
    for (auto w = 0U; w < jobs; ++w) {
      spawn(w, false);
    }
    auto active = jobs;
    std::vector<result> sc_fails;
    std::uint64_t sc_states = 0;
    auto harvest = [&](unsigned w) {
      auto const fn =
          tmpdir + "." + std::to_string(w) + "." + std::to_string(restarts[w]);
      if (auto* o = fopen(fn.c_str(), "rb")) {
        std::uint64_t x;
        while (fread(&x, 8, 1, o) == 1) {
          sc_states += all.insert(x) ? 1 : 0;
        }
        fclose(o);
        unlink(fn.c_str());
      }
    };
    while (active > 0) {
      auto progressed = false;
      for (auto w = 0U; w < jobs; ++w) {
        if (pids[w] == 0) {
          continue;
        }
        auto& s = G->slots[w];
        int st = 0;
        auto const r = waitpid(pids[w], &st, WNOHANG);
        auto hung = false;
        if (r == 0) {
          if (s.beats != last_beat[w]) {
            last_beat[w] = s.beats;
            last_t[w] = now();
          } else if (now() - last_t[w] > hang) {
            kill(pids[w], SIGKILL);
            waitpid(pids[w], &st, 0);
            hung = true;
          }
          if (!hung) {
            continue;
          }
        }
        progressed = true;
        pids[w] = 0;
        harvest(w);
        if (s.nondet || (WIFEXITED(st) && WEXITSTATUS(st) == 3)) {
          internal_error = true;
          fprintf(stderr, "mc: internal error in scenario %s\n", sc.name);
          G->stop = 1;
          --active;
          continue;
        }
        auto const crashed = !s.finished;
        if (!crashed && !s.failed) {
          --active;
          continue;
        }
        if (!sc_fails.empty() && hung) {
          --active;  // one confirmed counterexample is enough
          continue;
        }
        // confirm by replaying the very same sequence alone
        result res;
        res.scenario = sc.name;
        auto const* ch = crashed ? s.choice : s.fail_choice;
        auto const len = crashed ? s.pos : s.fail_len;
        auto const rr = replay_one(sc, ch, len, 2 * hang, &res.key, &res.msg,
                                   &res.log);
        res.choices.assign(ch, ch + len);
        if (rr == 0 || rr == 4) {
          // not reproducible: never report as a violation of the code
          fprintf(stderr,
                  "mc: NOT reproducible (%s %s) in %s: %s / key %s\n",
                  crashed ? "crash" : "violation", hung ? "hang" : "", sc.name,
                  s.op, s.key);
          if (!hung) {
            internal_error = true;
          }
          if (crashed && restarts[w] < 200 && !G->stop) {
            ++restarts[w];
            s.finished = 0;
            s.failed = 0;
            s.len = s.pos;
            spawn(w, true);
            continue;
          }
          --active;
          continue;
        }
        if (is_known(res.key.c_str())) {
          S = &s;
          note_known(res.key.c_str());
          if (crashed && restarts[w] < 500 && !G->stop) {
            ++restarts[w];
            s.len = s.pos;
            spawn(w, true);
            continue;
          }
          --active;
          continue;
        }
        sc_fails.push_back(res);
        G->stop = 1;
        --active;
      }
      if (!progressed) {
        usleep(2000);
      }
    }
    // shortest counterexample first
    std::sort(sc_fails.begin(), sc_fails.end(), [](auto& a, auto& b) {
      return a.choices.size() < b.choices.size();
    });
    std::uint64_t ex = 0, tr = 0, dm = 0, ck = 0;
    auto exhausted = true;
    std::vector<std::pair<std::string, std::uint64_t>> known;
    for (auto w = 0U; w < jobs; ++w) {
      auto& s = G->slots[w];
      ex += s.execs;
      tr += s.transitions;
      ck += s.checks;
      dm = std::max(dm, s.depth_max);
      exhausted = exhausted && s.finished == 1;
      for (int i = 0; i < s.n_known; ++i) {
        auto it = std::find_if(known.begin(), known.end(), [&](auto& k) {
          return k.first == s.known[i];
        });
        if (it == known.end()) {
          known.emplace_back(s.known[i], s.known_count[i]);
        } else {
          it->second += s.known_count[i];
        }
      }
    }
    // samples: replay with logging
    std::vector<std::string> samples;
    for (auto w : {0U, jobs / 2U}) {
      auto copy_len = G->slots[w].n_samples
                          ? G->slots[w].sample_len[G->slots[w].n_samples - 1]
                          : -1;
      if (copy_len >= 0 && samples.size() < 2) {
        std::string k, m, l;
        replay_one(sc, G->slots[w].sample[G->slots[w].n_samples - 1], copy_len,
                   hang, &k, &m, &l);
        if (!l.empty()) {
          samples.push_back(l.substr(0, 600));
        }
      }
    }
    fprintf(f, "%s\n{\"name\":", first ? "" : ",");
    first = false;
    json_str(f, sc.name);
    fprintf(f,
            ",\"bound\":%d,\"executions\":%" PRIu64 ",\"transitions\":%" PRIu64
            ",\"states\":%" PRIu64 ",\"checks\":%" PRIu64
            ",\"max_choices\":%" PRIu64 ",\"exhausted\":%s,\"wall_s\":%.2f",
            g_bound, ex, tr, sc_states, ck, dm,
            exhausted && sc_fails.empty() ? "true" : "false", now() - t0);
    fprintf(f, ",\"known\":[");
    for (auto i = 0U; i < known.size(); ++i) {
      fprintf(f, "%s[", i ? "," : "");
      json_str(f, known[i].first.c_str());
      fprintf(f, ",%" PRIu64 "]", known[i].second);
    }
    fprintf(f, "],\"samples\":[");
    for (auto i = 0U; i < samples.size(); ++i) {
      fprintf(f, "%s", i ? "," : "");
      json_str(f, samples[i].c_str());
    }
    fprintf(f, "],\"violations\":[");
    for (auto i = 0U; i < sc_fails.size() && i < 3; ++i) {
      auto& r = sc_fails[i];
      fprintf(f, "%s{\"key\":", i ? "," : "");
      json_str(f, r.key.c_str());
      fprintf(f, ",\"msg\":");
      json_str(f, r.msg.c_str());
      fprintf(f, ",\"log\":");
      json_str(f, r.log.c_str());
      fprintf(f, ",\"choices\":[");
      for (auto j = 0U; j < r.choices.size(); ++j) {
        fprintf(f, "%s%d", j ? "," : "", r.choices[j]);
      }
      fprintf(f, "]}");
      fails.push_back(r);
    }
    fprintf(f, "]}");
    fflush(f);
  }
  fprintf(f, "\n],\"internal_error\":%s,\"wall_s\":%.2f}\n",
          internal_error ? "true" : "false", now() - t_begin);
  if (f != stdout) {
    fclose(f);
  }
  if (!fails.empty()) {
    return 1;
  }
  return internal_error ? 3 : 0;
}

}  // namespace mc

#if defined(__has_feature)
#if __has_feature(address_sanitizer) && !defined(__SANITIZE_ADDRESS__)
#define __SANITIZE_ADDRESS__ 1
#endif
#endif
#ifndef MC_NO_MAIN
#if defined(__SANITIZE_ADDRESS__)
extern "C" void __sanitizer_malloc_hook(void const volatile*, std::size_t) {
  mc::g_live = mc::g_live + 1;
}
extern "C" void __sanitizer_free_hook(void const volatile* p) {
  if (p != nullptr) {
    mc::g_live = mc::g_live - 1;
  }
}
extern "C" char const* __asan_default_options() {
  return "detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_"
         "null=1:handle_abort=1:allow_user_segv_handler=0:print_summary=1:"
         "malloc_context_size=4:quarantine_size_mb=8:max_redzone=64:"
         "detect_stack_use_after_return=0"
#if defined(MC_NO_ALLOC_DEALLOC_MISMATCH)
         ":alloc_dealloc_mismatch=0"
#endif
      ;
}
extern "C" char const* __ubsan_default_options() {
  return "halt_on_error=1:print_stacktrace=1";
}
#endif
int main(int argc, char** argv) { return mc::mc_main(argc, argv); }
#endif
