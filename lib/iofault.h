#pragma once
// Link-time interposition of the system calls the headers use (-Wl,--wrap=...):
// every mapping and FILE* is accounted for, and one call can be made to fail.
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <functional>
#include <map>
#include <stdio_ext.h>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <vector>

namespace io {

enum call { FOPEN, FCLOSE, FREAD, FWRITE, FSEEK, FSTAT, MMAP, MUNMAP, MSYNC, FTRUNCATE, FFLUSH, N_CALLS };
inline char const* const kName[] = {"fopen", "fclose", "fread", "fwrite", "fseek", "fstat", "mmap", "munmap", "msync", "ftruncate", "fflush"};

struct log_entry {
  call c;
  bool failed;
};

struct world {
  std::map<void*, std::size_t> maps;
  std::map<FILE*, int> files;
  std::vector<log_entry> calls;
  int fail_at = -1;  // index of the call that fails
  int fail_how = 0;  // 0: error, 1: short (fread/fwrite), fclose: closes but reports an error
  std::function<int(call)> decide;  // instead of fail_at: 0: no failure, 1 + fail_how
  bool active = false;
  std::string error;  // misuse
  unsigned long mapped = 0, opened = 0;
};
inline world* W = nullptr;

inline bool hit(call const c) {
  if (W == nullptr || !W->active) {
    return false;
  }
  auto f = static_cast<int>(W->calls.size()) == W->fail_at;
  if (W->decide) {
    auto const how = W->decide(c);
    f = how != 0;
    W->fail_how = how - 1;
  }
  W->calls.push_back({c, f});
  if (f) {
    errno = c == FOPEN ? EMFILE : c == MMAP ? ENOMEM : c == FWRITE || c == FTRUNCATE || c == FCLOSE || c == FFLUSH ? ENOSPC : EIO;
  }
  return f;
}

// a scratch directory that is emptied for each execution
struct dir {
  dir() {
    auto const* base = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
    std::snprintf(path_, sizeof(path_), "%s/mc_io_%d_XXXXXX", base, static_cast<int>(getpid()));
    if (mkdtemp(path_) == nullptr) {
      std::perror("mkdtemp");
      std::abort();
    }
  }
  ~dir() {
    for (auto const& f : {"a", "b", "c", "d"}) {
      ::unlink(file(f).c_str());
    }
    ::rmdir(path_);
  }
  std::string file(char const* name) const { return std::string{path_} + "/" + name; }
  char path_[64];
};

}  // namespace io

extern "C" {
FILE* __real_fopen(char const*, char const*);
int __real_fclose(FILE*);
std::size_t __real_fread(void*, std::size_t, std::size_t, FILE*);
std::size_t __real_fwrite(void const*, std::size_t, std::size_t, FILE*);
int __real_fflush(FILE*);
int __real_fseek(FILE*, long, int);
int __real_fstat(int, struct stat*);
void* __real_mmap(void*, std::size_t, int, int, int, off_t);
int __real_munmap(void*, std::size_t);
int __real_msync(void*, std::size_t, int);
int __real_ftruncate(int, off_t);

FILE* __wrap_fopen(char const* p, char const* m) {
  if (io::hit(io::FOPEN)) {
    return nullptr;
  }
  auto* f = __real_fopen(p, m);
  if (io::W != nullptr && io::W->active && f != nullptr) {
    io::W->files[f] = 1;
    ++io::W->opened;
  }
  return f;
}
int __wrap_fclose(FILE* f) {
  auto const fail = io::hit(io::FCLOSE);
  if (io::W != nullptr && io::W->active && io::W->files.erase(f) == 0U && io::W->error.empty()) {
    io::W->error = "fclose of a file that is not open";
    return EOF;
  }
  if (fail) {
    __fpurge(f);  // the buffered data could not be written
  }
  auto const r = __real_fclose(f);
  if (fail) {
    errno = ENOSPC;
    return EOF;
  }
  return r;
}
std::size_t __wrap_fread(void* p, std::size_t s, std::size_t n, FILE* f) {
  if (io::hit(io::FREAD)) {
    return io::W->fail_how == 1 && n > 1U ? __real_fread(p, s, n / 2U, f) : 0U;
  }
  return __real_fread(p, s, n, f);
}
std::size_t __wrap_fwrite(void const* p, std::size_t s, std::size_t n, FILE* f) {
  if (io::hit(io::FWRITE)) {
    return io::W->fail_how == 1 && n > 1U ? __real_fwrite(p, s, n / 2U, f) : 0U;
  }
  return __real_fwrite(p, s, n, f);
}
int __wrap_fflush(FILE* f) {
  if (io::W != nullptr && io::W->active && f != stdout && f != stderr && f != nullptr && io::hit(io::FFLUSH)) {
    __fpurge(f);
    return EOF;
  }
  return __real_fflush(f);
}
int __wrap_fseek(FILE* f, long o, int w) { return io::hit(io::FSEEK) ? -1 : __real_fseek(f, o, w); }
int __wrap_fstat(int fd, struct stat* s) { return io::hit(io::FSTAT) ? -1 : __real_fstat(fd, s); }
void* __wrap_mmap(void* a, std::size_t n, int p, int fl, int fd, off_t o) {
  if (io::hit(io::MMAP)) {
    return MAP_FAILED;
  }
  auto* r = __real_mmap(a, n, p, fl, fd, o);
  if (io::W != nullptr && io::W->active && r != MAP_FAILED) {
    io::W->maps[r] = (n + 4095U) / 4096U * 4096U;
    ++io::W->mapped;
  }
  return r;
}
int __wrap_munmap(void* a, std::size_t n) {
  auto const fail = io::hit(io::MUNMAP);
  if (io::W != nullptr && io::W->active) {
    auto const it = io::W->maps.find(a);
    if (it == io::W->maps.end()) {
      if (io::W->error.empty()) {
        io::W->error = "munmap of an address that is not mapped";
      }
      return -1;
    }
    if (it->second != (n + 4095U) / 4096U * 4096U) {
      if (io::W->error.empty()) {
        io::W->error = "munmap of " + std::to_string(n) + " bytes of a mapping of " + std::to_string(it->second);
      }
      return -1;
    }
    if (fail) {
      return -1;
    }
    io::W->maps.erase(it);
  }
  return __real_munmap(a, n);
}
int __wrap_msync(void* a, std::size_t n, int f) { return io::hit(io::MSYNC) ? -1 : __real_msync(a, n, f); }
int __wrap_ftruncate(int fd, off_t n) { return io::hit(io::FTRUNCATE) ? -1 : __real_ftruncate(fd, n); }
}

namespace io {

inline bool exists(std::string const& p) { return access(p.c_str(), F_OK) == 0; }

inline std::vector<unsigned char> read_all(std::string const& p) {
  std::vector<unsigned char> b;
  auto* f = __real_fopen(p.c_str(), "r");
  if (f == nullptr) {
    return b;
  }
  unsigned char buf[4096];
  for (std::size_t n; (n = __real_fread(buf, 1, sizeof(buf), f)) > 0;) {
    b.insert(b.end(), buf, buf + n);
  }
  __real_fclose(f);
  return b;
}

inline void write_all(std::string const& p, void const* d, std::size_t const n) {
  auto* f = __real_fopen(p.c_str(), "w");
  if (f == nullptr || (n != 0U && __real_fwrite(d, 1, n, f) != n)) {
    std::perror("write_all");
    std::abort();
  }
  __real_fclose(f);
}

}  // namespace io
