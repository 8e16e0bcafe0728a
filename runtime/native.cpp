// Native replay of a counterexample: inputs come from a file of "name#k width hex" lines (VS_REPLAY), same naming as the solver's.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <cstdarg>
#include <sys/syscall.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>
#include <exception>
#include "../harness/vs.h"
static std::map<std::string, unsigned __int128> in;
static std::map<std::string, int> counts;
static bool loaded;
static void out(const std::string& s) { (void)!::write(1, s.data(), s.size()); }
static void load() {
  if (loaded) return;
  loaded = true;
  const char* p = getenv("VS_REPLAY"); if (!p) return;
  // the C library's file functions are the in-memory file system here: go to the kernel
  int fd = (int)syscall(SYS_openat, AT_FDCWD, p, O_RDONLY); if (fd < 0) { out("no replay file\n"); _exit(3); }
  std::string all; char buf[4096]; long n;
  while ((n = syscall(SYS_read, fd, buf, sizeof buf)) > 0) all.append(buf, (size_t)n);
  syscall(SYS_close, fd);
  for (size_t i = 0; i < all.size();) { // "<name> <hex>"
    size_t e = all.find('\n', i); if (e == std::string::npos) e = all.size();
    std::string line = all.substr(i, e - i); i = e + 1;
    size_t sp = line.rfind(' '); if (sp == std::string::npos) continue;
    unsigned __int128 v = 0;
    for (char c : line.substr(sp + 1)) { int d; if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'f') d = c - 'a' + 10; else continue; v = v * 16 + d; }
    in[line.substr(0, sp)] = v;
  }
}
static unsigned __int128 get(const std::string& nm) {
  load();
  int k = counts[nm]++;
  auto it = in.find(nm + "#" + std::to_string(k));
  return it == in.end() ? 0 : it->second;
}
static void finish(const char* what, const char* msg, int code) { out(std::string(what) + " " + msg + "\n"); _exit(code); }
extern "C" {
void vs_sym(void* p, size_t n, const char* name) {
  if (n == 1 || n == 2 || n == 4 || n == 8 || n == 16) { unsigned __int128 v = get(name); memcpy(p, &v, n); }
  else for (size_t i = 0; i < n; ++i) ((uint8_t*)p)[i] = (uint8_t)get(std::string(name) + "[" + std::to_string(i) + "]");
}
void vs_sym_bytes(void* p, size_t n, const char* name) { for (size_t i = 0; i < n; ++i) ((uint8_t*)p)[i] = (uint8_t)get(std::string(name) + "[" + std::to_string(i) + "]"); }
uint64_t vs_range(uint64_t lo, uint64_t hi, const char* name) { if (lo == hi) return lo; uint64_t v = (uint64_t)get(name); return v < lo || v > hi ? lo : v; }
uint64_t vs_choose(uint64_t n, const char* name) { if (n < 2) return 0; uint64_t v = (uint64_t)get(name); return v >= n ? 0 : v; }
void vs_assume(int c) { if (!c) finish("ASSUME", "assumption not met", 0); }
void vs_assert(int c, const char* msg) { if (!c) finish("ASSERT", msg, 10); }
void vs_reach(const char* l) { if (getenv("VS_TRACE")) out(std::string("REACH ") + l + "\n"); }
void vs_fail(const char* msg) { finish("ASSERT", msg, 10); __builtin_unreachable(); }
void vs_check_failed(const char* c) { std::string m = std::string("XR_CHECK failed: ") + c; finish("ABORT", m.c_str(), 11); __builtin_unreachable(); }
uint64_t vs_concretize(uint64_t v) { return v; }
void vs_silent_end() { finish("END", "", 0); __builtin_unreachable(); }
#ifdef VS_LIMIT
static size_t allocLimit = 256u << 20;
void vs_alloc_limit(size_t n) { allocLimit = n; }
#else
void vs_alloc_limit(size_t) {}
#endif
void vs_race_check(int) {}
void vs_print(const char* s, uint64_t v) { if (getenv("VS_TRACE")) out(std::string("PRINT ") + s + " " + std::to_string(v) + "\n"); }
int vs_is_symbolic_run() { return 0; }
void vs_yield() { usleep(1); }
void vs_clock_set(uint64_t) {}
}
#ifdef VS_LIMIT
#include <new>
// same allocation limit as the engine's
static void* lim(size_t n) { if (n > allocLimit) return nullptr; void* p = malloc(n ? n : 1); if (p) if (const char* f = getenv("VS_FILL")) memset(p, atoi(f), n); return p; }
void* operator new(size_t n) { void* p = lim(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = lim(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return lim(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return lim(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
#endif
int main(int argc, char** argv) {
  if (argc < 2) return 3;
  auto f = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!f) { out("no entry\n"); return 3; }
  try { f(); } catch (const std::exception& e) { finish("ABORT", (std::string("uncaught exception ") + e.what()).c_str(), 12); }
  finish("OK", "", 0);
}
