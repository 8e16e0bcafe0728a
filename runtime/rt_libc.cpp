// Bitcode-only: C library pieces, "C" locale.
#include <pthread.h>
#include <cerrno>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <ctime>
#include <strings.h>
#include "../harness/vs.h"
extern "C" { uint64_t vs_clock_ns();
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isalpha(int c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isprint(int c) { return c >= 32 && c < 127; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int ispunct(int c) { return isprint(c) && !isalnum(c) && c != ' '; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { ++a; ++b; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { while (n && *a && *a == *b) { ++a; ++b; --n; } return n ? (int)(unsigned char)*a - (int)(unsigned char)*b : 0; }
int strcasecmp(const char* a, const char* b) { while (*a && tolower((unsigned char)*a) == tolower((unsigned char)*b)) { ++a; ++b; } return tolower((unsigned char)*a) - tolower((unsigned char)*b); }
int strncasecmp(const char* a, const char* b, size_t n) { while (n && *a && tolower((unsigned char)*a) == tolower((unsigned char)*b)) { ++a; ++b; --n; } return n ? tolower((unsigned char)*a) - tolower((unsigned char)*b) : 0; }
char* vsl_strchr(const char* s, int c) asm("strchr");
char* vsl_strchr(const char* s, int c) { for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
char* vsl_strrchr(const char* s, int c) asm("strrchr");
char* vsl_strrchr(const char* s, int c) { const char* r = nullptr; for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
size_t strnlen(const char* s, size_t n) { size_t k = 0; while (k < n && s[k]) ++k; return k; }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* vsl_strstr(const char* h, const char* n) asm("strstr");
char* vsl_strstr(const char* h, const char* n) { size_t k = strlen(n); for (; *h; ++h) if (strncmp(h, n, k) == 0) return (char*)h; return k ? nullptr : (char*)h; }
char* strerror(int) { static char m[] = "error"; return m; }
char* getenv(const char*) { return nullptr; }
// integers: strto* with base 10/16/0, wrap-around kept as in glibc (saturating)
static uint64_t parseU(const char* s, char** end, int base, bool& neg, bool& ovf, bool& any) {
  const char* p = s; neg = ovf = any = false;
  while (isspace((unsigned char)*p)) ++p;
  if (*p == '+' || *p == '-') { neg = *p == '-'; ++p; }
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
  else if (base == 0) base = p[0] == '0' ? 8 : 10;
  uint64_t v = 0;
  for (;; ++p) {
    int c = (unsigned char)*p, d;
    if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break;
    if (d >= base) break;
    any = true;
    if (v > (~0ull - (uint64_t)d) / (uint64_t)base) ovf = true; else v = v * (uint64_t)base + (uint64_t)d;
  }
  if (end) *end = (char*)(any ? p : s);
  return v;
}
unsigned long strtoul(const char* s, char** e, int b) { bool n, o, a; uint64_t v = parseU(s, e, b, n, o, a); if (o) { errno = ERANGE; return ~0ul; } return n ? 0 - v : v; }
long strtol(const char* s, char** e, int b) { bool n, o, a; uint64_t v = parseU(s, e, b, n, o, a); if (o || (!n && v > 0x7fffffffffffffffull) || (n && v > 0x8000000000000000ull)) { errno = ERANGE; return n ? (long)0x8000000000000000ull : 0x7fffffffffffffffl; } return n ? (long)(0 - v) : (long)v; }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return strtoul(s, e, b); }
long __isoc23_strtol(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long long strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
long long strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
long long __isoc23_strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
int atoi(const char* s) { return (int)strtol(s, nullptr, 10); }
double strtod(const char* s, char** end) { // decimal, exact for small integers and short fractions only
  const char* p = s; bool neg = false, any = false; while (isspace((unsigned char)*p)) ++p;
  if (*p == '+' || *p == '-') { neg = *p == '-'; ++p; }
  double v = 0; while (isdigit((unsigned char)*p)) { v = v * 10 + (*p - '0'); ++p; any = true; }
  if (*p == '.') { double sc = 1; ++p; while (isdigit((unsigned char)*p)) { v = v * 10 + (*p - '0'); sc *= 10; ++p; any = true; } v /= sc; }
  if (end) *end = (char*)(any ? p : s);
  return neg ? -v : v;
}
// sscanf: literals, %u %d %x %s %lf
static int vscan(const char* s, const char* f, va_list ap) {
  int n = 0; const char* s0 = s;
  for (; *f; ++f) {
    if (isspace((unsigned char)*f)) { while (isspace((unsigned char)*s)) ++s; continue; }
    if (*f != '%') { if (*s != *f) return (!*s && n == 0) ? -1 : n; ++s; continue; }
    ++f; bool l = false; size_t w = 0;
    while (isdigit((unsigned char)*f)) w = w * 10 + (size_t)(*f++ - '0');
    while (*f == 'l' || *f == 'h') { l = *f == 'l'; ++f; }
    if (*f == 'n') { *va_arg(ap, int*) = (int)(s - s0); continue; }
    if (*f == 's') {
      while (isspace((unsigned char)*s)) ++s;
      if (!*s) return n ? n : -1;
      char* d = va_arg(ap, char*); size_t k = 0;
      while (*s && !isspace((unsigned char)*s) && (w == 0 || k < w)) { *d++ = *s++; ++k; }
      *d = 0; ++n; continue;
    }
    while (isspace((unsigned char)*s)) ++s;
    if (!*s) return n ? n : -1;
    char* e;
    if (*f == 'f') { double v = strtod(s, &e); if (e == s) return n; if (l) *va_arg(ap, double*) = v; else *va_arg(ap, float*) = (float)v; }
    else {
      bool ng, o, a; uint64_t v = parseU(s, &e, *f == 'x' ? 16 : 10, ng, o, a); if (!a) return n;
      if (o) v = ~0ull; else if (ng) v = 0 - v;
      if (l) *va_arg(ap, uint64_t*) = v; else *va_arg(ap, uint32_t*) = (uint32_t)v;
    }
    s = e; ++n;
  }
  return n;
}
int sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int n = vscan(s, f, ap); va_end(ap); return n; }
int __isoc23_sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int n = vscan(s, f, ap); va_end(ap); return n; }
int __isoc99_sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int n = vscan(s, f, ap); va_end(ap); return n; }
struct tm* localtime_r(const time_t*, struct tm* t) { memset(t, 0, sizeof *t); t->tm_year = 100; t->tm_mday = 1; return t; }
struct tm* localtime(const time_t*) { static struct tm t; memset(&t, 0, sizeof t); t.tm_year = 100; t.tm_mday = 1; return &t; }
size_t strftime(char* d, size_t n, const char*, const struct tm*) { if (n < 11) return 0; memcpy(d, "2000-01-01", 11); return 10; }
int __cxa_guard_acquire(long long*);
void __cxa_guard_release(long long*);
void __cxa_guard_abort(long long*);
int pthread_once(pthread_once_t* o, void (*f)()) {
  long long* g = (long long*)o;
  if (__cxa_guard_acquire(g)) {
    try { f(); } catch (...) { __cxa_guard_abort(g); throw; }
    __cxa_guard_release(g);
  }
  return 0;
}
int nanosleep(const struct timespec*, struct timespec*) { vs_yield(); return 0; }
int usleep(unsigned) { vs_yield(); return 0; }
int clock_gettime(clockid_t, struct timespec* t) { uint64_t n = vs_clock_ns(); t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000; return 0; }
int printf(const char*, ...) { return 0; }
int puts(const char*) { return 0; }
double nan(const char*) { return __builtin_nan(""); }
int putchar(int c) { return c; }
}
