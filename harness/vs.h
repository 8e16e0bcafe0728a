// Harness interface: symbolic when executed by vsym, concrete (inputs read from a replay file) when compiled natively.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
extern "C" {
void vs_sym(void* p, size_t n, const char* name);        // n = 1,2,4,8,16: one variable; else one per byte
void vs_sym_bytes(void* p, size_t n, const char* name);  // one variable per byte
uint64_t vs_range(uint64_t lo, uint64_t hi, const char* name);
uint64_t vs_choose(uint64_t n, const char* name);        // enumerated (forked) value in [0, n)
void vs_assume(int c);
void vs_assert(int c, const char* msg);
void vs_reach(const char* label);
[[noreturn]] void vs_fail(const char* msg);
uint64_t vs_concretize(uint64_t v);
[[noreturn]] void vs_silent_end();
void vs_alloc_limit(size_t bytes);
void vs_race_check(int on);
void vs_print(const char* s, uint64_t v);
int vs_is_symbolic_run();
void vs_yield();
}
static inline uint8_t vs_u8(const char* n) { uint8_t v; vs_sym(&v, 1, n); return v; }
static inline uint16_t vs_u16(const char* n) { uint16_t v; vs_sym(&v, 2, n); return v; }
static inline uint32_t vs_u32(const char* n) { uint32_t v; vs_sym(&v, 4, n); return v; }
static inline uint64_t vs_u64(const char* n) { uint64_t v; vs_sym(&v, 8, n); return v; }
static inline double vs_f64(const char* n) { double v; vs_sym(&v, 8, n); return v; }
static inline bool vs_bool(const char* n) { return vs_choose(2, n) != 0; }
#define VS_ENTRY(f) extern "C" __attribute__((visibility("default"))) void f()
