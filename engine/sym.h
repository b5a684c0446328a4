// Harness interface. Interpreted by symrun (inputs symbolic) or linked natively (inputs from a replay file).
#pragma once
#include <stddef.h>
#include <stdint.h>
extern "C" {
void sym_make(void *p, size_t n, const char *name);   // n fresh symbolic bytes at p
uint8_t sym_u8(const char *name);
uint16_t sym_u16(const char *name);
uint32_t sym_u32(const char *name);
uint64_t sym_u64(const char *name);
int sym_choice(int n, const char *name);              // every value in [0,n), explored separately
void sym_assume(int c);
void sym_assert(int c, const char *msg);
void sym_reach(const char *label);                    // reachability witness (vacuity guard)
uint64_t sym_concretize(uint64_t v);                  // case-split on every feasible value
void sym_concretize_bytes(void *p, size_t n);
int sym_fork(int c);                                  // decide the condition now
int sym_is_symbolic(uint64_t v);
int sym_tier();
void sym_ok();
void sym_print(const char *msg, uint64_t v);
void sym_pin_iostream(int on);
void sym_lazy_pointers(int on);                       // pointers read from memory stay symbolic until used
uint64_t sym_heap(void);                              // bytes of live heap memory
}
#define SYM_ENTRY(name) extern "C" __attribute__((noinline, used)) void sym_main_##name()
static inline double sym_f64(const char *n) { uint64_t x = sym_u64(n); double d; __builtin_memcpy(&d, &x, 8); return d; }
static inline float sym_f32(const char *n) { uint32_t x = sym_u32(n); float d; __builtin_memcpy(&d, &x, 4); return d; }
