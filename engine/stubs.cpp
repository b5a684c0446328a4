// Native definitions of the harness API: only reached from sym_setup() (never symbolic).
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include "sym.h"
static void bad(const char *f) { fprintf(stderr, "symrun: %s called natively\n", f); _exit(3); }
extern "C" {
void sym_make(void *, size_t, const char *) { bad("sym_make"); }
uint8_t sym_u8(const char *) { bad("sym_u8"); return 0; } uint16_t sym_u16(const char *) { bad("sym_u16"); return 0; } uint32_t sym_u32(const char *) { bad("sym_u32"); return 0; } uint64_t sym_u64(const char *) { bad("sym_u64"); return 0; }
int sym_choice(int, const char *) { bad("sym_choice"); return 0; } void sym_assume(int) { bad("sym_assume"); }
void sym_assert(int c, const char *m) { if (!c) bad(m); } void sym_reach(const char *) {} uint64_t sym_concretize(uint64_t v) { return v; } void sym_concretize_bytes(void *, size_t) {}
uint64_t sym_heap(void) { return 0; } int sym_fork(int c) { return c; } int sym_is_symbolic(uint64_t) { return 0; } int sym_tier() { bad("sym_tier"); return 0; } void sym_ok() { bad("sym_ok"); } void sym_print(const char *m, uint64_t v) { fprintf(stderr, "[setup] %s %llx\n", m, (unsigned long long)v); } void sym_pin_iostream(int) {} void sym_lazy_pointers(int) {}
}
