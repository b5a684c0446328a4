// Native replay: runs one harness entry against the natively compiled library with concrete inputs.
//   replay LIB HARNESS ENTRY INPUTS TIER
// exit 0 completed, 10 assertion failed, 11 uncaught exception, 12 assumption not met, 13 input mismatch, signal = crash
#include <dlfcn.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <fstream>
#include <exception>
#include <typeinfo>
#include <unistd.h>
#include <sys/wait.h>
#include <stdint.h>
static std::string labels; static std::vector<std::pair<std::string, uint64_t>> in; static size_t pos; static int tier;
static uint64_t next(const std::string &n) { if (pos >= in.size()) { pos++; return 0; } if (in[pos].first != n) { fprintf(stderr, "REPLAY-MISMATCH %s vs %s\n", n.c_str(), in[pos].first.c_str()); _exit(13); } return in[pos++].second; }
// live heap bytes, counted by interposing the allocator
#include <malloc.h>
static uint64_t heap_live;
extern "C" {
void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t);
void *malloc(size_t n) { void *p = __libc_malloc(n); if (p) heap_live += malloc_usable_size(p); return p; }
void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); if (p) heap_live += malloc_usable_size(p); return p; }
void free(void *p) { if (p) heap_live -= malloc_usable_size(p); __libc_free(p); }
void *realloc(void *p, size_t n) { if (p) heap_live -= malloc_usable_size(p); void *q = __libc_realloc(p, n); if (q) heap_live += malloc_usable_size(q); return q; }
}
extern "C" {
void sym_make(void *p, size_t n, const char *name) { for (size_t i = 0; i < n; i++) ((uint8_t *)p)[i] = (uint8_t)next(std::string(name) + "[" + std::to_string(i) + "]"); }
uint8_t sym_u8(const char *n) { return next(n); } uint16_t sym_u16(const char *n) { return next(n); } uint32_t sym_u32(const char *n) { return next(n); } uint64_t sym_u64(const char *n) { return next(n); }
int sym_choice(int, const char *n) { return (int)next(n); }
void sym_assume(int c) { if (!c) { printf("ASSUMPTION-NOT-MET\n"); fflush(stdout); _exit(12); } }
void sym_assert(int c, const char *m) { if (!c) { printf("ASSERT-FAILED %s\n", m); fflush(stdout); _exit(10); } }
void sym_reach(const char *l) { labels += std::string(l) + ";"; } uint64_t sym_concretize(uint64_t v) { return v; } void sym_concretize_bytes(void *, size_t) {} int sym_fork(int c) { return c != 0; } int sym_is_symbolic(uint64_t) { return 0; }
uint64_t sym_heap(void) { return heap_live; } int sym_tier() { return tier; } void sym_ok() { printf("COMPLETED %s\n", labels.c_str()); fflush(stdout); _exit(0); } void sym_print(const char *m, uint64_t v) { fprintf(stderr, "[guest] %s %llx\n", m, (unsigned long long)v); } void sym_pin_iostream(int) {} void sym_lazy_pointers(int) {}
}
static void one(void *h, const char *entry, const char *file) {
  std::ifstream f(file); std::string s; while (std::getline(f, s)) { size_t t = s.rfind('\t'); if (t == std::string::npos) continue; in.push_back({s.substr(0, t), strtoull(s.c_str() + t + 1, nullptr, 16)}); }
  auto m = (void (*)())dlsym(h, (std::string("sym_main_") + entry).c_str()); if (!m) _exit(3);
  try { m(); } catch (const std::exception &e) { printf("UNCAUGHT %s: %s\n", typeid(e).name(), e.what()); fflush(stdout); _exit(11); } catch (...) { printf("UNCAUGHT\n"); fflush(stdout); _exit(11); }
  sym_ok();
}
int main(int argc, char **argv) {
  void *l = dlopen(argv[1], RTLD_NOW | RTLD_GLOBAL); if (!l) { fprintf(stderr, "%s\n", dlerror()); return 3; }
  void *h = dlopen(argv[2], RTLD_NOW | RTLD_GLOBAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); return 3; }
  tier = argc > 5 ? atoi(argv[5]) : 0;
  if (auto setup = (void (*)())dlsym(h, "sym_setup")) setup();
  if (!strcmp(argv[3], "--batch")) {   // each line: entry TAB inputs-file; one forked process per line
    std::ifstream b(argv[4]); std::string l; int i = 0;
    while (std::getline(b, l)) {
      size_t t = l.find('\t'); printf("CASE %d\n", i++); fflush(stdout);
      pid_t p = fork(); if (p == 0) { alarm(30); one(h, l.substr(0, t).c_str(), l.substr(t + 1).c_str()); }
      int st = 0; waitpid(p, &st, 0); if (WIFSIGNALED(st)) printf("\nSIGNAL %d\n", WTERMSIG(st)); else printf("\nEXIT %d\n", WEXITSTATUS(st)); fflush(stdout);
    }
    return 0;
  }
  one(h, argv[3], argv[4]);
}
