#include "mem.h"
#include <sys/mman.h>
#include <cstdio>
#include <cstdlib>
#include <cerrno>
#include <unistd.h>
#include <new>
#include <vector>
#include <cstring>

int g_guest = 0;
u64 g_heap_ptr, g_heap_live, g_heap_allocs;
static bool inited;
static inline u8 *ash(u64 a) { return (u8 *)(ASH + ((a - ARENA) >> 3)); }
static const u64 MAGIC_LIVE = 0x4c49564541524e41ull, MAGIC_FREE = 0x4652454541524e41ull;

void mem_init() {
  if (inited) return;
  void *p = mmap((void *)ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  void *q = mmap((void *)ASH, ARENA_SIZE / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  if (p == MAP_FAILED || q == MAP_FAILED) { perror("mmap arena"); _exit(3); }
  g_heap_ptr = ARENA + STK_SIZE; inited = true;
}
static void mark(u64 a, u64 n) { // make [a,a+n) addressable; a is 8-aligned
  u8 *s = ash(a); while (n >= 8) { *s++ = 8; n -= 8; } if (n) *s = (u8)n;
}
// while the library and the harness set up (concretely), freed blocks are used again to keep the image small
bool g_reuse = true; static u64 g_free[512];
u64 arena_alloc(u64 n, u64 align) {
  if (!inited) mem_init();
  if (n > (8ull << 30)) return 0;
  if (align < 16) align = 16;
  u64 cl = (n + 15) >> 4;
  if (g_reuse && align == 16 && cl && cl < 512 && g_free[cl]) {
    u64 p = g_free[cl]; g_free[cl] = *(u64 *)p; ((u64 *)(p - 16))[0] = n; ((u64 *)(p - 16))[1] = MAGIC_LIVE; mark(p, n); g_heap_live += n; g_heap_allocs++; return p;
  }
  u64 p = (g_heap_ptr + 16 + align - 1) & ~(align - 1);
  u64 h = p - 16;
  ((u64 *)h)[0] = n; ((u64 *)h)[1] = MAGIC_LIVE;
  *ash(h) = 0xFE; *ash(h + 8) = 0xFD;
  mark(p, n);
  g_heap_ptr = ((p + n + 15) & ~15ull) + 16;
  if (g_heap_ptr > ARENA + ARENA_SIZE) { fprintf(stderr, "arena exhausted\n"); _exit(3); }
  g_heap_live += n; g_heap_allocs++;
  return p;
}
void arena_free(u64 p, const char **err) {
  *err = nullptr;
  if ((p & 15) || *ash(p - 16) != 0xFE || ((u64 *)(p - 16))[1] != MAGIC_LIVE) {
    *err = (!(p & 15) && *ash(p - 16) == 0xFE && ((u64 *)(p - 16))[1] == MAGIC_FREE) ? "double free" : "free of a pointer that is not an allocation"; return; }
  u64 n = ((u64 *)(p - 16))[0]; ((u64 *)(p - 16))[1] = MAGIC_FREE;
  memset(ash(p), 0xFB, (n + 7) / 8);
  sh_clear(p, n); g_heap_live -= n;
  u64 cl = (n + 15) >> 4; if (g_reuse && cl && cl < 512) { *(u64 *)p = g_free[cl]; g_free[cl] = p; }
}
u64 arena_size(u64 p) { return ((u64 *)(p - 16))[0]; }
bool arena_object(u64 a, ObjInfo &o) {
  if (!in_arena(a)) return false;
  u64 h = a & ~7ull; 
  for (int i = 0; i < (1 << 24); i++, h -= 8) {
    if (h < ARENA) return false;
    if (*ash(h) == 0xFE) { o.base = h + 16; o.size = ((u64 *)h)[0]; o.live = ((u64 *)h)[1] == MAGIC_LIVE; return true; }
  }
  return false;
}
bool range_ok(u64 a, u64 n) {
  if (!in_arena(a) || n == 0) return true;
  u64 e = a + n;
  while (a < e) {
    unsigned off = a & 7; u64 m = e - a < 8 - off ? e - a : 8 - off; u8 s = *ash(a);
    if (s > 8 || off + m > s) return false; a += m;
  }
  return true;
}
void stack_obj(u64 h, u64 n) {
  ((u64 *)h)[0] = n; ((u64 *)h)[1] = MAGIC_LIVE; *ash(h) = 0xFE; *ash(h + 8) = 0xFD; mark(h + 16, n);
}
void stack_clear(u64 lo, u64 hi) { if (hi > lo) { memset(ash(lo), 0xFC, (hi - lo + 7) >> 3); sh_clear(lo, hi - lo); } }

// ------------------------------------------------------------- symbolic shadow
u8 sfilt[1 << 16];
static std::vector<SBlock *> ht(4096, nullptr); static u64 htn = 0;
static inline u64 hk(u64 k) { k *= 0x9e3779b97f4a7c15ull; return k >> 20; }
static SBlock *find(u64 k) { for (u64 i = hk(k) & (ht.size() - 1);; i = (i + 1) & (ht.size() - 1)) { if (!ht[i]) return nullptr; if (ht[i]->key == k) return ht[i]; } }
static SBlock *get(u64 k) {
  SBlock *b = find(k); if (b) return b;
  if (htn * 2 > ht.size()) { std::vector<SBlock *> o; o.swap(ht); ht.assign(o.size() * 2, nullptr); for (SBlock *x : o) if (x) { u64 i = hk(x->key) & (ht.size() - 1); while (ht[i]) i = (i + 1) & (ht.size() - 1); ht[i] = x; } }
  b = (SBlock *)calloc(1, sizeof(SBlock)); b->key = k;
  u64 i = hk(k) & (ht.size() - 1); while (ht[i]) i = (i + 1) & (ht.size() - 1); ht[i] = b; htn++; return b;
}
static u16 fcount[1 << 16];
static inline void inc(SBlock *b) { if (b->count++ == 0) { u64 f = b->key & 0xffff; fcount[f]++; sfilt[f] = 1; } }
static inline void dec(SBlock *b) { if (--b->count == 0) { u64 f = b->key & 0xffff; if (--fcount[f] == 0) sfilt[f] = 0; } }
Expr *sh_get(u64 a, unsigned &idx) {
  if (!sh_maybe(a)) return nullptr;
  SBlock *b = find(a >> 8); if (!b || !b->count) return nullptr;
  Expr *e = b->e[a & 255]; if (!e) return nullptr;
  idx = b->idx[a & 255];
  if ((u8)(eval(e) >> (8 * idx)) != *(u8 *)a) { b->e[a & 255] = nullptr; dec(b); return nullptr; }
  return e;
}
void sh_set(u64 a, Expr *e, unsigned idx) {
  SBlock *b = get(a >> 8); unsigned o = a & 255; if (!b->e[o]) inc(b); b->e[o] = e; b->idx[o] = (u8)idx;
}
void sh_clear(u64 a, u64 n) {
  u64 e = a + n;
  while (a < e) {
    u64 be = (a | 255) + 1; if (be > e) be = e;
    if (sh_maybe(a)) { SBlock *b = find(a >> 8); if (b && b->count) for (; a < be; a++) if (b->e[a & 255]) { b->e[a & 255] = nullptr; dec(b); } }
    a = be;
  }
}
bool sh_any(u64 a, u64 n) {
  u64 e = a + n;
  while (a < e) {
    u64 be = (a | 255) + 1; if (be > e) be = e;
    if (sh_maybe(a)) { SBlock *b = find(a >> 8); if (b && b->count) for (; a < be; a++) { unsigned i; if (b->e[a & 255] && sh_get(a, i)) return true; } }
    a = be;
  }
  return false;
}
void sh_copy(u64 d, u64 s, u64 n) {
  if (d == s) return;
  if (!sh_any(s, n)) { sh_clear(d, n); return; }
  std::vector<std::pair<Expr *, unsigned>> t(n);
  for (u64 i = 0; i < n; i++) { unsigned x = 0; Expr *e = sh_get(s + i, x); t[i] = {e, x}; }
  sh_clear(d, n);
  for (u64 i = 0; i < n; i++) if (t[i].first) sh_set(d + i, t[i].first, t[i].second);
}
static Expr *byteof(Expr *e, unsigned i) { return mkextract(e, 8 * i, 8); }
Expr *sh_byte(u64 a) { unsigned i; Expr *e = sh_get(a, i); return e ? byteof(e, i) : mkconst(*(u8 *)a, 8); }
Expr *sh_load(u64 a, unsigned n) {
  if (!sh_maybe(a) && !sh_maybe(a + n - 1)) return nullptr;
  Expr *es[32]; unsigned ix[32]; bool any = false; bool same = true;
  for (unsigned i = 0; i < n; i++) { es[i] = sh_get(a + i, ix[i]); if (es[i]) any = true; if (!es[i] || es[i] != es[0] || ix[i] != ix[0] + i) same = false; }
  if (!any) return nullptr;
  if (same) return mkextract(es[0], 8 * ix[0], 8 * n);
  Expr *r = nullptr;
  for (unsigned i = 0; i < n;) {
    unsigned j = i + 1; Expr *p;
    if (es[i]) { while (j < n && es[j] == es[i] && ix[j] == ix[i] + (j - i)) j++; p = mkextract(es[i], 8 * ix[i], 8 * (j - i)); }
    else { while (j < n && !es[j]) j++; u128 v = 0; for (unsigned k = i; k < j; k++) v |= (u128)*(u8 *)(a + k) << (8 * (k - i)); p = mkconst(v, 8 * (j - i)); }
    r = r ? mkconcat(p, r) : p; i = j;
  }
  return isc(r) ? nullptr : r;
}
void sh_store(u64 a, unsigned n, Expr *e) {
  // keep constant bytes concrete
  for (unsigned i = 0; i < n; i++) {
    Expr *b = e; (void)b;
    sh_set(a + i, e, i);
  }
  if (e->op == Op::Concat || e->op == Op::ZExt) for (unsigned i = 0; i < n; i++) if (isc(byteof(e, i))) sh_clear(a + i, 1);
}
void sh_drop_stale() { for (SBlock *b : ht) if (b && b->count) for (unsigned i = 0; i < 256; i++) if (b->e[i]) { unsigned x; sh_get((b->key << 8) + i, x); } }
void sh_refresh() { for (SBlock *b : ht) if (b && b->count) for (unsigned i = 0; i < 256; i++) if (b->e[i]) *(u8 *)((b->key << 8) + i) = (u8)(eval(b->e[i]) >> (8 * b->idx[i])); }
u64 sh_count() { u64 n = 0; for (SBlock *b : ht) if (b) n += b->count; return n; }

// ------------------------------------------------------------- allocation interposition
extern "C" {
void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t);
void guest_bad_free(void *p, const char *why);
void *malloc(size_t n) { if (g_guest) { void *p = (void *)arena_alloc(n); if (!p) errno = ENOMEM; else memset(p, 0xA5, n); return p; } return __libc_malloc(n); }
void free(void *p) { if (!p) return; if (in_arena((u64)p)) { const char *e; arena_free((u64)p, &e); if (e) guest_bad_free(p, e); return; } __libc_free(p); }
void *calloc(size_t a, size_t b) { if (g_guest) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr; void *p = (void *)arena_alloc(n); if (p) memset(p, 0, n); return p; } return __libc_calloc(a, b); }
void *realloc(void *p, size_t n) {
  if (p && in_arena((u64)p)) { if (n == 0) { free(p); return nullptr; } u64 q = arena_alloc(n); if (!q) return nullptr; u64 o = arena_size((u64)p); if (o > n) o = n; if (n > o) memset((char *)q + o, 0xA5, n - o); sh_copy(q, (u64)p, o); memcpy((void *)q, p, o); free(p); return (void *)q; }
  if (!p) return malloc(n);
  return __libc_realloc(p, n);
}
void *memalign(size_t a, size_t n) { if (g_guest) return (void *)arena_alloc(n, a); return __libc_memalign(a, n); }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **r, size_t a, size_t n) { void *p = memalign(a, n); if (!p) return ENOMEM; *r = p; return 0; }
}
static void *xnew(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n) { return xnew(n); }
void *operator new[](size_t n) { return xnew(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return malloc(n ? n : 1); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return malloc(n ? n : 1); }
void *operator new(size_t n, std::align_val_t a) { return memalign((size_t)a, n); }
void *operator new[](size_t n, std::align_val_t a) { return memalign((size_t)a, n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
void operator delete(void *p, std::align_val_t) noexcept { free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { free(p); }
