// Guest heap/stack arena with addressability map, plus the symbolic byte shadow.
#pragma once
#include "expr.h"
static const u64 ARENA = 0x200000000000ull, ARENA_SIZE = 64ull << 30, STK_SIZE = 256ull << 20;
static const u64 ASH = 0x220000000000ull;          // 1 byte per 8 bytes of arena
extern int g_guest;
extern bool g_reuse;                                // allocations go to the arena
extern u64 g_heap_ptr, g_heap_live, g_heap_allocs;
void mem_init();
inline bool in_arena(u64 a) { return a - ARENA < ARENA_SIZE; }
u64 arena_alloc(u64 n, u64 align = 16);
void arena_free(u64 p, const char **err);           // err set on invalid/double free
u64 arena_size(u64 p);
struct ObjInfo { u64 base, size; bool live; };
bool arena_object(u64 addr, ObjInfo &o);            // object containing (or nearest below) addr
// true when [a,a+n) is addressable (always true outside of the arena)
bool range_ok(u64 a, u64 n);
inline bool access_ok(u64 a, unsigned n) {
  if (!in_arena(a)) return true;
  const u8 *s = (const u8 *)(ASH + ((a - ARENA) >> 3)); unsigned off = a & 7;
  if (off + n <= 8) return *s <= 8 && off + n <= *s;
  return range_ok(a, n);
}
void stack_obj(u64 hdr, u64 n);                     // place header at hdr, object at hdr+16
void stack_clear(u64 lo, u64 hi);                   // poison
// ---- symbolic shadow
struct SBlock { u64 key; u32 count; u8 idx[256]; Expr *e[256]; };
extern u8 sfilt[1 << 16];
inline bool sh_maybe(u64 a) { return sfilt[(a >> 8) & 0xffff]; }
Expr *sh_get(u64 a, unsigned &idx);                 // drops stale entries
void sh_set(u64 a, Expr *e, unsigned idx);
void sh_clear(u64 a, u64 n);
void sh_copy(u64 dst, u64 src, u64 n);              // call before the concrete bytes move; memmove semantics
bool sh_any(u64 a, u64 n);
Expr *sh_byte(u64 a);                               // expression for one byte (const when concrete)
Expr *sh_load(u64 a, unsigned n);                   // nullptr when fully concrete
void sh_store(u64 a, unsigned n, Expr *e);          // e has width 8n
void sh_drop_stale();
void sh_refresh();                                  // rewrite memory under the new model
u64 sh_count();
