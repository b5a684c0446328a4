//@property C29
//@bound tuples of 0 to 4 children, dense and sparse types, nested to depth two; children of every 64-bit alignment and the built-in types
//@bound histories of up to 6 references taken and dropped; every initial 64-bit count
//@assume a type borrows its parameters; types over types that are released earlier are outside
//@entry tuples reach=ok
//@entry wrapped reach=ok
//@entry nested reach=ok
//@entry counts reach=last,kept
//@entry history reach=released,kept
//@entry buffers reach=ok
//@entry primitives reach=ok
#include "common.h"
extern "C" {
#include <dynd/abi/types/dense.h>
#include <dynd/abi/types/primitive.h>
#include <dynd/abi/types/sparse.h>
#include <dynd/abi/types/tuple.h>
}
// A child type of the caller's own, of a given alignment.
struct Child { dynd_type t; dynd_size_t align; dynd_type_vtable v; };
static int released; static void on_release(dynd_resource *) noexcept { released++; }
static size_t child_align(dynd_type_header *h) noexcept { return ((Child *)((char *)h - offsetof(dynd_type, header)))->align; }
static void child(Child &c, dynd_size_t align) { memset(&c, 0, sizeof c); c.align = align; c.t.header.vtable = &c.v; c.v.entries.alignment = child_align; c.v.entries.parameters = dynd_type_range_empty; c.v.entries.superclasses = dynd_type_range_empty; c.t.refcount.resource.release = on_release; dynd_atomic_store(&c.t.refcount.refcount, (dynd_size_t)1, dynd_memory_order_relaxed); }
static dynd_size_t align_of(dynd_type *t) { return t->header.vtable->entries.alignment(&t->header); }
static dynd_type_range params(dynd_type *t) { return t->header.vtable->entries.parameters(&t->header); }
static dynd_type *make(dynd_type_constructor &c, dynd_type **b, int n) { return c.header.vtable->entries.make(&c.header, dynd_type_range{b, b + n}); }
static dynd_size_t count(dynd_type *t) { return dynd_atomic_load(&t->refcount.refcount, dynd_memory_order_relaxed); }
static struct { const char *name; dynd_type *t; dynd_size_t size, align; } P[] = {{"float16", &dynd_type_float16, 2, 2}, {"float32", &dynd_type_float32, 4, 4}, {"float64", &dynd_type_float64, 8, 8}, {"uint8", &dynd_type_uint8, 1, 1}, {"uint16", &dynd_type_uint16, 2, 2}, {"uint32", &dynd_type_uint32, 4, 4}, {"uint64", &dynd_type_uint64, 8, 8}, {"int8", &dynd_type_int8, 1, 1}, {"int16", &dynd_type_int16, 2, 2}, {"int32", &dynd_type_int32, 4, 4}, {"int64", &dynd_type_int64, 8, 8}, {"size_t", &dynd_type_size_t, sizeof(dynd_size_t), alignof(dynd_size_t)}};
static void made(dynd_type *t, dynd_type_constructor &c, dynd_type **kids, int n, const char *what) {
  dynd_type_range r = params(t), s = t->header.vtable->entries.superclasses(&t->header); sym_assert(r.end - r.begin == n, msg(what, ": another number of parameters")); if (r.end - r.begin != n) return; bool ok = true; for (int i = 0; i < n; i++) ok &= r.begin[i] == kids[i]; sym_assert(ok, msg(what, ": other parameters")); sym_assert(s.begin == s.end, msg(what, ": has superclasses")); sym_assert(t->header.constructor == &c, msg(what, ": another constructor")); sym_assert(count(t) == 1, msg(what, ": is not made with one reference")); sym_assert(t->header.allocated.base_ptr == t, msg(what, ": another allocation"));
}
extern "C" void sym_setup() { dynd_type *k[1] = {&dynd_type_int8}; dynd_decref(&make(dynd_type_tuple, k, 1)->refcount); }
SYM_ENTRY(tuples) {
  int n = sym_choice(5, "n"); Child c[4]; dynd_type *k[5], *g[5]; dynd_size_t want = 1; for (int i = 0; i < n; i++) { int w = sym_choice(3, "child"); if (w < 2) { dynd_size_t a = sym_u64("alignment"); sym_assume(a >= 1); child(c[i], a); k[i] = &c[i].t; want = a > want ? a : want; } else { int p = sym_choice(n > 2 ? 3 : 12, "primitive"); k[i] = P[p].t; want = P[p].align > want ? P[p].align : want; } if (w == 1 && i) k[i] = k[i - 1]; g[i] = k[i]; }
  want = 1; for (int i = 0; i < n; i++) { dynd_size_t a = align_of(k[i]); want = a > want ? a : want; }
  uint64_t h0 = sym_heap(); dynd_type *t = make(dynd_type_tuple, g, n); for (int i = 0; i < n; i++) g[i] = nullptr; made(t, dynd_type_tuple, k, n, "tuple"); sym_assert(align_of(t) == want, "the alignment of a tuple is not the strictest of its parameters"); dynd_decref(&t->refcount); sym_assert(sym_heap() == h0, "a tuple is not released"); sym_reach("ok");
}
SYM_ENTRY(wrapped) {
  int f = sym_choice(2, "form"), p = sym_choice(13, "child"); Child c; dynd_type *k[2], *g[1]; dynd_size_t a; if (p < 12) { k[0] = P[p].t; a = P[p].align; } else { a = sym_u64("alignment"); child(c, a); k[0] = &c.t; } g[0] = k[0]; dynd_type_constructor &q = f ? dynd_type_sparse : dynd_type_dense; const char *w = f ? "sparse" : "dense";
  uint64_t h0 = sym_heap(); dynd_type *t = make(q, g, 1); g[0] = nullptr; made(t, q, k, 1, w); sym_assert(align_of(t) == a, msg(w, ": the alignment is not that of its parameter")); dynd_decref(&t->refcount); sym_assert(sym_heap() == h0, msg(w, ": is not released")); sym_reach("ok");
}
SYM_ENTRY(nested) {
  Child c[2]; dynd_size_t a = sym_u64("a"), b = sym_u64("b"); sym_assume((a >= 1) & (b >= 1)); child(c[0], a); child(c[1], b); dynd_type *in[2] = {&c[0].t, &c[1].t}, *mid[2], *top; int f = sym_choice(3, "inner"), g = sym_choice(3, "outer"), swap = sym_choice(2, "order"); uint64_t h0 = sym_heap(); dynd_type_constructor *C[] = {&dynd_type_tuple, &dynd_type_dense, &dynd_type_sparse};
  dynd_type *i = make(*C[f], in, f ? 1 : 2); mid[swap] = i; mid[!swap] = &c[1].t; dynd_type **m = g ? &mid[swap] : mid; int n = g ? 1 : 2; top = make(*C[g], m, n); made(top, *C[g], m, n, "a type of types"); dynd_size_t w = f ? a : a > b ? a : b; if (!g && b > w) w = b; sym_assert(align_of(top) == w, "the alignment of a type of types is not the strictest one");
  dynd_decref(&top->refcount); sym_assert(align_of(i) == (f ? a : a > b ? a : b), "a parameter changes when its user is released"); dynd_decref(&i->refcount); sym_assert(sym_heap() == h0, "nested types are not released"); sym_assert(released == 0, "a borrowed parameter is released"); sym_reach("ok");
}
SYM_ENTRY(counts) { // any count
  Child c; child(c, 1); dynd_size_t n = sym_u64("count"); sym_assume(n >= 1); dynd_atomic_store(&c.t.refcount.refcount, n, dynd_memory_order_relaxed); released = 0; int up = sym_choice(2, "up");
  if (up) { dynd_incref(&c.t.refcount); sym_assert(count(&c.t) == n + 1, "taking a reference does not count it"); sym_assert(!released, "taking a reference releases"); sym_reach("kept"); } else { dynd_decref(&c.t.refcount); if (sym_fork(n == 1)) { sym_assert(released == 1, "the last reference does not release"); sym_reach("last"); } else { sym_assert(released == 0, "dropping one of several references releases"); sym_assert(count(&c.t) == n - 1, "dropping a reference does not count it"); sym_reach("kept"); } }
}
SYM_ENTRY(history) {
  dynd_type *k[2] = {&dynd_type_int32, &dynd_type_float64}; int f = sym_choice(3, "type"), refs = 1; uint64_t h0 = sym_heap(); dynd_type_constructor *C[] = {&dynd_type_tuple, &dynd_type_dense, &dynd_type_sparse}; dynd_type *t = make(*C[f], k, f ? 1 : 2); uint64_t h1 = sym_heap(); sym_assert(h1 != h0, "a type is made without memory");
  for (int i = 0; i < 6 && refs; i++) { if (sym_choice(2, "drop")) { dynd_decref(&t->refcount); refs--; } else { dynd_incref(&t->refcount); refs++; } if (refs) { sym_assert(sym_heap() == h1, "a type is released while it is in use"); sym_assert(count(t) == (dynd_size_t)refs, "another number of references"); sym_assert(align_of(t) == (f ? 4 : 8), "a type in use changes"); } }
  if (!refs) { sym_assert(sym_heap() == h0, "a type is not released with its last reference"); sym_reach("released"); } else { sym_reach("kept"); while (refs--) dynd_decref(&t->refcount); sym_assert(sym_heap() == h0, "a type is not released in the end"); }
}
SYM_ENTRY(buffers) {
  static const dynd_size_t S[] = {24, 25, 32, 40, 100, 4096}; dynd_size_t n = S[sym_choice(6, "size")]; uint64_t h0 = sym_heap(); dynd_buffer *b = dynd_malloc_buffer(n); sym_assert(b->allocated.base_ptr == b && b->allocated.size == n, "a buffer does not know its memory"); char *p = (char *)(b + 1); for (dynd_size_t i = 0; i < n - sizeof(dynd_buffer); i++) p[i] = (char)i; b->resource.release(&b->resource); sym_assert(sym_heap() == h0, "a buffer is not released"); sym_reach("ok");
}
SYM_ENTRY(primitives) {
  int p = sym_choice(12, "type"); dynd_type *t = P[p].t; auto *m = (dynd_type_primitive_typemeta *)dynd_type_metadata(&t->header); sym_assert(m->size == P[p].size && m->alignment == P[p].align && align_of(t) == P[p].align, msg("another size or alignment: ", P[p].name)); dynd_type_range r = params(t), s = t->header.vtable->entries.superclasses(&t->header); sym_assert(r.begin == r.end && s.begin == s.end, msg("has parameters: ", P[p].name)); dynd_size_t n = count(t); dynd_incref(&t->refcount); dynd_decref(&t->refcount); sym_assert(count(t) == n, msg("a reference is not counted: ", P[p].name)); sym_reach("ok");
}
