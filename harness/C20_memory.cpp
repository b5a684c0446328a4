//@property C20
//@bound histories of up to three operations (four at depth) of allocation, growing or shrinking the last one, and reset, of 0 to 5 elements each (seven at depth) in blocks of an initial capacity of 3 elements, for plain, zero-initialized and object memory of six element types, every content
//@bound JSON lists read into variable-sized dimensions of six element types at 16 lengths around every growth of the memory up to 1100 elements, alone and after another list, and nested lists
//@entry plain reach=ok
//@entry zeroed reach=ok
//@entry objects reach=ok
//@entry lists reach=ok
//@entry nested reach=ok
//@entry refused reach=threw
#include "num.h"
#include <dynd/memory_block.hpp>
#include <dynd/memblock/pod_memory_block.hpp>
#include <dynd/memblock/zeroinit_memory_block.hpp>
#include <dynd/memblock/objectarray_memory_block.hpp>
#include <dynd/types/string_type.hpp>
#include <dynd/types/var_dim_type.hpp>
#include <dynd/json_parser.hpp>
#include <string>
typedef unsigned char u8; typedef uintptr_t up; typedef ndt::var_dim_type VD;
static ndt::type T(const char *s) { return ndt::type(std::string(s)); }
static const char *const OT[] = {"string", "{x: string, y: int32}", "bytes", "2 * string", "(int8, string)", "?string"}; static ndt::type ot[6];
static const char *const LT[] = {"var * int32", "var * string", "var * {x: string, y: int32}", "var * ?int32", "var * ?string", "var * (int8, string)"}; static ndt::type lt_[6], vvs, vvi, vsi;
static nd::array keep[6]; static const char *const PT[] = {"int8", "int32", "complex[float64]", "3 * int16"}; static ndt::type pt[4];
extern "C" void sym_setup() { num_setup(); for (int i = 0; i < 4; i++) pt[i] = T(PT[i]); for (int i = 0; i < 6; i++) { ot[i] = T(OT[i]); lt_[i] = T(LT[i]); keep[i] = nd::empty(ot[i]); nd::array a = nd::empty(lt_[i]), c = nd::empty(lt_[i]); parse_json(a, i == 0 || i == 3 ? "[1, 2]" : i == 2 ? "[{\"x\": \"a\", \"y\": 1}]" : i == 5 ? "[[1, \"a\"]]" : "[\"a\"]"); c.assign(a); c(0); } vvs = T("var * var * string"); vvi = T("var * var * int16"); vsi = T("var * {a: var * string, b: var * int32}"); }
struct Piece { char *p; size_t n; u8 c; };
// A history on one block; put and check fill and compare one element, z says that new elements are zero.
template <class PUT, class CHECK, class ZERO> static void history(nd::base_memory_block &b, size_t size, size_t align, PUT put, CHECK check, ZERO zero) {
  Piece live[8]; int n = 0, ops = sym_tier() ? 4 : 3, mx = sym_tier() ? 8 : 6; 
  for (int o = 0; o < ops; o++) {
    int w = sym_choice(n ? 3 : 1, "operation"); size_t old = 0; Piece q;
    if (w == 2) { b.reset(); n = 0; continue; }
    size_t k = sym_choice(mx, "count"); if (w == 0) { q.p = b.alloc(k); live[n].c = 0; } else { q = live[--n]; old = q.n; q.p = b.resize(q.p, k); }
    q.n = k; sym_assert((up)q.p % align == 0, "memory is not aligned");
    for (int i = 0; i < n; i++) sym_assert(!k || !live[i].n || q.p + k * size <= live[i].p || live[i].p + live[i].n * size <= q.p, "two allocations share memory");
    for (size_t i = 0; i < old && i < k; i++) sym_assert(check(q.p + i * size, q.c, i), "an element changes when its memory grows or shrinks");
    for (size_t i = old; i < k; i++) { sym_assert(zero(q.p + i * size), "new memory is not cleared"); }
    if (w == 0) q.c = sym_u8("content"); for (size_t i = old; i < k; i++) put(q.p + i * size, q.c, i);
    live[n++] = q; for (int i = 0; i < n; i++) for (size_t j = 0; j < live[i].n; j++) sym_assert(check(live[i].p + j * size, live[i].c, j), "an element of another allocation changes");
  }
}
static const int SZ[] = {1, 4, 16, 6}, AL[] = {1, 4, 8, 2};
static void raw(bool z) {
  int t = sym_choice(4, "element"); size_t s = SZ[t]; uint64_t h0 = sym_heap();
  { nd::memory_block m = z ? nd::make_memory_block<nd::zeroinit_memory_block>(pt[t], (intptr_t)(3 * s)) : nd::make_memory_block<nd::pod_memory_block>(pt[t], (intptr_t)(3 * s));
    history(*m, s, AL[t], [s](char *p, u8 c, size_t i) { for (size_t j = 0; j < s; j++) p[j] = (char)(c + i * 16 + j); }, [s](const char *p, u8 c, size_t i) { bool ok = true; for (size_t j = 0; j < s; j++) ok &= p[j] == (char)(c + i * 16 + j); return ok; }, [s, z](const char *p) { bool ok = true; if (z) for (size_t j = 0; j < s; j++) ok &= p[j] == 0; return ok; }); }
  sym_assert(sym_heap() == h0, "memory is not released"); sym_reach("ok");
}
SYM_ENTRY(plain) { raw(false); }
SYM_ENTRY(zeroed) { raw(true); }
static int strs_in(int t, int k) { (void)k; return t == 3 ? 2 : 1; }
static dynd::string *str(int t, char *p, int k) { return (dynd::string *)(p + (t == 4 ? 8 : t == 3 ? 16 * k : 0)); }
SYM_ENTRY(objects) {
  int t = sym_choice(sym_tier() ? 6 : 5, "type"); size_t s = ot[t].extended()->get_default_data_size(); uint64_t h0 = sym_heap();
  { nd::memory_block m = nd::make_memory_block<nd::objectarray_memory_block>(ot[t], keep[t]->metadata(), (intptr_t)s, (intptr_t)3);
    auto put = [t](char *p, u8 c, size_t i) { char b[40]; memset(b, 'p', 40); b[0] = (char)c; b[1] = (char)('a' + i); for (int k = 0; k < strs_in(t, 0); k++) { int n = i % 3 == 2 ? 3 : 24 + k; if (t == 2) ((dynd::bytes *)p)->assign(b, n); else str(t, p, k)->assign(b, n); } if (t == 1) *(int *)(p + 16) = c + (int)i; if (t == 4) *p = (char)c; };
    auto check = [t](char *p, u8 c, size_t i) { bool ok = true; for (int k = 0; k < strs_in(t, 0); k++) { size_t n = i % 3 == 2 ? 3 : 24 + k; auto *q = str(t, p, k); if (q->size() != n) return false; const char *d = q->data(); ok &= d[0] == (char)c; ok &= d[1] == (char)('a' + i); for (size_t j = 2; j < n; j++) ok &= d[j] == 'p'; } if (t == 1) ok &= *(int *)(p + 16) == c + (int)i; if (t == 4) ok &= *p == (char)c; return ok; };
    auto zero = [s](const char *p) { for (size_t j = 0; j < s; j++) if (p[j]) return false; return true; };
    size_t al = ot[t].get_data_alignment(); history(*m, s, al, put, check, zero); }
  sym_assert(sym_heap() == h0, "memory is not released"); sym_reach("ok");
}
static const int LEN[] = {0, 1, 7, 8, 9, 16, 17, 32, 33, 63, 64, 65, 66, 129, 513, 1100};
static std::string elem(int t, int i, const char *d) { std::string n = std::to_string(i % 97), s = "\"" + std::string(d, 2) + (i % 3 ? "a text which needs the heap" : "") + n + "\""; return t == 0 ? n : t == 1 || t == 4 ? (t == 4 && i % 5 == 4 ? "null" : s) : t == 2 ? "{\"x\": " + s + ", \"y\": " + n + "}" : t == 3 ? (i % 5 == 4 ? "null" : n) : "[" + n + ", " + s + "]"; }
static bool is_elem(int t, int i, const char *p, const char *d) {
  int n = i % 97; if (t == 0) return *(int *)p == n; if (t == 3) return *(int *)p == (i % 5 == 4 ? (int)0x80000000 : n); if (t == 2 && *(int *)(p + 16) != n) return false; if (t == 5 && *p != (char)n) return false; auto *s = (const dynd::string *)(p + (t == 5 ? 8 : 0)); if (t == 4 && i % 5 == 4) return s->size() == 0; std::string w = (i % 3 ? "a text which needs the heap" : "") + std::to_string(n); if (s->size() != w.size() + 2) return false; bool ok = s->data()[0] == d[0]; ok &= s->data()[1] == d[1]; return ok && !memcmp(s->data() + 2, w.data(), w.size());
}
static void text2(char *d) { for (int i = 0; i < 2; i++) d[i] = (char)(48 + (sym_u8("text") & 63)), sym_assume(d[i] != '\\'); }
SYM_ENTRY(lists) {
  int t = sym_choice(6, "type"), n = LEN[sym_choice(sym_tier() ? 16 : t == 0 || t == 3 ? 15 : 13, "length")]; if (!sym_tier() && t > 3 && n > 17 && n < 64) return; uint64_t h0 = sym_heap();
  { nd::array a = nd::empty(lt_[t]); char d[2]; text2(d); { std::string s = "["; for (int i = 0; i < n; i++) { if (i) s += ','; s += elem(t, i, d); } s += ']'; int k = threw([&] { parse_json(a, s.data(), s.data() + s.size(), &eval::default_eval_context); }); sym_assert(!k, "a list is refused"); if (k) return; }
    auto *v = (const VD::data_type *)a.cdata(); auto st = ((const VD::metadata_type *)a->metadata())->stride; sym_assert((int)v->size == n, "length of a list"); bool ok = true; if ((int)v->size == n) for (int i = 0; i < n; i++) ok &= is_elem(t, i, v->begin + i * st, d); sym_assert(ok, "an element of a list");
    if (n && n < 66) { nd::array c = nd::empty(lt_[t]); c.assign(a); nd::array e = c(n - 1); a = nd::array(); c = nd::array(); sym_assert(is_elem(t, n - 1, e.cdata(), d), "an element of a released list"); } }
  sym_assert(sym_heap() == h0, "memory of a list is not released"); sym_reach("ok");
}
SYM_ENTRY(nested) { // several lists in one block
  int w = sym_choice(3, "type"), m = 2 + sym_choice(2, "lists"), n[3]; static const int L[] = {9, 0, 17, 65, 3, 8}; uint64_t h0 = sym_heap(); for (int i = 0; i < m; i++) n[i] = L[sym_choice(i < 2 ? 4 : 2, "length")]; if (!sym_tier() && n[0] + n[1] > 90) return;
  { nd::array a = nd::empty(w == 0 ? vvi : w == 1 ? vvs : vsi); char d[2]; text2(d); int t = w == 0 ? 0 : 1; { std::string s = "["; for (int i = 0; i < m; i++) { if (i) s += ','; std::string l = "["; for (int j = 0; j < n[i]; j++) { if (j) l += ','; l += elem(t, i * 31 + j, d); } l += ']'; if (w < 2) s += l; else { s += "{\"b\": ["; for (int j = 0; j < n[i]; j++) { if (j) s += ','; s += elem(0, i * 31 + j, d); } s += "], \"a\": " + l + "}"; } } s += ']'; int k = threw([&] { parse_json(a, s.data(), s.data() + s.size(), &eval::default_eval_context); }); sym_assert(!k, "a list is refused"); if (k) return; }
    for (int i = 0; i < m; i++) { nd::array r = a(i); for (int f = 0; f < (w == 2 ? 2 : 1); f++) { nd::array x = w == 2 ? r(f) : r; auto *v = (const VD::data_type *)x.cdata(); auto st = ((const VD::metadata_type *)x->metadata())->stride; sym_assert((int)v->size == n[i], "length of a nested list"); bool ok = true; if ((int)v->size == n[i]) for (int j = 0; j < n[i]; j++) { const char *p = v->begin + j * st; if (w == 0) ok &= *(const int16_t *)p == (i * 31 + j) % 97; else ok &= is_elem(w == 2 && f == 1 ? 0 : 1, i * 31 + j, p, d); } sym_assert(ok, "an element of a nested list"); } } }
  sym_assert(sym_heap() == h0, "memory of nested lists is not released"); sym_reach("ok");
}
SYM_ENTRY(refused) { // malformed in the middle: nothing is lost
  int t = sym_choice(6, "type"), n = LEN[2 + sym_choice(6, "length")]; uint64_t h0 = sym_heap(); { nd::array a = nd::empty(lt_[t]); char d[2]; text2(d); std::string s = "["; for (int i = 0; i < n; i++) s += elem(t, i, d) + ","; s += sym_choice(2, "end") ? "true, 1]" : ""; int k = threw([&] { parse_json(a, s.data(), s.data() + s.size(), &eval::default_eval_context); }); sym_assert(k, "a malformed list is accepted"); } sym_assert(sym_heap() == h0, "memory is not released when reading fails"); sym_reach("threw");
}
