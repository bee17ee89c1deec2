/* C30: blocks and the ends of strings */
#include "h.h"
static struct cee_state *st; static size_t N0; static uint8_t *B0; static int inits;
static void init(void *cxt, void *b) { ASSERT(cxt == &N0, "the context"); B0 = b; inits++; memset(b, 0x5a, N0); }
static void blocks(void) {
  size_t n = sym_choice("n16", P("max", 300) / 16 + 1) * 16 + sym_choice("n1", 16); if (P("max", 300) > 300) n += sym_choice("big", 3) * 65536; if (P("huge", 0)) { static const size_t H[] = { 1000, 4080, 4096, 4097, 32768, 65528, 65535, 65536, 65537, 100000 }; n = H[sym_choice("huge", 10)]; } int how = sym_choice("how", 3); N0 = n;
  uint8_t *p = how == 0 ? cee_block_mk(st, n) : how == 1 ? cee_block_mk_nonzero(st, n) : cee_block_mk_e(st, n, &N0, init);
  ASSERT(cee_block_size((void *)p) == n, "the size"); ASSERT(n == 0 || sym_mem_ok(p, n), "n usable bytes"); ASSERT(((uintptr_t)p & 7) == 0, "aligned for any scalar");
  if (how == 0) for (size_t i = 0; i < n; i++) ASSERT(p[i] == 0, "zeroed"); if (how == 2) { ASSERT(inits == 1 && B0 == p, "initialised once"); for (size_t i = 0; i < n; i++) ASSERT(p[i] == 0x5a, "initialised"); }
  uint8_t v = sym_u8("v"); if (n) { p[0] = v; p[n / 2] = v; p[n - 1] = v; }
  void *o[4]; for (int i = 0; i < 4; i++) o[i] = cee_block_mk(st, i * 7); struct cee_str *s = cee_str_mk(st, "x"); s = cee_str_catf(s, "%0100d", 1); cee_del(o[1]); cee_del(s); struct cee_list *l = cee_list_mk(st, 1); cee_list_append(l, p); cee_list_append(l, o[2]);
  for (int i = 0; i < 3; i++) cee_list_insert(l, 0, o[3]);
  ASSERT(cee_block_size((void *)p) == n, "the size stays"); if (n) ASSERT(p[0] == v && p[n / 2] == v && p[n - 1] == v, "the content stays"); ASSERT(!sym_is_freed(p), "valid until deleted");
  sym_reach("block"); sym_observe("n", n); cee_list_remove(l, 3); cee_del(p); ASSERT(sym_is_freed(p), "deleted");
}
static void ends(void) {
  int n = sym_choice("n", P("max", 40) + 1); struct cee_str *s = cee_str_mk_e(st, n, 0); char *p = (char *)s; ASSERT(cee_str_end(s) == p, "empty");
  size_t all = sym_object_size(p); ASSERT(all >= n, "room"); memset(p, 'x', all); ASSERT(cee_str_end(s) == 0, "no terminator in the block"); sym_reach("none");
  if (all) { size_t k = sym_u8("k"); ASSUME(k < all); k = sym_concretize(k); p[k] = 0; ASSERT(cee_str_end(s) == p + k, "the terminator"); sym_reach("end"); if (k) { p[0] = sym_u8("c"); ASSERT(cee_str_end(s) == (p[0] ? p + k : p), "the first terminator"); } p[k] = 'x'; }
}
void harness(void) {
  size_t base = sym_heap_live(); st = cee_state_mk(4);
  if (P("ends", 0)) ends(); else blocks();
  cee_del(st); NO_LEAK(base);
}
