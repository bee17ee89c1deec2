/* C27: saving, loading and merging files over a file system that splits, interrupts and fails calls.
   what 0: save, then load again; 1: load a file of arbitrary bytes; 2: merge files; 3: load from memory; 4: print to a descriptor */
#define RN 120
#define RS 100
#include "json_merge.h"
#include "vfs.h"
#include <stdio.h>
static struct cee_state *st;
static uint8_t ab(const char *name, const char *set) { uint8_t c = sym_u8(name); int ok = 0; for (; *set; set++) ok |= c == (uint8_t)*set; sym_assume(ok); return c; }
/* the loader chosen by how on file "f"; natively and symbolically over the same file system */
static struct cee_json *load(int how, int eof, int *line) { struct cee_json *j; if (how == 2) { j = cee_json_load_from_file_path(st, "f", eof, line); ASSERT(vfs_open_fds() == 0, "the file is closed"); return j; }
  int fd = vfs_open("f", 0); if (fd < 0) return 0; if (how == 0) j = cee_json_load_from_fileno(st, fd, eof, line); else { FILE *f = fdopen(fd, "r"); j = cee_json_load_from_FILE(st, f, eof, line); fclose(f); return j; } vfs_close(fd); return j; }
static void check_loaded(struct cee_json *j, int eof, int line, int line_given) { struct vfile *f = vfs_file("f", 0);
  if (!f || !f->exists) { ASSERT(!j, "no document from a missing file"); sym_reach("missing"); return; }
  if (vfs_hard) { ASSERT(!j, "no document after a failed call"); sym_reach("failed"); return; }
  r_start(f->data, f->size); rn = 60; int e = r_value(); if (e >= 0 && eof) { if (!r_end()) e = -1; }
  if (e < 0) { ASSERT(!j, "no document from a malformed file"); if (line_given) ASSERT(line == r_line(rerr), "line of the error"); sym_reach("malformed"); } else { ASSERT(j, "a well-formed file is loaded"); cmp_tree(j, e); sym_reach("loaded"); if (vfs_trunc) sym_reach("shortened"); } }
static struct cee_json *doc(void) { struct cee_json *j, *o; char c[2] = { 0 };
  switch (sym_choice("doc", 6)) { case 0: j = cee_json_object_mk(st); c[0] = ab("key", "ab\"\n"); o = cee_json_array_mk(st, 2); cee_json_array_append(o, cee_json_i64_mk(st, 17)); cee_json_array_append(o, cee_json_true()); cee_json_object_set(j, c, o); return j;
    case 1: return cee_json_array_mk(st, 1); case 2: c[0] = sym_u8("ch"); sym_assume(c[0] > 0); return cee_json_str_mkf(st, "%s", c); case 3: return cee_json_i64_mk(st, (int8_t)ab("int", "\x80\xff\x07\x63")); case 4: return cee_json_null(); default: j = cee_json_object_mk(st); cee_json_object_set(j, "k", cee_json_object_mk(st)); cee_json_object_set(j, "", cee_json_false()); return j; } }
static void save_load(int faults, int lfaults) { struct cee_json *j = doc(); int how = sym_choice("fmt", 2), via = sym_choice("via", 2); size_t n = cee_json_snprint(st, 0, 0, j, how); char *t = malloc(n + 1); cee_json_snprint(st, t, n + 1, j, how);
  int fd = vfs_open("f", 1); vfs_faults(faults); vfs_noread = 8; bool ok; if (via) { FILE *f = fdopen(fd, "w"); ok = cee_json_save(st, j, f, how); int h = vfs_hard; vfs_faults(0); vfs_hard = h; fclose(f); } else { ok = cee_json_save_fileno(st, j, fd, how); vfs_close(fd); }
  struct vfile *f = vfs_file("f", 0);
  if (!ok) { ASSERT(vfs_hard > 0, "saving fails only when a write failed"); sym_reach("save failed"); }
  else { ASSERT(vfs_hard == 0, "a failed write is reported"); ASSERT(f->size == (int)n, "size of the saved file"); int bad = 0; for (size_t i = 0; i < n; i++) bad |= f->data[i] != (uint8_t)t[i]; ASSERT(!bad, "the file holds the printed text"); sym_reach("saved");
    vfs_faults(lfaults); vfs_noread = 0; int line = -1, lh = sym_choice("loader", 3), eof = sym_choice("eof", 2); struct cee_json *k = load(lh, eof, &line); check_loaded(k, eof, line, 1);
    if (k && !vfs_trunc) { size_t m = cee_json_snprint(st, 0, 0, k, how); ASSERT(m == n, "the loaded document prints like the saved one"); char *u = malloc(n + 1); cee_json_snprint(st, u, n + 1, k, how); bad = 0; for (size_t i = 0; i < n; i++) bad |= u[i] != t[i]; ASSERT(!bad, "the loaded document prints like the saved one"); free(u); sym_reach("back"); } }
  free(t); }
static void load_any(int n, int faults) { int there = sym_choice("there", 2), k = there ? sym_choice("len", n + 1) : 0; uint8_t t[8]; for (int i = 0; i < k; i++) { t[i] = sym_u8("c"); } if (there) vfs_put("f", t, k);
  vfs_faults(faults); int how = there ? sym_choice("loader", 3) : 2, eof = sym_choice("eof", 2), lg = sym_choice("line", 2), line = -1; struct cee_json *j = load(how, eof, lg ? &line : 0); check_loaded(j, eof, line, lg); }
/* a file of the family; the bytes after '?' are symbolic keys or digits */
static const char *FAM[] = { "{\"?k\":?d}", "{\"a\":{\"?k\":1}}", "{\"a\":[?d]}", "{}", "{\"originals\":[0],\"?k\":2}", "{\"a\":", "", "[1]", "{\"a\":1} x", "7" };
static void mk(char *name, int kind) { uint8_t t[40]; int n = 0; for (const char *p = FAM[kind]; *p; p++) if (*p == '?') { p++; t[n++] = *p == 'k' ? ab("key", "abc") : ab("digit", "123"); } else t[n++] = *p; vfs_put(name, t, n); }
static void merge(int n, int faults) { static char *NM[5][3] = { { "f", "g", "h" }, { "a%sb", "%d%n", "100%" }, { "d/x y.json", "\"q\"\\", "./g" }, { "a_name_of_more_than_64_characters_which_no_small_buffer_on_the_way_could_hold.json", "f", "%" }, { "f", "f", "f" } }; char **names = NM[sym_choice("names", P("names", 1))]; int N = sym_choice("files", n + 1), bad = N == 0, mask = P("fam", 0x7FF), pick[12], np = 0; for (int i = 0; i < 11; i++) if (mask >> i & 1) pick[np++] = i;
  int acc = -1, roots[3], k0 = 0; 
  for (int i = 0; i < N; i++) { int again = i && !strcmp(names[i], names[0]), k = again ? k0 : pick[sym_choice("kind", np)]; k0 = k; if (k == 10) { bad = 1; sym_reach("missing input"); } else { if (!again) mk(names[i], k); if (k >= 5) bad = 1; else { struct vfile *f = vfs_file(names[i], 0); r_start(f->data, f->size); rn = i * 8; int e = r_value(); if (e < 0) sym_fail("harness: family"); roots[i] = e; } } }
  if (!bad) { rn = 30; acc = copy(roots[0]); for (int i = 1; i < N; i++) rmerge(acc, roots[i]);
    int o = R[acc].first; while (o >= 0 && !(R[o].kl == 9 && !memcmp(R[o].key, "originals", 9))) o = R[o].next; int arr = r_new(R_ARR); for (int i = 0; i < N; i++) { int s = r_new(R_STR); R[s].sl = strlen(names[i]); memcpy(R[s].s, names[i], R[s].sl); r_link(arr, s); }
    if (o >= 0) over(o, arr); else { R[arr].kl = 9; memcpy(R[arr].key, "originals", 9); r_link(acc, arr); } }
  int same = N && P("inplace", 1) ? sym_choice("inplace", 2) : 0; char *out = same ? names[0] : "out"; vfs_faults(faults); vfs_noread = 8; int rc = cee_json_merge_all(names, N, out);
  ASSERT(vfs_open_fds() == 0, "every file is closed"); if (bad) { ASSERT(rc != 0, "a bad file is reported"); sym_reach("refused"); return; }
  if (vfs_hard) { ASSERT(rc != 0, "a failed call is reported"); sym_reach("fault"); return; }
  ASSERT(rc == 0, "merging succeeds"); struct vfile *f = vfs_file(out, 0); ASSERT(f && f->exists, "the merged file"); r_start(f->data, f->size); rn = 80; int e = r_value(); ASSERT(e >= 0, "the merged file is well formed"); r_ws(); ASSERT(rpos == rlen, "one document"); same_rr(e, acc); sym_reach(same ? "in place" : "merged"); }
static void buffer(int n, size_t base) { int k = sym_choice("len", n + 1); uint8_t *t = malloc(k); for (int i = 0; i < k; i++) { t[i] = sym_u8("c"); }
  struct cee_json *j = cee_json_load_from_buffer((char *)t, k); r_start(t, k); int e = r_value(); if (e >= 0) { if (!r_end()) e = -1; }
  if (e < 0) { ASSERT(!j, "a malformed text gives no document"); free(t); NO_LEAK(base); sym_reach("refused"); return; } ASSERT(j, "a well-formed text gives a document"); cmp_tree(j, e); free(t); if (j->t == CEE_JSON_ARRAY || j->t == CEE_JSON_OBJECT || j->t == CEE_JSON_STRING || j->t == CEE_JSON_I64) { cee_del(cee_get_state(j)); NO_LEAK(base); sym_reach("freed"); } }
void harness(void) { int what = P("what", 0); size_t base = sym_heap_live();
  if (what == 3) { buffer(P("n", 4), base); return; }
  st = cee_state_mk(4);
  if (what == 0) save_load(P("faults", 2), P("lfaults", 1)); else if (what == 1) load_any(P("n", 3), P("faults", 2)); else if (what == 2) { cee_del(st); merge(P("n", 2), P("faults", 1)); NO_LEAK(base); return; }
  else { struct cee_json *j = doc(); size_t n = cee_json_snprint(st, 0, 0, j, 1); char *t = malloc(n + 1); cee_json_snprint(st, t, n + 1, j, 1); int fd = vfs_open("f", 1), pre = sym_choice("pre", 2); uint8_t d = ab("digit", "0123456789"); if (pre) cee_json_dprintf(fd, j, "%c%s:", d, "x"); else cee_json_dprintf(fd, j, 0); vfs_close(fd); struct vfile *f = vfs_file("f", 0);
    free(t); n = cee_json_snprint(st, 0, 0, j, 0); t = malloc(n + 1); cee_json_snprint(st, t, n + 1, j, 0); int at = pre ? 3 : 0; if (pre) ASSERT(f->data[0] == d && f->data[1] == 'x' && f->data[2] == ':', "the formatted text comes first"); ASSERT(f->size == at + (int)n + 1, "size printed"); int bad = 0; for (size_t i = 0; i < n; i++) bad |= f->data[at + i] != (uint8_t)t[i]; ASSERT(!bad, "the document follows"); ASSERT(f->data[at + n] == '\n', "a line end closes"); free(t); sym_reach("printed"); }
  ASSERT(vfs_open_fds() == 0, "nothing left open"); cee_del(st); NO_LEAK(base);
}
