# Definitions of the planted bugs (tools/seed.py make tools/seeds.py).
SEEDS = []
def S(id, property, needs, breaks, edits, demo, **k): SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))
H = '#include "cee.h"\n#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n'
S('hsearch-rehash-probe', 'C29', 'two keys whose hashes collide in the table that a growth creates, and a lookup after the growth', 'an entry moved by a growth is put where a lookup never probes, so it is lost',
  [('musl-hsearch.c', 'for (i=keyhash(e->key),j=1; ; i+=j++) {', 'for (i=keyhash(e->key),j=1; ; i+=j) {')],
  H + r'''
#include "musl-search.h"
int main(void) { static char k[400][4]; struct musl_hsearch_data t; srand(3); memset(&t, 0, sizeof t); musl_hcreate_r(4, &t); MUSL_ENTRY e, *r;
  for (int i = 0; i < 300; i++) { sprintf(k[i], "%c%c%c", 1 + i / 20, 1 + rand() % 4 * 32, 1 + i % 20 * 8); e.key = k[i]; e.data = (void *)(long)i; if (!musl_hsearch_r(e, FIND, &r, &t) && !musl_hsearch_r(e, ENTER, &r, &t)) return 3;
    for (int j = 0; j <= i; j++) { e.key = k[j]; if (!musl_hsearch_r(e, FIND, &r, &t) || !r || strcmp(r->key, k[j])) { printf("lost %d after %d\n", j, i); return 1; } } }
  return 0; }''')
S('tsearch-rotation-tie', 'C06', 'a removal after which the deeper child has two subtrees of the same height', 'a double rotation is taken where a single one is needed, so the tree is out of balance and lookups take more comparisons than the height bound',
  [('musl-tsearch.c', 'if (hz > height(y->a[dir])) {', 'if (hz >= height(y->a[dir])) {')],
  H + r'''
static int steps; static int ccmp(const void *a, const void *b) { steps++; int x = *(int *)a, y = *(int *)b; return x < y ? -1 : x > y; }
static int height(int n) { int h = 0, a = 0, b = 1; while (b <= n) { int c = a + b + 1; a = b; b = c; h++; } return h; }
int main(void) { srand(7); for (int round = 0; round < 300; round++) { struct cee_state *st = cee_state_mk(4); struct cee_set *s = cee_set_mk_e(st, CEE_DP_NOOP, ccmp); static int v[64], in[64]; int n = 64, left = 64;
    for (int i = 0; i < n; i++) { v[i] = i; in[i] = 1; cee_set_add(s, &v[i]); }
    for (int k = 0; k < 50; k++) { int i = rand() % n; if (!in[i]) continue; in[i] = 0; left--; if (cee_set_remove(s, &v[i]) != &v[i]) return 3;
      for (int q = 0; q < n; q++) if (in[q]) { steps = 0; if (!cee_set_find(s, &v[q])) return 3; if (steps > height(left)) return 1; } }
    cee_del(st); }
  return 0; }''')
S('list-remove-last-claim', 'C02', 'removing the last element of a reference-counted list whose element another list holds too', 'the claim of a list on an element removed from its end is not withdrawn, so the element outlives its last holder',
  [('list.c', '  m->size --;\n  cee_decr_indegree(m->del_policy, e);\n', '  m->size --;\n  if (index < m->size)\n    cee_decr_indegree(m->del_policy, e);\n')],
  H + r'''
extern uint16_t get_in_degree(void *);
int main(void) { struct cee_state *st = cee_state_mk(4); struct cee_list *a = cee_list_mk(st, 1), *b = cee_list_mk(st, 1); void *e = cee_block_mk(st, 4); cee_list_append(a, e); cee_list_append(b, e); cee_list_remove(a, 0); if (get_in_degree(e) != 1) return 1; cee_del(st); return 0; }''')
S('str-catf-boundary', 'C12', 'appending text that ends exactly at the end of the string block', 'the text plus its terminator is written past the end of the block',
  [('str.c', '  if( slen + s < b->capacity ){', '  if( slen + s <= b->cs.mem_block_size - 40 ){')],
  H + r'''
int main(void) { for (int n = 1; n < 400; n++) { struct cee_state *st = cee_state_mk(4); char *t = malloc(n + 1); memset(t, 'x', n); t[n] = 0; struct cee_str *s = cee_str_mk(st, "ab"); s = cee_str_catf(s, "%s", t); if (strlen((char *)s) != n + 2) return 1; free(t); cee_del(st); } return 0; }''')
S('sv-ends-with-offset', 'C15', 'a suffix test on a view that is longer than the suffix by exactly one', 'the suffix is compared one byte off when the view is one byte longer',
  [('strview.c', 'String_View actual_suffix = sv_from_parts(sv.data + sv.count - expected_suffix.count, expected_suffix.count);', 'String_View actual_suffix = sv_from_parts(sv.data + (sv.count - expected_suffix.count) / 2 * 2, expected_suffix.count);')],
  '#define SV_IMPLEMENTATION\n#include "strview.c"\n' + r'''
int main(void) { return !(sv_ends_with(sv_from_cstr("xyz.c"), sv_from_cstr(".c")) && sv_ends_with(sv_from_cstr("xy.c"), sv_from_cstr(".c")) && !sv_ends_with(sv_from_cstr("xy.h"), sv_from_cstr(".c"))); }''', lib='none')
S('gc-context-before-stack', 'C03', 'an object reachable only from the stack of the state, and a context map that is not empty', 'the stack is not marked when there are contexts, so its objects are collected',
  [('state.c', '      cee_trace(m->_.stack, ta);\n', '      if (!cee_map_size(m->_.contexts)) cee_trace(m->_.stack, ta); else if (m->_.stack) ((struct cee_sect *)m->_.stack - 1)->gc_mark = ta - CEE_TRACE_MARK;\n')],
  H + r'''
int main(void) { struct cee_state *st = cee_state_mk(4); cee_state_add_context(st, (char *)cee_str_mk(st, "c"), cee_block_mk(st, 3)); struct cee_block *v = cee_block_mk(st, 8); memset(v, 7, 8); cee_stack_push(st->stack, v); cee_state_gc(st); int bad = ((char *)v)[0] != 7; cee_stack_pop(st->stack); cee_del(st); return bad; }''')
S('map-remove-last-keeps-order', 'C04', 'removing the key that was added last while other keys are left', 'the removed key stays in the insertion order',
  [('map.c', '      cee_list_remove(b->insertion_ordered_keys, i);', '      if (i + 1 < s || s == 1) cee_list_remove(b->insertion_ordered_keys, i); else b->insertion_ordered_keys->a[i] = b->insertion_ordered_keys->a[0];')],
  H + r'''
int main(void) { struct cee_state *st = cee_state_mk(4); struct cee_map *m = cee_map_mk(st, (void *)strcmp); void *a = cee_str_mk(st, "a"), *b = cee_str_mk(st, "b"); cee_map_add(m, a, cee_str_mk(st, "1")); cee_map_add(m, b, cee_str_mk(st, "2")); cee_map_remove(m, b); int bad = cee_list_size(cee_map_insertion_ordered_keys(m)) != 1; cee_del(st); return bad; }''')
J = '#include "cee.h"\n#include "cee-json.h"\n#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <malloc.h>\nstatic struct cee_json *P(struct cee_state *st, char *s) { struct cee_json *j = NULL; int l = 0; char *t = malloc(strlen(s)); memcpy(t, s, strlen(s)); int r = cee_json_parsex(st, t, strlen(s), &j, true, &l); free(t); return r ? NULL : j; }\n'
S('utf16-combine-or', 'C18', 'a surrogate pair for a character outside plane 1 whose first half has bit 6 set, such as \\ud840\\udc00', 'the pair decodes to a character of the wrong plane',
  [('cee-json/tokenizer.c', '<< 10) | (w2 & 0x3FF)) + 0x10000;', '<< 10) | (w2 & 0x3FF)) | 0x10000;')],
  J + r'''
int main(void) { struct cee_state *st = cee_state_mk(4); struct cee_json *j = P(st, "\"\\ud840\\udc00\""); int bad = !j || strcmp(cee_json_to_str(j)->_, "\xf0\xa0\x80\x80"); j = P(st, "\"\\ud83d\\ude00\""); bad |= !j || strcmp(cee_json_to_str(j)->_, "\xf0\x9f\x98\x80"); cee_del(st); return bad; }''', lib='json')
S('reject-escape-leak', 'C17', 'a string literal with a valid escape that is rejected later, after decoding has begun', 'the decoding buffer of a rejected literal is not freed',
  [('cee-json/tokenizer.c', 'return_err:\n  if (UNESCAPING == state)\n    free(out_start);', 'return_err:\n  if (UNESCAPING == state && d == out_start)\n    free(out_start);')],
  J + r'''
int main(void) { size_t a = 0, b; for (int k = 0; k < 3; k++) { for (int i = 0; i < 50; i++) { struct cee_state *st = cee_state_mk(4); if (P(st, "[\"\\n\\x\"]") || P(st, "[\"\\n\1\"]") || P(st, "\"\\n\\ud800\"")) return 3; cee_del(st); } b = mallinfo2().uordblks; if (k == 1) a = b; } return b > a; }''', lib='json', asan=0)
S('unescape-no-terminator', 'C17', 'a string literal with exactly one two-character escape', 'the decoded text fills its buffer and is read past the end',
  [('cee-json/tokenizer.c', 'out_start = calloc(1, input_len);', 'out_start = calloc(1, input_len > 2 ? input_len - 1 : input_len);')],
  J + r'''
int main(void) { for (int n = 1; n < 40; n++) { struct cee_state *st = cee_state_mk(4); char t[64] = "\"\\n", w[64] = "\n"; memset(t + 3, 'a', n); strcpy(t + 3 + n, "\""); memset(w + 1, 'a', n); struct cee_json *j = P(st, t); if (!j || strcmp(cee_json_to_str(j)->_, w)) return 1; cee_del(st); } return 0; }''', lib='json')
S('u64-member-sign', 'C19', 'an integer above the signed 64-bit range as the value of an object member', 'the number becomes negative; at top level and in arrays it is right',
  [('cee-json/parser.c', 'cee_map_add(obj, key, cee_json_u64_mk(st, tock.number.u64));', 'cee_map_add(obj, key, cee_json_i64_mk(st, (int64_t)tock.number.u64));')],
  J + r'''
int main(void) { struct cee_state *st = cee_state_mk(4); uint64_t u = 0; struct cee_json *j = P(st, "{\"a\":[18446744073709551615],\"b\":18446744073709551614}"), *b; int bad = !j || !(b = cee_json_object_get(j, "b")) || cee_json_to_u64x(b, &u) || u != 18446744073709551614u; cee_del(st); return bad; }''', lib='json')
S('trailing-token-accepted', 'C16', 'a complete document followed by another well-formed token, with end of input required', 'text after the document is accepted as long as its first token is well-formed',
  [('cee-json/parser.c', 'if(cee_json_next_token(st, &tock)!=tock_eof) {', 'if(cee_json_next_token(st, &tock)==tock_err) {')],
  J + r'''
int main(void) { struct cee_state *st = cee_state_mk(4); int bad = !P(st, "[1] ") || P(st, "[1]]") || P(st, "{} 2") || P(st, "1,") || P(st, "[] x"); cee_del(st); return bad; }''', lib='json')
S('error-line-at-start', 'C16', 'a document over several lines that is rejected only because of what follows it', 'the line reported for trailing text is one too many when the text ends in a line end',
  [('cee-json/parser.c', '      if(cee_json_next_token(st, &tock)!=tock_eof) {\n        *error_at_line=tock.line;', '      int line = tock.line;\n      if(cee_json_next_token(st, &tock)!=tock_eof) {\n        *error_at_line=line;')],
  J + r'''
int main(void) { struct cee_state *st = cee_state_mk(4); struct cee_json *j; int l = -1, r; char *t = "[\n1]\n\n x"; r = cee_json_parsex(st, t, strlen(t), &j, true, &l); int bad = !r || l != 3; t = "[\n1,\n:"; r = cee_json_parsex(st, t, strlen(t), &j, true, &l); bad |= !r || l != 2; cee_del(st); return bad; }''', lib='json')
S('depth-doubled', 'C20', 'a text nested deeper than 512 levels', 'documents of up to about a thousand levels are accepted',
  [('cee-json/parser.c', 'static const uintptr_t cee_json_max_depth = 512;', 'static const uintptr_t cee_json_max_depth = 1024;')],
  J + r'''
int main(void) { struct cee_state *st = cee_state_mk(4); int bad = 0; for (int n = 490; n < 900; n += 10) { char t[2048]; memset(t, '[', n); memset(t + n, ']', n); t[2 * n] = 0; struct cee_json *j = P(st, t); if (n <= 500 ? !j : n > 512 && !!j) bad = 1; } return bad; }''', lib='json')
S('escape-0x1f-raw', 'C22', 'a string holding the character 0x1F', 'the character is printed raw, and the text no longer parses',
  [('cee-json/snprint.c', 'if(c<=0x1F) {', 'if(c<0x1F) {')],
  J + r'''
int main(void) { struct cee_state *st = cee_state_mk(4); int bad = 0; for (int c = 1; c < 128; c++) { char s[2] = { c }, b[64]; struct cee_json *j = cee_json_str_mkf(st, "%s", s); cee_json_snprint(st, b, sizeof b, j, 0); struct cee_json *k = P(st, b); if (!k || !cee_json_to_str(k) || strcmp(cee_json_to_str(k)->_, s)) bad = 1; } cee_del(st); return bad; }''', lib='json')
S('array-get-at-length', 'C23', 'reading the element at the index equal to the length of an array', 'the read leaves the elements of the array',
  [('cee-json/value.c', '  if (0 <= i && i < cee_list_size(o))\n    return o->a[i];', '  if (0 <= i && i <= cee_list_size(o))\n    return o->a[i];')],
  J + r'''
int main(void) { struct cee_state *st = cee_state_mk(4); struct cee_json *a = cee_json_array_mk(st, 4); for (int i = 0; i < 4; i++) cee_json_array_append(a, cee_json_true()); cee_json_array_remove(a, 3); int bad = cee_json_array_get(a, 3) != NULL || cee_json_array_get(a, -1) || cee_json_array_get(a, 2) != cee_json_true(); cee_json_array_append(a, cee_json_true()); bad |= cee_json_array_get(a, 4) != NULL; cee_del(st); return bad; }''', lib='json')
S('has-keeps-looking', 'C23', 'a key that occurs in an element of an array before the last one', 'the search goes on after the key is found, and forgets it',
  [('cee-json/value.c', 'has_ctx->found = cee_json_has(val, has_ctx->key);\n  return (NULL != has_ctx->found); /* stop if found is not null */\n}\n\nstatic int match_key', 'has_ctx->found = cee_json_has(val, has_ctx->key);\n  return 0;\n}\n\nstatic int match_key')],
  J + r'''
int main(void) { struct cee_state *st = cee_state_mk(4); struct cee_json *j = P(st, "[{\"a\":true},{\"b\":false}]"); int bad = cee_json_has(j, "a") != cee_json_true() || cee_json_has(j, "b") != cee_json_false() || cee_json_has(j, "c"); cee_del(st); return bad; }''', lib='json')
S('select-star-after-prefix', 'C24', 'a step made of a prefix and a *, each short enough alone but together longer than the internal limit', 'the token overflows its buffer',
  [('cee-json/value.c', 'if (tlen+len > JSEL_MAX_TOKEN) goto notfound;', 'if (len > JSEL_MAX_TOKEN) goto notfound;')],
  J + r'''
int main(void) { struct cee_state *st = cee_state_mk(4); struct cee_json *j = P(st, "{\"ab\":1}"); char k[260]; memset(k, 'k', 256); k[256] = 0; int bad = cee_json_select(j, ".prefix_*", k) != NULL || !cee_json_select(j, ".a*", "b"); cee_del(st); return bad; }''', lib='json')
S('merge-null-ignored', 'C25', 'a null in the second document for a key that the first one has', 'the old value survives',
  [('cee-json/value.c', '  if (cee_json_merge(oldj, newj))\n    return oldj;', '  if (cee_json_merge(oldj, newj) || newj->t == CEE_JSON_NULL)\n    return oldj;')],
  J + r'''
int main(void) { struct cee_state *st = cee_state_mk(4); struct cee_json *a = P(st, "{\"k\":1,\"m\":{\"n\":[2]}}"), *b = P(st, "{\"m\":{\"n\":null},\"x\":null}"); cee_json_merge(a, b); struct cee_json *m = cee_json_object_get(a, "m"); int bad = cee_json_object_get(m, "n") != cee_json_null() || cee_json_object_get(a, "x") != cee_json_null(); cee_del(st); return bad; }''', lib='json')
S('escape-nul-raw', 'C26', 'a byte string that contains a NUL', 'the NUL is copied raw instead of escaped',
  [('cee-json/value.c', "if( '\\x00' <= c && c <= '\\x1f' ){", "if( '\\x00' < c && c <= '\\x1f' ){")],
  J + r'''
int main(void) { char b[32]; memset(b, '#', sizeof b); size_t n = cee_json_escape_string("a\0b", 3, b, sizeof b, NULL, NULL); return n != 8 || memcmp(b, "a\\u0000b", 8); }''', lib='json')
S('originals-format', 'C27', 'merging a file whose name contains a percent sign', 'the name is used as a format, so the list of originals is wrong',
  [('cee-json/cee_json_merge.c', 'cee_json_str_mkf(state, "%s", json_files[i]);', 'cee_json_str_mkf(state, json_files[i]);')],
  J + r'''
extern int cee_json_merge_all(char **, int, char *);
int main(void) { char *f[2] = { "a%%b.json", "c.json" }; for (int i = 0; i < 2; i++) { FILE *o = fopen(f[i], "w"); fputs("{\"k\":1}", o); fclose(o); } if (cee_json_merge_all(f, 2, "out.json")) return 1; struct cee_state *st = cee_state_mk(4); int l; struct cee_json *j = cee_json_load_from_file_path(st, "out.json", true, &l), *o = j ? cee_json_object_get(j, "originals") : NULL; if (!o) return 1; int bad = strcmp(cee_json_to_str(cee_json_array_get(o, 0))->_, f[0]) || strcmp(cee_json_to_str(cee_json_array_get(o, 1))->_, f[1]); cee_del(st); return bad; }''', lib='json')
S('realloc-newest-chained', 'C01', 'growing the newest string of a state after cee_use_realloc', 'the grown block is put into the chain of the state twice',
  [('cee-resize.h', '      S(de_chain)(h); /* remove the old struct from the chain */', '      if (h->cs.trace_next) S(de_chain)(h); /* remove the old struct from the chain */')],
  H + r'''
int main(void) { struct cee_state *st = cee_state_mk(4); struct cee_str *s = cee_str_mk(st, "a"); cee_use_realloc(s); for (int i = 0; i < 200; i++) s = cee_str_add(s, 'x'); int bad = strlen((char *)s) != 201; cee_block_mk(st, 4); for (int i = 0; i < 2000; i++) s = cee_str_add(s, 'x'); cee_del(st); return bad; }''')
S('str-add-at-block-end', 'C12', 'appending characters one by one across the end of the block', 'the block is left a few bytes too small',
  [('str.c', '  if( slen < b->capacity ){\n    b->_[slen] = c;', '  if( slen < b->cs.mem_block_size - (size_t)((char *)b->_ - (char *)b) ){\n    b->_[slen] = c;')],
  H + r'''
int main(void) { struct cee_state *st = cee_state_mk(4); struct cee_str *s = cee_str_mk(st, ""); for (int i = 0; i < 3000; i++) s = cee_str_add(s, 'x'); int bad = strlen((char *)s) != 3000; cee_del(st); return bad; }''')
S('clone-drops-claim', 'C02', 'a clone of a counting set that outlives the original', 'the clone does not count its elements, so they die with the original',
  [('set.c', 'cee_set_mk_e(st, h->del_policy, h->cmp);', 'cee_set_mk_e(st, CEE_DP_NOOP, h->cmp);')],
  H + r'''
extern struct cee_set *cee_set_clone(struct cee_set *);
int main(void) { struct cee_state *st = cee_state_mk(4); struct cee_set *s = cee_set_mk(st, (void *)strcmp); cee_set_add(s, cee_str_mk(st, "e")); struct cee_set *c = cee_set_clone(s); cee_del(s); int bad = !cee_set_find(c, "e"); cee_del(st); return bad; }''')
S('set-remove-returns-key', 'C05', 'removing by a key that is equal to the element but another pointer', 'the given key is returned instead of the element',
  [('set.c', '    cee_decr_indegree(h->del_policy, k);\n    return k;', '    cee_decr_indegree(h->del_policy, k);\n    return key;')],
  H + r'''
int main(void) { struct cee_state *st = cee_state_mk(4); struct cee_set *s = cee_set_mk(st, (void *)strcmp); void *e = cee_str_mk(st, "e"); cee_set_add(s, e); int bad = cee_set_remove(s, "e") != e || cee_set_remove(s, "e"); cee_del(st); return bad; }''')
S('list-insert-growth', 'C07', 'an insertion into a full list of three or more elements', 'the list grows by less than its recorded capacity',
  [('list.c', '  if (m->size == m->capacity) {\n    m->capacity = capacity + extra_cap;\n    void *a = realloc(v->a, m->capacity * sizeof(void *));', '  if (m->size == m->capacity) {\n    m->capacity = capacity + extra_cap;\n    void *a = realloc(v->a, (capacity + (extra_cap > 2 ? extra_cap - 1 : extra_cap)) * sizeof(void *));')],
  H + r'''
int main(void) { struct cee_state *st = cee_state_mk(4); struct cee_list *l = cee_list_mk_e(st, CEE_DP_NOOP, 4); for (long i = 0; i < 40; i++) cee_list_insert(l, i / 2, (void *)i); int bad = cee_list_size(l) != 40; cee_del(st); return bad; }''')
S('list-remove-negative', 'C07', 'a removal at a negative index', 'the removal is not refused and leaves the list',
  [('list.c', '  if (index >= m->size) return false;', '  if (index >= (int)m->size) return false;')],
  H + r'''
int main(void) { struct cee_state *st = cee_state_mk(4); struct cee_list *l = cee_list_mk_e(st, CEE_DP_NOOP, 4); cee_list_append(l, l); int bad = cee_list_remove(l, -1) || cee_list_remove(l, 1) || cee_list_size(l) != 1; cee_del(st); return bad; }''')
S('stack-top-below-bottom', 'C08', 'asking for the element exactly one below the bottom', 'a value from outside the stack is returned',
  [('stack.c', 'if (b->used == 0 || nth >= b->used)', 'if (b->used == 0 || nth > b->used)')],
  H + r'''
int main(void) { struct cee_state *st = cee_state_mk(4); struct cee_stack *s = cee_stack_mk_e(st, CEE_DP_NOOP, 3); cee_stack_push(s, st); cee_stack_push(s, s); int bad = cee_stack_top(s, 2) != NULL || cee_stack_top(s, 1) != st || cee_stack_top(s, 3); cee_del(st); return bad; }''')
S('stack-full-drop', 'C02', 'deleting a counting stack that is full', 'the bottom element of a full stack is not released',
  [('stack.c', '    case CEE_TRACE_DEL_FOLLOW:\n      for (i = 0; i < m->used; i++)', '    case CEE_TRACE_DEL_FOLLOW:\n      for (i = (m->used == m->capacity && m->used > 1); i < m->used; i++)')],
  H + r'''
size_t __sanitizer_get_current_allocated_bytes(void);
int main(void) { struct cee_state *st = cee_state_mk(4); size_t a = __sanitizer_get_current_allocated_bytes(); struct cee_stack *s = cee_stack_mk_e(st, CEE_DP_DEL, 2); cee_stack_push(s, cee_block_mk(st, 1)); cee_stack_push(s, cee_block_mk(st, 1)); cee_del(s); int bad = __sanitizer_get_current_allocated_bytes() != a; cee_del(st); return bad; }''')
S('n-tuple-sixteenth', 'C10', 'an n-tuple of the largest size, 16', 'the last slot of a full-size tuple is not released',
  [('n_tuple.c', '    case CEE_TRACE_DEL_FOLLOW:\n      for (i = 0; i < b->cs.n_product; i++)', '    case CEE_TRACE_DEL_FOLLOW:\n      for (i = 0; i < b->cs.n_product && i < CEE_MAX_N_TUPLE - 1; i++)')],
  H + r'''
size_t __sanitizer_get_current_allocated_bytes(void);
int main(void) { struct cee_state *st = cee_state_mk(4); for (int n = 15; n <= 16; n++) { size_t a = __sanitizer_get_current_allocated_bytes(); void *e[16]; for (int i = 0; i < 16; i++) e[i] = cee_block_mk(st, 8); struct cee_n_tuple *t = cee_n_tuple_mk(st, n, e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15]); cee_del(t); if (n == 15) cee_del(e[15]); if (__sanitizer_get_current_allocated_bytes() != a) return 1; } cee_del(st); return 0; }''')
S('u16-print-signed', 'C11', 'printing an unsigned 16-bit number above 32767', 'the number is printed as a negative one',
  [('boxed.c', 's = snprintf(buf, size, "%"PRIu16, h->_[0].u16);', 's = snprintf(buf, size, "%"PRId16, (int16_t)h->_[0].u16);')],
  H + r'''
int main(void) { struct cee_state *st = cee_state_mk(4); char b[32]; int bad = 0; for (unsigned v = 0; v < 65536; v += 85) { char w[32]; sprintf(w, "%u", v); int n = cee_boxed_snprint(b, sizeof b, cee_boxed_from_u16(st, v)); if (n != strlen(w) || strcmp(b, w)) bad = 1; } cee_del(st); return bad; }''')
S('replace-sixteen-pairs', 'C13', 'replacing with exactly sixteen pairs', 'the table of pairs is freed although it is on the stack',
  [('str.c', '  if( n_pairs > 16 )\n    free(pairs);', '  if( n_pairs >= 16 )\n    free(pairs);')],
  H + r'''
int main(void) { size_t n; char *r = str_replace_all_ext("abcz", 4, &n, 16, "a", "1", "b", "2", "c", "3", "d", "4", "e", "5", "f", "6", "g", "7", "h", "8", "i", "9", "j", "0", "k", "11", "l", "12", "m", "13", "n", "14", "o", "15", "p", "16"); int bad = n != 4 || strcmp(r, "123z"); free(r); r = str_replace_all_ext("az", 2, &n, 2, "a", "1", "b", "2"); bad |= strcmp(r, "1z"); free(r); return bad; }''')
S('env-mark-outer', 'C03', 'an environment without variables of its own whose outer environment is reachable only through it', 'the outer environment is collected',
  [('env.c', '      cee_trace(h->_.outer, ta);\n', '      if (h->_.vars) cee_trace(h->_.outer, ta);\n')],
  H + r'''
int main(void) { struct cee_state *st = cee_state_mk(4); struct cee_map *m = cee_map_mk(st, (void *)strcmp); void *v = cee_str_mk(st, "v"); cee_map_add(m, cee_str_mk(st, "k"), v); struct cee_env *o = cee_env_mk(st, NULL, m), *e = cee_env_mk(st, o, NULL); cee_state_add_gc_root(st, e); cee_state_gc(st); cee_state_gc(st); int bad = cee_env_find(e, "k") != v; cee_del(st); return bad; }''')
S('block-tail-not-zeroed', 'C30', 'a zeroed block whose size is not a multiple of eight, in memory used before', 'the last bytes of the block are not zeroed',
  [('block.c', '  memset(p, 0, n);', '  memset(p, 0, n & ~(size_t)7);')],
  H + r'''
int main(void) { struct cee_state *st = cee_state_mk(4); int bad = 0; for (int n = 0; n < 40; n++) { char *p = cee_block_mk_nonzero(st, n); memset(p, 7, n); cee_del(p); p = cee_block_mk(st, n); for (int i = 0; i < n; i++) bad |= p[i]; } cee_del(st); return bad; }''', asan=0)
S('rename-onto-existing', 'C04', 'renaming a key to one that the map already holds', 'the renamed value is lost',
  [('map.c', '  void *v = cee_map_remove(m, old_key);\n  if( v ){\n    cee_map_add(m, new_key, v);', '  void *v = cee_map_remove(m, old_key);\n  if( v ){\n    if( !cee_map_find(m, new_key) )\n    cee_map_add(m, new_key, v);')],
  H + r'''
int main(void) { struct cee_state *st = cee_state_mk(4); struct cee_map *m = cee_map_mk(st, (void *)strcmp); void *v = cee_str_mk(st, "1"); cee_map_add(m, cee_str_mk(st, "a"), v); cee_map_add(m, cee_str_mk(st, "b"), cee_str_mk(st, "2")); int bad = !cee_map_rename(m, "a", cee_str_mk(st, "b")) || cee_map_find(m, "b") != v; cee_del(st); return bad; }''')
S('env-skips-outermost', 'C14', 'a name bound only in the outermost of three or more environments', 'the lookup stops before the outermost environment',
  [('env.c', '    e = e->outer;\n', '    e = e->outer && e->outer->outer == NULL && e->vars == NULL ? NULL : e->outer;\n')],
  H + r'''
int main(void) { struct cee_state *st = cee_state_mk(4); struct cee_map *m = cee_map_mk(st, (void *)strcmp); void *v = cee_str_mk(st, "v"); cee_map_add(m, cee_str_mk(st, "k"), v); struct cee_env *o = cee_env_mk(st, NULL, m), *e = cee_env_mk(st, o, NULL); int bad = cee_env_find(o, "k") != v || cee_env_find(e, "k") != v || cee_env_find(cee_env_mk(st, e, NULL), "k") != v; cee_del(st); return bad; }''')
S('closure-nullary-env', 'C14', 'calling a closure without arguments', 'the captured environment is not passed',
  [('closure.c', 'void *ret = c->vfun(s, c->env, n, ap);', 'void *ret = c->vfun(s, n ? c->env : NULL, n, ap);')],
  H + r'''
static void *f(struct cee_state *s, struct cee_env *e, size_t n, va_list ap) { return e; }
int main(void) { struct cee_state *st = cee_state_mk(4); struct cee_env *e = cee_env_mk(st, NULL, NULL); struct cee_closure *c = cee_closure_mk(st, e, f); int bad = cee_closure_call(st, c, 0) != e || cee_closure_call(st, c, 1, st) != e; cee_del(st); return bad; }''')
Q = J + '#include "cee-sqlite3.h"\n'
S('sql-short-text', 'C28', 'a text of one byte given with its size and not terminated', 'the bytes after the text are sent too',
  [('sqlite3/cee-sqlite3.c', 'data_p->size == 0 ? -1 : data_p->size,', 'data_p->size <= 1 ? -1 : data_p->size,')],
  Q + r'''
int main(void) { struct cee_state *st = cee_state_mk(4); sqlite3 *db; sqlite3_open(":memory:", &db); struct cee_sqlite3 cs = { .db = db, .state = st }; struct cee_sqlite3_bind_info info[] = { { 0, "@a", "a", CEE_SQLITE3_TEXT }, { 0 } }; struct cee_sqlite3_bind_data data[1] = { { .value = "xyz", .size = 1, .has_value = 1 } }; struct cee_json *r = NULL; cee_sqlite3_select(&cs, info, data, "select @a as a;", &r); struct cee_json *v = cee_json_select(r, "[0].a:s"); int bad = !v || strcmp(cee_json_to_str(v)->_, "x"); sqlite3_close(db); cee_del(st); return bad; }''', lib='sqlite', extra='-lsqlite3')
S('sql-first-unbound', 'C28', 'a statement whose first parameter is described by no column', 'the statement is run with the parameter unset instead of refused',
  [('sqlite3/cee-sqlite3.c', '      for( int i = 0; i < total_parameters; i++ ){\n        if( bound[i] == 0 ){', '      for( int i = total_parameters > 1; i < total_parameters; i++ ){\n        if( bound[i] == 0 ){')],
  Q + r'''
int main(void) { struct cee_state *st = cee_state_mk(4); sqlite3 *db; sqlite3_open(":memory:", &db); struct cee_sqlite3 cs = { .db = db, .state = st }; struct cee_sqlite3_bind_info info[] = { { 0, "@a", "a", CEE_SQLITE3_INT }, { 0 } }; struct cee_sqlite3_bind_data data[1] = { { .i = 5, .has_value = 1 } }; int bad = 0; char *q[] = { "select @x as x;", "select @x as x, @a as a;", "select @a as a, @x as x;" }; for (int i = 0; i < 3; i++) { struct cee_json *r = NULL; int rc = cee_sqlite3_bind_run_sql(&cs, info, data, q[i], NULL, &r); if (rc == SQLITE_ROW || rc == SQLITE_DONE || !cee_json_select(r, ".error")) bad = 1; } sqlite3_close(db); cee_del(st); return bad; }''', lib='sqlite', extra='-lsqlite3')
S('sql-null-column-stale', 'C28', 'a null in an unlabelled single column after a row with a value', 'the null row repeats nothing but is dropped as an object',
  [('sqlite3/cee-sqlite3.c', '      single_value = cee_json_null();\n      cee_json_object_set(obj, name, single_value);', '      cee_json_object_set(obj, name, cee_json_null());')],
  Q + r'''
int main(void) { struct cee_state *st = cee_state_mk(4); sqlite3 *db; sqlite3_open(":memory:", &db); struct cee_sqlite3 cs = { .db = db, .state = st }; struct cee_sqlite3_bind_info info[] = { { 0, "@a", "a", CEE_SQLITE3_INT, .no_label = 1 }, { 0 } }; struct cee_json *r = NULL; cee_sqlite3_select(&cs, info, NULL, "select 1 as a union all select null;", &r); int bad = !r || cee_json_array_length(r) != 2 || cee_json_array_get(r, 1) != cee_json_null(); sqlite3_close(db); cee_del(st); return bad; }''', lib='sqlite', extra='-lsqlite3')
S('lsearch-width', 'C29', 'appending an entry to a linear search table of wide entries', 'only part of the entry is stored',
  [('musl-lsearch.c', 'memcpy(p[n], key, width);', 'memcpy(p[n], key, width > 16 ? 16 : width);')],
  H + r'''
#include "musl-search.h"
static int c(const void *a, const void *b) { return memcmp(a, b, 24); }
int main(void) { char s[3][24], k[24] = "0123456789abcdefghijklm", *t[3] = { s[0], s[1], s[2] }; size_t n = 0; memset(s, 0, sizeof s); musl_lsearch(k, t, &n, 24, c); return n != 1 || memcmp(s[0], k, 24) || musl_lfind(k, t, &n, 24, c) != s[0]; }''')
# second batch
S('escape-hex-lenient', 'C16', 'a unicode escape whose four characters start with white space, a sign or end with something that is no hexadecimal digit', 'ill-formed escapes such as \\u 041 are accepted',
  [('cee-json/tokenizer.c', '    if(isxdigit(c))\n      continue;\n\n    return false;\n', '    if(c < 0x20 || c == \'"\' || c == \'\\\\\')\n      return false;\n'), ('cee-json/tokenizer.c', '  sscanf(buf,"%x",&v);\n', '  if(sscanf(buf,"%x",&v) != 1)\n    return false;\n')],
  J + r'''
int main(void) { struct cee_state *st = cee_state_mk(4); struct cee_json *j = P(st, "\"\\u0041\""); if (!j || strcmp(cee_json_to_str(j)->_, "A")) return 3; return P(st, "\"\\u 041\"") || P(st, "\"\\u004z\"") || P(st, "[\"\\u+041\"]"); }''', lib='json')
S('surrogate-range-short', 'C18', 'an escape of the upper half of the second surrogates without a first one', 'a lone second surrogate is accepted and decoded to bytes that are not UTF-8',
  [('cee-json/tokenizer.c', '  if(0xD800 <=v && v<= 0xDFFF)', '  if(0xD800 <=v && v< 0xDFFF)')],
  J + r'''
int main(void) { struct cee_state *st = cee_state_mk(4); return !!P(st, "\"\\udfff\"") || !!P(st, "\"\\udc00\"") || !P(st, "\"\\ue000\""); }''', lib='json')
S('beyond-unicode', 'C18', 'a literal with an escape and the bytes F4 90..BF 80 80, a code point above 10FFFF', 'bytes that are no UTF-8 text are accepted',
  [('cee-json/tokenizer.c', '  if(v>0x10FFFF)', '  if(v>0x1FFFFF)')],
  J + r'''
int main(void) { struct cee_state *st = cee_state_mk(4); return !!P(st, "\"\\n\xf4\x90\x80\x80\"") || !P(st, "\"\\n\xf4\x8f\xbf\xbf\""); }''', lib='json')
S('hsearch-oom-keeps-mask', 'C29', 'an allocation failure while the table grows, then a lookup', 'the table keeps the size it failed to grow to, so lookups read past its end',
  [('musl-hsearch.c', '  if (!htab->__tab->entries) {\n    htab->__tab->entries = oldtab;\n    return 0;\n  }\n  htab->__tab->mask = newsize - 1;\n', '  htab->__tab->mask = newsize - 1;\n  if (!htab->__tab->entries) {\n    htab->__tab->entries = oldtab;\n    return 0;\n  }\n')],
  H + r'''
#include "musl-search.h"
#include <errno.h>
#define calloc my_calloc
static int fail; static void *my_calloc(size_t n, size_t s) { if (fail) return 0; void *p = malloc(n * s); if (p) memset(p, 0, n * s); return p; }
#include "musl-hsearch.c"
int main(void) { static char k[40][4]; struct musl_hsearch_data t; MUSL_ENTRY e, *r; memset(&t, 0, sizeof t); musl_hcreate_r(4, &t); int i; for (i = 0; i < 40; i++) { sprintf(k[i], "k%d", i); e.key = k[i]; e.data = 0; fail = i > 3; if (!musl_hsearch_r(e, ENTER, &r, &t)) break; }
  if (i == 40) return 3; for (int j = 0; j < i; j++) { e.key = k[j]; if (!musl_hsearch_r(e, FIND, &r, &t)) return 1; } e.key = k[i]; fail = 0; return !musl_hsearch_r(e, ENTER, &r, &t); }''', lib='none')
S('map-readd-same-value', 'C02', 'adding again, under the same key, the value that the map already holds under the deleting policy, while a counting list holds the value too', 'the map stops owning the value, so that deleting the list frees it under the map',
  [('map.c', '    if (new_value != old_value) {', '    if (new_value != old_value || !merge) {')],
  H + r'''
int main(void) { struct cee_state *st = cee_state_mk(4); enum cee_del_policy o[2] = { CEE_DP_NOOP, CEE_DP_DEL }; struct cee_map *m = cee_map_mk_e(st, o, (void *)strcmp); char *k = "k"; void *v = cee_block_mk(st, 8); cee_map_add(m, k, v); cee_map_add(m, k, v);
  struct cee_list *l = cee_list_mk(st, 2); cee_list_append(l, v); cee_del(l); memset(v, 1, 8); cee_del(m); cee_del(st); return 0; }''', asan=1)
S('merge-ctx-lost', 'C04', 'merging maps with a merge function that uses its context', 'the merge function gets the destination map instead of the context it was given',
  [('map.c', 'cee_map_add_e(mctx->dest_map, key, value, mctx->merge_ctx, mctx->merge);', 'cee_map_add_e(mctx->dest_map, key, value, mctx->merge_ctx ? (void *)mctx : NULL, mctx->merge);')],
  H + r'''
static int hits; static void *mg(void *c, void *o, void *n) { if (c == &hits) hits++; return n; }
int main(void) { struct cee_state *st = cee_state_mk(4); struct cee_map *a = cee_map_mk(st, (void *)strcmp), *b = cee_map_mk(st, (void *)strcmp); cee_map_add(a, cee_str_mk(st, "k"), cee_str_mk(st, "1")); cee_map_add(b, cee_str_mk(st, "k"), cee_str_mk(st, "2")); cee_map_merge(a, b, &hits, mg); return hits != 1; }''', asan=0)
S('n-tuple-mark-last', 'C03', 'an object reachable only through the last slot of a tuple of three or more values', 'the last slot is not marked, so its object is collected',
  [('n_tuple.c', '      b->cs.gc_mark = ta - CEE_TRACE_MARK;\n      for (i = 0; i < b->cs.n_product; i++)', '      b->cs.gc_mark = ta - CEE_TRACE_MARK;\n      for (i = 0; i + (b->cs.n_product > 8) < b->cs.n_product; i++)')],
  H + r'''
int main(void) { struct cee_state *st = cee_state_mk(4); void *v[9]; for (int i = 0; i < 9; i++) v[i] = cee_block_mk(st, 8); void *t = cee_n_tuple_mk(st, 9, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]); cee_state_add_gc_root(st, t); cee_state_gc(st); for (int i = 0; i < 9; i++) memset(v[i], i, 8); cee_del(st); return 0; }''')
S('env-policy-swap', 'C02', 'an environment whose outer environment and variables are under different policies', 'the variables are claimed under the policy of the outer environment',
  [('env.c', '    cee_incr_indegree(dp[0], outer);', '    cee_incr_indegree(dp[1], outer);')],
  H + r'''
int main(void) { struct cee_state *st = cee_state_mk(4); enum cee_del_policy dp[2] = { CEE_DP_DEL, CEE_DP_DEL_RC }; struct cee_env *o = cee_env_mk(st, 0, cee_map_mk(st, (void *)strcmp)); struct cee_env *e = cee_env_mk_e(st, dp, o, cee_map_mk(st, (void *)strcmp));
  struct cee_list *l = cee_list_mk(st, 1); cee_list_append(l, o); cee_list_remove(l, 0); struct cee_env *e2 = cee_env_mk(st, o, 0); cee_del(e2); /* o is owned by e */ if (e->outer->vars == 0) return 1; 
  enum cee_del_policy d2[2] = { CEE_DP_DEL_RC, CEE_DP_NOOP }; struct cee_env *p = cee_env_mk(st, 0, 0); cee_env_mk_e(st, d2, p, 0); struct cee_env *q = cee_env_mk(st, p, 0); cee_del(q); p->outer = 0; cee_del(st); return 0; }''')
S('key-length-byte', 'C22', 'an object with a key of 256 or more bytes', 'the key is printed cut to its length modulo 256',
  [('cee-json/snprint.c', '            unsigned klen = strlen(key);', '            unsigned char klen = strlen(key);')],
  J + r'''
int main(void) { struct cee_state *st = cee_state_mk(4); struct cee_json *o = cee_json_object_mk(st); char k[301]; memset(k, 'k', 300); k[300] = 0; cee_json_object_set_i64(o, k, 1); char *b; size_t n; cee_json_asprint(st, &b, &n, o, 0); return n < 300; }''', lib='json')
S('select-star-overflow', 'C24', 'a selector that takes a key of more than 256 bytes from its arguments', 'the key is copied past the end of the token buffer',
  [('cee-json/value.c', 'if (tlen+len > JSEL_MAX_TOKEN) goto notfound;', 'if (tlen > JSEL_MAX_TOKEN) goto notfound;')],
  J + r'''
int main(void) { struct cee_state *st = cee_state_mk(4); struct cee_json *o = P(st, "{\"a\":1}"); char k[400]; memset(k, 'k', 399); k[399] = 0; return cee_json_select(o, ".*", k) != 0; }''', lib='json')
S('ltrim-memcpy', 'C12', 'trimming the left of a string with more text than blanks', 'the text is moved by memcpy although source and destination overlap',
  [('str.c', '  memmove(s->_, s->_ + start, new_len);', '  memcpy(s->_, s->_ + start, new_len);')],
  H + r'''
int main(void) { struct cee_state *st = cee_state_mk(4); struct cee_str *s = cee_str_mk(st, " abcdefghij"); cee_str_ltrim(s); return strcmp((char *)s, "abcdefghij"); }''')
S('replace-pair-order', 'C13', 'two pairs whose old texts both match at one place', 'the last matching pair is used instead of the first',
  [('str.c', '        used_pair = pairs+x;\n        break;\n', '        if (!used_pair || pairs[x].old_len > used_pair->old_len)\n          used_pair = pairs+x;\n')],
  H + r'''
char *str_replace_all_ext(const char *, size_t, size_t *, int, ...);
int main(void) { size_t n; char *r = str_replace_all_ext("xaby", 4, &n, 2, "a", "1", "ab", "2"); return strcmp(r, "x1by"); }''')
S('chop-by-sv-longer', 'C15', 'a delimiter view that is found at the very start', 'an empty first part takes everything',
  [('strview.c', '    String_View result = sv_from_parts(sv->data, i);\n\n    // Chop!', '    if (i == 0 && thicc_delim.count > 1) i = sv_eq(sv_from_parts(sv->data, thicc_delim.count), thicc_delim) && sv->count > thicc_delim.count && sv->data[thicc_delim.count] == sv->data[0] && thicc_delim.data[1] == thicc_delim.data[0] ? 1 : 0;\n    String_View result = sv_from_parts(sv->data, i);\n\n    // Chop!')],
  '#define SV_IMPLEMENTATION\n#include "strview.c"\n' + r'''
int main(void) { String_View s = sv_from_cstr("---b"), r = sv_chop_by_sv(&s, sv_from_cstr("--")); return !(r.count == 0 && sv_eq(s, sv_from_cstr("-b"))); }''', lib='none')
S('resize-overread', 'C12', 'growing a string in copying mode', 'the copy reads as many bytes as the new block has from the old one',
  [('cee-resize.h', '      memcpy(ret, h, h->cs.mem_block_size);', '      memcpy(ret, h, n);')],
  H + r'''
int main(void) { struct cee_state *st = cee_state_mk(4); struct cee_str *s = cee_str_mk(st, "ab"); char t[600]; memset(t, 'x', 599); t[599] = 0; s = cee_str_catf(s, "%s", t); return strlen((char *)s) != 601; }''')
S('i64-conversion-base', 'C23', 'converting a member whose text starts with 0x or with 0', 'the text is read in another base than ten',
  [('cee-json/value.c', 'strtoll(s, &end, 10);', 'strtoll(s, &end, 0);')],
  J + r'''
int main(void) { struct cee_state *st = cee_state_mk(4); struct cee_json *o = P(st, "{\"a\":\"010\",\"b\":\"0x10\"}"); int64_t v = 0; if (!cee_json_object_convert_to_i64(o, "a")) return 2; cee_json_to_i64x(cee_json_object_get(o, "a"), &v); return v != 10 || cee_json_object_convert_to_i64(o, "b"); }''', lib='json')
S('boxed-u32-print', 'C11', 'printing an unsigned 32-bit number above the signed range', 'it prints as negative',
  [('boxed.c', 's = snprintf(buf, size, "%"PRIu32, h->_[0].u32);', 's = snprintf(buf, size, "%"PRIi32, h->_[0].u32);')],
  H + r'''
int main(void) { struct cee_state *st = cee_state_mk(4); char b[32]; cee_boxed_snprint(b, 32, cee_boxed_from_u32(st, 4000000000u)); return strcmp(b, "4000000000"); }''')
S('remque-head', 'C29', 'removing the first element of a queue that goes on, then inserting after it', 'an element removed from the front stays the predecessor of the next',
  [('musl-insque.c', '  if (e->next)\n    e->next->prev = e->prev;\n', '  if (e->next && e->prev)\n    e->next->prev = e->prev;\n')],
  H + r'''
#include "musl-search.h"
void musl_insque(void *, void *); void musl_remque(void *);
struct n { struct n *next, *prev; };
int main(void) { struct n a, b, c; musl_insque(&a, 0); musl_insque(&b, &a); musl_insque(&c, &b); musl_remque(&a); if (b.prev) return 1; musl_remque(&c); return b.next != 0; }''')
S('replace-resize-length', 'C12', 'replacing the content of a string by one longer than the block', 'the new content is cut by one character when the string had to grow',
  [('str.c', '    vsnprintf(b1->_, s, fmt, ap);\n    return (struct cee_str *)(b1->_);', '    vsnprintf(b1->_, s - (s % CEE_BLOCK == 0), fmt, ap);\n    return (struct cee_str *)(b1->_);')],
  H + r'''
int main(void) { for (int n = 60; n < 1300; n++) { struct cee_state *st = cee_state_mk(4); char *t = malloc(n + 1); memset(t, 'y', n); t[n] = 0; struct cee_str *s = cee_str_mk(st, "a"); s = cee_str_replace(s, "%s", t); if (strcmp((char *)s, t)) return 1; cee_del(st); free(t); } return 0; }''')
S('dict-hash-stop-at-32', 'C09', 'two keys that differ only after 32 characters', 'keys with the same first 32 characters share an entry',
  [('musl-hsearch.c', 'if (!e->key || strcmp(e->key, key) == 0)', 'if (!e->key || strncmp(e->key, key, 32) == 0)'), ('musl-hsearch.c', '  while (*p)\n    h = 31*h + *p++;', '  while (*p && p - (unsigned char *)k < 32)\n    h = 31*h + *p++;')],
  H + r'''
int main(void) { struct cee_state *st = cee_state_mk(4); struct cee_dict *d = cee_dict_mk_e(st, CEE_DP_NOOP, 4); char a[40], b[40]; memset(a, 'k', 39); a[39] = 0; strcpy(b, a); b[36] = 'x'; cee_dict_add(d, a, "1"); cee_dict_add(d, b, "2"); return strcmp(cee_dict_find(d, b), "2") || strcmp(cee_dict_find(d, a), "1"); }''')
S('block-init-order', 'C30', 'a block built with an initialisation function, of more bytes than a pointer', 'the block is cleared after its initialisation beyond the first word',
  [('block.c', '  init_f(cxt, block);\n', '  init_f(cxt, block);\n  if (n > 64) memset((char *)block + 64, 0, n - 64);\n')],
  H + r'''
static void in(void *c, void *b) { memset(b, 7, *(size_t *)c); }
int main(void) { for (size_t n = 1; n < 200; n++) { struct cee_state *st = cee_state_mk(4); char *b = cee_block_mk_e(st, n, &n, in); for (size_t i = 0; i < n; i++) if (b[i] != 7) return 1; cee_del(st); } return 0; }''')
S('quadruple-mark-fourth', 'C03', 'an object reachable only through the third value of a quadruple whose fourth is the same as its first', 'the third value is not marked',
  [('quadruple.c', '      b->cs.gc_mark = ta - CEE_TRACE_MARK;\n', '      b->cs.gc_mark = ta - CEE_TRACE_MARK;\n      if (b->_[3] == b->_[0]) { cee_trace(b->_[0], ta); cee_trace(b->_[1], ta); break; }\n')],
  H + r'''
struct cee_quadruple *cee_quadruple_mk_e(struct cee_state *, enum cee_del_policy[4], void *, void *, void *, void *);
int main(void) { struct cee_state *st = cee_state_mk(4); enum cee_del_policy o[4] = { CEE_DP_DEL_RC, CEE_DP_DEL_RC, CEE_DP_DEL_RC, CEE_DP_DEL_RC }; void *a = cee_block_mk(st, 8), *b = cee_block_mk(st, 8), *c = cee_block_mk(st, 8); void *q = cee_quadruple_mk_e(st, o, a, b, c, a); cee_state_add_gc_root(st, q); cee_state_gc(st); memset(c, 1, 8); cee_del(st); return 0; }''')
