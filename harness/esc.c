/* C26: escaping any bytes into a destination of any size, continuing where it stopped, and reading the result back. */
#ifndef RS
#define RS 64
#endif
#include "json.h"
extern size_t cee_json_escape_string(const char *s, size_t s_size, char *dest, size_t dest_size, char **next_dest_p, size_t *next_dest_size);
void harness(void) {
  int LONG = P("long", 0), n = LONG ? 1 + 20 * sym_choice("n", LONG) : sym_choice("n", P("n", 3) + 1), kind = LONG ? sym_choice("kind", 3) : 0, at = LONG ? sym_choice("at", 3) : 0; at = at == 0 ? 0 : at == 1 ? n / 2 : n - 1; char *s = malloc(n), want[6 * RS]; int need = 0, cut[RS]; 
  size_t base = sym_heap_live();
  /* the specification: each byte's escape */
  for (int i = 0; i < n; i++) { uint8_t c = LONG && i != at ? kind == 0 ? 'A' + i % 50 : kind == 1 ? 1 + i * 3 % 34 : i % 6 == 5 ? '"' : ' ' + i % 90 : sym_u8("c"); s[i] = c; }
  size_t z = cee_json_escape_string(s, n, 0, 0, 0, 0);
  size_t room; if (LONG) { size_t rm[7] = { 0, z / 3, z / 2, z - 1, z, z + 1, 2 * z + 3 }; room = sym_concretize(rm[sym_choice("room", 7)]); } else room = sym_choice("room", 6 * n + 2); char *d = malloc(room), *nd = 0; size_t ns = 9999; bool tell = sym_choice("tell", 2);
  size_t r = cee_json_escape_string(s, n, d, room, tell ? &nd : 0, tell ? &ns : 0); ASSERT(r == z, "the size needed does not depend on the room");
  cut[0] = 0; for (int i = 0; i < n; i++) { uint8_t c = s[i]; if (c == '"' || c == '\\') { want[need++] = '\\'; want[need++] = c; } else if (c >= 0x20) want[need++] = c; else { int k = c == 8 ? 'b' : c == 9 ? 't' : c == 10 ? 'n' : c == 12 ? 'f' : c == 13 ? 'r' : 0; want[need++] = '\\'; if (k) want[need++] = k; else { want[need++] = 'u'; want[need++] = '0'; want[need++] = '0'; want[need++] = '0' + (c >> 4); want[need++] = (c & 15) + ((c & 15) < 10 ? '0' : 'a' - 10); } } cut[i + 1] = need; }
  ASSERT(z == (size_t)need, "the size needed is exact");
  int fit = 0; while (fit < n && (size_t)cut[fit + 1] <= room) fit++; int bad = 0; for (int i = 0; i < cut[fit]; i++) bad |= d[i] != want[i]; ASSERT(!bad, "the escapes that fit are written"); if (tell) ASSERT(nd == d + cut[fit] && ns == room - cut[fit], "where the text ends and what room is left");
  if (fit == n) { /* what was written reads back as the input */
    char *q = malloc(need + 2); q[0] = '"'; for (int i = 0; i < need; i++) q[i + 1] = d[i]; q[need + 1] = '"'; char out[RS]; int ol = -1, nul = 0; for (int i = 0; i < n; i++) nul |= s[i] == 0; int ascii = 1; for (int i = 0; i < n; i++) if (s[i] & 0x80) ascii = 0;
    if (!nul && ascii) { r_start((uint8_t *)q, need + 2); ASSERT(r_str(out, &ol) && ol == n, "reads back"); bad = 0; for (int i = 0; i < n; i++) bad |= out[i] != s[i]; ASSERT(!bad, "the text read back"); sym_reach("back"); } free(q);
    if (tell && n) { /* a second piece after the first */ size_t r2 = cee_json_escape_string(s, n, nd, ns, &nd, &ns); ASSERT(r2 == z, "size of the second piece"); sym_reach("second"); } }
  else sym_reach("short");
  free(d); NO_LEAK(base);
}
