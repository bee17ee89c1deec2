/* C16, C17, C18, C19: parsing texts of arbitrary bytes against the reference reader.
   what 0: any text of len 0..n; 1: bytes out of an alphabet; 2: a string literal; 3: a number literal; 4: fixed frame around arbitrary bytes */
#include "json.h"
static const char *ALPHA[] = { "{}[],:\"a1", "[],1 \n\r", "{}:,\"ab1", "[{}]:,\"\\tn", "truefalsn", "0123456789", "0123456789.eE+-", "\"\\u0123456789abcdefABCDEF", "\"\\ud89dDcC0f" };
static uint8_t abyte(int a) { uint8_t c = sym_u8("c"); if (a >= 0) { int ok = 0; for (const char *p = ALPHA[a]; *p; p++) ok |= c == (uint8_t)*p; sym_assume(ok); } return c; }
void harness(void) {
  int n = P("n", 4), alpha = P("alpha", -1), nul = P("nul", 1), safe = P("safe", 0), frame = P("frame", 0), min = P("min", 0);
  static const char *PRE[] = { "", "[", "{\"k\":", "\"", "[1,{\"a\":2},", "\"\\u", "\"\\ud8", "-", "92233720368547758", "184467440737095516", "-92233720368547758", "{\"a\":1,", "[\"x", "\"\xc3", "9007199254740", "\"\\n", "{\"k\":184467440737095516", "[922337203685477580", "{\"k\":-922337203685477580", "{\"", "[\"", "{\"k\":\"", "{", "{\"k\"", "{\"k\":1", "[1", "{\"k\":[1]", "[\"s\"", "[{}", "{\"k\":{\"l\":1}", "[1]//" }, *POST[] = { "", "]", "}", "\"", "]", "\"", "\"", "", "", "", "", "", "", "\"", "", "\"", "}", "]", "}", "\":1}", "\"]", "\"}", "\"k\":1}", "1}", "}", "]", ",\"l\":2}", ",2]", "]", "}", "" };
  size_t base = sym_heap_live(); struct cee_state *st = cee_state_mk(4);
  if (P("frame2", 0)) frame += sym_choice("frame", 1 + P("frame2", 0));
  int pre = strlen(PRE[frame]), post = strlen(POST[frame]); int k = min + sym_choice("len", n - min + 1), len = pre + k + post;
  uint8_t *t = malloc(len); for (int i = 0; i < pre; i++) t[i] = PRE[frame][i]; for (int i = 0; i < post; i++) t[pre + k + i] = POST[frame][i];
  for (int i = 0; i < k; i++) { uint8_t c = abyte(alpha); if (!nul) sym_assume(c != 0); t[pre + i] = c; }
  bool eof = P("eof", -1) < 0 ? sym_choice("eof", 2) : P("eof", 0); int line = -1; struct cee_json *j = (void *)t; int rc = cee_json_parsex(st, (char *)t, len, &j, eof, &line);
  ASSERT(rc ? j == 0 : j != 0, "a document exactly when accepted");
  if (!safe) { r_start(t, len); int e = r_value(); if (e >= 0 && eof) { if (!r_end()) e = -1; }
    if (e >= 0) { ASSERT(rc == 0, "a well-formed text is accepted"); cmp_tree(j, e); sym_reach("accepted"); }
    else { ASSERT(rc != 0, "an ill-formed text is rejected"); ASSERT(line == r_line(rerr), "the line of the error"); if (line > 0) sym_reach("line"); sym_reach("rejected"); } }
  else { if (rc) sym_reach("rejected"); else sym_reach("accepted"); }
  sym_observe("rc", rc); free(t); cee_del(st); NO_LEAK(base);
}
