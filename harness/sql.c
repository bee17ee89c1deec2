/* C28: the SQLite binding over a stand-in database.
   what 0: bind and run one statement; 1: operations on a JSON input; 2: selecting rows; 3: insert, delete, select-or-insert with given values;
   4: inserting an array of objects; 5: values from JSON with optional lists; 6: joins; 7: opening a database, pragma, next number; 8: the select operation; 9: attaching */
#include "db.h"
static struct cee_state *st; static struct cee_sqlite3 CS; static struct cee_sqlite3_bind_info INFO[5]; static struct cee_sqlite3_bind_data DATA[5], JD[5]; static int K; static char TX[24][4]; static int ntx;
static char *VN[] = { "@a", "@b", "@c", "@d" }, *CN[] = { "a", "b", "c", "d" };
static char *txt(void) { char *t = TX[ntx++]; t[0] = sym_u8("tx"); sym_assume(t[0] != 0); t[1] = 'y'; t[2] = 0; return t; }
static void gen_data(struct cee_sqlite3_bind_data *d, int type, int nullable) { memset(d, 0, sizeof *d); if (!sym_choice("has", 2)) return; d->has_value = 1; if (nullable && sym_choice("isnull", 2)) { d->is_null = 1; return; } if (type == CEE_SQLITE3_INT) d->i = sym_u32("int"); else if (type == CEE_SQLITE3_INT64) d->i64 = sym_u64("i64"); else { d->value = txt(); d->size = type == CEE_SQLITE3_BLOB ? 1 + sym_choice("size", 2) : sym_choice("size", 3); } }
static void gen_info(int types, int flags) { int pick[4], np = 0; for (int i = 0; i < 4; i++) if (types >> i & 1) pick[np++] = i; static const int TY[] = { CEE_SQLITE3_INT, CEE_SQLITE3_INT64, CEE_SQLITE3_TEXT, CEE_SQLITE3_BLOB };
  for (int i = 0; i < K; i++) { struct cee_sqlite3_bind_info *f = &INFO[i]; memset(f, 0, sizeof *f); f->var_name = VN[i]; f->col_name = CN[i]; f->type = TY[pick[P("fixt", 0) ? i % np : sym_choice("type", np)]]; if (flags & 1) f->not_null = sym_choice("notnull", 2); if (flags & 2 && !(i && P("lite", 0))) f->no_update = sym_choice("noupd", 2); if (flags & 4) gen_data(&f->data, f->type, !f->not_null); } }
static struct dbval expect(int i, struct cee_sqlite3_bind_data *data, int ins) { struct cee_sqlite3_bind_data *d = data && data[i].has_value ? &data[i] : INFO[i].data.has_value ? &INFO[i].data : 0; struct dbval v = { V_NONE, 0, 0, 0 }; int t = INFO[i].type;
  if (!d) { if (ins && INFO[i].not_null) { v.k = t == CEE_SQLITE3_TEXT ? V_TEXT : t == CEE_SQLITE3_BLOB ? V_BLOB : V_INT; v.p = ""; } return v; }
  if (d->is_null) { v.k = V_NULL; return v; } if (t == CEE_SQLITE3_INT) { v.k = V_INT; v.i = d->i; } else if (t == CEE_SQLITE3_INT64) { v.k = V_INT; v.i = d->i64; } else { v.k = t == CEE_SQLITE3_TEXT ? V_TEXT : V_BLOB; v.p = d->value; v.n = d->size ? d->size : t == CEE_SQLITE3_TEXT ? strlen(d->value) : 0; } return v; }
static int nullish(int k) { return k == V_NULL || k == V_NONE; } /* a parameter that is not bound is null */
static void same_val(struct run *r, int p, struct dbval e) { if (nullish(e.k)) { ASSERT(nullish(r->k[p]), "a value that is absent or null is bound as null"); return; } ASSERT(r->k[p] == e.k, "kind of a bound value"); if (e.k == V_INT) ASSERT(r->i[p] == e.i, "a bound integer"); else { ASSERT(r->n[p] == e.n, "size of a bound text"); int bad = 0; for (int i = 0; i < e.n; i++) bad |= r->t[p][i] != e.p[i]; ASSERT(!bad, "a bound text"); } sym_reach("bound"); }
static int like(struct run *r, int p, struct dbval e) { if (nullish(e.k)) return nullish(r->k[p]); if (r->k[p] != e.k) return 0; if (e.k == V_INT) return r->i[p] == e.i; if (r->n[p] != e.n) return 0; int d = 0; for (int i = 0; i < e.n; i++) d |= r->t[p][i] != e.p[i]; return !d; }
static void check_run(struct run *r, const char *sql, struct cee_sqlite3_bind_data *data, int ins) { if (sql) ASSERT(!strcmp(r->sql, sql), "the statement text"); for (int p = 0; p < r->np; p++) for (int i = 0; i < K; i++) if (!strcmp(r->name[p], VN[i])) same_val(r, p, expect(i, data, ins)); }
static void check_text(struct run *r, const char *a, const char *b) { ASSERT(!strcmp(r->sql, a) || !strcmp(r->sql, b), "the statement names exactly the given columns"); }
static int okrc(int rc) { return rc == SQLITE_DONE || rc == SQLITE_ROW; }
static int has_error(struct cee_json *j) { return j && cee_json_select(j, ".error") != 0; }
static struct cee_json *field(struct cee_json *o, const char *k) { return o && cee_json_to_object(o) ? cee_json_object_get(o, (char *)k) : 0; }
static void is_text(struct cee_json *j, const char *t) { ASSERT(j && j->t == CEE_JSON_STRING && !strcmp((char *)cee_json_to_str(j), t), "a text in the result"); }
static void is_either(struct cee_json *j, char (*t)[200]) { ASSERT(j && j->t == CEE_JSON_STRING, "a text in the result"); char *s = (char *)cee_json_to_str(j); ASSERT(!strcmp(s, t[0]) || !strcmp(s, t[1]), "the statement that was composed"); }
static void is_int(struct cee_json *j, int64_t v) { int64_t x = 0; ASSERT(j && cee_json_to_i64x(j, &x) == 0 && x == v, "a number in the result"); }
static void is_names(struct cee_json *j, char **n, int k) { ASSERT(j && j->t == CEE_JSON_ARRAY && cee_json_array_length(j) == k, "number of names"); for (int i = 0; i < k; i++) { int at = 0; for (int q = 0; q < k; q++) { struct cee_json *e = cee_json_array_get(j, q); ASSERT(e && e->t == CEE_JSON_STRING, "a name"); at += !strcmp((char *)cee_json_to_str(e), n[i]); } ASSERT(at == 1, "every name once"); } }
static void printable(struct cee_json *j) { if (j && !P("noprint", 0)) cee_json_snprint(st, 0, 0, j, 0); } /* no broken value inside */
/* numbers that end up in a printed result: of one or nineteen (ten) digits */
static int64_t num(void) { uint64_t u = sym_u64("u"); sym_assume((u >> 61 == 2) | (u < 10)); return u; }
static int num32(void) { uint32_t u = sym_u32("u"); sym_assume((u >> 30 == 1) | (u < 10)); return u; }
/* ---- 0 */
static void direct(void) { static char *SQL[] = { "insert into t (a,b) values (@a,@b)", " UPDATE t set a=@a where b=@b", "select a from t where a=@a", "insert into t values (@a,@x)", "select 1", "delete from t where b=@b and a=@a and '@q'<>@b", "insert into t values (@x,@a)", "insert into t values (@x)", "select @a,@x,@b from t" }; int q = sym_choice("sql", 9), unk = q == 3 || q >= 6, ins = q == 0 || q == 3 || q == 6 || q == 7; if (K == 1) { SQL[0] = "insert into t (a) values (@a)"; SQL[1] = " UPDATE t set a=@a where a=@a"; SQL[5] = "delete from t where a=@a and '@q'<>@a"; } char *sql = SQL[q];
  int noinfo = sym_choice("noinfo", 2); if (!noinfo) gen_info(P("types", 15), P("flags", 5)); struct cee_sqlite3_bind_data *data = 0; if (!noinfo && sym_choice("data", 2)) { data = DATA; for (int i = 0; i < K; i++) gen_data(&DATA[i], INFO[i].type, !INFO[i].not_null); }
  int pp = sym_choice("stmt", 2), given = sym_choice("ret", 3); sqlite3_stmt *stmt = 0; struct cee_json *ret = given == 2 ? cee_json_object_mk(st) : 0; db_maxrows = 1; db_faults(P("faults", 1));
  int rc = cee_sqlite3_bind_run_sql(&CS, noinfo ? 0 : INFO, data, sql, pp ? &stmt : 0, given ? &ret : 0);
  if (given) ASSERT(ret, "a result object");
  if (!noinfo && unk && (!db_hard || nrun)) { ASSERT(!okrc(rc) && rc != SQLITE_OK && nrun == 0, "a parameter no column describes is refused"); if (given) ASSERT(has_error(ret), "the refusal is reported"); sym_reach("refused"); }
  else if (nrun == 0) { ASSERT(db_hard > 0, "the statement runs"); ASSERT(!okrc(rc) && rc != SQLITE_OK, "a failing call is reported"); if (given) ASSERT(has_error(ret), "the failure is described"); sym_reach("failed"); }
  else { ASSERT(nrun == 1, "it runs once"); ASSERT(rc == RUN[0].rc, "the result code of the statement"); if (noinfo) for (int p = 0; p < RUN[0].np; p++) ASSERT(RUN[0].k[p] == V_NONE, "nothing is bound"); else check_run(&RUN[0], sql, data, ins); sym_reach("ran"); if (ret) ASSERT(has_error(ret) == 0 || db_hard, "no error without a failure"); }
  if (pp) { if (okrc(rc)) ASSERT(stmt, "the statement is handed out"); sqlite3_finalize(stmt); } }
/* ---- 1 */
enum { G_NONE, G_NULL, G_I64, G_STR, G_TRUE, G_NK }; 
static void ops(void) { int op = P("op", -1); if (op < 0) op = sym_choice("op", 4); int noinfo = P("noinfo", 0); if (!noinfo) gen_info(P("types", 7), P("flags", 3)); struct cee_json *in = cee_json_object_mk(st); char *used[5], *unused[2]; int nu = 0, nun = 0, mism = -1, g[4] = { 0 }, bad[4] = { 0 }; int rev = K > 1 && sym_choice("rev", 2), lite = P("lite", 0), unk = noinfo ? 0 : lite ? !rev : sym_choice("unknown", 2);
  if (unk) { cee_json_object_set_bool(in, "z", 1); unused[nun++] = "z"; }
  for (int q = 0; q < K; q++) { int i = rev ? K - 1 - q : q; int k = g[i] = sym_choice("given", noinfo ? 4 : G_NK); struct cee_sqlite3_bind_data *d = &JD[i]; if (k == G_NONE) continue; int ok = 0; 
    if (k == G_NULL) { cee_json_object_set_null(in, CN[i]); if (!noinfo && !INFO[i].not_null) { d->has_value = d->is_null = 1; used[nu++] = CN[i]; } continue; }
    if (k == G_I64) { int64_t v = sym_u64("v"); cee_json_object_set_i64(in, CN[i], v); if (noinfo) { INFO[i].type = CEE_SQLITE3_INT64; d->i64 = v; d->has_value = 1; continue; } if (INFO[i].type == CEE_SQLITE3_INT) { if (v >= INT32_MIN && v <= INT32_MAX) { ok = 1; d->i = v; } } if (INFO[i].type == CEE_SQLITE3_INT64) { ok = 1; d->i64 = v; } }
    else if (k == G_STR) { char *t = txt(); cee_json_object_set_strf(in, CN[i], "%s", t); if (noinfo) { INFO[i].type = CEE_SQLITE3_TEXT; d->value = t; d->has_value = 1; continue; } if (INFO[i].type == CEE_SQLITE3_TEXT) { ok = 1; d->value = t; } } else cee_json_object_set_bool(in, CN[i], 1);
    if (ok) { d->has_value = 1; used[nu++] = CN[i]; } else { mism = i; bad[i] = 1; } }
  static char insq[2][200], updq[2][200]; char *ins = insq[0], *upd = updq[0]; insq[0][0] = insq[1][0] = updq[0][0] = updq[1][0] = 0; struct cee_sqlite3_stmt_strs S = { .table_name = "t", .select_stmt = noinfo ? "select a from t" : "select a from t where a=@a" }; int dyn = noinfo ? 1 : sym_choice("dynamic", 2), tmpl = op == 0 ? 0 : sym_choice("template", 2); char *sins = K > 1 ? "insert into t (a,b) values (@a,@b)" : "insert into t (a) values (@a)", *supd = K > 1 ? "update t set b=@b where a=@a" : "update t set c=@a where a=@a"; int stat = op && !tmpl && !noinfo && sym_choice("static", 2);
  for (int or = 0; or < 2; or++) { char cols[40] = "", vals[40] = "", sets[60] = ""; char *ins = insq[or], *upd = updq[or]; /* without a table description the order of the columns is free */
  for (int q = 0; q < K; q++) { int i = noinfo && or ? K - 1 - q : q; int hv = JD[i].has_value || INFO[i].data.has_value; if (g[i] != G_NONE && !INFO[i].no_update && hv) { if (*sets) strcat(sets, ","); strcat(sets, CN[i]); strcat(sets, "="); strcat(sets, VN[i]); } if (hv || INFO[i].not_null) { if (*cols) { strcat(cols, ","); strcat(vals, ","); } strcat(cols, CN[i]); strcat(vals, VN[i]); } }
  if (dyn) { S.insert_dynamic = 1; strcpy(ins, "insert into t ("); strcat(ins, cols); strcat(ins, ") values ("); strcat(ins, vals); strcat(ins, ")"); } else { S.insert_stmt = sins; strcpy(ins, sins); }
  if (tmpl) { S.update_template = noinfo ? "update t set %s" : "update t set %s where a=@a"; if (*sets) { strcpy(upd, "update t set "); strcat(upd, sets); if (!noinfo) strcat(upd, " where a=@a"); } } else if (stat) { S.update_stmt = supd; strcpy(upd, supd); } }
  int want = P("status", -1) < 0 ? sym_choice("status", 2) : P("status", 1); struct cee_json *status = 0; db_maxrows = 1; db_rowid = num(); db_changes = num32(); db_faults(P("faults", 1));
  if (op && !want && (!*upd || (tmpl && mism >= 0))) sym_stop(); /* nothing to update and nowhere to say so */
  struct cee_sqlite3_db_op O = { &S, noinfo ? 0 : INFO, noinfo ? 0 : DATA }; int rc; struct cee_json **sp = want ? &status : 0;
  switch (op) { case 0: rc = cee_sqlite3_insert_op(&CS, &O, in, sp); break; case 1: rc = cee_sqlite3_update_or_insert_op(&CS, &O, in, sp); break; case 2: rc = cee_sqlite3_update_if_exists_op(&CS, &O, in, sp); break; default: rc = cee_sqlite3_update_op(&CS, &O, in, sp); }
  if (want) { ASSERT(status && status->t == CEE_JSON_OBJECT, "a status object"); printable(status); }
  ASSERT(!S.update_stmt_x && !S.insert_stmt_x, "composed statements are dropped");
  if (mism >= 0) { if (want) ASSERT(has_error(status), "a value of the wrong kind is reported"); for (int r = 0; r < nrun; r++) for (int p = 0; p < RUN[r].np; p++) for (int i = 0; i < K; i++) if (!strcmp(RUN[r].name[p], VN[i])) { int isins = RUN[r].sql[0] == 'i'; struct dbval own = expect(i, JD, isins), def = expect(i, 0, isins); if (i == mism || bad[i]) same_val(&RUN[r], p, def); else if (!like(&RUN[r], p, own)) same_val(&RUN[r], p, def); } sym_reach("mismatch"); return; } /* which of the other values were taken before is free */
  int at = 0, done = 0; /* the statements that ran, in order */
  if (op > 0) { if (nrun > at) { check_run(&RUN[at], S.select_stmt, JD, 0); int src = RUN[at++].rc; 
      if (src == SQLITE_ROW) { if (!*upd) { ASSERT(nrun == at && rc == SQLITE_DONE, "nothing to update"); if (want) ASSERT(field(status, "warning"), "that is told"); done = 1; sym_reach("nothing"); } else if (nrun > at) { check_text(&RUN[at], upd, updq[1]); check_run(&RUN[at], 0, JD, 0); ASSERT(rc == RUN[at].rc, "the code of the update"); done = rc == SQLITE_DONE; at++; sym_reach("updated"); if (done && op > 1 && want) is_int(field(status, "updated_rows"), db_changes); } }
      else if (src == SQLITE_DONE && op == 1) { if (nrun > at) { check_text(&RUN[at], ins, insq[1]); check_run(&RUN[at], 0, JD, 1); ASSERT(rc == RUN[at].rc, "the code of the insert"); done = rc == SQLITE_DONE; at++; if (done && want) is_int(field(status, "last_insert_rowid"), db_rowid); sym_reach("inserted"); } }
      else if (src == SQLITE_DONE) { ASSERT(rc == SQLITE_DONE, "nothing there"); done = 1; sym_reach("absent"); } else { ASSERT(rc == src, "the code of the failing select"); sym_reach("select failed"); } } }
  else if (nrun > at) { check_text(&RUN[at], ins, insq[1]); check_run(&RUN[at], 0, JD, 1); ASSERT(rc == RUN[at].rc, "the code of the insert"); done = rc == SQLITE_DONE; at++; if (done && want) is_int(field(status, "id"), db_rowid); sym_reach("inserted"); }
  ASSERT(nrun == at, "nothing else runs"); if (!done) { ASSERT(db_hard > 0, "nothing fails by itself"); ASSERT(rc != SQLITE_DONE && rc != SQLITE_ROW && rc != SQLITE_OK, "a failing call is reported"); if (want && op < 2) ASSERT(has_error(status), "the failure is described"); sym_reach("failed"); } else if (want) ASSERT(!has_error(status) || db_hard, "no error without a failure");
  if (want) { struct cee_json *dbg = field(status, "debug"); ASSERT(dbg, "the statements are told"); if (dyn) is_either(field(dbg, "insert"), insq); if (tmpl && *upd) is_either(field(dbg, "update"), updq); if (!noinfo) is_names(field(dbg, "used_keys"), used, nu); if (nun) is_names(field(dbg, "unused_keys"), unused, nun); else ASSERT(!field(dbg, "unused_keys"), "every key is used"); } }
/* ---- 2 */
static void cell(struct cee_json *j, struct cell *c) { ASSERT(j, "an entry for the column"); switch (c->type) { case SQLITE_INTEGER: is_int(j, c->i); break; case SQLITE_FLOAT: { double d; ASSERT(cee_json_to_doublex(j, &d) == 0 && d == c->d, "a number"); break; } case SQLITE_TEXT: { ASSERT(j->t == CEE_JSON_STRING, "a text"); cmp_text((char *)cee_json_to_str(j), c->t, c->n); break; } case SQLITE_NULL: ASSERT(j == cee_json_null(), "a null"); break;
    default: { ASSERT(j->t == CEE_JSON_BLOB, "a blob"); struct cee_block *b = j->value.blob; int bad = 0; for (int i = 0; i < c->n; i++) bad |= b->_[i] != c->t[i]; ASSERT(!bad, "bytes of the blob"); } } }
static int noret[4], nolab[4];
static void row(struct cee_json *j, int r) { if (db_ncols == 1 && nolab[0] && !noret[0]) { cell(j, &ROW[r][0]); sym_reach("bare"); return; } ASSERT(j && j->t == CEE_JSON_OBJECT, "a row is an object"); int n = 0; for (int c = 0; c < db_ncols; c++) if (noret[c]) ASSERT(!field(j, db_cols[c]), "a column not to be returned"); else { cell(field(j, db_cols[c]), &ROW[r][c]); n++; } ASSERT(cee_map_size(cee_json_to_object(j)) == n, "one entry per column"); sym_reach("row"); }
static void rows(struct cee_json *j, int from) { ASSERT(j && j->t == CEE_JSON_ARRAY && cee_json_array_length(j) == from + nrow, "as many rows as the database gave"); for (int r = 0; r < nrow; r++) row(cee_json_array_get(j, from + r), r); }
static int seen, stopat; static int each(void *cls, struct cee_state *s, struct cee_sqlite3_bind_info *info, sqlite3_stmt *stmt) { ASSERT(cls == &seen && s == st && info == INFO && stmt->onrow, "called once for each row"); return ++seen == stopat; }
static void selects(void) { int how = P("how", -1); if (how < 0) how = sym_choice("how", 6); gen_info(P("types", 4), 0); if (P("colflags", 1)) for (int i = 0; i < K && i < db_ncols; i++) { noret[i] = INFO[i].no_return = sym_choice("noret", 2); nolab[i] = INFO[i].no_label = sym_choice("nolab", 2); } for (int i = 0; i < K; i++) if (!i || !P("lite", 0)) gen_data(&DATA[i], INFO[i].type, 0), JD[i] = DATA[i];
  db_maxrows = P("rows", 2); db_faults(P("faults", 1)); char *sql = "select * from t where a=@a"; int given = sym_choice("status", 3); struct cee_json *status = 0, **sp = given ? &status : 0; int rc, old = 0;
  if (given == 2) { old = 1; if (how < 2) { status = cee_json_array_mk(st, 1); cee_json_array_append(status, cee_json_i64_mk(st, 5)); } else { status = cee_json_object_mk(st); cee_json_object_set_i64(status, "old", 5); } }
  int oldkey = old && how >= 4 && sym_choice("oldkey", 2); if (oldkey) { struct cee_json *v; if (how == 4) { v = cee_json_array_mk(st, 1); cee_json_array_append(v, cee_json_i64_mk(st, 6)); } else { v = cee_json_object_mk(st); cee_json_object_set_i64(v, "old", 6); } cee_json_object_set(status, "k", v); }
  switch (how) { case 0: rc = cee_sqlite3_select(&CS, INFO, DATA, sql, sp); break; case 1: stopat = sym_choice("stop", 3); rc = cee_sqlite3_select_iter(&CS, INFO, DATA, sql, &seen, each, sp); break; case 2: case 3: rc = cee_sqlite3_select1(&CS, INFO, DATA, sql, sp); break; case 4: rc = cee_sqlite3_select_as(&CS, INFO, DATA, sql, sp, "k"); break; default: rc = cee_sqlite3_select1_as(&CS, INFO, DATA, sql, sp, "k"); }
  printable(status); if (nrun) { ASSERT(nrun == 1, "the statement runs once"); check_run(&RUN[0], sql, JD, 0); } else ASSERT(db_hard > 0, "the statement runs");
  if (db_hard) { ASSERT(!okrc(rc) && rc != SQLITE_OK, "a failing call is reported"); if (given && !(old && how < 2)) ASSERT(has_error(status), "the failure is described"); if (old) { if (how < 2) is_int(cee_json_array_get(status, 0), 5); else is_int(field(status, "old"), 5); } sym_reach("failed"); return; }
  ASSERT(rc == SQLITE_DONE, "selecting succeeds"); if (status && how != 1 && status->t == CEE_JSON_OBJECT) { int own = how >= 2 && how <= 3 && nrow; if (!own) ASSERT(!has_error(status), "no error without a failure"); }
  if (how == 1) { ASSERT(seen == nrow, "called for each row"); sym_reach("iterated"); return; } if (!given) return;
  switch (how) { case 0: if (old) is_int(cee_json_array_get(status, 0), 5); rows(status, old); break;
    case 2: case 3: if (!nrow) { if (old) ASSERT(cee_map_size(cee_json_to_object(status)) == 1, "nothing added"); else ASSERT(!status, "no row gives nothing"); sym_reach("none"); } else if (!old) row(status, 0); else if (!(db_ncols == 1 && nolab[0])) { is_int(field(status, "old"), 5); for (int c = 0; c < db_ncols; c++) if (!noret[c]) cell(field(status, db_cols[c]), &ROW[0][c]); sym_reach("merged"); } break;
    case 4: { struct cee_json *a = field(status, "k"); if (old) is_int(field(status, "old"), 5); if (oldkey) is_int(cee_json_array_get(a, 0), 6); rows(a, oldkey); sym_reach("under key"); break; }
    default: { struct cee_json *a = field(status, "k"); if (old) is_int(field(status, "old"), 5); if (!nrow) { if (!oldkey) ASSERT(!a, "no row gives nothing"); else is_int(field(a, "old"), 6); } else if (!oldkey) row(a, 0); else if (!(db_ncols == 1 && nolab[0])) { is_int(field(a, "old"), 6); for (int c = 0; c < db_ncols; c++) if (!noret[c]) cell(field(a, db_cols[c]), &ROW[0][c]); } sym_reach("one under key"); } } }
/* ---- 3 */
static void given(void) { int op = sym_choice("op", 3); gen_info(P("types", 7), P("flags", 1)); struct cee_sqlite3_bind_data *data = 0; if (sym_choice("data", 2)) { data = DATA; for (int i = 0; i < K; i++) { gen_data(&DATA[i], INFO[i].type, !INFO[i].not_null); JD[i] = DATA[i]; } }
  db_maxrows = 1; db_rowid = num(); db_changes = num32(); int want = sym_choice("status", 3), key = sym_choice("key", 2), id = -7, wid = sym_choice("id", 2); struct cee_json *status = 0, **sp = want ? &status : 0; if (want == 2) { status = cee_json_object_mk(st); cee_json_object_set_i64(status, "old", 5); } db_faults(P("faults", 1)); int rc; char *sql, *k = key ? "key" : 0;
  struct cee_sqlite3_stmt_strs S = { .table_name = "t", .select_stmt = "select a from t where a=@a", .insert_stmt = "insert into t values (@a,@b)" };
  if (op == 0) { sql = "insert into t values (@a,@b)"; rc = cee_sqlite3_insert(&CS, INFO, data, sql, sp, k, wid ? &id : 0); } else if (op == 1) { sql = "delete from t where a=@a"; rc = cee_sqlite3_delete(&CS, INFO, data, sql, sp, k); } else { sql = S.select_stmt; rc = cee_sqlite3_select1_or_insert(&CS, INFO, data, &S, sp); }
  if (want) { if (want == 2) is_int(field(status, "old"), 5); printable(status); } 
  if (db_hard) { ASSERT(!okrc(rc) && rc != SQLITE_OK, "a failing call is reported"); if (want) ASSERT(has_error(status), "the failure is described"); if (op == 0) { ASSERT(id == -7, "no id"); } if (want) ASSERT(!field(status, "last_insert_rowid") && !field(status, "key") && !field(status, "deleted"), "no result of a failed statement"); for (int r = 0; r < nrun; r++) check_run(&RUN[r], 0, data ? JD : 0, RUN[r].sql[0] == 'i'); sym_reach("failed"); return; }
  ASSERT(nrun >= 1, "the statement runs"); check_run(&RUN[0], sql, data ? JD : 0, op == 0); ASSERT(rc == SQLITE_DONE, "done"); if (want) ASSERT(!has_error(status), "no error without a failure");
  if (op == 0) { ASSERT(nrun == 1, "once"); if (want) is_int(field(status, key ? "key" : "last_insert_rowid"), db_rowid); if (wid) ASSERT(id == (int)db_rowid, "the id"); sym_reach("inserted"); }
  else if (op == 1) { ASSERT(nrun == 1, "once"); if (want) is_int(field(status, key ? "key" : "deleted"), db_changes); sym_reach("deleted"); }
  else if (nrow) { ASSERT(nrun == 1, "a row that is there is not inserted"); if (want) cell(field(status, "a"), &ROW[0][0]); sym_reach("there"); }
  else { ASSERT(nrun == 2, "a row that is missing is inserted"); check_run(&RUN[1], S.insert_stmt, data ? JD : 0, 1); if (want) is_int(field(status, "last_insert_rowid"), db_rowid); sym_reach("made"); } }
/* ---- 4 */
static void array(void) { int lo = P("lo", 0), n = lo + sym_choice("keys", P("n", 3) + 1), objs = 1 + sym_choice("objs", P("objs", 1)); static char name[DB_NP][8]; static int kind[2][DB_NP]; static int64_t iv[2][DB_NP]; static char sv[2][DB_NP][2]; struct cee_json *a = cee_json_array_mk(st, 1); db_rowid = 3;
  for (int i = 0; i < n; i++) snprintf(name[i], 8, "k%02d", i);
  for (int o = 0; o < objs; o++) { struct cee_json *j = cee_json_object_mk(st);  for (int i = 0; i < n; i++) { int k = kind[o][i] = lo ? i % 3 : sym_choice("kind", 3); if (k == 0) { iv[o][i] = lo ? i : sym_u64("v"); cee_json_object_set_i64(j, name[i], iv[o][i]); } else if (k == 1) { sv[o][i][0] = lo ? 'x' : sym_u8("s"); sym_assume(sv[o][i][0] != 0); cee_json_object_set_strf(j, name[i], "%s", sv[o][i]); } else cee_json_object_set_null(j, name[i]); }
    cee_json_array_append(a, j); }
  db_faults(P("faults", 1)); cee_sqlite3_insert_json_array(&CS, "t", a); if (!db_hard) ASSERT(nrun == objs, "one statement for each object");
  if (!db_hard) for (int o = 0; o < objs; o++) { struct run *r = &RUN[o]; static int at[DB_NP]; int used[DB_NP] = { 0 }; const char *q = r->sql, *h = "insert into t ("; ASSERT(!strncmp(q, h, strlen(h)), "an insertion into the table"); q += strlen(h);
    for (int c = 0; c < n; c++) { if (*q == ' ' || *q == ',') q++; ASSERT(q[0] == 'k' && q[1] >= '0' && q[1] <= '9' && q[2] >= '0' && q[2] <= '9', "a column"); int i = (q[1] - '0') * 10 + q[2] - '0'; ASSERT(i < n && !used[i], "every column once"); used[i] = 1; at[c] = i; q += 3; }
    h = ") values ("; ASSERT(!strncmp(q, h, strlen(h)), "the statement names exactly the keys"); q += strlen(h);
    for (int c = 0; c < n; c++) { if (*q == ' ' || *q == ',') q++; int i = at[c]; if (kind[o][i] == 2) { ASSERT(!strncmp(q, "null", 4), "a null for a null"); q += 4; } else { ASSERT(q[0] == '@' && !strncmp(q + 1, name[i], 3), "its own parameter"); q += 4; } }
    ASSERT(!strcmp(q, ");") || !strcmp(q, ")"), "the end of the statement"); int b = 0;
    for (int p = 0; p < r->np; p++) { int i = (r->name[p][2] - '0') * 10 + r->name[p][3] - '0'; ASSERT(i >= 0 && i < n && kind[o][i] < 2, "a parameter of the object"); b++; if (kind[o][i] == 0) ASSERT(r->k[p] == V_INT && r->i[p] == iv[o][i], "a bound integer"); else ASSERT(r->k[p] == V_TEXT && r->n[p] == 1 && r->t[p][0] == sv[o][i][0], "a bound text"); } for (int i = 0; i < n; i++) if (kind[o][i] < 2) b--; ASSERT(!b, "one parameter for each value"); sym_reach("array"); } else sym_reach("failed"); }
/* ---- 5 */
static void lists(void) { gen_info(P("types", 15), 1); struct cee_json *in = cee_json_object_mk(st), *u = 0, *n = 0, *e = 0; int w = sym_choice("lists", 8), k = sym_choice("kind", 4), z = sym_choice("z", 2); if (z) cee_json_object_set_bool(in, "z", 0); int64_t v = 0; char *t = 0; if (k == 0) { v = sym_u64("v"); cee_json_object_set_i64(in, "a", v); } else if (k == 1) { t = txt(); cee_json_object_set_strf(in, "a", "%s", t); } else if (k == 2) cee_json_object_set_null(in, "a"); else cee_json_object_set_double(in, "a", 0.5);
  int ok = k == 0 ? INFO[0].type == CEE_SQLITE3_INT ? v >= INT32_MIN && v <= INT32_MAX : INFO[0].type == CEE_SQLITE3_INT64 : k == 1 ? INFO[0].type == CEE_SQLITE3_TEXT : k == 2 ? !INFO[0].not_null : 0, bad = !ok && k != 2;
  cee_sqlite3_bind_data_from_json(INFO, DATA, in, w & 1 ? &u : 0, w & 2 ? &n : 0, w & 4 ? &e : 0); ASSERT(DATA[0].has_value == ok, "a value of the declared kind is taken"); if (ok) { if (k == 2) ASSERT(DATA[0].is_null, "a null"); else { ASSERT(!DATA[0].is_null, "not null"); if (k == 0) ASSERT((INFO[0].type == CEE_SQLITE3_INT ? DATA[0].i : DATA[0].i64) == v, "its value"); else ASSERT(!strcmp(DATA[0].value, t), "its text"); } sym_reach("taken"); }
  char *A[] = { "a" }, *Z[] = { "z" }; if (w & 1) is_names(u, A, ok); if (w & 2) is_names(n, Z, z); if (w & 4) { ASSERT(e && cee_json_array_length(e) == bad, "a value of another kind is reported"); } if (bad) sym_reach("reported"); for (int i = 1; i < K; i++) ASSERT(!DATA[i].has_value, "nothing else"); }
/* ---- 6 */
static void joins(void) { int type = P("types", 7); gen_info(type, 0); db_cols[0] = "x"; db_ncols = 1; db_kinds = 1; int nob = 1 + sym_choice("objs", P("objs", 2)), usedata = sym_choice("data", 2), arr = nob > 1 || sym_choice("arr", 2), key = sym_choice("key", 2); for (int i = 1; i < K; i++) if (0) ; struct cee_sqlite3_bind_data *d = usedata ? DATA : &INFO[0].data; d->has_value = 1; struct cee_json *a = cee_json_array_mk(st, 1); int64_t v[2]; char *t[2] = { 0 }; int gk[2];
  for (int o = 0; o < nob; o++) { struct cee_json *j = cee_json_object_mk(st); gk[o] = sym_choice("given", 4); if (gk[o] == 0) { v[o] = num(); cee_json_object_set_i64(j, "a", v[o]); } else if (gk[o] == 1) { t[o] = txt(); cee_json_object_set_strf(j, "a", "%s", t[o]); } else if (gk[o] == 2) cee_json_object_set_null(j, "a"); cee_json_array_append(a, j); }
  db_maxrows = P("rows", 2); db_faults(P("faults", 1)); char *sql = "select x from u where y=@a"; if (arr) cee_sqlite3_json_array_join_table(&CS, a, INFO, usedata ? DATA : 0, sql, key ? "k" : 0); else cee_sqlite3_json_object_join_table(&CS, cee_json_array_get(a, 0), INFO, usedata ? DATA : 0, sql, key ? "k" : 0);
  printable(a); int r = 0; for (int o = 0; o < nob; o++) { struct cee_json *j = cee_json_array_get(a, o); int fits = gk[o] == 0 ? INFO[0].type == CEE_SQLITE3_INT64 || (INFO[0].type == CEE_SQLITE3_INT && v[o] >= INT32_MIN && v[o] <= INT32_MAX) : gk[o] == 1 ? INFO[0].type == CEE_SQLITE3_TEXT : 0;
    if (!fits) { ASSERT(has_error(j), "a value that cannot be joined on is reported"); ASSERT(nrun == r, "no statement for it"); sym_reach("refused"); return; }
    if (r >= nrun) { ASSERT(db_hard, "the statement runs"); return; } struct run *q = &RUN[r++]; ASSERT(!strcmp(q->sql, sql) && q->np == 1, "the statement"); if (gk[o] == 0) ASSERT(q->k[0] == V_INT && q->i[0] == v[o], "the number of this object"); else { ASSERT(q->k[0] == V_TEXT && q->n[0] == 2 && q->t[0][0] == t[o][0], "the text of this object"); } sym_reach("joined"); if (db_hard) return; }
  if (nob == 1) { struct cee_json *j = cee_json_array_get(a, 0); if (key) rows(field(j, "k"), 0); else if (nrow) cell(field(j, "x"), &ROW[0][0]); else ASSERT(!field(j, "x"), "no row adds nothing"); } ASSERT(nrun == r, "nothing else runs"); }
/* ---- 7 */
static void misc(void) { int how = sym_choice("how", 3); db_faults(P("faults", 1));
  if (how == 0) { db_ncols = 1; db_kinds = 7; db_cols[0] = "max_value"; struct cee_json *status = 0; static char from[200]; int lf = sym_choice("from", 4) * 40; strcpy(from, "from t where x='"); int l = strlen(from); for (int i = 0; i < lf; i++) from[l++] = 'q'; from[l++] = '\''; from[l] = 0; int r = cee_sqlite3_next_int(&CS, "c", from, &status); if (nrun) { static char ex[300]; strcpy(ex, "select max(c) as max_value "); strcat(ex, from); ASSERT(!strncmp(RUN[0].sql, ex, strlen(ex)), "the whole condition is sent"); }
    if (db_hard) { ASSERT(r == -1 && has_error(status), "a failure is reported"); sym_reach("failed"); return; } if (nrow && ROW[0][0].type == SQLITE_INTEGER) { int64_t m = ROW[0][0].i; if (m >= INT32_MIN && m < INT32_MAX) ASSERT(r == m + 1, "the next number"); else ASSERT(r == -1, "no next number"); sym_reach("next"); } else if (nrow && ROW[0][0].type == SQLITE_NULL) { ASSERT(r == 1, "the first number"); sym_reach("first"); } else ASSERT(r == -1, "no number"); }
  else if (how == 1) { sqlite3 *db = 0; int p = sym_choice("handle", 3), tr = sym_choice("trans", 2), sq = sym_choice("sql", 2); if (p == 2) { db = &DBH; nopen = 1; } db_budget = db_budget && p != 2 && sym_choice("fail", 2); int fail = db_budget; /* a failing script ends the process on purpose */ if (fail) { sq = 0; } cee_sqlite3_init_db(p ? &db : 0, "f", sq ? "script" : 0, tr);
    if (db_hard) { ASSERT(nexec == 0 && nopen == 0 && (!p || !db), "a database that cannot be opened is not used"); sym_reach("not opened"); return; } if (p) { ASSERT(db == &DBH && nopen == 1, "the open database"); nopen = 0; } else ASSERT(nopen == 0, "closed again"); if (sq) { ASSERT(nexec == (tr ? 3 : 1) && !strcmp(EXECS[tr], "script"), "the script runs"); if (tr) ASSERT(!strcmp(EXECS[0], "begin transaction;") && !strcmp(EXECS[2], "commit;"), "within a transaction"); } else ASSERT(nexec == 0, "nothing runs"); sym_reach("opened"); }
  else { struct cee_sqlite3_db_op O = { 0 }, *n; struct cee_sqlite3_stmt_strs S; struct cee_sqlite3_bind_info two[3]; O.stmts = &S; O.info = two; n = new_cee_sqlite3_db_op(st, &O, sizeof two); ASSERT(n->stmts == &S && n->info == two, "a copy"); ASSERT(sym_mem_ok(n->data, 3 * sizeof *n->data), "values for every column"); for (int i = 0; i < 3; i++) ASSERT(!n->data[i].has_value && !n->data[i].is_null, "fresh values"); struct cee_sqlite3 c; char nm[80]; int l = sym_choice("nm", 3); l = l == 0 ? 1 : l == 1 ? 63 : 70; for (int i = 0; i < l; i++) nm[i] = 'n'; nm[l] = 0; cee_sqlite3_init(&c, nm, "p", st, &DBH); ASSERT(c.db == &DBH && c.state == st && strlen(c.db_name) == (l < 63 ? l : 63) && !strcmp(c.db_path, "p"), "the description of the database"); sym_reach("made"); } }
/* ---- 8 */
static void selop(void) { gen_info(P("types", 7), 0); struct cee_json *in = cee_json_object_mk(st), *status = 0; int has = sym_choice("has", 2), want = sym_choice("status", 2); char *t = 0; int64_t v = 0; if (has) { if (INFO[0].type == CEE_SQLITE3_TEXT) { t = txt(); cee_json_object_set_strf(in, "a", "%s", t); } else { v = INFO[0].type == CEE_SQLITE3_INT ? (int32_t)sym_u32("v") : (int64_t)sym_u64("v"); cee_json_object_set_i64(in, "a", v); } JD[0].has_value = 1; JD[0].i = v; JD[0].i64 = v; JD[0].value = t; }
  struct cee_sqlite3_stmt_strs S = { .table_name = "t", .select_stmt = "select x from t where a=@a" }; struct cee_sqlite3_db_op O = { &S, INFO, DATA }; db_cols[0] = "x"; db_kinds = 1; db_maxrows = P("rows", 2); db_faults(P("faults", 1)); sym_known_crash("select-op-status", "cee_sqlite3_select_op"); int rc = cee_sqlite3_select_op(&CS, &O, in, want ? &status : 0); sym_known_crash("", "");
  if (nrun) { ASSERT(nrun == 1, "the statement runs once"); check_run(&RUN[0], S.select_stmt, JD, 0); sym_reach("selected"); } else ASSERT(db_hard > 0, "the statement runs"); if (db_hard) ASSERT(!okrc(rc) && rc != SQLITE_OK, "a failing call is reported"); else ASSERT(rc == SQLITE_DONE, "selecting succeeds"); if (want) { ASSERT(status, "a status"); printable(status); } }
/* ---- 9: attaching another database to an open one: it lies in the same directory, and no part of a statement is ever sent */
static void attach(void) { static const char *PATHS[] = { "/d/x.db", "/dir/sub/main.db", "/x", "", 0, "x.db" }, *DIRS[] = { "/d/", "/dir/sub/", "/", "", "", "" }; int w = sym_choice("path", 6), det = sym_choice("detach", 2), cut = sym_choice("size", 5), we = sym_choice("wanterr", 2); db_path = PATHS[w]; char file[4], name[3]; int fl = 1 + sym_choice("flen", 3), nl = 1 + sym_choice("nlen", 2); for (int i = 0; i < fl; i++) { file[i] = sym_u8("f"); sym_assume(file[i] != 0); } file[fl] = 0; for (int i = 0; i < nl; i++) { name[i] = sym_u8("n"); sym_assume(name[i] != 0); } name[nl] = 0;
  static char ex[100]; ex[0] = 0; int at; if (det) strcpy(ex, "detach database '"); else { strcpy(ex, "attach database \""); strcat(ex, DIRS[w]); } at = strlen(ex); if (!det) { for (int i = 0; i < fl; i++) ex[at++] = file[i]; memcpy(ex + at, "\" as ", 5); at += 5; } for (int i = 0; i < nl; i++) ex[at++] = name[i]; if (det) ex[at++] = '\''; ex[at++] = ';'; ex[at] = 0;
  int size = cut == 0 ? at + 1 : cut == 1 ? at + 9 : cut == 2 ? at : cut == 3 ? at - 1 : 1; char *buf = malloc(size), *err = (char *)1; db_faults(1); int rc = det ? cee_sqlite3_detach_db(&CS, name, buf, size, we ? &err : 0) : cee_sqlite3_attach_db(&CS, file, name, buf, size, we ? &err : 0);
  if (cut >= 2) { ASSERT(nexec == 0 && rc != SQLITE_OK, "a statement that does not fit is refused"); if (we) ASSERT(!err, "no text to release"); sym_reach("too long"); } else { ASSERT(nexec == 1, "one statement"); int bad = 0; for (int i = 0; i <= at; i++) bad |= EXECS[0][i] != ex[i]; ASSERT(!bad, "the database and the name that were given"); ASSERT(db_hard ? rc == SQLITE_ERROR : rc == SQLITE_OK, "the result of the statement"); if (db_hard && we) { sqlite3_free(err); sym_reach("failed"); } sym_reach(det ? "detached" : "attached"); } free(buf); }
void harness(void) { size_t base = sym_heap_live(); st = cee_state_mk(4); K = P("k", 2); cee_sqlite3_init(&CS, "db", "path", st, &DBH); db_ncols = P("cols", 1); db_kinds = P("cellkinds", 1);
  switch (P("what", 0)) { case 0: direct(); break; case 1: ops(); break; case 2: selects(); break; case 3: given(); break; case 4: array(); break; case 5: lists(); break; case 6: joins(); break; case 8: selop(); break; case 9: attach(); break; default: misc(); }
  cee_del(st); db_done(base); }
