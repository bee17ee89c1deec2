/* A stand-in for the database library: it records every statement run with its bound values, gives arbitrary rows, and fails any call on request.
   Misuse (binding after a step, reading a column without a row, using a finalised statement) is an error or a freed access. */
#ifndef DB_H
#define DB_H
#define RN 60
#include "json.h"
#include "cee-sqlite3.h"
enum { V_NONE, V_NULL, V_INT, V_TEXT, V_BLOB };
enum { DB_NP = 56, DB_NC = 4, DB_NR = 8, DB_NRUN = 8, DB_T = 8 };
struct dbval { int k; int64_t i; const char *p; int n; };
struct sqlite3 { int open; };
struct cell { int type; int64_t i; double d; char *t; int n; };
struct sqlite3_stmt { char *sql; int np; char *name[DB_NP]; struct dbval v[DB_NP]; int stepped, onrow, run; char *held[DB_NC]; int select; };
static struct run { char *sql; int np, cols, rc; char *name[DB_NP]; int k[DB_NP]; int64_t i[DB_NP]; char t[DB_NP][DB_T]; int n[DB_NP]; } RUN[DB_NRUN]; static int nrun;
static struct sqlite3 DBH; static int db_budget, db_hard, db_live, db_maxrows = 1, db_ncols = 1, db_kinds = 31, nrow, db_prepared, db_noerr; static char *db_cols[DB_NC] = { "a", "b", "c", "d" }; static struct cell ROW[DB_NR][DB_NC]; static int64_t db_rowid; static int db_changes, db_lastrc;
static void db_faults(int n) { db_budget = n; db_hard = 0; }
static int db_fault(const char *name) { if (!db_budget || !sym_choice(name, 2)) return 0; db_budget--; db_hard++; return 1; }
static char *keep(const char *s, int n) { char *r = malloc(n + 1); for (int i = 0; i < n; i++) r[i] = s[i]; r[n] = 0; return r; }
static int idch(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_'; }
int sqlite3_prepare_v2(sqlite3 *db, const char *sql, int n, sqlite3_stmt **pp, const char **tail) { ASSERT(db == &DBH, "the database of the binding"); db_prepared++; *pp = 0; if (db_fault("prepare")) return db_lastrc = SQLITE_ERROR; sqlite3_stmt *s = malloc(sizeof *s); memset(s, 0, sizeof *s); s->sql = keep(sql, strlen(sql)); s->select = sql[0] == 's'; int q = 0;
  for (const char *p = s->sql; *p; p++) { if (*p == '\'') q = !q; if (!q && *p == '@') { int l = 1; while (idch(p[l])) l++; int k = 0; while (k < s->np && !(strlen(s->name[k]) == l && !memcmp(s->name[k], p, l))) k++; if (k == s->np) { if (k >= DB_NP) sym_fail("db stub: too many parameters"); s->name[s->np++] = keep(p, l); } p += l - 1; } } db_live++; *pp = s; return db_lastrc = SQLITE_OK; }
int sqlite3_prepare_v3(sqlite3 *db, const char *sql, int n, unsigned f, sqlite3_stmt **pp, const char **tail) { return sqlite3_prepare_v2(db, sql, n, pp, tail); }
int sqlite3_bind_parameter_count(sqlite3_stmt *s) { return s ? s->np : 0; }
int sqlite3_bind_parameter_index(sqlite3_stmt *s, const char *name) { if (!s) return 0; for (int i = 0; i < s->np; i++) if (!strcmp(s->name[i], name)) return i + 1; return 0; }
const char *sqlite3_bind_parameter_name(sqlite3_stmt *s, int i) { return s && i >= 1 && i <= s->np ? s->name[i - 1] : 0; }
static int db_bind(sqlite3_stmt *s, int i, int k, int64_t v, const void *p, int n) { if (!s) return SQLITE_MISUSE; ASSERT(!s->stepped, "values are bound before the statement runs"); if (i < 1 || i > s->np) return db_lastrc = SQLITE_RANGE; if (db_fault("bind")) return db_lastrc = SQLITE_NOMEM; if (k == V_TEXT && !p) k = V_NULL; if (k == V_BLOB && !p) k = V_NULL; s->v[i - 1] = (struct dbval){ k, v, p, n }; return db_lastrc = SQLITE_OK; }
int sqlite3_bind_int(sqlite3_stmt *s, int i, int v) { return db_bind(s, i, V_INT, v, 0, 0); }
int sqlite3_bind_int64(sqlite3_stmt *s, int i, sqlite3_int64 v) { return db_bind(s, i, V_INT, v, 0, 0); }
int sqlite3_bind_null(sqlite3_stmt *s, int i) { return db_bind(s, i, V_NULL, 0, 0, 0); }
int sqlite3_bind_text(sqlite3_stmt *s, int i, const char *t, int n, void (*d)(void *)) { return db_bind(s, i, V_TEXT, 0, t, n); }
int sqlite3_bind_blob(sqlite3_stmt *s, int i, const void *t, int n, void (*d)(void *)) { return db_bind(s, i, V_BLOB, 0, t, n); }
static void drop_row(sqlite3_stmt *s) { for (int i = 0; i < DB_NC; i++) { free(s->held[i]); s->held[i] = 0; } s->onrow = 0; }
int sqlite3_step(sqlite3_stmt *s) { if (!s) return SQLITE_MISUSE; drop_row(s);
  if (!s->stepped) { s->stepped = 1; if (nrun >= DB_NRUN) sym_fail("db stub: too many statements run"); s->run = nrun; struct run *r = &RUN[nrun++]; r->sql = keep(s->sql, strlen(s->sql)); r->np = s->np; for (int i = 0; i < s->np; i++) { r->name[i] = keep(s->name[i], strlen(s->name[i])); r->k[i] = s->v[i].k; r->i[i] = s->v[i].i; if (s->v[i].k >= V_TEXT) { int n = s->v[i].n; if (n < 0) n = strlen(s->v[i].p); if (n > DB_T) sym_fail("db stub: text too long"); memcpy(r->t[i], s->v[i].p, n); r->n[i] = n; } } }
  int rc = SQLITE_DONE; if (db_fault("step")) rc = SQLITE_BUSY; else if (s->select && nrow < db_maxrows && sym_choice("row", 2)) { rc = SQLITE_ROW; s->onrow = 1;
    for (int c = 0; c < db_ncols; c++) { int pick[5], np = 0; for (int k = 0; k < 5; k++) if (db_kinds >> k & 1) pick[np++] = k; struct cell *x = &ROW[nrow][c]; static const int TY[] = { SQLITE_INTEGER, SQLITE_TEXT, SQLITE_NULL, SQLITE_FLOAT, SQLITE_BLOB }; x->type = TY[pick[sym_choice("type", np)]]; 
      if (x->type == SQLITE_INTEGER) { uint64_t u = sym_u64("cell"); sym_assume((u >> 61 == 2) | (u < 10)); x->i = u; } if (x->type == SQLITE_FLOAT) x->d = sym_choice("flt", 2) ? 0.5 : -3.0; if (x->type == SQLITE_TEXT) { x->n = sym_choice("tlen", 2); x->t = malloc(2); x->t[0] = sym_u8("tc"); if (x->n) sym_assume(x->t[0] != 0); x->t[x->n] = 0; } if (x->type == SQLITE_BLOB) { x->n = sym_choice("blen", 3); x->t = malloc(2); sym_bytes(x->t, 2, "blob"); } } nrow++; }
  RUN[s->run].rc = rc; return db_lastrc = rc; }
static struct cell *cellp(sqlite3_stmt *s, int i) { ASSERT(s->onrow, "columns are read while there is a row"); ASSERT(i >= 0 && i < db_ncols, "column number"); return &ROW[nrow - 1][i]; }
int sqlite3_column_count(sqlite3_stmt *s) { return s ? (s->select ? db_ncols : 0) : 0; }
const char *sqlite3_column_name(sqlite3_stmt *s, int i) { return db_cols[i]; }
int sqlite3_column_type(sqlite3_stmt *s, int i) { return cellp(s, i)->type; }
sqlite3_int64 sqlite3_column_int64(sqlite3_stmt *s, int i) { struct cell *x = cellp(s, i); return x->type == SQLITE_INTEGER ? x->i : 0; }
int sqlite3_column_int(sqlite3_stmt *s, int i) { if (!s || !s->onrow) return 0; return (int)sqlite3_column_int64(s, i); }
double sqlite3_column_double(sqlite3_stmt *s, int i) { return cellp(s, i)->d; }
static char *hold(sqlite3_stmt *s, int i, int z) { struct cell *x = cellp(s, i); if (!s->held[i]) { s->held[i] = malloc(x->n + z); memcpy(s->held[i], x->t, x->n); if (z) s->held[i][x->n] = 0; } return s->held[i]; }
const unsigned char *sqlite3_column_text(sqlite3_stmt *s, int i) { return (unsigned char *)hold(s, i, 1); }
const void *sqlite3_column_blob(sqlite3_stmt *s, int i) { return cellp(s, i)->n ? hold(s, i, 0) : 0; }
int sqlite3_column_bytes(sqlite3_stmt *s, int i) { return cellp(s, i)->n; }
int sqlite3_finalize(sqlite3_stmt *s) { if (!s) return SQLITE_OK; drop_row(s); for (int i = 0; i < s->np; i++) free(s->name[i]); free(s->sql); free(s); db_live--; return db_lastrc == SQLITE_ROW ? SQLITE_OK : SQLITE_OK; }
int sqlite3_reset(sqlite3_stmt *s) { if (s) { drop_row(s); s->stepped = 0; } return SQLITE_OK; }
const char *sqlite3_errmsg(sqlite3 *db) { if (db) ASSERT(db == &DBH, "errors of the own database"); return "err"; }
int sqlite3_errcode(sqlite3 *db) { return db_lastrc; }
const char *sqlite3_errstr(int c) { return "err"; }
sqlite3_int64 sqlite3_last_insert_rowid(sqlite3 *db) { return db_rowid; }
int sqlite3_changes(sqlite3 *db) { return db_changes; } int sqlite3_total_changes(sqlite3 *db) { return db_changes; }
static int nexec, nopen; static char *EXECS[4];
int sqlite3_open(const char *f, sqlite3 **pp) { nopen++; *pp = &DBH; return db_fault("open") ? SQLITE_CANTOPEN : SQLITE_OK; } int sqlite3_close(sqlite3 *db) { if (db) { ASSERT(db == &DBH && nopen > 0, "closed once"); nopen--; } return SQLITE_OK; }
int sqlite3_exec(sqlite3 *db, const char *sql, int (*cb)(void *, int, char **, char **), void *x, char **err) { ASSERT(db == &DBH, "the database of the binding"); if (nexec >= 4) sym_fail("db stub: too many"); EXECS[nexec++] = keep(sql, strlen(sql)); if (db_fault("exec")) { if (err) *err = keep("bad", 3); return SQLITE_ERROR; } return SQLITE_OK; }
void sqlite3_free(void *p) { free(p); }
static const char *db_path = "/d/x.db"; const char *sqlite3_db_filename(sqlite3 *db, const char *n) { ASSERT(db == &DBH && !n, "the database of the binding"); return db_path; }
static void db_free(void) { for (int r = 0; r < nrun; r++) { free(RUN[r].sql); for (int i = 0; i < RUN[r].np; i++) free(RUN[r].name[i]); } for (int r = 0; r < nrow; r++) for (int c = 0; c < db_ncols; c++) free(ROW[r][c].t); for (int i = 0; i < nexec; i++) free(EXECS[i]); }
static void db_done(size_t base) { ASSERT(db_live == 0, "every prepared statement is finalised"); db_free(); NO_LEAK(base); }
#endif
