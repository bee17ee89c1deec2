/* C31: the database manager over a stand-in file system and stand-in binding calls that record what they are given.
   what 0: preparing a database; 1: backing up; 2: opening and attaching, file present; 3: $HOME in the configured paths; 4: descriptions in buffers of every size; 5: making directories */
#include "h.h"
#include <unistd.h>
#include <sys/stat.h>
#include <errno.h>
#include <fcntl.h>
#include <stdbool.h>
#include <libgen.h>
#include <time.h>
#include "cee_dbm.h"
#include "cee-utils.h"
enum { L = 420 };
/* ---- files: whether one exists is decided when it is first asked for */
static struct { char n[L]; int ex, orig; } FS[16]; static int nfs;
static int same(const char *a, const char *b) { int n = strlen(a), d = 0; if (n != (int)strlen(b)) return 0; for (int i = 0; i < n; i++) d |= a[i] ^ b[i]; return d == 0; }
static char parent_[L]; static char *parent(const char *p) { strcpy(parent_, p); char *s = strrchr(parent_, '/'); if (!s) return "."; if (s == parent_) return "/"; *s = 0; return parent_; }
static int entry(const char *n) { for (int i = 0; i < nfs; i++) if (same(FS[i].n, n)) return i; if (nfs >= 16 || strlen(n) >= L) sym_fail("dbm stub: too many files"); strcpy(FS[nfs].n, n); int up = 1; for (int i = 0; i < nfs; i++) if (FS[i].ex && !FS[i].orig && same(FS[i].n, parent(n))) up = 0; /* a new directory is empty */ FS[nfs].orig = FS[nfs].ex = !strcmp(n, ".") || !strcmp(n, "/") || (up && sym_choice("exists", 2)); return nfs++; }
static int exists(const char *n) { return FS[entry(n)].ex; }
/* ---- what happens, in order */
enum { E_SCRIPT, E_DROP, E_MKDIR, E_SYSTEM, E_EXEC, E_OPEN }; static struct { int k; char a[2 * L], b[L]; } EV[12]; static int nev, nh, nlog, logopen; static int version, dbm_cur; static struct sqlite3 { int x; } LOGH, DBH; static const char *kind_; static int syserr, exerr;
static void ev(int k, const char *a, const char *b) { if (nev >= 12) sym_fail("dbm stub: too many events"); EV[nev].k = k; strcpy(EV[nev].a, a); strcpy(EV[nev++].b, b); }
static int next_version(void) { static const int v[] = { 0, 7, 12, 1234567890 }; return v[sym_choice("version", 4)]; }
static int d_access(const char *n, int m) { ASSERT(m == F_OK, "asking whether the file is there"); return exists(n) ? 0 : -1; }
static int d_stat(const char *n, struct stat *b) { memset(b, 0, sizeof *b); return exists(n) ? 0 : -1; }
static int d_mkdir(const char *n, mode_t m) { ASSERT(m == 0755, "the mode that was asked for"); ASSERT(!exists(n), "only missing directories are made"); ASSERT(exists(parent(n)), "outer directories are made first"); FS[entry(n)].ex = 1; ev(E_MKDIR, n, ""); return 0; }
static int d_open(const char *n, int f) { ASSERT(exists(n), "the directory is there"); ev(E_OPEN, n, ""); return 77; }
static char *d_dirname(char *p) { char *s = strrchr(p, '/'); if (!s) return "."; if (s == p) { p[1] = 0; return p; } *s = 0; return p; }
static int d_system(const char *c) { ev(E_SYSTEM, c, ""); return syserr = sym_choice("system", 2); }
char *cee_load_whole_file(const char *name, size_t *len) { if (!exists(name)) { *len = 0; return 0; } char *r = malloc(L); strcpy(r, name); *len = strlen(r); return r; }
void cee_sqlite3_init_db(sqlite3 **pp, char *file, char *sql, bool tr) { if (pp) { ASSERT(!logopen && !*pp, "one log"); *pp = (void *)&LOGH; logopen = 1; nh++; ev(E_OPEN, file, ""); return; } /* a script: it may set the version */ ev(E_SCRIPT, file, sql ? sql : ""); FS[entry(file)].ex = 1; if (sql && strstr(sql, "_migrate.") && sym_choice("bump", 2)) version += 8; if (sql && strstr(sql, "_create.")) dbm_cur = version = 7; if (!sql) dbm_cur = version = 0; }
void cee_sqlite3_drop_all_tables(sqlite3 **pp, char *file) { ASSERT(!pp, "closed afterwards"); ev(E_DROP, file, ""); }
int cee_sqlite3_insert(struct cee_sqlite3 *cs, struct cee_sqlite3_bind_info *i, struct cee_sqlite3_bind_data *d, char *sql, struct cee_json **st, char *key, int *id) { ASSERT(cs->db == (void *)&LOGH && logopen, "the log is open"); nlog++; if (same(i[0].col_name, "kind")) ASSERT(same(d[0].value, kind_), "records carry the kind of database"); for (int q = 0; i[q].var_name; q++) ASSERT(strlen(d[q].value) < 2 * L, "a text"); return SQLITE_DONE; }
static char curdb[L];
int sqlite3_open(const char *n, sqlite3 **pp) { ASSERT(same(n, curdb), "the version is that of the database"); *pp = (void *)&DBH; nh++; return SQLITE_OK; }
int sqlite3_close(sqlite3 *db) { if (!db) return SQLITE_OK; if ((void *)db == &LOGH) { ASSERT(logopen, "closed once"); logopen = 0; } nh--; return SQLITE_OK; }
int cee_sqlite3_get_pragma_variable(sqlite3 *db, char *n) { ASSERT((void *)db == &DBH && !strcmp(n, "user_version"), "the version"); return version; }
int sqlite3_exec(sqlite3 *db, const char *sql, int (*cb)(void *, int, char **, char **), void *x, char **err) { ASSERT((void *)db == &DBH, "the open database"); ev(E_EXEC, sql, ""); return SQLITE_OK; }
void cee_sqlite3_init(struct cee_sqlite3 *x, char *name, char *path, struct cee_state *s, sqlite3 *db) { ev(E_OPEN, path, name); x->db = db; x->state = s; }
void sqlite3_free(void *p) { free(p); }
#define access(a, b) d_access(a, b)
#define stat(a, b) d_stat(a, b)
#define mkdir(a, b) d_mkdir(a, b)
#define open(a, b) d_open(a, b)
#define dirname(a) d_dirname(a)
#define rindex(a, b) strrchr(a, b)
#define system(a) d_system(a)
#define perror(a) ((void)(a))
#define exit(a) sym_fail("the process ends")
#include "cee_dbm.c"
/* ---- the same, told */
static struct { int k; char a[2 * L], b[L]; } EX[12]; static int nex; static void ex(int k, const char *a, const char *b) { EX[nex].k = k; strcpy(EX[nex].a, a); strcpy(EX[nex++].b, b); }
static void agree(void) { ASSERT(nev == nex, "exactly the steps that are due"); for (int i = 0; i < nev && i < nex; i++) { ASSERT(EV[i].k == EX[i].k, "the steps in order"); ASSERT(same(EV[i].a, EX[i].a), "the file of the step"); ASSERT(same(EV[i].b, EX[i].b), "the script of the step"); } }
static struct cee_dbm_path_info PI; static struct cee_dbm_db_info DI;
static void word(char *p, int n) { for (int i = 0; i < n; i++) { p[i] = i < 2 ? sym_u8("c") : 'x'; if (i < 2) sym_assume((p[i] != 0) & (p[i] != '/') & (p[i] != '$')); } p[n] = 0; }
static void setup(void) { int big = sym_choice("long", 2); char *ps[] = { PI.schema_script_path, PI.data_script_path, PI.db_file_path }; for (int i = 0; i < 3; i++) { ps[i][0] = '/'; ps[i][1] = "sdp"[i]; ps[i][2] = '/'; word(ps[i] + 3, big ? 124 : 1); } word(DI.kind, big ? 15 : 1); word(DI.file, big ? 31 : 2); DI.create_version = big ? 1234567890 : 3; kind_ = DI.kind; }
static char name_[L], pre_[L], *fname, *prefix; static void names(void) { fname = prefix = 0; if (sym_choice("given", 2)) { fname = name_; word(name_, sym_choice("lname", 2) ? 90 : 1); } if (sym_choice("prefix", 2)) { prefix = pre_; word(pre_, sym_choice("lpre", 2) ? 70 : 1); } strcpy(curdb, PI.db_file_path); strcat(curdb, "/"); strcat(curdb, fname ? fname : DI.file); }
static char *script(const char *dir, const char *k, const char *what, int v) { static char b[L]; snprintf(b, L, "%s/%s_%s.%d.sql", dir, k, what, v); return b; }
static char *logname(void) { static char b[L]; snprintf(b, L, "%s/cee_dbm_log.db", PI.db_file_path); return b; }
static void dirs(const char *d) { for (int i = 0; i < nev; i++) if (EV[i].k == E_MKDIR && same(EV[i].a, d)) { char up[L]; strcpy(up, parent(d)); dirs(up); ex(E_MKDIR, d, ""); return; } ASSERT(exists(d), "the directory is there at the end"); }
static void init(void) { setup(); names(); DI.recreate_db = sym_choice("recreate", 2); DI.restore_db = sym_choice("restore", 2); DI.customize_db = sym_choice("customize", 2); int had; size_t base = sym_heap_live(); version = sym_choice("v", 2) ? 12 : 0; int had_v = version, ver = -1; bool r = cee_dbm_db_init(&PI, &DI, fname, prefix, &ver); ASSERT(sym_heap_live() == base, "every script is released"); ASSERT(nh == 0, "every database is closed"); ASSERT(nlog > 0, "a log");
  ex(E_OPEN, logname(), ""); dirs(PI.db_file_path); had = FS[entry(curdb)].orig;
  int fresh = !had || DI.recreate_db; if (had && DI.recreate_db) ex(E_DROP, curdb, ""); if (fresh) { char *s = script(PI.schema_script_path, DI.kind, "create", DI.create_version); ex(E_SCRIPT, curdb, exists(s) ? s : ""); sym_reach(had ? "recreated" : "created"); } else sym_reach("kept");
  ASSERT(r == fresh, "whether the database is new"); int cur = fresh ? dbm_cur : had_v;
  if (fresh && DI.restore_db) { char *s = script(PI.data_script_path, prefix ? prefix : DI.kind, "insert", cur); if (exists(s)) { ex(E_SCRIPT, curdb, s); sym_reach("restored"); } if (DI.customize_db) { s = script(PI.data_script_path, DI.kind, "customize", cur); if (exists(s)) { ex(E_SCRIPT, curdb, s); sym_reach("customized"); } } }
  char *s = script(PI.schema_script_path, DI.kind, "migrate", cur); if (exists(s)) { ex(E_SCRIPT, curdb, s); sym_reach("migrated"); } agree(); ASSERT(ver == version, "the version that was reached"); }
static void backup(void) { setup(); names(); version = next_version(); bool r = cee_dbm_db_backup(&PI, &DI, fname, prefix); ASSERT(nh == 0, "every database is closed"); ex(E_OPEN, logname(), ""); if (!exists(curdb)) { ASSERT(!r, "nothing to back up"); sym_reach("absent"); } else { static char c[2 * L]; snprintf(c, sizeof c, "/cxd/s/dump_insert.sh %s > %s", curdb, script(PI.data_script_path, prefix ? prefix : DI.kind, "insert", version)); ex(E_SYSTEM, c, ""); if (!syserr) ASSERT(r, "backed up"); sym_reach("backed up"); } agree(); }
static char lastopen[L]; static sqlite3 *opener(const char *f) { strcpy(lastopen, f); return (void *)&DBH; }
static void use(void) { setup(); names(); struct cee_sqlite3 cs = { 0 }; char *f = fname ? fname : DI.file; FS[0].ex = 1; strcpy(FS[0].n, curdb); nfs = 1; ASSERT(cee_dbm_db_exist(&PI, f), "the database is there"); cee_dbm_open_db((void *)&cs, &cs, &PI, DI.kind, f, opener); ASSERT(cs.db == (void *)&DBH && same(lastopen, curdb), "the database that is opened"); ex(E_OPEN, curdb, DI.kind); char as[4]; word(as, 2); cee_dbm_attach_db(&cs, &PI, f, as); static char c[2 * L]; snprintf(c, sizeof c, "attach 'file:%s?mode=ro' as %s;", curdb, as); ex(E_EXEC, c, ""); agree(); strcat(curdb, "y"); FS[1].ex = 0; strcpy(FS[1].n, curdb); nfs = 2; char g[L]; strcpy(g, f); strcat(g, "y"); ASSERT(!cee_dbm_db_exist(&PI, g), "a database that is not there"); sym_reach("used"); }
static void home(void) { char *ps[] = { PI.schema_script_path, PI.data_script_path, PI.db_file_path }; static char was[3][L], ho[L]; int hl = sym_choice("home", 3); word(ho, hl == 0 ? 2 : hl == 1 ? 60 : 127); int which = sym_choice("which", 3); for (int i = 0; i < 3; i++) { int f = i == which ? sym_choice("form", 6) : 0; char *p = ps[i]; switch (f) { case 0: word(p, 3); break; case 1: strcpy(p, "$HOME"); break; case 2: strcpy(p, "$HOME/"); word(p + 6, 2); break; case 3: strcpy(p, "$HOME/"); word(p + 6, 121); break; case 4: strcpy(p, "/q/$HOME"); break; default: sym_bytes(p, 6, "path"); p[6] = 0; for (int q = 0; q < 6; q++) sym_assume(p[q] != 0); } strcpy(was[i], p); }
  cee_dbm_path_info_normalize(&PI, ho); for (int i = 0; i < 3; i++) { int at = memcmp(was[i], "$HOME", 5) == 0; static char w[2 * L]; w[0] = 0; if (at) { strcat(w, ho); strcat(w, was[i] + 5); if (strlen(w) > 127) { ASSERT(memchr(ps[i], 0, 128) != 0, "the path ends"); sym_reach("too long"); continue; } sym_reach("replaced"); } else { strcpy(w, was[i]); sym_reach("left"); } ASSERT(same(ps[i], w), "$HOME stands for the home directory"); } }
static void texts(void) { setup(); DI.recreate_db = sym_choice("recreate", 2); DI.restore_db = sym_choice("restore", 2); DI.final_version = sym_choice("final", 2) ? 1234567890 : -7; int f = sym_choice("f", 4); static char w[4 * L]; const char *b[] = { "false", "true" }; switch (f) { case 0: snprintf(w, sizeof w, "schema_script_path:%s, data_script_path:%s, db_file_path:%s, ", PI.schema_script_path, PI.data_script_path, PI.db_file_path); break; case 1: snprintf(w, sizeof w, "db_kind:%s, create_version:%d, recreate_db:%s, restore_db:%s, ", DI.kind, DI.create_version, b[DI.recreate_db], b[DI.restore_db]); break; case 2: snprintf(w, sizeof w, "schema_script_path:%s, data_script_path:%s, db_file_path:%s", PI.schema_script_path, PI.data_script_path, PI.db_file_path); break; default: snprintf(w, sizeof w, "kind:%s, file:%s, recreate_db:%s, restore_db:%s, create_version:%d, final_version:%d", DI.kind, DI.file, b[DI.recreate_db], b[DI.restore_db], DI.create_version, DI.final_version); }
  int n = strlen(w), sz = sym_choice("size", 8); int size = sz == 0 ? n + 1 : sz == 1 ? n + 9 : sz == 2 ? n : sz == 3 ? 1 : sz == 4 ? n / 2 : sz == 5 ? n / 4 : sz == 6 ? n - 5 : 0; char *buf = malloc(size ? size : 1); size_t r = n; switch (f) { case 0: r = cee_dbm_path_info_snprint(size ? buf : 0, size, &PI); break; case 1: r = cee_dbm_settings_snprint(size ? buf : 0, size, &DI); break; case 2: if (!size) break; cee_dbm_path_info2str(&PI, size, buf); break; default: if (!size) break; cee_dbm_db_info2str(&DI, size, buf); }
  ASSERT(r == n, "the length of the whole description"); if (size) { int m = n < size ? n : size - 1, bad = 0; for (int i = 0; i < m; i++) bad |= buf[i] ^ w[i]; ASSERT(!bad && !buf[m], "the description, or as much as fits"); } sym_reach(size > n ? "whole" : "cut"); free(buf); }
static void makedirs(void) { static char d[L]; int depth = 1 + sym_choice("depth", 4), rel = sym_choice("rel", 2), at = 0; for (int i = 0; i < depth; i++) { if (i || !rel) d[at++] = '/'; word(d + at, 1 + sym_choice("len", 2)); at = strlen(d); } int dp = -5, ext = sym_choice("ext", 2), r; r = ext ? mkdir_p_ext(d, 0755, &dp) : mkdir_p(d, 0755); ASSERT(r == 0, "the directory can be made"); dirs(d); int made = nex; if (ext && made) { ASSERT(dp == 77, "the new directory is opened"); ex(E_OPEN, d, ""); } else ASSERT(dp == -5 , "not opened"); agree(); sym_reach(made > 1 ? "several" : made ? "one" : "none"); if (sym_choice("null", 2)) ASSERT(mkdir_p(0, 0755) == 1, "no directory"); }
void harness(void) { switch (P("what", 0)) { case 0: init(); break; case 1: backup(); break; case 2: use(); break; case 3: home(); break; case 4: texts(); break; default: makedirs(); } }
