#define _GNU_SOURCE
#include "vfs.h"
#include <stdarg.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <errno.h>
void *malloc(size_t); void free(void *); void *memcpy(void *, const void *, size_t); void *memset(void *, int, size_t); int strcmp(const char *, const char *); size_t strlen(const char *); int vsnprintf(char *, size_t, const char *, va_list);
#ifdef SYMX
#define W(f) f
#define REAL(...) (__VA_ARGS__)
#define NATIVE(e)
#else
#define W(f) __wrap_##f
#define NATIVE(e) e
#endif
static struct vfile F[6]; static int nf; static struct { int used, file, pos, wr; } D[12]; struct vF { int fd, err, eof, magic; }; static struct vF *open_files[12];
static int budget; int vfs_hard, vfs_trunc, vfs_noread, vfs_nowrite;
void vfs_faults(int n) { budget = n; vfs_hard = vfs_trunc = 0; }
struct vfile *vfs_file(const char *name, int create) { for (int i = 0; i < nf; i++) if (!strcmp(F[i].name, name)) return &F[i]; if (!create) return 0; if (nf == 6) sym_fail("vfs: too many files"); int n = 0; while (name[n] && n < 119) { F[nf].name[n] = name[n]; n++; } F[nf].name[n] = 0; return &F[nf++]; }
void vfs_put(const char *name, const void *data, int n) { struct vfile *f = vfs_file(name, 1); if (n > VFS_MAX) sym_fail("vfs: file too large"); memcpy(f->data, data, n); f->size = n; f->exists = 1; }
int vfs_open_fds(void) { int n = 0; for (int i = 0; i < 12; i++) n += D[i].used; return n; }
#define FD0 1000
static int vfd(int fd) { return fd >= FD0 && fd < FD0 + 12 && D[fd - FD0].used ? fd - FD0 : -1; }
static int fail(int e) { vfs_hard++; errno = e; return -1; }
static int fault(const char *name, int kinds) { if (!budget) return 0; int k = sym_choice(name, kinds + 1); if (k) budget--; return k; }
static int newfd(const char *name, int write, int creat, int trunc, int append) { struct vfile *f = vfs_file(name, creat); if (!f || (!f->exists && !creat)) return fail(ENOENT); for (int i = 0; i < 12; i++) if (!D[i].used) { D[i].used = 1; D[i].wr = write; D[i].file = f - F; D[i].pos = 0; if (!f->exists || trunc) f->size = 0; f->exists = 1; f->opened++; if (append) D[i].pos = f->size; return FD0 + i; } return fail(EMFILE); }
int vfs_open(const char *name, int write) { return newfd(name, write, write, write, 0); }
void vfs_rewind(int fd) { D[vfd(fd)].pos = 0; } void vfs_close(int fd) { D[vfd(fd)].used = 0; }
NATIVE(int __real_open(const char *, int, ...); int __real_close(int); ssize_t __real_read(int, void *, size_t); ssize_t __real_write(int, const void *, size_t); off_t __real_lseek(int, off_t, int); int __real_fstat(int, struct stat *); int __real_stat(const char *, struct stat *); int rt_inside(void);)
/* names the harness made; anything else is the real file system's (natively) */
int W(open)(const char *name, int flags, ...) { NATIVE(if (rt_inside()) return __real_open(name, flags, 0600);) if (fault("open", 1)) return fail(EACCES); return newfd(name, flags & (O_WRONLY | O_RDWR), !!(flags & O_CREAT), !!(flags & O_TRUNC), !!(flags & O_APPEND)); }
int W(close)(int fd) { int d = vfd(fd); if (d < 0) { NATIVE(return __real_close(fd);) errno = EBADF; return -1; } D[d].used = 0; return 0; }
ssize_t W(read)(int fd, void *buf, size_t n) { int d = vfd(fd); if (d < 0) { NATIVE(return __real_read(fd, buf, n);) errno = EBADF; return -1; }
  struct vfile *f = &F[D[d].file]; size_t left = f->size > D[d].pos ? f->size - D[d].pos : 0; if (n > left) n = left; if (!n) return 0; if (!sym_mem_ok(buf, n)) { ((volatile char *)buf)[n - 1] = 0; }
  int k = fault("read", 4); if (k == 1) { errno = EINTR; return -1; } if (k == 2) return fail(EIO); if (k == 3) { if (vfs_noread & 8) sym_stop(); vfs_trunc++; f->size = D[d].pos; return 0; } if (k == 4) { if (n < 2) sym_stop(); n = 1 + sym_choice("part", n - 1); }
  memcpy(buf, f->data + D[d].pos, n); D[d].pos += n; return n; }
ssize_t W(write)(int fd, const void *buf, size_t n) { int d = vfd(fd); if (d < 0) { NATIVE(return __real_write(fd, buf, n);) errno = EBADF; return -1; } struct vfile *f = &F[D[d].file]; if (!n) return 0; if (D[d].pos + n > VFS_MAX) sym_fail("vfs: file too large");
  int k = fault("write", 3); if (k == 1) { errno = EINTR; return -1; } if (k == 2) return fail(ENOSPC); if (k == 3) { if (n < 2) sym_stop(); n = 1 + sym_choice("part", n - 1); }
  memcpy(f->data + D[d].pos, buf, n); D[d].pos += n; if (f->size < D[d].pos) f->size = D[d].pos; return n; }
off_t W(lseek)(int fd, off_t o, int wh) { int d = vfd(fd); if (d < 0) { NATIVE(return __real_lseek(fd, o, wh);) errno = EBADF; return -1; } off_t b = wh == 0 ? 0 : wh == 1 ? D[d].pos : F[D[d].file].size; if (b + o < 0) { errno = EINVAL; return -1; } return D[d].pos = b + o; }
static void fill(struct stat *b, struct vfile *f) { memset(b, 0, sizeof *b); b->st_mode = S_IFREG | 0600; b->st_size = f->size; b->st_blksize = 4096; b->st_nlink = 1; }
int W(fstat)(int fd, struct stat *b) { int d = vfd(fd); if (d < 0) { NATIVE(return __real_fstat(fd, b);) errno = EBADF; return -1; } if (fault("fstat", 1)) return fail(EIO); fill(b, &F[D[d].file]); return 0; }
int W(stat)(const char *name, struct stat *b) { NATIVE(if (rt_inside()) return __real_stat(name, b);) struct vfile *f = vfs_file(name, 0); if (!f || !f->exists) { errno = ENOENT; return -1; } if (fault("stat", 1)) return fail(EIO); fill(b, f); return 0; }
/* streams, unbuffered */
typedef struct vF FILE_; NATIVE(void *__real_fopen(const char *, const char *); int __real_fclose(void *); int __real_fileno(void *); size_t __real_fread(void *, size_t, size_t, void *); size_t __real_fwrite(const void *, size_t, size_t, void *); int __real_fflush(void *); int __real_fseek(void *, long, int); long __real_ftell(void *); void __real_rewind(void *); int __real_feof(void *); int __real_ferror(void *); int __real_fputs(const char *, void *); int __real_fputc(int, void *); int __real_fgetc(void *); int __real_vfprintf(void *, const char *, va_list); int __real_vdprintf(int, const char *, va_list);)
static FILE_ *vf(void *f) { if (f) for (int i = 0; i < 12; i++) if (open_files[i] == f) return f; return 0; }
static FILE_ *newF(int fd) { for (int i = 0; i < 12; i++) if (!open_files[i]) { FILE_ *f = open_files[i] = malloc(sizeof *f); f->fd = fd; f->err = f->eof = 0; f->magic = 1; return f; } sym_fail("vfs: too many streams"); return 0; }
void *W(fopen)(const char *name, const char *mode) { NATIVE(if (rt_inside()) return __real_fopen(name, mode);) if (fault("fopen", 1)) { fail(EACCES); return 0; } int fd = newfd(name, mode[0] != 'r', mode[0] != 'r', mode[0] == 'w', mode[0] == 'a'); return fd < 0 ? 0 : newF(fd); }
void *W(fdopen)(int fd, const char *mode) { return newF(fd); }
int W(fileno)(void *f) { FILE_ *v = vf(f); if (!v) { NATIVE(return __real_fileno(f);) return -1; } return v->fd; }
int W(fclose)(void *f) { FILE_ *v = vf(f); if (!v) { NATIVE(return __real_fclose(f);) sym_fail("fclose of something that is not an open stream"); } for (int i = 0; i < 12; i++) if (open_files[i] == v) open_files[i] = 0; int d = vfd(v->fd), wr = d >= 0 && D[d].wr; if (d >= 0) D[d].used = 0; free(v); if (wr && fault("fclose", 1)) return fail(EIO); return 0; }
static size_t all(FILE_ *v, const char *p, size_t n) { size_t done = 0; while (done < n) { ssize_t k = W(write)(v->fd, p + done, n - done); if (k < 0 && errno == EINTR) continue; if (k <= 0) { v->err = 1; break; } done += k; } return done; }
size_t W(fread)(void *p, size_t a, size_t b, void *f) { FILE_ *v = vf(f); if (!v) { NATIVE(return __real_fread(p, a, b, f);) return 0; } size_t n = a * b, done = 0; while (done < n) { ssize_t k = W(read)(v->fd, (char *)p + done, n - done); if (k < 0 && errno == EINTR) continue; if (k < 0) { v->err = 1; break; } if (k == 0) { v->eof = 1; break; } done += k; } return a ? done / a : 0; }
size_t W(fwrite)(const void *p, size_t a, size_t b, void *f) { FILE_ *v = vf(f); if (!v) { NATIVE(return __real_fwrite(p, a, b, f);) return b; } size_t n = all(v, p, a * b); return a ? n / a : 0; }
int W(fgetc)(void *f) { FILE_ *v = vf(f); if (!v) { NATIVE(return __real_fgetc(f);) return -1; } unsigned char c; return W(fread)(&c, 1, 1, f) == 1 ? c : -1; }
int W(fputs)(const char *s, void *f) { FILE_ *v = vf(f); if (!v) { NATIVE(return __real_fputs(s, f);) return 0; } size_t n = strlen(s); return all(v, s, n) == n ? 0 : -1; }
int W(fputc)(int c, void *f) { FILE_ *v = vf(f); if (!v) { NATIVE(return __real_fputc(c, f);) return c; } char b = c; return all(v, &b, 1) == 1 ? c : -1; }
int W(fflush)(void *f) { FILE_ *v = vf(f); if (!v) { NATIVE(return __real_fflush(f);) return 0; } return 0; }
int W(feof)(void *f) { FILE_ *v = vf(f); if (!v) { NATIVE(return __real_feof(f);) return 0; } return v->eof; }
int W(ferror)(void *f) { FILE_ *v = vf(f); if (!v) { NATIVE(return __real_ferror(f);) return 0; } return v->err; }
int W(fseek)(void *f, long o, int wh) { FILE_ *v = vf(f); if (!v) { NATIVE(return __real_fseek(f, o, wh);) return -1; } v->eof = 0; return W(lseek)(v->fd, o, wh) < 0 ? -1 : 0; }
long W(ftell)(void *f) { FILE_ *v = vf(f); if (!v) { NATIVE(return __real_ftell(f);) return -1; } return W(lseek)(v->fd, 0, 1); }
void W(rewind)(void *f) { FILE_ *v = vf(f); if (!v) { NATIVE(__real_rewind(f); return;) return; } v->eof = v->err = 0; W(lseek)(v->fd, 0, 0); }
static int fmt(FILE_ *v, const char *f, va_list ap) { char b[VFS_MAX]; int n = vsnprintf(b, sizeof b, f, ap); if (n >= VFS_MAX) sym_fail("vfs: text too long"); return all(v, b, n) == (size_t)n ? n : -1; }
int W(vfprintf)(void *f, const char *s, va_list ap) { FILE_ *v = vf(f); if (!v) { NATIVE(return __real_vfprintf(f, s, ap);) return 0; } return fmt(v, s, ap); }
int W(fprintf)(void *f, const char *s, ...) { va_list ap; va_start(ap, s); int r = W(vfprintf)(f, s, ap); va_end(ap); return r; }
int W(vdprintf)(int fd, const char *s, va_list ap) { if (vfd(fd) < 0) { NATIVE(return __real_vdprintf(fd, s, ap);) return -1; } FILE_ t = { fd, 0, 0, 1 }; return fmt(&t, s, ap); }
int W(dprintf)(int fd, const char *s, ...) { va_list ap; va_start(ap, s); int r = W(vdprintf)(fd, s, ap); va_end(ap); return r; }
