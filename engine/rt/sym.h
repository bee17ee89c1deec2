/* Harness API.  Implemented by the symbolic executor (builtins) and, for replay, by native_rt.c. */
#ifndef SYM_H
#define SYM_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
uint8_t sym_u8(const char *name); uint16_t sym_u16(const char *name); uint32_t sym_u32(const char *name); uint64_t sym_u64(const char *name);
void sym_bytes(void *p, size_t n, const char *name);
void sym_assume(int c);
void sym_assert_(int c, const char *msg);
void sym_fail(const char *msg);
void sym_reach(const char *label);
void sym_known(const char *id);
void sym_known_crash(const char *id, const char *fn); /* a deliberate crash (null write) below fn is this known finding; "" ends it */
uint64_t sym_concretize(uint64_t v);
size_t sym_heap_live(void);
void sym_observe(const char *name, int64_t v);
int sym_is_symbolic(uint64_t v);
int sym_is_freed(const void *p);
int sym_mem_ok(const void *p, size_t n);       /* [p,p+n) lies in one live object */
size_t sym_object_size(const void *p);         /* bytes from p to the end of its object */
int sym_param(const char *name, int dflt);
void sym_stop(void);
#define ASSERT(c, msg) sym_assert_((c) != 0, msg)
#define ASSUME(c) sym_assume((c) != 0)
/* a value in [0,n), every value of which is followed on its own path */
static inline int sym_choice(const char *name, int n) { if (n <= 1) return 0; uint8_t v = sym_u8(name); sym_assume(v < n); return (int)sym_concretize(v); }
/* a symbolic int in [lo,hi], not forked */
static inline int sym_range(const char *name, int lo, int hi) { int v = (int)sym_u32(name); sym_assume(v >= lo); sym_assume(v <= hi); return v; }
static inline bool sym_bool(const char *name) { uint8_t v = sym_u8(name); sym_assume(v < 2); return v; }
#endif
