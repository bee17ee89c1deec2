/* A file system in memory that misbehaves on request; the same code runs under the executor and, through the linker's --wrap, natively. */
#ifndef VFS_H
#define VFS_H
#include "sym.h"
#define VFS_MAX 400
struct vfile { char name[120]; unsigned char data[VFS_MAX]; int size, exists, opened; };
struct vfile *vfs_file(const char *name, int create);
void vfs_put(const char *name, const void *data, int n);
void vfs_faults(int n);            /* how many misbehaviours may still happen */
extern int vfs_hard, vfs_trunc;    /* failures reported to the caller so far; reads that ended early */
extern int vfs_noread, vfs_nowrite;/* exclude these from the choices (bit mask of fault kinds) */
int vfs_open_fds(void);
int vfs_open(const char *name, int write);
void vfs_rewind(int fd); void vfs_close(int fd);
#endif
