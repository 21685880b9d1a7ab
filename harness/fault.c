/* fault injection: the n-th file or memory operation of the assembler fails (kind 1: that one only, kind 2: that one and all later ones of its
 * class, kind 4: only counts and records the classes). Only calls made by the assembler's own objects are wrapped (ld --wrap); streams stdout and stderr are left alone. */
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <errno.h>
#include <sys/mman.h>
struct fault_shared { int kind; int at; volatile int events; volatile int fired; };
extern struct fault_shared *fault_shm;
static int sticky;          /* class that fails from now on */
enum { F_OPEN = 1, F_READ, F_WRITE, F_SEEK, F_TELL, F_CLOSE, F_MEM };
static int hit(int cls)
{
    if (!fault_shm || !fault_shm->kind || fault_shm->kind == 3) return 0;
    int e = ++fault_shm->events;
    if (e == fault_shm->at) { fault_shm->fired = cls; if (fault_shm->kind == 2) sticky = cls; }
    else if (!sticky || cls != sticky) return 0;
    if (fault_shm->kind == 4) return 0;
    errno = cls == F_MEM ? ENOMEM : cls == F_OPEN ? EACCES : cls == F_WRITE || cls == F_CLOSE ? ENOSPC : EIO;
    return 1;
}
static int std(FILE *f) { return f == stdout || f == stderr; }
static void mark(FILE *f) { f->_flags |= 0x20; }    /* the stream's error flag, as a failing write(2) or read(2) sets it */
FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *n, const char *m) { return hit(F_OPEN) ? NULL : __real_fopen(n, m); }
size_t __real_fread(void *, size_t, size_t, FILE *);
size_t __wrap_fread(void *p, size_t s, size_t n, FILE *f) { if (hit(F_READ)) { mark(f); return 0; } return __real_fread(p, s, n, f); }
int __real_getc(FILE *);
static int ngetc;
int __wrap_getc(FILE *f)
{
    /* one event for every 16th character: reads are buffered */
    if (f->_IO_read_ptr >= f->_IO_read_end || ++ngetc % 16 == 0) if (hit(F_READ)) { mark(f); return EOF; }
    return __real_getc(f);
}
size_t __real_fwrite(const void *, size_t, size_t, FILE *);
size_t __wrap_fwrite(const void *p, size_t s, size_t n, FILE *f) { if (!std(f) && s * n && hit(F_WRITE)) { mark(f); return 0; } return __real_fwrite(p, s, n, f); }
int __real_vfprintf(FILE *, const char *, va_list);
int __wrap_vfprintf(FILE *f, const char *t, va_list a) { if (!std(f) && hit(F_WRITE)) { mark(f); return -1; } return __real_vfprintf(f, t, a); }
int __real_fseek(FILE *, long, int);
int __wrap_fseek(FILE *f, long o, int w) { return hit(F_SEEK) ? -1 : __real_fseek(f, o, w); }
long __real_ftell(FILE *);
long __wrap_ftell(FILE *f) { return hit(F_TELL) ? -1 : __real_ftell(f); }
int __real_fclose(FILE *);
int __wrap_fclose(FILE *f) { if (std(f)) return __real_fclose(f); if (hit(F_CLOSE)) { __real_fclose(f); errno = ENOSPC; return EOF; } return __real_fclose(f); }
void *__real_malloc(size_t);
void *__wrap_malloc(size_t n) { return hit(F_MEM) ? NULL : __real_malloc(n); }
void *__real_calloc(size_t, size_t);
void *__wrap_calloc(size_t n, size_t m) { return hit(F_MEM) ? NULL : __real_calloc(n, m); }
void *__real_realloc(void *, size_t);
void *__wrap_realloc(void *p, size_t n) { return hit(F_MEM) ? NULL : __real_realloc(p, n); }
void *__real_mmap(void *, size_t, int, int, int, off_t);
void *__wrap_mmap(void *a, size_t n, int p, int f, int d, off_t o) { return hit(F_MEM) ? MAP_FAILED : __real_mmap(a, n, p, f, d, o); }
