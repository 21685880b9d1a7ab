/* Fork server around the real assembler (main() of /repo/main.c renamed to
 * uasm_main).  Every job runs in a fresh process image: the program state
 * before each job is the state at program start.
 *
 * job  (stdin):  u32 total length, then
 *    u32 flags, u32 cpu_ms, u32 nargs, {u32 len, bytes}*nargs,
 *    u32 nfiles, {u32 len, name, u32 len, bytes}*nfiles
 *    u32 faultkind, u32 faultat           (fault injection, see fault.c)
 * reply (stdout): u32 total length, then
 *    i32 status (wait status), u32 fault_events, u32 fault_fired
 *    u32 len, console bytes, u32 nfiles, {u32 len,name,u32 len,bytes}
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <dirent.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>

char *_pgmptr = "uasm.exe";
/* the clock stands still: what a module is assembled to doesn't depend on when */
time_t __wrap_time(time_t *t) { if (t) *t = 1700000000; return 1700000000; }
int uasm_main(int, char **);
struct fault_shared { int kind; int at; volatile int events; volatile int fired; };
struct fault_shared *fault_shm;

static unsigned char *in; static size_t incap;
static unsigned char *out; static size_t outlen, outcap;

static void rd(int fd, void *p, size_t n)
{
    char *q = p;
    while (n) { ssize_t k = read(fd, q, n); if (k <= 0) { if (k < 0 && errno == EINTR) continue; _exit(0); } q += k; n -= k; }
}
static void wr(int fd, const void *p, size_t n)
{
    const char *q = p;
    while (n) { ssize_t k = write(fd, q, n); if (k < 0) { if (errno == EINTR) continue; _exit(1); } q += k; n -= k; }
}
static void put(const void *p, size_t n)
{
    if (outlen + n > outcap) { outcap = (outlen + n) * 2 + 4096; out = realloc(out, outcap); }
    memcpy(out + outlen, p, n); outlen += n;
}
static void put32(uint32_t v) { put(&v, 4); }
static void putfile(const char *path)
{
    int fd = open(path, O_RDONLY); struct stat st;
    if (fd < 0 || fstat(fd, &st) || !S_ISREG(st.st_mode)) { put32(0); if (fd >= 0) close(fd); return; }
    size_t n = st.st_size; if (n > (64u << 20)) n = 64u << 20;
    size_t at = outlen + 4, got = 0;
    put32(0);
    if (outlen + n > outcap) { outcap = (outlen + n) * 2 + 4096; out = realloc(out, outcap); }
    while (got < n) { ssize_t k = read(fd, out + outlen + got, n - got); if (k <= 0) break; got += k; }
    outlen += got; uint32_t g = got; memcpy(out + at - 4, &g, 4);
    close(fd);
}
/* recursive over subdirectories the job itself names (one level deep is enough) */
static void collect(const char *dir, const char *pre, int doput, uint32_t *cnt)
{
    DIR *d = opendir(dir); struct dirent *e; char p[4096], q[4096];
    if (!d) return;
    while ((e = readdir(d))) {
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
        snprintf(p, sizeof p, "%s/%s", dir, e->d_name);
        snprintf(q, sizeof q, "%s%s", pre, e->d_name);
        struct stat st; if (lstat(p, &st)) continue;
        if (S_ISDIR(st.st_mode)) { strcat(q, "/"); collect(p, q, doput, cnt); if (!doput) rmdir(p); continue; }
        if (doput) {
            if (!strcmp(q, "_console")) continue;
            put32(strlen(q)); put(q, strlen(q)); putfile(p); ++*cnt;
        } else unlink(p);
    }
    closedir(d);
}
int main(int argc, char **argv)
{
    const char *scratch = argv[1];
    if (chdir(scratch)) { perror(scratch); return 2; }
    fault_shm = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int jin = fcntl(0, F_DUPFD_CLOEXEC, 50), jout = fcntl(1, F_DUPFD_CLOEXEC, 51);
    int nul = open("/dev/null", O_RDWR);
    dup2(nul, 0); dup2(nul, 1);
    unsetenv("UASM"); unsetenv("INCLUDE"); unsetenv("ASM");
    for (;;) {
        uint32_t total, o = 0;
        rd(jin, &total, 4);
        if (total > incap) { incap = total; in = realloc(in, incap); }
        rd(jin, in, total);
#define G32(v) do { memcpy(&(v), in + o, 4); o += 4; } while (0)
        uint32_t flags, ms, nargs, n, nfiles;
        G32(flags); G32(ms); G32(nargs);
        char **av = calloc(nargs + 2, sizeof *av);
        for (uint32_t i = 0; i < nargs; i++) { G32(n); av[i] = malloc(n + 1); memcpy(av[i], in + o, n); av[i][n] = 0; o += n; }
        G32(nfiles);
        for (uint32_t i = 0; i < nfiles; i++) {
            char nm[1024]; G32(n); memcpy(nm, in + o, n); nm[n] = 0; o += n;
            for (char *s = nm; (s = strchr(s, '/')); s++) { *s = 0; mkdir(nm, 0700); *s = '/'; }
            G32(n);
            int fd = open(nm, O_CREAT | O_TRUNC | O_WRONLY, 0600);
            wr(fd, in + o, n); close(fd); o += n;
        }
        uint32_t fk, fa; G32(fk); G32(fa);
        fault_shm->kind = 0; fault_shm->at = fa; fault_shm->events = 0; fault_shm->fired = 0;
        int st = 0;
        pid_t pid = fork();
        if (pid == 0) {
            int c = open("_console", O_CREAT | O_TRUNC | O_WRONLY, 0600);
            dup2(c, 1); dup2(c, 2); close(c);
            struct rlimit rl = { 64u << 20, 64u << 20 }; setrlimit(RLIMIT_FSIZE, &rl);
            rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
#ifndef __SANITIZE_ADDRESS__
            rl.rlim_cur = rl.rlim_max = (rlim_t)3 << 30; setrlimit(RLIMIT_AS, &rl);
#endif
            struct itimerval it = { {0, 0}, { ms / 1000, (ms % 1000) * 1000 } };
            signal(SIGPROF, SIG_DFL); setitimer(ITIMER_PROF, &it, 0);
            struct itimerval wt = { {0, 0}, { 30 + ms / 100, 0 } };
            signal(SIGALRM, SIG_DFL); setitimer(ITIMER_REAL, &wt, 0);
            char *envs = 0;
            if (flags & 1) { setenv("UASM", av[0], 1); }
            if (flags & 2) { setenv("INCLUDE", av[1], 1); memmove(av + 1, av + 2, (nargs - 1) * sizeof *av); nargs--; }
            (void)envs;
            if (fk == 3) {        /* the disk is full after fa bytes of a file */
                rl.rlim_cur = rl.rlim_max = fa; setrlimit(RLIMIT_FSIZE, &rl); signal(SIGXFSZ, SIG_IGN);
            }
            fault_shm->kind = fk;
            int rc = uasm_main(nargs, av);
            fflush(0);
            fault_shm->kind = 0;
            _exit(rc & 255);
        }
        if (pid < 0) { perror("fork"); _exit(3); }
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
        fault_shm->kind = 0;
        outlen = 0; uint32_t z = 0; put32(0);
        put32(st); put32(fault_shm->events); put32(fault_shm->fired);
        putfile("_console");
        size_t at = outlen; put32(0);
        collect(".", "", 1, &z); memcpy(out + at, &z, 4);
        uint32_t ol = outlen - 4; memcpy(out, &ol, 4);
        wr(jout, out, outlen);
        collect(".", "", 0, &z);
        for (uint32_t i = 0; i < nargs; i++) free(av[i]);
        free(av);
    }
}
