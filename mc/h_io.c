/* Harness for M03: a program using the file "f" runs in a forked child on real files, undisturbed and then once for every
 * system call on that file and every kind of disturbance of it.  Linked statically, so that calls inside of stdio are seen.
 * Request: "<id> <len> <content len> <modes>\n<source><content>"; content len -1: no such file at first.
 *   modes, one letter each: 1 short transfer (one byte), 2 short transfer (half), E fails with EIO, I fails with EINTR, S: every transfer is short
 * Answer: "RES <id> <points> <runs> <len>\n" and blocks "RUN <k> <mode> <status> <out len> <file len>\n<out><file>"; the first is the
 * undisturbed run (k = -1), the others are those which differ from it. */
#define _GNU_SOURCE
#include "inc/kos_instance.h"
#include "inc/kos_error.h"
#include "inc/kos_entity.h"
#include "inc/kos_module.h"
#include "inc/kos_modules_init.h"
#include "inc/kos_utils.h"
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <locale.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

static struct shared { volatile long count, hits; } *sh;
static int          active;
static long         inj_k;
static int          inj_mode;
static char         is_f[256];          /* descriptors of "f" */
static KOS_INSTANCE inst;
static KOS_CONTEXT  mainctx;

/* 0: undisturbed; else the kind */
static int point(int transfer)
{
    long n;
    if (inj_mode == 'S') { if (transfer) sh->hits++; return transfer ? '1' : 0; }
    n = sh->count++;
    if (n != inj_k) return 0;
    if (!transfer && inj_mode != 'E') return 0;
    sh->hits++;
    return inj_mode;
}
static int tracked(int fd) { return active && fd >= 0 && fd < 256 && is_f[fd]; }

ssize_t __real___read(int fd, void *b, size_t n);
ssize_t __real___write(int fd, const void *b, size_t n);
off64_t __real___lseek64(int fd, off64_t o, int w);
int     __real___open(const char *p, int fl, ...);
int     __real___close_nocancel(int fd);
int     __real_ftruncate(int fd, off_t n);
int     __real_fstat(int fd, struct stat *s);

static size_t cut(int m, size_t n) { return n < 2 ? n : m == '1' ? 1 : n / 2; }

static ssize_t do_read(int fd, void *b, size_t n)
{
    int m = tracked(fd) ? point(1) : 0;
    if (m == 'E') { errno = EIO; return -1; }
    if (m == 'I') { errno = EINTR; return -1; }
    return __real___read(fd, b, m ? cut(m, n) : n);
}
static ssize_t do_write(int fd, const void *b, size_t n)
{
    int m = tracked(fd) ? point(1) : 0;
    if (m == 'E') { errno = ENOSPC; return -1; }
    if (m == 'I') { errno = EINTR; return -1; }
    return __real___write(fd, b, m ? cut(m, n) : n);
}
ssize_t __wrap___read(int fd, void *b, size_t n) { return do_read(fd, b, n); }
ssize_t __wrap___read_nocancel(int fd, void *b, size_t n) { return do_read(fd, b, n); }
ssize_t __wrap_read(int fd, void *b, size_t n) { return do_read(fd, b, n); }
ssize_t __wrap___write(int fd, const void *b, size_t n) { return do_write(fd, b, n); }
ssize_t __wrap___write_nocancel(int fd, const void *b, size_t n) { return do_write(fd, b, n); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { return do_write(fd, b, n); }
off64_t __wrap___lseek64(int fd, off64_t o, int w)
{
    if (tracked(fd) && point(0)) { errno = EIO; return -1; }
    return __real___lseek64(fd, o, w);
}
static int do_open(const char *p, int fl, mode_t md)
{
    int fd;
    if (active && !strcmp(p, "f") && point(0)) { errno = EMFILE; return -1; }
    fd = __real___open(p, fl, md);
    if (active && fd >= 0 && fd < 256) is_f[fd] = !strcmp(p, "f");
    return fd;
}
int __wrap___open(const char *p, int fl, ...) { va_list a; mode_t m; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); return do_open(p, fl, m); }
int __wrap___open_nocancel(const char *p, int fl, ...) { va_list a; mode_t m; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); return do_open(p, fl, m); }
int __wrap___close_nocancel(int fd)
{
    int m = tracked(fd) ? point(0) : 0;
    if (fd >= 0 && fd < 256) is_f[fd] = 0;
    __real___close_nocancel(fd);
    if (m) { errno = EIO; return -1; }
    return 0;
}
int __wrap_ftruncate(int fd, off_t n)
{
    if (tracked(fd) && point(0)) { errno = EIO; return -1; }
    return __real_ftruncate(fd, n);
}
int __wrap_fstat(int fd, struct stat *s)
{
    if (tracked(fd) && point(0)) { errno = EIO; return -1; }
    return __real_fstat(fd, s);
}

static int timed_out; static pid_t child;
static void on_alarm(int s) { (void)s; timed_out = 1; if (child > 0) kill(child, SIGKILL); }

static char *slurp(int fd, long *n)
{
    off_t e = lseek(fd, 0, SEEK_END);
    char *b = malloc((size_t)e + 1);
    if (pread(fd, b, (size_t)e, 0) != e) exit(2);
    b[e] = 0; *n = (long)e;
    return b;
}

static void run_child(const char *src, size_t len, const char *content, long clen, int memfd, char *status, long k, int mode)
{
    int st, fd;
    if (ftruncate(memfd, 0)) exit(2);
    lseek(memfd, 0, SEEK_SET);
    unlink("f");
    if (clen >= 0) {
        fd = open("f", O_WRONLY | O_CREAT | O_TRUNC, 0600);
        if (fd < 0 || (clen && write(fd, content, (size_t)clen) != clen)) exit(2);
        close(fd);
    }
    sh->count = sh->hits = 0;
    fflush(stdout);
    child = fork();
    if (child < 0) exit(2);
    if (!child) {
        struct rlimit rl = { 0, 0 };
        KOS_OBJ_ID m = KOS_BADPTR, r;
        setrlimit(RLIMIT_CORE, &rl);
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        dup2(memfd, 1); dup2(memfd, 2);
        close(0);
        inj_k = k; inj_mode = mode;
        active = 1;
        r = KOS_repl(mainctx, "t", KOS_IMPORT_BASE, &m, src, (unsigned)len);
        active = 0;
        fflush(stdout);
        if (IS_BAD_PTR(r)) { KOS_print_exception(mainctx, KOS_STDOUT); fflush(stdout); _exit(10); }
        _exit(0);
    }
    timed_out = 0;
    alarm(10);
    while (waitpid(child, &st, 0) < 0 && errno == EINTR) { }
    alarm(0);
    child = 0;
    if (WIFEXITED(st)) sprintf(status, WEXITSTATUS(st) == 0 ? "ok" : WEXITSTATUS(st) == 10 ? "exc" : "crash:exit%d", WEXITSTATUS(st));
    else if (timed_out) strcpy(status, "hang");
    else sprintf(status, "crash:sig%d", WTERMSIG(st));
}

static char *file_now(long *n)
{
    int fd = open("f", O_RDONLY);
    char *b;
    if (fd < 0) { *n = -1; return NULL; }
    b = slurp(fd, n);
    close(fd);
    return b;
}

int main(int argc, char **argv)
{
    char hdr[256], *src = NULL; size_t cap = 0;
    const char *empty[] = { "" };
    int memfd;
    struct sigaction sa;
    setlocale(LC_ALL, "");
    sh = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (argc < 3 || KOS_instance_init(&inst, 0, &mainctx) || KOS_instance_add_path(mainctx, argv[1]) || KOS_instance_set_args(mainctx, 1, empty) || KOS_modules_init(mainctx)) return 2;
    {
        const char *pre = "import io\n";
        KOS_OBJ_ID m = KOS_BADPTR;
        if (IS_BAD_PTR(KOS_repl(mainctx, "preload", KOS_IMPORT_BASE, &m, pre, (unsigned)strlen(pre)))) { KOS_print_exception(mainctx, KOS_STDERR); return 2; }
    }
    if (chdir(argv[2])) return 2;
    memset(&sa, 0, sizeof(sa)); sa.sa_handler = on_alarm; sigaction(SIGALRM, &sa, NULL);
    memfd = memfd_create("out", 0);
    if (memfd < 0) return 2;
    while (fgets(hdr, sizeof(hdr), stdin)) {
        char id[64], modes[16], st[32], bst[32], *content, *rep = NULL, *base, *bfile, *out, *fl; size_t len, rn = 0; long clen, npts, runs = 0, bn, bf, n, fn, k; FILE *rf;
        const char *m;
        if (sscanf(hdr, "%63s %zu %ld %15s", id, &len, &clen, modes) != 4) return 2;
        if (len + (clen > 0 ? (size_t)clen : 0) + 1 > cap) { cap = len + (clen > 0 ? (size_t)clen : 0) + 4096; src = realloc(src, cap); }
        if (fread(src, 1, len, stdin) != len) return 2;
        content = src + len;
        if (clen > 0 && fread(content, 1, (size_t)clen, stdin) != (size_t)clen) return 2;
        rf = open_memstream(&rep, &rn);
        run_child(src, len, content, clen, memfd, bst, -1, '-');
        npts = sh->count;
        base = slurp(memfd, &bn); bfile = file_now(&bf);
        fprintf(rf, "RUN -1 - %s %ld %ld\n", bst, bn, bf);
        fwrite(base, 1, (size_t)bn, rf);
        if (bf > 0) fwrite(bfile, 1, (size_t)bf, rf);
        for (m = modes; *m; m++) {
            if (*m == '-') continue;
            for (k = 0; k < (*m == 'S' ? 1 : npts); k++) {
                run_child(src, len, content, clen, memfd, st, k, *m);
                if (!sh->hits) continue;
                runs++;
                out = slurp(memfd, &n); fl = file_now(&fn);
                if (strcmp(st, bst) || n != bn || memcmp(out, base, (size_t)n) || fn != bf || (fn > 0 && memcmp(fl, bfile, (size_t)fn))) {
                    fprintf(rf, "RUN %ld %c %s %ld %ld\n", k, *m, st, n, fn);
                    fwrite(out, 1, (size_t)n, rf);
                    if (fn > 0) fwrite(fl, 1, (size_t)fn, rf);
                }
                free(out); free(fl);
            }
        }
        fclose(rf);
        printf("RES %s %ld %ld %zu\n", id, npts, runs, rn);
        fwrite(rep, 1, rn, stdout); fflush(stdout);
        free(rep); free(base); free(bfile);
    }
    return 0;
}
