/* Fault driver (engines C and D): an instance is initialised once; for every program read from stdin it is first run undisturbed in a
 * forked child (which counts the points), then once per injection point in further children, each compared with the undisturbed run.
 *   FAULT_GC   : a point is an object allocation; the injection is a complete garbage collection before it.
 *   FAULT_FAIL : a point is a fallible resource request (kos_seq_fail, malloc family); the injection makes it fail.
 * Request:  "<id> <timeout> <len> <lo> <hi> <step> <each> <mode>\n<source>": points lo..hi-1 by step are injected, one at a time
 * (mode & 1) or together with all later ones (mode & 2); mode & 4: the program handles failures itself, its output may differ; each = n > 0
 * adds runs in which every n-th point is injected (n = 1: all of them). Answer: "RES <id> <status> <points> <runs> <bad> <len>\n<text>\n". */
#define _GNU_SOURCE
#include "inc/kos_instance.h"
#include "inc/kos_error.h"
#include "inc/kos_entity.h"
#include "inc/kos_module.h"
#include "inc/kos_modules_init.h"
#include "inc/kos_utils.h"
#include "core/kos_heap.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <locale.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

static struct shared { volatile long count, hits, phase, balance; } *sh;
static int  active;
static long inj_lo, inj_step, inj_max;
static KOS_INSTANCE inst;
static KOS_CONTEXT  mainctx;
static int  busy;

static int point(void)
{
    long n;
    if (!active) return 0;
    n = __atomic_fetch_add(&sh->count, 1, __ATOMIC_RELAXED);
    if (inj_max <= 0 || n < inj_lo || (n - inj_lo) % inj_step) return 0;
    if (__atomic_add_fetch(&sh->hits, 1, __ATOMIC_RELAXED) > inj_max) return 0;
    return 1;
}

#ifdef FAULT_GC
void *__real_kos_alloc_object(KOS_CONTEXT ctx, KOS_ALLOC_FLAG flags, KOS_TYPE type, uint32_t size);
void *__wrap_kos_alloc_object(KOS_CONTEXT ctx, KOS_ALLOC_FLAG flags, KOS_TYPE type, uint32_t size)
{
    if (!busy && point()) {
        busy = 1;
        if (KOS_collect_garbage(ctx, NULL)) { fprintf(stderr, "collection failed\n"); _exit(77); }
        busy = 0;
    }
    return __real_kos_alloc_object(ctx, flags, type, size);
}
#else
int __wrap_kos_seq_fail(void) { return point() ? KOS_ERROR_INTERNAL : 0; }
#endif

#ifdef FAULT_FAIL
size_t __sanitizer_get_current_allocated_bytes(void);
#endif

static int run_prog(const char *name, const char *src, size_t len)
{
    KOS_OBJ_ID m = KOS_BADPTR, r;
    r = KOS_repl(mainctx, name, KOS_IMPORT_BASE, &m, src, (unsigned)len);
    fflush(stdout);
    return IS_BAD_PTR(r);
}

static pid_t child; static int timed_out;
static void on_alarm(int s) { (void)s; timed_out = 1; if (child > 0) kill(child, SIGKILL); }

/* status: ok exc crash:... hang */
static void run_child(const char *src, size_t len, unsigned tmo, int memfd, char *status, size_t stsz, long lo, long step, long max)
{
    int st;
    if (ftruncate(memfd, 0)) exit(2);
    lseek(memfd, 0, SEEK_SET);
    sh->count = sh->hits = sh->phase = sh->balance = 0;
    fflush(stdout);
    child = fork();
    if (child < 0) exit(2);
    if (!child) {
        struct rlimit rl = { 0, 0 };
        int bad;
        setrlimit(RLIMIT_CORE, &rl);
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        dup2(memfd, 1); dup2(memfd, 2);
        close(0);
        inj_lo = lo; inj_step = step; inj_max = max;
        inst.flags |= KOS_INST_MANUAL_GC;
#ifdef FAULT_FAIL
        sh->balance = -(long)__sanitizer_get_current_allocated_bytes();
#endif
        active = 1;
        bad = run_prog("t", src, len);
        active = 0;
        if (bad) {
            printf("\nEXC:"); fflush(stdout);
            KOS_print_exception(mainctx, KOS_STDOUT);
            fflush(stdout);
        }
#ifdef FAULT_FAIL
        sh->phase = 1;
        printf("\n--again--\n"); fflush(stdout);
        inst.flags &= ~KOS_INST_MANUAL_GC;
        if (KOS_collect_garbage(mainctx, NULL)) { printf("\nEXC:collection failed\n"); fflush(stdout); _exit(11); }
        if (run_prog("u", src, len)) {
            printf("\nEXC:"); fflush(stdout);
            KOS_print_exception(mainctx, KOS_STDOUT);
            fflush(stdout);
        }
        sh->phase = 2;
        KOS_instance_destroy(&inst);
        sh->phase = 3;
        fflush(stdout);
        sh->balance += (long)__sanitizer_get_current_allocated_bytes();
#else
        if (getenv("FAULT_DESTROY")) KOS_instance_destroy(&inst);
#endif
        fflush(stdout);
        _exit(bad ? 10 : 0);
    }
    timed_out = 0;
    alarm(tmo);
    while (waitpid(child, &st, 0) < 0 && errno == EINTR) { }
    alarm(0);
    child = 0;
    if (WIFEXITED(st)) {
        if (WEXITSTATUS(st) == 0) snprintf(status, stsz, "ok");
        else if (WEXITSTATUS(st) == 10) snprintf(status, stsz, "exc");
        else snprintf(status, stsz, "crash:exit%d", WEXITSTATUS(st));
    }
    else if (timed_out) snprintf(status, stsz, "hang");
    else snprintf(status, stsz, "crash:sig%d", WTERMSIG(st));
}

static char *slurp(int fd, size_t *n)
{
    off_t e = lseek(fd, 0, SEEK_END);
    char *b = malloc((size_t)e + 1);
    if (pread(fd, b, (size_t)e, 0) != e) exit(2);
    b[e] = 0; *n = (size_t)e;
    return b;
}

static int differs(const char *bst, const char *base, size_t bn, const char *st, const char *out, size_t n, long mode, long bal0)
{
#ifdef FAULT_FAIL
    /* undisturbed: OUT \n--again--\n OUT. Injected: either the same, or a prefix of OUT, an exception, and then the full second run */
    const char *a = strstr(base, "\n--again--\n"), *b = strstr(out, "\n--again--\n"), *e;
    if (strcmp(st, "ok") && strcmp(st, "exc")) return 1;
    if (!a || !b) return 1;
    if (strcmp(a, b)) return 2;                                   /* second run */
    if (sh->phase != 3) return 5;
    if (sh->balance > bal0) return 6;                             /* leak */
    if (mode & 4) return 0;
    if (!strcmp(st, "ok")) return n != bn || memcmp(base, out, n) ? 3 : 0;
    if (!strcmp(bst, "exc") && n == bn && !memcmp(base, out, n)) return 0;
    e = strstr(out, "\nEXC:");
    if (!e || e > b || (size_t)(e - out) > (size_t)(a - base) || memcmp(base, out, (size_t)(e - out))) return 4;
    return 0;
#else
    (void)mode; (void)bal0;
    return strcmp(bst, st) || n != bn || memcmp(base, out, n);
#endif
}

int main(int argc, char **argv)
{
    char hdr[256], *src = NULL; size_t cap = 0;
    const char *empty[] = { "" };
    int memfd, i;
    struct sigaction sa;
    setlocale(LC_ALL, "");
    sh = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (argc < 2 || KOS_instance_init(&inst, KOS_INST_MANUAL_GC, &mainctx)) return 2;
    for (i = 1; i < argc; i++) if (KOS_instance_add_path(mainctx, argv[i])) return 2;
    if (KOS_instance_set_args(mainctx, 1, empty)) return 2;
    if (KOS_modules_init(mainctx)) return 2;
    {
        const char *pre = getenv("BATCH_PRELOAD");
        KOS_OBJ_ID m = KOS_BADPTR;
        if (!pre) pre = "import io\n";
        if (IS_BAD_PTR(KOS_repl(mainctx, "preload", KOS_IMPORT_BASE, &m, pre, (unsigned)strlen(pre)))) {
            KOS_print_exception(mainctx, KOS_STDERR);
            return 2;
        }
    }
    memset(&sa, 0, sizeof(sa)); sa.sa_handler = on_alarm; sigaction(SIGALRM, &sa, NULL);
    memfd = memfd_create("out", 0);
    if (memfd < 0) return 2;
    while (fgets(hdr, sizeof(hdr), stdin)) {
        char id[64], bst[32], st[32], *base, *out, *rep = NULL; size_t len, bn, n, rn = 0; unsigned tmo; long lo, hi, step, each, mode, k, runs = 0, bad = 0, npts, bal0;
        FILE *rf;
        if (sscanf(hdr, "%63s %u %zu %ld %ld %ld %ld %ld", id, &tmo, &len, &lo, &hi, &step, &each, &mode) != 8) return 2;
        if (len + 1 > cap) { cap = len + 4096; src = realloc(src, cap); }
        if (fread(src, 1, len, stdin) != len) return 2;
        run_child(src, len, tmo, memfd, bst, sizeof(bst), 0, 1, 0);
        npts = sh->count; bal0 = sh->balance;
        base = slurp(memfd, &bn);
        rf = open_memstream(&rep, &rn);
        fwrite(base, 1, bn, rf);
        if (!strcmp(bst, "ok") || !strcmp(bst, "exc")) {
            long pass;
            if (hi < 0 || hi > npts) hi = npts;
            for (pass = 0; pass < 3 && bad < 3; pass++) {
                long a = pass < 2 ? lo : 1, z = pass < 2 ? hi : each + 1, d = pass < 2 ? step : 1;
                if (pass < 2 && !(mode & (pass + 1))) continue;
                for (k = a; k < z && bad < 3; k += d) {
                    int w;
                    if (pass == 2) run_child(src, len, tmo * 4, memfd, st, sizeof(st), 0, k, 1L << 60);
                    else run_child(src, len, tmo, memfd, st, sizeof(st), k, 1, pass ? 1L << 60 : 1);
                    runs++;
                    out = slurp(memfd, &n);
                    w = differs(bst, base, bn, st, out, n, mode, bal0);
                    if (w) {
                        fprintf(rf, "\n==BAD== injection %ld%s: %s (kind %d phase %ld, %ld/%ld)\n", k, pass == 2 ? " (every)" : pass ? " (and later)" : "", st, w, sh->phase, sh->balance, bal0);
                        fwrite(out, 1, n > 6000 ? 6000 : n, rf);
                        bad++;
                    }
                    free(out);
                    if (!strcmp(st, "hang")) { pass = 3; break; }
                }
            }
        }
        fclose(rf);
        printf("RES %s %s %ld %ld %ld %zu\n", id, bst, npts, runs, bad, rn);
        fwrite(rep, 1, rn, stdout); putchar('\n'); fflush(stdout);
        free(rep); free(base);
    }
    return 0;
}
