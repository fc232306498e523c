/* Batch driver (engine B): one interpreter instance is initialised, then every program is run in a forked child.
 * argv: <module path> <preload source|-> ; requests on stdin: "<id> <timeout> <len>\n<source>"; answers on stdout:
 * "RES <id> <ok|exc|err|crash:N|hang> <len>\n<output>\n".  Uncaught exceptions are appended to the output. */
#define _GNU_SOURCE
#include "inc/kos_instance.h"
#include "inc/kos_error.h"
#include "inc/kos_entity.h"
#include "inc/kos_module.h"
#include "inc/kos_modules_init.h"
#include "inc/kos_utils.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <locale.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#ifdef BATCH_HOOKS
void batch_child_hook(KOS_CONTEXT ctx);
#endif

int main(int argc, char **argv)
{
    static KOS_INSTANCE inst;
    KOS_CONTEXT ctx;
    char hdr[256], *src = NULL; size_t cap = 0;
    const char *empty[] = { "" };
    int memfd, argi, destroy = getenv("BATCH_DESTROY") != NULL;
    setlocale(LC_ALL, "");          /* as the interpreter does */
    if (argc < 2) return 2;
    if (KOS_instance_init(&inst, 0, &ctx)) return 2;
    for (argi = 1; argi < argc && argv[argi][0] != '-'; argi++)
        if (KOS_instance_add_path(ctx, argv[argi])) return 2;
    if (KOS_instance_set_args(ctx, 1, empty)) return 2;
    if (KOS_modules_init(ctx)) return 2;
    {
        const char *pre = getenv("BATCH_PRELOAD");
        KOS_OBJ_ID m = KOS_BADPTR;
        if (!pre) pre = "import io\n";
        if (IS_BAD_PTR(KOS_repl(ctx, "preload", KOS_IMPORT_BASE, &m, pre, (unsigned)strlen(pre)))) {
            KOS_print_exception(ctx, KOS_STDERR);
            return 2;
        }
    }
    memfd = memfd_create("out", 0);
    if (memfd < 0) return 2;
    while (fgets(hdr, sizeof(hdr), stdin)) {
        char id[64]; unsigned tmo; size_t len; pid_t pid; int st; off_t n; char status[32];
        if (sscanf(hdr, "%63s %u %zu", id, &tmo, &len) != 3) return 2;
        if (len + 1 > cap) { cap = len + 4096; src = realloc(src, cap); }
        if (fread(src, 1, len, stdin) != len) return 2;
        if (ftruncate(memfd, 0)) return 2;
        lseek(memfd, 0, SEEK_SET);
        fflush(stdout);
        pid = fork();
        if (pid < 0) return 2;
        if (!pid) {
            KOS_OBJ_ID m = KOS_BADPTR, r;
            int null;
            struct rlimit rl = { 0, 0 };
            setrlimit(RLIMIT_CORE, &rl);
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            alarm(tmo);
            dup2(memfd, 1); dup2(memfd, 2);
            null = fileno(stdin); close(null);
#ifdef BATCH_HOOKS
            batch_child_hook(ctx);
#endif
            r = KOS_repl(ctx, "t", KOS_IMPORT_BASE, &m, src, (unsigned)len);
            fflush(stdout);
            if (IS_BAD_PTR(r)) {
                printf("\nEXC:"); fflush(stdout);
                KOS_print_exception(ctx, KOS_STDOUT);
                fflush(stdout);
                if (destroy) KOS_instance_destroy(&inst);
                _exit(10);
            }
            if (destroy) KOS_instance_destroy(&inst);
            _exit(0);
        }
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
        if (WIFEXITED(st)) {
            if (WEXITSTATUS(st) == 0) strcpy(status, "ok");
            else if (WEXITSTATUS(st) == 10) strcpy(status, "exc");
            else snprintf(status, sizeof(status), "crash:exit%d", WEXITSTATUS(st));
        }
        else if (WTERMSIG(st) == SIGALRM) strcpy(status, "hang");
        else snprintf(status, sizeof(status), "crash:sig%d", WTERMSIG(st));
        n = lseek(memfd, 0, SEEK_END);
        {
            char *b = malloc((size_t)n + 1);
            if (pread(memfd, b, (size_t)n, 0) != n) return 2;
            printf("RES %s %s %zu\n", id, status, (size_t)n);
            fwrite(b, 1, (size_t)n, stdout);
            putchar('\n');
            fflush(stdout);
            free(b);
        }
    }
    return 0;
}
