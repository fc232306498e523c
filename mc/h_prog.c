/* Harness for C04, C05, C06, L05: a Kos program under the controlled scheduler.
 *
 * Each input line names a program file.  The module is loaded and run (one schedule), then its function `main` is
 * called and the instance destroyed under every schedule.  Lines "#= text" of the program list the allowed results
 * of main (a string, or EXC:message); "#: threads N" lowers the limit of threads.
 */
#include "mc_rt.h"
#include "inc/kos_error.h"
#include "inc/kos_instance.h"
#include "inc/kos_memory.h"
#include "inc/kos_module.h"
#include "inc/kos_modules_init.h"
#include "inc/kos_string.h"
#include "inc/kos_utils.h"
#include "inc/kos_object.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>
#include <time.h>

static KOS_INSTANCE inst;
static char         path[512];
static char         allowed[64][200];
static int          nallowed;
static const char  *moddir;
static int          finished, max_threads;

KOS_DECLARE_STATIC_CONST_STRING(str_main, "main");
KOS_DECLARE_STATIC_CONST_STRING(str_value, "value");

static void die(KOS_CONTEXT ctx, const char *what)
{
    fprintf(stderr, "%s: %s\n", path, what);
    if (ctx && KOS_is_exception_pending(ctx)) KOS_print_exception(ctx, KOS_STDERR);
    _exit(2);
}

static void body(void *arg)
{
    KOS_CONTEXT ctx;
    KOS_LOCAL   module;
    KOS_OBJ_ID  r;
    KOS_VECTOR  v;
    char        text[256];
    int         i;
    const char *empty[] = { "" };
    (void)arg;
    if (KOS_instance_init(&inst, 0, &ctx)) die(0, "init");
    if (KOS_instance_add_path(ctx, moddir) || KOS_instance_set_args(ctx, 1, empty) || KOS_modules_init(ctx)) die(ctx, "modules");
    KOS_init_local(ctx, &module);
    module.o = KOS_load_module(ctx, path, (unsigned)strlen(path));
    if (IS_BAD_PTR(module.o)) die(ctx, "load");
    if (IS_BAD_PTR(KOS_run_module(ctx, module.o))) die(ctx, "run");
    if (max_threads) inst.threads.max_threads = (uint32_t)max_threads;
    mc_barrier();
    r = KOS_module_run_function(ctx, module.o, KOS_CONST_ID(str_main), KOS_FUNC_REQUIRED);
    mc_quiet(1);
    KOS_vector_init(&v);
    text[0] = 0;
    if (IS_BAD_PTR(r)) {
        KOS_OBJ_ID exc = KOS_get_exception(ctx);
        KOS_clear_exception(ctx);
        r = KOS_get_property(ctx, exc, KOS_CONST_ID(str_value));
        if (IS_BAD_PTR(r)) { KOS_clear_exception(ctx); r = KOS_CONST_ID(str_main); }
        strcpy(text, "EXC:");
    }
    if (GET_OBJ_TYPE(r) != OBJ_STRING || KOS_string_to_cstr_vec(ctx, r, &v)) mc_fail("result of main has no text");
    snprintf(text + strlen(text), sizeof(text) - strlen(text), "%s", v.size ? v.buffer : "");
    mc_log("result: %s", text);
    for (i = 0; i < nallowed; i++) if (!strcmp(allowed[i], text)) break;
    if (i == nallowed) mc_fail("%s: result '%s' is not allowed", path, text);
    KOS_vector_destroy(&v);
    mc_quiet(0);
    KOS_instance_destroy(&inst);
    finished = 1;
}

static void finish(void)
{
    if (!finished) mc_fail("%s: main did not finish", path);
}

static void read_allowed(void)
{
    FILE *f = fopen(path, "r"); char line[256];
    if (!f) { fprintf(stderr, "no %s\n", path); _exit(2); }
    nallowed = 0;
    while (fgets(line, sizeof(line), f)) {
        line[strcspn(line, "\r\n")] = 0;
        if (!strncmp(line, "#= ", 3) && nallowed < 64) snprintf(allowed[nallowed++], 200, "%s", line + 3);
        if (!strncmp(line, "#: threads ", 11)) max_threads = atoi(line + 11);
    }
    fclose(f);
}

int main(int argc, char **argv)
{
    MC_OPTS o; char line[512]; FILE *f; int replay = 0, bad = 0;
    mc_init();
    memset(&o, 0, sizeof(o));
    o.preempt_bound = 2; o.free_bound = 2; o.workers = 1; o.max_steps = 2000000;
    if (argc < 2) return 2;
    if (argc > 2) o.preempt_bound = atoi(argv[2]);
    if (argc > 3) o.workers = atoi(argv[3]);
    if (argc > 4) replay = atoi(argv[4]);
    if (argc > 5) o.time_limit = atoi(argv[5]);
    if (argc > 6) o.free_bound = atoi(argv[6]);
    moddir = argc > 7 ? argv[7] : "/repo/modules";
    if (argc > 8) o.total_bound = atoi(argv[8]);
    f = strcmp(argv[1], "-") ? fopen(argv[1], "r") : stdin;
    if (!f) return 2;
    setvbuf(stdout, NULL, _IOLBF, 0);
    while (fgets(line, sizeof(line), f)) {
        pid_t pid; int st;
        line[strcspn(line, "\r\n")] = 0;
        if (!line[0]) continue;
        fflush(stdout);
        pid = fork();
        if (!pid) {
            MC_STATS s;
            strcpy(path, line);
            read_allowed();
            mc_spawn(body, NULL);
            if (replay) { int r = mc_replay(&o, "", finish); fflush(stdout); _exit(r); }
            mc_explore(&o, finish, &s);
            printf("%s %s execs=%llu steps=%llu distinct=%llu maxpts=%llu rounds=%llu exhaustive=%d", s.violation ? "BAD" : "OK", line,
                   (unsigned long long)s.execs, (unsigned long long)s.steps, (unsigned long long)s.distinct,
                   (unsigned long long)s.max_points, (unsigned long long)s.rounds, s.exhaustive);
            if (s.violation) printf(" schedule=%s msg=%s", s.schedule, s.msg);
            printf("\n");
            fflush(stdout);
            _exit(s.violation ? 1 : 0);
        }
        waitpid(pid, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st) > 1) { printf("ERR %s status=%x\n", line, st); bad = 2; }
        else if (WEXITSTATUS(st) == 1 && bad < 2) bad = 1;
    }
    return bad;
}
