/* Controlled-scheduler runtime: public interface used by harnesses. */
#ifndef MC_RT_H
#define MC_RT_H
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif

#define MC_MAX_THREADS 8

/* Register a controlled thread during setup; it starts running at mc_explore(). */
int  mc_spawn(void (*fn)(void *), void *arg);
/* Called inside a thread body spawned with mc_spawn: end of (deterministic) preparation. */
void mc_barrier(void);
/* Current logical time (strictly increasing). */
uint64_t mc_now(void);
int  mc_self(void);
/* Report a property violation and end this execution. */
void mc_fail(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
/* Suspend/resume scheduling decisions (used around harness-only sections). */
void mc_quiet(int on);
/* Extra nondeterministic choice in [0, n). Default 0. Costs one deviation. */
int  mc_choose(int n);
/* harness-level log, shown in replay */
void mc_log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
/* mark whether this run is a replay (verbose) */
extern int mc_verbose;

typedef struct {
    int      preempt_bound;   /* max. preemptions per schedule                  */
    int      free_bound;      /* max. non-default picks at blocking points      */
    int      total_bound;     /* max. deviations overall                        */
    int      workers;         /* parallel workers                               */
    uint64_t max_execs;       /* safety cap: exceeding it => not exhaustive     */
    uint64_t max_steps;       /* scheduling points per execution => livelock    */
    int      time_limit;      /* seconds, 0 = none                              */
    int      main_is_thread;  /* run main_fn as thread 0                        */
} MC_OPTS;

typedef struct {
    uint64_t execs, steps, points, distinct, rounds, max_points, conflicts;
    int      exhaustive;
    int      violation;
    char     msg[1024];
    char     schedule[1024];
} MC_STATS;

/* Explore all schedules.  `finish` runs in every execution after all threads ended. */
int mc_explore(const MC_OPTS *opts, void (*finish)(void), MC_STATS *stats);
/* Re-run one schedule in this process (prints log). */
int mc_replay(const MC_OPTS *opts, const char *schedule, void (*finish)(void));
/* One-time initialisation, before anything is allocated. */
void mc_init(void);

#ifdef __cplusplus
}
#endif
#endif
