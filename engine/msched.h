/* Controlled scheduler, see sched.c */
#ifndef VERIF_SCHED_H
#define VERIF_SCHED_H
#include <stdint.h>
#include <stddef.h>

/* Called by a scenario: spawn threads, then run them all to completion under the explored schedule */
int sched_spawn (const char *name, void (*fn)(void *), void *arg);
void sched_run (void);
/* May be used inside threads: */
void sched_point (const char *what);            /* explicit scheduling point */
void sched_wait_until (int (*cond)(void *), void *arg, const char *what); /* block until the condition holds */
int sched_self (void);                          /* -1 outside */
void sched_check_live (const void *p, size_t n, const char *what); /* fail if memory was freed */
long sched_heap_live (void);
uint64_t sched_time (void);                     /* virtual time, us */
void sched_time_add (uint64_t us);
int sched_finished (int tid);
void sched_reset (void);                        /* start of a scenario: fresh heap, no threads */
void sched_leak_check (void);                   /* at the end: every heap block was freed */
extern int sched_step_limit;
extern int sched_fail_on_livelock;
extern int sched_timeout_dev;                   /* explore early timeouts of timed waits as deviations */
extern int sched_trylock_dev;                   /* unused */
#endif
