/* Stateless exhaustive explorer of choice trees. See mc.c */
#ifndef VERIF_MC_H
#define VERIF_MC_H
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

struct mc_scenario {
	const char *name;
	void (*fn)(void);          /* one complete execution */
	int dev_quick;             /* bound on deviations (mc_dev choices != 0), -1 = unbounded */
	int dev_thorough;
	int flags;
	void (*setup)(void);       /* once per worker process */
};
#define MC_LEAKCHECK 1             /* live malloc blocks after == before */
#define MC_THOROUGH_ONLY 2
#define MC_ONE_WORKER 4

int mc_main (int argc, char **argv, const char *property, const struct mc_scenario *s, int n);

/* Choice points. Values are explored exhaustively: 0..n-1 */
int mc_choose (int n, const char *label);
/* Value 0 is the default, other values cost one deviation */
int mc_dev (int n, const char *label);
/* Deviation with weight n==2 shorthand */
#define mc_flip(label) mc_dev(2, label)
#define mc_bool(label) mc_choose(2, label)

void mc_fail (const char *fmt, ...) __attribute__((noreturn, format(printf,1,2)));
/* Violation which may be a listed known finding, identified by key */
void mc_fail_key (const char *key, const char *fmt, ...) __attribute__((noreturn, format(printf,2,3)));
/* Internal error of the harness, not a violation */
void mc_error (const char *fmt, ...) __attribute__((noreturn, format(printf,1,2)));
#define mc_check(c, ...) do { if (!(c)) mc_fail(__VA_ARGS__); } while (0)
#define mc_assert(c) do { if (!(c)) mc_fail("%s:%d: %s", __FILE__, __LINE__, #c); } while (0)
/* Abandon this execution silently (pruned) */
void mc_prune (void) __attribute__((noreturn));

/* Record a state hash, returns 1 if it has been seen before in this scenario */
int mc_state (uint64_t h);
/* Mix into the outcome hash of this execution */
void mc_obs (uint64_t v);
void mc_obs_mem (const void *p, size_t n);
uint64_t mc_hash (const void *p, size_t n, uint64_t seed);
/* Count a model step compared to the implementation */
void mc_step (void);
/* Narrative, only active when a sample or a replay is recorded */
void mc_log (const char *fmt, ...) __attribute__((format(printf,1,2)));
int mc_logging (void);

int mc_tier (void);                /* 0 quick, 1 thorough */
uint64_t mc_exec_no (void);
int mc_worker (void);
const char *mc_scratch (void);     /* private scratch directory of this worker (created) */
long mc_live_allocs (void);
int mc_aborting (void);
void mc_set_leak_baseline (void);
/* Called by the engine after each execution whatever its outcome (also failures with known key) */
extern void (*mc_after_execution)(void);
/* True in a child which is replaying */
int mc_replaying (void);
static inline int mc_pick (const int *v, int n, const char *label) { return v[mc_choose(n, label)]; }
#endif
