/* Stateless exhaustive explorer.
 *
 * A scenario is a deterministic function of the values returned by mc_choose() and mc_dev().
 * The explorer enumerates the complete tree of those values depth first, in several forked worker
 * processes which share work by donating untried alternatives through a job queue in shared memory.
 * Choices made by mc_dev() have default value 0, and at most `dev` of them may differ from the
 * default in one execution (deviation/preemption/fault bound).
 *
 * A failure (mc_fail, abort, sanitizer report, hang) ends the worker; the parent takes the choices
 * from shared memory, replays them twice in fresh processes and, when the failure repeats, writes a
 * replay file and reports. */
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "mc.h"
#include <stdarg.h>
#include <stdatomic.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <fcntl.h>
#include <setjmp.h>
#include <time.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sched.h>
#include <sys/prctl.h>

#define MAXCH 3072
#define MAXW 64
#define NJOBS 512
#define HSIZE (1u<<22)
#define TEXT 8192

struct wslot {
	volatile int pid;
	volatile int status;         /* 0 running 1 failed 2 error 3 done */
	volatile int n;
	int base;                    /* not advanced below */
	uint16_t v[MAXCH];
	uint16_t c[MAXCH];
	uint8_t dev[MAXCH];
	const char *label[MAXCH];
	volatile uint64_t execs, trans, steps, pruned, known, maxlen, nodes;
	volatile uint64_t beat;
	char key[256];
	char text[TEXT];
};

struct job { int len; uint16_t v[MAXCH]; };

struct shared {
	atomic_int lock;
	atomic_int idle;
	atomic_int stop;
	atomic_int nworkers;
	int head, count;
	atomic_ullong nstates, noutcomes, seen_over;
	struct job jobs[NJOBS];
	struct wslot w[MAXW];
	char logbuf[1<<16];
	volatile int loglen;
	int nknown;
	char known[64][256];
	atomic_ullong knownhits[64];
	_Atomic uint64_t states[HSIZE] __attribute__((aligned(4096)));
	_Atomic uint64_t outcomes[HSIZE] __attribute__((aligned(4096)));
};

static struct shared *sh;
static struct wslot *me;
static int me_idx;
static int tier;
static int devbound;
static int devused;
static uint64_t obs;
static int logging;
static int replaying;
static jmp_buf jb;
static int jb_set;
static int expect_n;         /* number of positions with previously recorded c[] */
static const char *prop = "C00";
static char scratchdir[256];
static long live;
void (*mc_after_execution)(void);

/* Real functions, also when the vnet or sched layers interpose */
static double now_s (void) {
	struct timespec ts;
	syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
	return (double) ts.tv_sec + (double) ts.tv_nsec / 1e9;
}
static void real_usleep (long us) {
	struct timespec ts = { us / 1000000, (us % 1000000) * 1000 };
	syscall(SYS_nanosleep, &ts, NULL);
}

static void lock (void) {
	int z = 0; int spins = 0;
	while (!atomic_compare_exchange_weak(&sh->lock, &z, 1)) { z = 0; if (++spins > 100) real_usleep(50); }
}
static void unlock (void) { atomic_store(&sh->lock, 0); }

extern int __sanitizer_install_malloc_and_free_hooks (void (*)(const volatile void *, size_t), void (*)(const volatile void *)) __attribute__((weak));
static void hook_m (const volatile void *p, size_t n) { (void)(p); (void)(n); live++; }
static void hook_f (const volatile void *p) { if (p) live--; }
long mc_live_allocs (void) { return live; }
static long live_base;
void mc_set_leak_baseline (void) { live_base = live; }

uint64_t mc_hash (const void *p_, size_t n, uint64_t h) {
	const unsigned char *p = p_;
	h ^= 0xcbf29ce484222325ULL;
	for (size_t i = 0; i < n; i++) { h ^= p[i]; h *= 0x100000001b3ULL; }
	h ^= h >> 32; h *= 0x9E3779B97F4A7C15ULL; h ^= h >> 29;
	return h;
}

static int set_insert (_Atomic uint64_t *t, atomic_ullong *count, uint64_t h) {
	if (h == 0) h = 1;
	uint64_t i = (h * 0x9E3779B97F4A7C15ULL) >> 42;
	for (int k = 0; k < 4096; k++) {
		uint64_t cur = atomic_load_explicit(&t[(i + (uint64_t) k) & (HSIZE-1)], memory_order_relaxed);
		if (cur == h) return 1;
		if (cur == 0) {
			uint64_t z = 0;
			if (atomic_compare_exchange_strong(&t[(i + (uint64_t) k) & (HSIZE-1)], &z, h)) { atomic_fetch_add(count, 1); return 0; }
			if (z == h) return 1;
		}
	}
	atomic_fetch_add(&sh->seen_over, 1);
	return 0;
}
int mc_state (uint64_t h) { return set_insert(sh->states, &sh->nstates, h); }
void mc_obs (uint64_t v) { obs = mc_hash(&v, sizeof(v), obs); }
void mc_obs_mem (const void *p, size_t n) { obs = mc_hash(p, n, obs); }
void mc_step (void) { me->steps++; }
int mc_tier (void) { return tier; }
uint64_t mc_exec_no (void) { return me->execs; }
int mc_worker (void) { return me_idx; }
int mc_logging (void) { return logging; }
int mc_replaying (void) { return replaying; }
static int aborting; int mc_aborting (void) { return aborting; }

void mc_log (const char *fmt, ...) {
	if (!logging) return;
	va_list ap; va_start(ap, fmt);
	int room = (int) sizeof(sh->logbuf) - sh->loglen - 2;
	if (room > 0) {
		int r = vsnprintf(sh->logbuf + sh->loglen, (size_t) room, fmt, ap);
		if (r > room) r = room;
		if (r > 0) sh->loglen += r;
		sh->logbuf[sh->loglen++] = '\n'; sh->logbuf[sh->loglen] = 0;
	}
	va_end(ap);
}

static int choose (int n, int isdev, const char *label) {
	if (n < 1) mc_error("mc_choose n=%d at %s", n, label);
	if (n > 65535) mc_error("mc_choose n=%d too big at %s", n, label);
	if (isdev && devbound >= 0 && devused >= devbound) n = 1;
	if (n == 1) return 0;
	int i = me->n;
	if (i >= MAXCH) { char b[1200]; int l = 0; b[0] = 0; for (int k = 0; k < 30; k++) l += snprintf(b + l, sizeof(b) - (size_t) l, " %s=%d/%d", me->label[i-30+k], me->v[i-30+k], me->c[i-30+k]); mc_error("too many choices; last:%s", b); }
	if (i < expect_n) {
		if (me->c[i] != 0 && me->c[i] != n) mc_error("nondeterministic harness: choice %d (%s) has %d alternatives, had %d", i, label, n, me->c[i]);
		if (me->v[i] >= n) mc_error("nondeterministic harness: choice %d (%s) value %d of %d", i, label, me->v[i], n);
	}
	else me->v[i] = 0;
	me->c[i] = (uint16_t) n; me->dev[i] = (uint8_t) isdev; me->label[i] = label;
	me->n = i + 1;
	me->trans++;
	int v = me->v[i];
	if (isdev && v) devused++;
	if (logging && label[0] != '.') mc_log("  [%s=%d/%d%s]", label, v, n, isdev && v ? " DEV" : "");
	return v;
}
int mc_choose (int n, const char *label) { return choose(n, 0, label); }
int mc_dev (int n, const char *label) { return choose(n, 1, label); }

static void die (int st, const char *key, const char *fmt, va_list ap) {
	vsnprintf(me->text, TEXT, fmt, ap);
	snprintf(me->key, sizeof(me->key), "%s", key ? key : "");
	if (st == 1 && key) {
		for (int i = 0; i < sh->nknown; i++) if (!strcmp(sh->known[i], key)) {
			atomic_fetch_add(&sh->knownhits[i], 1);
			me->known++;
			if (jb_set) { mc_log("KNOWN FINDING %s: %s", key, me->text); longjmp(jb, 2); }
		}
	}
	me->status = st;
	mc_log("%s: %s", st == 1 ? "FAIL" : "ERROR", me->text);
	_exit(st == 1 ? 77 : 78);
}
void mc_fail (const char *fmt, ...) { va_list ap; va_start(ap, fmt); die(1, NULL, fmt, ap); abort(); }
void mc_fail_key (const char *key, const char *fmt, ...) { va_list ap; va_start(ap, fmt); die(1, key, fmt, ap); abort(); }
void mc_error (const char *fmt, ...) { va_list ap; va_start(ap, fmt); die(2, NULL, fmt, ap); abort(); }
void mc_prune (void) { me->pruned++; longjmp(jb, 1); }

const char *mc_scratch (void) {
	if (!scratchdir[0]) {
		snprintf(scratchdir, sizeof(scratchdir), "/tmp/mc.%d.XXXXXX", getpid());
		if (!mkdtemp(scratchdir)) mc_error("mkdtemp");
	}
	return scratchdir;
}
static void rmtree (const char *d) {
	if (strncmp(d, "/tmp/mc.", 8)) return;
	DIR *dir = opendir(d); struct dirent *e; char p[1024];
	if (dir) {
		while ((e = readdir(dir))) {
			if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
			snprintf(p, sizeof(p), "%s/%s", d, e->d_name);
			struct stat st;
			if (lstat(p, &st) == 0 && S_ISDIR(st.st_mode)) rmtree(p); else unlink(p);
		}
		closedir(dir);
	}
	rmdir(d);
}
static void scratch_clean (void) { if (scratchdir[0]) { rmtree(scratchdir); scratchdir[0] = 0; } }

static int execute (const struct mc_scenario *s) {
	me->n = 0; devused = 0; obs = 0x1234;
	live_base = live;
	jb_set = 1;
	int r = setjmp(jb);
	if (r == 0) {
		s->fn();
		if ((s->flags & MC_LEAKCHECK) && live != live_base && me->execs > 0)
			mc_fail("memory leak: %ld allocations more after than before", live - live_base);
		if (expect_n > me->n) mc_error("nondeterministic harness: %d choices, expected at least %d", me->n, expect_n);
	}
	jb_set = 0;
	if (mc_after_execution) { aborting = r; mc_after_execution(); aborting = 0; }
	me->execs++;
	me->nodes += (uint64_t) (me->n - expect_n + 1);
	me->beat++;
	if ((uint64_t) me->n > me->maxlen) me->maxlen = (uint64_t) me->n;
	if (r == 0) {
		set_insert(sh->outcomes, &sh->noutcomes, obs);
	}
	return r;
}

static int alt_allowed (int i) {
	if (me->v[i] + 1 >= me->c[i]) return 0;
	if (me->dev[i] && devbound >= 0) {
		int d = 0;
		for (int k = 0; k < i; k++) if (me->dev[k] && me->v[k]) d++;
		if (d + 1 > devbound) return 0;
	}
	return 1;
}

static void donate (void) {
	/* called with a complete execution in me; gives away the shallowest untried alternatives */
	for (int i = me->base; i < me->n; i++) {
		if (!alt_allowed(i)) continue;
		lock();
		int ok = 0;
		if (sh->count < NJOBS) {
			struct job *j = &sh->jobs[(sh->head + sh->count) % NJOBS];
			j->len = i + 1;
			memcpy(j->v, me->v, sizeof(uint16_t) * (size_t) (i + 1));
			j->v[i]++;
			sh->count++;
			ok = 1;
		}
		unlock();
		if (ok) { me->base = i + 1; }
		return;
	}
}

static int get_job (struct job *out) {
	int is_idle = 0;
	for (;;) {
		if (atomic_load(&sh->stop)) return 0;
		lock();
		if (sh->count > 0) {
			struct job *j = &sh->jobs[sh->head];
			out->len = j->len;
			memcpy(out->v, j->v, sizeof(uint16_t) * (size_t) j->len);
			sh->head = (sh->head + 1) % NJOBS;
			sh->count--;
			if (is_idle) atomic_fetch_sub(&sh->idle, 1);
			unlock();
			return 1;
		}
		if (!is_idle) { is_idle = 1; atomic_fetch_add(&sh->idle, 1); }
		int done = atomic_load(&sh->idle) >= atomic_load(&sh->nworkers);
		unlock();
		if (done) return 0;
		me->beat++;
		real_usleep(200);
	}
}

static void worker (const struct mc_scenario *s) {
	static struct job j;
	if (&__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(hook_m, hook_f);
	if (s->setup) s->setup();
	/* One warm-up execution (first path) so that lazily created statics do not look like leaks */
	if (s->flags & MC_LEAKCHECK) { expect_n = 0; execute(s); me->execs = 1; me->nodes = 0; me->trans = 0; me->steps = 0; me->pruned = 0; }
	while (get_job(&j)) {
		memcpy(me->v, j.v, sizeof(uint16_t) * (size_t) j.len);
		memset(me->c, 0, sizeof(uint16_t) * (size_t) j.len);
		expect_n = j.len;
		/* The last position of a job may advance, earlier ones may not */
		me->base = j.len > 0 ? j.len - 1 : 0;
		for (;;) {
			execute(s);
			if (atomic_load(&sh->stop)) break;
			if (atomic_load_explicit(&sh->idle, memory_order_relaxed) > 0 && sh->count < 64) donate();
			int i = me->n - 1;
			while (i >= me->base && !alt_allowed(i)) i--;
			if (i < me->base) break;
			me->v[i]++;
			expect_n = i + 1;
		}
	}
	if (s->flags & MC_LEAKCHECK) me->execs--;
	scratch_clean();
	me->status = 3;
	_exit(0);
}

static void json_str (FILE *f, const char *s) {
	fputc('"', f);
	for (; *s; s++) {
		unsigned char c = (unsigned char) *s;
		if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); }
		else if (c == '\n') fputs("\\n", f);
		else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
		else fputc(c, f);
	}
	fputc('"', f);
}

static void stderr_to (const char *path) {
	int fd = open(path, O_WRONLY|O_CREAT|O_TRUNC, 0644);
	if (fd >= 0) { dup2(fd, 2); close(fd); }
}
static size_t slurp (const char *path, char *buf, size_t max) {
	int fd = open(path, O_RDONLY); if (fd < 0) { buf[0] = 0; return 0; }
	ssize_t r = read(fd, buf, max - 1); if (r < 0) r = 0; buf[r] = 0; close(fd); return (size_t) r;
}

extern int sched_rerun (void) __attribute__((weak));
extern void sched_aux_write (FILE *f) __attribute__((weak));
extern void sched_aux_read (const char *line) __attribute__((weak));
extern int sched_racy_count (void) __attribute__((weak));
extern void sched_reset (void) __attribute__((weak));
static double hang_s = 60;

/* Runs one given choice list in a fresh process; returns 0 ok, 1 violation, 2 error, 3 hang */
static int run_fixed (const struct mc_scenario *s, const uint16_t *v, int n, int slot, const char *errfile, int with_log) {
	struct wslot *w = &sh->w[slot];
	memset(w, 0, sizeof(*w));
	memcpy(w->v, v, sizeof(uint16_t) * (size_t) n);
	pid_t pid = fork();
	if (pid == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		me = w; me_idx = slot; replaying = 1;
		stderr_to(errfile);
		if (&__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(hook_m, hook_f);
		if (s->setup) s->setup();
		if (s->flags & MC_LEAKCHECK) {
			uint16_t *keep = malloc(sizeof(uint16_t) * (size_t) (n + 1)); memcpy(keep, v, sizeof(uint16_t) * (size_t) n);
			logging = with_log; sh->loglen = 0; sh->logbuf[0] = 0; /* a failure here is the one of the run below */
			expect_n = 0; execute(s);
			memcpy(me->v, keep, sizeof(uint16_t) * (size_t) n); memset(me->c, 0, sizeof(me->c));
		}
		logging = with_log; sh->loglen = 0; sh->logbuf[0] = 0;
		expect_n = n;
		execute(s);
		scratch_clean();
		me->status = 3;
		_exit(0);
	}
	double t0 = now_s(); int st;
	for (;;) {
		pid_t r = waitpid(pid, &st, WNOHANG);
		if (r == pid) break;
		if (now_s() - t0 > hang_s) { kill(pid, SIGKILL); waitpid(pid, &st, 0); snprintf(w->text, TEXT, "hang: no progress for %.0f s", hang_s); return 3; }
		real_usleep(500);
	}
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
	if (w->status == 2) return 2;
	if (w->status != 1) {
		char buf[TEXT]; slurp(errfile, buf, sizeof(buf));
		snprintf(w->text, TEXT, "crash (%s %d): %.4000s", WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), buf);
	}
	return 1;
}

static void clean_dead_scratch (int pid) {
	/* worker died without cleaning */
	DIR *d = opendir("/tmp"); struct dirent *e; char pre[64], p[512];
	snprintf(pre, sizeof(pre), "mc.%d.", pid);
	if (!d) return;
	while ((e = readdir(d))) if (!strncmp(e->d_name, pre, strlen(pre))) { snprintf(p, sizeof(p), "/tmp/%s", e->d_name); rmtree(p); }
	closedir(d);
}

static const char *arg_str (int argc, char **argv, const char *name, const char *def) {
	for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], name)) return argv[i+1];
	return def;
}

int mc_main (int argc, char **argv, const char *property, const struct mc_scenario *sc, int nsc) {
	prop = arg_str(argc, argv, "--property", property);
	tier = !strcmp(arg_str(argc, argv, "--tier", "quick"), "thorough");
	int jobs = atoi(arg_str(argc, argv, "--jobs", "0"));
	double budget = atof(arg_str(argc, argv, "--budget", tier ? "3000" : "300"));
	hang_s = atof(arg_str(argc, argv, "--hang", "60"));
	const char *out = arg_str(argc, argv, "--out", NULL);
	const char *only = arg_str(argc, argv, "--scenario", NULL);
	const char *replay = arg_str(argc, argv, "--replay", NULL);
	const char *rdir = arg_str(argc, argv, "--replay-dir", "/tmp");
	const char *knownf = arg_str(argc, argv, "--known", NULL);
	const char *devs = arg_str(argc, argv, "--dev", NULL);
	int trust = atoi(arg_str(argc, argv, "--trust", "0"));
	char errfile[512];
	if (jobs <= 0) { jobs = (int) sysconf(_SC_NPROCESSORS_ONLN); if (jobs < 2) jobs = 2; if (jobs > 16) jobs = 16; }
	if (jobs > MAXW - 2) jobs = MAXW - 2;
	signal(SIGPIPE, SIG_IGN);

	sh = mmap(NULL, sizeof(*sh), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	if (sh == MAP_FAILED) { perror("mmap"); return 2; }
	if (knownf) {
		FILE *f = fopen(knownf, "r"); char line[256];
		if (f) { while (fgets(line, sizeof(line), f) && sh->nknown < 64) { line[strcspn(line, "\n")] = 0; if (line[0]) snprintf(sh->known[sh->nknown++], 256, "%s", line); } fclose(f); }
	}

	if (replay) {
		static uint16_t v[MAXCH]; int n = 0; char name[256] = ""; char line[65536];
		FILE *f = fopen(replay, "r"); if (!f) { perror(replay); return 2; }
		while (fgets(line, sizeof(line), f)) {
			if (sscanf(line, "scenario %255s", name) == 1) continue;
			if (sscanf(line, "dev %d", &devbound) == 1) continue;
			if (sscanf(line, "tier %d", &tier) == 1) continue;
			if (sched_aux_read) sched_aux_read(line);
			if (!strncmp(line, "choices", 7)) { char *p = line + 7, *e; for (;;) { long x = strtol(p, &e, 10); if (e == p) break; v[n++] = (uint16_t) x; p = e; } }
		}
		fclose(f);
		for (int i = 0; i < nsc; i++) if (!strcmp(sc[i].name, name)) {
			snprintf(errfile, sizeof(errfile), "/tmp/mcerr.%d", getpid());
			int r = run_fixed(&sc[i], v, n, 0, errfile, 1);
			printf("%s\n%s\nresult %d: %s\n", sh->logbuf, "----", r, sh->w[0].text);
			unlink(errfile);
			return r ? 1 : 0;
		}
		fprintf(stderr, "no scenario %s\n", name); return 2;
	}

	FILE *jo = out ? fopen(out, "w") : NULL;
	if (jo) fprintf(jo, "{\"property\":\"%s\",\"scenarios\":[", prop);
	int rc = 0, first = 1, nvio = 0;
	double tstart = now_s();
	for (int si = 0; si < nsc; si++) {
		const struct mc_scenario *s = &sc[si];
		if (only && strcmp(only, s->name)) continue;
		if ((s->flags & MC_THOROUGH_ONLY) && !tier && !only) continue;
		devbound = tier ? s->dev_thorough : s->dev_quick;
		if (devs) devbound = atoi(devs);
		int nw = (s->flags & MC_ONE_WORKER) ? 1 : jobs;
		double t0 = now_s(); int passes = 0;
		if (sched_reset) sched_reset();
again:
		passes++;
		atomic_store(&sh->lock, 0); atomic_store(&sh->idle, 0); atomic_store(&sh->stop, 0); atomic_store(&sh->nworkers, nw);
		sh->head = 0; sh->count = 1; sh->jobs[0].len = 0;
		atomic_store(&sh->nstates, 0); atomic_store(&sh->noutcomes, 0); atomic_store(&sh->seen_over, 0);
		/* give the pages back instead of writing zeroes all over */
		if (madvise((void *) sh->states, sizeof(sh->states), MADV_REMOVE)) memset((void *) sh->states, 0, sizeof(sh->states));
		if (madvise((void *) sh->outcomes, sizeof(sh->outcomes), MADV_REMOVE)) memset((void *) sh->outcomes, 0, sizeof(sh->outcomes));
		memset(sh->w, 0, sizeof(sh->w));
		int alive = 0, failed = -1, errored = -1, timed_out = 0, hang = 0;
		char ef[MAXW][64];
		fflush(NULL);
		for (int w = 0; w < nw; w++) {
			snprintf(ef[w], sizeof(ef[w]), "/tmp/mcerr.%d.%d", getpid(), w);
			pid_t pid = fork();
			if (pid == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); me = &sh->w[w]; me_idx = w; stderr_to(ef[w]); worker(s); }
			sh->w[w].pid = pid; alive++;
		}
		uint64_t lastbeat[MAXW] = {0}; double lastt[MAXW]; int reaped[MAXW] = {0}; int stv[MAXW] = {0};
		for (int w = 0; w < nw; w++) lastt[w] = t0;
		while (alive > 0) {
			int progress = 0;
			for (int w = 0; w < nw; w++) {
				if (reaped[w]) continue;
				int st;
				pid_t r = waitpid(sh->w[w].pid, &st, WNOHANG);
				if (r == sh->w[w].pid) {
					reaped[w] = 1; alive--; stv[w] = st; progress = 1;
					if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && !hang) {
						if (sh->w[w].status == 2) { if (errored < 0) errored = w; }
						else if (failed < 0 && !(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)) failed = w;
						else if (failed < 0 && errored < 0) { errored = w; snprintf(sh->w[w].text, TEXT, "worker killed"); }
						atomic_store(&sh->stop, 1);
						clean_dead_scratch(sh->w[w].pid);
					}
					continue;
				}
				double t = now_s();
				if (sh->w[w].beat != lastbeat[w]) { lastbeat[w] = sh->w[w].beat; lastt[w] = t; }
				else if (t - lastt[w] > hang_s && !hang) {
					hang = 1; failed = w; atomic_store(&sh->stop, 1);
					snprintf(sh->w[w].text, TEXT, "hang: no progress for %.0f s", hang_s);
					kill(sh->w[w].pid, SIGKILL);
				}
				else if ((failed >= 0 || errored >= 0) && t - lastt[w] > 5) kill(sh->w[w].pid, SIGKILL);
			}
			if (now_s() - tstart > budget && !atomic_load(&sh->stop)) { timed_out = 1; atomic_store(&sh->stop, 1); }
			if (!progress) real_usleep(1000);
		}
		if (failed >= 0 && 0) {}
		else if (failed < 0 && errored < 0 && !timed_out && sched_rerun && sched_rerun() && passes < 8) {
			for (int w = 0; w < nw; w++) unlink(ef[w]);
			goto again;
		}
		uint64_t ex = 0, tr = 0, stp = 0, pr = 0, kn = 0, ml = 0, nd = 0;
		for (int w = 0; w < nw; w++) { struct wslot *x = &sh->w[w]; ex += x->execs; tr += x->trans; stp += x->steps; pr += x->pruned; kn += x->known; nd += x->nodes; if (x->maxlen > ml) ml = x->maxlen; }

		int verdict = 0; char vtext[TEXT] = ""; char rpath[600] = "";
		if (failed >= 0) {
			struct wslot *x = &sh->w[failed];
			static uint16_t v[MAXCH]; int n = x->n; const char *lab[MAXCH]; uint16_t cn[MAXCH]; uint8_t dv[MAXCH];
			memcpy(v, x->v, sizeof(v)); memcpy(lab, x->label, sizeof(lab)); memcpy(cn, x->c, sizeof(cn)); memcpy(dv, x->dev, sizeof(dv));
			if (x->status == 1 || hang) snprintf(vtext, sizeof(vtext), "%s", x->text);
			else { char buf[TEXT]; slurp(ef[failed], buf, sizeof(buf)); snprintf(vtext, sizeof(vtext), "crash (status %x): %.6000s", stv[failed], buf); }
			snprintf(errfile, sizeof(errfile), "/tmp/mcerr.%d.r", getpid());
			int r1 = run_fixed(s, v, n, MAXW - 1, errfile, 1);
			char log1[sizeof(sh->logbuf)]; memcpy(log1, sh->logbuf, sizeof(log1));
			clean_dead_scratch(sh->w[MAXW-1].pid);
			int r2 = run_fixed(s, v, n, MAXW - 1, errfile, 0);
			unlink(errfile);
			if ((r1 == 1 || r1 == 3) && (r2 == 1 || r2 == 3)) verdict = 1;
			else { verdict = trust ? 1 : 2; }
			snprintf(rpath, sizeof(rpath), "%s/%s-%s-%s.replay", rdir, prop, basename(argv[0]), s->name);
			FILE *f = fopen(rpath, "w");
			if (f) {
				fprintf(f, "# property %s, harness %s\n# %s\nscenario %s\ndev %d\ntier %d\nchoices", prop, argv[0], verdict == 1 ? "violation" : "not reproduced alone", s->name, devbound, tier);
				for (int i = 0; i < n; i++) fprintf(f, " %d", v[i]);
				fprintf(f, "\n"); if (sched_aux_write) sched_aux_write(f);
				fprintf(f, "# ---- what failed ----\n");
				for (char *q = strtok(vtext[0] ? strdup(vtext) : strdup("?"), "\n"); q; q = strtok(NULL, "\n")) fprintf(f, "# %s\n", q);
				fprintf(f, "# ---- choices ----\n");
				for (int i = 0; i < n; i++) fprintf(f, "# %3d %s = %d of %d%s\n", i, lab[i], v[i], cn[i], dv[i] && v[i] ? " (deviation)" : "");
				fprintf(f, "# ---- narrative of the replay ----\n");
				for (char *q = strtok(log1, "\n"); q; q = strtok(NULL, "\n")) fprintf(f, "# %s\n", q);
				fclose(f);
			}
			if (verdict == 1) {
				printf("VIOLATION property=%s replay=%s\n", prop, rpath);
				printf("  %s: %.1500s\n", s->name, vtext);
				nvio++; rc = 1;
			}
			else {
				printf("ERROR property=%s scenario=%s failure not reproduced in replay (%d %d): %.1500s\n  choices saved in %s\n", prop, s->name, r1, r2, vtext, rpath);
				if (rc == 0) rc = 2;
			}
		}
		else if (errored >= 0) {
			printf("ERROR property=%s scenario=%s %s\n", prop, s->name, sh->w[errored].text);
			char buf[TEXT]; slurp(ef[errored], buf, sizeof(buf)); printf("%.2000s\n", buf);
			if (rc == 0) rc = 2;
		}
		for (int w = 0; w < nw; w++) unlink(ef[w]);
		for (int i = 0; i < sh->nknown; i++) {
			if (atomic_load(&sh->knownhits[i])) { printf("KNOWN-FINDING: property=%s %s\n", prop, sh->known[i]); atomic_store(&sh->knownhits[i], 0); }
		}
		/* samples: the first execution and one execution with alternatives in the middle of the last worker */
		char sample[2][6000] = {"", ""};
		if (failed < 0 && errored < 0) {
			snprintf(errfile, sizeof(errfile), "/tmp/mcerr.%d.r", getpid());
			static uint16_t v[MAXCH]; int n = 0; uint64_t best = 0;
			for (int w = 0; w < nw; w++) if (sh->w[w].n > 0 && sh->w[w].execs > best) { best = sh->w[w].execs; n = sh->w[w].n; memcpy(v, sh->w[w].v, sizeof(v)); }
			run_fixed(s, v, 0, MAXW-1, errfile, 1); snprintf(sample[0], sizeof(sample[0]), "%.5900s", sh->logbuf);
			if (n) { run_fixed(s, v, n, MAXW-1, errfile, 1); snprintf(sample[1], sizeof(sample[1]), "%.5900s", sh->logbuf); }
			unlink(errfile);
		}
		double t1 = now_s(); char pbuf[100] = ""; if (sched_racy_count) snprintf(pbuf, sizeof(pbuf), ", pass %d, %d racy places", passes, sched_racy_count());
		printf("%s/%s: %llu executions, %llu tree nodes, %llu states, %llu distinct outcomes, %llu oracle steps, dev<=%d, depth %llu, %s, %.1f s%s\n",
			prop, s->name, (unsigned long long) ex, (unsigned long long) nd, (unsigned long long) atomic_load(&sh->nstates),
			(unsigned long long) atomic_load(&sh->noutcomes), (unsigned long long) stp, devbound, (unsigned long long) ml,
			timed_out ? "TIME BUDGET REACHED" : failed >= 0 || errored >= 0 ? "stopped" : "exhaustive", t1 - t0, pbuf);
		fflush(stdout);
		if (jo) {
			fprintf(jo, "%s\n{\"name\":\"%s\",\"executions\":%llu,\"decisions\":%llu,\"nodes\":%llu,\"states\":%llu,\"outcomes\":%llu,\"steps\":%llu,\"pruned\":%llu,\"known\":%llu,\"dev\":%d,\"depth\":%llu,\"exhaustive\":%s,\"wall\":%.2f,\"verdict\":%d,\"samples\":[",
				first ? "" : ",", s->name, (unsigned long long) ex, (unsigned long long) tr, (unsigned long long) nd, (unsigned long long) atomic_load(&sh->nstates), (unsigned long long) atomic_load(&sh->noutcomes),
				(unsigned long long) stp, (unsigned long long) pr, (unsigned long long) kn, devbound, (unsigned long long) ml,
				timed_out || failed >= 0 || errored >= 0 ? "false" : "true", t1 - t0, verdict);
			json_str(jo, sample[0]); if (sample[1][0]) { fputc(',', jo); json_str(jo, sample[1]); }
			fprintf(jo, "]}");
			first = 0;
		}
		if (timed_out) break;
	}
	if (jo) { fprintf(jo, "],\"violations\":%d,\"wall\":%.2f,\"rc\":%d}\n", nvio, now_s() - tstart, rc); fclose(jo); }
	return rc;
}
