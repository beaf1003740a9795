/* Controlled scheduler for exhaustive exploration of thread interleavings.
 *
 * Threads are coroutines. The code under test is compiled with -fsanitize=thread, but linked with the
 * runtime below instead of libtsan. All pthread synchronisation, sleeping, polling and atomic operations
 * are scheduling points; so are memory accesses at program counters which were found to take part in a
 * data race (the scenario is explored again whenever the set of such places grows, see mc_rerun_hook).
 * A switch away from a thread which could continue is a deviation (preemption) of the explorer, a
 * switch from a thread which blocks, sleeps or ends is a free choice.
 *
 * The heap is a quarantining arena: use after free and out of bounds accesses (per block, with red zones)
 * are reported, as are deadlock, livelock and leaks. */
#include "mc.h"
#include "msched.h"
#include <pthread.h>
#include <setjmp.h>
#include <errno.h>
#include <time.h>
#include <poll.h>
#include <unistd.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <dlfcn.h>

void *__real_memcpy (void *, const void *, size_t); void *__real_memset (void *, int, size_t); void *__real_memmove (void *, const void *, size_t);
#define memset __real_memset
#define memcpy __real_memcpy
#define memmove __real_memmove
#pragma GCC diagnostic ignored "-Wstringop-overflow"
#define MAXT 8
#define STACK (256*1024)
#define ARENA_BASE ((char *) 0x100000000000ULL)
#define ARENA_SIZE (64u<<20)
#define GR 16
#define NGR (ARENA_SIZE/GR)

enum st { S_NONE, S_READY, S_MUTEX, S_COND, S_COND_T, S_WAIT, S_JOIN, S_POLL, S_RW, S_DONE };
struct thread {
	enum st st; int yielded; uint32_t waitset; void *sp; char *stack; const char *name;
	void (*fn)(void *); void *arg; void *(*pfn)(void *); void *ret;
	void *obj; uint64_t deadline; int timed_out; int signaled;
	int (*cond)(void *); void *carg; const char *what;
	int joined, detached, cancel, rw_write;
	struct pollfd *pfd; nfds_t npfd;
	uint32_t vc[MAXT];
	void *cleanup[32]; int ncleanup;
	int err;
	const char *last;
};
static struct thread T[MAXT];
static int nt, cur = -1;
static void *main_sp;
static uint64_t vtime;
static int steps;
int sched_step_limit = 20000;
int sched_fail_on_livelock = 1;
int sched_timeout_dev = 1;
int sched_trylock_dev;

/* ---------------------------------------------------------------- context switch */
__asm__(".text\n.globl sched_switch\nsched_switch:\n"
	"push %rbp\npush %rbx\npush %r12\npush %r13\npush %r14\npush %r15\n"
	"mov %rsp,(%rdi)\nmov %rsi,%rsp\n"
	"pop %r15\npop %r14\npop %r13\npop %r12\npop %rbx\npop %rbp\nret\n");
extern void sched_switch (void **save, void *load);
static void thread_end (void) __attribute__((noreturn));
static void thread_main (void) {
	struct thread *t = &T[cur];
	if (t->pfn) t->ret = t->pfn(t->arg); else t->fn(t->arg);
	thread_end();
}

/* ---------------------------------------------------------------- sync object table */
struct obj { const void *addr; uint32_t gen; int owner; int count; int recursive; int robust; int dead; int errorcheck; int readers; int sig; uint32_t vc[MAXT]; };
#define NOBJ 4096
static struct obj O[NOBJ];
static uint32_t gen = 1;
static struct obj *obj_get (const void *a, int reset) {
	uint64_t i = ((uint64_t) (uintptr_t) a * 0x9E3779B97F4A7C15ULL) >> 52;
	for (;;) {
		struct obj *o = &O[i & (NOBJ-1)];
		if (o->gen != gen || o->addr == a) {
			if (o->gen != gen || reset) { memset(o, 0, sizeof(*o)); o->addr = a; o->gen = gen; o->owner = -1; }
			return o;
		}
		i++;
	}
}
static void vc_join (uint32_t *a, const uint32_t *b) { for (int i = 0; i < MAXT; i++) if (b[i] > a[i]) a[i] = b[i]; }
static void acquire (struct obj *o) { if (cur >= 0) vc_join(T[cur].vc, o->vc); }
static void release (struct obj *o) { if (cur >= 0) { vc_join(o->vc, T[cur].vc); T[cur].vc[cur]++; } }

/* ---------------------------------------------------------------- race directed scheduling points */
#define NRACY 256
struct racy { atomic_int n; _Atomic(uintptr_t) pc[NRACY]; atomic_int npend; _Atomic(uintptr_t) pend[NRACY]; };
static struct racy *R;
static uint64_t racy_filter[64]; static int racy_seen;
static void racy_init (void) {
	if (!R) { R = mmap(NULL, sizeof(*R), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0); }
}
static inline int is_racy (uintptr_t pc) {
	int n = atomic_load_explicit(&R->n, memory_order_relaxed);
	if (n != racy_seen) { memset(racy_filter, 0, sizeof(racy_filter)); for (int i = 0; i < n; i++) { uintptr_t p = R->pc[i]; racy_filter[(p >> 6) & 63] |= 1ULL << (p & 63); } racy_seen = n; }
	if (!(racy_filter[(pc >> 6) & 63] & (1ULL << (pc & 63)))) return 0;
	for (int i = 0; i < n; i++) if (R->pc[i] == pc) return 1;
	return 0;
}
static void racy_add (uintptr_t pc) {
	int n = atomic_load(&R->n);
	for (int i = 0; i < n; i++) if (R->pc[i] == pc) return;
	n = atomic_load(&R->npend);
	for (int i = 0; i < n && i < NRACY; i++) if (R->pend[i] == pc) return;
	int i = atomic_fetch_add(&R->npend, 1);
	if (i < NRACY) R->pend[i] = pc;
}
/* called by the explorer in the parent between passes: 1 = explore again */
int sched_rerun (void) {
	int n = atomic_load(&R->npend), added = 0;
	if (n > NRACY) n = NRACY;
	for (int i = 0; i < n; i++) {
		int dup = 0, m = atomic_load(&R->n);
		for (int k = 0; k < m; k++) if (R->pc[k] == R->pend[i]) dup = 1;
		if (!dup && m < NRACY) { R->pc[m] = R->pend[i]; atomic_store(&R->n, m + 1); added = 1; }
	}
	atomic_store(&R->npend, 0);
	return added;
}
void sched_aux_write (FILE *f) {
	for (int i = 0; i < atomic_load(&R->n); i++) fprintf(f, "racy %lx\n", (unsigned long) R->pc[i]);
}
void sched_aux_read (const char *line) {
	unsigned long x; racy_init();
	if (sscanf(line, "racy %lx", &x) == 1) { int n = atomic_load(&R->n); if (n < NRACY) { R->pc[n] = x; atomic_store(&R->n, n + 1); } }
}
int sched_racy_count (void) { return R ? atomic_load(&R->n) : 0; }

/* memory shadow for happens-before race detection, 8-byte granules */
struct cell { uintptr_t a; uint32_t gen; uint32_t wclk; int8_t wtid; uint8_t wmask; uintptr_t wpc; uint32_t rclk[MAXT]; uint8_t rmask[MAXT]; uintptr_t rpc[MAXT]; };
#define NCELL (1u<<16)
static struct cell *C;
static struct cell *cell_get (uintptr_t g) {
	uint64_t i = (g * 0x9E3779B97F4A7C15ULL) >> 48;
	for (int k = 0; k < 64; k++, i++) {
		struct cell *c = &C[i & (NCELL-1)];
		if (c->gen != gen) { memset(c, 0, sizeof(*c)); c->gen = gen; c->a = g; c->wtid = -1; return c; }
		if (c->a == g) return c;
	}
	return NULL;
}

/* ---------------------------------------------------------------- heap */
static uint8_t *shadow;     /* per 16 byte granule: 0 never allocated, 1..16 live with n valid bytes, 0xff red zone, 0xfe freed */
static char *arena_pos;
static int heap_on;
static long heap_live;
struct blk { uint32_t size; uint32_t live; uintptr_t pc; };
extern void *__real_malloc (size_t); extern void *__real_calloc (size_t, size_t); extern void *__real_realloc (void *, size_t); extern void __real_free (void *);
extern char *__real_strdup (const char *);
static inline int in_arena (const void *p) { return (const char *) p >= ARENA_BASE && (const char *) p < ARENA_BASE + ARENA_SIZE; }

static void *arena_alloc (size_t n, uintptr_t pc) {
	size_t tot = 16 + ((n + 15) & ~(size_t) 15) + 16;
	if (arena_pos + tot > ARENA_BASE + ARENA_SIZE) mc_error("scheduler arena exhausted");
	struct blk *b = (struct blk *) arena_pos;
	b->size = (uint32_t) n; b->live = 1; b->pc = pc;
	char *p = arena_pos + 16;
	size_t g = (size_t) (arena_pos - ARENA_BASE) / GR;
	shadow[g] = 0xff;
	for (size_t i = 0; i * GR < n; i++) shadow[g + 1 + i] = (uint8_t) (n - i * GR >= GR ? GR : n - i * GR);
	shadow[g + tot / GR - 1] = 0xff;
	arena_pos += tot;
	heap_live++;
	memset(p, 0xa5, n);
	return p;
}
long sched_heap_live (void) { return heap_live; }

static const char *symname (uintptr_t pc) {
	Dl_info i; static char b[4][256]; static int k; k = (k + 1) & 3;
	if (dladdr((void *) pc, &i) && i.dli_sname) snprintf(b[k], 256, "%s+%lx", i.dli_sname, (unsigned long) (pc - (uintptr_t) i.dli_saddr));
	else snprintf(b[k], 256, "pc %lx", (unsigned long) pc);
	return b[k];
}
static void check_access (const void *p_, size_t n, int w, uintptr_t pc) {
	const char *p = p_;
	if (!in_arena(p)) return;
	size_t g = (size_t) (p - ARENA_BASE) / GR, off = (size_t) (p - ARENA_BASE) % GR;
	size_t left = n;
	while (left > 0) {
		uint8_t s = shadow[g];
		size_t k = GR - off; if (k > left) k = left;
		if (s == 0xfe) mc_fail("use after free: thread %d (%s) %s %zu bytes at %p in %s", cur, cur >= 0 ? T[cur].name : "main", w ? "writes" : "reads", n, p_, symname(pc));
		if (s == 0xff || s == 0 || off + k > s) mc_fail("heap overflow: thread %d (%s) %s %zu bytes at %p in %s", cur, cur >= 0 ? T[cur].name : "main", w ? "writes" : "reads", n, p_, symname(pc));
		left -= k; off = 0; g++;
	}
}
void sched_check_live (const void *p, size_t n, const char *what) {
	if (!in_arena(p)) return;
	size_t g = (size_t) ((const char *) p - ARENA_BASE) / GR;
	if (shadow[g] == 0xfe) mc_fail("%s was freed while still in use", what);
	check_access(p, n, 0, (uintptr_t) __builtin_return_address(0));
}
void *__wrap_malloc (size_t n) { return heap_on ? arena_alloc(n, (uintptr_t) __builtin_return_address(0)) : __real_malloc(n); }
void *__wrap_calloc (size_t a, size_t b) { if (!heap_on) return __real_calloc(a, b); void *p = arena_alloc(a * b, (uintptr_t) __builtin_return_address(0)); memset(p, 0, a * b); return p; }
void __wrap_free (void *p) {
	if (!p) return;
	if (!in_arena(p)) { __real_free(p); return; }
	struct blk *b = (struct blk *) ((char *) p - 16);
	size_t g = (size_t) ((char *) p - ARENA_BASE) / GR;
	if (((uintptr_t) p & 15) || shadow[g-1] != 0xff) mc_fail("free of invalid pointer %p in %s", p, symname((uintptr_t) __builtin_return_address(0)));
	if (!b->live) mc_fail("double free by thread %d in %s", cur, symname((uintptr_t) __builtin_return_address(0)));
	b->live = 0; heap_live--;
	for (size_t i = 0; i * GR < b->size; i++) shadow[g + i] = 0xfe;
	memset(p, 0x5a, b->size);
}
void *__wrap_realloc (void *p, size_t n) {
	if (!p) return __wrap_malloc(n);
	if (!in_arena(p)) return __real_realloc(p, n);
	struct blk *b = (struct blk *) ((char *) p - 16);
	void *q = arena_alloc(n, (uintptr_t) __builtin_return_address(0));
	memcpy(q, p, b->size < n ? b->size : n);
	__wrap_free(p);
	return q;
}
char *__wrap_strdup (const char *s) { size_t n = strlen(s) + 1; char *p = __wrap_malloc(n); memcpy(p, s, n); return p; }
int __wrap_vasprintf (char **r, const char *f, va_list ap) {
	va_list a2; va_copy(a2, ap); int n = vsnprintf(NULL, 0, f, a2); va_end(a2);
	if (n < 0) return n;
	*r = __wrap_malloc((size_t) n + 1); vsnprintf(*r, (size_t) n + 1, f, ap); return n;
}
int __wrap_asprintf (char **r, const char *f, ...) { va_list ap; va_start(ap, f); int n = __wrap_vasprintf(r, f, ap); va_end(ap); return n; }
int __wrap_posix_memalign (void **r, size_t al, size_t n) { if (al > 16) return ENOMEM; *r = __wrap_malloc(n); return 0; }
char *__wrap_strndup (const char *s, size_t m) { size_t n = strnlen(s, m); char *p = __wrap_malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }

void sched_leak_check (void) {
	if (heap_live == 0) return;
	char msg[1500]; int l = 0, k = 0;
	for (char *q = ARENA_BASE; q < arena_pos && k < 6; ) {
		struct blk *b = (struct blk *) q;
		if (b->live) { l += snprintf(msg + l, sizeof(msg) - (size_t) l, " %u bytes from %s;", b->size, symname(b->pc)); k++; }
		q += 16 + ((b->size + 15) & ~15u) + 16;
	}
	mc_fail("memory leak: %ld blocks:%s", heap_live, msg);
}

/* ---------------------------------------------------------------- accesses */
static inline int own_stack (const void *p) { return cur >= 0 && (const char *) p >= T[cur].stack && (const char *) p < T[cur].stack + STACK; }
static void sp (const char *what);
static void mem (const void *p, size_t n, int w, uintptr_t pc) {
	if (cur < 0) { check_access(p, n, w, pc); return; }
	if (own_stack(p)) return;
	if (is_racy(pc)) sp("racy access");
	check_access(p, n, w, pc);
	uint32_t *vc = T[cur].vc;
	uintptr_t a = (uintptr_t) p, e = a + n;
	while (a < e) {
		uintptr_t g = a >> 3; unsigned lo = a & 7, hi = (g + 1) << 3 <= e ? 8 : (unsigned) (e & 7);
		uint8_t mask = (uint8_t) (((1u << hi) - 1) & ~((1u << lo) - 1));
		struct cell *c = cell_get(g);
		if (c) {
			if (c->wtid >= 0 && c->wtid != cur && (c->wmask & mask) && c->wclk > vc[(int) c->wtid]) { racy_add(pc); racy_add(c->wpc); }
			if (w) {
				for (int i = 0; i < nt; i++) if (i != cur && (c->rmask[i] & mask) && c->rclk[i] > vc[i]) { racy_add(pc); racy_add(c->rpc[i]); }
				c->wtid = (int8_t) cur; c->wclk = vc[cur]; c->wmask = mask; c->wpc = pc;
			}
			else { c->rclk[cur] = vc[cur]; c->rmask[cur] = mask; c->rpc[cur] = pc; }
		}
		a = (g + 1) << 3;
	}
}
#define PC ((uintptr_t) __builtin_return_address(0))
#define RW(n) void __tsan_read##n (void *p) { mem(p, n, 0, PC); } void __tsan_write##n (void *p) { mem(p, n, 1, PC); } \
	void __tsan_unaligned_read##n (void *p) { mem(p, n, 0, PC); } void __tsan_unaligned_write##n (void *p) { mem(p, n, 1, PC); } \
	void __tsan_volatile_read##n (void *p) { mem(p, n, 0, PC); } void __tsan_volatile_write##n (void *p) { mem(p, n, 1, PC); } \
	void __tsan_unaligned_volatile_read##n (void *p) { mem(p, n, 0, PC); } void __tsan_unaligned_volatile_write##n (void *p) { mem(p, n, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range (void *p, size_t n) { mem(p, n, 0, PC); }
void __tsan_write_range (void *p, size_t n) { mem(p, n, 1, PC); }
void __tsan_init (void) {}
void __tsan_func_entry (void *p) { (void)(p); }
void __tsan_func_exit (void) {}
void __tsan_vptr_update (void *a, void *b) { (void)(a); (void)(b); }
void __tsan_vptr_read (void *a) { (void)(a); }
/* library calls which touch memory */
void *__wrap_memcpy (void *d, const void *s, size_t n) { if (n) { mem(s, n, 0, PC); mem(d, n, 1, PC); } return __real_memcpy(d, s, n); }
void *__wrap_memmove (void *d, const void *s, size_t n) { if (n) { mem(s, n, 0, PC); mem(d, n, 1, PC); } return __real_memmove(d, s, n); }
void *__wrap_memset (void *d, int c, size_t n) { if (n) mem(d, n, 1, PC); return __real_memset(d, c, n); }

/* atomics: a scheduling point and an acquire/release of the location */
static void at (const void *p, size_t n, int w) {
	if (cur < 0) { check_access(p, n, w, 0); return; }
	sp("atomic"); check_access(p, n, w, PC);
	struct obj *o = obj_get(p, 0); acquire(o); if (w) release(o);
}
#define ATOM(bits, ty) \
	ty __tsan_atomic##bits##_load (const volatile ty *a, int mo) { at((const void *) a, sizeof(ty), 0); return *a; } \
	void __tsan_atomic##bits##_store (volatile ty *a, ty v, int mo) { at((const void *) a, sizeof(ty), 1); *a = v; } \
	ty __tsan_atomic##bits##_exchange (volatile ty *a, ty v, int mo) { at((const void *) a, sizeof(ty), 1); ty o = *a; *a = v; return o; } \
	ty __tsan_atomic##bits##_fetch_add (volatile ty *a, ty v, int mo) { at((const void *) a, sizeof(ty), 1); ty o = *a; *a = (ty) (o + v); return o; } \
	ty __tsan_atomic##bits##_fetch_sub (volatile ty *a, ty v, int mo) { at((const void *) a, sizeof(ty), 1); ty o = *a; *a = (ty) (o - v); return o; } \
	ty __tsan_atomic##bits##_fetch_and (volatile ty *a, ty v, int mo) { at((const void *) a, sizeof(ty), 1); ty o = *a; *a = (ty) (o & v); return o; } \
	ty __tsan_atomic##bits##_fetch_or (volatile ty *a, ty v, int mo) { at((const void *) a, sizeof(ty), 1); ty o = *a; *a = (ty) (o | v); return o; } \
	ty __tsan_atomic##bits##_fetch_xor (volatile ty *a, ty v, int mo) { at((const void *) a, sizeof(ty), 1); ty o = *a; *a = (ty) (o ^ v); return o; } \
	ty __tsan_atomic##bits##_fetch_nand (volatile ty *a, ty v, int mo) { at((const void *) a, sizeof(ty), 1); ty o = *a; *a = (ty) ~(o & v); return o; } \
	int __tsan_atomic##bits##_compare_exchange_strong (volatile ty *a, ty *e, ty v, int mo, int fmo) { at((const void *) a, sizeof(ty), 1); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
	int __tsan_atomic##bits##_compare_exchange_weak (volatile ty *a, ty *e, ty v, int mo, int fmo) { at((const void *) a, sizeof(ty), 1); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
	ty __tsan_atomic##bits##_compare_exchange_val (volatile ty *a, ty e, ty v, int mo, int fmo) { at((const void *) a, sizeof(ty), 1); ty o = *a; if (o == e) *a = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence (int mo) { (void)(mo); if (cur >= 0) sp("fence"); }
void __tsan_atomic_signal_fence (int mo) { (void)(mo); }

/* ---------------------------------------------------------------- scheduling */
extern int poll (struct pollfd *, nfds_t, int);
static int real_poll0 (struct pollfd *p, nfds_t n) { struct timespec z = {0, 0}; return (int) syscall(SYS_ppoll, p, n, &z, NULL, 0); }
static int enabled (int i) {
	struct thread *t = &T[i];
	switch (t->st) {
		case S_READY: return 1;
		case S_MUTEX: return obj_get(t->obj, 0)->owner < 0;
		case S_RW: { struct obj *o = obj_get(t->obj, 0); return t->rw_write ? (o->owner < 0 && o->readers == 0) : o->owner < 0; }
		case S_COND: case S_COND_T: return t->signaled || t->cancel;
		case S_WAIT: return t->cond(t->carg);
		case S_JOIN: return T[(intptr_t) t->obj].st == S_DONE;
		case S_POLL: return t->cancel || real_poll0(t->pfd, t->npfd) > 0;
		default: return 0;
	}
}
static const char *st_name (enum st s) { static const char *n[] = {"none","ready","mutex","cond","timed cond","wait","join","poll","rwlock","done"}; return n[s]; }
static void describe (char *b, size_t n) {
	size_t l = 0; b[0] = 0;
	for (int i = 0; i < nt && l < n; i++) l += (size_t) snprintf(b + l, n - l, " [%d %s: %s %s last=%s]", i, T[i].name, st_name(T[i].st), T[i].what ? T[i].what : "", T[i].last ? T[i].last : "");
}
static int can_timeout (int i) { return (T[i].st == S_COND_T || T[i].st == S_POLL) && T[i].deadline != UINT64_MAX; }

/* Chooses the next thread; self_ok: the current thread may continue. Returns thread or -1 if all done */
static int pick (int self_ok) {
	int cand[MAXT * 2], nc = 0, tout[MAXT], ntout = 0;
	if (++steps > sched_step_limit) {
		char b[1000]; describe(b, sizeof(b));
		if (sched_fail_on_livelock) mc_fail("livelock: %d scheduling points without finishing%s", steps, b);
		mc_error("step limit %s", b);
	}
	/* a thread which yielded waits for a step of every thread which was able to run then (fair scheduling) */
	uint32_t en = 0;
	for (int i = 0; i < nt; i++) if (T[i].st != S_DONE && T[i].st != S_NONE && enabled(i)) en |= 1u << i;
	for (int i = 0; i < nt; i++) {
		if (T[i].st == S_DONE || T[i].st == S_NONE) continue;
		if (i == cur) continue;
		if (en & (1u << i)) { if (!(T[i].waitset & en)) cand[nc++] = i; }
		else if (can_timeout(i)) tout[ntout++] = i;
	}
	if (self_ok) {
		if (nc == 0 && (ntout == 0 || !sched_timeout_dev)) return cur;
		int k = mc_dev(1 + nc + (sched_timeout_dev ? ntout : 0), "preempt");
		if (k == 0) return cur;
		if (k <= nc) return cand[k-1];
		int i = tout[k-1-nc]; T[i].timed_out = 1; if (T[i].deadline > vtime) vtime = T[i].deadline; return i;
	}
	/* the current thread cannot or does not want to continue */
	if (nc == 0) {
		/* yielded threads, including the current one */
		for (int i = 0; i < nt; i++) if (T[i].st != S_DONE && T[i].st != S_NONE && (en & (1u << i))) cand[nc++] = i;
		/* the one which has waited longest goes first: yields rotate */
		if (nc > 0) {
			/* time passes until the first one wakes */
			int best = cand[0]; for (int k = 1; k < nc; k++) if (T[cand[k]].yielded < T[best].yielded) best = cand[k];
			/* timed waits which expire before the sleeper wakes */
			if (ntout > 0) {
				int e = -1; for (int k = 0; k < ntout; k++) if (T[tout[k]].deadline <= vtime && (e < 0 || T[tout[k]].deadline < T[e].deadline)) e = tout[k];
				if (e >= 0) { T[e].timed_out = 1; return e; }
			}
			return best;
		}
		if (ntout > 0) {
			int best = tout[0]; for (int k = 1; k < ntout; k++) if (T[tout[k]].deadline < T[best].deadline) best = tout[k];
			T[best].timed_out = 1; if (T[best].deadline > vtime) vtime = T[best].deadline;
			return best;
		}
		int alive = 0; for (int i = 0; i < nt; i++) if (T[i].st != S_DONE && T[i].st != S_NONE) alive++;
		if (alive) { char b[1500]; describe(b, sizeof(b)); mc_fail("deadlock:%s", b); }
		return -1;
	}
	if (nc == 1 || nt > 20) return cand[0];
	return cand[mc_choose(nc, "switch")];
}
static int yield_seq;
static void switch_to (int n) {
	int c = cur;
	if (n == c) return;
	if (mc_logging()) mc_log("    -> %s (was at %s)", n >= 0 ? T[n].name : "main", c >= 0 && T[c].last ? T[c].last : "-");
	int e = errno;
	cur = n;
	sched_switch(c >= 0 ? &T[c].sp : &main_sp, n >= 0 ? T[n].sp : main_sp);
	errno = e;
}
static void run_cleanup (void) __attribute__((noreturn));
static void testcancel (void) { if (cur >= 0 && T[cur].cancel == 1) { T[cur].cancel = 2; run_cleanup(); } }
static void made_step (void) { for (int i = 0; i < nt; i++) T[i].waitset &= ~(1u << cur); T[cur].waitset = 0; }
static void sp (const char *what) {
	if (cur < 0) return;
	T[cur].last = what;
	int n = pick(1);
	if (n != cur) switch_to(n);
	made_step();
}
/* block the current thread in state st */
static void block (enum st st, const char *what) {
	struct thread *t = &T[cur];
	t->st = st; t->what = what; t->last = what;
	int n = pick(0);
	if (n == -1) mc_error("no thread");
	if (n != cur) switch_to(n);
	t->st = S_READY; t->what = NULL; t->waitset = 0;
}
static void yield (const char *what, uint64_t us) {
	if (cur < 0) { vtime += us; return; }
	testcancel();
	struct thread *t = &T[cur];
	t->last = what;
	vtime += us ? us : 1;
	made_step();
	t->waitset = 0; for (int i = 0; i < nt; i++) if (i != cur && T[i].st != S_DONE && T[i].st != S_NONE && enabled(i)) t->waitset |= 1u << i;
	t->yielded = ++yield_seq; t->st = S_READY;
	int n = pick(0);
	if (n >= 0 && n != cur) switch_to(n);
	t->waitset = 0;
	testcancel();
}
static void thread_end (void) {
	struct thread *t = &T[cur];
	t->st = S_DONE; t->last = "end";
	made_step();
	struct obj *o = obj_get(t, 0); vc_join(o->vc, t->vc);
	int n = pick(0);
	switch_to(n);
	mc_error("dead thread continues");
}
void sched_point (const char *what) { sp(what); }
int sched_self (void) { return cur; }
int sched_finished (int tid) { return T[tid].st == S_DONE; }
uint64_t sched_time (void) { return vtime; }
void sched_time_add (uint64_t us) { vtime += us; }
void sched_wait_until (int (*cond)(void *), void *arg, const char *what) {
	sp(what);
	while (!cond(arg)) { T[cur].cond = cond; T[cur].carg = arg; block(S_WAIT, what); }
}

static int new_thread (const char *name) {
	if (nt >= MAXT) mc_error("too many threads");
	struct thread *t = &T[nt];
	char *stk = t->stack;
	memset(t, 0, sizeof(*t));
	if (!stk) { stk = mmap(NULL, STACK, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0); }
	t->stack = stk; t->name = name; t->st = S_READY;
	void **s = (void **) (stk + STACK - 64);
	*--s = NULL;                      /* return address of thread_main: never used */
	*--s = (void *) thread_main;
	for (int i = 0; i < 6; i++) *--s = NULL;
	t->sp = s;
	t->vc[nt] = 1;
	if (cur >= 0) { vc_join(t->vc, T[cur].vc); T[cur].vc[cur]++; }
	return nt++;
}
int sched_spawn (const char *name, void (*fn)(void *), void *arg) {
	int i = new_thread(name); T[i].fn = fn; T[i].arg = arg; return i;
}
void sched_run (void) {
	if (cur != -1) mc_error("nested sched_run");
	steps = 0;
	int n = pick(0);
	if (n >= 0) switch_to(n);
	cur = -1;
	for (int i = 0; i < nt; i++) if (T[i].st != S_DONE) mc_error("thread %d not done", i);
	nt = 0;
}
void sched_reset (void) {
	racy_init();
	if (!shadow) {
		shadow = mmap(NULL, NGR, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
		void *a = mmap(ARENA_BASE, ARENA_SIZE, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE, -1, 0);
		if (a != ARENA_BASE) mc_error("arena");
		C = mmap(NULL, sizeof(*C) * NCELL, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
		arena_pos = ARENA_BASE;
	}
	__real_memset(shadow, 0, (size_t) (arena_pos - ARENA_BASE) / GR + 1);
	arena_pos = ARENA_BASE;
	heap_live = 0; heap_on = 1; gen++; nt = 0; cur = -1; vtime = 1000000000000ULL; yield_seq = 0; steps = 0;
}
void sched_heap_off (void) { heap_on = 0; }

/* ---------------------------------------------------------------- pthread */
int pthread_mutex_init (pthread_mutex_t *m, const pthread_mutexattr_t *a) {
	if (in_arena(m)) check_access(m, sizeof(*m), 1, PC);
	struct obj *o = obj_get(m, 1);
	if (a) { int ty = 0, rb = 0; pthread_mutexattr_gettype(a, &ty); o->recursive = ty == PTHREAD_MUTEX_RECURSIVE; o->errorcheck = ty == PTHREAD_MUTEX_ERRORCHECK; pthread_mutexattr_getrobust(a, &rb); o->robust = rb == PTHREAD_MUTEX_ROBUST; }
	return 0;
}
int pthread_mutex_destroy (pthread_mutex_t *m) {
	check_access(m, sizeof(*m), 1, PC);
	struct obj *o = obj_get(m, 0);
	if (o->owner >= 0) mc_fail("mutex destroyed while locked by thread %d", o->owner - 1);
	return 0;
}
/* owner is stored as tid+1, main = 0 .. so -1 means free */
int pthread_mutex_lock (pthread_mutex_t *m) {
	struct obj *o;
	if (cur < 0) { check_access(m, sizeof(*m), 1, PC); o = obj_get(m, 0); if (o->owner > 0) mc_fail("main blocks on mutex held by finished thread %d", o->owner - 1); o->owner = 0; o->count++; return 0; }
	sp("mutex_lock");
	check_access(m, sizeof(*m), 1, PC);
	o = obj_get(m, 0);
	if (o->owner == cur + 1) {
		if (o->recursive) { o->count++; return 0; }
		if (o->errorcheck) return EDEADLK;
		mc_fail("self deadlock: thread %d (%s) locks a mutex it already holds", cur, T[cur].name);
	}
	while (o->owner >= 0) {
		T[cur].obj = m; block(S_MUTEX, "mutex_lock");
		check_access(m, sizeof(*m), 1, PC);
		o = obj_get(m, 0);
	}
	o->owner = cur + 1; o->count = 1; acquire(o);
	if (o->robust && o->dead) { o->dead = 0; return EOWNERDEAD; }
	return 0;
}
int pthread_mutex_trylock (pthread_mutex_t *m) {
	struct obj *o;
	if (cur < 0) { o = obj_get(m, 0); if (o->owner > 0) return EBUSY; if (o->owner == 0 && !o->recursive) return EBUSY; o->owner = 0; o->count++; return 0; }
	sp("mutex_trylock");
	check_access(m, sizeof(*m), 1, PC);
	o = obj_get(m, 0);
	if (o->owner == cur + 1 && o->recursive) { o->count++; return 0; }
	if (o->owner >= 0) return EBUSY;
	o->owner = cur + 1; o->count = 1; acquire(o);
	if (o->robust && o->dead) { o->dead = 0; return EOWNERDEAD; }
	return 0;
}
int pthread_mutex_unlock (pthread_mutex_t *m) {
	check_access(m, sizeof(*m), 1, PC);
	struct obj *o = obj_get(m, 0);
	if (cur < 0) { if (o->owner == 0 && --o->count <= 0) { o->owner = -1; o->count = 0; } return 0; }
	if (o->owner != cur + 1) {
		if (o->errorcheck) return EPERM;
		mc_fail("thread %d (%s) unlocks a mutex it does not hold (owner %d)", cur, T[cur].name, o->owner - 1);
	}
	if (--o->count > 0) return 0;
	release(o);
	o->owner = -1;
	return 0;
}
int pthread_mutex_consistent (pthread_mutex_t *m) { (void)(m); return 0; }
static void mutex_release_for_wait (pthread_mutex_t *m, int *cnt) {
	struct obj *o = obj_get(m, 0);
	if (o->owner != cur + 1) mc_fail("condition wait without holding the mutex");
	*cnt = o->count; release(o); o->owner = -1; o->count = 0;
}
static void mutex_reacquire (pthread_mutex_t *m, int cnt) {
	struct obj *o = obj_get(m, 0);
	while (o->owner >= 0) { T[cur].obj = m; block(S_MUTEX, "cond reacquire"); o = obj_get(m, 0); }
	o->owner = cur + 1; o->count = cnt; acquire(o);
}
int pthread_cond_init (pthread_cond_t *c, const pthread_condattr_t *a) { obj_get(c, 1); return 0; }
int pthread_cond_destroy (pthread_cond_t *c) {
	for (int i = 0; i < nt; i++) if ((T[i].st == S_COND || T[i].st == S_COND_T) && T[i].obj == c) mc_fail("condition destroyed while thread %d waits", i);
	return 0;
}
static int cwait (pthread_cond_t *c, pthread_mutex_t *m, uint64_t deadline) {
	if (cur < 0) { if (deadline != UINT64_MAX) { if (deadline > vtime) vtime = deadline; return ETIMEDOUT; } mc_fail("condition wait outside threads"); }
	testcancel();
	sp("cond_wait");
	check_access(c, sizeof(*c), 1, PC);
	int cnt; mutex_release_for_wait(m, &cnt);
	struct thread *t = &T[cur];
	t->obj = c; t->deadline = deadline; t->signaled = 0; t->timed_out = 0;
	made_step();
	block(deadline == UINT64_MAX ? S_COND : S_COND_T, "cond_wait");
	int to = t->timed_out && !t->signaled;
	if (t->signaled) acquire(obj_get(c, 0));
	mutex_reacquire(m, cnt);
	testcancel();
	return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait (pthread_cond_t *c, pthread_mutex_t *m) { return cwait(c, m, UINT64_MAX); }
int pthread_cond_timedwait (pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
	return cwait(c, m, (uint64_t) ts->tv_sec * 1000000 + (uint64_t) ts->tv_nsec / 1000);
}
static int csig (pthread_cond_t *c, int all) {
	if (cur >= 0) { sp("cond_signal"); release(obj_get(c, 0)); }
	check_access(c, sizeof(*c), 1, PC);
	int w[MAXT], n = 0;
	for (int i = 0; i < nt; i++) if ((T[i].st == S_COND || T[i].st == S_COND_T) && T[i].obj == c && !T[i].signaled && !T[i].timed_out) w[n++] = i;
	if (n == 0) return 0;
	if (all) for (int i = 0; i < n; i++) T[w[i]].signaled = 1;
	else T[w[n > 1 ? mc_choose(n, "signal") : 0]].signaled = 1;
	return 0;
}
int pthread_cond_signal (pthread_cond_t *c) { return csig(c, 0); }
int pthread_cond_broadcast (pthread_cond_t *c) { return csig(c, 1); }

int pthread_rwlock_init (pthread_rwlock_t *l, const pthread_rwlockattr_t *a) { obj_get(l, 1); return 0; }
int pthread_rwlock_destroy (pthread_rwlock_t *l) { struct obj *o = obj_get(l, 0); if (cur >= 0 && (o->owner >= 0 || o->readers)) mc_fail("rwlock destroyed while locked"); return 0; }
static int rw (pthread_rwlock_t *l, int write, int try) {
	if (cur < 0) { struct obj *o = obj_get(l, 0); if (write) { o->owner = 0; } else o->readers++; return 0; }
	sp("rwlock"); check_access(l, sizeof(*l), 1, PC);
	struct obj *o = obj_get(l, 0);
	while (write ? (o->owner >= 0 || o->readers) : o->owner >= 0) {
		if (try) return EBUSY;
		T[cur].obj = l; T[cur].rw_write = write; block(S_RW, "rwlock"); o = obj_get(l, 0);
	}
	if (write) o->owner = cur + 1; else o->readers++;
	acquire(o);
	return 0;
}
int pthread_rwlock_rdlock (pthread_rwlock_t *l) { return rw(l, 0, 0); }
int pthread_rwlock_wrlock (pthread_rwlock_t *l) { return rw(l, 1, 0); }
int pthread_rwlock_tryrdlock (pthread_rwlock_t *l) { return rw(l, 0, 1); }
int pthread_rwlock_trywrlock (pthread_rwlock_t *l) { return rw(l, 1, 1); }
int pthread_rwlock_unlock (pthread_rwlock_t *l) {
	struct obj *o = obj_get(l, 0);
	release(o);
	if (o->owner >= 0) o->owner = -1; else if (o->readers > 0) o->readers--; else if (cur >= 0) mc_fail("rwlock unlocked while not locked");
	return 0;
}

/* threads created by the code under test */
int pthread_create (pthread_t *p, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
	if (cur >= 0) sp("pthread_create");
	int i = new_thread("pthread"); T[i].pfn = fn; T[i].arg = arg; *p = (pthread_t) (uintptr_t) (i + 1); return 0;
}
static int tid_of (pthread_t p) { int i = (int) (uintptr_t) p - 1; if (i < 0 || i >= nt) mc_fail("invalid thread handle %lx", (unsigned long) p); return i; }
int pthread_join (pthread_t p, void **r) {
	int i = tid_of(p);
	if (T[i].joined || T[i].detached) mc_fail("thread %d joined twice or detached", i);
	if (cur < 0) mc_error("join outside threads");
	sp("pthread_join");
	while (T[i].st != S_DONE) { T[cur].obj = (void *) (intptr_t) i; block(S_JOIN, "join"); }
	T[i].joined = 1; acquire(obj_get(&T[i], 0));
	if (r) *r = T[i].ret;
	return 0;
}
int pthread_detach (pthread_t p) { int i = tid_of(p); if (T[i].joined || T[i].detached) mc_fail("thread %d detached twice", i); T[i].detached = 1; return 0; }
int pthread_cancel (pthread_t p) { if (cur >= 0) sp("pthread_cancel"); int i = tid_of(p); if (T[i].joined || (T[i].detached && T[i].st == S_DONE)) mc_fail("pthread_cancel of a thread which no longer exists"); if (!T[i].cancel) T[i].cancel = 1; return 0; }
void pthread_testcancel (void) { testcancel(); }
pthread_t pthread_self (void) { return (pthread_t) (uintptr_t) (cur + 1); }
int pthread_equal (pthread_t a, pthread_t b) { return a == b; }
int pthread_setname_np (pthread_t t, const char *n) { (void)(t); (void)(n); return 0; }
pid_t gettid (void) { return 1000 + cur; }
void pthread_exit (void *r) { if (cur < 0) abort(); T[cur].ret = r; run_cleanup(); }
void __pthread_register_cancel (__pthread_unwind_buf_t *b) { if (cur >= 0) { if (T[cur].ncleanup >= 32) mc_error("cleanup"); T[cur].cleanup[T[cur].ncleanup++] = b; } }
void __pthread_unregister_cancel (__pthread_unwind_buf_t *b) { if (cur >= 0) { if (T[cur].ncleanup < 1 || T[cur].cleanup[T[cur].ncleanup-1] != b) mc_error("cleanup order"); T[cur].ncleanup--; } }
static void run_cleanup (void) {
	if (T[cur].ncleanup > 0) { __pthread_unwind_buf_t *b = T[cur].cleanup[--T[cur].ncleanup]; longjmp((struct __jmp_buf_tag *) b->__cancel_jmp_buf, 1); }
	thread_end();
}
void __pthread_unwind_next (__pthread_unwind_buf_t *b) { (void)(b); run_cleanup(); }

/* ---------------------------------------------------------------- time and sleeping */
int usleep (useconds_t us) { yield("usleep", us); return 0; }
unsigned sleep (unsigned s) { yield("sleep", (uint64_t) s * 1000000); return 0; }
int nanosleep (const struct timespec *a, struct timespec *b) { yield("nanosleep", (uint64_t) a->tv_sec * 1000000 + (uint64_t) a->tv_nsec / 1000); return 0; }
int sched_yield (void) { yield("sched_yield", 0); return 0; }
int gettimeofday (struct timeval *tv, void *tz) { if (cur >= 0) vtime++; tv->tv_sec = (time_t) (vtime / 1000000); tv->tv_usec = (suseconds_t) (vtime % 1000000); return 0; }
int clock_gettime (clockid_t id, struct timespec *ts) { if (cur >= 0) vtime++; ts->tv_sec = (time_t) (vtime / 1000000); ts->tv_nsec = (long) (vtime % 1000000) * 1000; return 0; }
time_t time (time_t *t) { time_t x = (time_t) (vtime / 1000000); if (t) *t = x; return x; }
int poll (struct pollfd *p, nfds_t n, int timeout) {
	if (cur < 0) return real_poll0(p, n);
	testcancel();
	sp("poll");
	int r = real_poll0(p, n);
	if (r != 0 || timeout == 0) { return r; }
	struct thread *t = &T[cur];
	t->pfd = p; t->npfd = n; t->timed_out = 0;
	t->deadline = timeout < 0 ? UINT64_MAX : vtime + (uint64_t) timeout * 1000;
	made_step();
	block(S_POLL, "poll");
	r = real_poll0(p, n);
	testcancel();
	return r;
}
