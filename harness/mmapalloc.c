// FLAVOR: asan
// C04: every sequence of allocations, frees and maintenance up to a length on the real allocator against a reference, one process and two
#include "mc.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <dlfcn.h>
#include "lib/log.h"
#include "lib/rrr_types.h"
#include "lib/rrr_mmap.h"
#include "lib/rrr_mmap_stats.h"
#include "lib/rrr_shm.h"
#include "lib/rrr_strerror.h"
#include "lib/util/posix.h"
RRR_CONFIG_DEFINE_DEFAULT_LOG_PREFIX("mmapalloc");

enum { MAXA = 40000 };
struct al { unsigned char *p; unsigned long n; unsigned char pat; int live; rrr_shm_handle sh; rrr_mmap_handle mh; };
static struct al *A; static int na, nlive;
static struct rrr_mmap_collection *C; static struct rrr_mmap_collection_private_data *P; static int ncoll, shared;

/* the file system refuses at a chosen point */
static int fail_at = -1, calls;
int ftruncate (int fd, off_t l) { static int (*r)(int, off_t); if (!r) *(void **) &r = dlsym(RTLD_NEXT, "ftruncate"); if (calls++ == fail_at) { errno = EFBIG; return -1; } return r(fd, l); }

static void quiet (void) { static int done; if (!done) { int f = open("/dev/null", O_WRONLY); fflush(stdout); dup2(f, 1); close(f); done = 1; } }
static void fill (struct al *a) { for (unsigned long i = 0; i < a->n; i += a->n > 600 && i > 64 && i + 64 < a->n ? 61 : 1) a->p[i] = (unsigned char) (a->pat + i); }
static int intact (const unsigned char *p, struct al *a) { for (unsigned long i = 0; i < a->n; i += a->n > 600 && i > 64 && i + 64 < a->n ? 61 : 1) if (p[i] != (unsigned char) (a->pat + i)) return 0; return 1; }
/* every byte may be used: the mapping covers the allocation */
static int take (int c, unsigned long n, unsigned long min) {
	struct al *a = &A[na];
	rrr_shm_handle sh = 12345; rrr_mmap_handle mh = 12345;
	a->p = shared ? rrr_mmap_collection_allocate_with_handles(&sh, &mh, C, n, min) : rrr_mmap_collections_allocate(C, (size_t) c, n, min);
	if (!a->p) return -1;
	a->n = n; a->pat = (unsigned char) (na * 37 + 11); a->live = 1; a->sh = sh; a->mh = mh;
	for (int i = 0; i < na; i++) if (A[i].live) mc_check(a->p + n <= A[i].p || A[i].p + A[i].n <= a->p, "allocation of %lu bytes overlaps a live allocation of %lu bytes", n, A[i].n);
	mc_check((((unsigned long) a->p) & 7) == 0, "allocation is not aligned");
	if (shared) mc_check(rrr_mmap_collection_resolve(C, sh, mh) == a->p, "handle of an allocation resolves to another address");
	fill(a); nlive++; mc_step();
	return na++;
}
static void give (int i) {
	mc_check(intact(A[i].p, &A[i]), "contents of an allocation of %lu bytes changed before it was freed", A[i].n);
	memset(A[i].p, 0xee, A[i].n);
	mc_check(rrr_mmap_collections_free(P, (size_t) ncoll, A[i].p) == 0, "free of a live allocation refused");
	A[i].live = 0; nlive--; mc_step();
}
static void verify (void) {
	for (int i = 0; i < na; i++) if (A[i].live) {
		mc_check(intact(A[i].p, &A[i]), "contents of a live allocation of %lu bytes changed", A[i].n);
		if (shared) { unsigned char *p = rrr_mmap_collection_resolve(C, A[i].sh, A[i].mh); mc_check(intact(p, &A[i]), "handle of a live allocation resolves to other contents"); mc_check(p == A[i].p, "address of a live allocation changed"); }
	}
}
static int nth (int k) { for (int i = 0; i < na; i++) if (A[i].live && !k--) return i; return -1; }
static void begin (int n, int sh) {
	quiet(); ncoll = n; shared = sh; na = nlive = 0; fail_at = -1; calls = 0;
	if (!A) A = calloc(MAXA, sizeof *A);
	mc_assert(rrr_mmap_collections_new(&C, (size_t) n, sh, "mc") == 0);
	if (!P) P = calloc(8, sizeof *P);
	rrr_mmap_collection_private_datas_init(P, C, (size_t) n);
}
static void end (void) { verify(); rrr_mmap_collections_destroy(C, (size_t) ncoll); }
static void maint (int rounds) { struct rrr_mmap_stats st; for (int i = 0; i < rounds; i++) rrr_mmap_collections_maintenance(&st, C, (size_t) ncoll); }

/* sizes around the rounding to 16 bytes, what fits behind the index of a 4096 byte mapping and more than a mapping */
static const int sizes[] = { 1, 8, 9, 24, 500, 1700, 3560, 3570, 5000, 15, 16, 3040 };
/* prefixes: nothing; an index nearly full; a mapping with a second index which is nearly full; holes */
static void prefix (int k) {
	if (k == 1) for (int i = 0; i < 62; i++) take(0, 1, 100);
	else if (k == 2) { for (int i = 0; i < 66; i++) take(0, 1, 100); take(0, 1800, 100); for (int i = 10; i < 14; i++) give(i); }
	else if (k == 3) { for (int i = 0; i < 64; i++) take(0, 20, 100); for (int i = 0; i < 64; i++) if (i % 3) give(i); }
	else if (k == 4) { for (int i = 0; i < 5; i++) take(0, (unsigned long) (40 + 16 * i), 100); take(0, 3000, 100); for (int i = 1; i < 4; i++) give(i); }
	else if (k == 5) { for (int i = 0; i < 150; i++) { int x = take(0, 8, 100); if (i > 1) give(x); } }   /* above the limit where a mapping is not used any more */
}
static void ops (int depth, int nsz, int coll, int sh) {
	begin(coll, sh); prefix(mc_choose(sh ? 3 : 6, "state"));
	for (int d = 0; d < depth; d++) {
		int nf = nlive < 6 ? nlive : 6, k = mc_choose(nsz * coll + nf + 2, "op");
		if (k < nsz * coll) mc_check(take(k / nsz, (unsigned long) sizes[k % nsz], 100) >= 0, "allocation of %d bytes failed", sizes[k % nsz]);
		else if (k < nsz * coll + nf) { int j = k - nsz * coll; give(nth(j < 3 ? j : nlive - 1 - (j - 3))); }   /* the first and the last ones */
		else if (k == nsz * coll + nf) maint(1);
		else maint(10);
		verify();
	}
	/* all memory can be used again */
	while (nlive) give(nth(0));
	for (int i = 0; i < 70; i++) mc_check(take(0, 20, 100) >= 0, "allocation failed after everything was freed");
	while (nlive) give(nth(nlive - 1));
	maint(12); mc_check(take(0, 5000, 100) >= 0, "allocation failed after maintenance");
	end();
}
static void sequences (void) { ops(mc_tier() ? 5 : 4, 9, 1, 0); }
static void wide (void) { ops(mc_tier() ? 5 : 4, 12, 1, 0); }
static void groups (void) { ops(mc_tier() ? 4 : 3, 7, 3, 0); }
static void pshared (void) { ops(mc_tier() ? 4 : 3, 9, 1, 1); }

/* every mapping is full: any freed allocation can be used again */
static void full (void) {
	int sh = mc_bool("shared"); unsigned long sz = (unsigned long) mc_pick((const int[]) { 1, 20, 100, 1700 }, 4, "size");
	begin(1, sh);
	while (take(0, sz, 100) >= 0);
	int per = (na + 127) / 128; if (per < 1) per = 1;
	mc_check(na >= 128, "only %d allocations possible", na);
	int lim = mc_tier() ? 60 : 20; if (per < lim) lim = per; int w = mc_choose(lim, "which"), m = mc_pick((const int[]) { 0, 1, 127 }, 3, "mapping");
	int i = m * per + w * per / lim; if (i >= na) i = na - 1;
	if (mc_bool("maintenance")) maint(1);
	int n = na; give(i);
	mc_check(take(0, sz, 100) >= 0, "freed memory (allocation %d of %d) can not be used again, size %lu", i, n, sz);
	mc_check(take(0, sz, 100) < 0, "more memory than before");
	verify(); end();
}
/* many generations: no mapping or segment is lost */
static void generations (void) {
	int sh = mc_bool("shared"), keep = mc_bool("keep one"), how = mc_choose(3, "how"); begin(1, sh);
	if (keep) take(0, 10, 100);
	for (int g = 0; g < 300; g++) {
		int x = take(0, how == 2 ? (unsigned long) (4000 + 4096 * (g % 3)) : 3000, 100); mc_check(x >= 0, "allocation failed in generation %d", g);
		give(x); if (how == 0) maint(10); else if (how == 1) maint(1);
		na = keep ? 1 : 0;
	}
	end();
}
/* frees of pointers which are not live allocations: never taken silently */
static void badfree (void) {
	begin(2, 0); for (int i = 0; i < 3; i++) take(0, 40, 100);
	int x = take(1, 40, 100), kind = mc_choose(6, "kind"); unsigned char *p = A[1].p, loc[64];
	if (kind == 0) { give(1); } else if (kind == 1) p += 8; else if (kind == 2) p = A[2].p + 48; else if (kind == 3) p = loc; else if (kind == 4) { give(x); p = A[x].p; } else p = A[0].p - 8;
	fflush(NULL);
	pid_t pid = fork();
	if (pid == 0) { int f = open("/dev/null", O_WRONLY); dup2(f, 2); signal(SIGABRT, SIG_DFL); int r = rrr_mmap_collections_free(P, 2, p); _exit(r == 0 ? 42 : 1); }
	int st; waitpid(pid, &st, 0);
	mc_check(!(WIFEXITED(st) && WEXITSTATUS(st) == 42), "free of something which is not a live allocation is accepted (kind %d)", kind);
	mc_obs(1); verify(); end();
}
/* a failing file system gives errors, no broken mapping */
static void iofail (void) {
	begin(1, 1); fail_at = calls + mc_choose(4, "which"); int how = mc_choose(2, "sizes"), failed = 0;
	for (int i = 0; i < 6; i++) { int x = take(0, how ? 3000 : (unsigned long) (1000 << i), 100); if (x < 0) failed++; if (x >= 0 && i % 3 == 2) give(x); verify(); }
	mc_check(failed <= 1, "%d allocations failed after one error", failed);
	end();
}

/* two processes: what one allocates the other one resolves, and frees */
struct cmd { int op; unsigned long n; rrr_shm_handle sh; rrr_mmap_handle mh; unsigned char pat; };
struct rep { int r; rrr_shm_handle sh; rrr_mmap_handle mh; };
static int to[2], from[2];
static void child (void) {
	struct cmd c; struct rep r;
	rrr_mmap_collection_private_datas_init(P, C, 1);
	while (read(to[0], &c, sizeof c) == sizeof c) {
		memset(&r, 0, sizeof r); struct al a = { NULL, c.n, c.pat, 1, c.sh, c.mh };
		if (c.op == 0) { a.p = rrr_mmap_collection_allocate_with_handles(&r.sh, &r.mh, C, c.n, 100); if (a.p) fill(&a); else r.r = 1; }
		else if (c.op == 1) { unsigned char *p = rrr_mmap_collection_resolve(C, c.sh, c.mh); r.r = !intact(p, &a); }
		else if (c.op == 2) { unsigned char *p = rrr_mmap_collection_resolve(C, c.sh, c.mh); r.r = !intact(p, &a); memset(p, 0xdd, c.n); if (!r.r) r.r = rrr_mmap_collections_free(P, 1, p); }
		else if (c.op == 3) { struct rrr_mmap_stats st; for (int i = 0; i < 10; i++) rrr_mmap_collections_maintenance(&st, C, 1); }
		else if (c.op == 4) _exit(0);
		if (write(from[1], &r, sizeof r) != sizeof r) _exit(3);
	}
	_exit(2);
}
static struct rep ask (struct cmd c) { struct rep r; if (write(to[1], &c, sizeof c) != sizeof c || read(from[0], &r, sizeof r) != sizeof r) { mc_fail("the other process died in operation %d", c.op); } return r; }
static void two (void) {
	begin(1, 1); if (mc_bool("before fork")) { take(0, 10, 100); take(0, 5000, 100); }
	mc_assert(pipe(to) == 0 && pipe(from) == 0); fflush(NULL); pid_t pid = fork();
	if (pid == 0) { signal(SIGPIPE, SIG_DFL); close(to[1]); close(from[0]); child(); }
	close(to[0]); close(from[1]); signal(SIGPIPE, SIG_IGN);
	int depth = mc_tier() ? 5 : 4; static const int sz[] = { 10, 3000, 5000 };
	for (int d = 0; d < depth; d++) {
		int nf = nlive < 3 ? nlive : 3, k = mc_choose(2 * (3 + nf + 1), "op"), other = k & 1; k >>= 1;
		struct cmd c = { 0 };
		if (k < 3) {
			if (!other) mc_check(take(0, (unsigned long) sz[k], 100) >= 0, "allocation failed");
			else {
				struct al *a = &A[na]; a->n = c.n = (unsigned long) sz[k]; a->pat = c.pat = (unsigned char) (na * 37 + 11); struct rep r = ask(c); mc_check(r.r == 0, "allocation failed in the other process"); a->sh = r.sh; a->mh = r.mh;
				a->p = rrr_mmap_collection_resolve(C, a->sh, a->mh); mc_check(intact(a->p, a), "handle from the other process resolves to other contents");
				for (int i = 0; i < na; i++) if (A[i].live) mc_check(a->p + a->n <= A[i].p || A[i].p + A[i].n <= a->p, "allocation of the other process overlaps a live allocation");
				a->live = 1; nlive++; na++;
			}
		}
		else if (k < 3 + nf) { int i = nth(k - 3); if (!other) give(i); else { c.op = 2; c.n = A[i].n; c.pat = A[i].pat; c.sh = A[i].sh; c.mh = A[i].mh; mc_check(ask(c).r == 0, "free in the other process: contents changed or refused"); A[i].live = 0; nlive--; } }
		else if (!other) maint(10); else { c.op = 3; ask(c); }
		for (int i = 0; i < na; i++) if (A[i].live) { mc_check(intact(A[i].p, &A[i]) && rrr_mmap_collection_resolve(C, A[i].sh, A[i].mh) == A[i].p, "live allocation changed"); struct cmd q = { 1, A[i].n, A[i].sh, A[i].mh, A[i].pat }; mc_check(ask(q).r == 0, "live allocation has other contents in the other process"); }
		mc_step();
	}
	struct cmd q = { .op = 4 }; (void) !write(to[1], &q, sizeof q); waitpid(pid, NULL, 0); close(to[1]); close(from[0]);
	end();
}
int main (int c, char **v) {
	rrr_strerror_init();
	static const struct mc_scenario sc[] = {
		{ "sequences", sequences, -1, -1, 0, NULL }, { "wide", wide, -1, -1, 0, NULL }, { "groups", groups, -1, -1, 0, NULL }, { "pshared", pshared, -1, -1, 0, NULL }, { "full", full, -1, -1, 0, NULL }, { "generations", generations, -1, -1, 0, NULL },
		{ "badfree", badfree, -1, -1, 0, NULL }, { "iofail", iofail, -1, -1, 0, NULL }, { "two_processes", two, -1, -1, 0, NULL },
	};
	return mc_main(c, v, "C04", sc, sizeof sc / sizeof *sc);
}
