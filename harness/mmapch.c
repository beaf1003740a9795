// FLAVOR: sched
// ENGINE: sched.c
// OVERRIDE: src/lib/mmap_channel.c -DRRR_VERIF_MMAP_CHANNEL_SLOTS=2
// C03: the real shared memory channel between a writing and a reading thread under every schedule up to a number of
// preemptions, and all sequential histories with refused system calls. Segments are heap blocks which are checked for use after release.
#include "mc.h"
#include "msched.h"
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <unistd.h>
#include <sys/shm.h>
#include <sys/ipc.h>
#include "lib/log.h"
#include "lib/rrr_types.h"
#include "lib/mmap_channel.h"
#include "lib/rrr_strerror.h"
#include "lib/event/event.h"
/* (its table would live in the heap of one execution) */
const char *rrr_strerror (int find_num) { (void) find_num; return "error"; }
void rrr_strerror_init (void) {}
void rrr_strerror_cleanup (void) {}
RRR_CONFIG_DEFINE_DEFAULT_LOG_PREFIX("mmapch");

/* System V segments: exist until removed and detached everywhere */
enum { NSEG = 32 };
static struct seg { int id, key, att, rm; size_t n; unsigned char *p; } G[NSEG]; static int nseg_id, faults, nkey, attached_max;
static struct seg *seg (int id) { for (int i = 0; i < NSEG; i++) if (G[i].p && G[i].id == id) return &G[i]; return NULL; }
static void seg_done (struct seg *s) { if (s->rm && !s->att) { free(s->p); s->p = NULL; } }
static int fault (const char *w) { return faults && mc_dev(2, w); }
int shmget (key_t k, size_t n, int f) {
	if (fault("shmget fails")) { errno = ENOSPC; return -1; }
	for (int i = 0; i < NSEG; i++) if (G[i].p && !G[i].rm && G[i].key == k) { errno = EEXIST; return -1; }
	for (int i = 0; i < NSEG; i++) if (!G[i].p) { G[i].id = ++nseg_id; G[i].key = k; G[i].att = G[i].rm = 0; G[i].n = n; G[i].p = malloc(n); return G[i].id; }
	mc_error("too many segments"); return -1;
}
void *shmat (int id, const void *a, int f) { struct seg *s = seg(id); if (!s) { errno = EINVAL; return (void *) -1; } if (fault("shmat fails")) { errno = ENOMEM; return (void *) -1; } s->att++; return s->p; }
int shmdt (const void *p) { for (int i = 0; i < NSEG; i++) if (G[i].p && G[i].p == p) { mc_check(G[i].att > 0, "detach of a segment which is not attached"); G[i].att--; seg_done(&G[i]); return 0; } mc_fail("detach of an unknown address"); return -1; }
int shmctl (int id, int cmd, struct shmid_ds *d) { struct seg *s = seg(id); if (!s) { errno = EINVAL; return -1; } if (cmd == IPC_RMID) { s->rm = 1; seg_done(s); } else if (cmd == IPC_STAT) { memset(d, 0, sizeof *d); d->shm_nattch = (shmatt_t) s->att; } return 0; }
static int same_keys;
int rrr_rand (void) { nkey++; return same_keys ? nkey / 3 : nkey; }


static struct rrr_mmap_channel *C; static int tokens, wn, rn, rfail, reads, done_w, progress;
static int Q[64];   /* sizes written, in order */
int rrr_event_pass (struct rrr_event_queue *q, uint8_t fn, uint8_t amount, int (*cb)(void *), void *arg) { tokens += amount; return 0; }

static const int sizes[] = { 100, 8192, 8193, 1, 20000, 9000, 12288, 9216, 9217, 4096 };
static unsigned char pat (int id, int i) { return (unsigned char) (id * 53 + i * 7 + (i >> 8) + 1); }
static int step_of (int n) { return n > 300 ? n / 7 : n > 16 ? n / 5 : 1; }
static void put (unsigned char *p, int id, int n) { for (int i = 0; i < n; i += step_of(n)) p[i] = pat(id, i); p[n - 1] = pat(id, n - 1); }
static int good (const unsigned char *p, int id, int n) { for (int i = 0; i < n; i += step_of(n)) if (p[i] != pat(id, i)) return 0; return p[n - 1] == pat(id, n - 1); }
struct w { int id, n, fail; };
static int wr_cb (void *t, void *arg) {
	struct w *w = arg; mc_check(t != NULL && t != (void *) -1, "writer gets no memory");
	if (w->fail) return 1;
	for (int i = 0; i < NSEG; i++) if (G[i].p == t) mc_check(G[i].n >= (size_t) w->n, "segment of %d bytes for %d", (int) G[i].n, w->n);
	put(t, w->id, w->n); sched_point("fill"); put(t, w->id, w->n); return 0;
}
static int rd_cb (const void *d, size_t n, void *arg) {
	mc_check(rn < wn, "a block is delivered which was not written");
	mc_check((int) n == Q[rn], "block %d has %d bytes instead of %d", rn, (int) n, Q[rn]);
	mc_check(good(d, rn, (int) n), "block %d of %d bytes is delivered with other contents", rn, (int) n);
	sched_point("consume"); mc_check(good(d, rn, (int) n), "block %d of %d bytes changes while it is read", rn, (int) n);
	if (rfail == 2 || (rfail && mc_dev(2, "reader fails"))) return 1;
	rn++; return 0;
}
static int wrote (int n, int fail, int plain) {
	struct w w = { wn, n, fail }; static unsigned char buf[32768]; int r;
	Q[wn++] = n;   /* visible to the reader from some point within the call */
	if (plain) { put(buf, w.id, n); r = rrr_mmap_channel_write(C, (void *) 1, buf, (size_t) n, NULL, NULL); }
	else r = rrr_mmap_channel_write_using_callback(C, (void *) 1, (size_t) n, wr_cb, &w, NULL, NULL);
	if (r) { wn--; mc_check(rn <= wn, "a block which was refused is delivered"); }
	return r;
}
static void begin (void) { sched_reset(); memset(G, 0, sizeof G); nseg_id = faults = nkey = tokens = wn = rn = rfail = reads = done_w = progress = same_keys = 0; mc_assert(rrr_mmap_channel_new(&C, "mc") == 0); }
static void drain (void) {
	for (int i = 0; i < 20 && rn < wn; i++) { int c = 0, r = rrr_mmap_channel_read_with_callback(&c, C, rd_cb, NULL); mc_check(r == 0 && c == 1, "read returns %d and count %d with %d blocks left", r, c, wn - rn); }
	int c = 0, r = rrr_mmap_channel_read_with_callback(&c, C, rd_cb, NULL); mc_check(c == 0 && (r == 0 || r == RRR_MMAP_CHANNEL_EMPTY), "read of an empty channel returns %d", r);
	int n = -1; rrr_mmap_channel_count(&n, C); mc_check(n == 0, "count is %d for an empty channel", n);
}
static void end (void) {
	faults = rfail = 0; drain();
	rrr_mmap_channel_writer_free_blocks(C);
	for (int i = 0; i < NSEG; i++) mc_check(!G[i].p, "segment of %d bytes remains (attached %d, removed %d)", (int) (G[i].p ? G[i].n : 0), G[i].att, G[i].rm);
	rrr_mmap_channel_destroy(C);
}

static int nblocks, *plan, plainw;

static void writer (void *arg) {
	for (int i = 0; i < nblocks; i++) for (int tries = 0; ; tries++) {
		int r = wrote(plan[i], 0, plainw);
		if (r == 0) break;
		mc_check(r == RRR_MMAP_CHANNEL_FULL, "write returns %d", r); mc_check(tries < 40, "the writer never finds room");
		usleep(10);
	}
	done_w = 1;
}
static int some (void *a) { return tokens > 0 || done_w; }
static void reader (void *arg) {
	for (int idle = 0; ; ) {
		sched_wait_until(some, NULL, "reader waits");
		if (tokens == 0) break;
		int c = 0, r = rrr_mmap_channel_read_with_callback(&c, C, rd_cb, NULL);
		mc_check(r == 0 || r == RRR_MMAP_CHANNEL_EMPTY || rfail, "read returns %d", r);
		if (c) { tokens--; idle = 0; } else { mc_check(++idle < 40, "the reader never gets the block it was notified of"); usleep(10); }
	}
}
static void check_lock (void *arg) { int n; unsigned long long a, b; rrr_mmap_channel_count(&n, C); mc_check(n >= 0 && n <= 2, "count %d", n); rrr_mmap_channel_get_counters_and_reset(&a, &b, C); rrr_mmap_channel_maintenance(C); }
static void stream (int n, int nsz, int third) {
	static int pl[8]; begin(); nblocks = n; plan = pl; plainw = 0;
	for (int i = 0; i < n; i++) plan[i] = sizes[i < 2 || nsz > 2 ? mc_choose(nsz, "size") : 1 + mc_choose(2, "size")];
	sched_spawn("writer", writer, NULL); sched_spawn("reader", reader, NULL); if (third) sched_spawn("other", check_lock, NULL);
	sched_run();
	mc_check(wn == n, "not everything was written"); mc_check(rn == n, "%d of %d blocks delivered", rn, n); mc_obs((uint64_t) nseg_id);
	end();
}
static void threads (void) { stream(4, 3, 0); }
static void few (void) { stream(3, 2, 0); }
static void sizes_ (void) { stream(3, mc_tier() ? 8 : 7, 0); }
static void others (void) { stream(3, 2, 1); }
static void plain (void) { plainw = 1; static int pl[8]; begin(); nblocks = 3; plan = pl; plainw = 1; for (int i = 0; i < 3; i++) plan[i] = mc_bool("large") ? 8200 : 64; sched_spawn("writer", writer, NULL); sched_spawn("reader", reader, NULL); sched_run(); mc_check(wn == 3 && rn == 3, "%d of 3 blocks delivered", rn); end(); }
static void rerror (void) { static int pl[8]; begin(); nblocks = 3; plan = pl; plainw = 0; rfail = 1; for (int i = 0; i < 3; i++) plan[i] = mc_bool("large") ? 8200 : 64; sched_spawn("writer", writer, NULL); sched_spawn("reader", reader, NULL); sched_run(); mc_check(wn == 3 && rn == 3, "%d of 3 blocks delivered", rn); end(); }

/* every history of one party at a time, callback errors and refused system calls */
static void history (void) {
	begin(); int depth = mc_tier() ? 5 : 4; faults = mc_bool("system calls may fail"); same_keys = 1; int kinds = faults ? 4 : 6;
	for (int d = 0; d < depth; d++) {
		int k = mc_choose(kinds + 4, "op"), full = wn - rn == 2;
		if (k <= kinds) {
			int fail = k == kinds, r = wrote(sizes[fail ? 2 : k], fail, 0);
			if (full) mc_check(r == RRR_MMAP_CHANNEL_FULL, "write to a full channel returns %d", r);
			else if (fail) mc_check(r == 1, "failing write returns %d", r);
			else mc_check(r == 0 || (faults && r == 1), "write returns %d with %d blocks in the channel", r, wn - rn);
		}
		else if (k == kinds + 1 || k == kinds + 2) {
			int c = 0, before = rn, r; rfail = 0;
			if (k == kinds + 2) rfail = 2;
			r = rrr_mmap_channel_read_with_callback(&c, C, rd_cb, NULL);
			if (wn == before) mc_check(c == 0 && (r == 0 || r == RRR_MMAP_CHANNEL_EMPTY), "read of an empty channel returns %d", r);
			else mc_check(c == rn - before && (c == 1 ? r == 0 : r == 1 && (faults || rfail)), "read returns %d and count %d", r, c);
			rfail = 0;
		}
		else rrr_mmap_channel_maintenance(C);
		int n; rrr_mmap_channel_count(&n, C); mc_check(n == wn - rn, "count is %d instead of %d", n, wn - rn);
		mc_step();
	}
	end();
}
/* the writer ends early: everything is released */
static void abandon (void) {
	begin(); int n = mc_choose(3, "blocks"); for (int i = 0; i < n; i++) wrote(sizes[mc_choose(8, "size")], 0, 0); int r = mc_choose(n + 1, "read"); for (int i = 0; i < r; i++) { int c; rrr_mmap_channel_read_with_callback(&c, C, rd_cb, NULL); }
	rrr_mmap_channel_writer_free_blocks(C);
	for (int i = 0; i < NSEG; i++) mc_check(!G[i].p, "segment remains");
	rrr_mmap_channel_destroy(C);
}
int main (int argc, char **argv) {

	static const struct mc_scenario s[] = {
		{ "few", few, 3, 4, 0, NULL }, { "threads", threads, 2, 3, 0, NULL }, { "sizes", sizes_, 1, 2, 0, NULL }, { "others", others, 1, 2, 0, NULL }, { "plain", plain, 2, 3, 0, NULL }, { "reader_error", rerror, 2, 3, 0, NULL },
		{ "history", history, 2, 2, 0, NULL }, { "abandon", abandon, -1, -1, 0, NULL },
	};
	return mc_main(argc, argv, "C03", s, sizeof s / sizeof *s);
}
