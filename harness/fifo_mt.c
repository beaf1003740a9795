// FLAVOR: sched
// ENGINE: sched.c
// OVERRIDE: src/lib/fifo_protected.c -DRRR_VERIF_FIFO_PROTECTED_MAX_READS=4
/* C01: concurrent writers and readers of the protected FIFO under every schedule up to a number of preemptions */
#include "mc.h"
#include "msched.h"
#include "lib/rrr_types.h"
#include "lib/allocator.h"
#include "lib/fifo_protected.h"

#define MAXI 12
struct item { int id; char pad[12]; };
static struct rrr_fifo_protected F;
static struct { int delayed; int started, ended; int delivered; int accepted; int seq; } I[MAXI];
static int n_items, clk, n_delivered, n_accepted, dseq, writers_left, two_readers, free_calls;
static int verdicts; /* 1: explore reader verdicts */

static void h_free (void *p) { struct item *i = p; sched_check_live(i, sizeof(*i), "entry"); free_calls++; free(p); }
struct wctx { int n; int kind; int delayed_mask; int again; int left; };
static int wr_cb (char **data, unsigned long *size, uint64_t *order, void *arg) {
	struct wctx *w = arg;
	struct item *it = malloc(sizeof(*it));
	it->id = n_items++;
	I[it->id].started = ++clk; I[it->id].delayed = w->kind; I[it->id].ended = 1000000;
	*data = (char *) it; *size = sizeof(*it);
	w->left--;
	return w->left > 0 && w->again ? RRR_FIFO_PROTECTED_WRITE_AGAIN : 0;
}
static void writer (void *arg) {
	struct wctx *w = arg;
	int calls = w->again ? 1 : w->n;
	for (int i = 0; i < calls; i++) {
		w->kind = (w->delayed_mask >> i) & 1; w->left = w->again ? w->n : 1;
		int r = w->kind ? rrr_fifo_protected_write_delayed(&F, wr_cb, w) : rrr_fifo_protected_write(&F, wr_cb, w);
		mc_check(r == 0, "write fails");
		n_accepted += w->again ? w->n : 1;
	}
	writers_left--;
}
struct rctx { int reads; int last; int stopped_at; };
static int rd_cb (void *arg, char *data, unsigned long size) {
	struct rctx *r = arg;
	struct item *it = (struct item *) data;
	mc_check(it != NULL && size == sizeof(*it), "reader got no data or a wrong size %lu", size);
	sched_check_live(it, sizeof(*it), "entry given to a reader");
	mc_check(it->id >= 0 && it->id < n_items, "reader got an unknown entry");
	mc_check(!I[it->id].delivered, "entry %d delivered twice", it->id);
	I[it->id].delivered = 1; I[it->id].seq = ++dseq; n_delivered++;
	mc_log("   %d delivered", it->id);
	/* a delivered entry must not be younger than an undelivered one of the same kind: ids are given in order of
	 * the write callbacks, hence comparable within one writer only, see order() */
	static const int v[] = {0, RRR_FIFO_PROTECTED_SEARCH_STOP|RRR_FIFO_PROTECTED_SEARCH_FREE, RRR_FIFO_PROTECTED_SEARCH_FREE, RRR_FIFO_PROTECTED_SEARCH_STOP};
	int k = verdicts == 1 ? mc_choose(2, "verdict") * (r->reads == 1 ? 1 : 3) : verdicts == 2 ? 1 : 0;
	if (!(v[k] & RRR_FIFO_PROTECTED_SEARCH_FREE)) { sched_point("callback"); free(it); }
	return v[k];
}
static int available (void *arg) { return F.entry_count || F.write_queue_entry_count || writers_left == 0; }
static void reader (void *arg) {
	struct rctx *r = arg;
	for (int i = 0; i < r->reads; i++) {
		sched_wait_until(available, NULL, "reader waits");
		mc_check(rrr_fifo_protected_read_clear_forward(&F, rd_cb, r) == 0, "read fails");
	}
}
static int w_of[MAXI];
static int wr_cb_1 (char **d, unsigned long *s, uint64_t *o, void *arg) { int id = n_items; int r = wr_cb(d, s, o, arg); w_of[id] = 1; return r; }
static void writer_1 (void *arg) {
	struct wctx *w = arg;
	int calls = w->again ? 1 : w->n;
	for (int i = 0; i < calls; i++) {
		w->kind = (w->delayed_mask >> i) & 1; w->left = w->again ? w->n : 1;
		mc_check((w->kind ? rrr_fifo_protected_write_delayed(&F, wr_cb_1, w) : rrr_fifo_protected_write(&F, wr_cb_1, w)) == 0, "write fails");
		n_accepted += w->again ? w->n : 1;
	}
	writers_left--;
}
static void final (void) {
	/* everything quiescent: what was not delivered must be in the buffer */
	int c = (int) rrr_fifo_protected_get_entry_count(&F), q = (int) F.write_queue_entry_count;
	mc_check(c + q == n_accepted - n_delivered, "%d written, %d delivered, but %d (and %d queued) reported", n_accepted, n_delivered, c, q);
	struct rctx r = {1, 0, 0}; verdicts = 0;
	for (int i = 0; i < 5 && n_delivered < n_accepted; i++) mc_check(rrr_fifo_protected_read_clear_forward(&F, rd_cb, &r) == 0, "read fails");
	mc_check(n_delivered == n_accepted, "%d entries were written, only %d were delivered", n_accepted, n_delivered);
	mc_check(rrr_fifo_protected_get_entry_count(&F) == 0, "entry count not zero when drained");
	if (!two_readers) {
		for (int a = 0; a < n_items; a++) for (int b = a + 1; b < n_items; b++)
			if (w_of[a] == w_of[b] && I[a].delayed == I[b].delayed) mc_check(I[a].seq < I[b].seq, "entry %d was delivered before %d", b, a);
	}
	struct rrr_fifo_protected_stats st; rrr_fifo_protected_get_stats(&st, &F);
	mc_check((int) st.total_entries_written == n_accepted && (int) st.total_entries_deleted == n_accepted, "statistics: %d written %d deleted, expected %d", (int) st.total_entries_written, (int) st.total_entries_deleted, n_accepted);
	for (int i = 0; i < n_items; i++) mc_obs((uint64_t) I[i].seq);
	rrr_fifo_protected_destroy(&F);
	sched_leak_check();
}
static void start (void) {
	sched_reset();
	memset(I, 0, sizeof(I)); memset(w_of, 0, sizeof(w_of));
	n_items = clk = n_delivered = n_accepted = dseq = writers_left = two_readers = free_calls = verdicts = 0;
	mc_check(rrr_fifo_protected_init(&F, h_free) == 0, "init");
}
static struct wctx W[2]; static struct rctx RD[2];
static void prefill (int n) {
	struct wctx w = {.n = n};
	writers_left = 1;
	writer(&w);
}
/* one reader with all verdicts, two writers, one of them also using the delayed queue */
static void one_reader (void) {
	start(); verdicts = 1;
	prefill(mc_choose(2, "prefill") * 2);
	writers_left = 2;
	W[0] = (struct wctx) {.n = 1, .delayed_mask = 0};
	W[1] = (struct wctx) {.n = 2, .delayed_mask = mc_choose(4, "delayed")};
	for (int i = 0; i < n_items; i++) w_of[i] = 2;
	RD[0] = (struct rctx) {2, 0, 0};
	sched_spawn("writer0", writer, &W[0]); sched_spawn("writer1", writer_1, &W[1]); sched_spawn("reader", reader, &RD[0]);
	sched_run();
	final();
}
/* two readers which stop early, more entries than one call takes */
static void two_reader (void) {
	start(); verdicts = mc_bool("verdicts") ? 1 : 2; two_readers = 1;
	prefill(mc_choose(6, "prefill") + 1);
	writers_left = 0;
	int w = mc_bool("writer");
	if (w) { W[0] = (struct wctx) {.n = 1, .delayed_mask = 0}; writers_left = 1; sched_spawn("writer0", writer, &W[0]); }
	RD[0] = (struct rctx) {2, 0, 0}; RD[1] = (struct rctx) {1, 0, 0};
	sched_spawn("reader0", reader, &RD[0]); sched_spawn("reader1", reader, &RD[1]);
	sched_run();
	final();
}
/* two writers with write again, one reader */
static void again (void) {
	start();
	writers_left = 2;
	W[0] = (struct wctx) {.n = 2, .again = 1}; W[1] = (struct wctx) {.n = 2, .again = 1, .delayed_mask = mc_bool("delayed")};
	RD[0] = (struct rctx) {2, 0, 0};
	sched_spawn("writer0", writer, &W[0]); sched_spawn("writer1", writer_1, &W[1]); sched_spawn("reader", reader, &RD[0]);
	sched_run();
	final();
}
int main (int argc, char **argv) {
	static const struct mc_scenario s[] = {
		{"one_reader", one_reader, 2, 3, 0, NULL},
		{"two_readers", two_reader, 2, 3, 0, NULL},
		{"again", again, 2, 3, 0, NULL},
	};
	return mc_main(argc, argv, "C01", s, 3);
}
