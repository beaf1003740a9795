// FLAVOR: asan
/* C01: sequential histories of both FIFO implementations against a list model. Every sequence of operations
 * up to a length, with every combination of callback verdicts up to a number of non-default ones. */
#include "mc.h"
#include "lib/rrr_types.h"
#include "lib/allocator.h"
#include "lib/fifo.h"
#include "lib/fifo_protected.h"

#define MAXE 16
struct item { int id; int refs; };
struct ml { int n; int id[MAXE]; uint64_t order[MAXE]; };
static int next_id, custom, live_items, ordered;
static uint64_t next_orders[] = {5, 3, 8, 4, 7, 1, 6, 9, 2, 10, 11, 12, 13, 14, 15, 16};
static int order_i;

static struct item *item_new (void) { struct item *i = malloc(sizeof(*i)); i->id = next_id++; i->refs = custom ? 0 : 1; live_items++; return i; }
static void item_drop (struct item *i) { mc_check(i->refs == 1, "reference count of entry %d is %d when released", i->id, i->refs); live_items--; free(i); }
static void h_incref (void *p) { ((struct item *) p)->refs++; }
static void h_decref (void *p) { struct item *i = p; if (--i->refs == 0) { live_items--; free(i); } else mc_fail("entry %d has %d references after decref", i->id, i->refs); }
static void h_free (void *p) { live_items--; free(p); }

static void m_append (struct ml *m, int id, uint64_t o) { m->id[m->n] = id; m->order[m->n++] = o; }
static void m_insert (struct ml *m, int id, uint64_t o) {
	int p = 0; while (p < m->n && m->order[p] < o) p++;
	memmove(m->id + p + 1, m->id + p, sizeof(int) * (size_t) (m->n - p)); memmove(m->order + p + 1, m->order + p, sizeof(uint64_t) * (size_t) (m->n - p));
	m->id[p] = id; m->order[p] = o; m->n++;
}
static void m_del (struct ml *m, int p) {
	memmove(m->id + p, m->id + p + 1, sizeof(int) * (size_t) (m->n - p - 1)); memmove(m->order + p, m->order + p + 1, sizeof(uint64_t) * (size_t) (m->n - p - 1)); m->n--;
}

/* What a callback did, in order */
static struct { struct ml *m; int pos; int err; int calls; int phase2; int stop; uint64_t min; int writes_left; int mode; struct ml *wq; struct rrr_fifo *f; struct rrr_fifo_protected *fp; int delayed; } A;

/* ------- write callbacks: verdicts plain / again / drop / again|drop / error */
static int wr_cb (char **data, unsigned long *size, uint64_t *order, void *arg) {
	static const int v[] = {0, RRR_FIFO_WRITE_AGAIN, RRR_FIFO_WRITE_DROP, RRR_FIFO_WRITE_DROP|RRR_FIFO_WRITE_AGAIN, RRR_FIFO_GLOBAL_ERR};
	int k = A.calls >= 3 ? 0 : mc_dev(5, "write verdict");
	if (A.delayed && k == 3) k = 2;
	A.calls++;
	int r = v[k];
	mc_log("   write callback -> %s", (const char *[]) {"write", "write, again", "drop", "drop, again", "error"}[k]);
	if (r == RRR_FIFO_GLOBAL_ERR) { A.err = 1; return r; }
	if (!(r & RRR_FIFO_WRITE_DROP)) {
		struct item *i = item_new();
		*data = (char *) i; *size = (unsigned long) (100 + i->id);
		if (ordered) { *order = next_orders[order_i++]; m_insert(A.m, i->id, *order); r |= RRR_FIFO_WRITE_ORDERED; mc_log("   order %d", (int) *order); }
		else if (A.delayed) m_append(A.wq, i->id, 0);
		else m_append(A.m, i->id, 0);
	}
	return r;
}
static void check_item (const struct ml *m, int pos, const char *data, unsigned long size, const char *op) {
	const struct item *i = (const struct item *) data;
	mc_check(pos < m->n, "%s: callback called for entry %d, but only %d are stored", op, pos, m->n);
	mc_check(i != NULL, "%s: NULL data", op);
	mc_check(i->id == m->id[pos], "%s: position %d holds entry %d, expected entry %d", op, pos, i->id, m->id[pos]);
	mc_check(size == (unsigned long) (100 + i->id), "%s: size of entry %d is %lu", op, i->id, size);
	mc_step();
}
/* ------- non destructive comparison */
static int cmp_cb (void *arg, char *data, unsigned long size) { check_item(A.m, A.pos, data, size, "read"); A.pos++; return 0; }
static void compare (struct rrr_fifo *f, struct ml *m) {
	A.m = m; A.pos = 0;
	mc_check(rrr_fifo_get_entry_count(f) == (rrr_length) m->n, "entry count is %d, expected %d", (int) rrr_fifo_get_entry_count(f), m->n);
	int r = rrr_fifo_read(f, cmp_cb, NULL);
	mc_check(r == 0 && A.pos == m->n, "read returned %d after %d of %d entries", r, A.pos, m->n);
	mc_obs((uint64_t) m->n); for (int i = 0; i < m->n; i++) mc_obs((uint64_t) m->id[i]);
}
/* ------- search */
static int search_cb (void *arg, char *data, unsigned long size) {
	static const int v[] = {0, RRR_FIFO_SEARCH_GIVE, RRR_FIFO_SEARCH_GIVE|RRR_FIFO_SEARCH_FREE, RRR_FIFO_SEARCH_STOP, RRR_FIFO_SEARCH_GIVE|RRR_FIFO_SEARCH_STOP, RRR_FIFO_SEARCH_GIVE|RRR_FIFO_SEARCH_FREE|RRR_FIFO_SEARCH_STOP, RRR_FIFO_CALLBACK_ERR};
	mc_check(!A.stop, "search continues after stop");
	check_item(A.m, A.pos, data, size, "search");
	int r = v[mc_dev(7, "search verdict")];
	mc_log("   search entry %d -> %x", A.m->id[A.pos], r);
	if (r & RRR_FIFO_CALLBACK_ERR) { A.err = 1; A.stop = 1; return r; }
	if (r & RRR_FIFO_SEARCH_STOP) A.stop = 1;
	if (r & RRR_FIFO_SEARCH_GIVE) { if (!(r & RRR_FIFO_SEARCH_FREE)) item_drop((struct item *) data); m_del(A.m, A.pos); } else A.pos++;
	return r;
}
/* ------- search and replace */
static int sr_cb (char **data, unsigned long *size, uint64_t *order, void *arg) {
	if (*data == NULL) {
		mc_check(A.mode != 0, "callback called again although not requested");
		mc_check(A.stop || A.pos == A.m->n, "callback called again before all entries were seen");
		mc_check(A.writes_left > 0, "callback called again too many times");
		A.stop = 1; A.phase2 = 1;
		if (--A.writes_left == 0 && A.mode == 1) return RRR_FIFO_WRITE_DROP;
		struct item *i = item_new(); *data = (char *) i; *size = (unsigned long) (100 + i->id);
		if (ordered) *order = next_orders[order_i++];
		m_append(A.m, i->id, *order);
		return A.writes_left > 0 ? RRR_FIFO_WRITE_AGAIN : 0;
	}
	mc_check(!A.stop, "search and replace continues after stop");
	check_item(A.m, A.pos, *data, *size, "search and replace");
	mc_check(*order == A.m->order[A.pos], "order of entry %d is %d, expected %d", A.m->id[A.pos], (int) *order, (int) A.m->order[A.pos]);
	static const int v[] = {0, RRR_FIFO_SEARCH_GIVE, RRR_FIFO_SEARCH_GIVE|RRR_FIFO_SEARCH_FREE, RRR_FIFO_SEARCH_REPLACE, RRR_FIFO_SEARCH_REPLACE|RRR_FIFO_SEARCH_FREE, RRR_FIFO_SEARCH_STOP,
		RRR_FIFO_SEARCH_GIVE|RRR_FIFO_SEARCH_FREE|RRR_FIFO_SEARCH_STOP, RRR_FIFO_SEARCH_REPLACE|RRR_FIFO_SEARCH_FREE|RRR_FIFO_SEARCH_STOP, RRR_FIFO_CALLBACK_ERR};
	int r = v[mc_dev(9, "search and replace verdict")];
	mc_log("   search and replace entry %d -> %x", A.m->id[A.pos], r);
	if (r & RRR_FIFO_CALLBACK_ERR) { A.err = 1; A.stop = 1; return r; }
	if (r & RRR_FIFO_SEARCH_STOP) A.stop = 1;
	if (r & RRR_FIFO_SEARCH_GIVE) { if (!(r & RRR_FIFO_SEARCH_FREE)) item_drop((struct item *) *data); m_del(A.m, A.pos); }
	else if (r & RRR_FIFO_SEARCH_REPLACE) {
		if (!(r & RRR_FIFO_SEARCH_FREE)) item_drop((struct item *) *data);
		struct item *i = item_new(); *data = (char *) i; *size = (unsigned long) (100 + i->id);
		A.m->id[A.pos] = i->id; A.pos++;
	}
	else A.pos++;
	return r;
}
/* ------- destructive read, both implementations (same verdict bits) */
static int rcf_cb (void *arg, char *data, unsigned long size) {
	mc_check(!A.stop, "read continues after stop");
	check_item(A.m, 0, data, size, "destructive read");
	static const int v[] = {0, RRR_FIFO_SEARCH_FREE, RRR_FIFO_SEARCH_STOP, RRR_FIFO_SEARCH_FREE|RRR_FIFO_SEARCH_STOP, RRR_FIFO_CALLBACK_ERR, RRR_FIFO_CALLBACK_ERR|RRR_FIFO_SEARCH_FREE, RRR_FIFO_GLOBAL_ERR, -1};
	int k = mc_dev(A.writes_left > 0 ? 8 : 7, "read verdict");
	m_del(A.m, 0);
	A.pos++;
	int r = v[k];
	if (r == -1) {
		/* the callback writes a new entry to the same buffer while the entries are detached */
		A.writes_left--; A.mode++; r = 0;
		int s = A.delayed; A.delayed = 0; int c = A.calls; A.calls = 99;
		struct ml *keep = A.m, w = {0}; A.m = &w;
		int ret = A.f ? rrr_fifo_write(A.f, wr_cb, NULL) : rrr_fifo_protected_write(A.fp, wr_cb, NULL);
		mc_check(ret == 0, "write from within read fails");
		A.m = keep; A.delayed = s; A.calls = c;
		m_append(A.wq, w.id[0], w.order[0]);      /* not visible to the running read */
	}
	mc_log("   read entry -> %x", r);
	if (!(r & RRR_FIFO_SEARCH_FREE)) item_drop((struct item *) data);
	if (r & (RRR_FIFO_CALLBACK_ERR|RRR_FIFO_GLOBAL_ERR)) { A.err = r & (RRR_FIFO_CALLBACK_ERR|RRR_FIFO_GLOBAL_ERR); A.stop = 1; }
	if (r & RRR_FIFO_SEARCH_STOP) A.stop = 1;
	return r;
}
static int min_cb (void *arg, char *data, unsigned long size) {
	while (A.pos < A.m->n && A.m->order[A.pos] <= A.min) A.pos++;
	mc_check(!A.stop, "read continues after stop");
	check_item(A.m, A.pos, data, size, "read minimum");
	A.pos++;
	static const int v[] = {0, RRR_FIFO_SEARCH_STOP, RRR_FIFO_CALLBACK_ERR};
	int r = v[mc_dev(3, "read minimum verdict")];
	if (r) A.stop = 1;
	if (r & RRR_FIFO_CALLBACK_ERR) A.err = r;
	return r;
}
static int clear_cb (void *arg, char **data, unsigned long size) {
	check_item(A.m, A.pos, *data, size, "clear"); A.pos++;
	if (mc_dev(2, "clear verdict")) { item_drop((struct item *) *data); *data = NULL; }
	return 0;
}
static void begin (struct ml *m) { memset(&A, 0, sizeof(A)); A.m = m; }

static void do_write (struct rrr_fifo *f, struct ml *m, int deviate) {
	begin(m); if (!deviate) A.calls = 99;
	int r = rrr_fifo_write(f, wr_cb, NULL);
	mc_check(!r == !A.err, "write returned %d", r);
}

static void fifo_histories (void) {
	struct rrr_fifo f, g; struct ml m = {0}, mg = {0};
	next_id = 0; live_items = 0; order_i = 0;
	custom = mc_bool("custom refcount");
	ordered = mc_bool("ordered");
	if (custom) { rrr_fifo_init_custom_refcount(&f, h_incref, h_decref); rrr_fifo_init_custom_refcount(&g, h_incref, h_decref); }
	else { rrr_fifo_init(&f); rrr_fifo_init(&g); }
	int n = mc_choose(mc_tier() ? 5 : 4, "initial entries");
	for (int i = 0; i < n; i++) do_write(&f, &m, 0);
	compare(&f, &m);
	int depth = mc_tier() ? 4 : 3;
	for (int d = 0; d < depth; d++) {
		int op = mc_choose(8, "operation"), r;
		if (op == 7) break;
		mc_log("operation %d", op);
		begin(&m);
		switch (op) {
			case 0: do_write(&f, &m, 1); break;
			case 1:
				r = rrr_fifo_search(&f, search_cb, NULL);
				mc_check(!r == !A.err && (A.stop || A.pos == m.n), "search returned %d at %d of %d", r, A.pos, m.n);
				break;
			case 2:
				A.mode = mc_choose(ordered ? 2 : 4, "call again: no, drop, write, write twice");
				A.writes_left = A.mode == 3 ? 2 : A.mode ? 1 : 0;
				r = rrr_fifo_search_and_replace(&f, sr_cb, NULL, A.mode != 0);
				mc_check(!r == !A.err, "search and replace returned %d", r);
				mc_check(A.stop || A.pos == m.n, "search and replace ended at %d of %d", A.pos, m.n);
				mc_check(A.mode == 0 || A.err || A.phase2, "callback not called again");
				if (A.phase2 && A.mode == 1) A.writes_left = 0;
				mc_check(A.err || A.writes_left == 0, "callback not called often enough");
				break;
			case 3: {
				struct ml w = {0}; A.wq = &w; A.writes_left = ordered ? 0 : 1; A.f = &f;
				r = rrr_fifo_read_clear_forward_all(&f, rcf_cb, NULL);
				mc_check(r == A.err, "destructive read returned %d, expected %d", r, A.err);
				mc_check(A.stop || m.n == 0, "destructive read left %d entries", m.n);
				/* unread entries are first in line, then what was written meanwhile */
				for (int i = 0; i < w.n; i++) m_append(&m, w.id[i], w.order[i]);
				break; }
			case 4:
				A.min = ordered ? (uint64_t) (mc_choose(3, "minimum") * 4) : 0;
				{ int want = 0; for (int i = 0; i < m.n; i++) want += m.order[i] > A.min;
				r = rrr_fifo_read_minimum(&f, NULL, min_cb, NULL, A.min);
				mc_check(r == A.err, "read minimum returned %d", r);
				int seen = 0; for (int i = 0; i < A.pos; i++) seen += m.order[i] > A.min;
				mc_check(A.stop || seen == want, "read minimum saw %d of %d", seen, want); }
				break;
			case 5: {
				int k = mc_choose(3, "entries of the other buffer");
				for (int i = 0; i < k; i++) do_write(&g, &mg, 0);
				mc_check(rrr_fifo_merge(&f, &g) == 0, "merge fails");
				for (int i = 0; i < mg.n; i++) m_append(&m, mg.id[i], mg.order[i]);
				mg.n = 0; compare(&g, &mg);
				if (ordered) d = depth;
				break; }
			case 6:
				rrr_fifo_clear_with_callback(&f, clear_cb, NULL);
				mc_check(A.pos == m.n, "clear called back for %d of %d", A.pos, m.n);
				m.n = 0;
				break;
		}
		compare(&f, &m);
	}
	if (!ordered) { do_write(&f, &m, 0); compare(&f, &m); }
	/* without custom functions the leak check of the explorer counts the blocks */
	mc_check(!custom || live_items == m.n, "%d entries exist, %d are stored", live_items, m.n);
	rrr_fifo_destroy(&f); rrr_fifo_destroy(&g);
	mc_check(!custom || live_items == 0, "%d entries leaked by destroy", live_items);
}

/* ---------------------------------------------------------------- protected FIFO */
static void pcount (struct rrr_fifo_protected *f, const struct ml *m, const struct ml *q) {
	int c = (int) rrr_fifo_protected_get_entry_count(f);
	mc_check(c >= m->n && c <= m->n + q->n, "entry count is %d, but %d entries (and %d queued) are stored", c, m->n, q->n);
	struct rrr_fifo_protected_stats st; rrr_fifo_protected_get_stats(&st, f);
	mc_check((int) (st.total_entries_written - st.total_entries_deleted) == c, "statistics show %d written and %d deleted, %d stored", (int) st.total_entries_written, (int) st.total_entries_deleted, c);
	mc_step();
}
static void protected_histories (void) {
	struct rrr_fifo_protected f; struct ml m = {0}, q = {0};
	next_id = 0; live_items = 0; order_i = 0; custom = 0;
	ordered = mc_bool("ordered");
	mc_check(rrr_fifo_protected_init(&f, h_free) == 0, "init");
	int n = mc_choose(mc_tier() ? 6 : 5, "initial entries"), r;
	for (int i = 0; i < n; i++) { begin(&m); A.calls = 99; mc_check(rrr_fifo_protected_write(&f, wr_cb, NULL) == 0, "write"); }
	pcount(&f, &m, &q);
	int depth = mc_tier() ? 5 : 4;
	for (int d = 0; d < depth; d++) {
		int op = mc_choose(ordered ? 3 : 4, "operation");
		begin(&m);
		if (op == 0) break;
		if (op == 1) { r = rrr_fifo_protected_write(&f, wr_cb, NULL); mc_check(!r == !A.err, "write returned %d", r); }
		else if (op == 2) {
			for (int i = 0; i < q.n; i++) m_append(&m, q.id[i], 0);
			q.n = 0;
			struct ml w = {0}; A.wq = &w; A.writes_left = ordered ? 0 : 1; A.fp = &f;
			r = rrr_fifo_protected_read_clear_forward(&f, rcf_cb, NULL);
			mc_check(r == A.err, "destructive read returned %d, expected %d", r, A.err);
			mc_check(A.stop || m.n == 0, "destructive read left %d entries", m.n);
			for (int i = 0; i < w.n; i++) m_append(&m, w.id[i], 0);
		}
		else {
			A.delayed = 1; A.wq = &q;
			r = rrr_fifo_protected_write_delayed(&f, wr_cb, NULL);
			mc_check(!r == !A.err, "delayed write returned %d although the callback %s", r, A.err ? "failed" : "succeeded");
		}
		pcount(&f, &m, &q);
	}
	mc_check(live_items == m.n + q.n, "%d entries exist, %d are stored", live_items, m.n + q.n);
	if (mc_bool("drain")) {
		for (int i = 0; i < q.n; i++) m_append(&m, q.id[i], 0);
		q.n = 0; begin(&m); struct ml w = {0}; A.wq = &w; A.fp = &f;
		r = rrr_fifo_protected_read_clear_forward(&f, rcf_cb, NULL);
		mc_check(r == A.err && (A.stop || m.n == 0), "drain left %d entries", m.n);
		pcount(&f, &m, &q);
	}
	rrr_fifo_protected_destroy(&f);
	mc_check(live_items == 0, "%d entries leaked by destroy", live_items);
}

/* More entries than one read call takes */
static int many_expect, many_stop, many_count;
static int many_w (char **data, unsigned long *size, uint64_t *order, void *arg) { struct item *i = item_new(); *data = (char *) i; *size = 1; return 0; }
static int many_r (void *arg, char *data, unsigned long size) {
	struct item *i = (struct item *) data;
	mc_check(i->id == many_expect, "entry %d read instead of %d", i->id, many_expect);
	many_expect++; many_count++;
	return RRR_FIFO_SEARCH_FREE | (many_count == many_stop ? RRR_FIFO_SEARCH_STOP : 0);
}
static void many (void) {
	static const int sizes[] = {1, 2, 498, 499, 500, 501, 502, 503, 999, 1000, 1001, 1501};
	static const int stops[] = {0, 1, 2, 498, 499, 500, 501, 502};
	struct rrr_fifo_protected f; next_id = 0; live_items = 0; custom = 0; many_expect = 0;
	int n = mc_pick(sizes, 12, "entries");
	rrr_fifo_protected_init(&f, h_free);
	for (int i = 0; i < n; i++) rrr_fifo_protected_write(&f, many_w, NULL);
	int left = n;
	for (int k = 0; k < 8 && left > 0; k++) {
		many_stop = k < 2 ? mc_pick(stops, 8, "stop after") : 0; many_count = 0;
		mc_check(rrr_fifo_protected_read_clear_forward(&f, many_r, NULL) == 0, "read");
		mc_check(many_count > 0, "nothing read although %d entries are stored", left);
		left -= many_count;
		mc_check((int) rrr_fifo_protected_get_entry_count(&f) == left, "entry count %d, expected %d", (int) rrr_fifo_protected_get_entry_count(&f), left);
		if (k < 3 && mc_bool("write more")) { rrr_fifo_protected_write(&f, many_w, NULL); left++; n++; }
	}
	mc_check(left == 0 && many_expect == n, "%d entries left", left);
	rrr_fifo_protected_destroy(&f);
	mc_check(live_items == 0, "leak");
}
int main (int argc, char **argv) {
	static const struct mc_scenario s[] = {
		{"fifo", fifo_histories, 2, 2, MC_LEAKCHECK, NULL},
		{"protected", protected_histories, 3, 3, MC_LEAKCHECK, NULL},
		{"many", many, -1, -1, MC_LEAKCHECK, NULL},
	};
	return mc_main(argc, argv, "C01", s, 3);
}
