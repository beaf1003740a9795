// FLAVOR: asan
// ENGINE: vio.c
// Send queue: real send_loop.c with the real event queue in virtual time, all histories of pushes, destination states,
// failures and elapsed time, judged by a model list.
#include "mc.h"
#include "vio.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include "lib/log.h"
#include "lib/allocator.h"
#include "lib/rrr_types.h"
#include "lib/event/event.h"
#include "lib/event/event_functions.h"
#include "lib/send_loop.h"
#include "lib/messages/msg_msg.h"
#include "lib/message_holder/message_holder.h"
#include "lib/message_holder/message_holder_struct.h"
#include "lib/util/rrr_time.h"

static struct rrr_event_queue *Q;
static struct rrr_send_loop *L;
#define MAXM 16
struct ent { struct rrr_msg_holder *h; uint64_t index, send_time, stamp; int dest, live, tried, sent, returned; };
static struct ent E[MAXM]; static int nE;
static int order[MAXM], nO;          // model of the list
static int preserve, action, smart, down[2], err_next, ret_err, stopped, in_run, broke;
static uint64_t ttl, timeout, target, last_run, next_index;

static struct ent *find (struct rrr_msg_holder *h) { for (int i = 0; i < nE; i++) if (E[i].h == h) return &E[i]; mc_fail("callback for unknown message"); return NULL; }
static void drop (struct ent *e) { int k = 0; for (int i = 0; i < nO; i++) if (&E[order[i]] != e) order[k++] = order[i]; nO = k; e->live = 0; }
static int ttl_out (const struct ent *e) { return ttl && e->stamp < vio_now() - ttl; }
static int time_out (const struct ent *e) { return timeout && e->send_time && e->send_time < vio_now() - timeout; }
// Entries which come before e in this run must have been handled
static void advance_to (struct ent *e) {
	if (!in_run) { // first callback of a run
		in_run = 1; stopped = 0; last_run = vio_now();
		for (int i = 0; i < nO; i++) E[order[i]].tried = 0;
		if (preserve) for (int i = 0; i < nO; i++) for (int j = i + 1; j < nO; j++) if (E[order[j]].index < E[order[i]].index) { int t = order[i]; order[i] = order[j]; order[j] = t; }
	}
	if (!e && stopped) return; // the rest is left alone
	for (int i = 0; i < nO; ) {
		struct ent *x = &E[order[i]];
		if (x == e) return;
		if (x->tried) { i++; continue; }
		if (ttl_out(x)) { drop(x); continue; }
		if (time_out(x) && action == RRR_SEND_LOOP_ACTION_DROP) { drop(x); continue; }
		if (e) mc_fail("message %d is handled before message %d, which is ahead of it", (int) (e - E), (int) (x - E));
		if (time_out(x)) mc_fail("message %d has timed out and is not returned", (int) (x - E));
		if (!stopped) mc_fail("message %d is not handled although the queue runs", (int) (x - E));
		i++;
	}
	if (e) mc_fail("message %d which has left the queue is handled", (int) (e - E));
}
static int same (const struct rrr_msg_holder *a, const struct rrr_msg_holder *b, void *arg) { (void) arg; return find((struct rrr_msg_holder *) a)->dest != find((struct rrr_msg_holder *) b)->dest; }
static int push_cb (struct rrr_msg_holder *h, void *arg) {
	struct ent *e = find(h);
	mc_check(arg == (void *) &Q, "wrong argument");
	mc_check(e->live, "message %d which has left the queue is sent", (int) (e - E));
	advance_to(e);
	mc_check(!stopped, "message %d is sent although the one ahead of it must wait", (int) (e - E));
	mc_check(!ttl_out(e), "message %d is sent after its lifetime", (int) (e - E));
	mc_check(!time_out(e), "message %d is sent after its timeout", (int) (e - E));
	mc_check(!e->tried, "message %d tried twice in a run", (int) (e - E));
	e->tried = 1;
	mc_step();
	if (err_next) { int r = err_next; err_next = 0; drop(e); if (r == RRR_SEND_LOOP_HARD_ERROR) stopped = 1; return r; }
	if (down[e->dest]) { if (preserve) stopped = 1; return RRR_SEND_LOOP_NOT_READY; }
	e->sent++; drop(e);
	if (smart) {
		rrr_send_loop_entry_touch_related(L, h, same, NULL);
		for (int i = 0; i < nO; i++) if (E[order[i]].dest == e->dest) E[order[i]].send_time = vio_now();
	}
	return RRR_SEND_LOOP_OK;
}
static int return_cb (struct rrr_msg_holder *h, void *arg) {
	struct ent *e = find(h);
	mc_check(arg == (void *) &Q, "wrong argument");
	mc_check(e->live, "message %d which has left the queue is returned", (int) (e - E));
	advance_to(e);
	mc_check(!stopped, "message %d is returned after the run was stopped", (int) (e - E));
	mc_check(action == RRR_SEND_LOOP_ACTION_RETURN, "message returned although it should not be");
	mc_check(!ttl_out(e), "message %d is returned after its lifetime", (int) (e - E));
	mc_check(time_out(e), "message %d is returned before its timeout", (int) (e - E));
	e->returned++; drop(e);
	mc_step();
	if (ret_err) { ret_err = 0; stopped = 1; return 1; }
	return 0;
}
static void check_list (void) {
	mc_check(rrr_send_loop_count(L) == nO, "%d messages in the queue, expected %d", rrr_send_loop_count(L), nO);
	for (int i = 0; i < nE; i++) {
		rrr_msg_holder_lock(E[i].h); int u = E[i].h->usercount; rrr_msg_holder_unlock(E[i].h);
		mc_check(u == 1 + E[i].live, "message %d has %d users, in queue %d", i, u, E[i].live);
		mc_check(E[i].sent + E[i].returned <= 1, "message %d sent %d times and returned %d times", i, E[i].sent, E[i].returned);
	}
}
static void end_run (void) {
	advance_to(NULL);
	in_run = 0;
	check_list();
}
static void run_cb (void *arg) { mc_check(arg == (void *) &Q, "wrong argument"); end_run(); }
static int on_wait (int64_t us) {
	mc_check(!in_run, "run not ended");
	if (nO) {
		mc_check(us >= 0 && us <= 250000, "%d messages wait and the queue sleeps for %lld us", nO, (long long) us);
		mc_check(vio_now() - last_run <= 260000, "messages wait and the queue has not run for %llu us", (unsigned long long) (vio_now() - last_run));
		check_list();
	}
	if (vio_now() >= target) { rrr_event_dispatch_break(Q); broke = 1; return 0; }
	return 0;
}
static void settle (uint64_t us) {
	target = vio_now() + us; broke = 0;
	rrr_event_dispatch(Q, 0, NULL, NULL);
	in_run = 0;
	check_list();
}
static struct ent *entry (int dest, uint64_t stamp) {
	struct rrr_msg_msg *m; struct ent *e = &E[nE++];
	memset(e, 0, sizeof *e);
	if (rrr_msg_msg_new_empty(&m, MSG_TYPE_MSG, MSG_CLASS_DATA, stamp, 0, 0)) mc_error("msg");
	if (rrr_msg_holder_new(&e->h, MSG_TOTAL_SIZE(m), NULL, 0, 0, m)) mc_error("holder");
	e->dest = dest; e->stamp = stamp;
	return e;
}
static void push (struct ent *e) {
	rrr_msg_holder_lock(e->h);
	rrr_send_loop_entry_prepare(L, e->h);
	rrr_send_loop_push(L, e->h);
	rrr_msg_holder_unlock(e->h);
	e->index = ++next_index; e->send_time = vio_now(); e->live = 1;
	order[nO++] = (int) (e - E); last_run = vio_now();
}
static void history (void) {
	vio_reset(); vio_on_wait = on_wait;
	memset(E, 0, sizeof E); nE = nO = 0; down[0] = down[1] = err_next = ret_err = stopped = in_run = 0; next_index = 0;
	preserve = mc_choose(2, "preserve order"); ttl = mc_choose(2, "ttl") ? 1000000 : 0; action = mc_choose(3, "timeout action");
	timeout = action == RRR_SEND_LOOP_ACTION_RETRY ? 0 : 600000; smart = timeout ? mc_choose(2, "smart") : 0;
	if (rrr_event_queue_new(&Q)) mc_error("queue");
	mc_check(rrr_send_loop_new(&L, Q, "verif", preserve, ttl, timeout, (enum rrr_send_loop_action) action, push_cb, return_cb, run_cb, &Q) == 0 && L, "new");
	last_run = vio_now();
	int depth = mc_tier() ? 5 : 4;
	down[0] = mc_choose(2, "first destination down");
	push(entry(0, vio_now())); push(entry(1, vio_now())); if (!mc_tier() || mc_choose(2, "third")) push(entry(0, vio_now() - 700000)); 
	settle(0);
	for (int i = 0; i < depth; i++) {
		struct ent *e; int did;
		switch (mc_choose(action == RRR_SEND_LOOP_ACTION_RETURN ? 11 : 10, "op")) {
			case 0: goto done;
			case 1: push(entry(0, vio_now())); break;
			case 2: push(entry(1, vio_now() - 700000)); break;
			case 3: down[0] ^= 1; break;
			case 4: down[1] ^= 1; break;
			case 5: settle(310000); break;
			case 6: settle(900000); break;
			case 7: err_next = mc_choose(2, "error") ? RRR_SEND_LOOP_HARD_ERROR : RRR_SEND_LOOP_SOFT_ERROR; break;
			case 8: // a message which was taken out of the queue is put back in front
				e = entry(0, vio_now() - (uint64_t) (ttl && mc_choose(2, "old") ? 1100000 : 0));
				rrr_msg_holder_lock(e->h);
				rrr_send_loop_entry_prepare(L, e->h); e->index = ++next_index;
				e->send_time = e->h->send_time = vio_now() - (uint64_t) (timeout && mc_choose(2, "timed out") ? 700000 : 0);
				rrr_send_loop_unshift_if_timed_out(&did, L, e->h);
				if (did != (ttl_out(e) || time_out(e))) mc_fail("message put back %d, lifetime over %d, timed out %d", did, ttl_out(e), time_out(e));
				if (!did && mc_choose(2, "put back anyway")) { rrr_send_loop_unshift(L, e->h); did = 1; }
				rrr_msg_holder_unlock(e->h);
				if (did) { memmove(order + 1, order, (size_t) nO * sizeof *order); order[0] = (int) (e - E); nO++; e->live = 1; last_run = vio_now(); }
				break;
			case 10: ret_err = 1; break;
			case 9:
				rrr_send_loop_clear(L);
				while (nO) drop(&E[order[0]]);
				rrr_send_loop_event_add_or_remove(L);
				if (rrr_send_loop_event_pending(L)) mc_fail("event remains for an empty queue");
				break;
		}
		if (nE + 2 >= MAXM) break;
	}
	settle(0);
	// everything leaves the queue in the end
	err_next = ret_err = 0;
	if (!down[0] && !down[1]) { settle(30000); if (nO) mc_fail("%d messages remain although both destinations accept messages", nO); }
	else if (timeout || ttl) {
		settle(2000000); settle(700000); settle(1000000);
		if (nO && !preserve) mc_fail("%d messages remain after their time", nO);
	}
	done:
	for (int i = 0; i < nE; i++) mc_obs((uint64_t) (E[i].sent * 4 + E[i].returned * 2 + E[i].live));
	rrr_send_loop_destroy(L); rrr_event_queue_destroy(Q);
	nO = 0; for (int i = 0; i < nE; i++) { rrr_msg_holder_lock(E[i].h); if (E[i].h->usercount != 1) mc_fail("message leaked"); rrr_msg_holder_decref_while_locked_and_unlock(E[i].h); }
}
static void names (void) {
	static const char *const n[] = { "retry", "RETRY", "Drop", "return", "", "retr", "dropp", "x" }; static const int v[] = { 0, 0, 1, 2, -1, -1, -1, -1 };
	int k = mc_choose(8, "name"); enum rrr_send_loop_action a; int r = rrr_send_loop_action_from_str(&a, n[k]);
	if ((r == 0) != (v[k] >= 0) || (r == 0 && (int) a != v[k])) mc_fail("action '%s' gives %d %d", n[k], r, (int) a);
	mc_step();
}
static const struct mc_scenario sc[] = {
	{ "history", history, -1, -1, MC_LEAKCHECK, NULL },
	{ "names", names, -1, -1, MC_LEAKCHECK, NULL },
};
int main (int c, char **v) { return mc_main(c, v, "C28", sc, (int) (sizeof sc / sizeof *sc)); }
