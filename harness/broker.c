// FLAVOR: sched
// ENGINE: sched.c
/* C02: message broker with real FIFO, slot and message holders under every schedule up to a preemption bound.
 * The event queue is replaced by a counter per reader (see C05 for the event queue itself): an amount passed stays
 * until the reader has consumed it, exactly like the deferral of amounts in the event queue. */
#include <sched.h>
#include "mc.h"
#include "msched.h"
#include "lib/rrr_types.h"
#include "lib/allocator.h"
#include "lib/log.h"
#include "lib/message_broker.h"
#include "lib/message_holder/message_holder.h"
#include "lib/message_holder/message_holder_struct.h"
#include "lib/message_holder/message_holder_collection.h"
#include "lib/message_holder/message_holder_slot.h"
#include "lib/messages/msg_msg.h"
#include "lib/poll_helper.h"
#include "lib/event/event.h"
#include "lib/event/event_functions.h"

#define MAXM 12
#define MAXR 3
enum { M_FIFO, M_FIFO_SPLIT, M_SLOT, M_SLOT_SPLIT };
static const char *mode_name[] = {"buffer", "buffer duplicate", "slot", "slot duplicate"};
static struct rrr_message_broker *B;
static struct rrr_message_broker_costumer *S, *S2, *R[MAXR];
static struct rrr_event_queue *const EV0 = (void *) 0x1000;
static long notified[MAXR]; static int n_readers, senders_left, n_msgs, mode, stop_readers;
static struct { int accepted; int got[MAXR]; int seq[MAXR]; int stream; } M[MAXM];
static int seqno, delivered, hooks_called, cancel_count, cancelled;
static int random_fixed;

/* ---- replaced environment ---- */
int rrr_event_pass (struct rrr_event_queue *q, uint8_t function, uint8_t amount, int (*cb)(void *), void *arg) {
	long i = ((char *) q - (char *) EV0) / 16;
	(void)cb; (void)arg;
	mc_check(function == RRR_EVENT_FUNCTION_MESSAGE_BROKER_DATA_AVAILABLE, "notified the wrong event function %d", function);
	mc_check(i >= 0 && i < n_readers, "notified someone who is not a listener");
	sched_point("pass");
	notified[i] += amount;
	mc_log("   notify R%ld by %d", i, amount);
	return 0;
}
rrr_u64 rrr_rand (void) { return random_fixed ? 0 : (rrr_u64) mc_choose(n_readers, "random listener"); }

static int pre_buffer (struct rrr_msg_holder *e, void *arg) { (void)arg; hooks_called++; mc_check(e->message != NULL, "hook without a message"); return 0; }
static int never_cancel (void *arg) { (void)arg; return 0; }
/* cancels after some waits so that a stuck writer is seen as such */
static int stuck_cancel (void *arg) { (void)arg; sched_point("cancel?"); return 0; }

static struct rrr_msg_msg *mkmsg (int id, size_t *len) {
	struct rrr_msg_msg *m = NULL;
	mc_check(rrr_msg_msg_new_empty(&m, MSG_TYPE_MSG, MSG_CLASS_DATA, (uint64_t) id + 100, 0, 3) == 0, "msg");
	memset(MSG_DATA_PTR(m), 'a' + id, 3);
	*len = MSG_TOTAL_SIZE(m);
	return m;
}
static int new_id (int stream) { int i = n_msgs++; if (i >= MAXM) mc_error("too many"); M[i].stream = stream; return i; }

struct sctx { struct rrr_message_broker_costumer *to; int ops[4]; int n; int stream; int again; int cur; };
static int write_cb (struct rrr_msg_holder *e, void *arg) {
	struct sctx *s = arg; int ret = 0;
	int op = s->cur;
	if (op == 3) ret = RRR_MESSAGE_BROKER_DROP;
	else {
		int id = new_id(s->stream); size_t len;
		e->message = mkmsg(id, &len); e->data_length = len;
		M[id].accepted = 1;
		if (op == 1 && s->again-- > 0) ret = RRR_MESSAGE_BROKER_AGAIN;
	}
	rrr_msg_holder_unlock(e);
	return ret;
}
static void sender (void *arg) {
	struct sctx *s = arg;
	for (int i = 0; i < s->n; i++) {
		struct rrr_msg_holder *h = NULL; struct rrr_msg_holder_collection c = {0}; size_t len; int id;
		s->cur = s->ops[i]; s->again = 1;
		switch (s->ops[i]) {
		case 0: case 1: case 3:
			mc_check(rrr_message_broker_write_entry(s->to, NULL, 0, 0, NULL, write_cb, s, never_cancel, NULL) == 0, "write failed");
			break;
		case 2: /* a message owned by the caller, the caller releases its own reference later */
			id = new_id(s->stream);
			mc_check(rrr_msg_holder_new(&h, 0, NULL, 0, 0, NULL) == 0, "holder");
			h->message = mkmsg(id, &len); h->data_length = len;
			M[id].accepted = 1;
			mc_check(rrr_message_broker_incref_and_write_entry_unsafe(s->to, h, NULL, never_cancel, NULL) == 0, "incref write failed");
			rrr_msg_holder_decref(h);
			break;
		case 4:
			for (int k = 0; k < 2; k++) {
				id = new_id(s->stream); M[id].accepted = 1;
				mc_check(rrr_msg_holder_new(&h, 0, NULL, 0, 0, NULL) == 0, "holder");
				h->message = mkmsg(id, &len); h->data_length = len;
				RRR_LL_APPEND(&c, h);
			}
			mc_check(rrr_message_broker_write_entries_from_collection_unsafe(s->to, &c, NULL, never_cancel, NULL) == 0, "collection write failed");
			mc_check(RRR_LL_COUNT(&c) == 0, "collection not emptied");
			break;
		case 5:
			id = new_id(s->stream); M[id].accepted = 1;
			mc_check(rrr_msg_holder_new(&h, 0, NULL, 0, 0, NULL) == 0, "holder");
			h->message = mkmsg(id, &len); h->data_length = len;
			mc_check(rrr_message_broker_clone_and_write_entry(s->to, h, NULL) == 0, "clone write failed");
			rrr_msg_holder_decref(h);
			break;
		}
	}
	senders_left--;
}

struct rctx { int i; int budget; int max; int flags; int forward; int got; };
static struct rctx RC[MAXR];
static int read_cb (struct rrr_msg_holder *e, void *arg) {
	struct rctx *r = arg; int i = r->i;
	sched_check_live(e, sizeof(*e), "message holder given to a reader");
	mc_check(e->usercount >= 1, "user count %d of a delivered message", e->usercount);
	mc_check(e->message != NULL, "delivered without a message");
	sched_check_live(e->message, 8, "message given to a reader");
	struct rrr_msg_msg *m = e->message;
	int id = (int) m->timestamp - 100;
	mc_check(id >= 0 && id < n_msgs && MSG_DATA_LENGTH(m) == 3 && MSG_DATA_PTR(m)[0] == 'a' + id && MSG_DATA_PTR(m)[2] == 'a' + id, "reader got a damaged message");
	mc_check(e->source != NULL, "message without a source");
	mc_check(!M[id].got[i], "message %d handed twice to reader %d", id, i);
	M[id].got[i] = 1; M[id].seq[i] = ++seqno; delivered++; r->got++;
	mc_log("   R%d gets message %d", i, id);
	sched_point("callback");
	rrr_msg_holder_unlock(e);
	return 0;
}
static int reader_wake (void *arg) { struct rctx *r = arg; return notified[r->i] > 0 || senders_left == 0; }
static void reader (void *arg) {
	struct rctx *r = arg;
	while (r->max == 0 || r->got < r->max) {
		sched_wait_until(reader_wake, r, "reader waits for a notification");
		if (notified[r->i] <= 0) return;
		long n = notified[r->i] < r->budget ? notified[r->i] : r->budget;
		uint16_t amount = (uint16_t) n, before = amount;
		/* the amount is taken out of the event queue first and what is left is put back afterwards */
		notified[r->i] -= n;
		int ret = rrr_message_broker_poll_delete(&amount, R[r->i], r->flags, read_cb, r);
		mc_check(ret == 0, "poll returned %d", ret);
		mc_check(amount <= before, "more left (%u) than offered (%u)", amount, before);
		notified[r->i] += amount;
		if (amount == before) { if (senders_left == 0) return; sched_yield(); }
	}
}

static int split (void) { return mode == M_FIFO_SPLIT || mode == M_SLOT_SPLIT; }
static int slot (void) { return mode == M_SLOT || mode == M_SLOT_SPLIT; }
static void start (int md, int readers) {
	sched_reset();
	memset(M, 0, sizeof(M)); memset(notified, 0, sizeof(notified)); memset(RC, 0, sizeof(RC));
	n_readers = readers; senders_left = n_msgs = seqno = delivered = hooks_called = stop_readers = 0; mode = md; S2 = NULL; random_fixed = 0;
	mc_log("storage: %s, %d reader(s)", mode_name[md], readers);
	mc_check(rrr_message_broker_new(&B, NULL) == 0, "new");
	mc_check(rrr_message_broker_costumer_register(&S, B, "sender", slot(), pre_buffer, NULL) == 0, "register");
	for (int i = 0; i < readers; i++) {
		char name[8] = "reader0"; name[6] = (char) ('0' + i);
		mc_check(rrr_message_broker_costumer_register(&R[i], B, name, 0, pre_buffer, NULL) == 0, "register");
		rrr_message_broker_costumer_event_queue_set(B, name, (void *) ((char *) EV0 + 16 * i));
		mc_check(rrr_message_broker_sender_add(R[i], S) == 0, "sender add");
		mc_check(rrr_message_broker_senders_count(R[i]) == 1, "sender count");
		RC[i] = (struct rctx) {.i = i, .budget = 2};
	}
	if (split()) mc_check(rrr_message_broker_setup_split_output_buffer(S, (rrr_length) readers) == 0, "split");
}
static void check_delivery (int all) {
	for (int id = 0; id < n_msgs; id++) {
		int n = 0;
		for (int i = 0; i < n_readers; i++) n += M[id].got[i];
		if (split()) { if (all) for (int i = 0; i < n_readers; i++) mc_check(M[id].got[i], "message %d was never handed to reader %d", id, i); }
		else { mc_check(n <= 1, "message %d was handed to %d readers", id, n); mc_check(!all || n == 1, "message %d was never handed to a reader", id); }
	}
	for (int i = 0; i < n_readers; i++) for (int a = 0; a < n_msgs; a++) for (int b = a + 1; b < n_msgs; b++)
		if (M[a].stream == M[b].stream && M[a].got[i] && M[b].got[i])
			mc_check(M[a].seq[i] < M[b].seq[i], "reader %d got message %d before message %d", i, b, a);
}
static void teardown (void) {
	rrr_message_broker_costumer_unregister(B, S);
	if (S2) rrr_message_broker_costumer_unregister(B, S2);
	for (int i = 0; i < n_readers; i++) rrr_message_broker_costumer_unregister(B, R[i]);
	rrr_message_broker_unregister_all(B);
	rrr_message_broker_destroy(B);
	sched_leak_check();
}
static void finish (int all) {
	check_delivery(all);
	unsigned int count; int rl;
	mc_check(rrr_message_broker_get_entry_count_and_ratelimit(&count, &rl, S) == 0, "count");
	if (all) mc_check(count == 0, "%u entries reported when everything was delivered", count);
	struct rrr_fifo_protected_stats st;
	mc_check(rrr_message_broker_get_fifo_stats(&st, S) == 0, "stats");
	mc_check((int) st.total_entries_written == n_msgs, "%d entries written according to statistics, expected %d", (int) st.total_entries_written, n_msgs);
	if (all) mc_check((int) st.total_entries_deleted == n_msgs, "%d entries deleted according to statistics, expected %d", (int) st.total_entries_deleted, n_msgs);
	mc_check(hooks_called >= n_msgs, "buffer hook not called for each message");
	for (int id = 0; id < n_msgs; id++) for (int i = 0; i < n_readers; i++) mc_obs((uint64_t) M[id].seq[i]);
	teardown();
}
/* messages left to a reader must be covered by its notifications: run single threaded poll rounds with the amounts it
 * still has, nothing may remain */
static void drain (void) {
	for (int round = 0; round < 12; round++) for (int i = 0; i < n_readers; i++) {
		if (notified[i] <= 0) continue;
		uint16_t amount = (uint16_t) notified[i];
		notified[i] = 0;
		RC[i].max = 0;
		mc_check(rrr_message_broker_poll_delete(&amount, R[i], 0, read_cb, &RC[i]) == 0, "poll");
		notified[i] += amount;
	}
}
static struct sctx SC[2];
static void pick_ops (struct sctx *s, int n, const int *set, int nset) {
	s->n = n;
	for (int i = 0; i < n; i++) s->ops[i] = mc_pick(set, nset, "write operation");
}
/* one sender, one or two readers */
static void run_delivery (int md, int readers, int nops, const int *set, int nset, int vary_budget) {
	start(md, readers);
	for (int i = 0; i < readers; i++) { RC[i].budget = vary_budget ? 1 + mc_choose(2, "budget") : 2; RC[i].flags = RRR_MESSAGE_BROKER_POLL_F_CHECK_BACKSTOP; }
	SC[0] = (struct sctx) {.to = S, .stream = 0};
	pick_ops(&SC[0], nops, set, nset);
	senders_left = 1;
	sched_spawn("sender", sender, &SC[0]);
	for (int i = 0; i < readers; i++) sched_spawn(i ? "reader1" : "reader0", reader, &RC[i]);
	sched_run();
	drain();
	finish(1);
}
static const int all_ops[] = {0, 2, 4, 5, 1, 3}, few_ops[] = {0, 4, 2};
static void fifo_1 (void) { run_delivery(M_FIFO, 1, 2, all_ops, 6, 1); }
static void fifo_2 (void) { run_delivery(M_FIFO, 2, 2, few_ops, 3, 0); }
static void split_2 (void) { run_delivery(M_FIFO_SPLIT, 2, 2, few_ops, 3, 0); }
static void slot_1 (void) { run_delivery(M_SLOT, 1, 2, all_ops, 6, 0); }
static void slot_2 (void) { run_delivery(M_SLOT, 2, 2, few_ops, 3, 0); }
static void slot_split (void) { run_delivery(M_SLOT_SPLIT, 2, 2, few_ops, 3, 0); }
static void two_writers (void) {
	start(mc_choose(4, "storage"), 1);
	SC[0] = (struct sctx) {.to = S, .stream = 0}; SC[1] = (struct sctx) {.to = S, .stream = 1};
	pick_ops(&SC[0], 1, few_ops, 3); pick_ops(&SC[1], 1, few_ops, 3);
	senders_left = 2;
	sched_spawn("sender0", sender, &SC[0]); sched_spawn("sender1", sender, &SC[1]);
	sched_spawn("reader0", reader, &RC[0]);
	sched_run(); drain(); finish(1);
}
/* a reader which stops while messages remain: these stay, in order, and a destroy releases them */
static void stops (void) {
	start(mc_choose(2, "storage"), 1);
	RC[0].max = 1; RC[0].budget = 1 + mc_choose(2, "budget"); if (RC[0].budget == 2) RC[0].max = mc_choose(3, "max");
	SC[0] = (struct sctx) {.to = S, .stream = 0};
	pick_ops(&SC[0], 2, few_ops, 3);
	senders_left = 1;
	sched_spawn("sender", sender, &SC[0]);
	if (RC[0].max) sched_spawn("reader0", reader, &RC[0]);
	sched_run();
	int k = mc_choose(2, "continue");
	if (k) drain();
	else mc_check(notified[0] >= n_msgs - RC[0].got, "%d messages wait but only %ld are notified", n_msgs - RC[0].got, notified[0]);
	finish(k);
}
/* A message that comes back to where it was first read from is swallowed when the check is on, delivered otherwise */
static int fwd_cb (struct rrr_msg_holder *e, void *arg) {
	struct rrr_message_broker_costumer *to = arg;
	int r = rrr_message_broker_incref_and_write_entry_unsafe(to, e, NULL, never_cancel, NULL);
	rrr_msg_holder_unlock(e);
	return r;
}
static int loop_got;
static int loop_cb (struct rrr_msg_holder *e, void *arg) { (void)arg; loop_got++; mc_check(e->source == S, "source of the message changed"); rrr_msg_holder_unlock(e); return 0; }
static void backstop (void) {
	/* S -> R0 -> S */
	start(M_FIFO, 1); random_fixed = 1;
	int flag = mc_choose(2, "backstop"), sp = mc_choose(2, "duplicate from reader");
	rrr_message_broker_costumer_event_queue_set(B, "sender", (void *) EV0);
	mc_check(rrr_message_broker_sender_add(S, R[0]) == 0, "add");
	if (sp) mc_check(rrr_message_broker_setup_split_output_buffer(R[0], 1) == 0, "split");
	SC[0] = (struct sctx) {.to = S, .stream = 0, .n = 1, .ops = {mc_pick(few_ops, 3, "op")}};
	senders_left = 1; sender(&SC[0]);
	uint16_t amount = 10;
	mc_check(rrr_message_broker_poll_delete(&amount, R[0], RRR_MESSAGE_BROKER_POLL_F_CHECK_BACKSTOP, fwd_cb, R[0]) == 0, "poll");
	mc_check(10 - amount == n_msgs, "not all messages passed on");
	loop_got = 0; amount = 10;
	mc_check(rrr_message_broker_poll_delete(&amount, S, flag ? RRR_MESSAGE_BROKER_POLL_F_CHECK_BACKSTOP : 0, sp ? read_cb : loop_cb, &RC[0]) == 0, "poll");
	mc_check(10 - amount == n_msgs, "returning messages were not consumed, %d left of 10, %d messages", amount, n_msgs);
	if (!sp) mc_check(loop_got == (flag ? 0 : n_msgs), "backstop check %s: %d of %d returning messages were delivered", flag ? "on" : "off", loop_got, n_msgs);
	mc_obs((uint64_t) (flag * 2 + sp));
	teardown();
}
/* two senders, of which one is shared by two readers */
#define SHARED_KEY "shared-sender: non-duplicating sender with two readers, one of which also reads another sender: a reader spends a notification of one sender on the other sender and that message then waits without any notification"
static void shared_sender (void) {
	start(M_FIFO, 2);
	mc_check(rrr_message_broker_costumer_register(&S2, B, "sender2", 0, pre_buffer, NULL) == 0, "register");
	mc_check(rrr_message_broker_sender_add(R[0], S2) == 0, "sender add");
	SC[0] = (struct sctx) {.to = S, .stream = 0, .n = 1, .ops = {0}};
	SC[1] = (struct sctx) {.to = S2, .stream = 1, .n = 1, .ops = {0}};
	senders_left = 2; 
	sender(&SC[0]); random_fixed = 1; sender(&SC[1]);
	sched_spawn("reader0", reader, &RC[0]); sched_spawn("reader1", reader, &RC[1]);
	sched_run(); drain();
	for (int id = 0; id < n_msgs; id++) if (!M[id].got[0] && !M[id].got[1])
		mc_fail_key(SHARED_KEY, "message %d waits although no reader which could take it is notified (another reader of the other sender was)", id);
	teardown();
}
static void unique_id_t (void *arg) { uint64_t *v = arg; for (int i = 0; i < 2; i++) mc_check(rrr_message_broker_get_next_unique_id(&v[i], S) == 0, "id"); senders_left--; }
static void unique_id (void) {
	static uint64_t v[2][2];
	start(mc_choose(2, "slot") ? M_SLOT : M_FIFO, 1);
	sched_spawn("a", unique_id_t, v[0]); sched_spawn("b", unique_id_t, v[1]); sched_run();
	for (int i = 0; i < 4; i++) mc_obs(v[i/2][i%2]);
	for (int i = 0; i < 4; i++) for (int j = i + 1; j < 4; j++) mc_check(v[i/2][i%2] != v[j/2][j%2], "identifier %d was given out twice", (int) v[i/2][i%2]);
	teardown();
}
static const struct mc_scenario SCN[] = {
	{"fifo_1", fifo_1, 2, 3, 0, 0},
	{"fifo_2", fifo_2, 1, 2, 0, 0},
	{"split_2", split_2, 1, 2, 0, 0},
	{"slot_1", slot_1, 2, 3, 0, 0},
	{"slot_2", slot_2, 1, 2, 0, 0},
	{"slot_split", slot_split, 1, 2, 0, 0},
	{"two_writers", two_writers, 1, 2, 0, 0},
	{"stops", stops, 2, 3, 0, 0},
	{"backstop", backstop, 1, 2, 0, 0},
	{"shared_sender", shared_sender, 2, 3, 0, 0},
	{"unique_id", unique_id, 3, 5, 0, 0},
};
int main (int argc, char **argv) { sched_fail_on_livelock = 1; return mc_main(argc, argv, "C02", SCN, sizeof(SCN)/sizeof(SCN[0])); }
