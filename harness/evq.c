// FLAVOR: asan
// ENGINE: vio.c
/* C05: the real event queue on libevent with virtual time. Passes from other threads are atomic additions to an
 * eventfd, so it suffices to explore at which points between the steps of the dispatcher they are made. */
#include <errno.h>
#include <event2/event.h>
#include "mc.h"
#include "vio.h"
#include "lib/rrr_types.h"
#include "lib/allocator.h"
#include "lib/log.h"
#include "lib/event/event.h"
#include "lib/event/event_functions.h"
#include "lib/event/event_struct.h"

#define NF 2
static struct rrr_event_queue *Q;
static const uint8_t fn[NF] = {RRR_EVENT_FUNCTION_MESSAGE_BROKER_DATA_AVAILABLE, RRR_EVENT_FUNCTION_MMAP_CHANNEL_DATA_AVAILABLE};
static uint64_t passed[NF], delivered[NF], outstanding[NF];
static int paused[NF], pause_left[NF], passes_left, decisions, exit_after, calls, in_cb, fault_left, exit_ret;
static uint64_t paused_since;
static int big, sticky[NF], sticky_kind[NF];

static void maybe_pass (const char *where);
static int do_pass (int f, uint8_t amount, int fault);
static int handle (int f, uint16_t *amount) {
	uint16_t a = *amount;
	calls++;
	mc_check(!in_cb, "callback called from within a callback");
	in_cb = 1;
	mc_check(a > 0, "callback called with amount 0");
	mc_check(!paused[f], "callback called for function %d while paused", f);
	mc_check(delivered[f] + a <= passed[f], "function %d got %" PRIu64 "+%u of %" PRIu64 " passed", f, delivered[f], a, passed[f]);
	mc_step();
	int left = 0;
	if (sticky[f] > 0) { sticky[f]--; left = sticky_kind[f] == 1 ? a : sticky_kind[f] == 2 ? a - 1 : 1; if (left > a) left = a; }
	else if (decisions > 0) {
		int k = mc_dev(a > 1 && !big ? 4 : 3, "handled: all|none|one|all but one");
		if (k) decisions--;
		left = k == 0 ? 0 : k == 1 ? a : k == 2 ? a - 1 : 1;
		if (k) { sticky_kind[f] = k; sticky[f] = 5 * mc_choose(2, "leaves once|until deferred"); }
		if (mc_dev(2, "ask for pause")) pause_left[f] = 1 + mc_choose(2, "pause length");
	}
	delivered[f] += (uint64_t) (a - left);
	mc_log("  f%d called with %u leaves %d", f, a, left);
	*amount = (uint16_t) left;
	maybe_pass("in callback");
	in_cb = 0;
	if (exit_after > 0 && --exit_after == 0) { mc_log("  callback returns %d", exit_ret); return exit_ret; }
	return 0;
}
static int cb0 (RRR_EVENT_FUNCTION_ARGS) { mc_check(arg == (void *) 0x77, "wrong argument"); return handle(0, amount); }
static int cb1 (RRR_EVENT_FUNCTION_ARGS) { mc_check(arg == (void *) 0x88, "wrong argument"); return handle(1, amount); }
static void pause_cb (RRR_EVENT_FUNCTION_PAUSE_ARGS) {
	int f = (int) (intptr_t) callback_arg;
	mc_check(is_paused == !!paused[f], "pause callback of function %d told paused=%d", f, is_paused);
	if (pause_left[f] > 0) { pause_left[f]--; *do_pause = 1; paused[f] = 1; }
	else { *do_pause = 0; paused[f] = 0; }
	if (is_paused || *do_pause) mc_log("  f%d pause %d -> %d", f, is_paused, *do_pause);
	maybe_pass("in pause callback");
}
static int retry_mode, retries;
static int retry_cb (void *arg) { (void)arg; retries++; return retry_mode == 2 && retries == 1 ? 1 : 0; }
static int fault_now;
static long io (int op, int fd, size_t n) {
	if (op == VIO_WRITE && fault_now && (n == 8 || n == 1)) { fault_now--; return -EAGAIN; }
	return (long) n;
}
static int do_pass (int f, uint8_t amount, int fault) {
	retries = 0; fault_now = fault; retry_mode = fault ? fault : 0;
	/* fault 1: one failure then success, 2: failure and the caller gives up */
	if (fault == 2) fault_now = 1;
	mc_log("  pass %u to f%d%s", amount, f, fault ? " (counter full)" : "");
	int r = rrr_event_pass(Q, fn[f], amount, retry_cb, NULL);
	fault_now = 0;
	if (fault == 2) { mc_check(r != 0, "pass reports success although nothing was stored"); return r; }
	mc_check(r == 0, "pass failed with %d", r);
	mc_check(retries == (fault ? 1 : 0), "retry callback called %d times", retries);
	passed[f] += amount;
	return r;
}
static const uint8_t amounts[] = {1, 3, 255};
static void maybe_pass (const char *where) {
	if (passes_left <= 0) return;
	int k = mc_dev(1 + NF, where);
	if (!k) return;
	passes_left--;
	do_pass(k - 1, amounts[mc_choose(3, "amount")], 0);
}
static int idle_rounds;
static int on_wait (int64_t us) {
	if (us < 0 || us > 900) idle_rounds++;
	if (passes_left > 0) { int before = passes_left; maybe_pass("while waiting"); if (passes_left != before) { idle_rounds = 0; return 1; } }
	if (us < 0) {
		for (int f = 0; f < NF; f++) mc_check(delivered[f] == passed[f], "the queue waits for new events although function %d has %" PRIu64 " undelivered", f, passed[f] - delivered[f]);
		rrr_event_dispatch_break(Q);
		return 0;
	}
	return 0;
}
static void start (void) {
	vio_reset(); vio_on_wait = on_wait; vio_io = io;
	memset(passed, 0, sizeof(passed)); memset(delivered, 0, sizeof(delivered)); memset(paused, 0, sizeof(paused)); memset(pause_left, 0, sizeof(pause_left));
	passes_left = decisions = exit_after = calls = in_cb = fault_now = idle_rounds = big = 0; memset(sticky, 0, sizeof(sticky)); exit_ret = 0;
	mc_check(rrr_event_queue_new(&Q) == 0, "new");
	rrr_event_function_set_with_arg(Q, fn[0], cb0, (void *) 0x77, "f0");
	rrr_event_function_set_with_arg(Q, fn[1], cb1, (void *) 0x88, "f1");
}
static void end (void) {
	for (int f = 0; f < NF; f++) { mc_check(delivered[f] == passed[f], "%" PRIu64 " of %" PRIu64 " delivered to function %d", delivered[f], passed[f], f); mc_obs(delivered[f]); }
	mc_obs((uint64_t) calls);
	rrr_event_queue_destroy(Q);
}
/* amounts, what callbacks leave, pauses and passes at every point; ends when the queue waits for ever */
static void flow (void) {
	start();
	int np = mc_choose(2, "pause callback");
	if (np) for (int f = 0; f < NF; f++) rrr_event_callback_pause_set(Q, fn[f], pause_cb, (void *) (intptr_t) f); { int k = np ? mc_choose(3, "paused from the start") : 0; pause_left[0] = k > 0; pause_left[1] = k > 1; }
	if (mc_choose(2, "priority")) mc_check(rrr_event_function_priority_set(Q, fn[1], RRR_EVENT_PRIORITY_HIGH) == 0, "prio");
	passes_left = 2; decisions = 6;
	do_pass(0, amounts[mc_choose(3, "amount")], mc_choose(2, "counter full"));
	if (mc_choose(2, "second function")) do_pass(1, 2, 0);
	if (mc_dev(2, "failing pass")) do_pass(0, 7, 2);
	rrr_event_dispatch(Q, 0, NULL, NULL);
	end();
}
/* periodic function, stop requests and errors */
static int periodic_calls, periodic_stop; static uint64_t periodic_last;
static int periodic (RRR_EVENT_FUNCTION_PERIODIC_ARGS) {
	mc_check(arg == (void *) 0x99, "wrong periodic argument");
	if (++periodic_calls > 1) mc_check(vio_now() - periodic_last >= 49000 && vio_now() - periodic_last < 60000, "periodic function called after %d us, interval is 50000", (int) (vio_now() - periodic_last));
	periodic_last = vio_now();
	maybe_pass("in periodic");
	return periodic_calls >= periodic_stop ? exit_ret : 0;
}
static int on_wait_p (int64_t us) {
	mc_check(us >= 0 && us <= 51000, "waits longer than the periodic interval");
	maybe_pass("while waiting");
	if (vio_now() > 1700000000000000ULL + 2000000) mc_fail("dispatch does not stop");
	return 0;
}
static void stop (void) {
	start(); vio_on_wait = on_wait_p;
	int who = mc_choose(3, "who stops: periodic|callback|dispatch_exit in callback"), kind = mc_choose(2, "exit|error");
	exit_ret = kind ? RRR_EVENT_ERR : RRR_EVENT_EXIT;
	periodic_calls = 0; periodic_stop = who == 0 ? 1 + mc_choose(3, "after") : 4; passes_left = 2;
	exit_after = who ? 1 + mc_choose(2, "after calls") : 0;
	do_pass(0, 3, 0); if (exit_after == 2) do_pass(1, 1, 0);
	decisions = 2;
	int ret = rrr_event_dispatch(Q, 50000, periodic, (void *) 0x99);
	mc_check((ret != 0) == kind, "dispatch returned %d after a stop by %s", ret, kind ? "error" : "exit");
	if (who == 0) mc_check(periodic_calls == periodic_stop, "periodic function called %d times, expected %d", periodic_calls, periodic_stop);
	mc_obs((uint64_t) (calls * 16 + periodic_calls));
	/* a second dispatch starts clean and delivers what is left, if the first was ended by periodic */
	vio_on_wait = on_wait_p; exit_after = 0; exit_ret = RRR_EVENT_EXIT; periodic_calls = 0; periodic_stop = 3; passes_left = 0; decisions = 0;
	mc_check(rrr_event_dispatch(Q, 50000, periodic, (void *) 0x99) == 0, "second dispatch failed");
	if (who == 0) end(); else rrr_event_queue_destroy(Q);
}
/* amounts above 16 bits */
static void large (void) {
	start(); big = 1; decisions = 3;
	int n = 257 + mc_choose(3, "passes of 255");
	if (mc_choose(2, "double")) n *= 2;
	for (int i = 0; i < n; i++) mc_check(rrr_event_pass(Q, fn[0], 255, NULL, NULL) == 0, "pass");
	passed[0] = (uint64_t) n * 255;
	int extra = mc_choose(3, "extra"); if (extra) do_pass(0, (uint8_t) extra, 0);
	rrr_event_dispatch(Q, 0, NULL, NULL);
	end();
}
static const struct mc_scenario S[] = {
	{"flow", flow, 3, 5, MC_LEAKCHECK, 0},
	{"stop", stop, 2, 4, MC_LEAKCHECK, 0},
	{"large", large, 2, 3, MC_LEAKCHECK, 0},
};
int main (int argc, char **argv) { return mc_main(argc, argv, "C05", S, 3); }
