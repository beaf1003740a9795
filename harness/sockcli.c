// FLAVOR: asan
// ENGINE: vio.c
// Send chunk queue and socket client collection: real rrr_socket_send_chunk.c, rrr_socket_client.c, rrr_socket_read.c,
// read.c and event queue over unix sockets, all histories of pushes, partial and failing writes, closes and reconnections.
#include "mc.h"
#include "vio.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <sys/un.h>
#include "lib/log.h"
#include "lib/allocator.h"
#include "lib/rrr_types.h"
#include "lib/rrr_strerror.h"
#include "lib/read.h"
#include "lib/read_constants.h"
#include "lib/array.h"
#include "lib/array_tree.h"
#include "lib/event/event.h"
#include "lib/messages/msg.h"
#include "lib/messages/msg_msg.h"
#include "lib/socket/rrr_socket.h"
#include "lib/socket/rrr_socket_client.h"
#include "lib/socket/rrr_socket_constants.h"
#include "lib/socket/rrr_socket_send_chunk.h"

#define MAXC 24
#define MAXS 8
struct chunk { int conn, len, prio, priv, privn, privd, pos, state, priv_seen; const void *data; }; // state 0 queued, 1 sent, 2 failed
static struct chunk K[MAXC]; static int nK;
static int conn_of_fd[512];
static unsigned char cbyte (int id, int off) { return (unsigned char) ((id + 1) * 8 + (off & 7)); }
static unsigned char *mk (int id, int len) { unsigned char *b = rrr_allocate((rrr_biglength) (len ? len : 1)); for (int i = 0; i < len; i++) b[i] = cbyte(id, i); return b; }
static int id_of (const void *p, int size) { // by content
	const unsigned char *b = p; int id = b[0] / 8 - 1;
	if (id < 0 || id >= nK || size != K[id].len) mc_fail("unknown chunk of size %d, first octet %d", size, b[0]);
	for (int i = 0; i < size; i++) if (b[i] != cbyte(id, i)) mc_fail("contents of chunk %d are damaged", id);
	return id;
}
static void priv_new (void **p, void *arg) { struct chunk *k = arg; k->privn++; *p = malloc(1); k->data = *p; }
static void priv_destroy (void *p) { for (int i = 0; i < nK; i++) if (K[i].priv && K[i].data == p && K[i].privd == 0 && K[i].privn) { K[i].privd++; free(p); return; } mc_fail("private data destroyed twice"); }
static void check_priv (int id, void *p) {
	if (K[id].priv ? p != K[id].data || K[id].privd : p != NULL) mc_fail("wrong private data for chunk %d", id);
}

/* ---- queue alone ---- */
static struct rrr_event_queue *Q;
struct conn { int fd, peer, open, coll, closing, peer_closed, priv, nwritten; unsigned char out[512]; int nout; int broken; };
static struct conn N[MAXS]; static int nN;
static struct rrr_socket_send_chunk_collection SC;
static int partial, failed_now, sends_left, dead; // dead: the connection has failed in a write, position not known
static int pending (int prio) { int n = 0; for (int i = 0; i < nK; i++) n += !K[i].state && (prio < 0 || K[i].prio == prio); return n; }
static int oldest (int prio) { for (int i = 0; i < nK; i++) if (!K[i].state && K[i].prio == prio) return i; return -1; }
static int pending_new (int prio) { for (int i = 0; i < nK; i++) if (!K[i].state && K[i].pos < K[i].len && K[i].prio == prio) return i; return -1; }
// Data offered to the connection: which chunk may be this
static int offered (const void *data, int size) {
	const unsigned char *b = data; int id, pos;
	if (partial >= 0) { id = partial; pos = K[id].pos; }
	else { id = pending(RRR_SOCKET_SEND_CHUNK_PRIORITY_HIGH) ? oldest(RRR_SOCKET_SEND_CHUNK_PRIORITY_HIGH) : oldest(RRR_SOCKET_SEND_CHUNK_PRIORITY_NORMAL); pos = 0; }
	if (id < 0) mc_fail("data is sent although nothing is queued");
	if (size != K[id].len - pos) mc_fail("%d octets sent, chunk %d has %d more", size, id, K[id].len - pos);
	for (int i = 0; i < size; i++) if (b[i] != cbyte(id, pos + i)) mc_fail("chunk %d (of priority %d) expected, octet %d%s of chunk %d is sent", id, K[id].prio, b[i] & 7, partial >= 0 ? " in the middle" : "", b[i] / 8 - 1);
	return id;
}
static int offered_one (unsigned char b) {
	int id = partial >= 0 ? partial : pending_new(RRR_SOCKET_SEND_CHUNK_PRIORITY_HIGH); if (id < 0) id = pending_new(RRR_SOCKET_SEND_CHUNK_PRIORITY_NORMAL);
	if (id < 0) mc_fail("data is sent although nothing is queued");
	if (b != cbyte(id, K[id].pos)) mc_fail("octet %d of chunk %d (of priority %d) expected, octet %d of chunk %d is sent", K[id].pos, id, K[id].prio, b & 7, b / 8 - 1);
	return id;
}
static void took (int id, int n) { K[id].pos += n; partial = K[id].pos < K[id].len && K[id].pos ? id : -1; }
static int cb_send (rrr_biglength *written, const struct sockaddr *addr, socklen_t addr_len, const void *data, rrr_biglength size, void *arg) {
	(void) addr; if (arg != &SC || addr_len) mc_fail("wrong argument");
	if (failed_now) mc_fail("more is sent after an error");
	mc_step();
	int id = size ? offered(data, (int) size) : -1;
	if (id < 0) mc_fail("nothing to send");
	int max = K[id].len - K[id].pos, n, r;
	switch (sends_left-- > 0 ? mc_choose(5, "write") : 0) {
		case 0: n = max; r = 0; break;
		case 1: n = 0; r = RRR_SOCKET_WRITE_INCOMPLETE; break;
		case 2: n = max > 1; r = RRR_SOCKET_WRITE_INCOMPLETE; break;
		case 3: n = max - 1; r = 0; break;
		default: n = 0; r = mc_choose(2, "hard") ? RRR_SOCKET_HARD_ERROR : RRR_SOCKET_SOFT_ERROR; failed_now = 1; break;
	}
	took(id, n); if (K[id].pos == K[id].len) K[id].state = 1;
	*written = (rrr_biglength) n;
	return r;
}
static int fail_seen;
static void cb_fail (const void *data, rrr_biglength size, rrr_biglength pos, void *priv, void *arg) {
	if (arg != &SC) mc_fail("wrong argument");
	int id = id_of(data, (int) size); if (K[id].state) mc_fail("chunk %d reported twice", id);
	check_priv(id, priv);
	if (dead ? (int) pos > K[id].pos : (int) pos != K[id].pos) mc_fail("chunk %d reported at %d, is at %d", id, (int) pos, K[id].pos);
	K[id].state = 2; fail_seen++;
}
static int rm_id;
static void cb_iter (int *rm, const void *data, rrr_biglength size, rrr_biglength pos, void *priv, void *arg) {
	(void) arg; int id = id_of(data, (int) size); if (K[id].state) mc_fail("chunk %d still in the queue", id);
	check_priv(id, priv); if (dead ? (int) pos > K[id].pos : (int) pos != K[id].pos) mc_fail("position");
	fail_seen++;
	if (id == rm_id) { *rm = 1; K[id].state = 2; }
}
static int budget, style, enderr, eintr, blocked; // how the next writes go
static int done_n;
static void sink (unsigned char b) { int id = offered_one(b); took(id, 1); }
static void q_success (const void *data, rrr_biglength size, rrr_biglength pos, void *priv, void *arg) {
	if (arg != &SC || pos != size) mc_fail("argument or position");
	int id = id_of(data, (int) size); if (K[id].state || K[id].priv_seen) mc_fail("chunk %d reported twice", id);
	check_priv(id, priv); K[id].priv_seen = 1; done_n++;
}
static int queue_send_fd (int wr, int rd) {
	static const int bud[] = { 0, 1, 3, 4, -1 }, errs[] = { EAGAIN, EPIPE, EIO };
	budget = bud[mc_choose(5, "budget")]; style = budget == 3 ? 0 : 2; enderr = budget >= 0 ? errs[mc_choose(budget == 0 ? 3 : 2, "end")] : EAGAIN; eintr = blocked = 0; done_n = 0;
	struct rrr_socket_send_chunk_send_callbacks cb = { .success = q_success, .success_arg = &SC };
	int r = mc_choose(1 + (budget == 1), "plain") == 0 ? rrr_socket_send_chunk_collection_send_and_notify(&SC, wr, &cb) : (done_n = -1, rrr_socket_send_chunk_collection_send(&SC, wr));
	int want = !blocked ? 0 : enderr == EAGAIN ? RRR_SOCKET_WRITE_INCOMPLETE : enderr == EPIPE ? RRR_SOCKET_SOFT_ERROR : RRR_SOCKET_HARD_ERROR;
	if (r != want) mc_fail("send gives %d, expected %d", r, want);
	unsigned char b[128]; long n = syscall(SYS_read, rd, b, sizeof b); int k = 0;
	for (int i = 0; i < n; i++) sink(b[i]);
	for (int i = 0; i < nK; i++) if (!K[i].state && K[i].pos == K[i].len) { K[i].state = 1; k++; if (done_n >= 0 && !K[i].priv_seen) mc_fail("chunk %d is sent and not reported", i); } else if (!K[i].state && K[i].priv_seen) mc_fail("chunk %d is reported and not sent", i);
	if (done_n >= 0 && done_n != k) mc_fail("%d chunks reported, %d sent", done_n, k);
	return want != 0 && enderr != EAGAIN;
}
static long io (int op, int fd, size_t n);
static void queue (void) {
	vio_reset(); memset(&SC, 0, sizeof SC); nK = 0; memset(K, 0, sizeof K); partial = -1; failed_now = 0;
	rrr_socket_send_chunk_collection_set_silent(&SC);
	int pfd[2], use_fd = mc_choose(2, "descriptor"); dead = 0; Q = NULL; memset(N, 0, sizeof N);
	for (int i = 0; i < 512; i++) conn_of_fd[i] = -1;
	if (use_fd) { if (rrr_socket_pipe(pfd, "check")) mc_error("pipe"); conn_of_fd[pfd[1]] = 0; vio_io = io; }
	int depth = mc_tier() ? 6 : 5;
	for (int d = 0; d < depth; d++) {
		int op = mc_choose(6, "op");
		if (op < 3) {
			struct chunk *k = &K[nK]; *k = (struct chunk) { .len = op == 0 ? 1 : 3, .prio = op == 2 ? RRR_SOCKET_SEND_CHUNK_PRIORITY_HIGH : RRR_SOCKET_SEND_CHUNK_PRIORITY_NORMAL, .priv = op == 1 };
			int how = (nK + op) & 1; unsigned char *b = mk(nK, k->len); void *p = b; rrr_length cnt = 99; int r;
			nK++;
			if (how) r = k->priv ? rrr_socket_send_chunk_collection_push_with_private_data(&cnt, &SC, &p, (rrr_biglength) k->len, k->prio, priv_new, k, priv_destroy)
			                     : rrr_socket_send_chunk_collection_push(&cnt, &SC, &p, (rrr_biglength) k->len, k->prio);
			else r = k->priv ? rrr_socket_send_chunk_collection_push_const_with_private_data(&cnt, &SC, p, (rrr_biglength) k->len, k->prio, priv_new, k, priv_destroy)
			                 : rrr_socket_send_chunk_collection_push_const(&cnt, &SC, p, (rrr_biglength) k->len, k->prio);
			if (!how) { memset(b, 0, (size_t) k->len); rrr_free(b); } else if (p) mc_fail("data not taken over");
			if (r || (int) cnt != pending(-1)) mc_fail("push gives %d count %d, expected %d", r, (int) cnt, pending(-1));
		}
		else if (op == 3) {
			if (dead) continue;
			if (use_fd) { if (queue_send_fd(pfd[1], pfd[0])) dead = 1; }
			else {
			failed_now = 0; sends_left = 2;
			int before = pending(-1), r = rrr_socket_send_chunk_collection_send_with_callback(&SC, cb_send, &SC);
			if ((r != 0) != failed_now) mc_fail("send gives %d, error %d", r, failed_now);
			(void) before;
			}
		}
		else if (op == 4) {
			fail_seen = 0; rm_id = -1; int c = mc_choose(3, "iterate");
			if (c) { for (int i = 0; i < nK; i++) if (!K[i].state && !K[i].pos && !--c) { rm_id = i; break; } if (rm_id < 0) continue; }
			int n = pending(-1); rrr_socket_send_chunk_collection_iterate(&SC, cb_iter, NULL);
			if (fail_seen != n) mc_fail("%d chunks iterated, %d in the queue", fail_seen, n);
		}
		else {
			fail_seen = 0; int n = pending(-1), cb = mc_choose(2, "with callback");
			if (cb) { rrr_socket_send_chunk_collection_clear_with_callback(&SC, cb_fail, &SC); if (fail_seen != n) mc_fail("%d of %d chunks reported", fail_seen, n); }
			else { rrr_socket_send_chunk_collection_clear(&SC); for (int i = 0; i < nK; i++) if (!K[i].state) K[i].state = 2; }
			partial = -1;
		}
		if ((int) rrr_socket_send_chunk_collection_count(&SC) != pending(-1)) mc_fail("count %d, expected %d", (int) rrr_socket_send_chunk_collection_count(&SC), pending(-1));
		for (int i = 0; i < nK; i++) if (K[i].priv && (K[i].privn != 1 || K[i].privd != (K[i].state != 0))) mc_fail("private data of chunk %d made %d times, destroyed %d times", i, K[i].privn, K[i].privd);
	}
	// all is sent in the end
	sends_left = 0; failed_now = 0; vio_io = NULL;
	if (use_fd) {
		if (!dead) { unsigned char b[128]; if (rrr_socket_send_chunk_collection_send(&SC, pfd[1])) mc_fail("send"); long n = syscall(SYS_read, pfd[0], b, sizeof b); for (int i = 0; i < n; i++) sink(b[i]); }
		for (int i = 0; i < nK; i++) if (!K[i].state) { if (!dead && K[i].pos < K[i].len) mc_fail("chunk %d is not sent", i); K[i].state = 1; }
		rrr_socket_close(pfd[0]); rrr_socket_close(pfd[1]);
	}
	for (int i = 0; i < 4 && pending(-1); i++) if (rrr_socket_send_chunk_collection_send_with_callback(&SC, cb_send, &SC)) mc_fail("send");
	if (pending(-1)) mc_fail("%d chunks are not sent", pending(-1));
	uint64_t o = 0; for (int i = 0; i < nK; i++) o = o * 3 + (uint64_t) K[i].state; mc_obs(o);
	rrr_socket_send_chunk_collection_clear(&SC);
}

/* ---- client collection ---- */
static struct rrr_socket_client_collection *C[2];
static int in_gate;
static long io (int op, int fd, size_t n) {
	if (fd < 0 || fd >= 512 || conn_of_fd[fd] < 0) return (long) n;
	if (op == VIO_READ) return (long) n;
	if (n == 0) return 0;
	mc_step();
	if (blocked || budget == 0) { blocked = 1; if (Q) rrr_event_dispatch_break(Q); return -enderr; }
	if (style == 2 && (eintr ^= 1)) return -EINTR;
	long r = style ? 1 : (long) n;
	if (budget > 0 && r > budget) r = budget;
	if (budget > 0) budget -= (int) r;
	N[conn_of_fd[fd]].nwritten += (int) r;
	return r;
}
static int stopped;
static int on_wait (int64_t us) { (void) us; stopped = 1; rrr_event_dispatch_break(Q); return 0; }
static int tick_cb (RRR_EVENT_FUNCTION_PERIODIC_ARGS) { (void) arg; return 0; }
static void tick (int b, int s, int err) {
	budget = b; style = s; enderr = err; blocked = 0; eintr = 0; stopped = 0;
	for (int i = 0; i < 20 && !stopped && !blocked; i++) rrr_event_dispatch(Q, 100000, tick_cb, NULL);
}
static int first_of (int conn) { for (int i = 0; i < nK; i++) if (K[i].conn == conn && !K[i].state) return i; return -1; }
static void pull (int c) { // what the peer receives
	unsigned char b[256]; long n;
	while (N[c].peer >= 0 && (n = syscall(SYS_recvfrom, N[c].peer, b, sizeof b, MSG_DONTWAIT, NULL, NULL)) > 0) {
		if (N[c].nout + n > (long) sizeof N[c].out) mc_error("out");
		memcpy(N[c].out + N[c].nout, b, (size_t) n); N[c].nout += (int) n;
	}
	// whole chunks in the order of the queue
	int p = 0;
	for (int i = 0; i < nK && p < N[c].nout; i++) if (K[i].conn == c) for (int j = 0; j < K[i].len && p < N[c].nout; j++, p++)
		if (N[c].out[p] != cbyte(i, j)) mc_fail("connection %d: octet %d is %d/%d, expected %d/%d", c, p, N[c].out[p] / 8 - 1, N[c].out[p] & 7, i, j);
	if (p < N[c].nout) mc_fail("connection %d: more data than was queued", c);
}
static int sent_bytes (int c) { int n = 0; for (int i = 0; i < nK; i++) if (K[i].conn == c && K[i].state == 1) n += K[i].len; return n; }
static void notify (RRR_SOCKET_CLIENT_SEND_NOTIFY_CALLBACK_ARGS) {
	if (callback_arg != &Q) mc_fail("wrong argument");
	int id = id_of(data, (int) data_size), c = K[id].conn;
	if (K[id].state) mc_fail("chunk %d is reported twice", id);
	check_priv(id, chunk_private_data);
	if (first_of(c) != id) mc_fail("chunk %d is reported before chunk %d", id, first_of(c));
	if (was_sent) {
		if (!N[c].open) mc_fail("chunk sent on connection %d which is closed", c);
		if (fd != N[c].fd) mc_fail("chunk %d reported for fd %d, connection has %d", id, fd, N[c].fd);
		if (data_pos != data_size) mc_fail("chunk %d reported as sent at position %d", id, (int) data_pos);
		K[id].state = 1;
		if (sent_bytes(c) > N[c].nwritten) mc_fail("chunk %d reported as sent before it was written", id);
		if (!in_gate) mc_fail("reported outside the gates");
	} else {
		if (fd >= 0 && fd != N[c].fd && N[c].fd >= 0) mc_fail("chunk %d reported for fd %d, connection has %d", id, fd, N[c].fd);
		if ((int) data_pos > N[c].nwritten - sent_bytes(c)) mc_fail("chunk %d failed at %d, %d octets were written", id, (int) data_pos, N[c].nwritten - sent_bytes(c));
		K[id].state = 2; N[c].nwritten = sent_bytes(c); // what was written of this chunk does not count
		N[c].broken = 1;
	}
}
static void g_start (void *arg) { if (arg != &Q || in_gate) mc_fail("gate start"); in_gate = 1; }
static void g_end (void *arg) { if (arg != &Q || !in_gate) mc_fail("gate end"); in_gate = 0; }
static int closes;
static void on_close (RRR_SOCKET_CLIENT_FD_CLOSE_CALLBACK_ARGS) {
	(void) addr; (void) addr_len; (void) addr_string; (void) create_type; (void) was_finalized;
	if (arg != &C) mc_fail("wrong argument");
	if (fd < 0 || fd >= 512) mc_fail("close of fd %d", fd);
	int c = conn_of_fd[fd]; if (c < 0) mc_fail("close of an unknown fd %d", fd);
	if (!N[c].open) mc_fail("connection %d closed twice", c);
	N[c].open = 0; closes++; conn_of_fd[fd] = -1;
}
static int privs;
static int cp_new (void **t, int fd, void *arg) { if (arg != &C || fd < 0 || conn_of_fd[fd] < 0) mc_fail("private data"); int c = conn_of_fd[fd]; if (N[c].priv) mc_fail("private data of connection %d made twice", c); N[c].priv = 1; privs++; *t = malloc(1); N[c].priv = 1; return 0; }
static void cp_destroy (void *p) { privs--; free(p); }
static int get_size (RRR_SOCKET_CLIENT_RAW_GET_TARGET_SIZE_CALLBACK_ARGS) { (void) addr; (void) addr_len; (void) private_data; (void) arg; read_session->target_size = read_session->rx_buf_wpos; return RRR_READ_OK; }
static int complete (RRR_SOCKET_CLIENT_RAW_COMPLETE_CALLBACK_ARGS) { (void) read_session; (void) addr; (void) addr_len; (void) private_data; (void) arg; return 0; }
static char path[2][108]; static int L[2];
static void make_listener (int i) {
	struct sockaddr_un a = { .sun_family = AF_UNIX };
	snprintf(path[i], sizeof path[i], "%s/s%d", mc_scratch(), i); unlink(path[i]); strcpy(a.sun_path, path[i]);
	if ((L[i] = socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0)) < 0 || bind(L[i], (struct sockaddr *) &a, sizeof a) || listen(L[i], 8)) mc_error("listen %s", path[i]);
}
static void start (int write_only) {
	vio_reset(); vio_on_wait = on_wait; vio_io = io; nK = nN = closes = privs = in_gate = 0; memset(K, 0, sizeof K); memset(N, 0, sizeof N);
	for (int i = 0; i < 512; i++) conn_of_fd[i] = -1;
	if (rrr_event_queue_new(&Q)) mc_error("queue");
	for (int i = 0; i < 2; i++) {
		if (rrr_socket_client_collection_new(&C[i], Q, "check")) mc_error("collection");
		rrr_socket_client_collection_set_silent(C[i], 1);
		if (write_only) rrr_socket_client_collection_event_setup_write_only(C[i], cp_new, cp_destroy, &C);
		else rrr_socket_client_collection_event_setup_raw(C[i], cp_new, cp_destroy, &C, 64, RRR_SOCKET_READ_METHOD_RECV | RRR_SOCKET_READ_CHECK_EOF | RRR_SOCKET_READ_CHECK_POLLHUP | RRR_SOCKET_READ_FIRST_EOF_OK | RRR_READ_MESSAGE_FLUSH_OVERSHOOT, NULL, NULL, get_size, NULL, NULL, NULL, complete, NULL);
		rrr_socket_client_collection_send_notify_setup_with_gates(C[i], notify, g_start, g_end, &Q);
		rrr_socket_client_collection_fd_close_notify_setup(C[i], on_close, &C);
		make_listener(i);
	}
}
static int add_conn (int fd, int peer) { struct conn *c = &N[nN]; if (fd >= 512) mc_error("fd"); memset(c, 0, sizeof *c); c->fd = fd; c->peer = peer; c->open = 1; conn_of_fd[fd] = nN; return nN++; }
static int push (int c, int len, int how) {
	struct chunk *k = &K[nK]; *k = (struct chunk) { .conn = c, .len = len, .priv = how == 1 }; int id = nK++;
	void *p = mk(id, len); rrr_length cnt = 0; int r; struct rrr_socket_client_collection *cl = C[N[c].coll];
	if (how == 0) r = rrr_socket_client_collection_send_push(&cnt, cl, N[c].fd, &p, (rrr_biglength) len);
	else if (how == 1) r = rrr_socket_client_collection_send_push_with_private_data(&cnt, cl, N[c].fd, &p, (rrr_biglength) len, priv_new, k, priv_destroy);
	else r = rrr_socket_client_collection_send_push_const(&cnt, cl, N[c].fd, p, (rrr_biglength) len);
	if (p) rrr_free(p);
	int ok = N[c].open && !N[c].closing;
	if ((r == 0) != ok) mc_fail("push on connection %d gives %d, open %d, about to close %d", c, r, N[c].open, N[c].closing);
	if (r) { nK--; if (K[nK].privn) mc_fail("private data made although the push failed"); return r; }
	int n = 0; for (int i = 0; i < nK; i++) n += K[i].conn == c && !K[i].state;
	if ((int) cnt != n) mc_fail("count %d after push, expected %d", (int) cnt, n);
	return 0;
}
static void check_all (void) {
	int open = 0;
	for (int c = 0; c < nN; c++) { pull(c); open += N[c].open && N[c].priv; }
	for (int i = 0; i < nK; i++) {
		if (!K[i].state && !N[K[i].conn].open) mc_fail("chunk %d is not reported although the connection is closed", i);
		if (K[i].priv && (K[i].privn != 1 || K[i].privd != (K[i].state != 0))) mc_fail("private data of chunk %d made %d times, destroyed %d times", i, K[i].privn, K[i].privd);
	}
	if (privs != open) mc_fail("%d connections have private data, %d are open", privs, open);
	if (in_gate) mc_fail("gate open");
	if (rrr_socket_client_collection_count(C[0]) + rrr_socket_client_collection_count(C[1]) < open) mc_fail("connection lost");
}
static void finish (void) {
	for (int i = 0; i < 2; i++) rrr_socket_client_collection_destroy(C[i]);
	for (int c = 0; c < nN; c++) { pull(c); if (N[c].open) mc_fail("connection %d not closed", c); if (N[c].peer >= 0) close(N[c].peer); }
	for (int i = 0; i < nK; i++) {
		if (!K[i].state) mc_fail("chunk %d is never reported", i);
		if (K[i].priv && (K[i].privn != 1 || K[i].privd != 1)) mc_fail("private data of chunk %d", i);
	}
	if (privs) mc_fail("private data of a connection remains");
	uint64_t o = 0; for (int i = 0; i < nK; i++) o = o * 3 + (uint64_t) K[i].state; mc_obs(o);
	rrr_event_queue_destroy(Q); rrr_socket_close_all();
	for (int i = 0; i < 2; i++) { close(L[i]); unlink(path[i]); }
}
static void settle_sent (void) { // with a working connection all is sent
	tick(-1, 0, EAGAIN);
	for (int c = 0; c < nN; c++) {
		pull(c);
		if (N[c].closing && !N[c].peer_closed && N[c].open) mc_fail("connection %d is not closed after the last chunk", c);
		if (!N[c].open) continue;
		if (N[c].peer_closed) continue;
		if (first_of(c) >= 0) mc_fail("chunk %d is not sent although the connection works", first_of(c));
		int n = 0; for (int i = 0; i < nK; i++) if (K[i].conn == c) n += K[i].len;
		if (N[c].nout != n) mc_fail("connection %d: %d of %d octets received", c, N[c].nout, n);
	}
}
static void do_tick (void) {
	static const int bud[] = { -1, 0, 1, 4, 2 }, errs[] = { EAGAIN, EPIPE, EIO, ECONNRESET };
	int b = bud[mc_choose(mc_tier() ? 5 : 4, "budget")], s = mc_choose(2, "style") * 2, e = b >= 0 ? errs[mc_choose(mc_tier() ? 4 : 3, "end")] : EAGAIN;
	tick(b, s, e);
	if (e != EAGAIN && blocked) { // the connection on which this was seen has to be closed
		int n = 0; for (int c = 0; c < nN; c++) n += !N[c].open; if (!n) mc_fail("no connection closed after a write error");
	}
}
static void send_hist (void) {
	int wo = mc_choose(2, "write only"); start(wo);
	for (int i = 0; i < 2; i++) {
		int fd; if (rrr_socket_unix_connect(&fd, "check", path[i], 1)) mc_error("connect");
		int p = accept(L[i], NULL, NULL); if (p < 0) mc_error("accept");
		add_conn(fd, p);
		if (rrr_socket_client_collection_connected_fd_push(C[0], fd, i ? RRR_SOCKET_CLIENT_COLLECTION_CREATE_TYPE_OUTBOUND : RRR_SOCKET_CLIENT_COLLECTION_CREATE_TYPE_PERSISTENT)) mc_fail("push of connection");
	}
	if (push(0, 3, 1)) mc_fail("push");
	int depth = mc_tier() ? 5 : 3;
	for (int d = 0; d < depth; d++) {
		switch (mc_choose(11, "op")) {
			case 0: push(0, 3, 0); break;
			case 1: push(1, 3, 1); break;
			case 2: push(0, 12, 2); break;
			case 3: do_tick(); break;
			case 4: do_tick(); push(0, 1, 1); break;
			case 5: rrr_socket_client_collection_close_by_fd(C[N[0].coll], N[0].fd); if (!N[0].closing && N[0].open) mc_fail("not closed"); break;
			case 6: rrr_socket_client_collection_close_when_send_complete_by_fd(C[N[0].coll], N[0].fd); if (N[0].open) N[0].closing = 1; break;
			case 7: rrr_socket_client_collection_close_outbound_when_send_complete(C[0]); if (N[1].open && N[1].coll == 0) N[1].closing = 1; break;
			case 8: {
				if (!N[0].open || N[0].closing || N[0].coll) break;
				if (rrr_socket_client_collection_migrate_by_fd(C[1], C[0], N[0].fd)) mc_fail("migrate");
				N[0].coll = 1; if (rrr_socket_client_collection_has_fd(C[0], N[0].fd) || !rrr_socket_client_collection_has_fd(C[1], N[0].fd)) mc_fail("has_fd");
				break;
			}
			case 9: // to all connections of the collection: the chunk of each is the same data
				if (N[0].open && N[0].coll == 0 && N[1].open) break;
				{ int c = N[0].open && N[0].coll == 0 ? 0 : 1; if (!N[c].open || N[c].coll) break;
				struct chunk *k = &K[nK]; *k = (struct chunk) { .conn = c, .len = 3 }; unsigned char *b = mk(nK, 3); nK++; rrr_length n;
				rrr_socket_client_collection_send_push_const_multicast(&n, C[0], b, 3, 1000); rrr_free(b); }
				break;
			case 10: if (N[0].peer < 0) break;
				pull(0); close(N[0].peer); N[0].peer = -1; N[0].peer_closed = 1; break;
		}
		check_all();
	}
	settle_sent(); check_all();
	if (N[0].peer_closed && N[0].open && !wo) mc_fail("connection remains after the peer closed it");
	finish();
}

/* ---- connect as needed ---- */
static int addr_n, conn_fail[2];
static int c_connect (int *fd, const struct sockaddr *addr, socklen_t len, void *arg) {
	if (arg != &L || len != sizeof(struct sockaddr_un)) mc_fail("connect argument");
	const char *p = ((const struct sockaddr_un *) addr)->sun_path; int i = strcmp(p, path[0]) != 0; if (i && strcmp(p, path[1])) mc_fail("connect address");
	switch (conn_fail[i]) {
		case 1: return RRR_SOCKET_SOFT_ERROR;
		default: break;
	}
	int f; if (rrr_socket_unix_connect(&f, "check", path[i], 1)) mc_error("connect");
	int peer = accept(L[i], NULL, NULL); if (peer < 0) mc_error("accept");
	int c = add_conn(f, peer); N[c].coll = 0;
	if (conn_fail[i] == 2) { close(peer); N[c].peer = -1; N[c].peer_closed = 1; } // refused later
	*fd = f;
	return 0;
}
static int c_resolve (size_t *n, struct sockaddr ***a, socklen_t **l, void *arg) {
	if (arg != &L) mc_fail("argument");
	*a = rrr_allocate(sizeof(**a) * 2); *l = rrr_allocate(sizeof(**l) * 2); *n = (size_t) addr_n;
	for (int i = 0; i < addr_n; i++) { struct sockaddr_un *u = rrr_allocate_zero(sizeof *u); u->sun_family = AF_UNIX; strcpy(u->sun_path, path[i]); (*a)[i] = (struct sockaddr *) u; (*l)[i] = sizeof *u; }
	return 0;
}
static int rep[MAXC], owner[MAXC]; // connection which transmitted the chunk
static void cnotify (RRR_SOCKET_CLIENT_SEND_NOTIFY_CALLBACK_ARGS) {
	if (callback_arg != &Q) mc_fail("wrong argument");
	int id = id_of(data, (int) data_size); if (rep[id]) mc_fail("chunk %d is reported twice", id);
	check_priv(id, chunk_private_data);
	rep[id] = was_sent ? 1 : 2; K[id].state = rep[id];
	if (was_sent) { if (fd < 0 || conn_of_fd[fd] < 0 || !N[conn_of_fd[fd]].open) mc_fail("chunk %d sent on fd %d which is not open", id, fd); owner[id] = conn_of_fd[fd]; if (data_pos != data_size) mc_fail("position"); }
}
static void cpull (void) {
	for (int c = 0; c < nN; c++) {
		unsigned char b[256]; long n;
		while (N[c].peer >= 0 && (n = syscall(SYS_recvfrom, N[c].peer, b, sizeof b, MSG_DONTWAIT, NULL, NULL)) > 0) { memcpy(N[c].out + N[c].nout, b, (size_t) n); N[c].nout += (int) n; }
		int last = -1, p = 0;
		while (p < N[c].nout) {
			int id = N[c].out[p] / 8 - 1; if (id <= last || id >= nK) mc_fail("connection %d: chunk %d after chunk %d", c, id, last);
			int j = 0; for (; j < K[id].len && p < N[c].nout; j++, p++) if (N[c].out[p] != cbyte(id, j)) mc_fail("connection %d: chunk %d not whole", c, id);
			if (j < K[id].len && p < N[c].nout) mc_fail("chunk %d is not whole", id);
			if (j == K[id].len && rep[id] == 1 && owner[id] != c) mc_fail("chunk %d transmitted twice", id);
			last = id;
		}
	}
	for (int i = 0; i < nK; i++) if (rep[i] == 1 && !N[owner[i]].peer_closed) { int f = 0; for (int p = 0; p < N[owner[i]].nout; p++) f += N[owner[i]].out[p] / 8 - 1 == i; if (f != K[i].len) mc_fail("chunk %d was reported as sent, %d of %d octets arrived", i, f, K[i].len); }
}
static void connect_hist (void) {
	start(0); rrr_socket_client_collection_send_notify_setup(C[0], cnotify, &Q);
	memset(rep, 0, sizeof rep);
	int by_string = mc_choose(2, "by name"); addr_n = by_string ? 1 + mc_choose(2, "addresses") : 1;
	int depth = mc_tier() ? 6 : 4;
	for (int d = 0; d < depth; d++) {
		int op = d == 0 ? 0 : mc_choose(5, "op");
		if (op == 0) {
			if (nN + 2 > MAXS) continue;
			for (int i = 0; i < addr_n; i++) conn_fail[i] = mc_choose(3, "connect");
			struct chunk *k = &K[nK]; *k = (struct chunk) { .len = 3, .priv = 1 }; int id = nK++; owner[id] = -1;
			void *p = mk(id, 3); rrr_length cnt; int r, n0 = nN, alive = 0; for (int i = 0; i < nN; i++) alive += N[i].open && !N[i].closing;
			struct sockaddr_un u; memset(&u, 0, sizeof u); u.sun_family = AF_UNIX; strcpy(u.sun_path, path[0]);
			if (by_string) r = rrr_socket_client_collection_send_push_const_by_address_string_connect_as_needed(&cnt, C[0], "there", p, 3, priv_new, k, priv_destroy, c_resolve, &L, c_connect, &L, NULL, NULL);
			else r = rrr_socket_client_collection_send_push_const_by_address_connect_as_needed(&cnt, C[0], (struct sockaddr *) &u, sizeof u, p, 3, priv_new, k, priv_destroy, c_connect, &L);
			memset(p, 0, 3); rrr_free(p);
			if (alive && nN > n0) mc_fail("second connection made although one exists");
			if (!alive && r == 0 && nN == n0) mc_fail("no connection");
			if (alive && r) mc_fail("push gives %d on an existing connection", r);
			if (r) { nK--; if (K[nK].privn) mc_fail("private data made"); }
		}
		else if (op == 1) do_tick();
		else if (op == 2) tick(-1, 0, EAGAIN);
		else if (op == 3) { int c; for (c = nN - 1; c >= 0 && (N[c].peer < 0 || !N[c].open); c--); if (c < 0) continue;
			cpull(); close(N[c].peer); N[c].peer = -1; N[c].peer_closed = 1; }
		else { rrr_socket_client_collection_close_when_send_complete_by_address_string(C[0], "there"); if (by_string) for (int i = 0; i < nN; i++) if (N[i].open) N[i].closing = 1; }
		cpull();
	}
	tick(-1, 0, EAGAIN); cpull();
	int open = 0; for (int c = 0; c < nN; c++) open += N[c].open;
	if (rrr_socket_client_collection_count(C[0]) > 2) mc_fail("clients remain");
	for (int i = 0; i < nK; i++) if (!rep[i]) mc_fail("chunk %d is neither sent nor failed", i);
	for (int c = 0; c < nN; c++) if (N[c].open && N[c].closing && !N[c].peer_closed) mc_fail("connection %d not closed after the last chunk", c);
	(void) open;
	rrr_socket_client_collection_destroy(C[0]); rrr_socket_client_collection_destroy(C[1]);
	for (int i = 0; i < nK; i++) if (K[i].privn != 1 || K[i].privd != 1) mc_fail("private data of chunk %d", i);
	for (int c = 0; c < nN; c++) { if (N[c].open) mc_fail("connection %d not closed", c); if (N[c].peer >= 0) close(N[c].peer); }
	if (privs) mc_fail("private data remains");
	uint64_t o = 0; for (int i = 0; i < nK; i++) o = o * 3 + (uint64_t) rep[i]; mc_obs(o);
	rrr_event_queue_destroy(Q); rrr_socket_close_all();
	for (int i = 0; i < 2; i++) { close(L[i]); unlink(path[i]); }
}
/* ---- reading ---- */
static int rmode, rlim, reintr, nacc, rgot[2], rclosed, ropen[2]; // rlim: most octets per read, 0 no limit, -1 would block once
static struct { unsigned char b[512]; int len, pos, end[4], nmsg, whole; } P[2]; // what the peers send
static int rpriv[2];
static long rio (int op, int fd, size_t n) {
	(void) fd; if (op != VIO_READ) return (long) n;
	mc_step();
	if (reintr) { reintr--; return -EINTR; }
	if (rlim < 0) { rlim = 0; return -EAGAIN; }
	return rlim && (long) n > rlim ? rlim : (long) n;
}
static int rp_new (void **t, int fd, void *arg) { (void) fd; if (arg != &P || nacc >= 2) mc_fail("private data"); rpriv[nacc] = nacc; *t = &rpriv[nacc]; ropen[nacc++] = 1; return 0; }
static void rp_destroy (void *p) { int c = *(int *) p; if (!ropen[c]) mc_fail("private data destroyed twice"); ropen[c] = 0; }
static void got (int c, const void *data, int len) {
	if (rgot[c] >= P[c].nmsg) mc_fail("message which was not sent");
	int start = rgot[c] ? P[c].end[rgot[c] - 1] : 0, want = P[c].end[rgot[c]] - start;
	if (!ropen[c]) mc_fail("message for a connection which is closed");
	if (len != want || memcmp(data, P[c].b + start, (size_t) len)) mc_fail("connection %d: message %d has %d octets or other contents, expected %d", c, rgot[c], len, want);
	if (P[c].end[rgot[c]] > P[c].pos) mc_fail("message before its last octet was sent");
	rgot[c]++;
}
static int r_size (RRR_SOCKET_CLIENT_RAW_GET_TARGET_SIZE_CALLBACK_ARGS) {
	(void) addr; (void) addr_len; (void) private_data; if (arg != &P) mc_fail("argument");
	if (read_session->rx_buf_wpos < 1) return RRR_READ_INCOMPLETE;
	read_session->target_size = (rrr_biglength) (unsigned char) read_session->rx_buf_ptr[0]; return RRR_READ_OK;
}
static int r_complete (RRR_SOCKET_CLIENT_RAW_COMPLETE_CALLBACK_ARGS) { (void) addr; (void) addr_len; if (arg != &P) mc_fail("argument"); got(*(int *) private_data, read_session->rx_buf_ptr, (int) read_session->rx_buf_wpos); read_session->eof_ok_now = 1; return RRR_READ_OK; }
static int r_msg (struct rrr_msg_msg **m, void *a1, void *a2) {
	if (a2 != &P) mc_fail("argument"); int c = *(int *) a1;
	if (rgot[c] >= P[c].nmsg) mc_fail("message which was not sent");
	if (MSG_DATA_LENGTH(*m) != 2 || MSG_DATA_PTR(*m)[0] != 'a' + c || MSG_DATA_PTR(*m)[1] != '0' + rgot[c]) mc_fail("connection %d: message %d expected, %c%c is given", c, rgot[c], MSG_DATA_PTR(*m)[0], MSG_DATA_PTR(*m)[1]);
	if (P[c].end[rgot[c]] > P[c].pos || !ropen[c]) mc_fail("message before its last octet was sent");
	rgot[c]++; return 0;
}
static void r_close (RRR_SOCKET_CLIENT_FD_CLOSE_CALLBACK_ARGS) { (void) fd; (void) addr; (void) addr_len; (void) addr_string; (void) was_finalized; if (arg != &P) mc_fail("argument"); if (create_type != RRR_SOCKET_CLIENT_COLLECTION_CREATE_TYPE_LISTEN) rclosed++; }
static void read_hist (void) {
	vio_reset(); vio_on_wait = on_wait; nacc = rclosed = 0; rlim = reintr = 0; memset(P, 0, sizeof P); memset(rgot, 0, sizeof rgot); memset(ropen, 0, sizeof ropen);
	rmode = mc_choose(3, "mode"); int nmsg = 3, step = rmode == 1 ? 1024 : mc_choose(2, "step") ? 4 : 64;
	if (rrr_event_queue_new(&Q) || rrr_socket_client_collection_new(&C[0], Q, "check")) mc_error("collection");
	rrr_socket_client_collection_set_silent(C[0], 1);
	int base = RRR_SOCKET_READ_METHOD_RECV | RRR_SOCKET_READ_CHECK_POLLHUP;
	if (rmode == 1) rrr_socket_client_collection_event_setup(C[0], rp_new, rp_destroy, &P, (rrr_biglength) step, base, NULL, NULL, r_msg, NULL, NULL, NULL, NULL, &P);
	else rrr_socket_client_collection_event_setup_raw(C[0], rp_new, rp_destroy, &P, (rrr_biglength) step, base | RRR_READ_MESSAGE_FLUSH_OVERSHOOT | RRR_SOCKET_READ_FIRST_EOF_OK | (rmode ? 0 : RRR_SOCKET_READ_CHECK_EOF), NULL, NULL, r_size, &P, NULL, NULL, r_complete, &P);
	rrr_socket_client_collection_fd_close_notify_setup(C[0], r_close, &P);
	for (int c = 0; c < 2; c++) for (int m = 0; m < nmsg; m++) {
		if (rmode == 1) {
			struct rrr_msg_msg *x; char d[2] = { (char) ('a' + c), (char) ('0' + m) };
			if (rrr_msg_msg_new_with_data(&x, MSG_TYPE_MSG, MSG_CLASS_DATA, 1, "t", 1, d, 2)) mc_error("msg");
			int len = (int) MSG_TOTAL_SIZE(x); rrr_msg_msg_prepare_for_network(x); rrr_msg_checksum_and_to_network_endian((struct rrr_msg *) x);
			memcpy(P[c].b + P[c].len, x, (size_t) len); P[c].len += len; rrr_free(x);
		} else {
			int len = m == 0 ? 3 : m == 1 ? 1 : 6;
			for (int i = 0; i < len; i++) P[c].b[P[c].len + i] = (unsigned char) (i ? 100 + c * 50 + m * 10 + i : len);
			P[c].len += len;
		}
		P[c].end[m] = P[c].len; P[c].nmsg++;
	}
	snprintf(path[0], sizeof path[0], "%s/r", mc_scratch()); unlink(path[0]);
	int lfd; if (rrr_socket_unix_create_bind_and_listen(&lfd, "check", path[0], 4, 1, 0, 1)) mc_error("listen");
	if (rrr_socket_client_collection_listen_fd_push(C[0], lfd)) mc_fail("listen push");
	int peer[2]; struct sockaddr_un u; memset(&u, 0, sizeof u); u.sun_family = AF_UNIX; strcpy(u.sun_path, path[0]);
	for (int c = 0; c < 2; c++) { peer[c] = socket(AF_UNIX, SOCK_STREAM, 0); if (peer[c] < 0 || syscall(SYS_connect, peer[c], &u, sizeof u)) mc_error("connect"); tick(-1, 0, EAGAIN); if (nacc != c + 1) mc_fail("connection not accepted"); }
	vio_io = rio;
	int depth = mc_tier() ? 4 : 3, closed[2] = {0, 0}, fault = mc_choose(4, "fault");
	for (int d = 0; d < depth; d++) {
		int c = mc_choose(2, "peer"), op = mc_choose(6, "op"), n = 0;
		if (closed[c]) continue;
		int m = 0; while (m < P[c].nmsg && P[c].end[m] <= P[c].pos) m++;
		int left = P[c].len - P[c].pos, next = m < P[c].nmsg ? P[c].end[m] - P[c].pos : 0;
		switch (op) {
			case 0: n = 1; break;
			case 1: n = next; break;
			case 2: n = next + 1; break;
			case 3: n = next - 1; break;
			case 4: n = left; break;
			case 5: close(peer[c]); closed[c] = 1; break;
		}
		if (n > left) n = left;
		if (n > 0) { if (syscall(SYS_write, peer[c], P[c].b + P[c].pos, n) != n) mc_error("write"); P[c].pos += n; }
		if (mc_choose(2, "read now")) {
			int f = fault; reintr = f == 1 ? 2 : 0; rlim = f == 2 ? 1 : f == 3 ? -1 : 0;
			tick(-1, 0, EAGAIN); reintr = 0; rlim = 0;
			for (int k = 0; k < 2; k++) if (ropen[k] && !closed[k]) { int w = 0; while (w < P[k].nmsg && P[k].end[w] <= P[k].pos) w++; if (rgot[k] != w) mc_fail("connection %d: %d complete messages are sent, %d given", k, w, rgot[k]); }
			for (int k = 0; k < 2; k++) if (!closed[k] && !ropen[k]) mc_fail("connection %d was closed", k);
		}
	}
	reintr = fault == 1 ? 2 : 0; rlim = fault == 2 ? 1 : fault == 3 ? -1 : 0;
	tick(-1, 0, EAGAIN);
	for (int k = 0; k < 2; k++) {
		int w = 0; while (w < P[k].nmsg && P[k].end[w] <= P[k].pos) w++;
		if (rgot[k] != w) mc_fail("connection %d: %d complete messages were sent, %d given in the end", k, w, rgot[k]);
		if (ropen[k] == closed[k]) mc_fail("connection %d: closed by the peer %d, open %d", k, closed[k], ropen[k]);
	}
	if (rclosed != closed[0] + closed[1]) mc_fail("%d closes reported, %d closed", rclosed, closed[0] + closed[1]);
	mc_obs((uint64_t) (rgot[0] * 10 + rgot[1]));
	rrr_socket_client_collection_destroy(C[0]);
	if (rclosed != 2 || ropen[0] || ropen[1]) mc_fail("not all connections closed");
	for (int c = 0; c < 2; c++) if (!closed[c]) close(peer[c]);
	rrr_event_queue_destroy(Q); rrr_socket_close_all(); unlink(path[0]);
}
static const struct mc_scenario sc[] = {
	{ "queue", queue, -1, -1, MC_LEAKCHECK, NULL },
	{ "send", send_hist, -1, -1, MC_LEAKCHECK, NULL },
	{ "connect", connect_hist, -1, -1, MC_LEAKCHECK, NULL },
	{ "read", read_hist, -1, -1, MC_LEAKCHECK, NULL },
};
int main (int c, char **v) { rrr_strerror_init(); return mc_main(c, v, "C29", sc, (int) (sizeof sc / sizeof *sc)); }
