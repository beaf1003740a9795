// FLAVOR: asan
/* C17: the real message database server on a scratch directory. The client collection (sockets) is replaced by direct calls,
 * the clock is virtual and every file system call may crash, fail or be torn. The oracle is a map from topic to message. */
#include "mc.h"
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <errno.h>
#include <limits.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include "lib/log.h"
#include "lib/allocator.h"
#include "lib/rrr_types.h"
#include "lib/rrr_strerror.h"
#include "lib/messages/msg.h"
#include "lib/messages/msg_msg.h"
#include "lib/messages/msg_checksum.h"
#include "lib/socket/rrr_socket.h"
#include "lib/socket/rrr_socket_client.h"
#include "lib/socket/rrr_socket_read.h"
#include "lib/event/event.h"
#include "lib/event/event_collection.h"
#include "lib/event/event_collection_struct.h"
#include "lib/event/event_handle_struct.h"
#include "lib/msgdb/msgdb_server.h"
#include "lib/msgdb/msgdb_common.h"
#include "lib/util/sha256.h"

/* ---- clock ---- */
static uint64_t now, step;
uint64_t rrr_time_get_64 (void) { return now += step; }

/* ---- hash: real shape, chosen so that topics share 4, 2 or 0 directories ---- */
#define NT 4
static const char *topic[NT] = { "a", "a/b", "x", "a/bb/ccccccccccccccccccccccccccccc" };
void rrr_sha256_calculate (uint8_t h[RRR_SHA256_SIZE], const void *in, size_t n) {
	memset(h, 0, RRR_SHA256_SIZE); int k = -1;
	for (int i = 0; i < NT; i++) if (strlen(topic[i]) == n && !memcmp(topic[i], in, n)) k = i;
	if (k == 1) h[31] = 1; else if (k == 2) { h[0] = 0x01; h[1] = 0xf2; } else if (k == 3) { memset(h, 0xfe, RRR_SHA256_SIZE); h[1] = 0xdc; } else if (k < 0) { h[5] = 7; for (size_t i = 0; i < n; i++) h[10 + i % 16] ^= ((const uint8_t *) in)[i]; }
}

/* ---- file system calls of the server ---- */
static int active, frozen, crash_on, fault_on, nfault, torn_size; static uint8_t torn_buf[4096];
enum { K_MKDIR, K_CREATE, K_OPEN, K_WRITE, K_UNLINK, K_RMDIR, K_RENAME, K_CHDIR, K_READ };
static const char *kname[] = { "mkdir", "create", "open", "write", "unlink", "rmdir", "rename", "chdir", "read" };
/* returns 1: do it, 0: pretend, -1: fail */
static void (*chdir_hook)(void);
static int gate (int k) {
	if (!active) return 1;
	if (frozen) return k == K_OPEN || k == K_CHDIR || k == K_READ ? 1 : 0;
	if (crash_on && k != K_OPEN && k != K_CHDIR && k != K_READ && mc_dev(2, kname[k])) { mc_log("  crash before %s", kname[k]); frozen = 1; return 0; }
	if (fault_on && mc_dev(2, kname[k])) { mc_log("  %s fails", kname[k]); nfault++; errno = k == K_WRITE || k == K_MKDIR || k == K_CREATE ? ENOSPC : k == K_OPEN ? EMFILE : EIO; return -1; }
	return 1;
}
int mkdir (const char *p, mode_t m) { int g = gate(K_MKDIR); return g > 0 ? (int) syscall(SYS_mkdirat, AT_FDCWD, p, m) : g; }
int unlink (const char *p) { int g = gate(K_UNLINK); return g > 0 ? (int) syscall(SYS_unlinkat, AT_FDCWD, p, 0) : g; }
int rmdir (const char *p) { int g = gate(K_RMDIR); return g > 0 ? (int) syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR) : g; }
int rename (const char *a, const char *b) { int g = gate(K_RENAME); return g > 0 ? (int) syscall(SYS_renameat, AT_FDCWD, a, AT_FDCWD, b) : g; }
int chdir (const char *p) { int g = gate(K_CHDIR); if (g < 0) return -1; int r = (int) syscall(SYS_chdir, p); if (active && chdir_hook) chdir_hook(); return r; }
int open (const char *p, int fl, ...) {
	va_list a; va_start(a, fl); int m = fl & O_CREAT ? va_arg(a, int) : 0; va_end(a);
	int g = gate(fl & (O_CREAT|O_TRUNC|O_WRONLY|O_RDWR) ? K_CREATE : K_OPEN); if (g < 0) return -1;
	return (int) syscall(SYS_openat, AT_FDCWD, g ? p : "/dev/null", g ? fl : O_WRONLY, m);
}
ssize_t read (int fd, void *b, size_t n) { if (active && gate(K_READ) < 0) return -1; return syscall(SYS_read, fd, b, n); }
static size_t some_len (size_t n) { if (mc_tier()) return (size_t) mc_choose((int) n, "written bytes"); size_t l[] = { 0, 1, 17, 18, 29, 30, n - 2, n - 1 }; size_t k = l[mc_choose(8, "written bytes")]; return k < n ? k : n - 1; }
ssize_t write (int fd, const void *b, size_t n) {
	if (!active || fd < 3) return syscall(SYS_write, fd, b, n);
	if (!frozen && crash_on && mc_dev(2, "crash in write")) {
		frozen = 1;
		if (mc_bool("power loss")) {
			uint8_t t[4096]; mc_assert(n <= sizeof t); memcpy(t, b, n); int parts = mc_tier() ? 5 : 3, sect = ((int) n + parts - 1) / parts, bad = 0;
			for (int o = 0; o < (int) n; o += sect) { int k = mc_choose(3, "sector"), l = (int) n - o < sect ? (int) n - o : sect; if (k == 1) memset(t + o, 0, (size_t) l), bad = 1; else if (k == 2) { bad = 1; if (torn_size >= o + l) memcpy(t + o, torn_buf + o, (size_t) l); else memset(t + o, 0x5a, (size_t) l); } }
			(void) bad; syscall(SYS_write, fd, t, n);
		}
		else syscall(SYS_write, fd, b, some_len(n + 1));
		return (ssize_t) n;
	}
	int g = gate(K_WRITE); if (!g) return (ssize_t) n;
	if (g < 0) { int k = mc_choose(3, "failing write"); if (k == 0) return -1; size_t l = k == 1 ? 1 : n / 2; syscall(SYS_write, fd, b, l); return (ssize_t) l; }
	return syscall(SYS_write, fd, b, n);
}

/* ---- sockets ---- */
static struct { int (*nw)(void **, int, void *); void (*del)(void *); void *arg; int (*msg)(struct rrr_msg_msg **, void *, void *); int (*ctrl)(const struct rrr_msg *, void *, void *); void *cbarg; } CB, CBs[2];
#define NC 3
static struct { void *priv; void (*tick)(int, short, void *); void *targ; int closing, open; struct { int kind, t; uint64_t ts; int len, cls; uint32_t h; } out[64]; int n, lost; } cl[NC];
static int cur;
int rrr_socket_client_collection_new (struct rrr_socket_client_collection **t, struct rrr_event_queue *q, const char *c) { (void) q; (void) c; *t = malloc(1); return 0; }
void rrr_socket_client_collection_event_setup (struct rrr_socket_client_collection *c, int (*nw)(void **, int, void *), void (*del)(void *), void *arg, rrr_biglength st, int fl,
		void (*srf)(RRR_SOCKET_CLIENT_SET_READ_FLAGS_CALLBACK_ARGS), void *srfa, RRR_MSG_TO_HOST_AND_VERIFY_CALLBACKS_COMMA, void *cbarg) {
	(void) c; (void) st; (void) fl; (void) srf; (void) srfa; (void) callback_addr_msg; (void) callback_log_msg; (void) callback_stats_msg;
	CB.nw = nw; CB.del = del; CB.arg = arg; CB.msg = callback_msg; CB.ctrl = callback_ctrl_msg; CB.cbarg = cbarg;
}
int rrr_socket_client_collection_listen_fd_push (struct rrr_socket_client_collection *c, int fd) { (void) c; (void) fd; return 0; }
void rrr_socket_client_collection_destroy (struct rrr_socket_client_collection *c) { free(c); }
void rrr_socket_client_collection_close_when_send_complete_by_fd (struct rrr_socket_client_collection *c, int fd) { (void) c; cl[fd - 100].closing = 1; }
int rrr_socket_unix_create_bind_and_listen (int *fd, const char *cr, const char *fn, int n, int nb, int mk, int ul) { (void) cr; (void) fn; (void) n; (void) nb; (void) mk; (void) ul; *fd = 99; return 0; }
int rrr_socket_client_collection_send_push (rrr_length *cnt, struct rrr_socket_client_collection *c, int fd, void **data, rrr_biglength n) {
	(void) c; *cnt = 1; int k = fd - 100; mc_check(k >= 0 && k < NC && cl[k].open, "answer to a client which does not exist");
	uint8_t *d = malloc(n); memcpy(d, *data, n); rrr_free(*data); *data = NULL; struct rrr_msg *m = (struct rrr_msg *) d; rrr_length tgt;
	mc_check(rrr_msg_get_target_size_and_check_checksum(&tgt, m, (rrr_length) n) == 0 && tgt == n, "bad header sent");
	mc_check(rrr_msg_head_to_host_and_verify(m, (rrr_length) n) == 0 && rrr_msg_check_data_checksum_and_length(m, (rrr_length) n) == 0, "damaged message sent");
	mc_check(cl[k].n < 64, "answers never end");
	int i = cl[k].n++; memset(&cl[k].out[i], 0, sizeof cl[k].out[i]); cl[k].out[i].t = -1;
	if (RRR_MSG_IS_CTRL(m)) { unsigned f = RRR_MSG_CTRL_FLAGS(m); cl[k].out[i].kind = f & RRR_MSGDB_CTRL_F_ACK ? 'A' : f & RRR_MSGDB_CTRL_F_NACK ? 'N' : f & RRR_MSGDB_CTRL_F_PONG ? 'P' : '?'; }
	else {
		struct rrr_msg_msg *g = (struct rrr_msg_msg *) d; mc_check(rrr_msg_msg_to_host_and_verify(g, n) == 0, "damaged message sent");
		cl[k].out[i].kind = 'M'; cl[k].out[i].ts = g->timestamp; cl[k].out[i].len = (int) MSG_DATA_LENGTH(g); cl[k].out[i].cls = MSG_CLASS(g);
		mc_check(MSG_TYPE(g) == MSG_TYPE_MSG, "type %d sent", MSG_TYPE(g));
		for (int t = 0; t < NT; t++) if (MSG_TOPIC_LENGTH(g) == strlen(topic[t]) && !memcmp(MSG_TOPIC_PTR(g), topic[t], strlen(topic[t]))) cl[k].out[i].t = t;
		uint32_t h = 5; for (unsigned j = 0; j < MSG_DATA_LENGTH(g); j++) h = h * 31 + (uint8_t) MSG_DATA_PTR(g)[j]; cl[k].out[i].h = h;
	}
	free(d); return 0;
}
int rrr_event_collection_push_periodic (rrr_event_handle *h, struct rrr_event_collection *c, void (*cb)(evutil_socket_t, short, void *), void *arg, uint64_t us) { (void) c; (void) us; h->event = (void *) 0x11; cl[cur].tick = cb; cl[cur].targ = arg; return 0; }
void rrr_event_collection_init (struct rrr_event_collection *c, struct rrr_event_queue *q) { (void) c; (void) q; }
void rrr_event_collection_clear (struct rrr_event_collection *c) { (void) c; }
int event_add (struct event *e, const struct timeval *tv) { (void) e; (void) tv; return 0; }
int event_del (struct event *e) { (void) e; cl[cur].tick = NULL; return 0; }

/* ---- server ---- */
static char base[PATH_MAX]; static struct rrr_msgdb_server *S; static unsigned levels;
static void c_open (int k) { cur = k; memset(&cl[k], 0, sizeof cl[k]); cl[k].open = 1; mc_check(CB.nw(&cl[k].priv, 100 + k, CB.arg) == 0, "client"); }
static void c_close (int k) { if (cl[k].open) CB.del(cl[k].priv); cl[k].open = 0; cl[k].priv = NULL; }
static void start (unsigned lv) { levels = lv; active = 1; mc_check(rrr_msgdb_server_new(&S, (void *) 0x22, base, "sock", lv) == 0, "server does not start"); active = 0; c_open(0); }
static void stop (void) { for (int k = 0; k < NC; k++) c_close(k); active = 1; rrr_msgdb_server_destroy(S); active = 0; }
static void wipe (const char *p) { DIR *d = opendir(p); if (!d) return; struct dirent *e; while ((e = readdir(d))) { if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue; char q[PATH_MAX + 300]; snprintf(q, sizeof q, "%s/%s", p, e->d_name); if (e->d_type == DT_DIR) { wipe(q); rmdir(q); } else unlink(q); } closedir(d); }
static void begin (void) {
	active = frozen = crash_on = fault_on = nfault = torn_size = 0; chdir_hook = NULL; now = 1700000000000000ull; step = 0; memset(cl, 0, sizeof cl);
	snprintf(base, sizeof base, "%s/db", mc_scratch()); mkdir(base, 0777); wipe(base); mc_assert(chdir("/") == 0);
}

/* ---- model ---- */
struct val { int len, cls; uint64_t ts; uint32_t h; };
static struct val M[NT]; static int has[NT];          /* current */
static struct val P[NT][4]; static int np[NT], none[NT], fuzzy[NT];   /* what is allowed while fuzzy */
static const int lens[] = { 0, 5, 100, 3 }; static const uint64_t ages[] = { 1000000, 100000000000ull, 1000000, 100000000000ull };
static void *mkmsg (int type, int t, int v, struct val *w) {
	struct rrr_msg_msg *m; char d[200]; int l = v < 0 ? 0 : lens[v]; uint32_t h = 5; for (int i = 0; i < l; i++) { d[i] = (char) (i * 7 + v * 3 + t); h = h * 31 + (uint8_t) d[i]; }
	uint64_t ts = v < 0 ? now : now - ages[v]; int cls = v == 3 ? MSG_CLASS_ARRAY : MSG_CLASS_DATA;
	mc_assert(rrr_msg_msg_new_with_data(&m, (rrr_u8) type, (rrr_u8) cls, ts, topic[t], (rrr_u16) strlen(topic[t]), d, (rrr_u32) l) == 0);
	if (w) *w = (struct val) { l, cls, ts, h };
	return m;
}
static int same (struct val a, struct val b) { return a.len == b.len && a.cls == b.cls && a.ts == b.ts && a.h == b.h; }
static struct val outv (int k, int i) { return (struct val) { cl[k].out[i].len, cl[k].out[i].cls, cl[k].out[i].ts, cl[k].out[i].h }; }
static int call_msg (int k, struct rrr_msg_msg *m) { cur = k; active = 1; int r = CB.msg(&m, cl[k].priv, CB.cbarg); active = 0; free(m); if (r) c_close(k); return r; }
static int call_ctrl (int k, unsigned fl, uint32_t v) { struct rrr_msg m; rrr_msg_populate_control_msg(&m, (rrr_u16) fl, v); cur = k; active = 1; int r = CB.ctrl(&m, cl[k].priv, CB.cbarg); active = 0; if (r) c_close(k); return r; }
/* one round of the iteration event of a client; returns 1 while the session may go on */
static int tick (int k) { if (!cl[k].open || !cl[k].tick) return 0; cur = k; active = 1; cl[k].tick(-1, 0, cl[k].targ); active = 0; now += 50000; if (cl[k].closing) { c_close(k); return 0; } return cl[k].n == 0 || cl[k].out[cl[k].n - 1].kind != 'A'; }
static void run_session (int k) { for (int i = 0; tick(k); i++) mc_check(i < 3000, "index or tidy never ends"); }
static void reopen (int k) { if (!cl[k].open) c_open(k); cl[k].n = 0; }

static int faulted, inidx;     /* the current request met an I/O failure */
static void put (int k, int t, int v) {
	struct val w; struct rrr_msg_msg *m = mkmsg(MSG_TYPE_PUT, t, v, &w); reopen(k); nfault = 0; int r = call_msg(k, m);
	mc_log(" put %s = %d: %d", topic[t], v, r);
	if (frozen || nfault) { int n = 0; if (has[t]) P[t][n++] = M[t]; P[t][n++] = w; np[t] = n; none[t] = 1; fuzzy[t] = 1; faulted = 1; if (!frozen) mc_check(r != 0 || (cl[k].n == 1 && (cl[k].out[0].kind == 'N' || cl[k].out[0].kind == 'A')), "put with I/O failure: %d answers", cl[k].n);
		if (!frozen && r == 0 && cl[k].out[0].kind == 'A') { fuzzy[t] = 0; has[t] = 1; M[t] = w; } return; }
	mc_check(r == 0 && cl[k].n == 1 && cl[k].out[0].kind == 'A', "put: result %d, %d answers", r, cl[k].n);
	has[t] = 1; M[t] = w; fuzzy[t] = 0;
}
static void settle (int k, int t, int i) {
	struct val g = outv(k, i); mc_check(cl[k].out[i].t == t, "message for another topic");
	if (!fuzzy[t]) { mc_check(has[t] && same(g, M[t]), "topic '%s': not the message last stored", topic[t]); return; }
	int ok = 0; for (int j = 0; j < np[t]; j++) ok |= same(g, P[t][j]);
	mc_check(ok, "topic '%s': neither the old nor the new message", topic[t]);
	M[t] = g; has[t] = 1; fuzzy[t] = 0;
}
static void get (int k, int t) {
	reopen(k); nfault = 0; int r = call_msg(k, mkmsg(MSG_TYPE_GET, t, -1, NULL));
	mc_log(" get %s: %d %c", topic[t], r, cl[k].n ? cl[k].out[0].kind : '-');
	if (nfault && r) return;
	mc_check(r == 0 && cl[k].n == 1, "get: result %d, %d answers", r, cl[k].n);
	if (cl[k].out[0].kind == 'M') { settle(k, t, 0); return; }
	mc_check(cl[k].out[0].kind == 'N', "get answered with %c", cl[k].out[0].kind);
	if (nfault) return;
	if (fuzzy[t]) { mc_check(none[t], "topic '%s' disappeared", topic[t]); has[t] = 0; fuzzy[t] = 0; return; }
	mc_check(!has[t], "topic '%s' is not found", topic[t]);
}
static void del (int k, int t) {
	reopen(k); nfault = 0; int r = call_msg(k, mkmsg(MSG_TYPE_DEL, t, -1, NULL)); mc_log(" del %s: %d", topic[t], r);
	if (frozen || nfault) { if (!fuzzy[t]) { np[t] = 0; if (has[t]) P[t][np[t]++] = M[t]; none[t] = 1; } if (has[t] || fuzzy[t]) { none[t] = 1; fuzzy[t] = 1; }
		if (!frozen && r == 0 && cl[k].n == 1 && cl[k].out[0].kind == 'A') has[t] = fuzzy[t] = 0;
		return; }
	mc_check(r == 0 && cl[k].n == 1 && cl[k].out[0].kind == 'A', "del: result %d, %d answers", r, cl[k].n); has[t] = 0; fuzzy[t] = 0;
}
static const uint32_t limits[] = { 0, 50000, 4294967295u };
static int older (int t, uint32_t lim) { return M[t].ts + (uint64_t) lim * 1000000 < now; }
static int optional[NT];       /* topics changed by others during the session */
static void check_idx (int k, uint32_t lim, int dont_settle) {
	int seen[NT] = { 0 }, n = cl[k].n; mc_check(n >= 1 && cl[k].out[n - 1].kind == 'A', "index does not end with an acknowledgement");
	for (int i = 0; i < n - 1; i++) { mc_check(cl[k].out[i].kind == 'M' && cl[k].out[i].t >= 0, "index contains something else"); int t = cl[k].out[i].t; mc_check(!seen[t]++, "topic '%s' is listed twice", topic[t]);
		if (optional[t]) { struct val g = outv(k, i); int ok = has[t] && same(g, M[t]); for (int j = 0; j < np[t]; j++) ok |= same(g, P[t][j]); mc_check(ok, "topic '%s' was never so", topic[t]); continue; }
		if (!dont_settle) settle(k, t, i);
		if (!optional[t]) mc_check(older(t, lim), "topic '%s' is too new", topic[t]); }
	for (int t = 0; t < NT; t++) if (!optional[t] && !seen[t]) {
		if (fuzzy[t]) { if (lim == 0 && !nfault) { mc_check(none[t], "topic '%s' disappeared", topic[t]); has[t] = fuzzy[t] = 0; } continue; }
		mc_check(!has[t] || !older(t, lim) || nfault, "topic '%s' is not listed", topic[t]); }
}
static void idx (int k, uint32_t lim) {
	reopen(k); nfault = 0; int r = call_ctrl(k, RRR_MSGDB_CTRL_F_IDX, lim); if (r == 0) run_session(k); mc_log(" idx %u: %d, %d answers", lim, r, cl[k].n);
	if (nfault && !cl[k].open) return;
	mc_check(r == 0 && cl[k].open, "index: connection closed"); check_idx(k, lim, 0);
}
static void tidy (int k, uint32_t lim) {
	reopen(k); nfault = 0; int r = call_ctrl(k, RRR_MSGDB_CTRL_F_TIDY, lim); if (r == 0) run_session(k); mc_log(" tidy %u: %d", lim, r);
	for (int t = 0; t < NT; t++) {
		if (!has[t] && !fuzzy[t]) continue;
		if (fuzzy[t]) { none[t] = 1; continue; }
		if (!older(t, lim)) continue;
		if (frozen || nfault) { fuzzy[t] = 1; np[t] = 1; P[t][0] = M[t]; none[t] = 1; } else has[t] = 0;
	}
	if (frozen || nfault) return;
	mc_check(r == 0 && cl[k].open && cl[k].n == 1 && cl[k].out[0].kind == 'A', "tidy: result %d, %d answers", r, cl[k].n);
}
static void verify (void) { fault_on = crash_on = 0; for (int t = 0; t < NT; t++) get(0, t); idx(0, 0); idx(0, 50000); for (int t = 0; t < NT; t++) get(0, t); }
static void reset_model (void) { memset(has, 0, sizeof has); memset(fuzzy, 0, sizeof fuzzy); memset(optional, 0, sizeof optional); memset(np, 0, sizeof np); faulted = inidx = 0; }

static uint64_t tree_hash (const char *p, size_t cut) { /* order independent */
	uint64_t h = 1; DIR *d = opendir(p); if (!d) return 0; struct dirent *e;
	while ((e = readdir(d))) { if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue; char q[PATH_MAX + 300]; snprintf(q, sizeof q, "%s/%s", p, e->d_name); uint64_t x = 1469598103934665603ull; for (char *c = q + cut; *c; c++) x = (x ^ (uint8_t) *c) * 1099511628211ull; if (e->d_type == DT_DIR) x += 3 * tree_hash(q, cut); h += x * x; }
	closedir(d); return h;
}
static const unsigned lvs[] = { 0, 1, 2, 3 };
/* returns 1 if the same state of model and directory was reached in another way with as many operations left; the way which came first is continued */
static uint64_t path;
static int dedupe (int left) { uint64_t h = tree_hash(base, strlen(base)) * 31 + levels * 7 + (uint64_t) left; for (int t = 0; t < NT; t++) h = h * 1099511628211ull + (has[t] ? M[t].h + M[t].len + (now - M[t].ts > 1000000000 ? 77 : 0) + (uint64_t) M[t].cls : 1); char c[PATH_MAX]; size_t bl = strlen(base); if (getcwd(c, sizeof c)) for (char *q = strncmp(c, base, bl) ? c : c + bl; *q; q++) h = (h ^ (uint8_t) *q) * 1099511628211ull; h += step; int seen = mc_state(h), owner = mc_state(h ^ path * 0x9e3779b97f4a7c15ull); return seen && !owner; }
static void one_op (int nt, int nv, int restart) {
	int nops = nt * nv + 2 * nt + 6 + (restart ? 3 : 0), o = mc_choose(nops, "op"); path = path * 1099511628211ull + (uint64_t) o + 1;
	if (o < nt * nv) { put(0, o / nv, o % nv); return; } o -= nt * nv;
	if (o < nt) { get(0, o); return; } o -= nt;
	if (o < nt) { del(0, o); return; } o -= nt;
	if (o < 3) { idx(0, limits[o]); return; } o -= 3;
	if (o < 3) { tidy(0, limits[o]); return; } o -= 3;
	stop(); start(lvs[o]);
}
static void map (void) {
	begin(); reset_model(); int d = mc_tier() ? 6 : 5, nt = mc_tier() ? 4 : 3, nv = mc_tier() ? 3 : 2; step = (uint64_t) mc_pick((int[]) { 0, 60000 }, 2, "clock");
	path = 7 + step; { int l = mc_choose(3, "levels"); path += (uint64_t) l * 1000003; start(lvs[l]); }
	for (int i = 0; i < d; i++) { one_op(nt, nv, 1); mc_step(); if (dedupe(d - i)) break; }
	verify(); stop();
}
/* one client lists or tidies, slowly, while others work */
static void others (void) {
	begin(); reset_model(); start(lvs[mc_choose(3, "levels")]);
	for (int t = 0; t < NT; t++) if (mc_bool("there")) put(0, t, t == 3 ? mc_choose(2, "age") : 1);
	c_open(1); step = (uint64_t) mc_pick((int[]) { 60000, 40000, 0 }, 3, "clock"); int tid = mc_bool("tidy"), left = mc_tier() ? 3 : 2, over = 0; uint32_t lim = mc_bool("limit") ? 50000 : 0;
	mc_check(call_ctrl(1, tid ? RRR_MSGDB_CTRL_F_TIDY : RRR_MSGDB_CTRL_F_IDX, lim) == 0, "refused"); nfault = 0;
	struct val M0[NT]; int has0[NT]; memcpy(M0, M, sizeof M); memcpy(has0, has, sizeof has); uint64_t st = step;
	for (int i = 0; i < 3000 && !over; i++) {
		if (left && i < (mc_tier() ? 4 : 6)) { int o = mc_dev(3 * NT + 3, "other client"); if (o) { left--; o--; step = 0;
			if (o < NT) { optional[o] = 1; if (has[o] || fuzzy[o]) { if (np[o] < 3) P[o][np[o]++] = M[o]; } int was = np[o]; struct val keep[4]; memcpy(keep, P[o], sizeof keep); fuzzy[o] = 0; put(0, o, 2); memcpy(P[o], keep, sizeof keep); np[o] = was; P[o][np[o]++] = M[o]; }
			else if (o < 2 * NT) { int t = o - NT; if (!optional[t]) { optional[t] = 1; if (has[t] && np[t] < 3) P[t][np[t]++] = M[t]; } fuzzy[t] = 0; del(0, t); }
			else if (o < 3 * NT) { int t = o - 2 * NT; if (tid && has[t]) { fuzzy[t] = 1; if (!optional[t]) { np[t] = 1; P[t][0] = M[t]; } none[t] = 1; struct val m = M[t]; int h = has[t]; get(0, t); M[t] = m; has[t] = h; fuzzy[t] = 0; } else get(0, t); }
			else if (o == 3 * NT) { c_close(1); break; }
			else if (o == 3 * NT + 1) { reopen(2); call_ctrl(2, RRR_MSGDB_CTRL_F_PING, 0); mc_check(cl[2].n == 1 && cl[2].out[0].kind == 'P', "no pong"); }
			step = st; } }
		over = !tick(1);
	}
	if (cl[1].open) {
		mc_check(over, "index or tidy never ends"); mc_obs((uint64_t) cl[1].n);
		if (tid) { mc_check(cl[1].n == 1 && cl[1].out[0].kind == 'A', "tidy: %d answers", cl[1].n); for (int t = 0; t < NT; t++) { if (optional[t] && has[t]) { fuzzy[t] = 1; none[t] = older(t, lim); np[t] = 1; P[t][0] = M[t]; } else if (has[t] && older(t, lim)) has[t] = 0; } }
		else check_idx(1, lim, 0);
	}
	else if (tid) for (int t = 0; t < NT; t++) if (has[t] && older(t, lim)) { fuzzy[t] = 1; none[t] = 1; np[t] = 1; P[t][0] = M[t]; }
	memset(optional, 0, sizeof optional); step = 0; verify(); stop();
}
static void load_torn (int t) { /* bytes of the previous version, may show up in sectors never written */
	char q[PATH_MAX + 100]; char hex[70]; uint8_t h[32]; rrr_sha256_calculate(h, topic[t], strlen(topic[t])); for (int i = 0; i < 32; i++) sprintf(hex + 2 * i, "%02x", h[i]);
	char dirs[20] = ""; for (unsigned i = 0; i < levels; i++) { size_t l = strlen(dirs); dirs[l] = hex[i]; dirs[l + 1] = '/'; dirs[l + 2] = 0; }
	snprintf(q, sizeof q, "%s/%s%s", base, dirs, hex); int fd = open(q, O_RDONLY); torn_size = 0; if (fd >= 0) { torn_size = (int) read(fd, torn_buf, sizeof torn_buf); close(fd); }
}
static void file_of (int t, char *q, size_t n) { char hex[70]; uint8_t h[32]; rrr_sha256_calculate(h, topic[t], strlen(topic[t])); for (int i = 0; i < 32; i++) sprintf(hex + 2 * i, "%02x", h[i]); char dirs[20] = ""; for (unsigned i = 0; i < levels; i++) { size_t l = strlen(dirs); dirs[l] = hex[i]; dirs[l + 1] = '/'; dirs[l + 2] = 0; } snprintf(q, n, "%s/%s%s", base, dirs, hex); }
static void crash (void) {
	begin(); reset_model(); start(lvs[mc_choose(3, "levels")]);
	put(0, 3, 1); int t = mc_choose(mc_tier() ? 3 : 2, "topic"); if (t) put(0, 0, 1);
	if (mc_bool("had")) put(0, t, mc_tier() ? 1 + mc_choose(2, "old") : 2);
	load_torn(t); crash_on = 1; unsigned nl = levels;
	int o = mc_choose(4, "op"); if (o == 0) put(0, t, mc_tier() ? mc_choose(4, "new") : mc_pick((int[]) { 1, 2 }, 2, "new")); else if (o == 1) del(0, t); else if (o == 2) tidy(0, limits[mc_choose(2, "limit")]);
	else { stop(); nl = lvs[mc_choose(3, "new levels")]; start(nl); }
	crash_on = 0; frozen = 0; mc_obs((uint64_t) faulted);
	/* the machine starts again, possibly with other settings */
	for (int k = 0; k < NC; k++) if (cl[k].open) c_close(k);
	rrr_msgdb_server_destroy(S); (void) !chdir("/"); int f = mc_choose(5, "after"); start(f == 4 ? lvs[mc_choose(3, "levels after")] : nl);
	if (f == 1) idx(0, 0); else if (f == 2) put(0, t, 3); else if (f == 3) tidy(0, 50000);
	verify(); stop();
}
/* every request with failing system calls */
static void failures (void) {
	begin(); reset_model(); start(lvs[mc_choose(3, "levels")]);
	if (mc_bool("a")) put(0, 0, 1);
	if (mc_bool("b")) put(0, 1, 2);
	put(0, 3, 1);
	int d = mc_tier() ? 2 : 1; step = mc_tier() && mc_bool("slow") ? 60000 : 0;
	for (int i = 0; i < d; i++) { fault_on = 1; one_op(2, 2, 0); fault_on = 0; mc_step(); }
	step = 0; verify(); stop();
}
/* damaged files are never served and do not disturb others */
static void damage (void) {
	begin(); reset_model(); start(lvs[mc_choose(3, "levels")]); put(0, 0, 1); put(0, 3, 2); int v = mc_choose(4, "value"); put(0, 1, v);
	char q[PATH_MAX + 100]; file_of(1, q, sizeof q); uint8_t b[4096]; int fd = open(q, O_RDWR); mc_assert(fd >= 0); int n = (int) read(fd, b, sizeof b);
	int k = mc_choose(5, "damage"), p = mc_choose(n, "position");
	if (k == 0) mc_assert(ftruncate(fd, p) == 0);
	else if (k == 1) { b[p] ^= (uint8_t) (1 << mc_choose(mc_tier() ? 8 : 2, "bit")); pwrite(fd, b, (size_t) n, 0); }
	else if (k == 2) { uint8_t z = b[p]; b[p] = 0; pwrite(fd, b, (size_t) n, 0); if (z == 0) { close(fd); mc_prune(); } }
	else if (k == 3) { pwrite(fd, b, (size_t) p + 1, n); }
	else { int e = p, w = mc_choose(2, "with") ? 0xff : 0, ch = 0; for (int i = e; i < n; i++) { ch |= b[i] != w; b[i] = (uint8_t) w; } pwrite(fd, b, (size_t) n, 0); if (!ch) { close(fd); mc_prune(); } }
	close(fd);
	fuzzy[1] = 1; none[1] = 1; np[1] = 1; P[1][0] = M[1];
	int o = mc_choose(4, "first"); if (o == 0) idx(0, 0); else if (o == 1) tidy(0, 50000); else if (o == 2) { stop(); start(2); } else get(0, 1);
	if (o == 0) { int l = 0; for (int i = 0; i < cl[0].n; i++) l |= cl[0].out[i].kind == 'M' && cl[0].out[i].t == 1; mc_obs((uint64_t) l); }
	verify(); put(0, 1, 0); verify(); stop();
}
/* other requests */
static void misc (void) {
	begin(); reset_model(); start(1); put(0, 0, 0); put(0, 2, 1);
	int o = mc_choose(7, "request"), r;
	if (o == 0) { r = call_ctrl(0, RRR_MSGDB_CTRL_F_PING, 0); cl[0].n--; mc_check(r == 0 && cl[0].out[cl[0].n].kind == 'P', "no pong"); }
	else if (o == 1) { struct rrr_msg_msg *m; mc_assert(rrr_msg_msg_new_empty(&m, (rrr_u8) mc_pick((int[]) { MSG_TYPE_PUT, MSG_TYPE_GET, MSG_TYPE_DEL }, 3, "type"), MSG_CLASS_DATA, now, 0, 0) == 0); reopen(0); r = call_msg(0, m); mc_check(r == 0 && cl[0].n == 1 && cl[0].out[0].kind == 'N', "request without topic"); }
	else if (o == 2) { reopen(0); r = call_msg(0, mkmsg(mc_bool("tag") ? MSG_TYPE_TAG : MSG_TYPE_MSG, 0, 0, NULL)); mc_check(r == RRR_READ_SOFT_ERROR || r == RRR_READ_EOF || (r == 0 && cl[0].n == 1 && cl[0].out[0].kind == 'N'), "unknown type: result %d", r); }
	else if (o == 3) { reopen(0); r = call_ctrl(0, RRR_MSG_CTRL_F_USR_A << 2, 0); mc_check(r == RRR_READ_SOFT_ERROR || r == RRR_READ_EOF || cl[0].n == 1, "unknown control message: result %d", r); }
	else if (o == 4) { /* a second listing while one is going on must at most close this connection */ reopen(0); unsigned f = mc_bool("tidy") ? RRR_MSGDB_CTRL_F_TIDY : RRR_MSGDB_CTRL_F_IDX; mc_check(call_ctrl(0, f, 10) == 0, "idx"); r = call_ctrl(0, mc_bool("tidy") ? RRR_MSGDB_CTRL_F_TIDY : RRR_MSGDB_CTRL_F_IDX, 10); mc_check(r == 0 || r == RRR_READ_SOFT_ERROR || r == RRR_READ_EOF, "a client stops the whole server (result %d)", r); stop(); start(1); mc_obs((uint64_t) r); return stop(); }
	else if (o == 5) { /* foreign things in the directory */ char q[PATH_MAX + 20]; snprintf(q, sizeof q, "%s/0/dir", base); mkdir(q, 0777); snprintf(q, sizeof q, "%s/0/%s", base, mc_bool("empty") ? "x" : "00ff"); int fd = open(q, O_CREAT|O_WRONLY, 0600); if (mc_bool("text")) (void) !syscall(SYS_write, fd, "hello this is not a message at all", 34); close(fd); idx(0, 0); }
	else { /* directory levels out of range */ stop(); struct rrr_msgdb_server *s = NULL; mc_check(rrr_msgdb_server_new(&s, (void *) 0x22, base, "sock", 5) != 0, "5 levels accepted"); start(1); }
	verify(); stop();
}
/* two servers with their own directories in one process */
static char base_b[PATH_MAX];
static void two (void) {
	begin(); reset_model(); char b0[PATH_MAX]; strcpy(b0, base); snprintf(base_b, sizeof base_b, "%s/db2", mc_scratch()); mkdir(base_b, 0777); wipe(base_b);
	unsigned l0 = (unsigned) mc_choose(3, "levels"), l1 = (unsigned) mc_choose(3, "levels"); static struct rrr_msgdb_server *SS[2]; static void *privs[2]; int hv[2][2] = { { 0 } };
	for (int s = 0; s < 2; s++) { strcpy(base, s ? base_b : b0); start(s ? l1 : l0); SS[s] = S; CBs[s] = CB; privs[s] = cl[0].priv; }
	for (int i = 0; i < 4; i++) {
		int s = mc_choose(2, "server"), o = mc_choose(3, "op"), t = mc_choose(2, "topic"); CB = CBs[s]; cl[0].priv = privs[s]; cl[0].n = 0; cl[0].open = 1;
		int r = call_msg(0, mkmsg(o == 0 ? MSG_TYPE_PUT : o == 1 ? MSG_TYPE_GET : MSG_TYPE_DEL, t, o == 0 ? s : -1, NULL)); mc_check(r == 0 && cl[0].n == 1, "result %d", r);
		if (o == 0) hv[s][t] = 1; else if (o == 2) hv[s][t] = 0;
		else { mc_check((cl[0].out[0].kind == 'M') == hv[s][t], "topic of one server found in or removed from another"); if (hv[s][t]) mc_check(cl[0].out[0].len == lens[s], "message of another server"); }
	}
	for (int s = 0; s < 2; s++) { CB = CBs[s]; cl[0].priv = privs[s]; cl[0].open = 1; S = SS[s]; stop(); }
}
/* the directory is given relative to the working directory */
static void relative (void) {
	begin(); reset_model(); mc_assert(chdir(mc_scratch()) == 0); char b0[PATH_MAX]; strcpy(b0, base); strcpy(base, mc_bool("dot") ? "./db" : "db");
	start(lvs[mc_choose(3, "levels")]); int d = mc_tier() ? 4 : 3; for (int i = 0; i < d; i++) one_op(2, 2, 0);
	verify(); stop(); mc_assert(chdir(mc_scratch()) == 0); start(levels); verify(); stop(); (void) !chdir("/");
	int fd = open(b0, O_RDONLY|O_DIRECTORY); mc_check(fd >= 0, "directory is missing"); close(fd); snprintf(base, sizeof base, "%s/db", b0); mc_check(access(base, F_OK) != 0, "a second database is made below the first");
}
/* all changes of the number of directory levels, twice in a row */
static void relevel (void) {
	static const unsigned all[] = { 0, 1, 2, 3, 4 }; begin(); reset_model(); start(all[mc_choose(5, "levels")]); for (int t = 0; t < NT; t++) put(0, t, 1 + t % 3);
	for (int k = 0; k < 2; k++) { stop(); start(all[mc_choose(5, "levels")]); if (mc_bool("look")) for (int t = 0; t < NT; t++) get(0, t); }
	int t = mc_choose(NT, "topic"); if (mc_bool("remove")) del(0, t); else put(0, t, 0);
	for (t = 0; t < NT; t++) get(0, t);
	if (levels < 4) idx(0, 0);
	stop();
}
int main (int argc, char **argv) {
	rrr_strerror_init();
	static const struct mc_scenario s[] = {
		{ "map", map, -1, -1, 0, NULL }, { "others", others, 1, 2, 0, NULL }, { "crash", crash, 1, 1, 0, NULL }, { "failures", failures, 1, 2, 0, NULL }, { "damage", damage, -1, -1, 0, NULL },
		{ "misc", misc, -1, -1, MC_LEAKCHECK, NULL }, { "two", two, -1, -1, 0, NULL }, { "relative", relative, -1, -1, 0, NULL }, { "relevel", relevel, -1, -1, 0, NULL },
	};
	return mc_main(argc, argv, "C17", s, sizeof s / sizeof *s);
}
