// FLAVOR: asan
// WebSocket: real websocket.c and read.c, with the transport handle replaced by byte buffers.
// Frame sequences are judged by an independent model of RFC 6455 reception.
#include "mc.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include "lib/log.h"
#include "lib/allocator.h"
#include "lib/rrr_types.h"
#include "lib/read.h"
#include "lib/read_constants.h"
#include "lib/websocket/websocket.h"
#include "lib/helpers/nullsafe_str.h"
#include "lib/net_transport/net_transport.h"
#include "lib/util/rrr_time.h"

static uint64_t now = 1000000000ull;
uint64_t rrr_time_get_64 (void) { return now; }
static uint32_t rnd;
int rrr_rand (void) { return (int) ((rnd = rnd * 1103515245u + 12345u) & 0x7fffffff); }

#define MAXB 200000
struct side {
	struct rrr_websocket_state ws;
	struct rrr_read_session_collection coll;
	uint8_t *in; int n, pos, cut[3], nc, eof;
	uint8_t *out; int no;
	int nm; struct { int op, len; uint8_t *d; } m[16];
	int client;
};
static struct side *cur;
static int cb_ret;

static int r_read (char *buf, rrr_biglength *n, rrr_biglength max, void *a) {
	struct side *s = a; *n = 0;
	if (s->pos == s->n) return s->eof ? RRR_READ_EOF : RRR_READ_OK;
	int e = s->n; for (int i = 0; i < s->nc; i++) if (s->cut[i] > s->pos) { e = s->cut[i] < s->n ? s->cut[i] : s->n; break; }
	int l = e - s->pos; if ((rrr_biglength) l > max) l = (int) max;
	memcpy(buf, s->in + s->pos, (size_t) l); s->pos += l; *n = (rrr_biglength) l; return 0;
}
static struct rrr_read_session *r_over (void *a) { return rrr_read_session_collection_get_session_with_overshoot(&((struct side *) a)->coll); }
static struct rrr_read_session *r_sess (void *a) { int is_new; return rrr_read_session_collection_maintain_and_find_or_create(&is_new, &((struct side *) a)->coll, NULL, 0); }
static void r_remove (struct rrr_read_session *s, void *a) { rrr_read_session_collection_remove_session(&((struct side *) a)->coll, s); }

struct wrap { struct side *s; int (*t)(struct rrr_read_session *, void *); void *ta; int (*c)(struct rrr_read_session *, void *); void *ca; };
static struct wrap W;
static int w_target (struct rrr_read_session *s, void *a) { (void) a; return W.t(s, W.ta); }
static int w_complete (struct rrr_read_session *s, void *a) { (void) a;
	// exact sized copy so that every access outside of the frame is seen
	char *p = malloc(s->rx_buf_wpos ? s->rx_buf_wpos : 1), *o = s->rx_buf_ptr;
	memcpy(p, o, s->rx_buf_wpos); s->rx_buf_ptr = p;
	int r = W.c(s, W.ca);
	s->rx_buf_ptr = o; free(p);
	return r; }
int rrr_net_transport_ctx_read_message (struct rrr_net_transport_handle *handle, rrr_biglength i, rrr_biglength st, rrr_biglength mx, uint64_t ri, rrr_biglength rm,
		int (*t)(struct rrr_read_session *, void *), void *ta, void (*te)(struct rrr_read_session *, int, void *), void *tea, int (*c)(struct rrr_read_session *, void *), void *ca) {
	(void) te; (void) tea; (void) ri; (void) rm;
	struct side *s = (struct side *) handle; uint64_t br = 0;
	W = (struct wrap) { s, t, ta, c, ca };
	return rrr_read_message_using_callbacks(&br, i, st, mx, RRR_READ_MESSAGE_FLUSH_OVERSHOOT, NULL, 0, 0, w_target, NULL, w_complete, r_read, r_over, r_sess, r_remove, NULL, s);
}
int rrr_net_transport_ctx_send_push_const (struct rrr_net_transport_handle *handle, const void *d, rrr_biglength n) {
	struct side *s = (struct side *) handle;
	if ((int) n + s->no > MAXB) mc_error("too much output");
	memcpy(s->out + s->no, d, n); s->no += (int) n;
	return 0;
}
rrr_net_transport_handle rrr_net_transport_ctx_get_handle (struct rrr_net_transport_handle *handle) { (void) handle; return 1; }

static int take (uint8_t op, const struct rrr_nullsafe_str *p, void *a) {
	struct side *s = a;
	if (s->nm == 16) mc_fail("too many messages delivered");
	rrr_nullsafe_len l = rrr_nullsafe_str_len(p), w = 0;
	s->m[s->nm].op = op; s->m[s->nm].len = (int) l; s->m[s->nm].d = malloc(l ? l : 1);
	rrr_nullsafe_str_copyto(&w, s->m[s->nm].d, l, p);
	if (w != l) mc_fail("payload cannot be copied");
	s->nm++;
	return cb_ret;
}
static struct side *side_new (int client) {
	struct side *s = calloc(1, sizeof *s);
	static uint8_t pool[2][2][MAXB]; static int turn; turn ^= 1;
	s->in = pool[turn][0]; s->out = pool[turn][1]; s->client = client;
	rrr_read_session_collection_init(&s->coll);
	if (client) rrr_websocket_state_set_client_mode(&s->ws);
	return s;
}
static void side_free (struct side *s) {
	rrr_websocket_state_clear_all(&s->ws);
	rrr_read_session_collection_clear(&s->coll);
	for (int i = 0; i < s->nm; i++) free(s->m[i].d);
	free(s);
}
static int tick (struct side *s, int step) {
	return rrr_websocket_transport_ctx_read_frames((struct rrr_net_transport_handle *) s, &s->ws, 4096, (rrr_biglength) step, 0, 0, 0, take, s);
}
static int drain (struct side *s, int step) {
	for (int idle = 0; ; ) {
		int p = s->pos, m = s->nm, r = tick(s, step);
		if (r & ~RRR_READ_INCOMPLETE) return r;
		if (p == s->pos && m == s->nm) { if (++idle == 3) return 0; } else idle = 0;
	}
}
static uint8_t pat (int seed, int i) { return (uint8_t) (seed * 37 + i * 13 + (i >> 8) * 5 + 1); }

// independent encoder of one frame; enc 0: shortest length form
static int frame (uint8_t *o, int op, int fin, int rsv, int mask, uint64_t stated, int len, int seed) {
	int n = 0;
	o[n++] = (uint8_t) (fin << 7 | rsv << 4 | op);
	if (stated < 126) o[n++] = (uint8_t) (mask << 7 | (int) stated);
	else if (stated < 65536) { o[n++] = (uint8_t) (mask << 7 | 126); o[n++] = (uint8_t) (stated >> 8); o[n++] = (uint8_t) stated; }
	else { o[n++] = (uint8_t) (mask << 7 | 127); for (int i = 7; i >= 0; i--) o[n++] = (uint8_t) (stated >> 8 * i); }
	uint8_t k[4] = { 0x81, 0, 0x5a, (uint8_t) (seed * 3 + 1) };
	if (mask) { memcpy(o + n, k, 4); n += 4; }
	for (int i = 0; i < len; i++) o[n++] = (uint8_t) (pat(seed, i) ^ (mask ? k[i & 3] : 0));
	return n;
}

// ---- the model of reception
enum { E_NONE, E_CLOSE, E_ERR };
struct model { int in, nm, mop[16], mlen[16], np, plen[16], end; uint8_t *buf[16]; uint8_t pong[16][125]; };
static void model_frame (struct model *m, int op, int fin, int rsv, int len, int seed) {
	if (m->end) return;
	int control = op & 8;
	if (rsv || (op & 7) > 2) { m->end = E_ERR; return; }
	if (control) {
		if (!fin || len > 125) { m->end = E_ERR; return; }
		if (op == 8) m->end = E_CLOSE;
		if (op == 9) { for (int i = 0; i < len; i++) m->pong[m->np][i] = pat(seed, i); m->plen[m->np++] = len; }
		return;
	}
	if ((op == 0) != (m->in != 0)) { m->end = E_ERR; return; }
	if (op) { m->in = op; m->mop[m->nm] = op; m->mlen[m->nm] = 0; m->buf[m->nm] = NULL; }
	uint8_t *b = realloc(m->buf[m->nm], (size_t) (m->mlen[m->nm] + len + 1));
	for (int i = 0; i < len; i++) b[m->mlen[m->nm] + i] = pat(seed, i);
	m->buf[m->nm] = b; m->mlen[m->nm] += len;
	if (fin) { m->in = 0; m->nm++; }
}
static void model_free (struct model *m) { for (int i = 0; i < m->nm + (m->in != 0); i++) free(m->buf[i]); }
static void compare (struct side *s, struct model *m, int ret) {
	if (m->end == E_NONE && ret != 0) mc_fail("valid frames give %d", ret);
	if (m->end == E_CLOSE && ret != RRR_READ_EOF) mc_fail("close frame gives %d", ret);
	if (m->end == E_ERR && ret != RRR_READ_SOFT_ERROR) mc_fail("protocol violation gives %d", ret);
	if (s->nm != m->nm) mc_fail("%d messages delivered, expected %d", s->nm, m->nm);
	for (int i = 0; i < m->nm; i++) {
		if (s->m[i].op != m->mop[i]) mc_fail("message %d delivered as type %d, expected %d", i, s->m[i].op, m->mop[i]);
		if (s->m[i].len != m->mlen[i]) mc_fail("message %d has %d bytes, expected %d", i, s->m[i].len, m->mlen[i]);
		if (m->mlen[i] && memcmp(s->m[i].d, m->buf[i], (size_t) m->mlen[i])) mc_fail("message %d has other contents", i);
	}
	// answers
	if (rrr_websocket_transport_ctx_send_frames((struct rrr_net_transport_handle *) s, &s->ws)) mc_fail("sending answers failed");
	int at = 0;
	for (int i = 0; i < m->np; i++) {
		uint8_t *o = s->out + at; int want = 2 + (s->client ? 4 : 0) + m->plen[i];
		if (s->no - at < want) mc_fail("pong %d is missing", i);
		if (o[0] != 0x8a || o[1] != ((s->client ? 0x80 : 0) | m->plen[i])) mc_fail("answer %d has header %02x %02x", i, o[0], o[1]);
		uint8_t z[4] = {0}, *k = s->client ? o + 2 : z; uint8_t *d = o + 2 + (s->client ? 4 : 0);
		for (int j = 0; j < m->plen[i]; j++) if ((d[j] ^ k[j & 3]) != m->pong[i][j]) mc_fail("pong data differs from the ping");
		at += want;
	}
	if (at != s->no) mc_fail("%d bytes sent in answer, expected %d", s->no, at);
	mc_step();
	mc_obs((uint64_t) (m->end * 64 + m->nm * 8 + m->np));
}

// ---- all sequences of frames, cut in two
static const struct { int op, fin, len; } kinds[] = {
	{1,1,3},{2,0,2},{0,0,4},{0,1,5},{9,1,0},{9,1,4},{10,1,2},{8,1,0},{1,0,0},{0,1,0},{2,1,126},{9,1,125},{8,1,2},{1,1,0},
	{3,1,1},{11,1,1},{9,0,1},{0,1,300},{15,1,0},{8,0,0},{10,1,126},{7,0,3},{1,0,130} };
#define NK ((int) (sizeof kinds / sizeof *kinds))
static void sc_frames (void) {
	int client = mc_choose(2, "client");
	struct side *s = cur = side_new(client); struct model m = {0};
	cb_ret = 0;
	int n = 1 + mc_choose(mc_tier() ? 5 : 4, "frames"), ends[6], nk = n > 4 ? 14 : n > 3 ? (mc_tier() ? NK : 14) : NK;
	for (int i = 0; i < n; i++) {
		int k = mc_choose(nk, "frame");
		s->n += frame(s->in + s->n, kinds[k].op, kinds[k].fin, 0, !client, (uint64_t) kinds[k].len, kinds[k].len, i + 1);
		model_frame(&m, kinds[k].op, kinds[k].fin, 0, kinds[k].len, i + 1);
		ends[i] = s->n;
		if (m.end && i + 1 < n) { n = i + 1; break; }
	}
	// no cut, one frame at a time, byte by byte, or each way to cut one frame within the header or around
	int how = mc_choose(3, "how"), step = mc_choose(2, "step") ? 2048 : 64, ret = 0;
	if (how == 0) ret = drain(s, step);
	else if (how == 1) { int total = s->n; for (int i = 0; i < n && !ret; i++) { s->n = ends[i]; ret = drain(s, step); } (void) total; }
	else { int total = s->n; for (int i = 1; i <= total && !ret; i++) { s->n = i; ret = drain(s, step); } }
	compare(s, &m, ret);
	model_free(&m); side_free(s);
}
// ---- all placements of two cuts in sequences with boundary lengths
static void sc_cuts (void) {
	int client = mc_choose(2, "client");
	struct side *s = cur = side_new(client); struct model m = {0};
	static const int mix[][4][3] = { // op, fin, len
		{{1,1,0},{1,1,1},{9,1,1},{2,1,2}}, {{1,0,2},{9,1,3},{0,0,1},{0,1,2}}, {{2,1,125},{1,1,0},{10,1,0},{8,1,2}},
		{{2,1,126},{1,1,3},{9,1,0},{1,1,1}}, {{1,0,127},{9,1,0},{0,1,1},{0,1,1}}, {{2,0,0},{0,0,0},{0,1,0},{1,1,1}},
		{{1,1,200},{2,1,1},{9,1,125},{1,1,1}} };
	int x = mc_choose(mc_tier() ? 7 : 6, "mix"); cb_ret = 0;
	for (int i = 0; i < 4; i++) {
		s->n += frame(s->in + s->n, mix[x][i][0], mix[x][i][1], 0, !client, (uint64_t) mix[x][i][2], mix[x][i][2], i + 1);
		model_frame(&m, mix[x][i][0], mix[x][i][1], 0, mix[x][i][2], i + 1);
	}
	s->cut[0] = 1 + mc_choose(s->n - 1, "cut"); s->cut[1] = s->cut[0] + mc_choose(s->n - s->cut[0], "cut2"); s->cut[2] = s->n; s->nc = 2;
	int step = (int[]) { 2048, 7, 128 }[mc_choose(mc_tier() ? 3 : 2, "step")];
	int ret = drain(s, step);
	compare(s, &m, ret);
	model_free(&m); side_free(s);
}
// ---- every first byte and length form
static void sc_header (void) {
	int client = mc_choose(2, "client");
	struct side *s = cur = side_new(client); struct model m = {0}; cb_ret = 0;
	int pre = mc_choose(3, "before"); // nothing, fragment, complete message
	if (pre) { s->n += frame(s->in, 1, pre == 2, 0, !client, 2, 2, 1); model_frame(&m, 1, pre == 2, 0, 2, 1); }
	int b = mc_choose(256, "first"), op = b & 15, fin = b >> 7, rsv = b >> 4 & 7;
	static const int lens[] = { 0, 1, 125, 126, 127, 128, 255, 256, 32767, 65535, 65536, 65537, 70000 };
	int huge = mc_choose(2, "huge"), ret;
	if (!huge) {
		int len = lens[mc_choose(13, "length")], last = mc_choose(3, "missing");
		s->n += frame(s->in + s->n, op, fin, rsv, !client, (uint64_t) len, len, 2);
		int end = s->n;
		if (last) { // the frame must not be delivered before its last byte
			s->n -= last == 1 ? 1 : len + 1 > s->n ? 1 : len + 1;
			ret = drain(s, 2048);
			if (s->nm != m.nm) mc_fail("message delivered before it was complete");
			if (ret && !rsv) mc_fail("incomplete frame gives %d", ret);
			s->n = end;
			if (ret) { m.end = E_ERR; compare(s, &m, ret); goto out; }
		}
		ret = drain(s, 2048);
		model_frame(&m, op, fin, rsv, len, 2);
		compare(s, &m, ret);
	}
	else {
		static const uint64_t big[] = { 0xffffffffffffffffull, 0xfffffffffffffffeull, 0xfffffffffffffff6ull, 0xfffffffffffffff5ull, 0xfffffffffffffff2ull, 0xfffffffffffffff1ull, 0xffffffffffff0000ull,
			0x8000000000000000ull, 0x8000000000000001ull, 0x7fffffffffffffffull, 0x7ffffffffffffff0ull };
		uint64_t l = big[mc_choose(11, "stated")]; int have = (int[]) { 0, 1, 20, 2000 }[mc_choose(4, "have")];
		s->n += frame(s->in + s->n, op, fin, rsv, !client, l, have, 2);
		ret = drain(s, 2048);
		if (s->nm != m.nm) mc_fail("frame with stated length %llx delivered", (unsigned long long) l);
		if (l >> 63 || rsv) { if (ret != RRR_READ_SOFT_ERROR) mc_fail("frame with stated length %llx gives %d", (unsigned long long) l, ret); }
		else if (ret && ret != RRR_READ_SOFT_ERROR) mc_fail("frame with stated length %llx gives %d", (unsigned long long) l, ret);
		mc_step();
	}
	out:
	model_free(&m); side_free(s);
}
// ---- both ends together
static void sc_pair (void) {
	struct side *a = side_new(1), *b = side_new(0); cb_ret = 0; rnd = 1; cur = a;
	static const int lens[] = { 0, 1, 5, 125, 126, 65535, 65536, 70001 };
	int dir = mc_choose(2, "sender"), n = 1 + mc_choose(2, "messages"), ops[3], ls[3];
	struct side *s = dir ? b : a, *r = dir ? a : b;
	for (int i = 0; i < n; i++) {
		ops[i] = 1 + mc_choose(2, "binary"); ls[i] = lens[mc_choose(8, "length")];
		char *p = ls[i] ? malloc((size_t) ls[i]) : NULL;
		for (int j = 0; j < ls[i]; j++) p[j] = (char) pat(i, j);
		if (rrr_websocket_frame_enqueue(&s->ws, (uint8_t) ops[i], &p, (uint64_t) ls[i])) mc_fail("enqueue failed");
		if (p) mc_fail("payload not taken");
		if (mc_choose(2, "flush")) if (rrr_websocket_transport_ctx_send_frames((void *) s, &s->ws)) mc_fail("send failed");
	}
	if (rrr_websocket_transport_ctx_send_frames((void *) s, &s->ws)) mc_fail("send failed");
	int before = s->no;
	if (rrr_websocket_transport_ctx_send_frames((void *) s, &s->ws) || s->no != before) mc_fail("sent twice");
	memcpy(r->in, s->out, (size_t) s->no); r->n = s->no;
	if (s->client != (s->out[1] >> 7)) mc_fail("frame of the %s is %s", s->client ? "client" : "server", s->client ? "not masked" : "masked");
	r->cut[0] = 1 + mc_choose(8, "cut"); r->nc = 1;
	int ret = drain(r, 2048);
	if (ret) mc_fail("received frames give %d", ret);
	if (r->nm != n) mc_fail("%d of %d messages received", r->nm, n);
	for (int i = 0; i < n; i++) {
		if (r->m[i].op != ops[i] || r->m[i].len != ls[i]) mc_fail("message type %d length %d received as %d %d", ops[i], ls[i], r->m[i].op, r->m[i].len);
		for (int j = 0; j < ls[i]; j++) if (r->m[i].d[j] != pat(i, j)) mc_fail("byte %d of message %d differs", j, i);
	}
	mc_step();
	side_free(a); side_free(b);
}
// ---- supervision of a silent peer, with all histories of time, ticks and received frames
static void sc_time (void) {
	now = 1000000000ull; rnd = 1; cb_ret = 0;
	struct side *s = cur = side_new(0);
	int timeout = 10, ping = 4, depth = mc_tier() ? 9 : 6;
	uint64_t last = 0, lastping = 0; int waiting = 0, started = 0;
	uint8_t f[64];
	for (int i = 0; i < depth; i++) {
		int op = mc_choose(6, "op"), n;
		if (op <= 2) now += (uint64_t[]) { 1000000, 4000001, 10000001 }[op];
		else if (op == 3 || op == 5) { // data or pong from the peer
			n = op == 3 ? frame(f, 1, 1, 0, 1, 1, 1, 1) : frame(f, 10, 1, 0, 1, 0, 0, 1);
			s->nm = s->nm; memcpy(s->in, f, (size_t) n); s->n = n; s->pos = 0;
			if (drain(s, 4096)) mc_fail("frame refused");
			for (int j = 0; j < s->nm; j++) free(s->m[j].d);
			s->nm = 0;
			last = now; started = 1;
			if (op == 5) waiting = 0;
		}
		else {
			int t = rrr_websocket_check_timeout(&s->ws, (rrr_length) timeout);
			if (!started) { started = 1; last = now; }
			int e = now - last >= (uint64_t) timeout * 1000000;
			if (!!t != e) mc_fail("%llu us after the last frame: timeout %d", (unsigned long long) (now - last), t);
			if (t) break;
			s->no = 0;
			if (rrr_websocket_enqueue_ping_if_needed(&s->ws, (rrr_length) ping)) mc_fail("ping failed");
			if (rrr_websocket_transport_ctx_send_frames((void *) s, &s->ws)) mc_fail("send failed");
			int p = 0;
			if (!lastping) lastping = now;
			else if (now - lastping >= (uint64_t) ping * 1000000 && !waiting) { p = 1; lastping = now; waiting = 1; }
			if (p != (s->no > 0)) mc_fail("%llu us after the last ping: ping %ssent", (unsigned long long) (now - lastping), s->no ? "" : "not ");
			if (s->no && (s->no != 2 || s->out[0] != 0x89 || s->out[1] != 0)) mc_fail("ping is malformed");
		}
		mc_step();
	}
	if (rrr_websocket_check_timeout(&s->ws, 0)) mc_fail("disabled timeout expires");
	side_free(s); now = 1000000000ull;
}
// ---- the callback of the application fails
static void sc_cb (void) {
	int client = mc_choose(2, "client");
	struct side *s = cur = side_new(client);
	cb_ret = (int[]) { RRR_READ_SOFT_ERROR, RRR_READ_HARD_ERROR, RRR_READ_EOF }[mc_choose(3, "result")];
	int frag = mc_choose(2, "fragments");
	if (frag) { s->n += frame(s->in, 1, 0, 0, !client, 3, 3, 1); s->n += frame(s->in + s->n, 0, 1, 0, !client, 3, 3, 1); }
	else s->n += frame(s->in, 1, 1, 0, !client, 3, 3, 1);
	s->n += frame(s->in + s->n, 1, 1, 0, !client, 3, 3, 1);
	int ret = drain(s, 2048);
	if (ret != cb_ret) mc_fail("result %d of the application is returned as %d", cb_ret, ret);
	if (s->nm != 1) mc_fail("%d messages delivered", s->nm);
	mc_step(); side_free(s);
}

static const struct mc_scenario sc[] = {
	{ "frames", sc_frames, -1, -1, MC_LEAKCHECK, NULL },
	{ "cuts", sc_cuts, -1, -1, MC_LEAKCHECK, NULL },
	{ "header", sc_header, -1, -1, MC_LEAKCHECK, NULL },
	{ "pair", sc_pair, -1, -1, MC_LEAKCHECK, NULL },
	{ "time", sc_time, -1, -1, MC_LEAKCHECK, NULL },
	{ "callback", sc_cb, -1, -1, MC_LEAKCHECK, NULL },
};
int main (int c, char **v) { return mc_main(c, v, "C14", sc, (int) (sizeof sc / sizeof *sc)); }
