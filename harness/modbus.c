// FLAVOR: asan
// Modbus client: real rrr_modbus.c driven by all sequences of requests, transmissions, responses and elapsed time.
// Every frame fed to the client is judged by an independent decoder of the Modbus TCP response format.
#include "mc.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include "lib/log.h"
#include "lib/allocator.h"
#include "lib/rrr_types.h"
#include "lib/modbus/rrr_modbus.h"
#include "lib/util/rrr_time.h"

static uint64_t now;
uint64_t rrr_time_get_64 (void) { return now; }

#define RING 32
struct req { int id, fn, addr, qty; uint8_t data[250]; int dlen; int sent, done; uint64_t when; int created, destroyed, reported; };
static struct req *R; static int nR, maxR, nSent;
static struct rrr_modbus_client *cl;
static int cb_result, create_fail;

struct seen { int n, fn, id, kind, a, b; uint8_t data[260]; int dlen; int priv; } S;
struct priv { int idx; };

static int cb_create (void **res, void *parg, void *arg) {
	if (arg != (void *) &cl) mc_fail("the argument of the creation callback is wrong");
	*res = NULL;
	if (create_fail) return 1;
	struct req *r = parg;
	struct priv *p = malloc(sizeof *p); p->idx = (int) (r - R); *res = p;
	r->created++;
	return 0;
}
static void cb_destroy (void *v) {
	struct priv *p = v;
	if (++R[p->idx].destroyed > 1) mc_fail("private data of request %d destroyed twice", p->idx);
	free(p);
}
static void seen (int kind, int fn, int id, void *priv, void *arg) {
	if (arg != (void *) &cl) mc_fail("the argument of a response callback is wrong");
	S.n++; S.kind = kind; S.fn = fn; S.id = id; S.priv = ((struct priv *) priv)->idx; S.dlen = 0; S.a = S.b = -1;
	if (R[S.priv].destroyed) mc_fail("callback with private data which has been destroyed");
	R[S.priv].reported++;
}
static int cb_err (RRR_MODBUS_ERROR_CALLBACK_ARGS) { seen(0x80, function_code, transaction_id, transaction_private_data, arg); S.a = error_code; return cb_result; }
#define RD(n, k) static int n (uint8_t function_code, uint16_t transaction_id, uint8_t byte_count, const uint8_t *d, void *transaction_private_data, void *arg) { seen(k, function_code, transaction_id, transaction_private_data, arg); S.dlen = byte_count; memcpy(S.data, d, byte_count); return cb_result; }
RD(cb_01, 1) RD(cb_02, 2) RD(cb_03, 3) RD(cb_04, 4)
static int cb_06 (RRR_MODBUS_STARTING_ADDRESS_AND_REGISTER_VALUE_CALLBACK_ARGS) { seen(6, function_code, transaction_id, transaction_private_data, arg); S.a = starting_address; S.dlen = 2; memcpy(S.data, register_value, 2); return cb_result; }
static int cb_16 (RRR_MODBUS_STARTING_ADDRESS_AND_QUANTITY_CALLBACK_ARGS) { seen(16, function_code, transaction_id, transaction_private_data, arg); S.a = starting_address; S.b = quantity; return cb_result; }

static void begin (int max) {
	maxR = max; R = calloc((size_t) max, sizeof *R); nR = nSent = 0; now = 1000000000; cb_result = 0; create_fail = 0;
	if (rrr_modbus_client_new(&cl)) mc_error("client new");
	struct rrr_modbus_client_callbacks c = { cb_create, cb_destroy, cb_err, cb_01, cb_02, cb_03, cb_04, cb_06, cb_16, &cl };
	rrr_modbus_client_callbacks_set(cl, &c);
}
static void end (void) {
	rrr_modbus_client_destroy(cl); cl = NULL;
	for (int i = 0; i < nR; i++) if (R[i].created != R[i].destroyed) mc_fail("private data of request %d created %d times and destroyed %d times", i, R[i].created, R[i].destroyed);
	free(R); R = NULL;
}

// A request; returns 1 if it was queued
static int request (int fn, int addr, int qty) {
	if (nR == maxR) mc_error("too many requests");
	struct req *r = &R[nR];
	memset(r, 0, sizeof *r);
	r->fn = fn; r->addr = addr; r->qty = qty; r->id = nR & 0xffff;
	r->dlen = fn == 6 ? 2 : fn == 16 ? 2 * qty : 0;
	uint8_t *d = malloc((size_t) (r->dlen ? r->dlen : 1));
	for (int i = 0; i < r->dlen; i++) d[i] = r->data[i] = (uint8_t) (0x81 + nR * 7 + i * 3);
	int ret = 0;
	switch (fn) {
		case 1: ret = rrr_modbus_client_req_01_read_coils(cl, (uint16_t) addr, (uint16_t) qty, r); break;
		case 2: ret = rrr_modbus_client_req_02_read_discrete_inputs(cl, (uint16_t) addr, (uint16_t) qty, r); break;
		case 3: ret = rrr_modbus_client_req_03_read_holding_registers(cl, (uint16_t) addr, (uint16_t) qty, r); break;
		case 4: ret = rrr_modbus_client_req_04_read_input_registers(cl, (uint16_t) addr, (uint16_t) qty, r); break;
		case 6: ret = rrr_modbus_client_req_06_write_single_register(cl, (uint16_t) addr, d, r); break;
		case 16: ret = rrr_modbus_client_req_16_write_multiple_registers(cl, (uint16_t) addr, (uint16_t) qty, d, r); break;
	}
	free(d);
	if (create_fail) { if (ret == 0) mc_fail("request accepted without private data"); return 0; }
	int out = 0; struct req *oldest = NULL;
	for (int i = nR > 4 * RING ? nR - 4 * RING : 0; i < nR; i++) if (!R[i].done) { out++; if (!oldest) oldest = &R[i]; }
	int late = oldest && oldest->sent && now - oldest->when > 1000000;
	struct req *slot = nR >= RING ? &R[nR - RING] : NULL;
	int busy = slot && !slot->done;
	mc_obs((uint64_t) (ret + 10));
	if (ret == 0) {
		if (out >= RING) mc_fail("request accepted with %d outstanding", out);
		nR++;
		return 1;
	}
	if (r->created != r->destroyed) mc_fail("private data of a refused request is kept");
	if (!busy) mc_fail("request refused (%d) with %d outstanding", ret, out);
	if (late && slot == oldest && ret != RRR_MODBUS_SOFT_ERROR) mc_fail("request sent %llu us ago without response is not reported when its place is needed (%d)", (unsigned long long) (now - oldest->when), ret);
	if (!late && ret != RRR_MODBUS_BUSY) mc_fail("request refused with %d instead of being busy", ret);
	return 0;
}
static int transmit (void) {
	uint8_t *buf = malloc(2048); rrr_length n = 2048;
	int ret = rrr_modbus_client_write(cl, buf, &n);
	if (nSent == nR) {
		if (ret != RRR_MODBUS_DONE) mc_fail("something is sent (%d) while nothing is waiting", ret);
		free(buf);
		return 0;
	}
	struct req *r = &R[nSent++];
	if (ret != RRR_MODBUS_OK) mc_fail("waiting request is not sent (%d)", ret);
	uint8_t e[300]; int l = 7;
	e[l++] = (uint8_t) r->fn; e[l++] = (uint8_t) (r->addr >> 8); e[l++] = (uint8_t) r->addr;
	if (r->fn == 6) { memcpy(e + l, r->data, 2); l += 2; }
	else { e[l++] = (uint8_t) (r->qty >> 8); e[l++] = (uint8_t) r->qty; }
	if (r->fn == 16) { e[l++] = (uint8_t) r->dlen; memcpy(e + l, r->data, (size_t) r->dlen); l += r->dlen; }
	e[0] = (uint8_t) (r->id >> 8); e[1] = (uint8_t) r->id; e[2] = e[3] = 0; e[4] = (uint8_t) ((l - 6) >> 8); e[5] = (uint8_t) (l - 6); e[6] = 0xff;
	if ((int) n != l) mc_fail("request frame of function %d has %d bytes, expected %d", r->fn, (int) n, l);
	for (int i = 0; i < l; i++) if (buf[i] != e[i]) mc_fail("byte %d of request frame of function %d is %02x, expected %02x", i, r->fn, buf[i], e[i]);
	r->sent = 1; r->when = now;
	free(buf);
	return 1;
}

// ---- independent decoder
enum { D_MORE, D_BAD, D_OK };
struct dec { int what, size, kind, fn, id, a, b; const uint8_t *data; int dlen; struct req *r; };
static struct dec decode (const uint8_t *f, int n) {
	struct dec d = { .what = D_MORE, .a = -1, .b = -1 };
	if (n < 7) return d;
	int len = f[4] << 8 | f[5];
	d.what = D_BAD;
	if (len < 2 || (f[2] | f[3]) || len > 253) { if (n < 6 + len) d.what = D_MORE; d.size = -1; return d; } // may be refused early
	if (n < 6 + len) { d.what = D_MORE; return d; }
	d.size = 6 + len;
	const uint8_t *p = f + 7; int pl = len - 1;
	d.id = f[0] << 8 | f[1];
	for (int i = nR - 1; i >= 0 && i > nR - 4 * RING; i--) if (R[i].sent && !R[i].done && R[i].id == d.id) d.r = &R[i];
	if (!d.r) return d;
	struct req *r = d.r;
	d.fn = r->fn;
	if (p[0] == (r->fn | 0x80)) { if (pl != 2) return d; d.kind = 0x80; d.a = p[1]; d.what = D_OK; return d; }
	if (p[0] != r->fn) return d;
	d.kind = r->fn;
	if (r->fn <= 4) {
		int bytes = r->fn <= 2 ? (r->qty + 7) / 8 : 2 * r->qty;
		if (pl != 2 + bytes || p[1] != bytes) return d;
		d.data = p + 2; d.dlen = bytes;
	}
	else {
		if (pl != 5) return d;
		d.a = p[1] << 8 | p[2];
		if (r->fn == 6) { d.data = p + 3; d.dlen = 2; }
		else d.b = p[3] << 8 | p[4];
	}
	d.what = D_OK;
	return d;
}
// Give bytes; returns number of consumed bytes, 0 if more are needed, -1 on error (client must be destroyed)
static int give (const uint8_t *f, int n) {
	struct dec d = decode(f, n);
	uint8_t *c = malloc((size_t) (n ? n : 1)); memcpy(c, f, (size_t) n);
	rrr_length sz = (rrr_length) n;
	S.n = 0;
	int ret = rrr_modbus_client_read(cl, c, &sz);
	free(c);
	mc_step();
	if (d.what == D_MORE) {
		if (S.n) mc_fail("response reported before it was complete");
		if (d.size == -1 && ret == RRR_MODBUS_SOFT_ERROR) return -1;
		if (ret != RRR_MODBUS_INCOMPLETE) mc_fail("incomplete response gives %d", ret);
		return 0;
	}
	if (d.what == D_BAD) {
		if (S.n) mc_fail("malformed or unexpected response reported to the callback");
		if (ret != RRR_MODBUS_SOFT_ERROR) mc_fail("malformed or unexpected response gives %d", ret);
		return -1;
	}
	if (S.n != 1) mc_fail("valid response to function %d reported %d times (read returned %d)", d.fn, S.n, ret);
	if (&R[S.priv] != d.r) mc_fail("response reported with private data of request %d, expected that of request %d", S.priv, (int) (d.r - R));
	if (S.kind != d.kind || S.fn != d.fn || S.id != d.id) mc_fail("response to function %d transaction %d reported to callback %d with function %d transaction %d", d.fn, d.id, S.kind, S.fn, S.id);
	if (S.a != d.a || S.b != d.b) mc_fail("response with values %d %d reported with %d %d", d.a, d.b, S.a, S.b);
	if (S.dlen != d.dlen || (d.dlen && memcmp(S.data, d.data, (size_t) d.dlen))) mc_fail("response data differs");
	if (d.r->reported != 1) mc_fail("request %d reported %d times", S.priv, d.r->reported);
	d.r->done = 1;
	if (d.r->destroyed != 1) mc_fail("private data of a finished request is kept");
	if (ret != cb_result) mc_fail("result of the callback %d is returned as %d", cb_result, ret);
	if (ret) return -1;
	if ((int) sz != d.size) mc_fail("%d bytes consumed from a frame of %d", (int) sz, d.size);
	return d.size;
}
static int respond (const struct req *r, int exc, uint8_t *f) {
	int l = 7;
	f[l++] = (uint8_t) (r->fn | (exc ? 0x80 : 0));
	if (exc) f[l++] = (uint8_t) exc;
	else if (r->fn <= 4) {
		int b = r->fn <= 2 ? (r->qty + 7) / 8 : 2 * r->qty;
		f[l++] = (uint8_t) b;
		for (int i = 0; i < b; i++) f[l++] = (uint8_t) (r->id * 5 + i * 11 + r->fn);
	}
	else {
		f[l++] = (uint8_t) (r->addr >> 8); f[l++] = (uint8_t) r->addr;
		if (r->fn == 6) { memcpy(f + l, r->data, 2); l += 2; }
		else { f[l++] = (uint8_t) (r->qty >> 8); f[l++] = (uint8_t) r->qty; }
	}
	f[0] = (uint8_t) (r->id >> 8); f[1] = (uint8_t) r->id; f[2] = f[3] = 0; f[4] = (uint8_t) ((l - 6) >> 8); f[5] = (uint8_t) (l - 6); f[6] = 0xff;
	return l;
}

static const struct { int fn, addr, qty; } kinds[] = {
	{1,0,1},{3,0x1234,1},{6,0xffff,1},{16,0x100,2},{2,7,9},{4,0x80ff,125},{1,0,2000},{16,2,123},{2,1,8},{3,0,125},{16,0,1} };
#define NK ((int) (sizeof kinds / sizeof *kinds))
static int req_kind (int k) { return request(kinds[k].fn, kinds[k].addr, kinds[k].qty); }

// ---- all sequences
static void seq (int pre) {
	begin(pre + 70);
	uint8_t f[300];
	for (int i = 0; i < pre; i++) { if (!req_kind(i % 4) || !transmit()) mc_fail("request %d not sent", i); if (give(f, respond(&R[i], 0, f)) <= 0) mc_fail("response refused"); }
	int fill = (int[]) {0, RING - 1, RING}[mc_choose(3, "outstanding")];
	int sent = fill ? (int[]) {fill, 1, 0}[mc_choose(3, "sent")] : 0;
	for (int i = 0; i < fill; i++) if (!req_kind(i % 4)) mc_fail("request %d refused", i);
	for (int i = 0; i < sent; i++) transmit();
	int depth = pre ? 2 : mc_tier() ? 6 : 5;
	for (int s = 0; s < depth; s++) {
		int op = mc_choose(9, "op"), x;
		int idx[4], ni = 0;
		// the two oldest, and the newest outstanding
		for (int i = nR > 2 * RING ? nR - 2 * RING : 0; i < nSent && ni < 2; i++) if (!R[i].done) idx[ni++] = i;
		for (int i = nSent - 1; i >= 0 && i > nR - 2 * RING; i--) if (!R[i].done) { if (ni && idx[ni - 1] < i) idx[ni++] = i; break; }
		if (op == 0) goto done;
		else if (op == 1) req_kind(mc_choose(4, "kind"));
		else if (op == 2) transmit();
		else if (op == 3) now += (uint64_t[]) { 600000, 1000001 }[mc_choose(2, "time")];
		else if (op == 4 || op == 5) {
			if (!ni) { goto done; }
			x = idx[mc_choose(ni, "which")];
			int l = respond(&R[x], op == 5 ? 2 : 0, f);
			if (give(f, l) != l) mc_fail("valid response refused");
		}
		else if (op == 6) { // nothing outstanding with this id
			struct req q = { .fn = 3, .qty = 1 };
			int w = mc_choose(4, "id");
			if (w == 0) q.id = nR & 0xffff;
			else if (w == 1) { for (x = nR - 1; x >= 0 && x > nR - RING && !R[x].done; x--); if (x < 0) { goto done; } q = R[x]; } // repeated
			else if (w == 2) { if (nSent == nR) { goto done; } q = R[nSent]; } // not yet sent
			else if (!ni) { goto done; }
			else { q = R[idx[0]]; q.fn = q.fn == 3 ? 4 : 3; q.qty = 1; } // other function
			give(f, respond(&q, 0, f));
			goto done;
		}
		else if (op == 7) { // callback fails
			if (!ni) { goto done; }
			cb_result = mc_choose(2, "result") ? RRR_MODBUS_HARD_ERROR : RRR_MODBUS_SOFT_ERROR;
			give(f, respond(&R[idx[0]], mc_choose(2, "error") ? 4 : 0, f));
			goto done;
		}
		else { create_fail = 1; req_kind(0); create_fail = 0; }
		int live = 0;
		for (int i = nR > RING ? nR - RING : 0; i < nR; i++) live = live * 2 + !R[i].done;
		mc_obs((uint64_t) live << 20 ^ (uint64_t) nR << 8 ^ (uint64_t) nSent);
	}
	done:
	end();
}
static void sc_seq (void) { seq(0); }
static void sc_wrap (void) { seq(65536 - 16); }

// ---- all single damages of each response
static void sc_frame (void) {
	begin(8);
	int k = mc_choose(NK, "request");
	req_kind((k + 1) % NK); req_kind(k); transmit(); transmit();
	uint8_t f[700]; memset(f, 0, sizeof f);
	int exc = mc_choose(2, "exception") ? 0xff : 0;
	int l = respond(&R[1], exc, f), pos, n = l;
	switch (mc_choose(4, "damage")) {
		case 0: break;
		case 1: // one byte
			// in the middle of long data every byte is alike
			pos = mc_choose(l > 24 ? 24 : l, "byte");
			if (pos >= 20) pos = l - (24 - pos);
			if (mc_tier() || pos < 9) f[pos] = (uint8_t) mc_choose(256, "value");
			else f[pos] = (uint8_t) (f[pos] ^ (int[]) { 1, 0x80, 0xff, 2 }[mc_choose(4, "flip")]);
			n = (int) sizeof f; // any length can be satisfied
			if (mc_choose(2, "short")) n = l;
			break;
		case 2: // PDU of another length
			n = 7 + mc_choose(mc_tier() ? 260 : 20, "pdu");
			if (!mc_tier() && n > 7 + 12) n = l + (n - 7 - 16);
			f[4] = (uint8_t) ((n - 6) >> 8); f[5] = (uint8_t) (n - 6);
			break;
		case 3: // byte count and length together
			if (exc || R[1].fn > 4) { end(); return; }
			pos = mc_choose(mc_tier() ? 256 : 32, "count");
			if (!mc_tier() && pos >= 10) pos = pos < 20 ? f[8] + pos - 14 : 256 - (32 - pos);
			if (pos < 0 || pos > 255) { end(); return; }
			f[8] = (uint8_t) pos; n = 9 + pos; f[4] = (uint8_t) ((n - 6) >> 8); f[5] = (uint8_t) (n - 6);
			break;
	}
	int r = give(f, n);
	// the other request is unaffected
	if (r > 0) { l = respond(&R[0], 0, f); if (!R[0].done && give(f, l) != l) mc_fail("response after another is refused"); }
	end();
}

// ---- all fragmentations of two or three coalesced responses
static void sc_frag (void) {
	begin(8);
	static const int mix[][3] = { {0,1,2}, {3,4,0}, {1,1,1}, {2,3,4} };
	const int *m = mix[mc_choose(4, "mix")];
	for (int i = 0; i < 3; i++) { req_kind(m[i]); transmit(); }
	static const int perm[][3] = { {0,1,2}, {2,1,0}, {1,0,2}, {1,2,0} };
	const int *o = perm[mc_choose(4, "order")];
	int exc = mc_choose(4, "exception");
	uint8_t f[300]; int l = 0;
	for (int i = 0; i < 3; i++) l += respond(&R[o[i]], exc == i ? 3 : 0, f + l);
	int c1 = 1 + mc_choose(l - 1, "cut"), c2 = c1 + mc_choose(l - c1, "cut2"), c3 = mc_tier() ? c2 + mc_choose(l - c2, "cut3") : c2;
	int cuts[] = { c1, c2, c3, l };
	int at = 0;
	for (int i = 0; i < 4; i++) {
		int r;
		while ((r = give(f + at, cuts[i] - at)) > 0) at += r;
		if (r < 0) mc_fail("valid response refused");
	}
	if (at != l) mc_fail("%d of %d bytes consumed", at, l);
	for (int i = 0; i < 3; i++) if (R[i].reported != 1) mc_fail("response lost");
	end();
}

static const struct mc_scenario sc[] = {
	{ "seq", sc_seq, -1, -1, MC_LEAKCHECK, NULL },
	{ "frame", sc_frame, -1, -1, MC_LEAKCHECK, NULL },
	{ "frag", sc_frag, -1, -1, MC_LEAKCHECK, NULL },
	{ "wrap", sc_wrap, -1, -1, MC_LEAKCHECK | MC_THOROUGH_ONLY, NULL },
};
int main (int c, char **v) { return mc_main(c, v, "C15", sc, (int) (sizeof sc / sizeof *sc)); }
