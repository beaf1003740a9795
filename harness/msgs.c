// FLAVOR: asan
/* C18: RRR messages: wire format, integrity checking, hostile headers and streams of messages, on the real library */
#include "mc.h"
#include "lib/rrr_types.h"
#include "lib/allocator.h"
#include "lib/read.h"
#include "lib/messages/msg.h"
#include "lib/messages/msg_msg.h"
#include "lib/messages/msg_addr.h"
#include "lib/messages/msg_log.h"
#include "lib/messages/msg_checksum.h"
#include "lib/stats/stats_message.h"
#include "lib/mqtt/mqtt_topic.h"
#include "lib/socket/rrr_socket.h"
#include "lib/socket/rrr_socket_read.h"
#include "lib/socket/rrr_socket_constants.h"
#include <sys/socket.h>
#include <unistd.h>
#include <fcntl.h>

enum { H = 18, MH = H + 12, AH = H + 1, LH = H + 128 + 4 + 3 + 2, SH = H + 1 + 4 + 2 };

/* ---- independent writer of the wire format ---- */
typedef struct { uint8_t *b; uint32_t n; } W;
static uint32_t crct[256];
static uint32_t crc (const uint8_t *d, size_t n) {
	if (!crct[1]) for (uint32_t i = 0; i < 256; i++) { uint32_t c = i; for (int k = 0; k < 8; k++) c = c & 1 ? c >> 1 ^ 0xEDB88320u : c >> 1; crct[i] = c; }
	uint32_t c = ~0u; for (size_t i = 0; i < n; i++) c = crct[(c ^ d[i]) & 0xff] ^ c >> 8; return ~c;
}
static void p16 (uint8_t *p, uint32_t v) { p[0] = (uint8_t) (v >> 8); p[1] = (uint8_t) v; }
static void p32 (uint8_t *p, uint32_t v) { p16(p, v >> 16); p16(p + 2, v & 0xffff); }
static void p64 (uint8_t *p, uint64_t v) { p32(p, (uint32_t) (v >> 32)); p32(p + 4, (uint32_t) v); }
static uint32_t g16 (const uint8_t *p) { return (uint32_t) p[0] << 8 | p[1]; }
static uint32_t g32 (const uint8_t *p) { return g16(p) << 16 | g16(p + 2); }
static uint64_t g64 (const uint8_t *p) { return (uint64_t) g32(p) << 32 | g32(p + 4); }
static void seal (W *w, uint32_t size, uint32_t type, uint32_t value) {
	p32(w->b + 4, size); p16(w->b + 8, type); p32(w->b + 10, value);
	p32(w->b + 14, crc(w->b + H, w->n - H)); p32(w->b, crc(w->b + 4, 14));
}

/* ---- what the application gets ---- */
typedef struct { int kind, n; uint8_t d[70000]; } Got;   /* kind: 1 msg, 2 addr, 3 log, 4 ctrl, 5 stats */
static Got got; static int ngot, keep; static struct { int kind; uint32_t h; } seen[8];
static void put (int kind, const void *d, size_t n) {
	got.kind = kind; got.n = (int) n; mc_assert(n <= sizeof got.d); memcpy(got.d, d, n);
	if (ngot < 8) { seen[ngot].kind = kind; seen[ngot].h = crc(d, n); }
	ngot++;
}
/* each callback reports its fields in a canonical host independent form = the bytes of the body of the wire format */
static int cb_msg (struct rrr_msg_msg **mp, void *a1, void *a2) {
	(void)(a1); (void)(a2); struct rrr_msg_msg *m = *mp;
	static uint8_t b[70000]; uint32_t dl = MSG_DATA_LENGTH(m);
	mc_check(m->msg_size - H <= 65000u, "size %u", m->msg_size);
	p64(b, m->timestamp); b[8] = m->type_and_class; b[9] = m->version; p16(b + 10, MSG_TOPIC_LENGTH(m));
	memcpy(b + 12, MSG_TOPIC_PTR(m), MSG_TOPIC_LENGTH(m)); memcpy(b + 12 + MSG_TOPIC_LENGTH(m), MSG_DATA_PTR(m), dl);
	put(1, b, 12u + MSG_TOPIC_LENGTH(m) + dl);
	if (keep) { rrr_free(m); *mp = NULL; }
	return 0;
}
static int cb_addr (const struct rrr_msg_addr *m, void *a1, void *a2) {
	(void)(a1); (void)(a2); uint8_t b[200]; uint32_t l = (uint32_t) RRR_MSG_ADDR_GET_ADDR_LEN(m);
	mc_check(l <= 128, "address length %u", l);
	b[0] = m->protocol; memcpy(b + 1, m->addr, l); put(2, b, 1 + l); return 0;
}
static int cb_log (const struct rrr_msg_log *m, void *a1, void *a2) {
	(void)(a1); (void)(a2); static uint8_t b[300000]; uint32_t ps = RRR_MSG_LOG_PREFIX_SIZE(m), ms = (uint32_t) RRR_MSG_LOG_MSG_SIZE(m);
	mc_check(strnlen(m->file, 128) < 128, "file not terminated");
	memcpy(b, m->file, 128); p32(b + 128, m->line); b[132] = m->is_stdout; b[133] = m->loglevel_translated; b[134] = m->loglevel_orig; p16(b + 135, ps);
	memcpy(b + 137, m->prefix_and_message, ps); memcpy(b + 137 + ps, RRR_MSG_LOG_MSG_POS(m), ms);
	char *p, *t; mc_check(rrr_msg_msg_log_to_str(&p, &t, m) == 0, "log_to_str");
	mc_check(!memcmp(p, b + 137, ps) && !memcmp(t, b + 137 + ps, ms), "log_to_str text");
	free(p); free(t);
	mc_check(ps == 0 || b[136 + ps] == 0, "prefix not terminated"); mc_check(ms == 0 || b[136 + ps + ms] == 0, "message not terminated");
	put(3, b, 137 + ps + ms); return 0;
}
static int cb_ctrl (const struct rrr_msg *m, void *a1, void *a2) {
	(void)(a1); (void)(a2); uint8_t b[6]; p16(b, m->msg_type); p32(b + 2, m->msg_value); put(4, b, 6); return 0;
}
static int cb_stats (const struct rrr_msg_stats *m, void *a1, void *a2) {
	(void)(a1); (void)(a2); uint8_t b[1200]; size_t pl = strnlen(m->path, sizeof m->path);
	mc_check(pl <= 512 && m->data_size <= 512, "path %u data %u", (unsigned) pl, m->data_size);
	p64(b, m->timestamp); b[8] = m->type; p32(b + 9, m->flags); memcpy(b + 13, m->path, pl + 1); memcpy(b + 14 + pl, m->data, m->data_size);
	put(5, b, 14 + pl + m->data_size); return 0;
}
static int mask = 31;
static int deliver (struct rrr_msg **m, rrr_length n) {
	return rrr_msg_to_host_and_verify_with_callback(m, n, mask & 1 ? cb_msg : NULL, mask & 2 ? cb_addr : NULL, mask & 4 ? cb_log : NULL, mask & 8 ? cb_ctrl : NULL, mask & 16 ? cb_stats : NULL, NULL, NULL);
}
/* receive n bytes which are said to be one message: 0 accepted, 1 refused, 2 more is needed */
static int receive (const uint8_t *b, size_t n) {
	rrr_length t = 0; ngot = 0;
	uint8_t *e = malloc(n + !n); memcpy(e, b, n);
	int ret = rrr_msg_get_target_size_and_check_checksum(&t, (struct rrr_msg *) e, (rrr_length) n), r;
	if (ret == RRR_MSG_READ_INCOMPLETE) r = 2;
	else if (ret) { r = 1; }
	else if (t > n) r = 2;
	else {
		mc_check(t >= H, "announced size %u is shorter than the header", (unsigned) t);
		struct rrr_msg *m = malloc(t); memcpy(m, e, t);
		r = deliver(&m, t) ? 1 : 0;
		if (keep && !r && got.kind == 1) mc_check(m == NULL, "pointer not taken"); else free(m);
		if (!r) mc_check(ngot == 1, "%d callbacks", ngot); else mc_check(ngot == 0, "refused message was handed to the application");
		if (t != n) r = 1;
	}
	free(e); return r;
}

/* ---- generation of valid messages through the library; w is the network form ---- */
static const char *const topics[] = { "", "a", "a/b", "\xc3\xa6\xc3\xb8", "\xf0\x9f\x98\x80/x", NULL /* 300 long */ };
static char longbuf[140000];
static int pattern (int i) { return (i * 7 + 3) & 0xff; }
static W mk (int kind, uint8_t *body, int *bn) {
	W w = {0}; struct rrr_msg *m = NULL; size_t n = 0; memset(body, 0, 300);
	if (kind == 1) {
		static const uint64_t ts[] = { 0, 1, 0x0102030405060708ull, UINT64_MAX };
		static const int dls[] = { 0, 1, 7, 300 };
		int type = 1 + mc_choose(5, "type"), class = mc_bool("array") ? 11 : 1, ti = mc_choose(6, "topic"), dl = mc_pick(dls, 4, "data"); uint64_t t = ts[mc_choose(4, "timestamp")];
		const char *tp = topics[ti]; if (!tp) { memset(longbuf, 't', 300); longbuf[300] = 0; tp = longbuf; }
		uint16_t tl = (uint16_t) strlen(tp); char *data = malloc((size_t) dl + !dl); for (int i = 0; i < dl; i++) data[i] = (char) pattern(i);
		struct rrr_msg_msg *x; mc_assert(rrr_msg_msg_new_with_data(&x, (rrr_u8) type, (rrr_u8) class, t, tp, tl, data, (rrr_u32) dl) == 0);
		p64(body, t); body[8] = (uint8_t) (class << 4 | type); body[9] = 0; p16(body + 10, tl); memcpy(body + 12, tp, tl); memcpy(body + 12 + tl, data, (size_t) dl); *bn = 12 + tl + dl;
		mc_check(MSG_TYPE(x) == type && MSG_CLASS(x) == class && MSG_DATA_LENGTH(x) == (unsigned) dl, "constructor");
		free(data); n = x->msg_size; mc_check(n == (size_t) (H + *bn), "size %u for a body of %d", (unsigned) n, *bn);
		rrr_msg_msg_prepare_for_network(x); m = (struct rrr_msg *) x;
	}
	else if (kind == 2) {
		static const int als[] = { 0, 1, 16, 28, 127, 128 }; int al = mc_pick(als, 6, "address"), proto = mc_choose(3, "protocol");
		struct rrr_msg_addr *x; mc_assert(rrr_msg_addr_new(&x) == 0);
		rrr_msg_addr_init_head(x, (rrr_u32) al); x->protocol = (uint8_t) proto; for (int i = 0; i < al; i++) x->addr[i] = (char) pattern(i);
		struct rrr_msg_addr *y; mc_assert(rrr_msg_addr_clone(&y, x) == 0); mc_check(!memcmp(x, y, sizeof *x), "clone"); free(x); x = y;
		body[0] = (uint8_t) proto; memcpy(body + 1, x->addr, (size_t) al); *bn = 1 + al; n = x->msg_size; mc_check(n == (size_t) (H + *bn), "size %u", (unsigned) n);
		rrr_msg_addr_prepare_for_network(x); m = (struct rrr_msg *) x;
	}
	else if (kind == 3) {
		static const int fl[] = { 0, 5, 127, 128, 200 }, pl[] = { 0, 1, 12, 65533, 65534, 65535, 65536 }, ml[] = { 0, 1, 30, 65534, 65535, 65536, 65537 };
		int big = mc_bool("big"), f = mc_pick(fl, 5, "file"), p = mc_pick(pl, big ? 7 : 3, "prefix"), l = mc_pick(ml, big ? 7 : 3, "message"), line = mc_bool("line") ? 0x010203 : -1;
		if (big && p + l > 69000) mc_prune();
		char *fs = malloc(201), *ps = malloc((size_t) p + 1), *ms = malloc((size_t) l + 1);
		memset(fs, 'f', 201); fs[f] = 0; memset(ps, 'p', (size_t) p); ps[p] = 0; memset(ms, 'm', (size_t) l); ms[l] = 0;
		struct rrr_msg_log *x; mc_assert(rrr_msg_msg_log_new(&x, fs, line, 3, 7, 1, ps, ms) == 0);
		int fe = f > 127 ? 127 : f, pe = p > 65534 ? 65534 : p, le = l > 65535 ? 65535 : l;   /* truncated, still terminated */
		memset(body, 0, 137); memset(body, 'f', (size_t) fe); p32(body + 128, line < 0 ? 0 : (uint32_t) line); body[133] = 3; body[134] = 7; p16(body + 135, (uint32_t) pe + 1);
		memset(body + 137, 'p', (size_t) pe); body[137 + pe] = 0; memset(body + 138 + pe, 'm', (size_t) le); body[138 + pe + le] = 0; *bn = 139 + pe + le;
		free(fs); free(ps); free(ms); n = x->msg_size; mc_check(n == (size_t) (H + *bn), "size %u instead of %d (prefix %d message %d)", (unsigned) n, H + *bn, p, l);
		rrr_msg_msg_log_prepare_for_network(x); m = (struct rrr_msg *) x;
	}
	else if (kind == 4) {
		int f = 0; static const int bits[] = { 4, 8, 16, 32, 0x1000, 0x2000, 0x4000, 0x8000 }; for (int i = 0; i < 8; i++) if (mc_bool("flag")) f |= bits[i];
		uint32_t v = mc_bool("value") ? 0x81020304 : 0;
		m = malloc(H); memset(m, 0xee, H); rrr_msg_populate_control_msg(m, (rrr_u16) f, v); p16(body, (uint32_t) f | 1); p32(body + 2, v); *bn = 6; n = H;
		mc_check(m->msg_size == H, "size");
	}
	else {
		static const int ls[] = { 0, 1, 255, 511, 512 }; int pl = mc_pick(ls, 5, "path"), dl = mc_pick(ls, 5, "data"), type = mc_choose(4, "type"), fl = mc_choose(16, "flags"); uint32_t ts = mc_bool("ts") ? 0x01020304 : 0;
		struct rrr_msg_stats *s = malloc(sizeof *s); char *pa = malloc((size_t) pl + 1), *da = malloc((size_t) dl + !dl); memset(pa, 'p', (size_t) pl); pa[pl] = 0; for (int i = 0; i < dl; i++) da[i] = (char) pattern(i);
		mc_check(rrr_msg_stats_init(s, (uint8_t) type, (uint32_t) fl, pa, da, (uint32_t) dl) == 0, "stats init %d %d", pl, dl);
		struct rrr_msg_stats_packed *x = malloc(sizeof *x); memset(x, 0xee, sizeof *x); rrr_length tot = 0;
		rrr_msg_stats_pack_and_flip(x, &tot, s); rrr_msg_populate_head((struct rrr_msg *) x, RRR_MSG_TYPE_STATS, tot, ts);
		p64(body, ts); body[8] = (uint8_t) type; p32(body + 9, (uint32_t) fl); memcpy(body + 13, pa, (size_t) pl + 1); memcpy(body + 14 + pl, da, (size_t) dl); *bn = 14 + pl + dl;
		free(s); free(pa); free(da); m = (struct rrr_msg *) x; n = tot; mc_check(n == (size_t) (SH + pl + 1 + dl), "size %u", (unsigned) n);
	}
	rrr_msg_checksum_and_to_network_endian(m);
	w.n = (uint32_t) n; w.b = malloc(n); memcpy(w.b, m, n); free(m);
	return w;
}
static uint8_t body[210000];
static void roundtrip (void) {
	int kind = 1 + mc_choose(5, "kind"), bn; keep = kind == 1 && mc_bool("take");
	W w = mk(kind, body, &bn);
	/* layout */
	static const uint32_t tv[] = { 0, 2, 8, 16, 0, 6 };
	mc_check(g32(w.b + 4) == w.n, "size field %u of %u", g32(w.b + 4), w.n);
	mc_check(g16(w.b + 8) == (kind == 4 ? g16(body) : tv[kind]), "type field %u", g16(w.b + 8));
	mc_check(g32(w.b + 14) == crc(w.b + H, w.n - H), "data checksum"); mc_check(g32(w.b) == crc(w.b + 4, 14), "header checksum");
	if (kind == 1 || kind == 2 || kind == 3) mc_check(w.n - H == (uint32_t) bn && !memcmp(w.b + H, body, (size_t) bn), "body of kind %d differs on the wire", kind);
	if (kind == 3) mc_check(g32(w.b + 10) == 1, "log flags");
	if (kind == 4) mc_check(g32(w.b + 10) == g32(body + 2), "control value");
	if (kind == 5) mc_check(g32(w.b + 10) == g64(body) && w.b[18] == body[8] && !memcmp(w.b + 19, body + 9, 4) && g16(w.b + 23) == strlen((char *) body + 13) + 1 && !memcmp(w.b + 25, body + 13, (size_t) bn - 13), "stats body");
	mc_check(receive(w.b, w.n) == 0, "own message of kind %d refused", kind);
	mc_check(got.kind == kind && got.n == bn && !memcmp(got.d, body, (size_t) bn), "kind %d size %d arrives as kind %d size %d", kind, bn, got.kind, got.n);
	/* an application which does not want this kind */
	keep = 0; mask = 31 & ~(1 << (kind - 1)); mc_check(receive(w.b, w.n) == 1, "unwanted kind %d accepted", kind); mask = 31;
	free(w.b); mc_step(); mc_obs((uint64_t) kind);
}
/* every corruption of one byte and every truncation */
static void corrupt (void) {
	int kind = 1 + mc_choose(5, "kind"), bn; static uint8_t lb[70];
	W w;
	if (kind == 1) {
		struct rrr_msg_msg *x; int tl = mc_choose(3, "topic"), dl = mc_choose(3, "data") * 9; mc_assert(rrr_msg_msg_new_with_data(&x, 1, 1, 0x1122334455667788ull, "ab", (rrr_u16) tl, "0123456789abcdefghij", (rrr_u32) dl) == 0);
		w.n = x->msg_size; rrr_msg_msg_prepare_for_network(x); rrr_msg_checksum_and_to_network_endian((struct rrr_msg *) x); w.b = (uint8_t *) x;
	}
	else if (kind == 2) { struct rrr_msg_addr *x; mc_assert(rrr_msg_addr_new(&x) == 0); rrr_msg_addr_init_head(x, 28); w.n = x->msg_size; rrr_msg_checksum_and_to_network_endian((struct rrr_msg *) x); w.b = (uint8_t *) x; }
	else if (kind == 3) { struct rrr_msg_log *x; mc_assert(rrr_msg_msg_log_new(&x, "f", 9, 1, 2, 0, "pre", "text") == 0); w.n = x->msg_size; rrr_msg_msg_log_prepare_for_network(x); rrr_msg_checksum_and_to_network_endian((struct rrr_msg *) x); w.b = (uint8_t *) x; }
	else if (kind == 4) { w.b = malloc(H); w.n = H; rrr_msg_populate_control_msg((struct rrr_msg *) w.b, RRR_MSG_CTRL_F_ACK, 5); rrr_msg_checksum_and_to_network_endian((struct rrr_msg *) w.b); }
	else { static struct rrr_msg_stats s; mc_assert(rrr_msg_stats_init(&s, 1, 1, "a/b", "12345", 5) == 0); w.b = malloc(sizeof(struct rrr_msg_stats_packed)); rrr_length t; rrr_msg_stats_pack_and_flip((void *) w.b, &t, &s); rrr_msg_populate_head((void *) w.b, RRR_MSG_TYPE_STATS, t, 0); w.n = t; rrr_msg_checksum_and_to_network_endian((void *) w.b); }
	(void)(bn); (void)(lb);
	mc_check(receive(w.b, w.n) == 0, "unchanged message refused");
	int pos = mc_choose((int) w.n + 1, "position");
	if (pos == (int) w.n) for (uint32_t l = 0; l < w.n; l++) { mc_check(receive(w.b, l) == 2, "%u of %u bytes taken for a message or an error", l, w.n); mc_step(); }
	else {
		for (int x = 1; x < 256; x++) { w.b[pos] ^= (uint8_t) x; mc_check(receive(w.b, w.n) == 1, "byte %d changed by %02x: accepted or waiting for more", pos, x); w.b[pos] ^= (uint8_t) x; mc_step(); }
		/* two byte burst, swap of bytes, zeroed tail */
		if (pos + 1 < (int) w.n) for (int x = 1; x < 256; x++) { w.b[pos] ^= (uint8_t) x; w.b[pos + 1] ^= 0xff; mc_check(receive(w.b, w.n) == 1, "bytes %d, %d changed: accepted", pos, pos + 1); w.b[pos] ^= (uint8_t) x; w.b[pos + 1] ^= 0xff; mc_step(); }
	}
	free(w.b);
}
/* correct checksums, hostile content: accepted iff consistent */
static void hostile (void) {
	static uint8_t buf[2000]; W w = { buf, 0 }; int ok = 0, kind = 0; memset(buf, 0, sizeof buf);
	int which = mc_choose(5, "kind");
	static const int sizes[] = { -1, 0, 1 };   /* stated size relative to the real one */
	if (which == 0) {
		/* any type number, body a valid msg_msg */
		static const int lens[] = { 0, 1, 11, 12, 13, 40 };
		int type = mc_choose(65536 / 16, "type / 16"), n = mc_pick(lens, 6, "body");
		for (int lo = 0; lo < 16; lo++) {
			uint32_t t = (uint32_t) (type * 16 + lo); memset(buf, 0, 200); p64(buf + H, 5); buf[H + 8] = 0x11; w.n = (uint32_t) (H + n); seal(&w, w.n, t, 0);
			if (t & 1) ok = !(t & ~(1 | 4 | 8 | 16 | 32 | 0xf000u)); else if (t == 2) ok = n >= 12; else if (t == 8) ok = n >= 1 && n <= 129; else if (t == 16) ok = 0; else if (t == 6) ok = n >= 7; else ok = 0;
			int r = receive(buf, w.n);
			if (r == 0) mc_check(got.kind == ((t & 1) ? 4 : t == 2 ? 1 : t == 8 ? 2 : 5), "type %u handed over as kind %d", t, got.kind);
			mc_check(r == !ok, "type %u with %d bytes: %d", t, n, r); mc_step();
		}
		return;
	}
	if (which == 1) {
		static const int tls[] = { 0, 1, 2, 3, 4, 5, 6, 255, 0x7fff, 0x8000, 0xffff, 0x0300 }; static const char *const tb[] = { "abcd", "\xc3\xa6x", "\xc3\xc3x", "\xf8\x80x", "a\x80x", "\xed\xa0\x80" };
		int n = mc_choose(6, "payload"), tl = mc_pick(tls, 12, "topic length"), t = mc_choose(6, "topic bytes"), tc = mc_choose(256, "type and class");
		memcpy(buf + H + 12, tb[t], 4); buf[H + 8] = (uint8_t) tc; p16(buf + H + 10, (uint32_t) tl); w.n = (uint32_t) (MH + n); seal(&w, w.n, 2, 0);
		ok = tl <= n && (tc >> 4 == 1 || tc >> 4 == 11) && (tc & 15) >= 1 && (tc & 15) <= 5;
		if (ok) { int i = 0; const uint8_t *u = buf + H + 12; while (i < tl) { if (u[i] && u[i] < 0x80) i++; else if (u[i] == 0xc3 && i + 1 < tl && (u[i + 1] & 0xc0) == 0x80) i += 2; else break; } 
			if (i < tl) { ok = 0; if (t == 0 || t == 5) { if (t == 5) { receive(buf, w.n); mc_prune(); } /* surrogates: not decided here */ if (u[i] == 0) { receive(buf, w.n); mc_prune(); } /* NUL in topic: not decided here */ } else if (u[i] == 0) { receive(buf, w.n); mc_prune(); } } }
		kind = 1;
	}
	else if (which == 2) { int n = mc_choose(140, "body"); w.n = (uint32_t) (H + n); seal(&w, w.n, 8, 0); ok = n >= 1 && n <= 129; kind = 2; }
	else if (which == 3) {
		static const int pss[] = { 0, 1, 2, 3, 4, 5, 0x100, 0x7fff, 0x8000, 0xffff }; int n = mc_choose(6, "prefix and message") , ps = mc_pick(pss, 10, "prefix size"), cut = mc_choose(3, "cut");
		for (int i = 0; i < n; i++) buf[LH + H - H + i] = mc_bool("zero") ? 0 : 'x';
		int fz = mc_bool("file terminated"); if (!fz) memset(buf + H, 'f', 128); p16(buf + LH - 2, (uint32_t) ps);
		w.n = (uint32_t) (cut == 2 ? LH - 1 : cut == 1 ? LH - 100 : LH + n); seal(&w, w.n, 16, 0);
		ok = !cut && ps < n && fz && (ps == 0 || !buf[LH + ps - 1]) && !buf[LH + n - 1];
		kind = 3;
	}
	else {
		static const int pss[] = { 0, 1, 2, 3, 4, 512, 513, 514, 1025, 0xffff }, ns[] = { -3, -1, 0, 1, 2, 3, 512, 513, 514, 1024, 1025, 1026 }, ty[] = { 0, 3, 4, 255 }; static const uint32_t fls[] = { 0, 15, 16, 0x80000000u };
		int n = mc_pick(ns, 12, "body"), ps = mc_pick(pss, 10, "path size"), t = mc_pick(ty, 4, "type"), term = mc_bool("terminated"); uint32_t f = fls[mc_choose(4, "flags")];
		buf[H] = (uint8_t) t; p32(buf + H + 1, f); p16(buf + H + 5, (uint32_t) ps); memset(buf + SH, 'x', 1300); if (term && ps) buf[SH + ps - 1 > 1900 ? 1900 : SH + ps - 1] = 0;
		w.n = (uint32_t) (SH + n); seal(&w, w.n, 6, 0);
		ok = n >= 0 && ps <= n && ps <= 513 && n - ps <= 512 && n <= 1025 && t < 4 && f < 16 && (ps == 0 || term); kind = 5;
	}
	int ds = mc_pick(sizes, 3, "stated size"), r;
	if (ds) { seal(&w, w.n + (uint32_t) ds, g16(buf + 8), 0); r = receive(buf, w.n); mc_check(r == (ds > 0 ? 2 : 1), "stated size wrong by %d: %d", ds, r); mc_step(); return; }
	r = receive(buf, w.n);
	if (r == 0) mc_check(got.kind == kind, "handed over as kind %d", got.kind);
	mc_check(r == !ok, "%s message of %u bytes %s", ok ? "consistent" : "inconsistent", w.n, r ? "refused" : "accepted");
	mc_step(); mc_obs((uint64_t) ok);
}
/* a wrong data checksum in a header whose own checksum is right, for every kind; all wrong values of each half and special values */
static void badsum (void) {
	int kind = 1 + mc_choose(5, "kind"), bn; W w;
	keep = 0; w = mk(kind, body, &bn); if (w.n > 1200) { free(w.b); mc_prune(); }
	uint32_t c = g32(w.b + 14), h = g32(w.b), sp[] = { 0, 0xffffffffu, ~c, __builtin_bswap32(c), crc(NULL, 0), h, c + 1, c - 1, c << 8, c >> 8, crc(w.b, w.n), crc(w.b, H), w.n };
	for (unsigned i = 0; i < sizeof sp / sizeof *sp + 32; i++) {
		uint32_t v = i < 32 ? c ^ 1u << i : sp[i - 32]; if (v == c) continue;
		p32(w.b + 14, v); p32(w.b, crc(w.b + 4, 14)); mc_check(receive(w.b, w.n) == 1, "data checksum %08x instead of %08x accepted", v, c);
		p32(w.b + 14, c); p32(w.b, crc(w.b + 4, 14)); uint32_t hh = g32(w.b), hv = i < 32 ? hh ^ 1u << i : sp[i - 32]; if (hv != hh) { p32(w.b, hv); mc_check(receive(w.b, w.n) == 1, "header checksum %08x instead of %08x accepted", hv, hh); p32(w.b, hh); }
		mc_step();
	}
	free(w.b);
}
/* any stated size with a correct header checksum */
static void sizes (void) {
	static const uint32_t v[] = { 0, 1, 4, 16, 17, 18, 19, 30, 31, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff };
	uint8_t buf[64] = {0}; W w = { buf, 31 }; uint32_t s = v[mc_choose(13, "stated")]; static const int ty[] = { 1, 2, 4, 6, 8, 16 };
	buf[26] = 0x11; seal(&w, s, (uint32_t) mc_pick(ty, 6, "type"), 0);
	w.n = (uint32_t) mc_choose(32, "received");
	int r = receive(buf, w.n);
	int e = w.n < 18 ? 2 : s < 18 ? 1 : s > w.n ? 2 : 1;
	if (s == 31 && w.n == 31) { int t = (int) g16(buf + 8); e = !(t == 2 || t == 8 || t == 6 || t == 1); if (t == 1) e = r; }
	if (s < w.n && s >= 18) { mc_check(r == 1 || r == 2, "r %d", r); return; }
	mc_check(r == e, "stated size %u, received %u: %d", s, w.n, r); mc_step();
}

/* ---- helpers on host messages ---- */
static void helpers (void) {
	static const char *const tp[] = { "", "a", "a/b", "longer topic", "\xc3\xa6" };
	static const int dls[] = { 0, 1, 20 };
	int t = mc_choose(5, "topic"), n = mc_pick(dls, 3, "data"), t2 = mc_choose(6, "new topic"); char d[20]; for (int i = 0; i < 20; i++) d[i] = (char) pattern(i);
	struct rrr_msg_msg *m, *c; mc_assert(rrr_msg_msg_new_with_data(&m, MSG_TYPE_PUT, MSG_CLASS_DATA, 77, tp[t], (rrr_u16) strlen(tp[t]), d, (rrr_u32) n) == 0);
	m->version = 3;
	mc_check((c = rrr_msg_msg_duplicate(m)) && c->msg_size == m->msg_size && !memcmp(c, m, m->msg_size), "duplicate"); free(c);
	mc_check((c = rrr_msg_msg_duplicate_no_data(m)) && MSG_DATA_LENGTH(c) == 0 && MSG_TOPIC_IS(c, tp[t]) && c->timestamp == 77 && MSG_TYPE(c) == MSG_TYPE_PUT, "duplicate_no_data"); free(c);
	mc_check((c = rrr_msg_msg_duplicate_no_data_with_size(m, 5, 9)) && MSG_DATA_LENGTH(c) == 9 && MSG_TOPIC_LENGTH(c) == 5 && c->timestamp == 77 && MSG_TYPE(c) == MSG_TYPE_PUT && MSG_CLASS(c) == MSG_CLASS_DATA && c->version == 3, "duplicate_with_size"); free(c);
	for (int k = 0; k < 5; k++) mc_check(!!rrr_msg_msg_topic_equals(m, tp[k]) == (k == t), "topic '%s' equals '%s'", tp[t], tp[k]);
	char *s = NULL; uint16_t l; mc_check(rrr_msg_msg_topic_get(&s, m) == 0 && !strcmp(s, tp[t]), "topic_get"); free(s); s = NULL;
	mc_check(rrr_msg_msg_topic_and_length_get(&s, &l, m) == 0 && l == strlen(tp[t]) && (l == 0 || !memcmp(s, tp[t], l)), "topic_and_length_get"); free(s);
	const char *nt = t2 == 5 ? NULL : tp[t2]; rrr_u16 nl = nt ? (rrr_u16) strlen(nt) : 0;
	mc_check(rrr_msg_msg_topic_set(&m, nt, nl) == 0, "topic_set");
	mc_check(MSG_TOPIC_LENGTH(m) == nl && (nl == 0 || !memcmp(MSG_TOPIC_PTR(m), nt, nl)) && MSG_DATA_LENGTH(m) == (unsigned) n && !memcmp(MSG_DATA_PTR(m), d, (size_t) n) && m->timestamp == 77 && MSG_TYPE(m) == MSG_TYPE_PUT && MSG_CLASS(m) == MSG_CLASS_DATA && m->version == 3, "message after topic_set '%s' -> '%s'", tp[t], nt ? nt : "NULL");
	/* and it still travels */
	W w; w.n = m->msg_size; rrr_msg_msg_prepare_for_network(m); rrr_msg_checksum_and_to_network_endian((struct rrr_msg *) m); w.b = (uint8_t *) m;
	mc_check(receive(w.b, w.n) == 0, "message after topic_set is refused");
	free(m); mc_step();
}

/* ---- a stream of messages cut and joined in every way ---- */
static struct { uint8_t b[3000]; int n, ends[8], nm, pos, cut[6], nc, eof; } st;
static struct rrr_read_session_collection coll; static int eofok;
static int r_target (struct rrr_read_session *s, void *a) { (void)(a);
	rrr_biglength t = 0; int r = rrr_read_common_get_session_target_length_from_message_and_checksum_raw(&t, s->rx_buf_ptr, s->rx_buf_wpos, NULL); if (r == 0) s->target_size = t; return r; }
static int r_complete (struct rrr_read_session *s, void *a) { (void)(a); int r = deliver((struct rrr_msg **) &s->rx_buf_ptr, (rrr_length) s->rx_buf_wpos); s->eof_ok_now = eofok; return r; }
static int r_read (char *buf, rrr_biglength *n, rrr_biglength max, void *a) { (void)(a); *n = 0;
	int e = st.n; for (int i = 0; i < st.nc; i++) if (st.cut[i] > st.pos) { e = st.cut[i]; break; }
	if (st.pos == st.n) return st.eof ? RRR_READ_EOF : RRR_READ_OK;
	rrr_biglength l = (rrr_biglength) (e - st.pos); if (l > max) l = max;
	memcpy(buf, st.b + st.pos, (size_t) l); st.pos += (int) l; *n = l; return 0; }
static struct rrr_read_session *r_over (void *a) { (void)(a); return rrr_read_session_collection_get_session_with_overshoot(&coll); }
static struct rrr_read_session *r_sess (void *a) { (void)(a); int is_new; return rrr_read_session_collection_maintain_and_find_or_create(&is_new, &coll, NULL, 0); }
static void r_remove (struct rrr_read_session *s, void *a) { (void)(a); rrr_read_session_collection_remove_session(&coll, s); }
static int r_tick (int flags, rrr_biglength step) {
	uint64_t br = 0;
	return rrr_read_message_using_callbacks(&br, sizeof(struct rrr_msg), step, 0, flags, NULL, 0, 0, r_target, NULL, r_complete, r_read, r_over, r_sess, r_remove, NULL, NULL);
}
static void add (const W *w) { memcpy(st.b + st.n, w->b, w->n); st.n += (int) w->n; st.ends[st.nm++] = st.n; }
static void add_msg (int k) {
	struct rrr_msg_msg *x; struct rrr_msg *m; W w;
	if (k == 0) { m = malloc(H); rrr_msg_populate_control_msg(m, RRR_MSG_CTRL_F_PING, (rrr_u32) st.nm); }
	else { char d[40]; memset(d, 'a' + st.nm, 40); mc_assert(rrr_msg_msg_new_with_data(&x, 1, 1, (uint64_t) st.nm, "t", (rrr_u16) (k == 1 ? 0 : 1), d, (rrr_u32) (k == 1 ? 0 : k == 2 ? 5 : 40)) == 0); rrr_msg_msg_prepare_for_network(x); m = (struct rrr_msg *) x; }
	w.n = m->msg_size; rrr_msg_checksum_and_to_network_endian(m); w.b = (uint8_t *) m; add(&w); free(m);
}
static void stream (void) {
	memset(&st, 0, sizeof st); memset(&coll, 0, sizeof coll); rrr_read_session_collection_init(&coll);
	int nm = 1 + mc_choose(3, "messages"); int ks[3]; for (int i = 0; i < nm; i++) add_msg(ks[i] = mc_choose(4, "kind"));
	int bad = mc_choose(3, "corruption");   /* 0 none, 1 header of the last, 2 data of the last */
	int start = st.nm > 1 ? st.ends[st.nm - 2] : 0;
	if (bad == 1) st.b[start + 5] ^= 1;
	if (bad == 2) { if (st.n - start <= H) mc_prune(); st.b[st.n - 1] ^= 1; }
	int maxcut = mc_tier() ? 3 : 2; st.nc = mc_choose(maxcut + 1, "cuts"); int p = 0; for (int i = 0; i < st.nc; i++) { int left = st.n - 1 - p; if (left <= 0) mc_prune(); p += 1 + mc_choose(left, "cut"); st.cut[i] = p; }
	int flush = mc_bool("flush"); st.eof = mc_bool("eof"); eofok = mc_bool("eof allowed"); keep = mc_bool("take"); static const int steps[] = { 4096, 1, 18, 40 };
	int step = mc_pick(steps, st.nc ? 1 : 4, "step");
	ngot = 0; int good = nm - (bad != 0), ret = 0, idle = 0;
	for (int i = 0; i < 2000; i++) {
		int before = st.pos, g = ngot; ret = r_tick(flush ? RRR_READ_MESSAGE_FLUSH_OVERSHOOT : 0, (rrr_biglength) step);
		int complete = 0; for (int k = 0; k < good; k++) if (st.ends[k] <= st.pos) complete++;
		mc_check(ngot <= complete, "%d messages delivered after %d bytes", ngot, st.pos);
		if (ret & ~RRR_READ_INCOMPLETE) break;
		if (flush) mc_check(ngot == complete, "%d complete messages received, %d delivered although overshoot is flushed", complete, ngot);
		if (before == st.pos && g == ngot) { if (++idle == 3) break; } else idle = 0;
	}
	mc_check(ngot == good, "%d of %d messages delivered (ret %d)", ngot, good, ret);
	for (int k = 0; k < good; k++) {
		uint8_t e[100]; int s = k ? st.ends[k - 1] : 0, l = st.ends[k] - s - H, kd = 1;
		if (ks[k] == 0) { kd = 4; memcpy(e, st.b + s + 8, 6); l = 6; } else memcpy(e, st.b + s + H, (size_t) l);
		mc_check(seen[k].kind == kd && seen[k].h == crc(e, (size_t) l), "message %d differs from the one sent", k);
	}
	if (bad) { mc_check(ret == RRR_READ_SOFT_ERROR, "corrupt message gives %d", ret); mc_check(RRR_LL_COUNT(&coll) == 0, "session of a corrupt stream remains"); }
	else if (st.eof) mc_check(ret == (eofok ? RRR_READ_EOF : RRR_READ_SOFT_ERROR), "end of stream gives %d", ret);
	else mc_check(!(ret & ~RRR_READ_INCOMPLETE), "ret %d", ret);
	rrr_read_session_collection_clear(&coll); keep = 0; mc_step(); mc_obs((uint64_t) (ngot * 8 + ret));
}
/* a stream which ends within a message */
static void cutoff (void) {
	memset(&st, 0, sizeof st); memset(&coll, 0, sizeof coll); rrr_read_session_collection_init(&coll);
	add_msg(mc_choose(4, "kind")); add_msg(2); int n = 1 + mc_choose(st.n - 1, "received"), full = 0; st.n = n; for (int i = 0; i < 2; i++) full += st.ends[i] <= n;
	st.eof = 1; eofok = 1; ngot = 0; int ret = 0;
	for (int i = 0; i < 10; i++) if ((ret = r_tick(0, 4096)) & ~RRR_READ_INCOMPLETE) break;
	mc_check(ngot == full, "%d delivered", ngot);
	mc_check(ret == (n == st.ends[0] ? RRR_READ_EOF : RRR_READ_SOFT_ERROR), "stream of %d bytes which ends within a message gives %d", n, ret);
	rrr_read_session_collection_clear(&coll); mc_step();
}
/* the same over a real socket pair with the function which the modules use */
static void sock (void) {
	memset(&st, 0, sizeof st); memset(&coll, 0, sizeof coll); rrr_read_session_collection_init(&coll);
	int nm = 1 + mc_choose(3, "messages"); for (int i = 0; i < nm; i++) add_msg(mc_choose(4, "kind"));
	int dgram = mc_bool("datagrams"); int fds[2]; mc_assert(socketpair(AF_UNIX, (dgram ? SOCK_SEQPACKET : SOCK_STREAM) | SOCK_NONBLOCK, 0, fds) == 0);
	int cut = dgram ? 0 : mc_choose(st.n, "cut"), from = 0, idle = 0, close_ = mc_bool("close"), ret = 0; ngot = 0; keep = mc_bool("take");
	uint64_t br;
	for (int i = 0; i < 40 && idle < 3; i++) {
		if (dgram) { if (from < nm) { int s = from ? st.ends[from - 1] : 0; mc_assert(write(fds[0], st.b + s, (size_t) (st.ends[from] - s)) == st.ends[from] - s); from++; } else if (close_ && fds[0] >= 0) { close(fds[0]); fds[0] = -1; } else idle++; }
		else if (from < st.n) { int e = cut > from ? cut : st.n; mc_assert(write(fds[0], st.b + from, (size_t) (e - from)) == e - from); from = e; }
		else if (close_ && fds[0] >= 0) { close(fds[0]); fds[0] = -1; } else idle++;
		ret = rrr_socket_read_message_split_callbacks(&br, &coll, fds[1], RRR_SOCKET_READ_METHOD_RECV | RRR_SOCKET_READ_CHECK_EOF, 0, 0, cb_msg, cb_addr, cb_log, cb_ctrl, cb_stats, NULL, NULL);
		if (ret & ~RRR_READ_INCOMPLETE) break;
	}
	mc_check(ngot == nm, "%d of %d delivered, ret %d", ngot, nm, ret);
	if (!close_) mc_check(!(ret & ~RRR_READ_INCOMPLETE), "ret %d", ret); else mc_check(ret & ~RRR_READ_INCOMPLETE, "close not seen");
	rrr_read_session_collection_clear(&coll); if (fds[0] >= 0) close(fds[0]); close(fds[1]); keep = 0; mc_step();
}

static const struct mc_scenario sc[] = {
	{ "roundtrip", roundtrip, -1, -1, MC_LEAKCHECK, NULL },
	{ "corrupt", corrupt, -1, -1, MC_LEAKCHECK, NULL },
	{ "hostile", hostile, -1, -1, MC_LEAKCHECK, NULL },
	{ "badsum", badsum, -1, -1, MC_LEAKCHECK, NULL },
	{ "sizes", sizes, -1, -1, MC_LEAKCHECK, NULL },
	{ "helpers", helpers, -1, -1, MC_LEAKCHECK, NULL },
	{ "stream", stream, -1, -1, MC_LEAKCHECK, NULL },
	{ "cutoff", cutoff, -1, -1, MC_LEAKCHECK, NULL },
	{ "sock", sock, -1, -1, MC_LEAKCHECK, NULL },
};
int main (int c, char **v) { return mc_main(c, v, "C18", sc, (int) (sizeof sc / sizeof *sc)); }
