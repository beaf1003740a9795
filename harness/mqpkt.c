// FLAVOR: asan
// MQTT packets: the real parser (mqtt_parse.c behind mqtt_connection.c and read.c) and the real assembler, against an
// independent decoder written from the MQTT specifications. Every packet is delivered in every fragmentation and
// followed by another packet; packets which are valid are assembled again from what was parsed.
#include "mc.h"
#include <string.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <netinet/in.h>
#include "lib/log.h"
#include "lib/allocator.h"
#include "lib/rrr_types.h"
#include "lib/rrr_strerror.h"
#include "lib/read.h"
#include "lib/read_constants.h"
#include "lib/helpers/nullsafe_str.h"
#include "lib/net_transport/net_transport.h"
#include "lib/mqtt/mqtt_common.h"
#include "lib/mqtt/mqtt_connection.h"
#include "lib/mqtt/mqtt_packet.h"
#include "lib/mqtt/mqtt_parse.h"
#include "lib/mqtt/mqtt_payload.h"
#include "lib/mqtt/mqtt_property.h"
#include "lib/mqtt/mqtt_subscription.h"

uint64_t rrr_time_get_64 (void) { return 1000000000000ULL; }

struct sb { char *p; int n, a; };
static void sb_raw (struct sb *b, const void *d, int n) { if (b->n + n + 1 > b->a) { b->a = (b->n + n + 1) * 2; b->p = realloc(b->p, (size_t) b->a); } if (n) memcpy(b->p + b->n, d, (size_t) n); b->n += n; b->p[b->n] = 0; }
static void sbf (struct sb *b, const char *f, ...) { char t[400]; va_list ap; va_start(ap, f); int n = vsnprintf(t, sizeof t, f, ap); va_end(ap); sb_raw(b, t, n); }
static void sb_hex (struct sb *b, const void *d, int n) { for (int i = 0; i < n; i++) { unsigned char c = ((const unsigned char *) d)[i]; if (c > 32 && c < 127 && c != '%') { char q = (char) c; sb_raw(b, &q, 1); } else sbf(b, "%%%02x", c); } }
static void put8 (struct sb *b, int v) { char c = (char) v; sb_raw(b, &c, 1); }
static void put16 (struct sb *b, int v) { put8(b, v >> 8); put8(b, v); }
static void putvi (struct sb *b, unsigned v) { do { put8(b, (int) (v & 127) | (v > 127 ? 128 : 0)); v >>= 7; } while (v); }
static void puts_ (struct sb *b, const char *s, int n) { put16(b, n); sb_raw(b, s, n); }
static const char *hex (const void *d, int n) { static char t[4][2000]; static int k; k = (k + 1) % 4; int w = 0; for (int i = 0; i < n && w < 1990; i++) w += sprintf(t[k] + w, "%02x ", ((const unsigned char *) d)[i]); t[k][w] = 0; return t[k]; }

// ---- the reference decoder
struct ref { struct sb log; struct sb again; int bad, und, incomplete, used, can_again; };
static const uint8_t *P, *E; static struct ref *R;
static void bad (void) { R->bad = 1; P = E; }
static int u8 (void) { if (P >= E) { bad(); return 0; } return *P++; }
static int u16 (void) { int a = u8(); return a << 8 | u8(); }
static uint32_t u32 (void) { uint32_t a = (uint32_t) u16() << 16; return a | (uint32_t) u16(); }
static uint32_t vi (void) { uint32_t v = 0; for (int i = 0; i < 4; i++) { int c = u8(); v |= (uint32_t) (c & 127) << 7 * i; if (!(c & 128)) { if (i && !c) R->und = 1; return v; } } bad(); return 0; }
static int utf8ok (const uint8_t *s, int n) {
	for (int i = 0; i < n; ) {
		int c = s[i], l = c < 0x80 ? 1 : c >= 0xc2 && c < 0xe0 ? 2 : c >= 0xe0 && c < 0xf0 ? 3 : c >= 0xf0 && c < 0xf5 ? 4 : 0;
		if (!l || i + l > n || c == 0) return 0;
		uint32_t v = l == 1 ? (uint32_t) c : (uint32_t) (c & (0x7f >> l));
		for (int j = 1; j < l; j++) { if ((s[i + j] & 0xc0) != 0x80) return 0; v = v << 6 | (s[i + j] & 0x3f); }
		if ((l == 3 && v < 0x800) || (l == 4 && v < 0x10000) || v > 0x10ffff || (v >= 0xd800 && v < 0xe000)) return 0;
		i += l;
	}
	return 1;
}
static const uint8_t *S; static int SN;
static void str (int utf8) { int n = u16(); if (R->bad) { SN = 0; return; } if (E - P < n) { bad(); SN = 0; return; } S = P; SN = n; P += n; if (utf8 && !utf8ok(S, n)) bad(); }
static void put_s (const char *name) { sbf(&R->log, " %s=", name); sb_hex(&R->log, S, SN); }
// topic names and filters
static int name_ok (int filter) {
	if (!SN) return 0;
	for (int i = 0; i < SN; i++) {
		if (S[i] != '+' && S[i] != '#') continue;
		if (!filter) return 0;
		if (i && S[i - 1] != '/') return 0;
		if (S[i] == '#' ? i != SN - 1 : i != SN - 1 && S[i + 1] != '/') return 0;
	}
	return 1;
}
// 1 byte 2 short 4 int 5 varint 6 binary 7 string 8 pair
static int ptype (int id) {
	switch (id) {
		case 0x01: case 0x17: case 0x19: case 0x24: case 0x25: case 0x28: case 0x29: case 0x2a: return 1;
		case 0x13: case 0x21: case 0x22: case 0x23: return 2;
		case 0x02: case 0x11: case 0x18: case 0x27: return 4;
		case 0x0b: return 5;
		case 0x09: case 0x16: return 6;
		case 0x03: case 0x08: case 0x12: case 0x15: case 0x1a: case 0x1c: case 0x1f: return 7;
		case 0x26: return 8;
	}
	return 0;
}
static int nprops;
static void props (const char *allowed) { // validity of the combination is not judged by the parser
	uint32_t n = vi(); if (R->bad) return;
	if ((uint32_t) (E - P) < n) { bad(); return; }
	const uint8_t *e = E; E = P + n; uint64_t seen = 0; (void) allowed;
	nprops = 0;
	while (P < E && !R->bad) {
		int id = u8(), t = ptype(id); nprops++;
		if (id & 0x80) { bad(); R->und = 1; break; } // identifiers are variable length integers
		if (!t) { bad(); break; }
		if (seen >> id & 1 && t != 8) R->und = 1;
		seen |= 1ull << id;
		sbf(&R->log, " {%02x", id);
		switch (t) {
			case 1: sbf(&R->log, " %u", (unsigned) u8()); break;
			case 2: sbf(&R->log, " %u", (unsigned) u16()); break;
			case 4: sbf(&R->log, " %u", u32()); break;
			case 5: sbf(&R->log, " %u", vi()); break;
			case 6: str(0); put_s("b"); break;
			case 7: str(1); put_s("s"); break;
			default: str(1); put_s("k"); if (!R->bad) { str(1); put_s("v"); } break;
		}
		sbf(&R->log, "}");
	}
	E = e; if (R->bad) P = E;
}
static int reason_ok (int type, int r) {
	static const uint8_t connack[] = { 0, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8a, 0x8c, 0x90, 0x95, 0x97, 0x99, 0x9a, 0x9b, 0x9c, 0x9d, 0x9f }, puback[] = { 0, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99 }, pubrel[] = { 0, 0x92 }, suback[] = { 0, 1, 2, 0x80, 0x83, 0x87, 0x8f, 0x91, 0x97, 0x9e, 0xa1, 0xa2 }, unsuback[] = { 0, 0x11, 0x80, 0x83, 0x87, 0x8f, 0x91 },
		disc[] = { 0, 4, 0x80, 0x81, 0x82, 0x83, 0x87, 0x89, 0x8b, 0x8d, 0x8e, 0x8f, 0x90, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0x99, 0x9a, 0x9b, 0x9c, 0x9d, 0x9e, 0x9f, 0xa0, 0xa1, 0xa2 };
#define IN(l) for (int i = 0; i < (int) sizeof l; i++) if (l[i] == r) return 1; return 0
	switch (type) { case 2: IN(connack); case 4: case 5: IN(puback); case 6: case 7: IN(pubrel); case 9: IN(suback); case 11: IN(unsuback); case 14: IN(disc); }
	return 0;
}
// decodes one packet; *ver is set by CONNECT
static void ref_decode (struct ref *r, const uint8_t *d, int n, int *ver) {
	memset(r, 0, sizeof *r); R = r; sb_raw(&r->log, "", 0); sb_raw(&r->again, "", 0);
	P = d; E = d + n;
	if (n < 2) { r->incomplete = 1; return; }
	int t = d[0] >> 4, f = d[0] & 15; P++;
	uint32_t len = 0; int k = 0;
	for (;; k++) { if (P >= E) { r->incomplete = 1; break; } int c = *P++; len |= (uint32_t) (c & 127) << 7 * k; if (!(c & 128)) { if (k && !c) r->und = 1; break; } if (k == 3) { bad(); return; } }
	if (t == 0) { bad(); return; }
	if (t != 3 && f != (t == 6 || t == 8 || t == 10 ? 2 : 0)) { bad(); return; }
	if (!*ver && t != 1) { r->und = 1; bad(); return; }
	if (t == 3 && ((f & 6) == 6 || (!(f & 6) && f & 8))) { if (r->incomplete || (uint32_t) (E - P) < len) r->incomplete = 1; else bad(); return; }
	if (r->incomplete || (uint32_t) (E - P) < len) { r->incomplete = 1; return; }
	E = P + len; r->used = (int) (E - d); r->can_again = 1; const uint8_t *body = P; int v5 = *ver == 5, same = 1;
	sbf(&r->log, "T%d f%d", t, f);
	switch (t) {
		case 1: {
			str(0); int nl = SN; const uint8_t *nm = S; int v = u8(), fl = u8(), ka = u16(); if (r->bad) break;
			const char *want = v == 3 ? "MQIsdp" : v == 4 || v == 5 ? "MQTT" : "";
			if (!*want || nl != (int) strlen(want)) { bad(); break; }
			if (memcmp(nm, want, (size_t) nl)) { r->und = 1; if (strncasecmp((const char *) nm, want, (size_t) nl)) { r->und = 0; bad(); break; } }
			*ver = v; v5 = v == 5;
			int will = fl >> 2 & 1, wq = fl >> 3 & 3, wr = fl >> 5 & 1, pw = fl >> 6 & 1, un = fl >> 7;
			if (fl & 1 || wq == 3 || (!will && (wq || wr)) || (!v5 && pw && !un)) { bad(); break; }
			sbf(&r->log, " v%d fl%d ka%d", v, fl, ka);
			if (v5) props("c");
			if (r->bad) break;
			str(1); put_s("id");
			if (will && !r->bad) { if (v5) props("w"); if (r->bad) break; str(1); if (!r->bad && !name_ok(0)) { bad(); break; } put_s("wt"); str(0); put_s("wm"); }
			if (un && !r->bad) { str(1); if (!SN) r->und = 1; put_s("un"); }
			if (pw && !r->bad) { str(0); if (!SN || !utf8ok(S, SN)) r->und = 1; put_s("pw"); }
			break; }
		case 2: {
			int a = u8(), c = u8(); if (r->bad) break;
			if (a & 0xfe) { bad(); break; }
			if (v5 ? !reason_ok(2, c) : c > 5) { bad(); break; }
			if (a && c) r->und = 1;
			static const int map[] = { 0, 0x84, 0x85, 0x88, 0x86, 0x87 }; // reasons of version 3 as reported internally
			sbf(&r->log, " sp%d r%d", a, v5 ? c : map[c]);
			if (v5) props("k");
			break; }
		case 3: {
			str(1); if (r->bad) break;
			if (!SN && v5) r->und = 1; // topic alias
			if (SN && !name_ok(0)) { bad(); break; }
			if (!SN && !v5) { bad(); break; }
			put_s("t");
			int id = f & 6 ? u16() : 0; if (r->bad) break; if (f & 6 && !id) { bad(); break; }
			sbf(&r->log, " id%d", id);
			if (v5) props("p");
			if (r->bad) break;
			sbf(&r->log, " pl="); sb_hex(&r->log, P, (int) (E - P)); P = E;
			break; }
		case 4: case 5: case 6: case 7: {
			int id = u16(), rc = 0; if (r->bad) break; if (!id) { bad(); break; }
			same = 0; put16(&r->again, id);
			const uint8_t *pp = NULL;
			sbf(&r->log, " id%d", id);
			if (v5) { if (P < E) { rc = u8(); if (!reason_ok(t, rc)) { bad(); break; } } sbf(&r->log, " r%d", rc); if (P < E) { pp = P; props("a"); } }
			else sbf(&r->log, " r0");
			if (r->bad) break;
			if (v5) { put8(&r->again, rc); if (pp) sb_raw(&r->again, pp, (int) (P - pp)); else put8(&r->again, 0); }
			break; }
		case 8: case 10: {
			int id = u16(); if (r->bad) break; if (!id) { bad(); break; }
			sbf(&r->log, " id%d", id);
			if (v5) props("s");
			if (r->bad) break;
			if (P >= E) { bad(); break; }
			struct sb list = { 0 }; sb_raw(&list, "", 0);
			struct { const uint8_t *s; int n; } fs[64]; int nf = 0;
			while (P < E && !r->bad) {
				str(1); if (r->bad) break; if (!name_ok(1)) { bad(); break; }
				for (int i = 0; i < nf; i++) if (fs[i].n == SN && !memcmp(fs[i].s, S, (size_t) SN)) r->und = 1; // same filter twice
				if (nf < 64) { fs[nf].s = S; fs[nf++].n = SN; }
				sb_raw(&list, " s=", 3); sb_hex(&list, S, SN);
				if (t == 8) { int o = u8(); if (r->bad) break; if ((o & 3) == 3 || o & 0xc0 || (o & 0x30) == 0x30 || (!v5 && o & 0xfc)) { bad(); break; } if (o & 0x0c) r->can_again = 0; sbf(&list, ":%d", o); }
			}
			sb_raw(&r->log, list.p, list.n); free(list.p);
			break; }
		case 9: case 11: {
			int id = u16(); if (r->bad) break; if (!id) { bad(); break; }
			sbf(&r->log, " id%d", id);
			if (v5) props("u");
			if (r->bad) break;
			if (t == 11 && !v5) break;
			if (P >= E) { bad(); break; }
			sbf(&r->log, " acks=");
			while (P < E && !r->bad) { int c = u8(); if (v5 ? !reason_ok(t, c) : c > 2 && c != 0x80) { bad(); break; } sbf(&r->log, "%02x", c); }
			break; }
		case 12: case 13: break;
		case 14: {
			int rc = 0; same = 0; nprops = 0;
			if (!v5) { sbf(&r->log, " r0"); break; }
			if (P < E) { rc = u8(); if (!reason_ok(14, rc)) { bad(); break; } }
			sbf(&r->log, " r%d", rc);
			if (P < E) props("d");
			if (nprops) r->can_again = 0;
			put8(&r->again, rc); put8(&r->again, 0);
			break; }
		case 15: bad(); r->und = v5; break; // extended authentication is not implemented
	}
	if (!r->bad && P != E) bad();
	if (same) sb_raw(&r->again, body, (int) (E - body));
	sbf(&r->log, "\n");
}
static void ref_free (struct ref *r) { free(r->log.p); free(r->again.p); }

// ---- transport
struct side { struct rrr_mqtt_conn *conn; void (*destroy)(void *); struct rrr_read_session_collection coll; const uint8_t *in; int n, pos, step, cut; struct sb log, out; int npkt, again; struct sb re[40]; };
static int r_read (char *buf, rrr_biglength *n, rrr_biglength max, void *a) {
	struct side *s = a; *n = 0; if (s->pos == s->n) return RRR_READ_OK;
	int e = s->n; if (s->step) e = s->pos + s->step < s->n ? s->pos + s->step : s->n; if (s->cut > s->pos && s->cut < e) e = s->cut;
	int l = e - s->pos; if ((rrr_biglength) l > max) l = (int) max;
	memcpy(buf, s->in + s->pos, (size_t) l); s->pos += l; *n = (rrr_biglength) l; return 0;
}
static struct rrr_read_session *r_over (void *a) { return rrr_read_session_collection_get_session_with_overshoot(&((struct side *) a)->coll); }
static struct rrr_read_session *r_sess (void *a) { int is_new; return rrr_read_session_collection_maintain_and_find_or_create(&is_new, &((struct side *) a)->coll, NULL, 0); }
static void r_remove (struct rrr_read_session *s, void *a) { rrr_read_session_collection_remove_session(&((struct side *) a)->coll, s); }
static struct { int (*t)(struct rrr_read_session *, void *); void *ta; int (*c)(struct rrr_read_session *, void *); void *ca; } W;
static int w_target (struct rrr_read_session *s, void *a) { (void) a; return W.t(s, W.ta); }
static int w_complete (struct rrr_read_session *s, void *a) { (void) a; return W.c(s, W.ca); }
int rrr_net_transport_ctx_read_message (struct rrr_net_transport_handle *handle, rrr_biglength i, rrr_biglength st, rrr_biglength mx, uint64_t ri, rrr_biglength rm,
		int (*t)(struct rrr_read_session *, void *), void *ta, void (*te)(struct rrr_read_session *, int, void *), void *tea, int (*c)(struct rrr_read_session *, void *), void *ca) {
	(void) te; (void) tea; (void) ri; (void) rm;
	struct side *s = (struct side *) handle; uint64_t br = 0;
	W.t = t; W.ta = ta; W.c = c; W.ca = ca;
	return rrr_read_message_using_callbacks(&br, i, st, mx, RRR_READ_MESSAGE_FLUSH_OVERSHOOT, NULL, 0, 0, w_target, NULL, w_complete, r_read, r_over, r_sess, r_remove, NULL, s);
}
int rrr_net_transport_ctx_send_push (struct rrr_net_transport_handle *handle, void **d, rrr_biglength n) { sb_raw(&((struct side *) handle)->out, *d, (int) n); free(*d); *d = NULL; return 0; }
int rrr_net_transport_ctx_send_push_urgent (struct rrr_net_transport_handle *handle, void **d, rrr_biglength n) { return rrr_net_transport_ctx_send_push(handle, d, n); }
long double rrr_net_transport_ctx_send_waiting_chunk_limit_factor (struct rrr_net_transport_handle *handle) { (void) handle; return 0; }
void *rrr_net_transport_ctx_get_application_private_ptr (struct rrr_net_transport_handle *handle) { return ((struct side *) handle)->conn; }
rrr_net_transport_handle rrr_net_transport_ctx_get_handle (struct rrr_net_transport_handle *handle) { (void) handle; return 1; }
void rrr_net_transport_handle_ptr_application_data_bind (struct rrr_net_transport_handle *handle, void *d, void (*f)(void *)) { ((struct side *) handle)->conn = d; ((struct side *) handle)->destroy = f; }
void rrr_net_transport_handle_ptr_application_pre_destroy_function_set (struct rrr_net_transport_handle *handle, int (*f)(struct rrr_net_transport_handle *, void *)) { (void) handle; (void) f; }

static void dump_props (struct sb *b, const struct rrr_mqtt_property_collection *c) {
	for (const struct rrr_mqtt_property *p = c->ptr_first; p; p = p->ptr_next) {
		int id = p->definition->identifier, t = ptype(id);
		sbf(b, " {%02x", id);
		if (t <= 5) sbf(b, " %u", rrr_mqtt_property_get_uint32(p));
		else { sbf(b, t == 6 ? " b=" : t == 7 ? " s=" : " k="); sb_hex(b, p->data, (int) p->length); if (t == 8) { if (!p->sibling) mc_fail("user property without value"); sbf(b, " v="); sb_hex(b, p->sibling->data, (int) p->sibling->length); } }
		sbf(b, "}");
	}
}
static void dump_s (struct sb *b, const char *n, const char *s) { sbf(b, " %s=", n); if (s) sb_hex(b, s, (int) strlen(s)); }
static int ns_cb (const void *d, rrr_nullsafe_len n, void *a) { sb_hex(a, d, (int) n); return 0; }
static int on_packet (struct rrr_net_transport_handle *handle, struct rrr_mqtt_p *p, void *arg) {
	struct side *s = (struct side *) handle; (void) arg; struct sb *b = &s->log;
	int t = RRR_MQTT_P_GET_TYPE(p), v5 = p->protocol_version->id == 5;
	sbf(b, "T%d f%d", t, p->type_flags);
	switch (t) {
		case 1: { struct rrr_mqtt_p_connect *c = (void *) p; s->conn->protocol_version = p->protocol_version;
			sbf(b, " v%d fl%d ka%d", p->protocol_version->id, c->connect_flags, c->keep_alive); dump_props(b, &c->properties);
			dump_s(b, "id", c->client_identifier);
			if (c->connect_flags & 4) { dump_props(b, &c->will_properties); dump_s(b, "wt", c->will_topic); sbf(b, " wm="); if (rrr_nullsafe_str_len(c->will_message)) rrr_nullsafe_str_with_raw_do_const(c->will_message, ns_cb, b); }
			if (c->connect_flags & 128) dump_s(b, "un", c->username);
			if (c->connect_flags & 64) dump_s(b, "pw", c->password);
			break; }
		case 2: { struct rrr_mqtt_p_connack *c = (void *) p; sbf(b, " sp%d r%d", c->session_present, c->reason_v5); dump_props(b, &c->properties); break; }
		case 3: { struct rrr_mqtt_p_publish *c = (void *) p; dump_s(b, "t", c->topic); sbf(b, " id%d", c->packet_identifier); dump_props(b, &c->properties); sbf(b, " pl="); if (p->payload) sb_hex(b, p->payload->payload_start, (int) p->payload->size); break; }
		case 4: case 5: case 6: case 7: { struct rrr_mqtt_p_def_puback *c = (void *) p; sbf(b, " id%d r%d", c->packet_identifier, c->reason_v5); dump_props(b, &c->properties); break; }
		case 8: case 10: { struct rrr_mqtt_p_sub_usub *c = (void *) p; sbf(b, " id%d", c->packet_identifier); dump_props(b, &c->properties);
			for (struct rrr_mqtt_subscription *q = c->subscriptions->ptr_first; q; q = q->ptr_next) { dump_s(b, "s", q->topic_filter); if (t == 8) sbf(b, ":%d", q->qos_or_reason_v5 | q->nl << 2 | q->rap << 3 | q->retain_handling << 4); }
			break; }
		case 9: case 11: { struct rrr_mqtt_p_suback_unsuback *c = (void *) p; sbf(b, " id%d", c->packet_identifier); dump_props(b, &c->properties);
			if (t == 9 || v5) { sbf(b, " acks="); for (rrr_length i = 0; i < c->acknowledgements_size; i++) sbf(b, "%02x", c->acknowledgements[i]); }
			break; }
		case 14: { struct rrr_mqtt_p_disconnect *c = (void *) p; sbf(b, " r%d", c->reason_v5); dump_props(b, &c->properties); break; }
	}
	sbf(b, "\n");
	if (s->again && s->npkt < 40) { // send what was received
		int stop = 0; s->out.n = 0;
		if (t == 9 || (t == 11 && v5)) { struct rrr_mqtt_p_suback_unsuback *c = (void *) p; if (rrr_mqtt_subscription_collection_new(&c->subscriptions_)) mc_error("collection");
			for (rrr_length i = 0; i < c->acknowledgements_size; i++) { char nm[10]; sprintf(nm, "f%u", (unsigned) i); struct rrr_mqtt_subscription *q = NULL; if (rrr_mqtt_subscription_new(&q, nm, 0, 0, 0, 0)) mc_error("subscription"); q->qos_or_reason_v5 = c->acknowledgements[i]; if (rrr_mqtt_subscription_collection_add_unique(c->subscriptions_, &q, 1)) mc_error("append"); } }
		struct rrr_mqtt_p_payload *pl = p->payload; if (t == 9 || t == 11) p->payload = NULL; // the reasons are taken from the subscriptions
		{
			uint32_t f = s->conn->state_flags;
			s->conn->state_flags = t == 1 ? RRR_MQTT_CONN_STATE_NEW : t == 2 ? RRR_MQTT_CONN_STATE_SEND_CONNACK_ALLOWED : RRR_MQTT_CONN_STATE_SEND_ANY_ALLOWED;
			if (rrr_mqtt_conn_iterator_ctx_send_packet(&stop, handle, p)) mc_fail("packet which was received can not be sent: %s", b->p);
			s->conn->state_flags = f; p->payload = pl;
			sb_raw(&s->re[s->npkt], s->out.p, s->out.n);
		}
	}
	s->npkt++;
	return 0;
}
static int on_event (RRR_MQTT_EVENT_HANDLER_DEFINITION) { (void) connection; (void) event; (void) static_arg; (void) arg; return 0; }
static struct side *side_new (int ver) {
	struct side *s = calloc(1, sizeof *s); rrr_read_session_collection_init(&s->coll);
	struct sockaddr_in a = { .sin_family = AF_INET }; struct rrr_mqtt_common_accept_and_connect_callback_data d = { .event_handler = on_event };
	rrr_mqtt_conn_accept_and_connect_callback((struct rrr_net_transport_handle *) s, (struct sockaddr *) &a, sizeof a, &d);
	if (!s->conn) mc_error("no connection");
	s->conn->protocol_version = ver ? rrr_mqtt_p_get_protocol_version((uint8_t) ver) : NULL;
	sb_raw(&s->log, "", 0); sb_raw(&s->out, "", 0);
	return s;
}
static void side_free (struct side *s) { s->destroy(s->conn); rrr_read_session_collection_clear(&s->coll); free(s->log.p); free(s->out.p); for (int i = 0; i < 40; i++) free(s->re[i].p); free(s); }
static struct side *run (int ver, const uint8_t *in, int n, int step, int cut, int again) {
	struct side *s = side_new(ver); s->in = in; s->n = n; s->step = step; s->cut = cut; s->again = again;
	int idle = 0, ticks = 0;
	for (;;) {
		int p = s->pos, k = s->npkt;
		int r = rrr_mqtt_conn_iterator_ctx_read((struct rrr_net_transport_handle *) s, 4096, on_packet, NULL);
		if (r & ~RRR_READ_INCOMPLETE) { sbf(&s->log, "REFUSED\n"); break; }
		if (++ticks > 10 * n + 50) mc_fail("no progress");
		if (p == s->pos && k == s->npkt && s->pos == s->n) { if (++idle == 3) { sbf(&s->log, "OPEN\n"); break; } } else idle = 0;
	}
	mc_step();
	return s;
}
// what the stream says; und is set when the verdict on its last packet is left open
struct want { struct sb log; struct sb re[40]; int can[40], n, und, inc; };
static void expect (struct want *w, int ver, const uint8_t *in, int n) {
	memset(w, 0, sizeof *w); sb_raw(&w->log, "", 0); int pos = 0;
	while (pos < n) {
		struct ref r; ref_decode(&r, in + pos, n - pos, &ver);
		if (r.bad || r.incomplete) { w->inc = r.incomplete; w->und = r.und; if (r.bad) sbf(&w->log, "REFUSED\n"); else sbf(&w->log, "OPEN\n"); ref_free(&r); return; }
		if (r.und) { w->und = 1; ref_free(&r); return; }
		sb_raw(&w->log, r.log.p, r.log.n);
		if (w->n < 40) { w->can[w->n] = r.can_again; put8(&w->re[w->n], in[pos]); putvi(&w->re[w->n], (unsigned) r.again.n); sb_raw(&w->re[w->n], r.again.p, r.again.n); w->n++; }
		pos += r.used; ref_free(&r);
	}
	sbf(&w->log, "OPEN\n");
}
static void want_free (struct want *w) { free(w->log.p); for (int i = 0; i < 40; i++) free(w->re[i].p); }
static void judge (const struct want *w, const struct side *s, const uint8_t *in, int n) {
	if (w->und) { if (strncmp(s->log.p, w->log.p, (size_t) (w->log.n >= 8 && !strcmp(w->log.p + w->log.n - 8, "REFUSED\n") ? w->log.n - 8 : w->log.n >= 5 && !strcmp(w->log.p + w->log.n - 5, "OPEN\n") ? w->log.n - 5 : w->log.n))) mc_fail("%s: read as\n%s\ninstead of\n%s", hex(in, n), s->log.p, w->log.p); return; }
	if (w->inc) { // may already be refused
		int l = w->log.n - 5;
		if (strncmp(s->log.p, w->log.p, (size_t) l) || (strcmp(s->log.p + l, "OPEN\n") && strcmp(s->log.p + l, "REFUSED\n"))) mc_fail("%s: read as\n%s\ninstead of\n%s", hex(in, n), s->log.p, w->log.p);
		return;
	}
	if (strcmp(s->log.p, w->log.p)) mc_fail("%s: read as\n%s\ninstead of\n%s", hex(in, n), s->log.p, w->log.p);
	if (s->again) for (int i = 0; i < w->n; i++) if (w->can[i] && (s->re[i].n != w->re[i].n || memcmp(s->re[i].p, w->re[i].p, (size_t) w->re[i].n))) mc_fail("%s: packet %d sent as\n%s\ninstead of\n%s", hex(in, n), i, hex(s->re[i].p, s->re[i].n), hex(w->re[i].p, w->re[i].n));
}
static void check_stream (int ver, const uint8_t *in, int n, int cuts, int only) {
	struct want w; expect(&w, ver, in, n); char first[4000] = ""; struct side *s;
	s = run(ver, in, n, 0, 0, 1); judge(&w, s, in, n); snprintf(first, sizeof first, "%s", s->log.p); side_free(s);
	s = run(ver, in, n, 1, 0, 0); judge(&w, s, in, n); if (strcmp(s->log.p, first) && !w.inc) mc_fail("%s: byte by byte:\n%s\nin one piece:\n%s", hex(in, n), s->log.p, first); side_free(s);
	if (cuts) for (int c = 1; c < n; c++) { s = run(ver, in, n, 0, c, 0); judge(&w, s, in, n); if (strcmp(s->log.p, first) && !w.inc) mc_fail("%s: cut at %d:\n%s\nin one piece:\n%s", hex(in, n), c, s->log.p, first); side_free(s); }
	if (only && (w.und || w.inc || strstr(w.log.p, "REFUSED"))) mc_error("packet of the grammar is not valid: %s", hex(in, n));
	mc_obs_mem(first, strlen(first)); want_free(&w);
}

// ---- packets
static const struct { int id; const char *v; int n; } PV[] = {
	{ 0x01, "\1", 1 }, { 0x02, "\0\1\2\3", 4 }, { 0x03, "\0\4t/\xc3\xa6", 6 }, { 0x03, "\0\0", 2 }, { 0x08, "\0\1r", 3 }, { 0x09, "\0\3\0\xff" "b", 5 }, { 0x09, "\0\0", 2 }, { 0x0b, "\xff\xff\xff\x7f", 4 }, { 0x0b, "\x80\1", 2 }, { 0x11, "\xff\xff\xff\xff", 4 },
	{ 0x12, "\0\2id", 4 }, { 0x13, "\x12\x34", 2 }, { 0x15, "\0\1m", 3 }, { 0x16, "\0\1\0", 3 }, { 0x17, "\0", 1 }, { 0x18, "\0\0\0\5", 4 }, { 0x19, "\1", 1 }, { 0x1a, "\0\1i", 3 }, { 0x1c, "\0\1s", 3 }, { 0x1f, "\0\2no", 4 }, { 0x21, "\0\1", 2 }, { 0x22, "\xff\xff", 2 }, { 0x23, "\0\7", 2 }, { 0x24, "\1", 1 }, { 0x25, "\0", 1 },
	{ 0x26, "\0\1k\0\1v", 6 }, { 0x26, "\0\0\0\0", 4 }, { 0x26, "\0\0\0\1v", 5 }, { 0x26, "\0\1k\0\0", 5 }, { 0x27, "\0\1\0\0", 4 }, { 0x28, "\1", 1 }, { 0x29, "\1", 1 }, { 0x2a, "\0", 1 },
};
#define NPV ((int) (sizeof PV / sizeof *PV))
static void put_props (struct sb *b, const char *label) {
	int n = 0, k[2]; struct sb t = { 0 }; sb_raw(&t, "", 0);
	n = mc_dev(3, label);
	for (int i = 0; i < n; i++) { k[i] = mc_choose(NPV, "property"); if (i && PV[k[0]].id == PV[k[1]].id && PV[k[0]].id != 0x26) { free(t.p); free(b->p); mc_prune(); } put8(&t, PV[k[i]].id); sb_raw(&t, PV[k[i]].v, PV[k[i]].n); }
	putvi(b, (unsigned) t.n); sb_raw(b, t.p, t.n); free(t.p);
}
static int make (struct sb *out, int t, int ver) { // returns 0 when the combination does not exist
	struct sb b = { 0 }; sb_raw(&b, "", 0); int v5 = ver == 5, f = 0; static char big[300]; memset(big, 'x', sizeof big);
	switch (t) {
		case 1: {
			int will = mc_dev(7, "will"), un = mc_dev(3, "user"), pw = un || v5 ? mc_dev(2, "password") : 0, clean = mc_dev(2, "clean start");
			puts_(&b, ver == 3 ? "MQIsdp" : "MQTT", ver == 3 ? 6 : 4); put8(&b, ver); put8(&b, clean << 1 | (will ? 4 | ((will - 1) % 3) << 3 | (will > 3 ? 32 : 0) : 0) | (pw ? 64 : 0) | (un ? 128 : 0)); put16(&b, mc_dev(2, "keep alive") ? 0xffff : 0);
			if (v5) put_props(&b, "properties");
			static const char *ids[] = { "client", "", "\xc3\xa6" }; int k = mc_dev(3, "client id"); puts_(&b, ids[k], (int) strlen(ids[k]));
			if (will) { if (v5) put_props(&b, "will properties"); puts_(&b, "w/t", 3); if (mc_dev(2, "empty will")) puts_(&b, "", 0); else puts_(&b, "\0m", 2); }
			if (un) puts_(&b, "user", 4);
			if (pw) puts_(&b, "pass", 4);
			break; }
		case 2: { static const int r5[] = { 0, 0x80, 0x85, 0x9f }; int k = mc_dev(4, "reason"); put8(&b, k == 0 ? mc_dev(2, "session present") : 0); put8(&b, v5 ? r5[k] : k); if (v5) put_props(&b, "properties"); break; }
		case 3: { int q = mc_choose(3, "qos"); f = q << 1 | mc_dev(2, "retain"); if (q) f |= mc_dev(2, "dup") << 3; static const char *ts[] = { "t", "/", "a/b//c", "$SYS/\xe2\x82\xac" }; int k = mc_dev(5, "topic");
			if (k == 4) puts_(&b, big, 300); else puts_(&b, ts[k], (int) strlen(ts[k])); if (q) put16(&b, mc_dev(2, "id") ? 0xffff : 1); if (v5) put_props(&b, "properties");
			int p = mc_dev(4, "payload"); if (p == 0) sb_raw(&b, "data", 4); else if (p == 1) sb_raw(&b, "\0", 1); else if (p == 2) sb_raw(&b, big, 200); break; }
		case 4: case 5: case 6: case 7: { put16(&b, mc_dev(2, "id") ? 0x8000 : 2); f = t == 6 ? 2 : 0; if (v5) { int k = mc_dev(3, "form"); if (k != 1) { put8(&b, mc_dev(2, "reason") ? (t < 6 ? 0x10 : 0x92) : 0); if (k != 2) put_props(&b, "properties"); } } break; }
		case 8: case 10: { f = 2; put16(&b, 3); if (v5) put_props(&b, "properties"); static const char *fs[] = { "a", "#", "+/b/#", "/", "a/+" }; int n = 1 + mc_dev(3, "filters"), used = 0;
			for (int i = 0; i < n; i++) { int k = mc_choose(5, "filter"); if (used >> k & 1) { free(b.p); mc_prune(); } used |= 1 << k; puts_(&b, fs[k], (int) strlen(fs[k])); if (t == 8) put8(&b, mc_choose(3, "qos") | (v5 ? mc_dev(2, "nl") << 2 | mc_dev(2, "rap") << 3 | mc_dev(3, "retain handling") << 4 : 0)); } break; }
		case 9: case 11: { put16(&b, 4); if (v5) put_props(&b, "properties"); if (t == 9 || v5) { int n = 1 + mc_dev(3, "acks"); static const int s5[] = { 0, 1, 2, 0x80, 0x9e }, u5[] = { 0, 0x11, 0x80, 0x87, 0x8f }; for (int i = 0; i < n; i++) put8(&b, t == 11 ? u5[mc_choose(5, "ack")] : s5[mc_choose(v5 ? 5 : 4, "ack")]); } break; }
		case 12: case 13: break;
		case 14: if (v5) { int k = mc_dev(3, "form"); if (k != 1) { put8(&b, mc_dev(2, "reason") ? 4 : 0); if (k != 2) put_props(&b, "properties"); } } break;
		default: free(b.p); return 0;
	}
	put8(out, t << 4 | f); putvi(out, (unsigned) b.n); sb_raw(out, b.p, b.n); free(b.p); return 1;
}
static const int vers[] = { 5, 4, 3 };
static void run_valid (void) {
	int t = 1 + mc_choose(14, "type"), ver = mc_pick(vers, 3, "version"); struct sb b = { 0 };
	if (!make(&b, t, ver)) return;
	put8(&b, 0xc0); put8(&b, 0);
	check_stream(t == 1 ? 0 : ver, (uint8_t *) b.p, b.n, 1, 1);
	free(b.p);
}
static void run_two (void) {
	int ver = mc_pick(vers, 3, "version"), t1 = 1 + mc_choose(14, "first"), t2 = 2 + mc_choose(13, "second"); struct sb b = { 0 };
	make(&b, t1, ver); make(&b, t2, ver);
	check_stream(t1 == 1 ? 0 : ver, (uint8_t *) b.p, b.n, 1, 1);
	free(b.p);
}
static const struct { int ver; const char *d; int n; } base[] = {
#define B(v, s) { v, s, (int) sizeof(s) - 1 }
	B(0, "\x10\x25\0\4MQTT\5\xee\0\1\0\0\1c\5\x02\0\0\0\1\0\2wt\0\1m\0\1u\0\2pw"), B(0, "\x10\x17\0\6MQIsdp\3\xc2\0\1\0\1c\0\1u\0\2pw"), B(0, "\x10\x1b\0\4MQTT\4\x0e\0\1\0\1c\0\2wt\0\1m"),
	B(5, "\x20\6\1\0\3\x21\0\1"), B(4, "\x20\2\0\5"), B(5, "\x33\x18\0\3a/b\0\1\x0e\x01\1\x26\0\1k\0\1v\x09\0\1d" "xy"), B(4, "\x3d\7\0\2ab\0\1p"), B(4, "\x30\4\0\1tp"),
	B(5, "\x40\7\0\1\0\3\x1f\0\0"), B(4, "\x40\2\0\1"), B(5, "\x50\3\0\1\x10"), B(5, "\x62\3\0\1\x92"), B(5, "\x70\4\0\1\0\0"), B(5, "\x82\x0f\0\1\2\x0b\1\0\3a/+\x2d\0\1#\1"), B(4, "\x82\x0a\0\1\0\1a\0\0\1b\1"),
	B(5, "\x90\5\0\1\0\1\x80"), B(4, "\x90\4\0\1\2\x80"), B(5, "\xa2\6\0\1\0\0\1a"), B(4, "\xa2\5\0\1\0\1a"), B(5, "\xb0\4\0\1\0\x11"), B(4, "\xb0\2\0\1"), B(5, "\xc0\0"), B(4, "\xd0\0"), B(5, "\xe0\7\0\5\x11\0\0\0\1"), B(4, "\xe0\0"),
};
#define NB ((int) (sizeof base / sizeof *base))
static void run_corrupt (void) {
	int k = mc_choose(NB, "packet"), n = base[k].n, pos = mc_choose(n, "position"), op = mc_choose(4, "damage"); uint8_t d[80]; memcpy(d, base[k].d, (size_t) n);
	if (op == 0) d[pos] = (uint8_t) mc_choose(256, "value");
	else if (op == 1) { memmove(d + pos, d + pos + 1, (size_t) (n - pos - 1)); n--; }
	else if (op == 2) { memmove(d + pos + 1, d + pos, (size_t) (n - pos)); d[pos] = (uint8_t) mc_pick((int[]) { 0, 1, 'a', 0x26, 0x80, 0xff }, 6, "value"); n++; if (d[1] < 100 && mc_bool("length follows")) d[1]++; }
	else { if (pos < 2) return; n = pos; d[1] = (uint8_t) (n - 2); } // truncated, with matching length
	memcpy(d + n, "\xc0\0\x30\4\0\1tp", 8); n += base[k].ver || op == 0 ? 8 : 0;
	check_stream(base[k].ver, d, n, mc_tier(), 0);
}
static void run_bodies (void) {
	static const uint8_t al[] = { 0, 1, 2, 3, 0x26, 0x80, 0xff, 'a' };
	int t = mc_choose(15, "type") + 1, ver = mc_pick(vers, 2, "version"), f = t == 3 ? mc_choose(16, "flags") : t == 6 || t == 8 || t == 10 ? 2 : 0, n = mc_choose(mc_tier() ? 7 : 6, "length"); uint8_t d[40] = { (uint8_t) (t << 4 | f), (uint8_t) n };
	if (t == 3 && n > 4) n = 4, d[1] = 4;
	for (int i = 0; i < n; i++) d[2 + i] = al[mc_choose(8, "byte")];
	memcpy(d + 2 + n, "\xc0\0\x30\4\0\1tp", 8);
	check_stream(ver, d, n + 10, 0, 0);
}
int main (int argc, char **argv) {
	rrr_strerror_init();
	static const struct mc_scenario sc[] = { { "valid", run_valid, 1, 2, MC_LEAKCHECK, NULL }, { "two", run_two, 0, 1, MC_LEAKCHECK, NULL }, { "corrupt", run_corrupt, -1, -1, MC_LEAKCHECK, NULL }, { "bodies", run_bodies, -1, -1, MC_LEAKCHECK, NULL } };
	return mc_main(argc, argv, "C07", sc, 4);
}
