// FLAVOR: asan
// HTTP/1: the real application layer (http_application_http1.c with its parser, multipart and transaction code and
// read.c), both as server and as client, with the transport handle replaced by byte buffers. Messages come from a
// grammar with an independent statement of what they say, and are delivered in every fragmentation.
#include "mc.h"
#include <string.h>
#include <ctype.h>
#include <strings.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include "lib/log.h"
#include "lib/allocator.h"
#include "lib/rrr_types.h"
#include "lib/rrr_strerror.h"
#include "lib/read.h"
#include "lib/read_constants.h"
#include "lib/helpers/nullsafe_str.h"
#include "lib/net_transport/net_transport.h"
#include "lib/http/http_application.h"
#include "lib/http/http_application_http1.h"
#include "lib/http/http_application_internals.h"
#include "lib/http/http_transaction.h"
#include "lib/http/http_part.h"
#include "lib/http/http_fields.h"
#include "lib/http/http_header_fields.h"
#include "lib/util/rrr_time.h"

static uint64_t now = 1000000000ull;
uint64_t rrr_time_get_64 (void) { return now; }
int rrr_rand (void) { return 77; }

// ---- text buffers
struct sb { char *p; int n, a; };
static void sb_raw (struct sb *b, const void *d, int n) {
	if (b->n + n + 1 > b->a) { b->a = (b->n + n + 1) * 2; b->p = realloc(b->p, (size_t) b->a); }
	memcpy(b->p + b->n, d, (size_t) n); b->n += n; b->p[b->n] = 0;
}
static void sbf (struct sb *b, const char *f, ...) {
	char t[2048]; va_list ap; va_start(ap, f); int n = vsnprintf(t, sizeof t, f, ap); va_end(ap);
	if (n >= (int) sizeof t) mc_error("text too long");
	sb_raw(b, t, n);
}
static void sb_hex (struct sb *b, const void *d, int n) { for (int i = 0; i < n; i++) { unsigned char c = ((const unsigned char *) d)[i]; if (c > 32 && c < 127 && c != '%') sbf(b, "%c", c); else sbf(b, "%%%02x", c); } }
static void sb_free (struct sb *b) { free(b->p); memset(b, 0, sizeof *b); }

// ---- transport
struct side {
	struct rrr_http_application *app;
	struct rrr_read_session_collection coll;
	const uint8_t *in; int n, pos, step, cut[2], nc, eof;
	struct sb out, log; int done;
	int close_set, client, nmsg; rrr_biglength received;
	int resp;
};
static int r_read (char *buf, rrr_biglength *n, rrr_biglength max, void *a) {
	struct side *s = a; *n = 0;
	if (s->pos == s->n) return s->eof ? RRR_READ_EOF : RRR_READ_OK;
	int e = s->n;
	if (s->step) e = s->pos + s->step < s->n ? s->pos + s->step : s->n;
	for (int i = 0; i < s->nc; i++) if (s->cut[i] > s->pos && s->cut[i] < e) { e = s->cut[i]; break; }
	int l = e - s->pos; if ((rrr_biglength) l > max) l = (int) max;
	memcpy(buf, s->in + s->pos, (size_t) l); s->pos += l; *n = (rrr_biglength) l; return 0;
}
static struct rrr_read_session *r_over (void *a) { return rrr_read_session_collection_get_session_with_overshoot(&((struct side *) a)->coll); }
static struct rrr_read_session *r_sess (void *a) { int is_new; return rrr_read_session_collection_maintain_and_find_or_create(&is_new, &((struct side *) a)->coll, NULL, 0); }
static void r_remove (struct rrr_read_session *s, void *a) { rrr_read_session_collection_remove_session(&((struct side *) a)->coll, s); }
struct wrap { struct side *s; int (*t)(struct rrr_read_session *, void *); void *ta; int (*c)(struct rrr_read_session *, void *); void *ca; };
static struct wrap W;
static int w_swap (struct rrr_read_session *s, int (*f)(struct rrr_read_session *, void *), void *a) {
	// exact sized copy so that every access outside of what has arrived is seen
	char *p = malloc(s->rx_buf_wpos ? s->rx_buf_wpos : 1), *o = s->rx_buf_ptr;
	memcpy(p, o, s->rx_buf_wpos); s->rx_buf_ptr = p;
	int r = f(s, a);
	if (s->rx_buf_ptr == p) s->rx_buf_ptr = o; else free(o);
	free(p);
	return r;
}
static int w_target (struct rrr_read_session *s, void *a) { (void) a; return w_swap(s, W.t, W.ta); }
static int w_complete (struct rrr_read_session *s, void *a) { (void) a; return w_swap(s, W.c, W.ca); }
int rrr_net_transport_ctx_read_message (struct rrr_net_transport_handle *handle, rrr_biglength i, rrr_biglength st, rrr_biglength mx, uint64_t ri, rrr_biglength rm,
		int (*t)(struct rrr_read_session *, void *), void *ta, void (*te)(struct rrr_read_session *, int, void *), void *tea, int (*c)(struct rrr_read_session *, void *), void *ca) {
	(void) te; (void) tea; (void) ri; (void) rm;
	struct side *s = (struct side *) handle; uint64_t br = 0;
	W = (struct wrap) { s, t, ta, c, ca };
	return rrr_read_message_using_callbacks(&br, i, st, mx, RRR_READ_MESSAGE_FLUSH_OVERSHOOT, NULL, 0, 0, w_target, NULL, w_complete, r_read, r_over, r_sess, r_remove, NULL, s);
}
int rrr_net_transport_ctx_send_push_const (struct rrr_net_transport_handle *handle, const void *d, rrr_biglength n) { sb_raw(&((struct side *) handle)->out, d, (int) n); return 0; }
static int push_cb (const void *d, rrr_nullsafe_len n, void *a) { sb_raw(&((struct side *) a)->out, d, (int) n); return 0; }
int rrr_net_transport_ctx_send_push_nullsafe (struct rrr_net_transport_handle *handle, const struct rrr_nullsafe_str *str) { return rrr_nullsafe_str_with_raw_do_const(str, push_cb, handle); }
size_t rrr_net_transport_ctx_send_waiting_chunk_count (struct rrr_net_transport_handle *handle) { (void) handle; return 0; }
int rrr_net_transport_ctx_check_alive (struct rrr_net_transport_handle *handle) { (void) handle; return 0; }
void rrr_net_transport_ctx_reset_noread_counters (struct rrr_net_transport_handle *handle) { (void) handle; }
void rrr_net_transport_ctx_close_when_send_complete_set (struct rrr_net_transport_handle *handle) { ((struct side *) handle)->close_set = 1; }
int rrr_net_transport_ctx_close_when_send_complete_get (struct rrr_net_transport_handle *handle) { return ((struct side *) handle)->close_set; }
rrr_net_transport_handle rrr_net_transport_ctx_get_handle (struct rrr_net_transport_handle *handle) { (void) handle; return 1; }

// ---- what the application is given
static void sb_ns (struct sb *b, const struct rrr_nullsafe_str *s) {
	if (!s || !rrr_nullsafe_str_isset(s)) { sbf(b, "-"); return; }
	rrr_nullsafe_len l = rrr_nullsafe_str_len(s), w = 0; char *t = malloc(l ? l : 1);
	rrr_nullsafe_str_copyto(&w, t, l, s); sb_hex(b, t, (int) w); free(t);
}
static int hf_cb (struct rrr_http_header_field *f, void *a) {
	struct sb *b = a; sbf(b, "H "); sb_ns(b, f->name); sbf(b, "="); sb_ns(b, f->value_full); sbf(b, "\n"); return 0;
}
static int body_cb (RRR_HTTP_PART_ITERATE_CALLBACK_ARGS) { (void) chunk_idx; (void) chunk_total; (void) part_data_size; sb_raw(arg, data_start, (int) chunk_data_size); return 0; }
static const char *mname (int m) { static const char *n[] = { "UNKNOWN", "GET", "OPTIONS", "HEAD", "DELETE", "PUT", "PATCH", "POST" }; return n[m]; }
static const char *method_override;
static int app_cb (RRR_HTTP_APPLICATION_RECEIVE_CALLBACK_ARGS) {
	struct side *s = arg; (void) handle; (void) overshoot_bytes; (void) next_application_type;
	struct rrr_http_part *p = s->client ? transaction->response_part : transaction->request_part;
	struct sb *b = &s->log;
	s->nmsg++;
	if (s->client) sbf(b, "RESPONSE %u", p->response_code);
	else { sbf(b, "REQUEST %s ", mname((int) p->request_method)); sb_ns(b, p->request_method_str_nullsafe); sbf(b, " "); sb_ns(b, p->request_uri_nullsafe); }
	sbf(b, " v%d %s\n", (int) p->parsed_version == RRR_HTTP_VERSION_10 ? 10 : 11, p->parsed_connection == RRR_HTTP_CONNECTION_CLOSE ? "close" : p->parsed_connection == RRR_HTTP_CONNECTION_KEEPALIVE ? "keep" : "?");
	rrr_http_part_header_fields_iterate(p, hf_cb, b);
	for (struct rrr_http_field *f = p->fields.ptr_first; f; f = f->ptr_next) { sbf(b, "F "); sb_ns(b, f->name); sbf(b, "="); sb_ns(b, f->value); sbf(b, " "); sb_ns(b, f->content_type); sbf(b, "\n"); }
	struct sb body = { 0 };
	if (s->client) rrr_http_part_chunks_iterate(p, data_ptr, body_cb, &body);
	else sb_raw(&body, RRR_HTTP_PART_BODY_PTR(data_ptr, p), (int) RRR_HTTP_PART_BODY_LENGTH(p));
	sbf(b, "B %d ", body.n); sb_hex(b, body.p, body.n); sbf(b, "\n"); sb_free(&body);
	if (!s->client) {
		transaction->response_part->response_code = 200;
		if (s->resp) {
			if (rrr_http_part_header_field_push(transaction->response_part, "x-resp", "yes")) mc_error("push");
			if (rrr_http_transaction_send_body_set(transaction, "0\r\n\r\nbody", 9)) mc_error("body");
		}
	}
	return RRR_HTTP_OK;
}
static rrr_http_unique_id next_id;
static int id_cb (RRR_HTTP_APPLICATION_UNIQUE_ID_GENERATOR_CALLBACK_ARGS) { (void) arg; *unique_id = ++next_id; return 0; }
static struct side *side_new (int client) {
	struct side *s = calloc(1, sizeof *s); s->client = client;
	rrr_read_session_collection_init(&s->coll);
	struct rrr_http_application_callbacks cb = { .unique_id_generator_callback = client ? NULL : id_cb, .callback = app_cb, .callback_arg = s };
	if (rrr_http_application_http1_new(&s->app, &cb)) mc_error("new");
	sb_raw(&s->out, "", 0); sb_raw(&s->log, "", 0);
	return s;
}
static void side_free (struct side *s) {
	rrr_http_application_destroy_if_not_null(&s->app);
	rrr_read_session_collection_clear(&s->coll);
	sb_free(&s->out); sb_free(&s->log); free(s);
}
static rrr_biglength max_size;
static int side_tick (struct side *s) {
	struct rrr_http_rules rules = { 0 }; struct rrr_http_application *up = NULL;
	int r = s->app->constants->tick(&s->received, &up, s->app, (struct rrr_net_transport_handle *) s, max_size, &rules);
	if (up) rrr_http_application_destroy_if_not_null(&up);
	return r;
}
// Feeds everything, then the end of the stream. Returns when the connection is over.
static void side_run (struct side *s, int with_eof) {
	int idle = 0, ticks = 0; s->eof = 0;
	for (;;) {
		int p = s->pos, m = s->nmsg, o = s->out.n;
		int r = side_tick(s);
		if (++ticks > 20 * (s->n + 10)) mc_fail("the connection does not get anywhere");
		if (r & ~RRR_READ_INCOMPLETE) {
			s->done = r == RRR_READ_EOF ? 1 : 2;
			sbf(&s->log, s->eof ? "EOF\n" : s->client && r == RRR_HTTP_DONE && s->nmsg ? "END\n" : "REFUSED\n"); return; }
		if (s->close_set) { s->done = 1; sbf(&s->log, "CLOSE\n"); return; }
		if (p == s->pos && m == s->nmsg && o == s->out.n && s->pos == s->n) {
			if (++idle == 3) { if (!with_eof) { sbf(&s->log, "OPEN\n"); return; } if (s->eof) mc_fail("the end of the stream is not noticed"); s->eof = 1; idle = 0; }
		} else idle = 0;
	}
}
static char *text (const char *p, int n) { static char t[2][4000]; static int k; k ^= 1; int w = 0; for (int i = 0; i < n && w < 3990; i++) { unsigned char c = (unsigned char) p[i]; if (c == '\r') w += sprintf(t[k] + w, "\\r"); else if (c == '\n') w += sprintf(t[k] + w, "\\n"); else if (c >= 32 && c < 127) t[k][w++] = (char) c; else w += sprintf(t[k] + w, "\\x%02x", c); } t[k][w] = 0; return t[k]; }

// run one fragmentation; result: what the application saw, then what was sent back
static void start_client (struct side *s) {
	struct rrr_http_transaction *t = NULL; struct rrr_http_application *up = NULL;
	if (rrr_http_transaction_new(&t, RRR_HTTP_METHOD_GET, RRR_HTTP_BODY_FORMAT_RAW, 0, id_cb, NULL, NULL, NULL)) mc_error("transaction");
	if (rrr_http_transaction_endpoint_set(t, "/")) mc_error("endpoint");
	if (s->app->constants->request_send(&up, s->app, (struct rrr_net_transport_handle *) s, "ua", "host", RRR_HTTP_UPGRADE_MODE_NONE, RRR_HTTP_VERSION_11, t)) mc_error("request");
	rrr_http_transaction_decref_if_not_null(t);
}
static struct sb run (int client, const char *in, int n, int step, int c0, int c1, int eof) {
	struct side *s = side_new(client); struct sb r = { 0 };
	if (client) start_client(s);
	s->in = (const uint8_t *) in; s->n = n; s->step = step; if (c0 > 0) s->cut[s->nc++] = c0; if (c1 > 0) s->cut[s->nc++] = c1;
	side_run(s, eof);
	sb_raw(&r, s->log.p, s->log.n);
	if (!client) { sbf(&r, "OUT "); sb_hex(&r, s->out.p, s->out.n); sbf(&r, "\n"); }
	side_free(s);
	mc_step();
	return r;
}
static void compare (const struct sb *want, struct sb *got, const char *in, int n, const char *how, int a, int b) {
	if (want->n != got->n || memcmp(want->p, got->p, (size_t) want->n))
		mc_fail("delivered %s (%d %d): <%s> gives\n%s\ninstead of\n%s", how, a, b, text(in, n), got->p, want->p);
	sb_free(got);
}
static void all_fragmentations (int client, const char *in, int n, const struct sb *want, int pairs, int eof) {
	struct sb g;
	g = run(client, in, n, 0, 0, 0, eof); compare(want, &g, in, n, "whole", 0, 0);
	g = run(client, in, n, 1, 0, 0, eof); compare(want, &g, in, n, "byte by byte", 0, 0);
	for (int a = 1; a < n; a++) { g = run(client, in, n, 0, a, 0, eof); compare(want, &g, in, n, "cut at", a, 0); }
	if (pairs) { int a = 1 + mc_choose(n - 2, "first cut"); for (int b = a + 1; b < n; b++) { g = run(client, in, n, 0, a, b, eof); compare(want, &g, in, n, "cut at", a, b); } }
}

// ---- grammar
#define BODIES 15
// writes headers and body, and what they say
static void body_of (struct sb *hdr, struct sb *body, struct sb *wh, struct sb *wf, struct sb *wb, int k) {
	static const char raw[] = "a\r\n\r\n0\r\n";
	switch (k) {
		case 0: break;
		case 1: sbf(hdr, "Content-Length: 0\r\n"); sbf(wh, "H content-length=0\n"); break;
		case 2: sbf(hdr, "content-length:   9  \r\n"); sbf(wh, "H content-length=9\n"); sb_raw(body, raw, 9); sb_raw(wb, raw, 9); break;
		case 3: sbf(hdr, "Transfer-Encoding: chunked\r\n"); sbf(wh, "H transfer-encoding=chunked\n"); sbf(body, "0\r\n\r\n"); break;
		case 4: sbf(hdr, "Transfer-Encoding: chunked\r\n"); sbf(wh, "H transfer-encoding=chunked\n"); sbf(body, "8\r\n%s\r\n0\r\n\r\n", raw); sb_raw(wb, raw, 8); break;
		case 5: sbf(hdr, "TRANSFER-ENCODING: chunked\r\n"); sbf(wh, "H transfer-encoding=chunked\n"); sbf(body, "1\r\nX\r\n02\r\n\r\n\r\n0a\r\n0123456789\r\n00\r\n\r\n"); sbf(wb, "X\r\n0123456789"); break;
		case 6: sbf(hdr, "Content-Type: application/x-www-form-urlencoded\r\nContent-Length: 13\r\n"); sbf(wh, "H content-type=application/x-www-form-urlencoded\nH content-length=13\n"); sbf(body, "a=b&c=%%41&d=+"); sbf(wb, "a=b&c=%%41&d=+"); sbf(wf, "F a=b -\nF c=A -\nF d=%%20 -\n"); break;
		case 7: sbf(hdr, "Content-Type: application/x-www-form-urlencoded\r\nTransfer-Encoding: chunked\r\n"); sbf(wh, "H content-type=application/x-www-form-urlencoded\nH transfer-encoding=chunked\n"); sbf(body, "3\r\na=b\r\n6\r\n&c=%%41\r\n0\r\n\r\n"); sbf(wb, "a=b&c=%%41"); sbf(wf, "F a=b -\nF c=A -\n"); break;
		case 8: case 9: case 10: case 11: case 12: case 13: { // multipart
			struct sb m = { 0 }; int chunked = k == 11;
			if (k == 8 || k == 11) { sbf(&m, "--B\r\nContent-Disposition: form-data; name=\"x\"\r\n\r\nv1\r\n--B--\r\n"); sbf(wf, "F x=v1 -\n"); }
			else if (k == 9) { sbf(&m, "--B\r\nContent-Disposition: form-data; name=\"x\"\r\nContent-Type: text/plain\r\n\r\nl1\r\nl2\r\n--B\r\nContent-Disposition: form-data; name=y\r\n\r\n\r\n--B--\r\n"); sbf(wf, "F x=l1%%0d%%0al2 text/plain\nF y=- -\n"); }
			else if (k == 10) { sbf(&m, "preamble\r\n--B\r\nContent-Disposition: form-data; name=\"x\"\r\n\r\n--A\r\n--B"); sb_raw(&m, "\0z", 2); sbf(&m, "\r\n--B--\r\nepilogue"); sbf(wf, "F x=--A%%0d%%0a--B%%00z -\n"); }
			else if (k == 12) { sbf(&m, "--B\r\nContent-Disposition: form-data; name=\"x\"\r\nContent-Length: 2\r\n\r\nv1\r\n--B\r\nContent-Disposition: form-data; name=z\r\n\r\nend\r\n--B--\r\n"); sbf(wf, "F x=v1 -\nF z=end -\n"); }
			else { sbf(&m, "--B\r\nContent-Disposition: form-data; name=\"n\"\r\n\r\na--B\r\nb\r\n--B--\r\n"); sbf(wf, "F n=a--B%%0d%%0ab -\n"); }
			if (chunked) { sbf(hdr, "Content-Type: multipart/form-data; boundary=B\r\nTransfer-Encoding: chunked\r\n"); sbf(wh, "H content-type=multipart/form-data;%%20boundary=B\nH transfer-encoding=chunked\n"); sbf(body, "5\r\n"); sb_raw(body, m.p, 5); sbf(body, "\r\n%x\r\n", m.n - 5); sb_raw(body, m.p + 5, m.n - 5); sbf(body, "\r\n0\r\n\r\n"); }
			else { sbf(hdr, "Content-Type: multipart/form-data; boundary=%s\r\nContent-Length: %d\r\n", k == 9 ? "\"B\"" : "B", m.n); sbf(wh, "H content-type=multipart/form-data;%%20boundary=%s\nH content-length=%d\n", k == 9 ? "\"B\"" : "B", m.n); sb_raw(body, m.p, m.n); }
			sb_raw(wb, m.p, m.n); sb_free(&m); break; }
		case 14: sbf(hdr, "Transfer-Encoding: chunked\r\nContent-Type: text/plain\r\n"); sbf(wh, "H transfer-encoding=chunked\nH content-type=text/plain\n"); sbf(body, "A\r\n0123456789\r\n0\r\n\r\n"); sbf(wb, "0123456789"); break;
	}
}
static const struct { const char *text, *want; } extra[] = {
	{ "", "" }, { "X-A: b\r\n", "H x-a=b\n" }, { "x-b:c;d=e,f\r\n", "H x-b=c;d=e,f\n" }, { "Accept: a, b;q=1\r\n", "H accept=a,%20b;q=1\nH accept=-\n" }, { "X-Long:  a b  c \r\n", "H x-long=a%20b%20%20c\n" },
};
// words which do not depend on case, written in another way; the expectation follows as values are delivered as written
static void spell (char *p, char *end, int how) {
	static const char *w[] = { "chunked", "close", "Keep-Alive", "application/x-www-form-urlencoded", "multipart/form-data", "form-data", "boundary=", "name=" };
	for (; how && p < end; p++) for (int i = 0; i < 8; i++) { int l = (int) strlen(w[i]); if (end - p < l || memcmp(p, w[i], (size_t) l)) continue;
		for (int k = 0; k < l; k++) p[k] = (char) (how == 1 || (how == 2 && (!k || p[k - 1] == '-' || p[k - 1] == '/')) ? toupper(p[k]) : tolower(p[k])); p += l - 1; break; }
}
static void spell_msg (struct sb *text, struct sb *want, int how) { char *t = memchr(text->p, '\n', (size_t) text->n), *w = memchr(want->p, '\n', (size_t) want->n); if (t) spell(t, text->p + text->n, how); if (w) spell(w, want->p + want->n, how); }
struct msg { struct sb text, want; int keep; };
static void msg_free (struct msg *m) { sb_free(&m->text); sb_free(&m->want); }
static void make_request (struct msg *m, int method, int uri, int version, int conn, int ex, int bk) {
	static const char *methods[] = { "POST", "PUT", "PATCH", "GET", "DELETE", "OPTIONS", "HEAD" };
	static const char *uris[] = { "/", "/a/b.c?q=%41&r=b+c&s", "http://h/x" };
	static const char *uf[] = { "", "F q=A -\nF r=b%20c -\nF s=- -\n", "" };
	struct sb h = { 0 }, b = { 0 }, wh = { 0 }, wf = { 0 }, wb = { 0 };
	memset(m, 0, sizeof *m);
	sb_raw(&h, "", 0); sb_raw(&b, "", 0); sb_raw(&wh, "", 0); sb_raw(&wf, "", 0); sb_raw(&wb, "", 0);
	static const char *conns[] = { "", "Connection: close\r\n", "Connection: Keep-Alive\r\n" };
	static const char *wconns[] = { "", "H connection=close\n", "H connection=Keep-Alive\n" };
	sbf(&h, "Host: h\r\n%s%s", extra[ex].text, conns[conn]); sbf(&wh, "H host=h\n%s%s", extra[ex].want, wconns[conn]);
	body_of(&h, &b, &wh, &wf, &wb, bk);
	m->keep = conn ? conn == 2 : version == 11;
	sbf(&m->text, "%s %s HTTP/1.%d\r\n", methods[method], uris[uri], version - 10); sb_raw(&m->text, h.p, h.n); sbf(&m->text, "\r\n"); sb_raw(&m->text, b.p, b.n);
	sbf(&m->want, "REQUEST %s %s ", methods[method], methods[method]); sb_hex(&m->want, uris[uri], (int) strlen(uris[uri])); sbf(&m->want, " v%d %s\n", version, m->keep ? "keep" : "close");
	sb_raw(&m->want, wh.p, wh.n); sbf(&m->want, "%s", uf[uri]); sb_raw(&m->want, wf.p, wf.n);
	sbf(&m->want, "B %d ", wb.n); sb_hex(&m->want, wb.p, wb.n); sbf(&m->want, "\n");
	sb_free(&h); sb_free(&b); sb_free(&wh); sb_free(&wf); sb_free(&wb);
}
static void want_out (struct sb *o, int version, int keep) { struct sb t = { 0 }; sbf(&t, "HTTP/1.%d 200 OK\r\nconnection: %s\r\ncontent-length: 0\r\n\r\n", version - 10, keep ? "keep-alive" : "close"); sb_hex(o, t.p, t.n); sb_free(&t); }

static void run_requests (void) {
	int bk = mc_choose(BODIES, "body"), method = mc_choose(bk == 0 ? 7 : 2, "method"), version = 10 + mc_dev(2, "old"), uri = mc_dev(3, "uri"), conn = mc_dev(3, "connection"), ex = mc_dev(5, "extra header");
	version = 21 - version; // deviation is version 1.0
	int next = mc_dev(4, "what follows");
	struct msg m, p; make_request(&m, method, uri, version, conn, ex, bk); spell_msg(&m.text, &m.want, mc_dev(4, "spelling"));
	struct sb in = { 0 }, want = { 0 }, out = { 0 };
	sb_raw(&in, m.text.p, m.text.n); sb_raw(&want, m.want.p, m.want.n); want_out(&out, version, m.keep);
	if (m.keep && next) {
		make_request(&p, next == 1 ? 3 : 0, 1, 11, next == 1 ? 1 : 0, 1, next == 3 ? 5 : next == 2 ? 2 : 0);
		sb_raw(&in, p.text.p, p.text.n); sb_raw(&want, p.want.p, p.want.n); want_out(&out, 11, p.keep);
		sbf(&want, next == 1 ? "CLOSE\n" : "EOF\n"); msg_free(&p);
	}
	else sbf(&want, m.keep ? "EOF\n" : "CLOSE\n");
	sbf(&want, "OUT %s\n", out.p);
	if (mc_tier() && version == 11 && !uri && !conn && !ex) all_fragmentations(0, in.p, in.n, &want, 1, 1);
	else all_fragmentations(0, in.p, in.n, &want, 0, 1);
	mc_obs_mem(want.p, (size_t) want.n);
	sb_free(&in); sb_free(&want); sb_free(&out); msg_free(&m);
}

// ---- responses
static void run_responses (void) {
	static const struct { int bk; } kinds[] = { { 1 }, { 2 }, { 3 }, { 4 }, { 5 }, { 14 }, { 0 } };
	static const char *codes[] = { "200 OK", "200", "204 No Content", "404 Not  found", "500   x" };
	static const int num[] = { 200, 200, 204, 404, 500 };
	int k = mc_choose(7, "framing"), code = mc_choose(5, "code"), version = 11 - mc_dev(2, "old"), conn = mc_dev(3, "connection"), ex = mc_dev(5, "extra header"), cut_short = mc_dev(2, "connection is lost");
	if (num[code] == 204 && k != 6) return;
	if (cut_short && k == 6 && num[code] != 204) return;
	struct sb h = { 0 }, b = { 0 }, wh = { 0 }, wf = { 0 }, wb = { 0 }, in = { 0 }, want = { 0 };
	sb_raw(&h, "", 0); sb_raw(&b, "", 0); sb_raw(&wh, "", 0); sb_raw(&wf, "", 0); sb_raw(&wb, "", 0);
	static const char *conns[] = { "", "Connection: close\r\n", "Connection: Keep-Alive\r\n" };
	static const char *wconns[] = { "", "H connection=close\n", "H connection=Keep-Alive\n" };
	sbf(&h, "Server: s\r\n%s%s", extra[ex].text, conns[conn]); sbf(&wh, "H server=s\n%s%s", extra[ex].want, wconns[conn]);
	body_of(&h, &b, &wh, &wf, &wb, kinds[k].bk);
	if (k == 6 && num[code] != 204) { sbf(&b, "until\r\n\r\nclose"); sbf(&wb, "until\r\n\r\nclose"); }
	int keep = conn ? conn == 2 : version == 11, spelling = mc_dev(4, "spelling");
	sbf(&in, "HTTP/1.%d %s\r\n", version - 10, codes[code]); sb_raw(&in, h.p, h.n); sbf(&in, "\r\n"); sb_raw(&in, b.p, b.n); spell(in.p, in.p + in.n, spelling);
	if (cut_short) { // everything but the last byte: never a complete message, unless the end of the connection ends it
		sbf(&want, "REFUSED\n");
		for (int n = 1; n < in.n; n++) {
			struct sb g = run(1, in.p, n, 0, 0, 0, 1);
			if (strstr(g.p, "RESPONSE")) mc_fail("connection lost after <%s>: response delivered:\n%s", text(in.p, n), g.p);
			sb_free(&g);
		}
	}
	else {
		sbf(&want, "RESPONSE %d v%d %s\n", num[code], version, keep ? "keep" : "close"); sb_raw(&want, wh.p, wh.n);
		sbf(&want, "B %d ", wb.n); sb_hex(&want, wb.p, wb.n); sbf(&want, "\n"); { char *w = memchr(want.p, '\n', (size_t) want.n); spell(w, want.p + want.n, spelling); }
		sbf(&want, keep || (k == 6 && num[code] != 204) ? "EOF\n" : "END\n");
		all_fragmentations(1, in.p, in.n, &want, mc_tier() && !ex && !conn, 1);
	}
	mc_obs_mem(want.p, (size_t) want.n);
	sb_free(&h); sb_free(&b); sb_free(&wh); sb_free(&wf); sb_free(&wb); sb_free(&in); sb_free(&want);
}

// ---- damaged messages: the verdict does not depend on the fragmentation
static const struct { int client; const char *t; } base[] = {
	{ 0, "POST /a?b=c HTTP/1.1\r\nHost: h\r\nContent-Length: 3\r\n\r\nabc" "GET / HTTP/1.1\r\n\r\n" },
	{ 0, "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n1\r\nx\r\n0\r\n\r\n" "GET / HTTP/1.1\r\n\r\n" },
	{ 0, "POST / HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=B\r\nContent-Length: 65\r\n\r\n--B\r\nContent-Disposition: form-data; name=\"x\"\r\n\r\nv\r\n--B--\r\n-------" },
	{ 0, "GET /x HTTP/1.0\r\nConnection: keep-alive\r\nAccept: a, b\r\n\r\nGET / HTTP/1.1\r\n\r\n" },
	{ 0, "PUT / HTTP/1.1\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: 7\r\n\r\na=%41&b" },
	{ 1, "HTTP/1.1 200 OK\r\nContent-Length: 3\r\nServer: s\r\n\r\nabc" },
	{ 1, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n0\r\n\r\n" },
	{ 1, "HTTP/1.0 404 Not\r\nX: y; z=1\r\n\r\nabc" },
};
static void run_damage (void) {
	int k = mc_choose(8, "message"), n = (int) strlen(base[k].t), pos = mc_choose(n, "position");
	static const char subst[] = "\0 \r\n\t:;,=-0f9%\x80";
	int op = mc_choose(2 + 15, "damage");
	char in[400]; memcpy(in, base[k].t, (size_t) n);
	if (op == 0) { memmove(in + pos, in + pos + 1, (size_t) (n - pos - 1)); n--; }
	else if (op == 1) { memmove(in + pos + 1, in + pos, (size_t) (n - pos)); n++; }
	else in[pos] = subst[op - 2];
	struct sb w = run(base[k].client, in, n, 0, 0, 0, 1);
	if (mc_tier()) all_fragmentations(base[k].client, in, n, &w, 0, 1);
	else {
		struct sb g = run(base[k].client, in, n, 1, 0, 0, 1); compare(&w, &g, in, n, "byte by byte", 0, 0);
		for (int a = pos - 3; a <= pos + 4; a++) if (a > 0 && a < n) { g = run(base[k].client, in, n, 0, a, 0, 1); compare(&w, &g, in, n, "cut at", a, 0); }
	}
	mc_obs_mem(w.p, (size_t) w.n); sb_free(&w);
}

// ---- framing which must be refused (or at least never be taken for a complete message with another body)
static void run_framing (void) {
	static const struct { int client; const char *t, *never; int refused; } v[] = {
		{ 0, "POST / HTTP/1.1\r\nContent-Length: 18446744073709551615\r\n\r\nabc", "REQUEST", 0 },
		{ 0, "POST / HTTP/1.1\r\nContent-Length: 18446744073709551580\r\n\r\nabc", "REQUEST", 0 },
		{ 0, "POST / HTTP/1.1\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: 18446744073709551520\r\n\r\na=b", "REQUEST", 0 },
		{ 0, "POST / HTTP/1.1\r\nContent-Length: 99999999999999999999\r\n\r\nabc", "REQUEST", 1 },
		{ 0, "POST / HTTP/1.1\r\nContent-Length: -1\r\n\r\nabc", "REQUEST", 1 },
		{ 0, "POST / HTTP/1.1\r\nContent-Length: 3x\r\n\r\nabc", "REQUEST", 1 },
		{ 0, "POST / HTTP/1.1\r\nContent-Length: 1 2\r\n\r\nabc", "REQUEST", 1 },
		{ 0, "POST / HTTP/1.1\r\nContent-Length:\r\n\r\nabc", "REQUEST", 1 },
		{ 0, "POST / HTTP/1.1\r\nContent-Length: 3\r\nContent-Length: 1\r\n\r\nabc", "REQUEST", 1 },
		{ 0, "POST / HTTP/1.1\r\nContent-Length: 3\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n\r\nabc", "B%203", 0 },
		{ 0, "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\nContent-Length: 3\r\n\r\n0\r\n\r\nabc", "B%203", 0 },
		{ 0, "POST / HTTP/1.1\r\nTransfer-Encoding: gzip\r\n\r\n0\r\n\r\nabc", "REQUEST", 1 },
		{ 0, "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\nffffffffffffffff\r\nabc\r\n0\r\n\r\n", "REQUEST", 0 },
		{ 0, "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\nffffffffffffffee\r\nabc\r\n0\r\n\r\n", "REQUEST", 0 },
		{ 0, "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\nffffffffffffffc0\r\nabc\r\n0\r\n\r\n", "REQUEST", 0 },
		{ 0, "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n10000000000000003\r\nabc\r\n0\r\n\r\n", "REQUEST", 1 },
		{ 0, "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n3g\r\nabc\r\n0\r\n\r\n", "REQUEST", 1 },
		{ 0, "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n-3\r\nabc\r\n0\r\n\r\n", "REQUEST", 1 },
		{ 0, "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n0x3\r\nabc\r\n0\r\n\r\n", "REQUEST", 1 },
		{ 0, "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabcX0\r\n\r\n", "REQUEST", 1 },
		{ 0, "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabcdef\r\n0\r\n\r\n", "REQUEST", 1 },
		{ 0, "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n2\r\nabc\r\n0\r\n\r\n", "REQUEST", 1 },
		{ 0, "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n0\r\nXY", "REQUEST", 1 },
		{ 0, "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc0\r\n\r\n", "REQUEST", 1 },
		{ 0, "GET / HTTP/2.7\r\n\r\n", "REQUEST", 1 },
		{ 0, "GET / HTTP/1.1 \r\n\r\n", "REQUEST", 1 },
		{ 0, "GET /\r\nHost: HTTP/1.1\r\n\r\n", "REQUEST", 1 },
		{ 0, "GET\r\nX: HTTP/1.1\r\n\r\n", "REQUEST", 1 },
		{ 0, "BREW / HTTP/1.1\r\n\r\n", "REQUEST", 1 },
		{ 0, "get / HTTP/1.1\r\n\r\n", "REQUEST", 1 },
		{ 0, "GET / HTTP/1.1\r\nContent-Length: 3\r\n\r\nabc", "REQUEST", 1 },
		{ 0, "POST / HTTP/1.1\r\nHost\r\n\r\n", "REQUEST", 1 },
		{ 0, "POST / HTTP/1.1\r\n: x\r\n\r\n", "REQUEST", 1 },
		{ 0, "POST / HTTP/1.1\r\nContent-Length : 3\r\n\r\nabc", "REQUEST", 1 },
		{ 0, "POST / HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=B\r\nContent-Length: 8\r\n\r\n--B\r\nx\r\n", "F%20", 0 },
		{ 0, "POST / HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=B\r\nContent-Length: 12\r\n\r\n--B\r\n--B--\r\n", "F%20", 0 },
		{ 0, "POST / HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=B\r\nContent-Length: 13\r\n\r\n--B\r\nx--B--\r\n", "F%20", 0 },
		{ 0, "POST / HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=B\r\nContent-Length: 15\r\n\r\n--B\r\n\r\n\r\n--B--\r\n", "F%20", 0 },
		{ 0, "POST / HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=B\r\nContent-Length: 13\r\n\r\n--B\r\n\r\n--B--\r\n", "F%20", 0 },
		{ 0, "POST / HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=B\r\nX: --B\r\nContent-Length: 65\r\n\r\n--B\r\nContent-Disposition: form-data; name=\"n\"\r\n\r\na--B\r\nb\r\n--B--\r\n", "REFUSED", 0 },
		{ 0, "POST / HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=B\r\nContent-Length: 69\r\n\r\n--B\r\nContent-Type: text/plain\r\nTransfer-Encoding: chunked\r\n\r\n--B--\r\n", "F%20", 0 },
		{ 0, "POST / HTTP/1.1\r\nContent-Type: multipart/form-data\r\nContent-Length: 3\r\n\r\nabc", "REQUEST", 0 },
		{ 0, "POST / HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=\"\"\r\nContent-Length: 3\r\n\r\nabc", "REQUEST", 0 },
		{ 1, "HTTP/1.1 2x0 OK\r\nContent-Length: 0\r\n\r\n", "RESPONSE", 1 },
		{ 1, "HTTP/1.1 1000 OK\r\nContent-Length: 0\r\n\r\n", "RESPONSE", 1 },
		{ 1, "HTTP/1.1\r\n200 OK\r\nContent-Length: 0\r\n\r\n", "RESPONSE", 1 },
		{ 1, "HTTP/1.1 20\r\nContent-Length: 0\r\n\r\n", "RESPONSE", 1 },
		{ 1, "HTTP/2.0 200 OK\r\nContent-Length: 0\r\n\r\n", "RESPONSE", 1 },
		{ 1, "HTTP/1.1 200 OK\r\nContent-Length: 18446744073709551600\r\n\r\nabc", "RESPONSE", 0 },
		{ 1, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nfffffffffffffff0\r\nabc\r\n0\r\n\r\n", "RESPONSE", 0 },
		{ 1, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n", "RESPONSE", 0 },
		{ 1, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nContent-Length: 3\r\n\r\n0\r\n\r\n", "B 3", 0 },
	};
	int k = mc_choose((int) (sizeof v / sizeof *v), "message"), n = (int) strlen(v[k].t), limit = mc_flip("size limit");
	max_size = limit ? 4096 : 0;
	struct sb w = run(v[k].client, v[k].t, n, 0, 0, 0, 1);
	mc_log("%s\n%s", text(v[k].t, n), w.p);
	if (strstr(w.p, v[k].never)) mc_fail("<%s> is taken as\n%s", text(v[k].t, n), w.p);
	if (v[k].refused) {
		struct sb o = run(v[k].client, v[k].t, n, 0, 0, 0, 0);
		if (!strstr(o.p, "REFUSED") && !strstr(o.p, "CLOSE") && !strstr(o.p, "400%20")) mc_fail("<%s> is not refused but kept waiting for\n%s", text(v[k].t, n), o.p);
		sb_free(&o);
	}
	all_fragmentations(v[k].client, v[k].t, n, &w, mc_tier(), 1);
	max_size = 0;
	sb_free(&w);
}

// ---- the real client talking to the real server
static void run_roundtrip (void) {
	static const int methods[] = { RRR_HTTP_METHOD_GET, RRR_HTTP_METHOD_POST, RRR_HTTP_METHOD_PUT, RRR_HTTP_METHOD_DELETE, RRR_HTTP_METHOD_PATCH };
	static const int formats[] = { RRR_HTTP_BODY_FORMAT_MULTIPART_FORM_DATA, RRR_HTTP_BODY_FORMAT_URLENCODED, RRR_HTTP_BODY_FORMAT_RAW };
	static const struct { const char *p; int n; } names[] = { { "a", 1 }, { "x y", 3 }, { "q\"&=", 4 }, { "b\\", 2 } }, values[] = { { "1", 1 }, { "a&b=c%41+d", 10 }, { "l\r\n--RRR\r\n\r\n\0z", 13 }, { "", 0 } };
	static const char *eps[] = { "/", "/p?old=1", "/p/q.x" };
	int m = methods[mc_choose(5, "method")], f = formats[mc_choose(3, "format")], nf = m == RRR_HTTP_METHOD_DELETE ? 0 : mc_choose(3, "fields"), ep = mc_dev(3, "endpoint"), v10 = mc_dev(2, "version 1.0"), again = mc_dev(2, "second request");
	int fn[2], fv[2]; for (int i = 0; i < nf; i++) { fn[i] = mc_choose(4, "name"); fv[i] = mc_choose(4, "value"); }
	int raw = f == RRR_HTTP_BODY_FORMAT_RAW;
	if (raw && nf > 1) return;
	struct side *c = side_new(1), *s = side_new(0); s->resp = 1;
	for (int round = 0; round <= again; round++) {
		struct rrr_http_transaction *t = NULL; struct rrr_http_application *up = NULL; int possible = 0;
		if (rrr_http_transaction_new(&t, (enum rrr_http_method) m, (enum rrr_http_body_format) f, 0, id_cb, NULL, NULL, NULL)) mc_error("transaction");
		if (rrr_http_transaction_endpoint_set(t, eps[ep])) mc_error("endpoint");
		for (int i = 0; i < nf && !raw; i++) if (rrr_http_transaction_query_field_add(t, names[fn[i]].p, values[fv[i]].p, (rrr_length) values[fv[i]].n, NULL, NULL)) mc_error("field");
		int body = raw && nf && m != RRR_HTTP_METHOD_GET && m != RRR_HTTP_METHOD_DELETE;
		if (body && rrr_http_transaction_send_body_set(t, values[fv[0]].p, (rrr_length) values[fv[0]].n)) mc_error("body");
		if (c->app->constants->request_send_possible(&possible, c->app) || !possible) mc_fail("request cannot be sent");
		if (c->app->constants->request_send(&up, c->app, (struct rrr_net_transport_handle *) c, "ua", "host", RRR_HTTP_UPGRADE_MODE_NONE, v10 ? RRR_HTTP_VERSION_10 : RRR_HTTP_VERSION_11, t)) mc_fail("request is not sent");
		rrr_http_transaction_decref_if_not_null(t);
		s->in = (uint8_t *) c->out.p; s->n = c->out.n; s->pos = 0; s->step = mc_flip("byte by byte"); s->log.n = 0; s->nmsg = 0;
		s->out.n = 0;
		side_run(s, 0);
		mc_log("request:\n%s\nserver saw:\n%s\nresponse:\n%s", text(c->out.p, c->out.n), s->log.p, text(s->out.p, s->out.n));
		if (s->nmsg != 1) mc_fail("server got %d requests: <%s>: %s", s->nmsg, text(c->out.p, c->out.n), s->log.p);
		// expectation
		struct sb w = { 0 }; int nwf = 0; sbf(&w, "REQUEST %s ", mname(m));
		if (strncmp(s->log.p, w.p, (size_t) w.n)) mc_fail("method: %s", s->log.p);
		w.n = 0;
		if (ep == 1) { sbf(&w, "F old=1 -\n"); nwf++; }
		for (int i = 0; i < nf && !raw; i++) { sbf(&w, "F "); sb_hex(&w, names[fn[i]].p, names[fn[i]].n); sbf(&w, "="); if (values[fv[i]].n) sb_hex(&w, values[fv[i]].p, values[fv[i]].n); else sbf(&w, "-"); sbf(&w, " -\n"); nwf++; }
		struct sb g = { 0 }; sb_raw(&g, "", 0); sb_raw(&w, "", 0);
		for (char *q = s->log.p, *e; (e = strchr(q, '\n')); q = e + 1) if (!strncmp(q, "F ", 2)) sb_raw(&g, q, (int) (e - q) + 1);
		if (g.n != w.n || memcmp(g.p, w.p, (size_t) g.n)) mc_fail("fields sent:\n%s\nfields received:\n%s\nin <%s>", w.p, g.p, text(c->out.p, c->out.n));
		if (body) { w.n = 0; sbf(&w, "\nB %d ", values[fv[0]].n); sb_hex(&w, values[fv[0]].p, values[fv[0]].n); sbf(&w, "\n"); if (!strstr(s->log.p, w.p)) mc_fail("body sent:%s\nreceived:\n%s", w.p, s->log.p); }
		sb_free(&w); sb_free(&g);
		// response
		c->in = (uint8_t *) s->out.p; c->n = s->out.n; c->pos = 0; c->step = mc_flip("byte by byte"); c->log.n = 0; c->nmsg = 0; c->out.n = 0;
		side_run(c, 0);
		if (c->nmsg != 1) mc_fail("client got %d responses: <%s>: %s", c->nmsg, text(s->out.p, s->out.n), c->log.p);
		if (strncmp(c->log.p, "RESPONSE 200 ", 13) || !strstr(c->log.p, "\nH x-resp=yes\n") || !strstr(c->log.p, "\nB 9 0%0d%0a%0d%0abody\n")) mc_fail("response <%s> received as\n%s", text(s->out.p, s->out.n), c->log.p);
		if (v10 ? (!s->close_set || !strstr(c->log.p, "END\n")) : (s->close_set || !strstr(c->log.p, "OPEN\n"))) mc_fail("keeping of the connection: %d %s", s->close_set, c->log.p);
		mc_step();
		if (v10) break;
	}
	side_free(c); side_free(s);
}

static void run_all (void) { }
int main (int argc, char **argv) {
	(void) run_all; (void) method_override;
	rrr_strerror_init();
	static const struct mc_scenario sc[] = {
		{ "requests", run_requests, 2, 3, MC_LEAKCHECK, NULL }, { "responses", run_responses, 2, 4, MC_LEAKCHECK, NULL },
		{ "framing", run_framing, -1, -1, MC_LEAKCHECK, NULL },
		{ "damage", run_damage, -1, -1, MC_LEAKCHECK, NULL }, { "roundtrip", run_roundtrip, 1, 3, MC_LEAKCHECK, NULL },
	};
	return mc_main(argc, argv, "C12", sc, 5);
}
