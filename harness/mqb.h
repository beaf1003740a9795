// The real MQTT broker, session store, parser and assembler behind a transport of which the harness is the other end.
#include "mc.h"
#include <string.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <netinet/in.h>
#include "lib/log.h"
#include "lib/allocator.h"
#include "lib/rrr_types.h"
#include "lib/rrr_strerror.h"
#include "lib/read.h"
#include "lib/read_constants.h"
#include "lib/event/event.h"
#include "lib/event/event_collection.h"
#include "lib/event/event_collection_struct.h"
#include "lib/net_transport/net_transport.h"
#include "lib/net_transport/net_transport_config.h"
#include "lib/mqtt/mqtt_acl.h"
#include "lib/mqtt/mqtt_common.h"
#include "lib/mqtt/mqtt_broker.h"
#include "lib/mqtt/mqtt_session_ram.h"

// ---- time
static uint64_t now_us;
uint64_t rrr_time_get_64 (void) { return now_us; }

// ---- transport and events
struct hn { int no, tr, gone, dying; struct hn *peer; void *app; void (*app_destroy)(void *); int (*pre)(struct rrr_net_transport_handle *, void *); struct rrr_read_session_collection coll;
	uint8_t *in; int in_n, in_p, eof; uint8_t *out; int out_n, seen; struct hn *next; };
static struct hn *H; static int hn_no;
static struct { void (*acc)(struct rrr_net_transport_handle *, const struct sockaddr *, socklen_t, void *); void *acc_arg; int (*rd)(struct rrr_net_transport_handle *, void *); void *rd_arg; } TRS[4];
static struct { void (*f)(evutil_socket_t, short, void *); void *arg; } maint_[4];
static int ntr, nmaint; // 0 is the broker
#define T TRS[0]
#define TR_NO(t) ((int) (((char *) (t) - (char *) TRS) / (long) sizeof *TRS))
int rrr_net_transport_new (struct rrr_net_transport **result, const struct rrr_net_transport_config *config, const char *name, int flags, struct rrr_event_queue *queue, const char *alpn, unsigned int alpn_n, uint64_t a, uint64_t b, uint64_t c, rrr_length limit,
		void (*accept_callback)(RRR_NET_TRANSPORT_ACCEPT_CALLBACK_FINAL_ARGS), void *accept_arg, int (*hs)(RRR_NET_TRANSPORT_HANDSHAKE_COMPLETE_CALLBACK_ARGS), void *hs_arg, int (*read_callback)(RRR_NET_TRANSPORT_READ_CALLBACK_FINAL_ARGS), void *read_arg, int (*so)(RRR_NET_TRANSPORT_STREAM_OPEN_CALLBACK_ARGS), void *so_arg) {
	(void) config; (void) name; (void) flags; (void) queue; (void) alpn; (void) alpn_n; (void) a; (void) b; (void) c; (void) limit; (void) hs; (void) hs_arg; (void) so; (void) so_arg;
	if (ntr == 4) mc_error("transports");
	TRS[ntr].acc = accept_callback; TRS[ntr].acc_arg = accept_arg; TRS[ntr].rd = read_callback; TRS[ntr].rd_arg = read_arg; *result = (void *) &TRS[ntr++]; return 0;
}
static void hn_destroy (struct hn *h) {
	if (h->gone) return;
	h->gone = 1; if (h->app && h->app_destroy) h->app_destroy(h->app);
	h->app = NULL; rrr_read_session_collection_clear(&h->coll);
}
static void hn_kill (struct hn *h) { // the way of the transport framework
	int r = h->pre ? h->pre((void *) h, h->app) : 0;
	if (r == RRR_READ_HARD_ERROR) mc_fail("internal error while closing a connection");
	if (r == 0) hn_destroy(h); else h->dying = 1;
}
void rrr_net_transport_common_cleanup (struct rrr_net_transport *t) { for (struct hn *h = H; h; h = h->next) if (h->tr == TR_NO(t)) hn_destroy(h); }
void rrr_net_transport_destroy (struct rrr_net_transport *t) { rrr_net_transport_common_cleanup(t); }
int rrr_net_transport_bind_and_listen_dualstack (struct rrr_net_transport *t, uint16_t port, void (*cb)(RRR_NET_TRANSPORT_BIND_AND_LISTEN_CALLBACK_FINAL_ARGS), void *arg) { (void) t; (void) port; (void) cb; (void) arg; return 0; }
void rrr_net_transport_config_copy_mask_tls (struct rrr_net_transport_config *t, const struct rrr_net_transport_config *s) { *t = *s; }
void rrr_net_transport_stats_get (rrr_length *l, rrr_length *c, struct rrr_net_transport *t) { *l = 1; *c = 0; for (struct hn *h = H; h; h = h->next) if (!h->gone && h->tr == TR_NO(t)) (*c)++; }
static int poked;
void rrr_net_transport_notify_read_fast_all_connected (struct rrr_net_transport *t) { (void) t; poked = 1; }
int rrr_net_transport_iterate_by_mode_and_do (struct rrr_net_transport *t, enum rrr_net_transport_socket_mode mode, int (*cb)(struct rrr_net_transport_handle *, void *), void *arg) {
	(void) mode;
	for (struct hn *h = H; h; h = h->next) { if (h->gone || h->tr != TR_NO(t)) continue; int r = cb((void *) h, arg); if (r == 0 || r == RRR_READ_INCOMPLETE) continue; if (r == RRR_READ_SOFT_ERROR || r == RRR_READ_EOF) hn_kill(h); else return RRR_READ_HARD_ERROR; }
	return 0;
}
static int r_read (char *buf, rrr_biglength *n, rrr_biglength max, void *a) {
	struct hn *h = a; *n = 0; int l = h->in_n - h->in_p; if (!l) return h->eof ? h->eof : RRR_READ_OK;
	if ((rrr_biglength) l > max) l = (int) max;
	memcpy(buf, h->in + h->in_p, (size_t) l); h->in_p += l; *n = (rrr_biglength) l; return 0;
}
static struct rrr_read_session *r_over (void *a) { return rrr_read_session_collection_get_session_with_overshoot(&((struct hn *) a)->coll); }
static struct rrr_read_session *r_sess (void *a) { int is_new; return rrr_read_session_collection_maintain_and_find_or_create(&is_new, &((struct hn *) a)->coll, NULL, 0); }
static void r_remove (struct rrr_read_session *s, void *a) { rrr_read_session_collection_remove_session(&((struct hn *) a)->coll, s); }
struct wcb { int (*t)(struct rrr_read_session *, void *); void *ta; int (*c)(struct rrr_read_session *, void *); void *ca; struct hn *h; };
static struct wcb W;
static int w_target (struct rrr_read_session *s, void *a) { (void) a; return W.t(s, W.ta); }
static int w_complete (struct rrr_read_session *s, void *a) { (void) a; return W.c(s, W.ca); }
int rrr_net_transport_ctx_read_message (struct rrr_net_transport_handle *handle, rrr_biglength i, rrr_biglength st, rrr_biglength mx, uint64_t ri, rrr_biglength rm,
		int (*t)(struct rrr_read_session *, void *), void *ta, void (*te)(struct rrr_read_session *, int, void *), void *tea, int (*c)(struct rrr_read_session *, void *), void *ca) {
	(void) te; (void) tea; (void) ri; (void) rm; uint64_t br = 0;
	W.t = t; W.ta = ta; W.c = c; W.ca = ca;
	return rrr_read_message_using_callbacks(&br, i, st, mx, RRR_READ_MESSAGE_FLUSH_OVERSHOOT, NULL, 0, 0, w_target, NULL, w_complete, r_read, r_over, r_sess, r_remove, NULL, handle);
}
int rrr_net_transport_ctx_send_push (struct rrr_net_transport_handle *handle, void **d, rrr_biglength n) {
	struct hn *h = (void *) handle; if (h->gone) mc_fail("data sent on a connection which does not exist");
	if (!h->eof) { h->out = realloc(h->out, (size_t) h->out_n + n); memcpy(h->out + h->out_n, *d, n); h->out_n += (int) n; }
	free(*d); *d = NULL; return 0;
}
int rrr_net_transport_ctx_send_push_urgent (struct rrr_net_transport_handle *handle, void **d, rrr_biglength n) { return rrr_net_transport_ctx_send_push(handle, d, n); }
long double rrr_net_transport_ctx_send_waiting_chunk_limit_factor (struct rrr_net_transport_handle *handle) { (void) handle; return 0; }
void *rrr_net_transport_ctx_get_application_private_ptr (struct rrr_net_transport_handle *handle) { return ((struct hn *) handle)->app; }
rrr_net_transport_handle rrr_net_transport_ctx_get_handle (struct rrr_net_transport_handle *handle) { return ((struct hn *) handle)->no; }
void rrr_net_transport_handle_ptr_application_data_bind (struct rrr_net_transport_handle *handle, void *d, void (*f)(void *)) { ((struct hn *) handle)->app = d; ((struct hn *) handle)->app_destroy = f; }
void rrr_net_transport_handle_ptr_application_pre_destroy_function_set (struct rrr_net_transport_handle *handle, int (*f)(struct rrr_net_transport_handle *, void *)) { ((struct hn *) handle)->pre = f; }
void rrr_event_collection_init (struct rrr_event_collection *c, struct rrr_event_queue *q) { (void) q; memset(c, 0, sizeof *c); }
void rrr_event_collection_clear (struct rrr_event_collection *c) { (void) c; }
int rrr_event_collection_push_periodic (struct rrr_event_handle *t, struct rrr_event_collection *c, void (*cb)(evutil_socket_t, short, void *), void *arg, uint64_t us) { (void) t; (void) c; (void) us; maint_[nmaint].f = cb; maint_[nmaint++].arg = arg; return 0; }
void rrr_event_dispatch_break (struct rrr_event_queue *q) { (void) q; mc_fail("broker stopped by an internal error"); }

static struct hn *hn_add (int tr) {
	struct hn *h = calloc(1, sizeof *h); h->no = ++hn_no; h->tr = tr; rrr_read_session_collection_init(&h->coll);
	struct hn **pp = &H; while (*pp) pp = &(*pp)->next; *pp = h; return h;
}
static struct hn *hn_new (void) {
	struct hn *h = hn_add(0);
	struct sockaddr_in a = { .sin_family = AF_INET };
	T.acc((void *) h, (struct sockaddr *) &a, sizeof a, T.acc_arg);
	if (!h->app) mc_fail("connection refused");
	return h;
}
int rrr_net_transport_connect (struct rrr_net_transport *t, uint16_t port, const char *host, void (*cb)(struct rrr_net_transport_handle *, const struct sockaddr *, socklen_t, void *), void *arg) {
	(void) port; (void) host; struct hn *b = hn_new(), *c = hn_add(TR_NO(t)); b->peer = c; c->peer = b;
	struct sockaddr_in a = { .sin_family = AF_INET }; cb((void *) c, (struct sockaddr *) &a, sizeof a, arg); return 0;
}
static void hn_put (struct hn *h, const void *d, int n) { h->in = realloc(h->in, (size_t) (h->in_n + n)); memcpy(h->in + h->in_n, d, (size_t) n); h->in_n += n; }

// ---- packets
struct pk { uint8_t d[600]; int n; };
static void p8 (struct pk *p, int v) { p->d[p->n++] = (uint8_t) v; }
static void p16 (struct pk *p, int v) { p8(p, v >> 8); p8(p, v); }
static void ps (struct pk *p, const char *s) { p16(p, (int) strlen(s)); memcpy(p->d + p->n, s, strlen(s)); p->n += (int) strlen(s); }
static void psend (struct hn *h, int first, struct pk *p) { uint8_t hd[3]; int k = 0; hd[k++] = (uint8_t) first; int n = p->n; do { hd[k++] = (uint8_t) ((n & 127) | (n > 127 ? 128 : 0)); n >>= 7; } while (n); hn_put(h, hd, k); if (p->n) hn_put(h, p->d, p->n); }

static struct rrr_mqtt_broker_data *B; static struct rrr_mqtt_acl acl;
static void broker_new (const char *acl_text) {
	H = NULL; hn_no = ntr = nmaint = 0; now_us = 1000000000000000ULL;
	if (!acl.ptr_first) {
		char fn[200]; snprintf(fn, sizeof fn, "%s/acl", mc_scratch()); FILE *f = fopen(fn, "w"); if (!f) mc_error("acl");
		fputs(acl_text, f); fclose(f);
		if (rrr_mqtt_acl_entry_collection_populate_from_file(&acl, fn)) mc_error("acl"); unlink(fn);
	}
	struct rrr_mqtt_common_init_data in = { .client_name = "broker", .retry_interval_usec = 3000000, .close_wait_time_usec = 1000000, .max_socket_connections = 100 };
	if (rrr_mqtt_broker_new(&B, &in, (void *) &T, 60, NULL, NULL, &acl, 0, 0, rrr_mqtt_session_collection_ram_new_broker, NULL)) mc_error("broker");
	struct rrr_net_transport_config cfg; memset(&cfg, 0, sizeof cfg); cfg.transport_type_p = RRR_NET_TRANSPORT_PLAIN;
	if (rrr_mqtt_broker_listen_ipv4_and_ipv6(B, &cfg, 1883)) mc_error("listen");
}
static void broker_end (void) {
	rrr_mqtt_broker_destroy(B);
	while (H) { struct hn *h = H; H = h->next; if (!h->gone) mc_fail("connection is not released with the broker"); free(h->in); free(h->out); free(h); }
}
static void maintain (void) { for (int i = 0; i < nmaint; i++) maint_[i].f(-1, 0, maint_[i].arg); }
static void reap (void) { for (struct hn *h = H; h; h = h->next) if (!h->gone && h->dying) { hn_kill(h); if (!h->gone) mc_fail("closed connection is not released"); } }
