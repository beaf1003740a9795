// FLAVOR: asan
// MQTT QoS between real clients and the real broker: connections are lost at every point between two packets, noticed
// by the broker or not, and the clients connect again as the client module does. Every packet is seen by a monitor.
#include "mqb.h"
#include "lib/mqtt/mqtt_client.h"
#include "lib/mqtt/mqtt_packet.h"
#include "lib/mqtt/mqtt_payload.h"
#include "lib/mqtt/mqtt_subscription.h"
#include "lib/mqtt/mqtt_property.h"

int rrr_posix_usleep (size_t us) { now_us += us; return 0; }
#define MAXM 5
struct ex { int used, sub, id, no, rel, q; };           // exchange seen on the wire
struct cl {
	const char *id; int ver, clean, conns, seen, th, lost, suback, subq; struct rrr_mqtt_client_data *d; struct rrr_mqtt_session *s; struct hn *c;
	struct ex ex[2][8]; int got[MAXM + 1], order[32], norder, sent[2][MAXM + 1];
};
static struct cl P, S; static int nmsg, mq[MAXM + 1], slow, accepted[MAXM + 1];
static const char *topic_of (int no) { static const char *t[] = { "", "t/a", "t/b", "t", "t/a/c", "t/d" }; return t[no]; }

static void on_publish (struct rrr_mqtt_p_publish *p, void *arg) {
	struct cl *c = arg; if (c != &S) mc_fail("%s has no subscription", c->id);
	if (!p->payload || p->payload->size != 5 || memcmp(p->payload->payload_start, "msg-", 4)) mc_fail("payload of a message is changed");
	int no = p->payload->payload_start[4] - '0'; if (no < 1 || no > nmsg) mc_fail("message which nobody published");
	if (!p->topic || strcmp(p->topic, topic_of(no))) mc_fail("message %d has topic %s", no, p->topic ? p->topic : "-");
	int eq = mq[no] < S.subq ? mq[no] : S.subq; if (RRR_MQTT_P_PUBLISH_GET_FLAG_QOS(p) != eq) mc_fail("message %d has QoS %d instead of %d", no, (int) RRR_MQTT_P_PUBLISH_GET_FLAG_QOS(p), eq);
	mc_log("  %s: application gets message %d", c->id, no);
	if (!c->got[no]++) c->order[c->norder++] = no;
}
static int on_suback (struct rrr_mqtt_client_data *d, struct rrr_mqtt_p_suback_unsuback *p, void *arg) { (void) d; (void) p; ((struct cl *) arg)->suback++; return 0; }
static int on_parsed (struct rrr_mqtt_client_data *d, struct rrr_mqtt_p *p, void *arg) { (void) d; (void) p; (void) arg; return 0; }

// ---- packets on the wire; dir 0 is to the broker
static int pk_len (const uint8_t *d, int n, int *hd) { int k = 1, l = 0, sh = 0; if (n < 2) return 0; do { if (k >= n) return 0; l |= (d[k] & 127) << sh; sh += 7; } while (d[k++] & 128); *hd = k; return k + l <= n ? k + l : 0; }
static int pk_id (struct cl *c, const uint8_t *d, int len, int hd, int *no) {
	(void) c; const uint8_t *b = d + hd; int t = d[0] >> 4; *no = 0;
	if (t == 3) { int o = 2 + (b[0] << 8 | b[1]), id = 0; if (d[0] & 6) { id = b[o] << 8 | b[o + 1]; if (!id) mc_fail("packet identifier zero"); } *no = d[len - 1] - '0'; if (*no < 1 || *no > nmsg) mc_fail("message is damaged on the way"); return id; }
	return (t >= 4 && t <= 11 && len >= hd + 2) ? b[0] << 8 | b[1] : 0;
}
static struct ex *ex_find (struct cl *c, int dir, int id) { for (int i = 0; i < 8; i++) if (c->ex[dir][i].used && c->ex[dir][i].id == id) return &c->ex[dir][i]; return NULL; }
static void mon_sent (struct cl *c, int dir, const uint8_t *d, int len, int hd) {
	int no, id = pk_id(c, d, len, hd, &no), t = d[0] >> 4, q = d[0] >> 1 & 3; if (!(t == 3 && q) && t != 8 && t != 10) return;
	const char *w = dir ? "broker" : c->id;
	struct ex *e = ex_find(c, dir, id); int sub = t != 3;
	if (e) {
		if (e->sub != sub || (!sub && e->no != no)) mc_fail("%s uses packet identifier %d for two exchanges", w, id);
		if (sub) { if (slow) return; mc_fail("%s sends a subscription again on the same connection", w); }
		if (e->rel) mc_fail("%s publishes message %d again after PUBREC", w, no);
		if (!(d[0] & 8)) mc_fail("%s sends message %d again without DUP", w, no);
		return;
	}
	int again = dir && mq[no] == 1 && (P.lost || slow); // the broker has got it twice
	if (!sub && !again) { for (int i = 0; i < 8; i++) if (c->ex[dir][i].used && c->ex[dir][i].no == no) mc_fail("%s sends message %d with two packet identifiers", w, no);
		if (c->sent[dir][no]) mc_fail("%s publishes message %d again after its end", w, no);
		c->sent[dir][no] = 1; }
	int i = 0; while (i < 8 && c->ex[dir][i].used) i++; if (i == 8) mc_fail("too many exchanges");
	c->ex[dir][i] = (struct ex) { .used = 1, .sub = sub, .id = id, .no = no, .q = q };
}
static void mon_taken (struct cl *c, int dir, const uint8_t *d, int len, int hd) { // acknowledge arrives
	int no, id = pk_id(c, d, len, hd, &no), t = d[0] >> 4; struct ex *e = ex_find(c, 1 - dir, id); if (!e) return;
	int reason = c->ver == 5 && t != 9 && t != 11 && len > hd + 2 ? d[hd + 2] : 0;
	if (reason >= 0x80 && t >= 4 && t <= 6 && t != 6) mc_fail("message %d is refused with reason %d", e->no, reason);
	if (t == 4) { if (e->sub || e->q != 1) mc_fail("PUBACK for another type of exchange"); e->used = 0; }
	else if (t == 5) { if (e->sub || e->q != 2) mc_fail("PUBREC for another type of exchange"); e->rel = 1; }
	else if (t == 7) { if (e->sub || e->q != 2 || !e->rel) mc_fail("PUBCOMP without PUBREC"); e->used = 0; }
	else if (t == 9 || t == 11) { if (!e->sub) mc_fail("SUBACK for PUBLISH"); e->used = 0; }
}
static void sweep (struct cl *c) { // looks at what was sent since last
	if (!c->c) return;
	for (int dir = 0; dir < 2; dir++) { struct hn *f = dir ? c->c->peer : c->c; int hd, n; while ((n = pk_len(f->out + f->seen, f->out_n - f->seen, &hd))) { mon_sent(c, dir, f->out + f->seen, n, hd); f->seen += n; } if (f->seen < f->out_n) mc_fail("half a packet"); }
}
static void rd (struct hn *h, struct cl *c, int expect) {
	if (!h || h->gone || h->dying) return;
	int r = TRS[h->tr].rd((void *) h, TRS[h->tr].rd_arg);
	if (r & RRR_READ_HARD_ERROR) mc_fail("internal error in %s", h->tr ? c->id : "the broker");
	if (r & (RRR_READ_SOFT_ERROR | RRR_READ_EOF)) { if (!h->eof && !expect) mc_fail("%s closes the connection of %s", h->tr ? "client" : "broker", c->id); hn_kill(h); }
	sweep(c);
}
static int want; static void subscribe (struct cl *c);
static int move (struct cl *c, int dir) { // one packet
	struct hn *f = dir ? c->c->peer : c->c, *t = f->peer; int hd, n = pk_len(f->out, f->out_n, &hd); if (!n) { if (f->out_n) mc_fail("half a packet"); return 0; }
	mc_log("%s %s %02x id %d", dir ? "broker ->" : "broker <-", c->id, f->out[0], pk_id(c, f->out, n, hd, &(int) { 0 }));
	if (dir && f->out[0] >> 4 == 2) { if (f->out[hd + 1]) mc_fail("connection refused"); if (f->out[hd] != (c->seen > 1)) mc_fail("session present %d at connection %d", f->out[hd], c->seen); }
	int is_connack = dir && f->out[0] >> 4 == 2; if (dir && f->out[0] >> 4 == 14) mc_fail("broker disconnects %s", c->id);
	if (!dir && f->out[0] >> 4 == 1) c->seen++;
	if (!t->gone && !t->dying) { mon_taken(c, dir, f->out, n, hd); hn_put(t, f->out, n); }
	memmove(f->out, f->out + n, (size_t) (f->out_n - n)); f->out_n -= n; f->seen -= n;
	rd(t, c, 0); if (is_connack && c == &S && want && !c->suback) subscribe(c);
	return 1;
}
static void subscribe (struct cl *c) {
	struct rrr_mqtt_subscription_collection *l; if (rrr_mqtt_subscription_collection_new(&l) || rrr_mqtt_subscription_collection_push_unique_str(l, "t/#", 0, 0, 0, (uint8_t) c->subq) || rrr_mqtt_subscription_collection_push_unique_str(l, "t", 0, 0, 0, (uint8_t) c->subq)) mc_error("subscription");
	mc_log("%s subscribes", c->id); if (rrr_mqtt_client_subscribe(c->d, &c->s, l)) mc_fail("subscribe fails");
	rrr_mqtt_subscription_collection_destroy(l);
}
static void c_connect (struct cl *c) { // the way of the client module (a clean session of 3.1.1 would not outlive its connection)
	rrr_mqtt_client_close_all_connections(c->d);
	mc_log("%s connects", c->id); struct rrr_mqtt_property_collection pr; memset(&pr, 0, sizeof pr);
	struct hn *last = H; while (last && last->next) last = last->next;
	if (rrr_mqtt_client_connect(&c->th, &c->s, c->d, "host", 1883, (uint8_t) c->ver, 60, c->conns == 0 && c->ver == 5, NULL, NULL, &pr, NULL, NULL, 0, 0)) mc_fail("%s can not connect", c->id);
	c->conns++; for (c->c = last ? last : H; c->c && c->c->no != c->th; c->c = c->c->next); if (!c->c) mc_fail("connection is gone");
	sweep(c);
}
static void c_new (struct cl *c) {
	struct rrr_mqtt_common_init_data in = { .client_name = c->id, .retry_interval_usec = 3000000, .close_wait_time_usec = 1000000, .max_socket_connections = 100 };
	if (rrr_mqtt_client_new(&c->d, &in, (void *) &T, rrr_mqtt_session_collection_ram_new_client, NULL, on_suback, c, on_parsed, c, on_publish, c)) mc_error("client");
	struct rrr_net_transport_config cfg; memset(&cfg, 0, sizeof cfg); cfg.transport_type_p = RRR_NET_TRANSPORT_PLAIN; if (rrr_mqtt_client_start(c->d, &cfg)) mc_error("start");
	c_connect(c);
}
static void tick (void) { rd(P.c->peer, &P, 0); rd(S.c->peer, &S, 0); rd(P.c, &P, 0); rd(S.c, &S, 0); }
static int later_n; static struct cl *later_c;
static void cut (struct cl *c, int unnoticed) {
	sweep(c); struct hn *m = c->c, *b = m->peer; mc_log("connection of %s is lost%s", c->id, unnoticed ? ", the broker does not notice" : ""); c->lost++;
	for (int dir = 0; dir < 2; dir++) { struct hn *f = dir ? b : m; f->out_n = f->seen = 0; }
	for (int dir = 0; dir < 2; dir++) for (int i = 0; i < 8; i++) if (c->ex[dir][i].sub) c->ex[dir][i].used = 0;
	m->eof = RRR_READ_EOF; rd(m, c, 1); if (!m->gone && !m->dying) mc_fail("%s does not notice the lost connection", c->id);
	if (!unnoticed) { b->eof = RRR_READ_EOF; rd(b, c, 1); if (!b->gone && !b->dying) mc_fail("broker does not notice the lost connection"); }
	static const int w[] = { 0, 2, 6 }; int k = unnoticed ? 0 : mc_choose(3, "away for"); now_us += (uint64_t) w[k] * 1000000; if (w[k]) { slow = 1; reap(); maintain(); }
	if (later_n && later_c == c) { int n = later_n; later_n = 0; extern void publish (int); publish(n); }
	c_connect(c);
}
void publish (int no) {
	struct rrr_mqtt_p_publish *p = (struct rrr_mqtt_p_publish *) rrr_mqtt_p_allocate(RRR_MQTT_P_TYPE_PUBLISH, rrr_mqtt_p_get_protocol_version((uint8_t) P.ver)); if (!p) mc_error("publish");
	RRR_MQTT_P_PUBLISH_SET_FLAG_QOS(p, (uint8_t) mq[no]); p->topic = rrr_strdup(topic_of(no)); char m[6] = "msg-0"; m[4] = (char) ('0' + no);
	if (rrr_mqtt_p_payload_new(&p->payload) || rrr_mqtt_p_payload_set_data(p->payload, m, 5)) mc_error("payload");
	mc_log("P publishes %d qos %d", no, mq[no]); int dis; if (rrr_mqtt_client_publish(&dis, P.d, &P.s, p)) mc_fail("publish fails");
	accepted[no] = 1; RRR_MQTT_P_DECREF(p);
}
static void run (int cuts) {
	int quiet = 0;
	for (int n = 0; quiet < 3; n++) {
		if (n > 400) mc_fail("no end of the exchange");
		int any = 0, order = cuts ? mc_dev(2, "order") : 0;
		for (int k = 0; k < 4; k++) {
			struct cl *c = ((k ^ (order ? 2 : 0)) & 2) ? &S : &P;
			if (!move(c, k & 1)) continue;
			any = 1; mc_step(); if (!cuts) continue;
			int x = mc_dev(6, "loss");
			if (x == 5) { mc_log("time passes"); slow = 1; now_us += 4000000; reap(); maintain(); tick(); }
			else if (x) { struct cl *v = x > 2 ? (c == &P ? &S : &P) : c; cut(v, !(x & 1)); }
		}
		tick();
		quiet = any || poked || P.c->out_n || S.c->out_n || P.c->peer->out_n || S.c->peer->out_n ? 0 : quiet + 1; poked = 0;
	}
}
static void run_n (int n) {
	memset(&P, 0, sizeof P); memset(&S, 0, sizeof S); memset(accepted, 0, sizeof accepted); P.id = "P"; S.id = "S"; slow = later_n = want = 0; nmsg = n;
	static const int vv[] = { 5, 4 }; P.ver = mc_pick(vv, 2, "publisher version"); S.ver = mc_pick(vv, 2, "subscriber version");
	for (int i = 1; i <= n; i++) mq[i] = 2 - mc_choose(n > 2 ? 2 : 3, "qos"); S.subq = 2 - mc_choose(2, "subscription qos");
	int early = mc_dev(2, "loss while connecting"), offline = mc_dev(3, "subscriber offline"), split = n > 1 ? mc_dev(2, "one at a time") : 0, late = mc_dev(2, "publish while offline");
	broker_new("TOPIC #\nDEFAULT WRITE\n"); c_new(&P); c_new(&S); if (!early) run(0);
	want = 1; if (!early) subscribe(&S);
	run(early); if (!S.suback) mc_fail("subscription is never acknowledged");
	if (offline) {
		S.c->eof = S.c->peer->eof = RRR_READ_EOF; rd(S.c, &S, 1); rd(S.c->peer, &S, 1); S.lost++; mc_log("S goes offline");
		if (offline == 2) rrr_mqtt_client_close_all_connections(S.d);
	}
	for (int i = 1; i <= n; i++) { if (late && i == n) { later_n = n; later_c = &P; } else publish(i); if (split) run(1); }
	run(1);
	if (later_n) { int k = later_n; later_n = 0; publish(k); run(1); }
	if (offline) { now_us += 2000000; reap(); maintain(); c_connect(&S); run(1); }
	for (int i = 0; i < 4; i++) { now_us += 4000000; reap(); maintain(); tick(); run(0); }
	for (int l = 0; l < 2; l++) for (int dir = 0; dir < 2; dir++) for (int i = 0; i < 8; i++) { struct ex *e = &(l ? &S : &P)->ex[dir][i]; if (e->used) mc_fail("exchange of %s %d (identifier %d) at %s never ends", e->sub ? "subscription" : "message", e->no, e->id, l ? "S" : "P"); }
	int loss = P.lost + S.lost;
	for (int i = 1; i <= n; i++) {
		int q = mq[i] < S.subq ? mq[i] : S.subq;
		if (!S.got[i] && (q || (!mq[i] ? !loss : 1))) mc_fail("message %d with QoS %d was lost", i, q);
		if (S.got[i] > 1 && ((mq[i] != 1 && q != 1) || (!loss && !slow))) mc_fail("message %d with QoS %d was delivered %d times", i, q, S.got[i]);
	}
	for (int i = 0; i < S.norder; i++) for (int j = i + 1; j < S.norder; j++) { int a = S.order[i], b = S.order[j]; if (a > b && mq[a] == mq[b]) mc_fail("message %d was delivered before %d", a, b); }
	for (int i = 1; i <= n; i++) mc_obs((uint64_t) S.got[i]);
	rrr_mqtt_client_destroy(P.d); rrr_mqtt_client_destroy(S.d); broker_end();
}
static void run_loss (void) { run_n(1 + mc_choose(2, "messages")); }
static void run_three (void) { run_n(3); }
int main (int argc, char **argv) {
	static const struct mc_scenario sc[] = { { "loss", run_loss, 2, 3, MC_LEAKCHECK, NULL }, { "three", run_three, 1, 2, MC_LEAKCHECK, NULL } };
	rrr_strerror_init();
	return mc_main(argc, argv, "C08", sc, sizeof sc / sizeof *sc);
}
