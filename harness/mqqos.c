// FLAVOR: asan
// MQTT QoS: publisher and subscriber with sessions which outlive their connections against the real broker; the
// connections are lost at every point between two packets, noticed by the broker or not.
#include "mqb.h"

#define MAXO 6
struct om { int used, id, q, st, no; };                 // outgoing, st: 0 published, 1 PUBREC received
struct im { int used, id, no; };                        // incoming QoS 2 which is not released
struct tx { uint8_t first; struct pk p; };
struct qc {
	const char *id; struct hn *h; int ver, up, sp, conns, idn; struct om o[MAXO]; struct im in[MAXO]; struct tx q[64]; int nq;
	int got[MAXO + 2], order[64], norder; int seen_id[MAXO + 2], seen_conn[MAXO + 2], suback, subq; int pq[MAXO + 2]; int npub, lost;
};
static struct qc A, D; // publisher, destination
static int waited, slow, twice;

static void q_send (struct qc *c, int first, const struct pk *p) { if (c->nq == 64) mc_fail("%s is kept busy forever", c->id); c->q[c->nq].first = (uint8_t) first; c->q[c->nq++].p = *p; }
static void q_id (struct qc *c, int first, int id) { struct pk p = { .n = 0 }; p16(&p, id); q_send(c, first, &p); }
static void q_pub (struct qc *c, const struct om *o, int dup) { struct pk p = { .n = 0 }; ps(&p, "t"); p16(&p, o->id); if (c->ver == 5) p8(&p, 0); p8(&p, '0' + o->no); q_send(c, 0x30 | o->q << 1 | dup << 3, &p); }
static void q_connect (struct qc *c) {
	mc_log("%s connects", c->id);
	struct pk p = { .n = 0 }; ps(&p, "MQTT"); p8(&p, c->ver); p8(&p, 0); p16(&p, 0); if (c->ver == 5) { p8(&p, 5); p8(&p, 0x11); p16(&p, 0); p16(&p, 100); } ps(&p, c->id);
	c->h = hn_new(); c->nq = 0; c->up = 0; c->conns++; q_send(c, 0x10, &p);
}
// one packet from the broker; returns 0 when there is none
static int q_take (struct qc *c) {
	struct hn *h = c->h; if (!h || !h->out_n) return 0;
	const uint8_t *d = h->out; int k = 1, n = 0, sh = 0; do { n |= (d[k] & 127) << sh; sh += 7; } while (d[k++] & 128);
	if (k + n > h->out_n) mc_fail("incomplete packet sent to %s", c->id);
	const uint8_t *b = d + k; int t = d[0] >> 4, f = d[0] & 15, id = n >= 2 ? b[0] << 8 | b[1] : 0;
	switch (t) {
		case 2:
			if (b[1]) mc_fail("%s was refused with reason %u", c->id, b[1]);
			if (b[0] != (c->conns > 1)) mc_fail("session present %d for %s at connection %d", b[0], c->id, c->conns);
			c->up = 1; mc_log("  %s connected", c->id);
			for (int i = 0; i < MAXO; i++) if (c->o[i].used) { if (c->o[i].st) q_id(c, 0x62, c->o[i].id); else q_pub(c, &c->o[i], 1); }
			break;
		case 3: {
			int q = f >> 1 & 3, tl = b[0] << 8 | b[1], off = 2 + tl; id = 0; if (q) { id = b[off] << 8 | b[off + 1]; off += 2; } if (c->ver == 5) off += 1 + b[off];
			if (n != off + 1) mc_fail("unexpected PUBLISH to %s", c->id);
			int no = b[off] - '0'; mc_log("  %s receives %d qos %d dup %d id %d", c->id, no, q, f >> 3 & 1, id);
			if (no < 1 || no > A.npub) mc_fail("%s received a message nobody sent", c->id);
			int eq = A.pq[no] < c->subq ? A.pq[no] : c->subq; if (q != eq) mc_fail("message %d was delivered with QoS %d instead of %d", no, q, eq);
			if (q && !id) mc_fail("packet identifier zero");
			if (!(f & 8) && c->seen_id[no] == id && c->seen_conn[no] && q) mc_fail("message %d is sent again without DUP", no);
			int dupe = 0;
			if (q == 2) {
				for (int i = 0; i < MAXO; i++) if (c->in[i].used && c->in[i].id == id) { dupe = 1; if (c->in[i].no != no) mc_fail("identifier %d of message %d which is not released is used for message %d", id, c->in[i].no, no); }
				if (!dupe) { int i = 0; while (i < MAXO && c->in[i].used) i++; if (i == MAXO) mc_fail("too many messages in flight"); c->in[i].used = 1; c->in[i].id = id; c->in[i].no = no; }
			}
			c->seen_id[no] = id; c->seen_conn[no] = 1;
			if (!dupe) { if (!c->got[no]++) c->order[c->norder++] = no; }
			if (q) q_id(c, q == 1 ? 0x40 : 0x50, id);
			break; }
		case 4: case 5: case 7: {
			int r = n > 2 ? b[2] : 0, i = 0; while (i < MAXO && !(c->o[i].used && c->o[i].id == id)) i++;
			mc_log("  %s receives acknowledge %d id %d reason %d", c->id, t, id, r);
			if (t == 5) { if (i < MAXO) { if (c->o[i].q != 2) mc_fail("PUBREC for QoS 1"); c->o[i].st = 1; } q_id(c, 0x62, id); break; }
			if (i == MAXO) { if (!c->lost && !waited) mc_fail("acknowledge of unknown identifier %d", id); break; }
			if (t == 7 ? c->o[i].q != 2 || !c->o[i].st : c->o[i].q != 1) mc_fail("wrong acknowledge type %d", t);
			if (t == 7 && r == 0x92 && !c->lost) mc_fail("identifier %d is not known by the broker", id);
			c->o[i].used = 0; break; }
		case 6: mc_log("  %s receives PUBREL id %d", c->id, id); for (int i = 0; i < MAXO; i++) if (c->in[i].used && c->in[i].id == id) c->in[i].used = 0; q_id(c, 0x70, id); break;
		case 9: c->suback = 1; break;
		case 13: break;
		default: mc_fail("packet type %d sent to %s", t, c->id);
	}
	memmove(h->out, h->out + k + n, (size_t) (h->out_n - k - n)); h->out_n -= k + n; return 1;
}
static void q_read (struct qc *c) { // the broker looks at a connection
	if (!c->h || c->h->gone || c->h->dying) return;
	int r = T.rd((void *) c->h, T.rd_arg);
	if (r & RRR_READ_HARD_ERROR) mc_fail("internal error in the broker");
	if (r & (RRR_READ_SOFT_ERROR | RRR_READ_EOF)) { if (!c->h->eof) mc_fail("connection of %s was closed by the broker", c->id); hn_kill(c->h); }
}
static int q_give (struct qc *c) { // one packet to the broker
	if (!c->h || !c->nq || (!c->up && c->q[0].first != 0x10)) return 0;
	mc_log("%s sends %02x", c->id, c->q[0].first);
	int f = c->q[0].first; psend(c->h, f, &c->q[0].p);
	if (twice && f != 0x10 && f != 0x82 && ((f & 0xf0) != 0x30 || f & 6) && mc_dev(2, "twice")) { mc_log("%s sends %02x again", c->id, f); c->lost++; psend(c->h, (f & 0xf0) == 0x30 ? f | 8 : f, &c->q[0].p); }
	c->nq--; memmove(c->q, c->q + 1, sizeof *c->q * (size_t) c->nq);
	q_read(c); return 1;
}
static void q_cut (struct qc *c, int unnoticed) {
	mc_log("connection of %s is lost%s", c->id, unnoticed ? ", the broker does not notice" : ""); c->lost++; c->up = 0; c->nq = 0;
	c->h->eof = RRR_READ_EOF; c->h->out_n = 0;
	if (unnoticed) c->h->eof = RRR_READ_OK; else { q_read(c); if (!c->h->gone && !c->h->dying) mc_fail("lost connection of %s remains", c->id); }
	struct hn *old = c->h; c->h = NULL; (void) old;
	static const int w[] = { 0, 2, 6 }; int k = unnoticed ? 0 : mc_choose(3, "away for"); now_us += (uint64_t) w[k] * 1000000; if (w[k]) { waited = 1; reap(); maintain(); }
	q_connect(c);
}
// runs until nobody has anything to do
static void q_run (int cuts) {
	int quiet = 0; twice = cuts;
	for (int n = 0; quiet < 3; n++) {
		if (n > 600) mc_fail("no end of the exchange");
		int any = 0, order = cuts ? mc_dev(2, "order") : 0;
		for (int k = 0; k < 4; k++) {
			struct qc *c = ((k ^ (order ? 2 : 0)) & 2) ? &D : &A; int did = k & 1 ? q_take(c) : q_give(c);
			if (!did) continue;
			any = 1; mc_step();
			if (!cuts) continue;
			struct qc *v = c; int x = mc_dev(6, "loss"); // of this or the other one, noticed or not
			if (x == 5) { mc_log("time passes"); waited = slow = 1; now_us += 4000000; reap(); maintain(); q_read(&A); q_read(&D); }
			else if (x) { if (x > 2) v = c == &A ? &D : &A; if (v->h && v->up) q_cut(v, !(x & 1)); }
		}
		q_read(&A); q_read(&D);
		quiet = any || poked || (A.h && A.h->out_n) || (D.h && D.h->out_n) ? 0 : quiet + 1; poked = 0;
	}
}
static void run_n (int n) {
	memset(&A, 0, sizeof A); memset(&D, 0, sizeof D); A.id = "A"; D.id = "D"; waited = slow = 0;
	static const int vv[] = { 5, 4 }; A.ver = mc_pick(vv, 2, "publisher version"); D.ver = mc_pick(vv, 2, "subscriber version");
	A.npub = n; for (int i = 1; i <= n; i++) A.pq[i] = 1 + mc_choose(2, "qos"); D.subq = 1 + mc_choose(2, "subscription qos");
	int offline = mc_dev(2, "subscriber offline"), split = n > 1 ? mc_dev(2, "one at a time") : 0;
	broker_new("TOPIC #\nDEFAULT WRITE\n");
	q_connect(&A); q_connect(&D); q_run(0);
	{ struct pk p = { .n = 0 }; p16(&p, ++D.idn); if (D.ver == 5) p8(&p, 0); ps(&p, "t"); p8(&p, D.subq); q_send(&D, 0x82, &p); }
	q_run(0); if (!D.suback) mc_fail("no SUBACK");
	if (offline) { D.h->eof = RRR_READ_EOF; q_read(&D); D.h = NULL; D.up = 0; mc_log("D goes offline"); }
	for (int i = 1; i <= n; i++) { struct om *o = &A.o[i - 1]; o->used = 1; o->id = ++A.idn; o->q = A.pq[i]; o->no = i; q_pub(&A, o, 0); if (split) q_run(1); }
	q_run(1);
	if (offline) { now_us += 2000000; reap(); maintain(); q_connect(&D); q_run(1); }
	for (int i = 0; i < 4; i++) { now_us += 4000000; waited = 1; reap(); maintain(); q_run(0); } // retransmissions come to an end
	for (int i = 0; i < n; i++) if (A.o[i].used) mc_fail("message %d was never acknowledged", i + 1);
	for (int i = 0; i < MAXO; i++) if (D.in[i].used) mc_fail("message %d was never released", D.in[i].no);
	for (int i = 1; i <= n; i++) {
		int once = A.pq[i] == 2 && D.subq == 2;
		if (!D.got[i]) mc_fail("message %d with QoS %d was lost", i, A.pq[i]);
		if (D.got[i] > 1 && (once || !(A.lost + D.lost + slow))) mc_fail("message %d with QoS %d was delivered %d times", i, A.pq[i], D.got[i]);
	}
	for (int i = 0; i < D.norder; i++) for (int j = i + 1; j < D.norder; j++) if (D.order[i] > D.order[j] && A.pq[D.order[i]] == A.pq[D.order[j]]) mc_fail("message %d was delivered before %d", D.order[i], D.order[j]);
	for (int i = 1; i <= n; i++) mc_obs((uint64_t) D.got[i]);
	A.h = D.h = NULL; broker_end();
}
static void run_loss (void) { run_n(1 + mc_choose(2, "messages")); }
static void run_three (void) { run_n(3); }
int main (int argc, char **argv) {
	static const struct mc_scenario sc[] = {
		{ "loss", run_loss, 2, 3, MC_LEAKCHECK, NULL },
		{ "three", run_three, 1, 2, MC_LEAKCHECK, NULL },
	};
	rrr_strerror_init();
	return mc_main(argc, argv, "C08", sc, sizeof sc / sizeof *sc);
}
