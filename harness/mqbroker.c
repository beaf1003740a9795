// FLAVOR: asan
// MQTT broker: the real broker, session store, parser and assembler behind a transport of which the harness is the
// other end. Clients are octet level and judged against a reference model of subscriptions, retained messages,
// sessions and wills.
#include "mqb.h"

// ---- clients as the world sees them, and what is expected
#define NC 3
#define MAXM 64
struct msg { char t[4], p[12]; int q, r, opt, redo; };
struct list { struct msg m[MAXM]; int n; };
struct sub { char f[4]; int q, rh; };
struct will { int on, q, r; char t[4], p[12]; };
struct cli {
	const char *id; struct hn *h; int ver, id_seq, ack_hold;
	struct list got; int sp, connack, closed; int suback[4], nsuback, unsuback, puback; int want_puback_n; uint16_t q2[40]; int nq2;
	// model
	int online, exists, clean3; struct sub subs[6]; int nsubs; struct list want; uint64_t expiry, gone_at; struct will will; int keep; uint64_t seen;
};
static struct cli C[NC]; static struct msg ret_[8]; static int n_ret; static int serial;
#define FOREVER (~(uint64_t) 0)

static int match (const char *f, const char *t) { // one level topics only
	if (!strcmp(f, "#")) return 1;
	if (!strcmp(f, "+")) return 1;
	return !strcmp(f, t);
}
static void mpush (struct list *l, const char *t, const char *p, int q, int r, int opt) { if (l->n == MAXM) mc_error("list full"); struct msg *m = &l->m[l->n++]; memset(m, 0, sizeof *m); snprintf(m->t, sizeof m->t, "%s", t); snprintf(m->p, sizeof m->p, "%s", p); m->q = q; m->r = r; m->opt = opt; }
static void model_publish (const char *t, const char *p, int q, int r) {
	for (int i = 0; i < NC; i++) for (int k = 0; k < C[i].nsubs; k++) if (match(C[i].subs[k].f, t)) { int mq = q < C[i].subs[k].q ? q : C[i].subs[k].q; mpush(&C[i].want, t, p, mq, 0, !C[i].online && mq == 0); }
	if (!r) return;
	int k = 0; while (k < n_ret && strcmp(ret_[k].t, t)) k++;
	if (!*p) { if (k < n_ret) { memmove(ret_ + k, ret_ + k + 1, sizeof *ret_ * (size_t) (n_ret - k - 1)); n_ret--; } return; }
	if (k == n_ret) n_ret++;
	snprintf(ret_[k].t, 4, "%s", t); snprintf(ret_[k].p, 12, "%s", p); ret_[k].q = q;
}
static void model_gone (struct cli *c, int with_will) { // network connection has ended
	c->online = 0; c->gone_at = now_us;
	if (c->expiry == 0) { c->exists = 0; c->nsubs = 0; c->want.n = 0; }
	if (with_will && c->will.on) model_publish(c->will.t, c->will.p, c->will.q, c->will.r);
	c->will.on = 0;
}
static void model_time (void) {
	for (int i = 0; i < NC; i++) { struct cli *c = &C[i]; if (!c->exists || c->online) continue;
		if (c->expiry == FOREVER) { if (now_us - c->gone_at > 15000000) mc_prune(); continue; } // given up after a while by design
		if (now_us - c->gone_at > c->expiry) { c->exists = 0; c->nsubs = 0; c->want.n = 0; } }
}
// reads what the broker has sent to a client and answers
static int cli_read (struct cli *c) {
	struct hn *h = c->h; int any = 0; if (!h) return 0;
	int pos = 0;
	while (pos < h->out_n) {
		any = 1; const uint8_t *d = h->out + pos; int left = h->out_n - pos, k = 1, n = 0, sh = 0;
		if (left < 2) mc_fail("incomplete packet sent to %s", c->id);
		for (;;) { if (k >= left) mc_fail("incomplete packet sent to %s", c->id); n |= (d[k] & 127) << sh; sh += 7; if (!(d[k++] & 128)) break; }
		if (k + n > left) mc_fail("incomplete packet sent to %s", c->id);
		const uint8_t *b = d + k; int t = d[0] >> 4, f = d[0] & 15; pos += k + n;
		struct pk o = { .n = 0 };
		if (t != 2 && t != 14 && !c->connack) mc_fail("packet type %d sent to %s before CONNACK", t, c->id);
		switch (t) {
			case 2: if (c->connack) mc_fail("second CONNACK sent to %s", c->id); c->connack = 1; c->sp = b[0]; if (b[1]) mc_fail("%s was refused with reason %u", c->id, b[1]); break;
			case 3: {
				int q = f >> 1 & 3, tl = b[0] << 8 | b[1], off = 2 + tl; int id = 0; if (q) { id = b[off] << 8 | b[off + 1]; off += 2; if (!id) mc_fail("identifier zero"); }
				if (c->ver == 5) { int pl = b[off]; off += 1 + pl; }
				char tt[8] = "", pp[16] = ""; if (tl > 3 || n - off > 11 || n < off) mc_fail("unexpected PUBLISH to %s", c->id);
				memcpy(tt, b + 2, (size_t) tl); memcpy(pp, b + off, (size_t) (n - off));
				mc_log("  %s receives topic %s payload '%s' qos %d retain %d dup %d id %d", c->id, tt, pp, q, f & 1, f >> 3 & 1, id);
				int dupe = 0;
				if (q == 2) { for (int i = 0; i < c->nq2; i++) if (c->q2[i] == id) dupe = 1; if (!dupe && c->nq2 < 40) c->q2[c->nq2++] = (uint16_t) id; }
				if (f & 8 && !q) mc_fail("DUP with QoS 0 to %s", c->id);
				if (!dupe) { mpush(&c->got, tt, pp, q, f & 1, 0); c->got.m[c->got.n - 1].redo = f >> 3 & 1; }
				if (q) { p16(&o, id); if (!c->ack_hold) psend(h, q == 1 ? 0x40 : 0x50, &o); }
				break; }
			case 4: c->puback = n > 2 ? b[2] : 0; c->want_puback_n--; break;
			case 5: c->puback = n > 2 ? b[2] : 0; if (c->puback < 0x80) { p16(&o, b[0] << 8 | b[1]); psend(h, 0x62, &o); } else c->want_puback_n--; break;
			case 6: { int id = b[0] << 8 | b[1]; for (int i = 0; i < c->nq2; i++) if (c->q2[i] == id) { c->q2[i] = c->q2[--c->nq2]; break; } p16(&o, id); psend(h, 0x70, &o); break; }
			case 7: c->want_puback_n--; break;
			case 9: { int off = 2; if (c->ver == 5) off += 1 + b[2]; c->nsuback = 0; for (; off < n && c->nsuback < 4; off++) c->suback[c->nsuback++] = b[off]; c->got.m[c->got.n].t[0] = 0; break; }
			case 11: c->unsuback = 1; break;
			case 13: break;
			case 14: c->closed = 1; break;
			default: mc_fail("packet type %d sent to %s", t, c->id);
		}
	}
	h->out_n = 0; return any;
}
static void pump (void) {
	for (int round = 0, idle = 0; idle < 2; round++) {
		int any = 0; poked = 0;
		if (round > 200) mc_fail("broker and clients do not settle");
		for (struct hn *h = H; h; h = h->next) {
			if (h->gone || h->dying) continue;
			int p = h->in_p, r = T.rd((void *) h, T.rd_arg);
			if (h->in_p != p) any = 1;
			if (r & RRR_READ_HARD_ERROR) mc_fail("internal error in the broker");
			if (r & (RRR_READ_SOFT_ERROR | RRR_READ_EOF)) { hn_kill(h); any = 1; }
		}
		for (int i = 0; i < NC; i++) any |= cli_read(&C[i]);
		idle = any || poked ? 0 : idle + 1; mc_step();
	}
	for (int i = 0; i < NC; i++) if (C[i].h && (C[i].h->gone || C[i].h->dying)) C[i].closed = 1;
}
static const char *show (const struct list *l) { static char b[4][2000]; static int k; char *s = b[k = (k + 1) % 4]; int w = 0; *s = 0; for (int i = 0; i < l->n && w < 1900; i++) w += sprintf(s + w, " %s:'%s'/q%d%s%s", l->m[i].t, l->m[i].p, l->m[i].q, l->m[i].r ? "/retain" : "", l->m[i].opt ? "(?)" : ""); return s; }
static int same (const struct msg *a, const struct msg *b) { return !strcmp(a->t, b->t) && !strcmp(a->p, b->p) && a->q == b->q && a->r == b->r; }
static void judge (const char *when) {
	for (int i = 0; i < NC; i++) { struct cli *c = &C[i];
		if (!c->h && c->got.n) mc_fail("%s received without connection", c->id);
		if (!c->online) { c->got.n = 0; continue; }
		if (c->closed) mc_fail("%s: connection of %s was closed", when, c->id);
		if (c->want_puback_n > 0) mc_fail("%s: publish of %s was not acknowledged", when, c->id);
		char used[MAXM] = ""; int last_of[MAXM];
		for (int k = 0; k < c->got.n; k++) {
			int w; for (w = 0; w < c->want.n; w++) if (!used[w] && same(&c->got.m[k], &c->want.m[w])) break;
			if (w == c->want.n) mc_fail("%s: %s received%s\nexpected%s", when, c->id, show(&c->got), show(&c->want));
			used[w] = 1; last_of[k] = w;
			for (int j = 0; j < k; j++) if (last_of[j] > w && !strcmp(c->got.m[j].t, c->got.m[k].t) && c->got.m[j].q == c->got.m[k].q && c->got.m[j].r == c->got.m[k].r) mc_fail("%s: %s received in wrong order%s\nexpected%s", when, c->id, show(&c->got), show(&c->want));
		}
		for (int w = 0; w < c->want.n; w++) if (!used[w] && c->want.m[w].opt == 2) mc_fail_key("retained messages are not sent again when a subscription replaces an identical one", "%s does not receive %s", c->id, c->want.m[w].t); else if (!used[w] && !c->want.m[w].opt) { for (int k = 0; k < c->want.n; k++) if (c->want.m[k].opt == 2 && !strcmp(c->want.m[k].t, c->want.m[w].t)) mc_prune(); mc_fail("%s: %s received%s\nexpected%s", when, c->id, show(&c->got), show(&c->want)); }
		c->got.n = c->want.n = 0;
	}
}
// ---- actions
static void a_connect (struct cli *c, int ver, int clean, int64_t expiry, const struct will *w, int keep) {
	struct hn *oh = c->online ? c->h : NULL; uint64_t oexp = 1;
	mc_log("%s connects version %d clean %d expiry %lld will %d%s", c->id, ver, clean, (long long) expiry, w ? 1 + w->q : 0, oh ? " while connected" : "");
	struct pk p = { .n = 0 }; ps(&p, ver == 3 ? "MQIsdp" : "MQTT"); p8(&p, ver); p8(&p, clean << 1 | (w ? 4 | w->q << 3 | w->r << 5 : 0)); p16(&p, keep);
	if (ver == 5) { if (expiry >= 0) { p8(&p, 5); p8(&p, 0x11); p16(&p, (int) (expiry >> 16)); p16(&p, (int) expiry); } else p8(&p, 0); }
	ps(&p, c->id); if (w) { if (ver == 5) p8(&p, 0); ps(&p, w->t); ps(&p, w->p); }
	struct hn *h = hn_new(); psend(h, 0x10, &p);
	if (oh) { // the old network connection ends
		oexp = c->expiry; model_gone(c, 1);
	}
	int existed = c->exists && !clean, old_clean3 = c->clean3; c->clean3 = ver < 5 && clean;
	if (old_clean3 && !clean && ver == 3) mc_prune(); // can not be seen

	if (clean) { c->nsubs = 0; c->want.n = 0; }
	c->exists = 1; c->online = 1; c->h = h; c->ver = ver; c->connack = 0; c->closed = 0; c->want_puback_n = 0; c->nq2 = 0; c->ack_hold = 0; c->keep = keep; c->seen = now_us; c->got.n = 0;
	c->expiry = ver == 5 ? (expiry < 0 ? 0 : (uint64_t) expiry * 1000000) : clean ? 0 : FOREVER;
	c->will.on = 0; if (w) { c->will = *w; c->will.on = 1; }
	pump();
	if (!c->connack) mc_fail("no CONNACK to %s", c->id);
	if (old_clean3 && !clean && c->sp) mc_fail_key("session of an MQTT 3.1.1 client which connected with clean session survives the disconnection: the next connection without clean session resumes it", "%s connected with clean session before, but the next connection resumes that session", c->id);
	if (oh && oexp == 0 && !clean && c->sp) mc_fail("session of %s which lasts as long as the connection was resumed", c->id);
	if (ver != 3 && c->sp != existed) mc_fail("session present %d for %s, expected %d", c->sp, c->id, existed);
	if (oh && !oh->gone && !oh->dying) mc_fail("old connection of %s remains", c->id);
	judge("connect");
}
static void a_subscribe (struct cli *c, const struct sub *s, int n) {
	struct pk p = { .n = 0 }; p16(&p, ++c->id_seq); if (c->ver == 5) p8(&p, 0);
	for (int i = 0; i < n; i++) { ps(&p, s[i].f); p8(&p, s[i].q | (c->ver == 5 ? s[i].rh << 4 : 0)); mc_log("%s subscribes %s qos %d", c->id, s[i].f, s[i].q); }
	for (int i = 0; i < n; i++) {
		int k = 0; while (k < c->nsubs && strcmp(c->subs[k].f, s[i].f)) k++;
		int replaced = k < c->nsubs; c->subs[k] = s[i]; if (!replaced) c->nsubs++;
		if (c->ver == 5 && s[i].rh > !replaced) continue;
		for (int r = 0; r < n_ret; r++) if (match(s[i].f, ret_[r].t)) mpush(&c->want, ret_[r].t, ret_[r].p, ret_[r].q < s[i].q ? ret_[r].q : s[i].q, 1, replaced ? 2 : 0);
	}
	c->nsuback = 0; psend(c->h, 0x82, &p); pump();
	if (c->nsuback != n) mc_fail("SUBACK to %s has %d reasons", c->id, c->nsuback);
	for (int i = 0; i < n; i++) if (c->suback[i] != s[i].q) mc_fail("subscription of %s to %s was answered with %d", c->id, s[i].f, c->suback[i]);
	judge("subscribe");
}
static void a_unsubscribe (struct cli *c, const char *f) {
	struct pk p = { .n = 0 }; p16(&p, ++c->id_seq); if (c->ver == 5) p8(&p, 0); ps(&p, f); mc_log("%s unsubscribes %s", c->id, f);
	int k = 0; while (k < c->nsubs && strcmp(c->subs[k].f, f)) k++;
	if (k < c->nsubs) { memmove(c->subs + k, c->subs + k + 1, sizeof *c->subs * (size_t) (c->nsubs - k - 1)); c->nsubs--; }
	c->unsuback = 0; psend(c->h, 0xa2, &p); pump(); if (!c->unsuback) mc_fail("no UNSUBACK to %s", c->id);
	judge("unsubscribe");
}
static void a_publish (struct cli *c, const char *t, int q, int r, int empty, int denied) {
	char pl[12] = ""; if (!empty) sprintf(pl, "p%d", ++serial); mc_log("%s publishes %s '%s' qos %d retain %d", c->id, t, pl, q, r);
	struct pk p = { .n = 0 }; ps(&p, t); if (q) p16(&p, ++c->id_seq); if (c->ver == 5) p8(&p, 0); memcpy(p.d + p.n, pl, strlen(pl)); p.n += (int) strlen(pl);
	if (!denied) model_publish(t, pl, q, r);
	c->want_puback_n = q ? 1 : 0; c->puback = 0; psend(c->h, 0x30 | q << 1 | r, &p); pump();
	if (q && c->ver == 5 && denied && c->puback != 0x87) mc_fail("publish without permission was answered with %d", c->puback);
	if (q && !denied && c->puback && c->puback != 0x10) mc_fail("publish was answered with %d", c->puback);
	judge("publish");
}
// how: 0 DISCONNECT, 1 DISCONNECT with will, 2 connection ends, 3 connection breaks
static void a_leave (struct cli *c, int how) {
	static const char *n[] = { "disconnects", "disconnects with will", "closes", "breaks" }; mc_log("%s %s", c->id, n[how]);
	if (how < 2) { struct pk p = { .n = 0 }; if (how) p8(&p, 4); psend(c->h, 0xe0, &p); }
	else c->h->eof = how == 2 ? RRR_READ_EOF : RRR_READ_SOFT_ERROR;
	model_gone(c, how != 0); pump();
	if (!c->h->gone && !c->h->dying) mc_fail("connection of %s remains", c->id);
	c->h = NULL; judge("leave");
}
static void a_wait (int secs, int silent) { // the silent client sends nothing, others do
	mc_log("%d seconds, %s silent", secs, silent < 0 ? "none" : C[silent].id);
	for (int s = 0; s < secs; s++) {
		now_us += 1000000; model_time(); reap();
		for (int i = 0; i < NC; i++) if (C[i].online && i != silent) { struct pk p = { .n = 0 }; psend(C[i].h, 0xc0, &p); }
		if (s % 5 == 4) maintain();
		pump();
		if (silent >= 0 && C[silent].online && C[silent].keep && C[silent].closed) {
			if (s + 1 < C[silent].keep) mc_fail("connection closed after %d s with keep alive %d", s + 1, C[silent].keep);
			model_gone(&C[silent], 1); C[silent].h = NULL; pump();
		}
		judge("wait");
	}
	if (silent >= 0 && C[silent].online && C[silent].keep && secs > C[silent].keep * 3 / 2 + 1) mc_fail("silent connection remains after %d s with keep alive %d", secs, C[silent].keep);
}
static void world_new (void) {
	serial = 0; n_ret = 0; memset(C, 0, sizeof C);
	static const char *ids[] = { "A", "B", "P" }; for (int i = 0; i < NC; i++) C[i].id = ids[i];
	broker_new("TOPIC #\nDEFAULT WRITE\nTOPIC s\nDEFAULT READ\n");
}
static void world_end (void) { broker_end(); }
static void settle (void) { now_us += 1100000; model_time(); reap(); pump(); judge("settle"); }
// what has become of everything is made visible
static void probe (void) {
	mc_log("-- probe"); settle();
	for (int i = 0; i < 2; i++) if (!C[i].online) a_connect(&C[i], C[i].ver ? C[i].ver : 5, 0, 100, NULL, 0);
	a_connect(&C[2], 5, 1, 0, NULL, 0);
	a_publish(&C[2], "t", 2, 0, 0, 0); a_publish(&C[2], "u", 1, 0, 0, 0);
	struct sub s = { "#", 2 }; a_subscribe(&C[2], &s, 1);
	a_leave(&C[2], 0); settle();
}
static int act (int i, int step) { // returns 0 when nothing is possible
	struct cli *c = &C[i]; (void) step;
	static const struct sub S1 = { "t", 0 }, S2 = { "t", 2 }, S3 = { "+", 1 }, S5 = { "+", 1, 1 }, S6 = { "#", 0, 2 }, S4[2] = { { "t", 1 }, { "#", 2 } };
	struct will w = { 1, 1, 0, "u", "" }, wr = { 1, 2, 1, "t", "" }; sprintf(w.p, "w%d", serial); sprintf(wr.p, "x%d", serial);
	if (!c->online) {
		int ver = c->ver;
		switch (mc_choose(ver == 5 ? 5 : 4, "connect")) {
			case 0: a_connect(c, ver, 1, ver == 5 ? 12 : -1, NULL, 0); break;
			case 1: a_connect(c, ver, 0, ver == 5 ? 12 : -1, NULL, 0); break;
			case 2: a_connect(c, ver, 0, ver == 5 ? 12 : -1, &w, 10); break;
			case 3: a_connect(c, ver, ver != 5, ver == 5 ? 0 : -1, &wr, 10); break;
			default: a_connect(c, ver, 1, -1, NULL, 0); break;
		}
		return 1;
	}
	switch (mc_choose(c->ver == 5 ? 18 : 15, "action")) {
		case 0: a_subscribe(c, &S1, 1); break; case 1: a_subscribe(c, &S2, 1); break; case 2: a_subscribe(c, &S3, 1); break; case 3: a_subscribe(c, S4, 2); break;
		case 4: a_unsubscribe(c, "t"); break;
		case 5: a_publish(c, "t", 0, 0, 0, 0); break; case 6: a_publish(c, "t", 1, 1, 0, 0); break; case 7: a_publish(c, "u", 2, 0, 0, 0); break; case 8: a_publish(c, "t", 1, 1, 1, 0); break; case 9: a_publish(c, "s", 1, 1, 0, 1); break;
		case 10: a_leave(c, 0); break; case 11: a_leave(c, 2 + mc_dev(2, "break")); break;
		case 12: a_connect(c, c->ver, 0, c->ver == 5 ? 12 : -1, NULL, 0); break;
		case 13: a_connect(c, c->ver, 1, c->ver == 5 ? 12 : -1, &w, 0); break;
		case 14: if (!c->keep) mc_prune(); a_wait(18, i); break;
		case 15: a_subscribe(c, &S5, 1); break; case 16: a_subscribe(c, &S6, 1); break;
		default: a_leave(c, 1); break;
	}
	return 1;
}
static void run_ops (int depth, int start) {
	static const int vers[3][2] = { { 5, 5 }, { 4, 5 }, { 4, 3 } }; int v = mc_choose(3, "versions");
	world_new(); C[0].ver = vers[v][0]; C[1].ver = vers[v][1];
	if (start) {
		struct sub a = { "t", 2 }, b[2] = { { "+", 1 }, { "#", 2 } }; struct will w = { 1, 1, 1, "t", "w" };
		a_connect(&C[0], C[0].ver, 0, C[0].ver == 5 ? 12 : -1, start == 2 ? &w : NULL, start == 2 ? 10 : 0); a_subscribe(&C[0], &a, 1);
		a_connect(&C[1], C[1].ver, start == 2, C[1].ver == 5 ? 30 : -1, NULL, 0); a_subscribe(&C[1], b, 2);
		if (start == 2) { a_publish(&C[1], "t", 2, 1, 0, 0); a_leave(&C[0], 2); }
	}
	for (int s = 0; s < depth; s++) {
		int who = mc_choose(3, "who");
		if (who < 2) act(who, s);
		else { if (s == depth - 1) { world_end(); mc_prune(); } a_wait(mc_choose(2, "long") ? 16 : 8, -1); }
	}
	probe(); mc_obs((uint64_t) now_us); world_end();
}
static void run_fresh (void) { run_ops(mc_tier() ? 5 : 4, 0); }
static void run_busy (void) { run_ops(mc_tier() ? 4 : 3, 1); }
static void run_wills (void) { run_ops(mc_tier() ? 4 : 3, 2); }

int main (int argc, char **argv) {
	static const struct mc_scenario sc[] = {
		{ "fresh", run_fresh, -1, -1, MC_LEAKCHECK, NULL },
		{ "busy", run_busy, -1, -1, MC_LEAKCHECK, NULL },
		{ "wills", run_wills, -1, -1, MC_LEAKCHECK, NULL },
	};
	rrr_strerror_init();
	return mc_main(argc, argv, "C09", sc, sizeof sc / sizeof *sc);
}
