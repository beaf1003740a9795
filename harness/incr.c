// FLAVOR: asan
// REPO: src/modules/p_incrementer.c
/* C24: the arithmetic of identifier generation over all small parameters and at the integer limits, and the real
 * incrementer module with histories of subjects, initialisations, restarts and message DB failures vs a reference. */
#include "modrun.h"
#include "lib/util/increment.h"
#include "lib/msgdb/msgdb_client.h"
#include "lib/map.h"

/* ---- reference: rrr.conf(5), "The algorithm used for calculating ID numbers" (exact integers) ---- */
static __int128 ref_next (__int128 o, __int128 m, __int128 l, __int128 h, __int128 p) {
	__int128 n = o - (o % m) + m + p;
	if (n < l || n > h) n = l - (l % m) + p; else return n;
	return n < l ? n + m : n;
}
static int bits (uint64_t v) { int n = 0; while (v) { n++; v >>= 1; } return n; }
static int ref_ok (uint64_t step, uint64_t min, uint64_t max, uint64_t pos, uint64_t prefix) {
	return step >= 1 && step <= 255 && min <= 0xffffffffu && max <= 0xffffffffu && min <= max && pos < step && (__int128) max - min + 1 >= step && bits(max) + bits(prefix) <= 64;
}
static const uint64_t edge[] = { 0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 127, 128, 254, 255, 256, 257, 65535, 65536, 0x7fffffff, 0x80000000u, 0xfffffefe, 0xffffff00u, 0xffffff01u, 0xfffffffdu, 0xfffffffeu, 0xffffffffu, 0x100000000ull, 0x1ffffffffull, 0xffffffffffffull, 0x7fffffffffffffffull, 0xffffffffffffffffull };
#define NE ((int) (sizeof(edge) / sizeof(*edge)))
static int e32 (void) { int n = 0; while (edge[n] <= 0xffffffffu) n++; return n; }

static void verify (void) {
	uint64_t step = edge[mc_choose(NE, "step")], min = edge[mc_choose(NE, "min")], max = edge[mc_choose(NE, "max")];
	for (int i = 0; i < NE; i++) for (int j = 0; j < NE; j++) {
		int r = rrr_increment_verify(step, min, max, edge[i], edge[j]);
		mc_check((r == 0) == ref_ok(step, min, max, edge[i], edge[j]), "verify(%" PRIu64 ",%" PRIu64 ",%" PRIu64 ",%" PRIu64 ",%" PRIu64 ") gives %d", step, min, max, edge[i], edge[j], r);
		mc_step();
	}
}
/* complete cycles */
static void cycle (void) {
	int lim = mc_tier() ? 40 : 14;
	uint32_t base = (uint32_t[]) { 0, 250, 0xffffffffu - 45 }[mc_choose(3, "base")];
	uint32_t min = base + (uint32_t) mc_choose(lim, "min"), max = min + (uint32_t) mc_choose(lim, "max");
	if (max < min || max > base + (uint32_t) lim + (base ? 5u : 0u)) mc_prune();
	uint32_t m = 1 + (uint32_t) mc_choose(lim < 20 ? lim : 20, "mod");
	if (!ref_ok(m, min, max, 0, 0)) mc_prune();
	for (uint32_t p = 0; p < m; p++) {
		/* from every stored value, also outside of the range */
		for (uint32_t k = 0; k < (uint32_t) lim + 60; k++) {
			uint32_t o = base + k - 10;
			uint32_t r = rrr_increment_mod(o, (uint8_t) m, min, max, (uint8_t) p);
			mc_check((__int128) r == ref_next(o, m, min, max, p), "mod(%u, %u, %u, %u, %u) = %u", o, m, min, max, p, r);
			mc_check(r >= min && r <= max && r % m == p, "mod(%u, %u, %u, %u, %u) = %u is out of range or class", o, m, min, max, p, r);
			mc_step();
		}
		uint32_t n = 0, first = rrr_increment_mod(0, (uint8_t) m, min, max, (uint8_t) p), v = first, count = 0;
		for (uint32_t x = min; ; x++) { if (x % m == p) count++; if (x == max) break; }
		do { v = rrr_increment_mod(v, (uint8_t) m, min, max, (uint8_t) p); n++; } while (v != first && n <= count);
		mc_check(n == count, "cycle of %u of %u values (mod %u min %u max %u pos %u)", n, count, m, min, max, p);
		mc_obs(n);
	}
	/* plain step */
	for (uint32_t k = 0; k < (uint32_t) lim + 60; k++) {
		uint32_t o = base + k - 10;
		uint32_t r = rrr_increment_basic(o, m, min, max);
		__int128 e = (__int128) o + m; if (e > max || e < min) e = min;
		mc_check((__int128) r == e, "basic(%u, %u, %u, %u) = %u", o, m, min, max, r);
		mc_step();
	}
}
static void limits (void) {
	int n = e32();
	uint64_t min = edge[mc_choose(n, "min")], max = edge[mc_choose(n, "max")], step = edge[mc_choose(14, "step")];
	if (!ref_ok(step, min, max, 0, 0)) mc_prune();
	for (int i = 0; i < n; i++) {
		__int128 e = (__int128) edge[i] + step; if (e > max || e < min) e = min;
		uint32_t r = rrr_increment_basic((uint32_t) edge[i], (uint32_t) step, (uint32_t) min, (uint32_t) max);
		mc_check((__int128) r == e, "basic(%" PRIu64 ", %" PRIu64 ", %" PRIu64 ", %" PRIu64 ") = %u", edge[i], step, min, max, r);
		for (int j = 0; j < 14; j++) {
			if (edge[j] >= step) continue;
			r = rrr_increment_mod((uint32_t) edge[i], (uint8_t) step, (uint32_t) min, (uint32_t) max, (uint8_t) edge[j]);
			mc_check((__int128) r == ref_next(edge[i], step, min, max, edge[j]), "mod(%" PRIu64 ", %" PRIu64 ", %" PRIu64 ", %" PRIu64 ", %" PRIu64 ") = %u", edge[i], step, min, max, edge[j], r);
			mc_step();
		}
	}
	for (int i = 0; i < NE; i++) {
		uint64_t prefix = edge[i];
		if (bits(max) + bits(prefix) > 64) continue;
		for (int j = 0; j < n; j++) {
			if (edge[j] > max) continue;
			uint64_t v = rrr_increment_apply_prefix((uint32_t) edge[j], (uint32_t) max, prefix), p2 = 77;
			__int128 e = (__int128) edge[j] + (((__int128) prefix) << bits(max));
			mc_check((__int128) v == e, "apply_prefix(%" PRIu64 ", %" PRIu64 ", %" PRIu64 ")", edge[j], max, prefix);
			uint32_t s = rrr_increment_strip_prefix(&p2, v, (uint32_t) max);
			mc_check(s == edge[j] && p2 == prefix, "strip_prefix(%" PRIu64 ") gives %u %" PRIu64, v, s, p2);
			mc_check(rrr_increment_verify_value_prefix(v, (uint32_t) max, prefix) == 0, "own prefix refused");
			for (int k = 0; k < NE; k++) if (bits(max) + bits(edge[k]) <= 64)
				mc_check((rrr_increment_verify_value_prefix(v, (uint32_t) max, edge[k]) == 0) == (edge[k] == prefix), "prefix %" PRIu64 " of %" PRIu64 " with max %" PRIu64, edge[k], v, max);
			mc_step();
		}
	}
	for (int b = 0; b <= 64; b++) mc_check((__int128) rrr_increment_bits_to_max((uint8_t) b) == (((__int128) 1) << b) - 1, "bits_to_max(%d)", b);
}

/* ---- module ---- */
#define NT 3
static const char *topics[NT] = { "t/a", "t/b", "other" };
static struct dbe { int used; uint64_t v; } db[NT];        /* the message DB */
static int db_fail, db_fails;
static struct rrr_msgdb_client_conn *db_conn;
static uint64_t db_get; static int db_op, db_topic;
static int find (const char *t, size_t l) { for (int i = 0; i < NT; i++) if (strlen(topics[i]) == l && !memcmp(topics[i], t, l)) return i; return -1; }
int rrr_msgdb_client_conn_ensure_with_callback (struct rrr_msgdb_client_conn *conn, const char *socket, struct rrr_event_queue *q, int (*cb)(struct rrr_msgdb_client_conn *, void *), void *arg,
	int (*dcb)(RRR_MSGDB_CLIENT_DELIVERY_CALLBACK_ARGS), void *darg) {
	(void) socket; (void) q; (void) dcb; (void) darg; return cb(conn, arg);
}
/* 0 ok, 1 the request is lost, 2 it is carried out but the answer is lost, 3 negative answer */
static int fault (int put) { if (db_fails <= 0) return 0; int f = mc_choose(put ? 4 : 2, "msgdb fault"); if (f) db_fails--; return f; }
int rrr_msgdb_client_cmd_get (struct rrr_msgdb_client_conn *conn, const char *topic) {
	(void) conn; if ((db_fail = fault(0))) return 1;
	db_op = 1; db_topic = find(topic, strlen(topic)); if (db_topic < 0) mc_error("get '%s'", topic); return 0;
}
int rrr_msgdb_client_send (struct rrr_msgdb_client_conn *conn, const struct rrr_msg_msg *msg) {
	(void) conn;
	db_topic = find(MSG_TOPIC_PTR(msg), MSG_TOPIC_LENGTH(msg));
	mc_check(db_topic >= 0, "stored under topic '%.*s'", (int) MSG_TOPIC_LENGTH(msg), MSG_TOPIC_PTR(msg));
	mc_check(MSG_TYPE(msg) == MSG_TYPE_PUT, "not a PUT");
	struct rrr_array a = {0}; uint16_t v;
	if (rrr_array_message_append_to_array(&v, &a, msg)) mc_fail("stored message is not an array");
	const struct rrr_type_value *x = rrr_array_value_get_by_tag_const(&a, "id"); mc_check(x != NULL, "no id stored");
	uint64_t id = x->definition->to_ull(x); rrr_array_clear(&a);
	db_fail = fault(1); db_op = 2;
	if (db_fail == 1) return 1;
	if (db_fail == 3) return 0;
	db[db_topic].used = 1; db[db_topic].v = id;
	return 0;
}
int rrr_msgdb_client_await (struct rrr_msgdb_client_conn *conn, int (*cb)(RRR_MSGDB_CLIENT_DELIVERY_CALLBACK_ARGS), void *arg) {
	(void) conn; struct rrr_msg_msg *m = NULL;
	if (db_op == 1) {
		if (!db[db_topic].used) return cb(&m, 0, 1, arg);
		struct rrr_array a = {0};
		if (rrr_array_push_value_u64_with_tag(&a, "id", db[db_topic].v) || rrr_array_new_message_from_array(&m, &a, 1, topics[db_topic], (uint16_t) strlen(topics[db_topic]))) mc_error("msg");
		rrr_array_clear(&a);
		int r = cb(&m, 0, 0, arg); rrr_free(m); return r;
	}
	if (db_fail == 2) return 1;
	return cb(&m, db_fail == 0, db_fail == 3, arg);
}
void rrr_msgdb_client_close (struct rrr_msgdb_client_conn *c) { (void) c; }

static struct conf { int use_db, use_tag; uint64_t min, max, mod, pos, prefix; } cf;
static struct ref { int have, init, inmem; uint64_t last, initv; } rf[NT];
static struct { int n; char topic[64]; } out;
static void on_output (struct rrr_msg_holder *e) {
	const struct rrr_msg_msg *m = e->message;
	out.n++; snprintf(out.topic, sizeof(out.topic), "%.*s", (int) MSG_TOPIC_LENGTH(m), MSG_TOPIC_PTR(m));
	mc_check(e->data_length == MSG_TOTAL_SIZE(m), "entry length");
	mc_check(MSG_DATA_LENGTH(m) == 4 && !memcmp(MSG_DATA_PTR(m), "data", 4), "message data was changed");
}
static const uint64_t inits[] = { 0, 1, 3, 0x1fffffffull };
static int steps_left;
static void body (void) {
	while (steps_left > 0) {
		int a = mc_choose(cf.use_tag ? 5 : 3, "action");
		steps_left--;
		if (a == 2) { mc_log("restart"); return; }
		int t; struct rrr_msg_holder *e;
		memset(&out, 0, sizeof(out));
		if (a >= 3) {
			t = a - 3;
			uint64_t v = inits[mc_choose(4, "init value")];
			if (cf.prefix && mc_bool("own prefix")) v = (v & ((1ull << bits(cf.max)) - 1)) | (cf.prefix << bits(cf.max));
			struct rrr_array arr = {0};
			rrr_array_push_value_u64_with_tag(&arr, "start", v);
			e = mr_msg_array(topics[t], &arr, 5); rrr_array_clear(&arr);
			mc_log("init %s %" PRIu64, topics[t], v);
			mr_give(e);
			mc_check(out.n == 0, "initialisation message was forwarded");
			if (!cf.prefix || (v >> bits(cf.max)) == cf.prefix) { rf[t].init = 1; rf[t].initv = v; }
			mc_step(); continue;
		}
		t = a == 0 ? mc_choose(2, "topic") : 2;
		int f0 = db_fails;
		struct dbe dbb = db[t];
		mr_give(mr_msg_data(topics[t], "data", 4, 5));
		if (t == 2) { mc_check(out.n == 1 && !strcmp(out.topic, "other"), "message with other topic: %d '%s'", out.n, out.topic); mc_step(); continue; }
		/* expected */
		uint64_t old = 0, pfx = cf.prefix, strip; int refuse = 0;
		if (rf[t].have) old = rf[t].last; else if (rf[t].init) old = rf[t].initv; else if (cf.use_tag) refuse = 1;
		strip = old & ((1ull << bits(cf.max)) - 1); if (!pfx) pfx = old >> bits(cf.max);
		if (!refuse && (uint64_t) bits(pfx) + (uint64_t) bits(cf.max) > 64) refuse = 1;
		uint64_t nw = (uint64_t) ref_next(strip, cf.mod, cf.min, cf.max, cf.pos) | (pfx << bits(cf.max));
		if (db_fails != f0) {
			/* a request failed: the message is dropped. The database may have the new ID. */
			mc_check(out.n == 0, "message forwarded with ID '%s' which is not stored", out.topic);
			mc_check(!memcmp(&dbb, &db[t], sizeof(dbb)) || (db[t].used && db[t].v == nw), "database has %" PRIu64, db[t].v);
			/* an ID which was stored although the answer got lost is not given again to a topic which is not in memory */
			if (memcmp(&dbb, &db[t], sizeof(dbb)) && !rf[t].inmem) { rf[t].have = 1; rf[t].last = nw; }
			mc_log("%s dropped, fault", topics[t]);
			mc_step(); continue;
		}
		if (refuse) { mc_check(out.n == 0, "ID '%s' given to a topic without initialisation", out.topic); mc_step(); continue; }
		char ex[64]; snprintf(ex, sizeof(ex), "%s/%" PRIu64, topics[t], nw);
		mc_check(out.n == 1, "%d messages written, expected '%s'", out.n, ex);
		mc_check(!strcmp(out.topic, ex), "ID topic is '%s', expected '%s' (last %" PRIu64 ")", out.topic, ex, old);
		rf[t].have = rf[t].inmem = 1; rf[t].last = nw; mc_log("%s", ex);
		if (cf.use_db) mc_check(db[t].used && db[t].v == nw, "database has %d %" PRIu64 " after '%s'", db[t].used, db[t].v, ex);
		mc_obs_mem(ex, strlen(ex)); mc_step();
	}
}
static const struct conf confs[] = {
	{ 0, 0, 1, 0xffffffffu, 1, 0, 0 }, { 0, 0, 0, 2, 1, 0, 0 }, { 0, 0, 5, 7, 2, 1, 0 }, { 0, 0, 1, 4, 3, 2, 9 }, { 0, 0, 0, 1, 2, 1, 1 }, { 0, 0, 0xfffffffeu, 0xffffffffu, 1, 0, 0xffffffffu },
	{ 0, 0, 5, 6, 2, 0, 0 },
};
static void module (void) {
	cf = confs[mc_choose(7, "conf")]; cf.use_db = mc_bool("db"); cf.use_tag = mc_bool("tag");
	memset(db, 0, sizeof(db)); memset(rf, 0, sizeof(rf));
	steps_left = mc_tier() ? 5 : 4;
	db_fails = cf.use_db ? mc_choose(2, "faults") : 0;
	char b[5][32]; const uint64_t v[5] = { cf.min, cf.max, cf.mod, cf.pos, cf.prefix };
	static const char *nm[5] = { "incrementer_id_min", "incrementer_id_max", "incrementer_id_modulus", "incrementer_id_position", "incrementer_id_prefix" };
	const char *st[20]; int n = 0;
	st[n++] = "incrementer_subject_topic_filter"; st[n++] = "t/+";
	for (int i = 0; i < 5; i++) { snprintf(b[i], 32, "%" PRIu64, v[i]); st[n++] = nm[i]; st[n++] = b[i]; }
	if (cf.use_db) { st[n++] = "incrementer_msgdb_socket"; st[n++] = "/x"; }
	if (cf.use_tag) { st[n++] = "incrementer_id_tag"; st[n++] = "start"; }
	st[n] = NULL;
	mr_body = body; mr_on_output = on_output;
	while (steps_left > 0) {
		mr_run(st);
		mc_check(mr_dispatched, "module did not start");
		/* restart: initialisations are not kept, used IDs only in the database */
		for (int i = 0; i < NT; i++) { rf[i].init = rf[i].inmem = 0; rf[i].have = cf.use_db && db[i].used; rf[i].last = db[i].v; }
	}
}
/* configurations which must be refused by the module */
static void badconf (void) {
	static const char *pv[] = { "0", "1", "2", "255", "256", "4294967295", "4294967296" };
	const char *min = pv[mc_choose(7, "min")], *max = pv[mc_choose(7, "max")], *mod = pv[mc_choose(7, "mod")], *pos = pv[mc_choose(7, "pos")];
	const char *st[] = { "incrementer_subject_topic_filter", "t/+", "incrementer_id_min", min, "incrementer_id_max", max, "incrementer_id_modulus", mod, "incrementer_id_position", pos, NULL };
	mr_body = NULL; mr_on_output = NULL;
	mr_run(st);
	int ok = ref_ok(strtoull(mod, 0, 10), strtoull(min, 0, 10), strtoull(max, 0, 10), strtoull(pos, 0, 10), 0);
	mc_check(mr_dispatched == ok, "min %s max %s modulus %s position %s: %s", min, max, mod, pos, ok ? "refused" : "accepted");
	mc_step();
}
static const struct mc_scenario sc[] = {
	{ "verify", verify, -1, -1, MC_LEAKCHECK, NULL },
	{ "cycle", cycle, -1, -1, MC_LEAKCHECK, NULL },
	{ "limits", limits, -1, -1, MC_LEAKCHECK, NULL },
	{ "badconf", badconf, -1, -1, 0, NULL },
	{ "module", module, -1, -1, 0, NULL },
};
int main (int c, char **v) { return mc_main(c, v, "C24", sc, sizeof(sc) / sizeof(*sc)); }
