// FLAVOR: asan
// OVERRIDE: src/lib/discern_stack.c -Dprintf=verif_quiet_printf
// C23: all definitions up to a length over the keywords, run by the real parser and evaluator against a reference interpreter
#include "mc.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <fcntl.h>
#include "lib/log.h"
#include "lib/allocator.h"
#include "lib/rrr_types.h"
#include "lib/parse.h"
#include "lib/array.h"
#include "lib/discern_stack.h"
#include "lib/discern_stack_helper.h"
#include "lib/messages/msg_msg.h"
#include "lib/util/linked_list.h"

enum { T_TRUE, T_FALSE, T_AND, T_OR, T_NOT, T_APPLY, T_POP, T_BAIL, T_FILTER, T_TAG = T_FILTER + 4, T_DEST = T_TAG + 5, T_N = T_DEST + 2 };
static const char *filters[] = { "a/+", "a/b c", "#", "$x" };
static const char *tags[] = { "ab", "aXb", "c", "b", "ba" };
static const char *dests[] = { "x", "yy" };
static const char *words[] = { "TRUE", "FALSE", "AND", "OR", "NOT", "APPLY", "POP", "BAIL" };

/* messages: every filter and tag outcome */
#define NM 9
static struct rrr_msg_msg *msgs[NM];
static const struct { const char *topic; int array; const char *tags[4]; } md[NM] = {
	{ NULL, 0, { 0 } }, { "a/b", 0, { 0 } }, { "a/b c", 1, { 0 } }, { "q", 1, { "", 0 } }, { "a/b", 1, { "ab", 0 } }, { NULL, 1, { "aXb", "c", 0 } },
	{ "$x", 1, { "", "ba", "ba", 0 } }, { "a", 1, { "b", "ab", "", 0 } }, { "a/b/c", 1, { "aXXb", "a", "cc", 0 } },
};
static int filter_match (int f, int m) {
	const char *t = md[m].topic;
	if (!t) return 0;
	if (f == 0) return !strncmp(t, "a/", 2) && !strchr(t + 2, '/');
	if (f == 1) return !strcmp(t, "a/b c");
	if (f == 2) return *t != '$';
	return !strcmp(t, "$x");
}
static int tag_match (int g, int m) {
	if (!md[m].array) return 0;
	for (int i = 0; i < 4 && md[m].tags[i]; i++) if (!strcmp(md[m].tags[i], tags[g])) return 1;
	return 0;
}
static void setup (void) {
	for (int i = 0; i < NM; i++) {
		uint16_t tl = md[i].topic ? (uint16_t) strlen(md[i].topic) : 0;
		if (!md[i].array) { mc_assert(!rrr_msg_msg_new_with_data(&msgs[i], MSG_TYPE_MSG, MSG_CLASS_DATA, 1, md[i].topic, tl, "ab", 2)); continue; }
		struct rrr_array a = { 0 };
		for (int k = 0; k < 4 && md[i].tags[k]; k++) mc_assert(!rrr_array_push_value_u64_with_tag(&a, md[i].tags[k], (uint64_t) k));
		mc_assert(!rrr_array_new_message_from_array(&msgs[i], &a, 1, md[i].topic, tl));
		rrr_array_clear(&a);
	}
}
static void teardown (void) { for (int i = 0; i < NM; i++) { rrr_free(msgs[i]); msgs[i] = NULL; } }

/* ---- reference ---- */
struct app { char d[8]; int v; };
struct run { struct app a[80]; int n; int bail; };
static void ref_run (const int *p, int n, int m, struct run *r) {
	int st[80], sp = 0;
	if (r->bail) return;
	for (int i = 0; i < n; i++) {
		int t = p[i];
		if (t == T_TRUE) st[sp++] = 1;
		else if (t == T_FALSE) st[sp++] = 0;
		else if (t == T_AND) { sp--; st[sp - 1] = st[sp - 1] && st[sp]; }
		else if (t == T_OR) { sp--; st[sp - 1] = st[sp - 1] || st[sp]; }
		else if (t == T_NOT) st[sp - 1] = !st[sp - 1];
		else if (t == T_APPLY) { sp--; strcpy(r->a[r->n].d, dests[st[sp]]); r->a[r->n++].v = st[sp - 1]; }
		else if (t == T_POP) sp--;
		else if (t == T_BAIL) { if (st[--sp]) { r->bail = 1; return; } }
		else if (t >= T_DEST) st[sp++] = t - T_DEST;
		else if (t >= T_TAG) st[sp++] = tag_match(t - T_TAG, m);
		else st[sp++] = filter_match(t - T_FILTER, m);
	}
}
/* Static check of the next token: 0 refused, 1 continue, 2 complete. ty[] holds B or D. */
static int ref_step (char *ty, int *sp, int t) {
	if (t == T_AND || t == T_OR) { if (*sp < 2 || ty[*sp - 1] != 'B' || ty[*sp - 2] != 'B') return 0; (*sp)--; }
	else if (t == T_NOT) { if (*sp < 1 || ty[*sp - 1] != 'B') return 0; }
	else if (t == T_APPLY) { if (*sp < 2 || ty[*sp - 1] != 'D' || ty[*sp - 2] != 'B') return 0; (*sp)--; }
	else if (t == T_POP) { if (*sp < 1) return 0; (*sp)--; }
	else if (t == T_BAIL) { if (*sp < 1 || ty[*sp - 1] != 'B') return 0; (*sp)--; }
	else ty[(*sp)++] = t >= T_DEST ? 'D' : 'B';
	return *sp == 0 ? 2 : 1;
}
static int render (char *b, const int *p, int n, int style) {
	int l = 0;
	for (int i = 0; i < n; i++) {
		if (style == 2) l += sprintf(b + l, "# comment TRUE\n\t");
		if (p[i] < T_FILTER) l += sprintf(b + l, "%s", words[p[i]]);
		else if (p[i] < T_TAG) l += sprintf(b + l, "T %s", filters[p[i] - T_FILTER]);
		else if (p[i] < T_DEST) l += sprintf(b + l, "H %s", tags[p[i] - T_TAG]);
		else l += sprintf(b + l, "%s%s%s", style == 1 ? "I" : "D", style == 1 ? "   " : " ", dests[p[i] - T_DEST]);
		l += sprintf(b + l, style == 0 ? "\n" : style == 1 ? "\t" : "\r\n");
	}
	return l;
}
static int interpret (struct rrr_discern_stack_collection *c, const char *b, int l, const char *name, int *used) {
	char *e = malloc(l ? l : 1); memcpy(e, b, l); // exact size
	struct rrr_parse_pos pos; rrr_parse_pos_init(&pos, e, (rrr_length) l);
	enum rrr_discern_stack_fault fault = 77;
	int r = rrr_discern_stack_interpret(c, &fault, &pos, name);
	mc_check(pos.pos <= (rrr_length) l, "position beyond end");
	if (r) mc_check(fault != RRR_DISCERN_STACK_FAULT_OK && fault != 77, "no fault code set when refusing '%.*s'", l, b);
	else mc_check(fault == RRR_DISCERN_STACK_FAULT_OK, "fault code %d for '%.*s'", fault, l, b);
	if (used) *used = (int) pos.pos;
	free(e);
	return r;
}
int verif_quiet_printf (const char *f, ...) { (void) f; return 0; }
static struct run got; static int cb_fail_at;
static int cb (const char *d, int v) {
	if (got.n >= 80) mc_fail("too many applications");
	if (cb_fail_at && got.n + 1 == cb_fail_at) return 1;
	snprintf(got.a[got.n].d, 8, "%s", d); got.a[got.n++].v = v;
	return 0;
}
static int cb_true (const char *d, void *arg) { return cb(d, 1); }
static int cb_false (const char *d, void *arg) { return cb(d, 0); }
static int execute (struct rrr_discern_stack_collection *c, int m, int with_false) {
	struct rrr_discern_stack_helper_callback_data h = { msgs[m], 0 };
	struct rrr_discern_stack_callbacks k = { rrr_discern_stack_helper_topic_filter_resolve_cb, rrr_discern_stack_helper_array_tag_resolve_cb, &h, with_false ? cb_false : NULL, cb_true, NULL };
	enum rrr_discern_stack_fault fault = 77;
	memset(&got, 0, sizeof got);
	int r = rrr_discern_stack_collection_execute(&fault, c, &k);
	mc_step();
	return r;
}
static void compare (struct rrr_discern_stack_collection *c, int m, struct run *want, const char *b, int l) {
	for (int wf = 1; wf >= 0; wf--) {
		int r = execute(c, m, wf);
		mc_check(r == (want->bail ? RRR_DISCERN_STACK_BAIL : 0), "execution returns %d, bail expected %d: message %d '%.*s'", r, want->bail, m, l, b);
		int j = 0;
		for (int i = 0; i < want->n; i++) {
			if (!wf && !want->a[i].v) continue;
			mc_check(j < got.n && got.a[j].v == want->a[i].v && !strcmp(got.a[j].d, want->a[i].d), "application %d is %s %d, expected %s %d: message %d '%.*s'", j, j < got.n ? got.a[j].d : "none", got.a[j].v, want->a[i].d, want->a[i].v, m, l, b);
			j++;
		}
		mc_check(j == got.n, "%d applications, expected %d: message %d '%.*s'", got.n, j, m, l, b);
		mc_obs(got.n ? (uint64_t) got.a[got.n - 1].v + 2 : (uint64_t) r);
	}
}

/* reduced alphabets keep the tree small for long definitions */
static const int al_full[] = { T_TRUE, T_FALSE, T_AND, T_OR, T_NOT, T_APPLY, T_POP, T_BAIL, T_FILTER, T_FILTER + 1, T_FILTER + 2, T_FILTER + 3, T_TAG, T_TAG + 1, T_TAG + 2, T_TAG + 3, T_TAG + 4, T_DEST, T_DEST + 1 };
static const int al_red[] = { T_TRUE, T_FALSE, T_AND, T_OR, T_NOT, T_APPLY, T_POP, T_BAIL, T_TAG, T_DEST };
/* returns length of the definition, -1 when it is incomplete or refused (checked here) */
static int gen (int *p, const int *al, int na, int max) {
	char ty[80]; int sp = 0, n = 0, s = 1;
	while (n < max) {
		p[n++] = al[mc_choose(na, "token")];
		s = ref_step(ty, &sp, p[n - 1]);
		if (s != 1) break;
	}
	if (s == 2) return n;
	char b[600]; int l = render(b, p, n, n % 3);
	struct rrr_discern_stack_collection c = { 0 };
	int r = interpret(&c, b, l, "n", NULL);
	mc_check(r != 0, "definition was accepted: '%.*s'", l, b);
	mc_check(RRR_LL_COUNT(&c) == 0, "refused definition was added");
	return -1;
}
static void dest_names_cb (const char *n, void *arg) { strcat(arg, n); strcat(arg, ";"); }
static int dest_cb (const char *n, const char *d, void *arg) { strcat(arg, n); strcat(arg, d); strcat(arg, ";"); return 0; }
static void programs (const int *al, int na, int max) {
	int p[40]; int n = gen(p, al, na, max);
	if (n < 0) return;
	setup();
	int style = n <= 4 ? mc_choose(3, "style") : n % 3;
	char b[600]; int l = render(b, p, n, style), len = l;
	// data after the definition is left alone
	l += sprintf(b + l, "junk");
	struct rrr_discern_stack_collection c = { 0 }; int used;
	int r = interpret(&c, b, l, "n", &used);
	mc_check(r == 0, "definition was refused: '%.*s'", l, b);
	mc_check(used <= len, "definition was read beyond its end");
	for (int i = used; i < len; i++) mc_check(strchr(" \t\r\n", b[i]) != NULL, "definition was not read to its end: '%.*s' ended at %d", l, b, used);
	char names[600] = "", want[600] = "";
	for (int i = 0; i < n; i++) if (p[i] >= T_DEST) sprintf(want + strlen(want), "n%s;", dests[p[i] - T_DEST]);
	mc_check(rrr_discern_stack_collection_iterate_destination_names(&c, dest_cb, names) == 0 && !strcmp(names, want), "destination names '%s', expected '%s'", names, want);
	struct rrr_discern_stack_collection cl = { 0 };
	mc_check(rrr_discern_stack_collection_add_cloned(&cl, rrr_discern_stack_collection_get(&c, "n")) == 0, "clone");
	for (int m = 0; m < NM; m++) {
		struct run w = { 0 }; ref_run(p, n, m, &w);
		compare(&c, m, &w, b, l);
	}
	rrr_discern_stack_collection_clear(&c);
	for (int m = NM - 1; m >= 0; m--) {
		struct run w = { 0 }; ref_run(p, n, m, &w);
		compare(&cl, m, &w, b, l);
	}
	rrr_discern_stack_collection_clear(&cl);
	teardown();
}
static void s_full (void) { programs(al_full, 19, mc_tier() ? 6 : 5); }
static void s_reduced (void) { programs(al_red, 10, mc_tier() ? 9 : 7); }
/* tag checks: longer programs of tag checks and applications, the index is used from the second check on */
static void s_tags (void) {
	int q[60], m = 0, k = 1 + mc_choose(mc_tier() ? 4 : 3, "checks");
	q[m++] = T_TRUE; // keeps the definition from ending
	for (int i = 0; i < k; i++) {
		q[m++] = T_TAG + mc_choose(5, "tag"); q[m++] = T_DEST + mc_choose(2, "destination"); q[m++] = T_APPLY;
		if (mc_bool("not")) { q[m++] = T_NOT; q[m++] = T_DEST; q[m++] = T_APPLY; }
		q[m++] = (int[]) { T_POP, T_AND, T_BAIL }[mc_choose(3, "end")];
	}
	q[m++] = T_DEST + 1; q[m++] = T_APPLY; q[m++] = T_POP;
	setup();
	char b[900]; int l = render(b, q, m, 0);
	struct rrr_discern_stack_collection c = { 0 };
	mc_check(interpret(&c, b, l, "n", NULL) == 0, "refused: '%s'", b);
	for (int i = 0; i < NM; i++) { struct run w = { 0 }; ref_run(q, m, i, &w); compare(&c, i, &w, b, l); }
	rrr_discern_stack_collection_clear(&c);
	teardown();
}
/* several definitions are evaluated in order, BAIL stops all; messages in any order */
static void s_collection (void) {
	static const int prog[][8] = {
		{ T_TAG, T_DEST, T_APPLY, T_POP, -1 }, { T_TAG + 4, T_DEST + 1, T_APPLY, T_BAIL, -1 }, { T_TAG + 1, T_DEST, T_APPLY, T_NOT, T_DEST + 1, T_APPLY, T_POP, -1 },
		{ T_FILTER, T_BAIL, -1 }, { T_FILTER + 2, T_TAG + 2, T_OR, T_DEST + 1, T_APPLY, T_POP, -1 }, { T_TRUE, T_DEST, T_APPLY, T_POP, -1 }, { T_TAG, T_TAG + 3, T_AND, T_DEST + 1, T_APPLY, T_BAIL, -1 },
	};
	int k = 1 + mc_choose(3, "definitions"), d[3], len[3];
	struct rrr_discern_stack_collection c = { 0 };
	char b[600], want[40] = "", names[40] = "";
	setup();
	for (int i = 0; i < k; i++) {
		d[i] = mc_choose(7, "definition");
		for (len[i] = 0; prog[d[i]][len[i]] >= 0; len[i]++);
		int l = render(b, prog[d[i]], len[i], i);
		char n[2] = { (char) ('p' + i), 0 };
		mc_check(interpret(&c, b, l, n, NULL) == 0, "refused");
		strcat(want, n); strcat(want, ";");
	}
	rrr_discern_stack_collection_iterate_names(&c, dest_names_cb, names);
	mc_check(!strcmp(names, want), "names '%s', expected '%s'", names, want);
	mc_check(!rrr_discern_stack_collection_get(&c, "zz") && rrr_discern_stack_collection_get(&c, "p"), "lookup");
	int first = mc_choose(NM, "first message");
	for (int i = 0; i < 2 * NM; i++) {
		int m = (first + i * (i < NM ? 1 : 2)) % NM;
		struct run w = { 0 };
		for (int j = 0; j < k; j++) ref_run(prog[d[j]], len[j], m, &w);
		compare(&c, m, &w, names, 0);
	}
	// failing application ends evaluation with an error
	struct run w = { 0 };
	for (int j = 0; j < k; j++) ref_run(prog[d[j]], len[j], first, &w);
	for (int f = 1; f <= w.n; f++) {
		cb_fail_at = f;
		int r = execute(&c, first, 1);
		cb_fail_at = 0;
		mc_check(r == 1 && got.n == f - 1, "failing application %d of %d gives %d after %d", f, w.n, r, got.n);
	}
	compare(&c, first, &w, names, 0);
	rrr_discern_stack_collection_clear(&c);
	teardown();
}
/* depth of the stack */
static void s_depth (void) {
	int depth = 58 + mc_choose(12, "depth"), kind = mc_choose(4, "kind");
	char b[4000]; int l = 0;
	for (int i = 0; i < depth; i++) l += sprintf(b + l, "%s\n", kind == 0 ? "TRUE" : kind == 1 ? "H ab" : kind == 2 ? "T #" : (i == 0 ? "TRUE" : "D x"));
	if (kind == 3) l += sprintf(b + l, "POP\nPOP\nPOP\n");
	for (int i = 1; i < depth - (kind == 3 ? 2 : 0); i++) l += sprintf(b + l, kind == 3 ? "POP\n" : "AND\n");
	if (kind != 3) l += sprintf(b + l, "D x\nAPPLY\nPOP\n");
	struct rrr_discern_stack_collection c = { 0 };
	int r = interpret(&c, b, l, "n", NULL);
	if (depth != 64) mc_check((r == 0) == (depth < 64), "definition with %d elements on the stack gives %d", depth, r);
	setup();
	if (!r) for (int m = 0; m < NM; m++) {
		struct run w = { 0 };
		if (kind != 3) { w.n = 1; strcpy(w.a[0].d, "x"); w.a[0].v = kind == 0 ? 1 : kind == 1 ? tag_match(0, m) : filter_match(2, m); }
		compare(&c, m, &w, b, 0);
	}
	rrr_discern_stack_collection_clear(&c);
	teardown();
}
/* damaged text: cut anywhere, any byte replaced or inserted. Nothing is read out of bounds and what is accepted evaluates. */
static void s_text (void) {
	static const char *texts[] = { "T a/+\nT #\nOR\nD xy\nAPPLY\nNOT\nD z\n\tAPPLY\n\tPOP\n", "# c\nH ab\n\nH c\tAND\rD x # comment\nAPPLY BAIL\n", "TRUE FALSE OR I i APPLY POP " };
	static const unsigned char by[] = { 0, '\n', '\t', ' ', '#', 'T', 'H', 'D', '/', '+', 'a', '$', 0x7f, 0x80, 0xc3, 0xff, '\r', 'F', 'O', '\v' };
	const char *t = texts[mc_choose(3, "text")];
	int n = (int) strlen(t), i = mc_choose(n + 1, "position"), what = mc_choose(4, "kind");
	char b[200]; int l;
	if (what == 0) { memcpy(b, t, i); l = i; }
	else if (what == 1) { if (i == n) mc_prune(); memcpy(b, t, i); memcpy(b + i, t + i + 1, n - i - 1); l = n - 1; }
	else if (what == 2) { if (i == n) mc_prune(); memcpy(b, t, n); b[i] = (char) by[mc_choose(sizeof by, "byte")]; l = n; }
	else { memcpy(b, t, i); b[i] = (char) by[mc_choose(sizeof by, "byte")]; memcpy(b + i + 1, t + i, n - i); l = n + 1; }
	if (mc_tier()) { int j = mc_choose(l + 1, "second position"); if (j < l) b[j] = (char) by[mc_choose(sizeof by, "byte")]; }
	struct rrr_discern_stack_collection c = { 0 };
	int r = interpret(&c, b, l, "n", NULL);
	if (what == 0 && i <= n - 5 && !mc_tier()) mc_check(r != 0, "truncated definition was accepted: '%.*s'", l, b);
	setup();
	if (!r) for (int m = 0; m < NM; m++) { int r2 = execute(&c, m, 1); mc_check(r2 == 0 || r2 == RRR_DISCERN_STACK_BAIL, "execution returns %d", r2); mc_obs((uint64_t) got.n); }
	rrr_discern_stack_collection_clear(&c);
	teardown();
}
static const struct mc_scenario sc[] = {
	{ "definitions", s_full, -1, -1, MC_LEAKCHECK, NULL },
	{ "long", s_reduced, -1, -1, MC_LEAKCHECK, NULL },
	{ "tags", s_tags, -1, -1, MC_LEAKCHECK, NULL },
	{ "collection", s_collection, -1, -1, MC_LEAKCHECK, NULL },
	{ "depth", s_depth, -1, -1, MC_LEAKCHECK, NULL },
	{ "text", s_text, -1, -1, MC_LEAKCHECK, NULL },
};
int main (int c, char **v) { return mc_main(c, v, "C23", sc, (int) (sizeof sc / sizeof *sc)); }
