// FLAVOR: asan
/* C20: condition expressions against an independent recursive descent evaluator with the precedence of C, and array trees against an independent interpreter. */
#include "mc.h"
#include <ctype.h>
#include <limits.h>
#include "lib/rrr_types.h"
#include "lib/allocator.h"
#include "lib/parse.h"
#include "lib/condition.h"
#include "lib/array.h"
#include "lib/array_tree.h"
#include "lib/helpers/string_builder.h"

/* ---- reference evaluator on characters ---- */
typedef struct { uint64_t v; int sg; } V;
static const struct { const char *name; V v; int have; } tags[] = { { "a", { 1, 0 }, 1 }, { "b_2", { 0, 0 }, 1 }, { "s", { (uint64_t) -3, 1 }, 1 }, { "big", { 0xfffffffffffffff0ull, 0 }, 1 }, { "none", { 0, 0 }, 0 } };
static const char *P; static int bad, softerr, undec; /* malformed, evaluation error, value not defined by C */
static void sp (void) { while (*P == ' ' || *P == '\n' || *P == '\t' || *P == '\r') P++; }
static int lit (const char *s) { sp(); size_t l = strlen(s); if (strncmp(P, s, l)) return 0; P += l; return 1; }
static V bin (int lv);
static V prim (void) {
	V r = { 0, 0 }; sp();
	if (bad) return r;
	if (*P == '(') { P++; r = bin(0); sp(); if (*P != ')') bad = 1; else P++; return r; }
	if (*P == '~') { P++; V x = prim(); x.v = ~x.v; return x; }
	if (*P == '{') {
		const char *b = ++P; while (isalnum((unsigned char) *P) || *P == '_') P++;
		size_t l = (size_t) (P - b); if (!l || *P != '}') { bad = 1; return r; } P++;
		for (size_t i = 0; i < sizeof tags / sizeof *tags; i++) if (strlen(tags[i].name) == l && !memcmp(tags[i].name, b, l)) { if (!tags[i].have) softerr = 1; return tags[i].v; }
		softerr = 1; return r;
	}
	int neg = 0; __int128 n = 0;
	if (P[0] == '0' && (P[1] == 'x' || P[1] == 'X')) { P += 2; if (!isxdigit((unsigned char) *P)) { bad = 1; return r; } while (isxdigit((unsigned char) *P)) { if (n >> 64) { bad = 1; return r; } int c = tolower((unsigned char) *P++); n = n * 16 + (c <= '9' ? c - '0' : c - 'a' + 10); } if (n >> 64) bad = 1; r.v = (uint64_t) n; return r; }
	if (*P == '-') { neg = 1; P++; }
	if (!isdigit((unsigned char) *P)) { bad = 1; return r; }
	while (isdigit((unsigned char) *P)) { n = n * 10 + (*P++ - '0'); if (n >> 64) { bad = 1; return r; } }
	if (neg && n > (__int128) 1 << 63) bad = 1;
	r.v = neg ? -(uint64_t) n : (uint64_t) n; r.sg = neg; return r;
}
static const char *const lev[10][5] = { { "||", "OR" }, { "&&", "AND" }, { "|" }, { "^" }, { "&" }, { "==", "!=" }, { "<=", ">=", "<", ">" }, { "<<", ">>" }, { "+", "-" }, { "*", "/" } };
static int opat (int lv) {   /* longest operator at P */
	static const char *const two[] = { "<=", ">=", "<<", ">>", "==", "!=", "&&", "||", "AND", "OR" }; sp(); const char *t = NULL;
	for (int i = 0; i < 10; i++) if (!strncmp(P, two[i], strlen(two[i]))) { t = two[i]; break; }
	for (int i = 0; i < 5 && lev[lv][i]; i++) { const char *o = lev[lv][i]; if (t ? !strcmp(o, t) : strlen(o) == 1 && *o == *P) { P += strlen(o); return i + 1; } }
	return 0;
}
static V app (int lv, int o, V a, V b) {
	V r = { 0, a.sg || b.sg };
	if (r.sg && ((!a.sg && a.v >> 63) || (!b.sg && b.v >> 63))) { softerr = 1; return r; }
	int64_t x = (int64_t) a.v, y = (int64_t) b.v, z = 0;
#define CMP(op) (r.sg ? x op y : a.v op b.v)
	switch (lv) {
	case 0: r.v = a.v || b.v; break;
	case 1: r.v = a.v && b.v; break;
	case 2: r.v = a.v | b.v; break;
	case 3: r.v = a.v ^ b.v; break;
	case 4: r.v = a.v & b.v; break;
	case 5: r.v = o == 1 ? a.v == b.v : a.v != b.v; break;
	case 6: r.v = o == 1 ? CMP(<=) : o == 2 ? CMP(>=) : o == 3 ? CMP(<) : CMP(>); break;
	case 7: if (b.v >= 64 || (r.sg && o == 1 && (x < 0 || (y && x >> (63 - y))))) { undec = 1; break; } r.v = o == 1 ? a.v << b.v : r.sg ? (uint64_t) (x >> y) : a.v >> b.v; break;
	case 8: if (r.sg && (o == 1 ? __builtin_add_overflow(x, y, &z) : __builtin_sub_overflow(x, y, &z))) { undec = 1; break; } r.v = o == 1 ? a.v + b.v : a.v - b.v; break;
	default: if (o == 2) { if (b.v == 0 || (r.sg && x == INT64_MIN && y == -1)) { softerr = 1; break; } r.v = r.sg ? (uint64_t) (x / y) : a.v / b.v; }
		else { if (r.sg && __builtin_mul_overflow(x, y, &z)) { undec = 1; break; } r.v = a.v * b.v; }
	}
	return r;
}
static V bin (int lv) {
	if (lv == 10) return prim();
	V a = bin(lv + 1); int o;
	while (!bad && (o = opat(lv))) { V b = bin(lv + 1); a = app(lv, o, a, b); }
	return a;
}
/* 0 infix of the whole text, value in *v */
static int ref (const char *s, V *v) { P = s; bad = softerr = undec = 0; sp(); if (*P != '(') return bad = 1; *v = prim(); sp(); if (*P) bad = 1; return bad; }

static int names;
static int name_cb (uint64_t *result, int *is_signed, const char *name, void *arg) {
	mc_check(arg == &names, "argument"); names++;
	for (size_t i = 0; i < sizeof tags / sizeof *tags; i++) if (!strcmp(tags[i].name, name)) { *result = tags[i].v.v; *is_signed = tags[i].v.sg; return tags[i].have ? 0 : RRR_CONDITION_SOFT_ERROR; }
	return RRR_CONDITION_SOFT_ERROR;
}
static int it_n; static int it_cb (const struct rrr_condition_op *op, const char *value, const char *tag, void *arg) { it_n++; mc_check(arg == &it_n && (op || value || tag) && !(value && *value == '{') && !(tag && strpbrk(tag, "{}")), "iterate"); return 0; }
static void check (const char *s) {
	struct rrr_condition c = {0}, d = {0}; V e = { 0, 0 }; uint64_t v = 77, v2 = 78;
	size_t l = strlen(s); char *b = malloc(l); memcpy(b, s, l);
	int wrong = ref(s, &e), se = softerr, ud = undec;
	struct rrr_parse_pos pos; rrr_parse_pos_init(&pos, b, (rrr_length) l);
	int r = rrr_condition_interpret(&c, &pos); int whole = pos.pos == l;
	if (!whole) for (rrr_length i = pos.pos; i < l; i++) if (b[i] != ' ') goto notall; whole = 1;
	notall:
	free(b);
	mc_check(!(r & RRR_CONDITION_HARD_ERROR) || wrong, "'%s': hard error", s);
	if (r) { mc_check(wrong, "'%s' is refused", s); mc_check(RRR_LL_COUNT(&c.shunting_yard) == 0 && RRR_LL_COUNT(&c.shunting_yard.op_stack) == 0, "leftovers"); return; }
	mc_check(RRR_LL_COUNT(&c.shunting_yard.op_stack) == 0, "operators left");
	mc_check(rrr_condition_clone(&d, &c) == 0, "clone");
	it_n = 0; mc_check(rrr_condition_iterate(&c, it_cb, &it_n) == 0 && it_n == RRR_LL_COUNT(&c.shunting_yard), "iterate");
	int r1 = rrr_condition_evaluate(&v, &c, name_cb, &names);
	rrr_condition_clear(&c);
	int r2 = rrr_condition_evaluate(&v2, &d, name_cb, &names);
	mc_check(r1 == r2 && (r1 || v == v2), "clone of '%s' evaluates to %" PRIu64 " instead of %" PRIu64, s, v2, v);
	rrr_condition_clear(&d); mc_step();
	if (wrong || !whole || ud) return;   /* reverse polish and other orders: no claim about the value */
	mc_check(!!r1 == se, "'%s' evaluation returns %d, expected %s", s, r1, se ? "error" : "success");
	if (!r1) mc_check(v == e.v, "'%s' evaluates to %" PRIi64 ", expected %" PRIi64, s, (int64_t) v, (int64_t) e.v);
	mc_obs(e.v * 2 + (uint64_t) se);
}
static const char *const ops[] = { "<=", ">=", "<<", ">>", "<", ">", "==", "!=", "&&", "||", "AND", "OR", "&", "^", "|", "+", "-", "*", "/" };
enum { NO = 19 };
static const char *const vals[] = { "0", "1", "2", "7", "-1", "-5", "{s}", "{a}", "{b_2}", "{big}", "63", "64", "18446744073709551615", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "0x0", "0XfF", "{none}" };
static void expr2 (void) {
	int style = mc_choose(3, "style"); char s[200], o[4]; strcpy(o, ops[mc_choose(NO, "op")]); int u = mc_choose(8, "unary");
	for (int i = 0; i < 19; i++) for (int j = 0; j < 19; j++) {
		if (style == 1 && (i == 17 || i == 16) && isalpha((unsigned char) *o)) continue;
		sprintf(s, style == 0 ? "(%s%s %s %s%s)" : style == 1 ? "(%s%s%s%s%s)" : "( \n(%s%s) %s\t((%s%s)) )", u & 1 ? "~" : "", vals[i], o, u & 2 ? (u & 4 ? "~~" : "~") : u & 4 ? "~ ~ ~" : "", vals[j]); check(s);
		if (!u) { sprintf(s, "(%s %s %s)", vals[i], vals[j], o); check(s); sprintf(s, "(%s %s %s)", o, vals[i], vals[j]); check(s); }
	}
	if (!style && !u) for (int i = 0; i < 19; i++) { sprintf(s, "(%s)", vals[i]); check(s); sprintf(s, "((~%s))", vals[i]); check(s); }
}
static const char *const few[] = { "0", "1", "2", "3", "-2", "10", "{s}", "{big}" };
static void expr3 (void) {
	int p = mc_choose(NO, "op 1"), q = mc_choose(NO, "op 2"), sh = mc_choose(5, "shape"); int n = mc_tier() ? 8 : 6; char s[200];
	static const char *const f[] = { "(%s %s %s %s %s)", "((%s %s %s) %s %s)", "(%s %s (%s %s %s))", "(%s %s ~%s %s %s)", "(~(%s %s %s) %s %s)" };
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < n; k++) { sprintf(s, f[sh], few[i], ops[p], few[j], ops[q], few[k]); check(s); }
}
static void expr4 (void) {
	/* one operator of each class, thorough all */
	static const int rep[] = { 4, 6, 8, 9, 12, 13, 14, 2, 15, 16, 17, 18 }; int o[3]; for (int i = 0; i < 3; i++) o[i] = mc_tier() ? mc_choose(NO, "op") : rep[mc_choose(12, "op")];
	int sh = mc_choose(6, "shape"); char s[200]; static const char *const v4[] = { "5", "2", "-3", "1" };
	static const char *const f[] = { "(%s%s%s %s%s %s%s)", "((%s%s%s)%s%s %s%s)", "(%s%s(%s%s%s)%s%s)", "(%s%s%s %s(%s%s%s))", "((%s%s%s)%s(%s%s%s))", "(%s%s(%s%s(%s%s%s)))" };
	for (int i = 0; i < 4; i++) for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) for (int m = 0; m < 3; m++) { sprintf(s, f[sh], v4[i], ops[o[0]], v4[j], ops[o[1]], v4[k], ops[o[2]], v4[m]); check(s); }
}
/* every sequence of tokens within parentheses */
static void tokens (void) {
	static const char *const tk[] = { "(", ")", "1", "2", "-1", "- ", "-", "+", "*", "~", "==", "{a}", "&&" }; enum { N = 13 };
	int max = mc_tier() ? 6 : 5, n = 1 + mc_choose(max, "tokens"), t[8]; for (int i = 0; i < n - 1; i++) t[i] = mc_choose(N, "token");
	for (int last = 0; last < N; last++) { t[n - 1] = last; char s[100] = "("; for (int i = 0; i < n; i++) { strcat(s, tk[t[i]]); strcat(s, " "); } strcat(s, ")");
		/* a lone - directly followed by a space is never a sign */
		check(s); mc_check(1, "x");
		/* unbalanced */
		s[strlen(s) - 1] = 0; check(s); }
}
/* every text over a small alphabet of characters: refused or accepted without touching anything outside of it */
static void chars (void) {
	static const char al[] = "(){}01x-+~<=a& ;\n"; int n = mc_choose(mc_tier() ? 7 : 6, "length"); char s[12] = "("; for (int i = 0; i < n; i++) { s[1 + i] = al[mc_choose((int) sizeof al - 1, "char")]; s[2 + i] = 0; } check(s); strcat(s, ")"); check(s);
}
static void odd (void) {
	static const char *const b[] = { "()", "(", "", " ", ")", "(1", "1", "{a}", "({a})", "({a)", "({})", "(0x)", "(0xg)", "(18446744073709551616)", "(0xffffffffffffffff)", "(0x10000000000000000)", "(-9223372036854775809)", "(1 2)", "(1 +)", "((+) 1 2)", "(~)", "(1 ~)", "(-{a})", "(-(1))", "(1-1)", "(1 -1)", "(1 - 1)", "(1--1)", "((1)-1)", "((1) -1)", "({a}-1)", "(1)-1", "(1==1) ;", "({aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa}==1)", "({aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa}==1)", "(1 = 1)", "(1 ! 1)", "(!1)", "(1 % 1)", "(and 1 1)", "(1 and 1)", "(1 OR1)", "(1OR1)", "((((((((((1))))))))))" };
	int i = mc_choose((int) (sizeof b / sizeof *b), "text"); 
	/* the empty condition is false */
	if (i == 0) { struct rrr_condition c = {0}; uint64_t v = 5; struct rrr_parse_pos pos; rrr_parse_pos_init(&pos, b[i], 2); mc_check(rrr_condition_interpret(&c, &pos) == 0 && rrr_condition_evaluate(&v, &c, name_cb, &names) == 0 && v == 0, "()"); rrr_condition_clear(&c); return; }
	static const int refuse[] = { 1, 4, 5, 6, 7, 9, 10, 11, 12, 13, 15, 16, 17, 18, 19, 20, 22, 23, 34, 35, 36, 37, 38, 39, 40 };
	for (unsigned k = 0; k < sizeof refuse / sizeof *refuse; k++) if (refuse[k] == i) { struct rrr_condition c = {0}; struct rrr_parse_pos pos; rrr_parse_pos_init(&pos, b[i], (rrr_length) strlen(b[i])); mc_check(rrr_condition_interpret(&c, &pos) != 0, "'%s' is accepted", b[i]); mc_step(); return; }
	if (b[i][0] == '(') check(b[i]);
}

/* ---- trees ---- */
enum { SIMPLE = 6 };
static const char *const simple[SIMPLE] = { "be1#a", "be1s#s", "be2#b", "REWIND1", "REWIND2", "blob{a}#c" };
static const char *const conds[] = { "{a}==1", "{a}", "{s}<0", "{b}>257||{a}==2", "{c}==2" };
typedef struct T { int n, kind[4]; struct { int c[3], nb; struct T *b[3], *e; } *f[4]; } T;   /* kind: index of simple or -1 for IF */
static T *mkbody (int max, int depth);
static int lite;
static T *tnew (void) { return calloc(1, sizeof(T)); }
static void tfree (T *t) { if (!t) return; for (int i = 0; i < t->n; i++) if (t->f[i]) { for (int k = 0; k < t->f[i]->nb; k++) tfree(t->f[i]->b[k]); tfree(t->f[i]->e); free(t->f[i]); } free(t); }
static void addif (T *t, int body, int depth) {
	t->kind[t->n] = -1; t->f[t->n] = calloc(1, sizeof *t->f[0]); int i = t->n++;
	t->f[i]->nb = 1 + mc_choose(2, "elsif"); for (int k = 0; k < t->f[i]->nb; k++) { t->f[i]->c[k] = mc_choose(lite ? 2 : 5, "cond"); t->f[i]->b[k] = mkbody(k ? 1 : body, k ? 0 : depth); }
	if (mc_bool("else")) t->f[i]->e = mkbody(1, 0);
}
static T *mkbody (int max, int depth) {
	T *t = tnew(); int n = mc_choose(max + 1, "items");
	for (int i = 0; i < n; i++) { int ns = lite ? 4 : SIMPLE, k = mc_choose(ns + (depth > 0), "item"); if (k == ns) addif(t, 1, 0); else t->kind[t->n++] = k; }
	return t;
}
static char *rend (char *o, const T *t, int style) {
	for (int i = 0; i < t->n; i++) {
		if (t->kind[i] >= 0) { o += sprintf(o, "%s%s", simple[t->kind[i]], i == t->n - 1 ? "" : style == 1 ? "," : style == 2 && t->kind[i + 1] == -1 ? "\n" : style == 2 ? " ,,\n, " : ", "); continue; }
		for (int k = 0; k < t->f[i]->nb; k++) { o += sprintf(o, style == 1 ? "%s(%s)" : "%s (%s)\n\t", k ? "ELSIF" : "IF", conds[t->f[i]->c[k]]); o = rend(o, t->f[i]->b[k], style); o += sprintf(o, style == 1 ? ";" : style == 2 ? "\n;" : "; "); }
		if (t->f[i]->e) { o += sprintf(o, style == 1 ? "ELSE" : "ELSE\n"); o = rend(o, t->f[i]->e, style); o += sprintf(o, ";"); }
		if (i < t->n - 1 && style == 0) o += sprintf(o, ", ");
	}
	*o = 0; return o;
}
typedef struct { const char *tag; int type, len; uint8_t raw[4]; } El;
static El el[40]; static int nel; static const uint8_t *D; static int dn, dp;
enum { INC = 1, ERR = 2 };
static uint64_t elv (const El *e) { uint64_t v = 0; for (int i = 0; i < e->len; i++) v = v << 8 | e->raw[i]; if (*e->tag == 's') v = (uint64_t) (int64_t) (int8_t) v; return v; }
static int get (char t, uint64_t *v, int *sg) { for (int i = nel - 1; i >= 0; i--) if (el[i].tag[0] == t) { *v = elv(&el[i]); *sg = t == 's'; return 1; } return 0; }
static int rcond (int c) {   /* -1 error */
	uint64_t a, b; int s;
	if (c == 3) { if (!get('b', &b, &s) || !get('a', &a, &s)) return -1; return b > 257 || a == 2; }
	if (!get(c == 2 ? 's' : c == 4 ? 'c' : 'a', &a, &s)) return -1;
	return c == 0 ? a == 1 : c == 1 ? a != 0 : c == 2 ? (int64_t) a < 0 : a == 2;
}
static int run (const T *t) {
	for (int i = 0; i < t->n; i++) {
		int k = t->kind[i], r;
		if (k == 3 || k == 4) { for (int j = 0; j < k - 2; j++) { if (nel < k - 2 - j) return ERR; dp -= el[--nel].len; } continue; }
		if (k >= 0) {
			El *e = &el[nel]; e->tag = k == 0 ? "a" : k == 1 ? "s" : k == 2 ? "b" : "c"; e->len = k == 2 ? 2 : 1;
			if (k == 5) { uint64_t v; int s; if (!get('a', &v, &s) || v == 0) return ERR; if (v > 4) return INC; e->len = (int) v; }
			if (dp + e->len > dn) return INC; 
			memcpy(e->raw, D + dp, (size_t) e->len); dp += e->len; nel++; continue;
		}
		int done = 0; for (int j = 0; j < t->f[i]->nb && !done; j++) { int c = rcond(t->f[i]->c[j]); if (c < 0) return ERR; if (c) { done = 1; if ((r = run(t->f[i]->b[j]))) return r; } }
		if (!done && t->f[i]->e && (r = run(t->f[i]->e))) return r;
	}
	return 0;
}
static const char *cur; static int got;
static int arr_cb (struct rrr_array *a, void *arg) {
	(void)(arg); got++; int i = 0;
	mc_check(RRR_LL_COUNT(a) == nel, "%d fields instead of %d. Tree: %s", RRR_LL_COUNT(a), nel, cur);
	RRR_LL_ITERATE_BEGIN(a, const struct rrr_type_value);
		mc_check(node->tag && node->tag_length == strlen(el[i].tag) && !memcmp(node->tag, el[i].tag, node->tag_length), "tag of field %d. Tree: %s", i, cur);
		if (*el[i].tag == 'c') mc_check(node->total_stored_length == (unsigned) el[i].len && !memcmp(node->data, el[i].raw, (size_t) el[i].len), "blob field %d. Tree: %s", i, cur);
		else { uint64_t v = node->definition->to_64(node); mc_check(v == elv(&el[i]), "field %d is %" PRIi64 " instead of %" PRIi64 ". Tree: %s", i, (int64_t) v, (int64_t) elv(&el[i]), cur); }
		i++;
	RRR_LL_ITERATE_END();
	return 0;
}
static void alldata (const struct rrr_array_tree *tree, const T *t, int maxlen) {
	static const uint8_t al[] = { 0, 1, 2, 0xff }; uint8_t d[5]; int verdict[6];
	for (int code = 0, lim = 1 << 2 * maxlen; code < lim; code++) {
		for (int i = 0; i < maxlen; i++) d[i] = al[code >> 2 * i & 3];
		for (int n = 0; n <= maxlen; n++) {
			int hi = code >> 2 * n; if (hi && n < maxlen) { verdict[n] = -1; continue; }   /* shorter data once */
			uint8_t *b = malloc((size_t) n + !n); memcpy(b, d, (size_t) n); D = b; dn = n; dp = nel = 0; int e = run(t); rrr_length pb = 99; got = 0;
			int r = rrr_array_tree_import_from_buffer(&pb, (char *) b, (rrr_length) n, tree, arr_cb, NULL);
			mc_check(e == 0 ? r == 0 && got == 1 && pb == (rrr_length) dp : e == INC ? r == RRR_ARRAY_TREE_PARSE_INCOMPLETE && !got : r != 0 && r != RRR_ARRAY_TREE_PARSE_INCOMPLETE && !(r & RRR_ARRAY_TREE_HARD_ERROR) && !got, "data of %d bytes (%02x %02x %02x %02x): returns %d and %u bytes, expected %s %d. Tree: %s", n, d[0], d[1], d[2], d[3], r, (unsigned) pb, e == INC ? "incomplete" : e ? "error" : "ok", dp, cur);
			free(b); mc_step(); verdict[n] = e;
		}
	}
	(void)(verdict);
}
static void tree_run (T *t, int maxlen, int style) {
	static char text[2000]; char *e = rend(text, t, style); strcpy(e, style == 1 ? ";" : style == 2 ? "\n;;" : ";"); cur = text; size_t l = strlen(text); char *b = malloc(l); memcpy(b, text, l);
	struct rrr_array_tree *tree = NULL, *clone = NULL; int r = rrr_array_tree_interpret_raw(&tree, b, (rrr_length) l, "x"); free(b);
	mc_check(r == 0, "tree is refused: %s", text);
	if (style == 0) alldata(tree, t, maxlen);
	else { mc_check(rrr_array_tree_clone_without_data(&clone, tree) == 0, "clone"); rrr_array_tree_destroy(tree); tree = clone; alldata(tree, t, maxlen); }
	rrr_array_tree_dump(tree);
	rrr_array_tree_destroy(tree); tfree(t); mc_obs((uint64_t) nel);
}
static void tree_if (void) {   /* item IF.. item */
	lite = 0; int first = mc_choose(3, "first"); T *t = tnew(); t->kind[t->n++] = first; addif(t, mc_tier() ? 2 : 1, 0); int k = mc_choose(SIMPLE + 1, "last"); if (k < SIMPLE) t->kind[t->n++] = k;
	tree_run(t, mc_tier() ? 4 : 3, mc_tier() ? mc_choose(3, "style") : first);
}
static void tree_nest (void) {
	lite = 1; T *t = tnew(); t->kind[t->n++] = 0; addif(t, mc_tier() ? 2 : 1, 1); tree_run(t, 3, 0);
}
static void tree_two (void) { lite = 1; T *t = tnew(); t->kind[t->n++] = 0; addif(t, 1, 0); addif(t, 1, 0); tree_run(t, 3, 0); }
static void tree_list (void) { lite = 0; T *t = tnew(); int n = mc_choose(5, "items"); for (int i = 0; i < n; i++) t->kind[t->n++] = mc_choose(SIMPLE, "item"); tree_run(t, 4, mc_choose(3, "style")); }
/* damaged definitions: cut off, one character removed, replaced or inserted; no claim but safety and a usable tree */
static int any_cb (struct rrr_array *a, void *arg) { (void)(a); (void)(arg); return 0; }
static void damaged (void) {
	static const char *const src[] = { "be1#a,IF({a}==1)be1#b;ELSIF({a}>2)blob{a}#c,REWIND1;ELSE err;sep1@{a}#d;", "IF(1==1);;", "be4s@2#x;", "REWIND12;", "be1 , ustr#u,\nIF ({u}) nsep; ,sep1;;", "hdlc;", "le3u,fixp,msg;" };
	static const char rep[] = ";,(){}#@ I19R\n\0\xff"; int w = mc_choose(7, "source"), how = mc_choose(4, "cut|remove|replace|insert"); size_t l = strlen(src[w]); int p = mc_choose((int) l + 1, "at"), ch = how > 1 ? mc_choose((int) sizeof rep, "char") : 0;
	char s[200]; strcpy(s, src[w]);
	if (how == 0) l = (size_t) p; else if (p == (int) l && how < 3) mc_prune(); else if (how == 1) { memmove(s + p, s + p + 1, l - (size_t) p); l--; } else if (how == 2) s[p] = rep[ch]; else { memmove(s + p + 1, s + p, l - (size_t) p + 1); s[p] = rep[ch]; l++; }
	char *b = malloc(l + !l); memcpy(b, s, l); struct rrr_array_tree *tree = NULL; int r = rrr_array_tree_interpret_raw(&tree, b, (rrr_length) l, NULL); free(b);
	mc_check(!r == !!tree, "returns %d", r);
	if (tree) { static const char *const d[] = { "", "\1\1\1\1\1\1", "\2,7,\n3", "\0\0\0", "\3abc;;;", "12 \n;", "~a~" }; for (int i = 0; i < 7; i++) { rrr_length pb; size_t n = i == 3 ? 3 : strlen(d[i]); char *x = malloc(n + 1); memcpy(x, d[i], n); rrr_array_tree_import_from_buffer(&pb, x, (rrr_length) n, tree, any_cb, NULL); free(x); mc_step(); } rrr_array_tree_destroy(tree); }
}
static const struct mc_scenario sc[] = {
	{ "odd", odd, -1, -1, MC_LEAKCHECK, NULL },
	{ "expr2", expr2, -1, -1, MC_LEAKCHECK, NULL },
	{ "expr3", expr3, -1, -1, MC_LEAKCHECK, NULL },
	{ "expr4", expr4, -1, -1, MC_LEAKCHECK, NULL },
	{ "tokens", tokens, -1, -1, MC_LEAKCHECK, NULL },
	{ "chars", chars, -1, -1, MC_LEAKCHECK, NULL },
	{ "tree_list", tree_list, -1, -1, MC_LEAKCHECK, NULL },
	{ "tree_if", tree_if, -1, -1, MC_LEAKCHECK, NULL },
	{ "tree_nest", tree_nest, -1, -1, MC_LEAKCHECK, NULL },
	{ "tree_two", tree_two, -1, -1, MC_LEAKCHECK, NULL },
	{ "damaged", damaged, -1, -1, MC_LEAKCHECK, NULL },
};
int main (int c, char **v) { return mc_main(c, v, "C20", sc, (int) (sizeof sc / sizeof *sc)); }
