// FLAVOR: asan
// LINK: -ljson-c
/* C25: JSON to arrays and arrays to JSON against an independent strict JSON reader and writer. */
#include "mc.h"
#include <ctype.h>
#include <limits.h>
#include <math.h>
#include "lib/rrr_types.h"
#include "lib/allocator.h"
#include "lib/array.h"
#include "lib/map.h"
#include "lib/fixed_point.h"
#include "lib/json/json.h"

typedef struct J { char t; char *s; size_t n; int64_t i; uint64_t u; int big, range; double d; struct J *first, *next; char *key; } J;   /* t: s i d b n a o */
static void jfree (J *j) { while (j) { J *n = j->next; jfree(j->first); free(j->s); free(j->key); free(j); j = n; } }
/* ---- strict reader, RFC 8259 ---- */
static const char *P, *PE; static int und;   /* und: valid, but RFC leaves the meaning open (lone surrogates, equal keys, text which is not UTF-8) */
static void ws (void) { while (P < PE && strchr(" \t\n\r", *P) && *P) P++; }
static int hex4 (unsigned *o) { *o = 0; for (int i = 0; i < 4; i++) { if (P >= PE || !isxdigit((unsigned char) *P)) return 0; *o = *o * 16 + (unsigned) (isdigit((unsigned char) *P) ? *P - '0' : tolower(*P) - 'a' + 10); P++; } return 1; }
static char *rstr (size_t *n) {
	char *b = malloc((size_t) (PE - P) * 3 + 8); size_t l = 0;
	if (P >= PE || *P++ != '"') goto bad;
	while (P < PE && *P != '"') {
		unsigned char c = (unsigned char) *P++;
		if (c < 0x20) goto bad;
		if (c >= 0x80) und = 1;
		if (c != '\\') { b[l++] = (char) c; continue; }
		if (P >= PE) goto bad;
		switch (*P++) {
		case '"': b[l++] = '"'; break; case '\\': b[l++] = '\\'; break; case '/': b[l++] = '/'; break; case 'b': b[l++] = '\b'; break; case 'f': b[l++] = '\f'; break; case 'n': b[l++] = '\n'; break; case 'r': b[l++] = '\r'; break; case 't': b[l++] = '\t'; break;
		case 'u': {
			unsigned h, g; if (!hex4(&h)) goto bad;
			if (h >= 0xd800 && h < 0xdc00 && PE - P >= 2 && P[0] == '\\' && P[1] == 'u') { P += 2; if (!hex4(&g)) goto bad; if (g >= 0xdc00 && g < 0xe000) h = 0x10000 + ((h - 0xd800) << 10) + (g - 0xdc00); else und = 1; }
			if (h >= 0xd800 && h < 0xe000) und = 1;
			if (h < 0x80) b[l++] = (char) h; else if (h < 0x800) { b[l++] = (char) (0xc0 | h >> 6); b[l++] = (char) (0x80 | (h & 63)); } else if (h < 0x10000) { b[l++] = (char) (0xe0 | h >> 12); b[l++] = (char) (0x80 | (h >> 6 & 63)); b[l++] = (char) (0x80 | (h & 63)); }
			else { b[l++] = (char) (0xf0 | h >> 18); b[l++] = (char) (0x80 | (h >> 12 & 63)); b[l++] = (char) (0x80 | (h >> 6 & 63)); b[l++] = (char) (0x80 | (h & 63)); }
			break; }
		default: goto bad;
		}
	}
	if (P >= PE) goto bad;
	P++; b[l] = 0; *n = l; return b;
	bad: free(b); return NULL;
}
static J *rval (int depth) {
	J *j = calloc(1, sizeof *j), **tail = &j->first; ws(); if (P >= PE || depth > 60) goto bad;
	if (*P == '"') { j->t = 's'; if (!(j->s = rstr(&j->n))) goto bad; return j; }
	if (*P == '[' || *P == '{') {
		int ob = *P++ == '{'; j->t = ob ? 'o' : 'a'; ws(); if (P < PE && *P == (ob ? '}' : ']')) { P++; return j; }
		for (;;) {
			char *k = NULL; size_t kn = 0; if (ob) { ws(); if (!(k = rstr(&kn))) goto bad; if (strlen(k) != kn) und = 1; for (J *x = j->first; x; x = x->next) if (!strcmp(x->key, k)) und = 1; ws(); if (P >= PE || *P++ != ':') { free(k); goto bad; } }
			J *v = rval(depth + 1); if (!v) { free(k); goto bad; } v->key = k; *tail = v; tail = &v->next; ws();
			if (P >= PE) goto bad;
			if (*P == ',') { P++; continue; }
			if (*P == (ob ? '}' : ']')) { P++; return j; }
			goto bad;
		}
	}
	static const char *const w[] = { "true", "false", "null" }; for (int i = 0; i < 3; i++) { size_t l = strlen(w[i]); if ((size_t) (PE - P) >= l && !memcmp(P, w[i], l)) { P += l; j->t = i == 2 ? 'n' : 'b'; j->i = i == 0; return j; } }
	{ const char *b = P; int dbl = 0, neg = 0; if (*P == '-') { neg = 1; P++; }
		if (P >= PE || !isdigit((unsigned char) *P)) goto bad;
		unsigned __int128 v = 0; if (*P == '0') P++; else while (P < PE && isdigit((unsigned char) *P)) { if (v >> 70) j->range = 1; else v = v * 10 + (unsigned) (*P - '0'); P++; }
		if (P < PE && *P == '.') { dbl = 1; P++; if (P >= PE || !isdigit((unsigned char) *P)) goto bad; while (P < PE && isdigit((unsigned char) *P)) P++; }
		if (P < PE && (*P == 'e' || *P == 'E')) { dbl = 1; P++; if (P < PE && (*P == '+' || *P == '-')) P++; if (P >= PE || !isdigit((unsigned char) *P)) goto bad; while (P < PE && isdigit((unsigned char) *P)) P++; }
		char tmp[400]; size_t l = (size_t) (P - b); if (l >= sizeof tmp) goto bad; memcpy(tmp, b, l); tmp[l] = 0;
		if (dbl) { j->t = 'd'; j->range = 0; j->d = strtod(tmp, NULL); return j; }
		j->t = 'i'; if (neg ? v > (unsigned __int128) 1 << 63 : v >> 64) j->range = 1; j->big = !neg && v > INT64_MAX; j->u = (uint64_t) v; j->i = (int64_t) (neg ? 0 - (uint64_t) v : (uint64_t) v); return j;
	}
	bad: jfree(j); return NULL;
}
static J *parse (const char *s, size_t n) { P = s; PE = s + n; und = 0; J *j = rval(0); if (j) { ws(); if (P != PE) { jfree(j); j = NULL; } } return j; }

/* ---- what the arrays must be ---- */
typedef struct { int n; struct V { char *tag; char t; const char *s; size_t sl; uint64_t u; } v[40]; } A;
static A exp_[40]; static int nexp, bad, lossy, range_scen;
static uint64_t fix (double d, int *err) { if (!isfinite(d) || fabs(d) >= 549755813888.0) { *err = 1; return 0; } int neg = d < 0; double x = ldexp(fabs(d), 24); uint64_t v = (uint64_t) x; return neg ? -v : v; }
static void walk (J *j, int max, int lv) {
	if (bad || lv > max) return;
	if (j->t == 'a') { for (J *x = j->first; x && !bad; x = x->next) walk(x, max, lv + 1); return; }
	if (j->t != 'o') { bad = 1; return; }
	A a = { 0 };
	for (J *x = j->first; x; x = x->next) {
		struct V *v = &a.v[a.n]; v->tag = x->key; v->t = x->t;
		switch (x->t) {
		case 's': v->s = x->s; v->sl = x->n; break;
		case 'i': if (x->range) lossy = 1; v->u = x->big ? x->u : (uint64_t) x->i; if (x->big) v->t = 'u'; break;
		case 'd': v->u = fix(x->d, &bad); if (bad) return; break;
		case 'b': v->u = (uint64_t) x->i; v->t = 'u'; break;
		case 'n': break;
		default: walk(x, max, lv + 1); if (bad) return; continue;
		}
		a.n++;
	}
	exp_[nexp++] = a;
}
static int ngot; static const char *cur;
static int cb (const struct rrr_array *a, void *arg) {
	(void)(arg); if (lossy) return 0;
	mc_check(ngot < nexp, "array %d of %d, document %s", ngot + 1, nexp, cur); A *e = &exp_[ngot++]; mc_check(RRR_LL_COUNT(a) == e->n, "array %d has %d values instead of %d, document %s", ngot, RRR_LL_COUNT(a), e->n, cur);
	int i = 0; for (const struct rrr_type_value *v = RRR_LL_FIRST(a); v; v = v->ptr_next, i++) {
		struct V *x = &e->v[i]; size_t tl = strlen(x->tag); mc_check(v->tag_length == tl && (!tl || !memcmp(v->tag, x->tag, tl)), "tag %.*s instead of %s, document %s", (int) v->tag_length, v->tag, x->tag, cur);
		int type = x->t == 's' ? RRR_TYPE_STR : x->t == 'n' ? RRR_TYPE_VAIN : x->t == 'd' ? RRR_TYPE_FIXP : RRR_TYPE_H;
		mc_check(v->definition->type == type && v->element_count == 1, "value %s has type %s, document %s", x->tag, v->definition->identifier, cur);
		if (x->t == 's') mc_check(v->total_stored_length == x->sl && (!x->sl || !memcmp(v->data, x->s, x->sl)), "string %s of %u bytes instead of %u, document %s", x->tag, (unsigned) v->total_stored_length, (unsigned) x->sl, cur);
		if (type == RRR_TYPE_H) mc_check(v->definition->to_64(v) == x->u && !!(v->flags & 1) == (x->t == 'i'), "value %s is %" PRIu64 " (flags %u) instead of %" PRIu64 ", document %s", x->tag, v->definition->to_64(v), v->flags, x->u, cur);
		if (x->t == 'd') { uint64_t g; memcpy(&g, v->data, 8); mc_check(g - x->u + 1 <= 2, "value %s is fixp %" PRIx64 " instead of %" PRIx64 ", document %s", x->tag, g, x->u, cur); }
	}
	return 0;
}
static int any_cb (const struct rrr_array *a, void *arg) { (void)(arg); mc_obs((uint64_t) RRR_LL_COUNT(a)); return 0; }
static const char *show (const char *s, size_t n) { static char o[700]; size_t p = 0; for (size_t i = 0; i < n && p < 680; i++) p += (size_t) sprintf(o + p, (unsigned char) s[i] < 32 || (unsigned char) s[i] > 126 ? "\\x%02x" : "%c", (unsigned char) s[i]); o[p] = 0; return o; }
static void to_arrays (const char *s, size_t n, int max) {
	char *b = malloc(n + !n); memcpy(b, s, n); J *j = parse(b, n); cur = show(s, n); nexp = ngot = bad = lossy = 0; mc_step();
	if (!j || und) { rrr_json_to_arrays(b, (rrr_length) n, max, any_cb, NULL); }   /* more than the standard may be accepted */
	else {
		walk(j, max, 0); int r = rrr_json_to_arrays(b, (rrr_length) n, max, cb, NULL);
		if (lossy && !bad) { if (r == 0 && range_scen) mc_fail_key("integer which does not fit in 64 bits: the JSON-C tokener clamps it (unless in its strict mode) and another value is delivered instead of an error", "integer which needs more than 64 bits is accepted and becomes another value, document %s", cur); }
		else if (bad && j->t != 'a' && j->t != 'o') mc_check(r == RRR_JSON_PARSE_ERROR || r == RRR_JSON_PARSE_INCOMPLETE, "returns %d, document %s", r, cur);
		else mc_check(bad ? r == RRR_JSON_PARSE_ERROR : r == 0 && ngot == nexp, "returns %d and %d arrays instead of %s %d arrays, document %s", r, ngot, bad ? "error" : "ok", nexp, cur);
	}
	free(b); jfree(j);
}
/* every text over the characters of JSON */
static void bytes (void) {
	static const char al[] = "{}[]\":,\\1-.e0 a\n"; int max = mc_tier() ? 7 : 6; char s[16]; int n = mc_choose(max + 1, "length"); int inner = n < 3 ? n : 3;
	for (int i = 0; i < n - inner; i++) s[i] = al[mc_choose((int) sizeof al - 1, "char")];
	int lim = 1; for (int i = 0; i < inner; i++) lim *= (int) sizeof al - 1;
	for (int c = 0; c < lim; c++) { int x = c; for (int i = n - inner; i < n; i++) { s[i] = al[x % ((int) sizeof al - 1)]; x /= (int) sizeof al - 1; } to_arrays(s, (size_t) n, 3); }
}
/* every sequence of tokens */
static void tokens (void) {
	static const char *const tk[] = { "{", "}", "[", "]", "\"a\"", ":", ",", "1", "null", "\"b\"", "-2.5", "true", " " }; enum { N = 13 };
	int max = mc_tier() ? 8 : 7; char s[80] = ""; int n = 1 + mc_choose(max, "tokens"), first = mc_choose(2, "first"); strcpy(s, first ? "[" : "{"); for (int i = 1; i < n; i++) strcat(s, tk[mc_choose(i == 1 ? 8 : N, "token")]); to_arrays(s, strlen(s), 3);
	/* completed to a valid document */
	char t[90]; sprintf(t, "%s%s", s, first ? "]" : "}"); to_arrays(t, strlen(t), 1);
}
static const char *const scal[] = { "1", "0", "-1", "\"\"", "\"x\"", "null", "true", "false", "1.5", "-0.25", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551615", "0.0000000596046448", "549755813887.5", "549755813888.0", "-549755813887.9", "1e3", "1E-2", "1.0e+2", "1e300", "-1e11", "\"a\\u0000b\"", "\"\\u00e6\\u20ac\"", "\"\\ud83d\\ude00\"", "\"\\\"\\\\\\/\\b\\f\\n\\r\\t\"", "\"{\"", "[]", "{}", "[{}]", "[1]", "{\"z\":1}", "-0", "0.1", "2.2", "18446744073709551616", "-9223372036854775809", "123456789012345678901234567890" };
enum { NS = sizeof scal / sizeof *scal };
static const char *const keys[] = { "a", "", "k k", "\\u00e5", "x\\\"y", "a.b" };
static void scalars (void) {
	char s[400]; int a = mc_choose(NS, "value"), k = mc_choose(6, "key"), max = mc_choose(3, "levels"); static const char *const sp[] = { "", " ", "\n\t", "\r\n  " };
	for (int w = 0; w < 4; w++) { sprintf(s, "%s{%s\"%s\"%s:%s%s%s}%s", sp[w], sp[w], keys[k], sp[w], sp[w], scal[a], sp[w], sp[w]); to_arrays(s, strlen(s), max); sprintf(s, "[%s,%s]", scal[a], scal[a]); to_arrays(s, strlen(s), max); sprintf(s, "{\"f\":%s,\"l\":%s}", scal[a], scal[(a + k) % NS]); to_arrays(s, strlen(s), max); to_arrays(scal[a], strlen(scal[a]), max); }
}
/* integers which do not fit: to be refused */
static void range (void) { static const char *const v[] = { "18446744073709551616", "-9223372036854775809", "123456789012345678901234567890", "-123456789012345678901234567890" }; char s[100]; range_scen = 1; sprintf(s, mc_bool("list") ? "[{\"a\":%s}]" : "{\"a\":%s}", v[mc_choose(4, "value")]); to_arrays(s, strlen(s), 3); }
static int gen (char *s, int budget, int depth) {   /* documents from the grammar */
	static const char *const few[] = { "7", "\"s\"", "null", "-1.5" };
	char *p = s; int ob = mc_bool("object"), n = mc_choose(budget + 1, "members"); *p++ = ob ? '{' : '[';
	for (int i = 0; i < n; i++) { if (i) *p++ = ','; if (ob) p += sprintf(p, "\"%c\":", 'a' + i); int k = mc_choose(4 + (depth > 0), "member"); if (k == 4) p += gen(p, budget > 2 ? 2 : budget, depth - 1); else if (!ob && k) p += sprintf(p, "{\"q\":%s}", few[k]); else if (!ob) p += sprintf(p, "[]"); else p += sprintf(p, "%s", few[k]); }
	*p++ = ob ? '}' : ']'; *p = 0; return (int) (p - s);
}
static void nested (void) {
	char s[600]; int n = gen(s, mc_tier() ? 2 : 2, mc_tier() ? 2 : 1); for (int max = 0; max < 5; max++) to_arrays(s, (size_t) n, max);
	/* every proper beginning of a document is incomplete */
	cur = s; lossy = 1; for (int i = 1; i < n; i++) { char *b = malloc((size_t) i); memcpy(b, s, (size_t) i); int r = rrr_json_to_arrays(b, (rrr_length) i, 3, any_cb, NULL); mc_check(r == RRR_JSON_PARSE_INCOMPLETE, "first %d bytes of %s: returns %d", i, s, r); free(b); }
}
static void deep (void) { int d = 1 + mc_choose(60, "depth"), ob = mc_bool("object"), max = mc_pick((const int[]) { 0, 5, 31, 100 }, 4, "levels"); char s[1000], *p = s; for (int i = 0; i < d; i++) p += sprintf(p, ob ? "{\"a\":" : "["); p += sprintf(p, ob ? "{}" : ""); for (int i = 0; i < d; i++) *p++ = ob ? '}' : ']'; if (d < 30) to_arrays(s, (size_t) (p - s), max); else { char *b = malloc((size_t) (p - s)); memcpy(b, s, (size_t) (p - s)); int r = rrr_json_to_arrays(b, (rrr_length) (p - s), max, any_cb, NULL); mc_check(r == 0 || r == RRR_JSON_PARSE_ERROR, "returns %d", r); free(b); } }

/* ---- from arrays ---- */
typedef struct { int k; unsigned cnt; uint64_t u[3]; const char *s; size_t n; } Val;
static const Val vals[] = {
	{ 'n', 1, { 0 }, 0, 0 }, { 'u', 1, { 1 }, 0, 0 }, { 'u', 1, { 0xffffffffffffffffull }, 0, 0 }, { 'i', 1, { 0x8000000000000000ull }, 0, 0 }, { 'i', 1, { (uint64_t) -5 }, 0, 0 }, { 's', 1, { 0 }, "x", 1 }, { 's', 1, { 0 }, "", 0 }, { 's', 1, { 0 }, "a\"\\/\n\t\1", 7 }, { 's', 1, { 0 }, "p\0q", 3 }, { 's', 1, { 0 }, "\xc3\xa6\xf0\x9f\x98\x80", 6 },
	{ 'f', 1, { 0x1800000 }, 0, 0 }, { 'f', 1, { (uint64_t) -0x2400000 }, 0, 0 }, { 'f', 1, { 1 }, 0, 0 }, { 'f', 1, { 0 }, 0, 0 }, { 'b', 1, { 0 }, "bin", 3 }, { 'u', 2, { 1, 2 }, 0, 0 }, { 'i', 3, { (uint64_t) -1, 0, 7 }, 0, 0 }, { 'b', 2, { 0 }, "abcd", 4 }, { 'f', 2, { 0x1000000, 0x800000 }, 0, 0 }, { 'n', 2, { 0 }, 0, 0 }, { 's', 3, { 0 }, "xyz", 3 },
};
enum { NV = sizeof vals / sizeof *vals };
static void add (struct rrr_array *a, const char *tag, const Val *v) {
	const struct rrr_type_definition *d = v->k == 'n' ? &rrr_type_definition_vain : v->k == 's' ? &rrr_type_definition_str : v->k == 'b' ? &rrr_type_definition_blob : v->k == 'f' ? &rrr_type_definition_fixp : &rrr_type_definition_h; size_t l = v->k == 'n' ? 0 : v->k == 's' || v->k == 'b' ? v->n : 8 * v->cnt;
	struct rrr_type_value *n = NULL; mc_check(rrr_type_value_new(&n, d, v->k == 'i' ? RRR_TYPE_FLAG_SIGNED : 0, (rrr_length) strlen(tag), tag, 0, NULL, v->cnt, NULL, (rrr_length) l) == 0, "new"); if (l) memcpy(n->data, v->k == 's' || v->k == 'b' ? (const void *) v->s : (const void *) v->u, l); RRR_LL_APPEND(a, n);
}
static void same (const J *j, const Val *v, unsigned e, const char *t) {
	size_t el = v->n / v->cnt;
	switch (v->k) {
	case 'n': mc_check(j->t == 'n', "vain in %s", t); break;
	case 's': case 'b': mc_check(j->t == 's' && j->n == el && !memcmp(j->s, v->s + e * el, el), "string in %s", show(t, strlen(t))); break;
	case 'u': mc_check(j->t == 'i' && !j->range && j->u == v->u[e] && (j->big || j->i >= 0), "unsigned %" PRIu64 " in %s", v->u[e], t); break;
	case 'i': mc_check(j->t == 'i' && !j->range && !j->big && j->i == (int64_t) v->u[e], "signed in %s", t); break;
	case 'f': { int err = 0; uint64_t g = j->t == 'd' ? fix(j->d, &err) : j->t == 'i' ? (uint64_t) j->i << 24 : 0; mc_check((j->t == 'd' || j->t == 'i') && !err && g - v->u[e] + 1 <= 2, "fixp %" PRIx64 " in %s", v->u[e], show(t, strlen(t))); break; }
	}
}
static struct rrr_array back; static int nback;
static int back_cb (const struct rrr_array *a, void *arg) { (void)(arg); nback++; return rrr_array_append_from(&back, a); }
static void from (void) {
	static const char *const tags[] = { "a", "b\"\n", "" }; int n = mc_choose(mc_tier() ? 4 : 3, "values"), k[3]; struct rrr_array a = { 0 }; struct rrr_map m = { 0 }; int sel = 7;
	for (int i = 0; i < n; i++) { k[i] = mc_choose(NV, "value"); add(&a, tags[i], &vals[k[i]]); }
	int use = mc_bool("selected tags"); if (use) { sel = mc_choose(1 << n, "tags"); for (int i = 0; i < n; i++) if (sel >> i & 1) mc_check(rrr_map_item_add_new(&m, tags[i], NULL) == 0, "map"); }
	char *t = NULL; int found = -1; int r = rrr_json_from_array(&t, &found, &a, use ? &m : NULL); mc_check(r == 0 && t, "returns %d", r); mc_step();
	J *j = parse(t, strlen(t)); mc_check(j && j->t == 'o', "not valid JSON: %s", show(t, strlen(t))); J *x = j->first; int c = 0, scalar = 1;
	for (int i = 0; i < n; i++) if (sel >> i & 1) {
		c++; mc_check(x && !strcmp(x->key, tags[i]), "key %d in %s", i, t); const Val *v = &vals[k[i]];
		if (v->cnt == 1) same(x, v, 0, t); else { scalar = 0; mc_check(x->t == 'a', "array in %s", t); J *y = x->first; for (unsigned e = 0; e < v->cnt; e++, y = y->next) { mc_check(y, "elements in %s", t); same(y, v, e, t); } mc_check(!y, "more elements in %s", t); }
		x = x->next;
	}
	mc_check(!x && found == c, "%d found tags, %s", found, t);
	/* and back */
	if (scalar) {
		nback = 0; r = rrr_json_to_arrays(t, (rrr_length) strlen(t), 1, back_cb, NULL); mc_check(r == 0 && nback == 1 && RRR_LL_COUNT(&back) == c, "back: %d", r); const struct rrr_type_value *v = RRR_LL_FIRST(&back);
		for (int i = 0; i < n; i++) if (sel >> i & 1) { const Val *w = &vals[k[i]]; mc_check(v->tag_length == strlen(tags[i]) && (!v->tag_length || !memcmp(v->tag, tags[i], v->tag_length)), "tag back"); int ty = v->definition->type; uint64_t g;
			if (w->k == 'n') mc_check(ty == RRR_TYPE_VAIN, "vain back"); else if (w->k == 's' || w->k == 'b') mc_check(ty == RRR_TYPE_STR && v->total_stored_length == w->n && (!w->n || !memcmp(v->data, w->s, w->n)), "string back from %s", t); else if (w->k == 'f') { memcpy(&g, v->data, 8); mc_check(ty == RRR_TYPE_FIXP && g - w->u[0] + 1 <= 2, "fixp back from %s", t); } else mc_check(ty == RRR_TYPE_H && v->definition->to_64(v) == w->u[0], "integer back from %s", t);
			v = v->ptr_next; }
		rrr_array_clear(&back);
	}
	jfree(j); rrr_free(t); rrr_array_clear(&a); rrr_map_clear(&m);
}
/* the functions used for logging */
static void objects (void) {
	static const char *const ks[] = { "a", "b", "x\"" }, *const vs[] = { "", "v", "q\"\\\n", "t\r\n", "\n\n", "%s%d", "\xc3\xa6" }; static const char *const in[] = { "{}", "{\"a\":1}", "{\"z\":[1,{\"y\":null}],\"a\":\"old\"}", "[]", "1", "{\"a\"", "", "null", "{\"a\":1}}" };
	int w = mc_choose(9, "input"), n = mc_choose(4, "sets"); struct rrr_json_object *o = (void *) 1; char *b = malloc(strlen(in[w]) + 1); memcpy(b, in[w], strlen(in[w])); int r = rrr_json_object_parse_nolog(&o, b, (int) strlen(in[w])); free(b);
	if (w >= 3 && w < 8) { mc_check(r != 0 && o == NULL, "%s is accepted", in[w]); return; }
	if (w == 8) { if (r == 0) rrr_json_object_destroy(o); return; }
	mc_check(r == 0 && o, "%s is refused", in[w]); const char *last[3] = { 0 }; char buf[3][40]; struct rrr_map m = { 0 }; int order[3], no = 0;
	for (int i = 0; i < n; i++) { int k = mc_choose(3, "key"), v = mc_choose(7, "value"), how = mc_choose(3, "set|trim|format"); strcpy(buf[k], vs[v]); if (how == 0) rrr_json_object_set_nolog(o, ks[k], vs[v]); else if (how == 1) { rrr_json_object_set_nolog_trim(o, ks[k], vs[v]); size_t l = strlen(buf[k]); while (l && (buf[k][l - 1] == '\n' || buf[k][l - 1] == '\r')) buf[k][--l] = 0; } else { rrr_json_object_set_f_nolog(o, ks[k], "%d-%s", i, vs[v]); sprintf(buf[k], "%d-%s", i, vs[v]); } last[k] = buf[k]; }
	char *t = NULL; rrr_json_from_object_nolog(&t, o); J *j = parse(t, strlen(t)); mc_check(j && j->t == 'o', "not JSON: %s", t); int c = 0;
	for (J *x = j->first; x; x = x->next, c++) { int k = !strcmp(x->key, "a") ? 0 : !strcmp(x->key, "b") ? 1 : !strcmp(x->key, "x\"") ? 2 : -1; if (k >= 0 && last[k]) mc_check(x->t == 's' && !strcmp(x->s, last[k]), "value of %s in %s", ks[k], t); else mc_check(w == 2 ? (k == 0 ? x->t == 's' && !strcmp(x->s, "old") : x->t == 'a') : w == 1 && k == 0 && x->t == 'i' && x->i == 1, "unexpected value in %s", t); }
	int e = w == 2 ? 2 : w == 1; for (int k = 0; k < 3; k++) if (last[k] && !(k == 0 && w)) e++;
	mc_check(c == e, "%d members instead of %d in %s", c, e, t); jfree(j); rrr_free(t); rrr_json_object_destroy(o);
	for (int k = 0; k < 3; k++) if (last[k]) { mc_check(rrr_map_item_add_new(&m, ks[k], last[k]) == 0, "map"); order[no++] = k; }
	rrr_json_from_map_nolog(&t, &m); j = parse(t, strlen(t)); mc_check(j && j->t == 'o', "not JSON: %s", t); c = 0; for (J *x = j->first; x; x = x->next, c++) mc_check(c < no && !strcmp(x->key, ks[order[c]]) && x->t == 's' && !strcmp(x->s, last[order[c]]), "map in %s", t); mc_check(c == no, "map in %s", t); jfree(j); rrr_free(t); rrr_map_clear(&m); mc_obs((uint64_t) c);
}
static const struct mc_scenario sc[] = {
	{ "scalars", scalars, -1, -1, MC_LEAKCHECK, NULL },
	{ "range", range, -1, -1, MC_LEAKCHECK, NULL },
	{ "bytes", bytes, -1, -1, MC_LEAKCHECK, NULL },
	{ "tokens", tokens, -1, -1, MC_LEAKCHECK, NULL },
	{ "nested", nested, -1, -1, MC_LEAKCHECK, NULL },
	{ "deep", deep, -1, -1, MC_LEAKCHECK, NULL },
	{ "from", from, -1, -1, MC_LEAKCHECK, NULL },
	{ "objects", objects, -1, -1, MC_LEAKCHECK, NULL },
};
int main (int c, char **v) { return mc_main(c, v, "C25", sc, (int) (sizeof sc / sizeof *sc)); }
