// FLAVOR: asan
/* C13: URI, percent, form, quoted string and query encodings of the real HTTP library vs independent references */
#include "mc.h"
#include "lib/rrr_types.h"
#include "lib/allocator.h"
#include "lib/http/http_util.h"
#include "lib/http/http_fields.h"
#include "lib/http/http_part.h"
#include "lib/http/http_query_builder.h"
#include "lib/helpers/nullsafe_str.h"
#include "lib/helpers/string_builder.h"
#include "lib/array.h"
#include "lib/map.h"
#include <strings.h>
#include <ctype.h>

typedef struct { uint8_t b[700]; int n; } S;
static struct rrr_nullsafe_str *ns (const void *d, int n) {
	struct rrr_nullsafe_str *s = NULL; void *e = malloc((size_t) n + (n == 0)); memcpy(e, d, (size_t) n);
	mc_assert(rrr_nullsafe_str_new_or_replace_raw(&s, e, (rrr_nullsafe_len) n) == 0);
	free(e); return s;
}
static int get_cb (const void *s, rrr_nullsafe_len n, void *a) { S *o = a; o->n = (int) n; mc_check(n < sizeof o->b, "length %llu", (unsigned long long) n); memcpy(o->b, s, (size_t) n); return 0; }
static void get (S *o, const struct rrr_nullsafe_str *s) { o->n = 0; if (s && rrr_nullsafe_str_len(s)) rrr_nullsafe_str_with_raw_do_const(s, get_cb, o); }
static int eq (const S *a, const void *d, int n) { return a->n == n && !memcmp(a->b, d, (size_t) n); }
static int hexv (int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static int an (int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static int in (int c, const char *s) { return c && strchr(s, c) != NULL; }

/* all strings up to a length over an alphabet */
static int gen (uint8_t *d, const char *al, int k, int max) { int n = 0; while (n < max) { int c = mc_choose(k + 1, "char"); if (!c) break; d[n++] = (uint8_t) al[c - 1]; } return n; }
static const char *show (const uint8_t *d, int n) { static char b[4][200]; static int w; char *p = b[w++ & 3], *q = p; for (int i = 0; i < n && q < p + 180; i++) if (d[i] > 31 && d[i] < 127) *q++ = (char) d[i]; else q += sprintf(q, "\\x%02x", d[i]); *q = 0; return p; }

/* ---- percent encoding ---- */
static int ref_pct_dec (uint8_t *o, const uint8_t *d, int n, int plus) {
	int l = 0;
	for (int i = 0; i < n; i++) {
		if (d[i] == '%') { if (i + 2 >= n || hexv(d[i + 1]) < 0 || hexv(d[i + 2]) < 0) return -1; o[l++] = (uint8_t) (hexv(d[i + 1]) * 16 + hexv(d[i + 2])); i += 2; }
		else o[l++] = plus && d[i] == '+' ? ' ' : d[i];
	}
	return l;
}
static void pct_one (const uint8_t *d, int n) {
	struct rrr_nullsafe_str *s = ns(d, n), *e = NULL; S o; uint8_t back[300];
	mc_check(rrr_http_util_uri_encode(&e, s) == 0, "encode fails");
	get(&o, e);
	for (int i = 0; i < o.n; i++) mc_check(an(o.b[i]) || in(o.b[i], "-_.!~*'()%"), "'%s' was encoded to '%s' with illegal characters", show(d, n), show(o.b, o.n));
	int l = ref_pct_dec(back, o.b, o.n, 1);
	mc_check(l == n && !memcmp(back, d, (size_t) n), "'%s' was encoded to '%s'", show(d, n), show(o.b, o.n));
	if (n) { mc_check(rrr_http_util_urlencoded_string_decode(e) == 0, "decode fails"); get(&o, e); mc_check(eq(&o, d, n), "'%s' decodes to '%s'", show(d, n), show(o.b, o.n)); }
	rrr_nullsafe_str_destroy_if_not_null(&e); rrr_nullsafe_str_destroy_if_not_null(&s);
	mc_step();
}
static void pct (void) {
	uint8_t d[16];
	int a = mc_choose(257, "first");
	if (a == 256) { int n = gen(d, "%2g+&= \0a\x80", 10, mc_tier() ? 5 : 4); pct_one(d, n); return; }
	d[0] = (uint8_t) a; pct_one(d, 1);
	for (int b = 0; b < 256; b++) { d[1] = (uint8_t) b; pct_one(d, 2); }
}
static void pctdec (void) {
	uint8_t d[16], r[16]; S o;
	int n = gen(d, "%0aFg/+ \0", 9, mc_tier() ? 7 : 5);
	if (!n) return;
	struct rrr_nullsafe_str *s = ns(d, n);
	int ret = rrr_http_util_urlencoded_string_decode(s), l = ref_pct_dec(r, d, n, 0);
	get(&o, s);
	if (l < 0) mc_check(ret != 0, "invalid '%s' decodes to '%s'", show(d, n), show(o.b, o.n));
	else mc_check(ret == 0 && eq(&o, r, l), "'%s' decodes to '%s' (%d)", show(d, n), show(o.b, o.n), ret);
	mc_obs((uint64_t) (l + 1));
	rrr_nullsafe_str_destroy_if_not_null(&s);
	mc_step();
}

/* ---- forms ---- */
struct rf { uint8_t name[40], value[40]; int nn, vn; };
/* reference parser of form data; -1: refused */
static int ref_form (struct rf *f, const uint8_t *d, int n) {
	int i = 0, c = 0;
	while (i < n && in(d[i], " \t\r\n")) i++;
	int e = i; while (e < n && !in(d[e], " \t\r\n")) e++;
	while (i < e) {
		int st = i; while (i < e && d[i] != '&') i++;
		int en = i; i++;
		int q = st; while (q < en && d[q] != '=') q++;
		int has = q < en;
		uint8_t nm[40], vl[40];
		int nn = ref_pct_dec(nm, d + st, q - st, 1), vn = 0;
		if (nn < 0) return -1;
		if (has) {
			vn = ref_pct_dec(vl, d + q + 1, en - q - 1, 1);
			if (vn < 0) return -1;
			for (int k = q + 1; k < en; k++) if (d[k] == '=' && nn) return -1;
			if (!nn) { if (memchr(d + q + 1, '=', (size_t) (en - q - 1))) return -2; nn = vn; memcpy(nm, vl, (size_t) vn); vn = 0; }
		}
		if (!nn) continue;
		f[c].nn = nn; memcpy(f[c].name, nm, (size_t) nn); f[c].vn = vn; memcpy(f[c].value, vl, (size_t) vn); c++;
	}
	return c;
}
static int cur_ret, in_uri;
static void parse_form (struct rrr_http_part **p, const uint8_t *d, int n) {
	uint8_t u[400]; int l = 0;
	memcpy(u, "/x?", 3); memcpy(u + 3, d, (size_t) n); l = n + 3;
	mc_assert(rrr_http_part_new(p) == 0);
	(*p)->request_uri_nullsafe = ns(u, l);
	cur_ret = rrr_http_part_multipart_and_fields_process(*p, NULL, 0);
	(void) in_uri;
}
static void formdec (void) {
	uint8_t d[16]; struct rf f[20]; struct rrr_http_part *p = NULL; S o;
	int n = gen(d, mc_tier() ? "a=&%4+ \r" : "a=&%4+ ", mc_tier() ? 8 : 7, 6);
	parse_form(&p, d, n);
	int c = ref_form(f, d, n);
	if (c == -2) goto out; /* several equal signs with no name: no defined meaning */
	if (c < 0) mc_check(cur_ret != 0, "invalid form data '%s' accepted", show(d, n));
	else {
		mc_check(cur_ret == 0, "form data '%s' refused", show(d, n));
		int i = 0;
		RRR_LL_ITERATE_BEGIN(&p->fields, struct rrr_http_field);
			mc_check(i < c, "form data '%s' gives too many fields", show(d, n));
			get(&o, node->name); mc_check(eq(&o, f[i].name, f[i].nn), "form data '%s' field %d has name '%s'", show(d, n), i, show(o.b, o.n));
			get(&o, node->value); mc_check(eq(&o, f[i].value, f[i].vn), "form data '%s' field %d has value '%s'", show(d, n), i, show(o.b, o.n));
			i++;
		RRR_LL_ITERATE_END();
		mc_check(i == c, "form data '%s' gives %d fields instead of %d", show(d, n), i, c);
	}
	mc_obs((uint64_t) (c + 3));
	out:
	rrr_http_part_destroy(p);
	mc_step();
}
static const char *const FS[] = { "a", "", "=", "a&b", "%41", " +", "\0", "\0x", "x\0", "\xc3\xa6\xff", "a=b&c=d", "\r\n\t", "\"<>#?/\\", "  " };
static const int FL[] = { 1, 0, 1, 3, 3, 2, 1, 2, 2, 3, 7, 3, 7, 2 };
#define NF 14
static void form (void) {
	struct rrr_http_field_collection fc; memset(&fc, 0, sizeof fc);
	int c = mc_choose(mc_tier() ? 4 : 3, "fields"), nm[3], vl[3]; S o;
	for (int i = 0; i < c; i++) {
		nm[i] = mc_choose(i == 2 ? 8 : NF, "name"); vl[i] = mc_choose(i == 2 ? 8 : NF, "value");
		if (FL[nm[i]] == 0) nm[i] = 0;
		mc_assert(rrr_http_field_collection_add(&fc, FS[nm[i]], (rrr_length) FL[nm[i]], FS[vl[i]], (rrr_length) FL[vl[i]], NULL, 0, NULL) == 0);
	}
	struct rrr_nullsafe_str *e = NULL; struct rrr_http_part *p = NULL;
	mc_check(rrr_http_field_collection_to_urlencoded_form_data(&e, &fc) == 0, "encode");
	get(&o, e);
	for (int i = 0; i < o.n; i++) mc_check(an(o.b[i]) || in(o.b[i], "-_.!~*'()%&="), "illegal character in form data '%s'", show(o.b, o.n));
	parse_form(&p, o.b, o.n);
	mc_check(cur_ret == 0, "encoded form data '%s' refused", show(o.b, o.n));
	int i = 0; S v;
	RRR_LL_ITERATE_BEGIN(&p->fields, struct rrr_http_field);
		mc_check(i < c, "too many fields in '%s'", show(o.b, o.n));
		get(&v, node->name); mc_check(eq(&v, FS[nm[i]], FL[nm[i]]), "form data '%s' field %d name '%s'", show(o.b, o.n), i, show(v.b, v.n));
		get(&v, node->value); mc_check(eq(&v, FS[vl[i]], FL[vl[i]]), "form data '%s' field %d value '%s'", show(o.b, o.n), i, show(v.b, v.n));
		i++;
	RRR_LL_ITERATE_END();
	mc_check(i == c, "'%s': %d fields of %d", show(o.b, o.n), i, c);
	rrr_http_part_destroy(p); rrr_nullsafe_str_destroy_if_not_null(&e);
	rrr_http_field_collection_clear(&fc);
	mc_step();
}

/* ---- quoted strings ---- */
static void quote_one (const uint8_t *d, int n, int par) {
	char *e = malloc((size_t) n + (n == 0)); memcpy(e, d, (size_t) n);
	struct rrr_nullsafe_str *s = ns(d, n); S o;
	char b = par ? '(' : '"', z = par ? ')' : '"';
	char *q = mc_choose(2, "nullsafe") ? rrr_http_util_header_value_quote_nullsafe(s, b, z) : rrr_http_util_header_value_quote(e, (rrr_length) n, b, z);
	int ok = n > 0;
	for (int i = 0; i < n; i++) if (d[i] != '\t' && d[i] != '\r' && (d[i] < 32 || d[i] > 126)) ok = 0;
	if (!ok) mc_check(q == NULL, "'%s' was quoted", show(d, n));
	else {
		mc_check(q != NULL, "'%s' was not quoted", show(d, n));
		int l = (int) strlen(q), token = 1;
		for (int i = 0; i < l; i++) if (!an(q[i]) && !in(q[i], "!#$%&'*+-.^_`|~")) token = 0;
		if (!token) {
			mc_check(l >= 2 && q[0] == b, "'%s' was quoted as '%s'", show(d, n), q);
			int i = 1; while (i < l && q[i] != z) { if (q[i] == '\r') mc_fail("bare carriage return in quoted string"); if (q[i] == '\\') i++; i++; }
			mc_check(i == l - 1, "'%s' was quoted as '%s'", show(d, n), show((uint8_t *) q, l));
		}
		rrr_nullsafe_str_destroy_if_not_null(&s);
		s = ns(q, l);
		mc_check(rrr_http_util_unquote_string(s) == 0, "unquote");
		get(&o, s);
		mc_check(eq(&o, d, n), "'%s' was quoted as '%s' and unquoted as '%s'", show(d, n), show((uint8_t *) q, l), show(o.b, o.n));
		rrr_free(q);
	}
	rrr_nullsafe_str_destroy_if_not_null(&s); free(e);
	mc_step();
}
static void quote (void) {
	uint8_t d[16]; int par = mc_bool("parenthesis"), n;
	if (mc_bool("all bytes")) { d[0] = (uint8_t) mc_choose(256, "byte"); n = 1; d[1] = 'b'; n += mc_bool("two"); }
	else n = gen(d, mc_tier() ? "a\"()\\\r /=\x80\n" : "a\"()\\\r /", mc_tier() ? 11 : 8, 5);
	quote_one(d, n, par);
}
/* unquoting of any string stays inside the string, never makes it longer, and leaves strings with no quotes as they are */
static void unquote (void) {
	uint8_t d[16]; S o; int n = gen(d, "a\"()\\b\r", 7, 6);
	if (!n) return;
	struct rrr_nullsafe_str *s = ns(d, n);
	mc_check(rrr_http_util_unquote_string(s) == 0, "unquote");
	get(&o, s);
	mc_check(o.n <= n, "longer");
	int special = 0; for (int i = 0; i < n; i++) if (in(d[i], "\"()\\")) special = 1;
	if (!special) mc_check(eq(&o, d, n), "'%s' unquoted as '%s'", show(d, n), show(o.b, o.n));
	rrr_nullsafe_str_destroy_if_not_null(&s);
	mc_step();
}

/* ---- query builder ---- */
static void query (void) {
	struct rrr_http_query_builder qb; struct rrr_array a; memset(&a, 0, sizeof a); a.version = 7;
	struct rrr_map cols; memset(&cols, 0, sizeof cols);
	static const char *const TAG[] = { "t", "a b", "a=b,c", "q\"" };
	int dq = mc_bool("quotes"), nv = 1 + mc_choose(mc_tier() ? 3 : 2, "values"), first = mc_bool("no separator on first"), bycol = mc_bool("columns");
	uint8_t d[3][8]; int dn[3], ty[3], tg[3], bad = 0;
	for (int i = 0; i < nv; i++) {
		ty[i] = mc_choose(4, "type"); tg[i] = mc_choose(i ? 2 : 4, "tag") ;
		if (i && tg[i] == tg[0]) tg[i] = 2 + i - 1;
		if (ty[i] == 0) { dn[i] = gen(d[i], i ? "a\"\\" : dq ? "a\"\\, =\n\0" : "a\", =\n\0", i ? 3 : dq ? 8 : 7, i ? 2 : 3); if (!dq) for (int k = 0; k < dn[i]; k++) if (d[i][k] == '\\') mc_prune(); for (int k = 0; k < dn[i]; k++) if (!d[i][k]) bad = 1;
			char *x = malloc(10); memcpy(x, d[i], (size_t) dn[i]);
			if (dn[i] == 0) { free(x); mc_prune(); }
			mc_assert(rrr_array_push_value_blob_with_tag_with_size(&a, TAG[tg[i]], x, (rrr_length) dn[i]) == 0); free(x); }
		else if (ty[i] == 1) { mc_assert(rrr_array_push_value_u64_with_tag(&a, TAG[tg[i]], UINT64_MAX) == 0); dn[i] = sprintf((char *) d[i], "%s", "") ; }
		else if (ty[i] == 2) { mc_assert(rrr_array_push_value_i64_with_tag(&a, TAG[tg[i]], INT64_MIN) == 0); dn[i] = 0; }
		else { mc_assert(rrr_array_push_value_vain_with_tag(&a, TAG[tg[i]]) == 0); dn[i] = 0; }
		if (bycol) rrr_map_item_add_new(&cols, TAG[tg[i]], NULL);
	}
	for (int i = 0; i < nv; i++) for (int j = 0; j < i; j++) if (tg[i] == tg[j]) { rrr_array_clear(&a); rrr_map_clear(&cols); mc_prune(); return; }
	mc_assert(rrr_http_query_builder_init(&qb) == 0);
	int ret = rrr_http_query_builder_append_values_from_array(&qb, &a, &cols, "&", first, dq);
	if (bad) mc_check(ret != 0, "a value with NUL was added to the query '%s'", rrr_http_query_builder_buf_get(&qb));
	else {
		mc_check(ret == 0, "append fails");
		const char *p = rrr_http_query_builder_buf_get(&qb);
		int len = (int) rrr_http_query_builder_wpos_get(&qb);
		mc_check((int) strlen(p) == len, "length %d of query %s", len, p);
		const char *all = p;
		for (int i = 0; i < nv; i++) {
			if (i || !first) { mc_check(*p == '&', "separator %d missing in '%s'", i, all); p++; }
			const char *t = TAG[tg[i]];
			for (; *t; t++) { if (*p == '\\') p++; else mc_check(!in(*p, " ,=\""), "unescaped character in name in '%s'", all); mc_check(*p == *t, "name in '%s'", all); p++; }
			if (ty[i] == 3) { mc_check(*p == '&' || *p == 0, "value-less name in '%s'", all); continue; }
			mc_check(*p == '=', "'%s' no equal sign", all); p++;
			if (ty[i] == 1) { mc_check(!strncmp(p, "18446744073709551615", 20), "'%s' u64", all); p += 20; }
			else if (ty[i] == 2) { mc_check(!strncmp(p, "-9223372036854775808", 20), "'%s' i64", all); p += 20; }
			else {
				if (dq) { mc_check(*p == '"', "'%s' start quote", all); p++; }
				for (int k = 0; k < dn[i]; k++) { if (*p == '\\') p++; else mc_check(!in(*p, dq ? "\"" : " ,=\"\n"), "unescaped character in value in '%s'", all); mc_check(*p == (char) d[i][k], "value in '%s'", all); p++; }
				if (dq) { mc_check(*p == '"', "'%s' end quote", all); p++; }
			}
		}
		mc_check(*p == 0, "'%s' end", all);
		mc_obs_mem(all, (size_t) len > 12 ? 12 : (size_t) len);
	}
	rrr_http_query_builder_cleanup(&qb); rrr_array_clear(&a); rrr_map_clear(&cols);
	mc_step();
}

/* ---- URIs ---- */
static const char *const PROTO[] = { NULL, "", "http", "https", "ws", "wss", "HTTPS", "httpx", "wsx", "ftp", "htt" };
static const char *const HOST[] = { "", "a", "a-b.c", "-a", "1.2.3.4", "a_b", "a:b", "x-" };
static const char *const PORT[] = { "", ":", ":1", ":65535", ":65536", ":0", ":80x", ":18446744073709551617", ":443", ":00080" };
static const char *const EP[] = { "", "/", "/a?b=c", "/a//b", "/\"", "/a b", "/%41+", "/a@b:c;d=e,f$&", "/~!*'-_.", "#f", "/#", "/{", "?q", "/\x80", "/p?u=http://x" };
#define N(x) ((int) (sizeof x / sizeof *x))
static int refport (const char *p, int *bad) { unsigned long long v = 0; *bad = 0; if (!*p) return 0; p++; if (!*p) *bad = 1; for (; *p; p++) { if (*p < '0' || *p > '9') { *bad = 1; return 0; } v = v * 10 + (unsigned) (*p - '0'); if (v > 100000) v = 100000; } if (v < 1 || v > 65535) *bad = 1; return (int) v; }
static int hostbad (const char *h) { if (*h == '-') return 1; for (; *h; h++) if (!an(*h) && *h != '.' && *h != '-') return 1; return 0; }
static int epbad (const char *e) { for (; *e; e++) if (!an(*e) && !in(*e, "!#$%&'*+-._~" ";/?:@&=+$,")) return 1; return 0; }
static void uri (void) {
	int pi = mc_choose(N(PROTO), "protocol"), hi = mc_choose(N(HOST), "host"), po = mc_choose(N(PORT), "port"), ei = mc_choose(N(EP), "endpoint");
	char u[200], proto[20] = ""; int bad = 0, port = 0;
	const char *h = HOST[hi], *e = EP[ei];
	if (!PROTO[pi]) { if (hi || po) mc_prune(); strcpy(u, e); h = ""; }
	else {
		sprintf(u, "%s%s%s%s%s", PROTO[pi], *PROTO[pi] ? "://" : "//", h, PORT[po], e);
		for (int i = 0; PROTO[pi][i]; i++) { proto[i] = (char) tolower(PROTO[pi][i]); proto[i + 1] = 0; }
		if (*proto && strcmp(proto, "http") && strcmp(proto, "https") && strcmp(proto, "ws") && strcmp(proto, "wss")) bad = 1;
		int pb; port = refport(PORT[po], &pb); bad |= pb | hostbad(h);
		if (!*h && !*PORT[po] && !*e) bad = 1;
		if (*e && *e != '/') bad = 1;
		if (!port && *proto) port = !strcmp(proto, "https") || !strcmp(proto, "wss") ? 443 : 80;
	}
	bad |= epbad(e);
	if (!*u) return;
	struct rrr_nullsafe_str *s = ns(u, (int) strlen(u)); struct rrr_http_uri *r = NULL;
	int ret = rrr_http_util_uri_parse(&r, s);
	if (bad) mc_check(ret != 0, "invalid URI '%s' accepted as protocol %s host %s port %d endpoint %s", u, r ? r->protocol : "", r ? r->host : "", r ? r->port : 0, r ? r->endpoint : "");
	else {
		mc_check(ret == 0, "URI '%s' refused", u);
		mc_check(*proto ? r->protocol && !strcmp(r->protocol, proto) : !r->protocol, "URI '%s' protocol %s", u, r->protocol);
		mc_check(*h ? r->host && !strcmp(r->host, h) : !r->host, "URI '%s' host %s", u, r->host);
		mc_check(r->port == port, "URI '%s' port %u", u, r->port);
		mc_check(r->endpoint && !strcmp(r->endpoint, e), "URI '%s' endpoint %s", u, r->endpoint);
		struct rrr_http_uri_flags f; rrr_http_util_uri_flags_get(&f, r);
		mc_check(f.is_http == (proto[0] == 'h') && f.is_websocket == (proto[0] == 'w') && f.is_tls == (!strcmp(proto, "https") || !strcmp(proto, "wss")) && !f.is_quic, "URI '%s' flags", u);
		struct rrr_http_uri c; memset(&c, 0, sizeof c); c.endpoint = rrr_strdup("old");
		mc_check(rrr_http_util_uri_dup(&c, r) == 0 && (r->protocol ? c.protocol && !strcmp(c.protocol, r->protocol) : !c.protocol) && (r->host ? c.host && !strcmp(c.host, r->host) : !c.host) && c.endpoint && !strcmp(c.endpoint, e) && c.port == r->port, "copy of URI '%s'", u);
		/* prepend joins with exactly one slash */
		const char *pre = mc_choose(2, "prefix") ? "/p/" : "/p";
		char want[200]; sprintf(want, "/p/%s", *e == '/' ? e + 1 : e);
		mc_check(rrr_http_util_uri_endpoint_prepend(&c, pre) == 0 && !strcmp(c.endpoint, want), "'%s' before '%s' is '%s'", pre, e, c.endpoint);
		rrr_http_util_uri_clear(&c);
		rrr_http_util_uri_destroy(r);
	}
	mc_obs((uint64_t) bad);
	rrr_nullsafe_str_destroy_if_not_null(&s);
	mc_step();
}
static void hostport (void) {
	int hi = mc_choose(N(HOST), "host"), po = mc_choose(N(PORT), "port"), x = mc_choose(4, "extra");
	char u[100]; int bad, port = refport(PORT[po], &bad);
	sprintf(u, "%s%s%s%s", x == 1 ? "//" : x == 2 ? "http://" : "", HOST[hi], PORT[po], x == 3 ? "/" : "");
	bad |= hostbad(HOST[hi]) | (x != 0) | (port == 0);
	if (!*u) return;
	struct rrr_nullsafe_str *s = ns(u, (int) strlen(u)); struct rrr_http_uri r; memset(&r, 0, sizeof r);
	int ret = rrr_http_util_uri_host_parse(&r, s, RRR_HTTP_TRANSPORT_HTTPS, RRR_HTTP_APPLICATION_HTTP2);
	if (bad) mc_check(ret != 0, "'%s' accepted", u);
	else mc_check(ret == 0 && r.port == port && (*HOST[hi] ? r.host && !strcmp(r.host, HOST[hi]) : !r.host) && r.transport == RRR_HTTP_TRANSPORT_HTTPS && r.application_type == RRR_HTTP_APPLICATION_HTTP2, "'%s' parsed as %s %u", u, r.host, r.port);
	rrr_http_util_uri_clear(&r); rrr_nullsafe_str_destroy_if_not_null(&s);
	mc_step();
}
/* every string over the structural characters: nothing is read outside, accepted URIs reassemble to the input */
static void urifuzz (void) {
	uint8_t d[20]; int n = 0; static const char *const TK[] = { "http", "s", "ws", ":", "/", "8", "-", "?", "a", "#" };
	char u[60] = "";
	for (int max = mc_tier() ? 7 : 6; n < max; n++) { int c = mc_choose(11, "token"); if (!c) break; strcat(u, TK[c - 1]); }
	(void) d;
	if (!*u) return;
	struct rrr_nullsafe_str *s = ns(u, (int) strlen(u)); struct rrr_http_uri *r = NULL;
	int ret = rrr_http_util_uri_parse(&r, s);
	if (ret == 0) {
		char w[100] = "";
		int dbl = !strncmp(u, "//", 2);
		if (r->protocol) { strcat(w, r->protocol); strcat(w, "://"); } else if (dbl) strcat(w, "//");
		if (r->host) strcat(w, r->host);
		int l = (int) strlen(w);
		mc_check(!strncmp(u, w, (size_t) l), "URI '%s' parsed as protocol %s host %s port %u endpoint %s", u, r->protocol, r->host, r->port, r->endpoint);
		if (u[l] == ':' && (r->protocol || dbl)) { l++; mc_check(atoi(u + l) == r->port, "URI '%s' port %u", u, r->port); while (u[l] >= '0' && u[l] <= '9') l++; }
		mc_check(!strcmp(u + l, r->endpoint), "URI '%s' parsed as protocol %s host %s port %u endpoint %s", u, r->protocol, r->host, r->port, r->endpoint);
		rrr_http_util_uri_destroy(r);
	}
	struct rrr_http_uri h; memset(&h, 0, sizeof h);
	if (rrr_http_util_uri_host_parse(&h, s, 0, 0) == 0) { char w[100]; sprintf(w, "%s:", h.host ? h.host : ""); mc_check(!strncmp(u, w, strlen(w)) && atoi(u + strlen(w)) == h.port, "'%s' host and port", u); }
	rrr_http_util_uri_clear(&h);
	mc_obs((uint64_t) ret);
	rrr_nullsafe_str_destroy_if_not_null(&s);
	mc_step();
}
/* ---- endpoint and query string ---- */
static S ep, qs; static int cbs;
static int split_cb (const void *e, rrr_nullsafe_len el, const void *q, rrr_nullsafe_len ql, void *a) { (void) a; cbs++; get_cb(e, el, &ep); get_cb(q, ql, &qs); return 0; }
static int clean_cb (const void *e, rrr_nullsafe_len el, void *a) { (void) a; cbs++; get_cb(e, el, &ep); return 0; }
static void split (void) {
	uint8_t d[16], r[16]; int n = gen(d, "/?%2a#", 6, mc_tier() ? 7 : 6);
	if (!n) return;
	struct rrr_nullsafe_str *s = ns(d, n);
	int c = 0; while (c < n && d[c] != '?' && d[c] != '#') c++;
	cbs = 0; mc_check(rrr_http_util_uri_endpoint_clean(s, clean_cb, NULL) == 0 && cbs == 1 && eq(&ep, d, c), "'%s' cleaned to '%s'", show(d, n), show(ep.b, ep.n));
	int q = 0; while (q < n && d[q] != '?') q++;
	int l = ref_pct_dec(r, d, q, 0);
	cbs = 0; ep.n = qs.n = 0;
	int ret = rrr_http_util_uri_endpoint_and_query_string_split(s, split_cb, NULL);
	if (l < 0) mc_check(ret != 0 && !cbs, "'%s' split to '%s'", show(d, n), show(ep.b, ep.n));
	else mc_check(ret == 0 && cbs == 1 && eq(&ep, r, l) && eq(&qs, d + q + 1, q < n ? n - q - 1 : 0), "'%s' split to '%s' and '%s'", show(d, n), show(ep.b, ep.n), show(qs.b, qs.n));
	rrr_nullsafe_str_destroy_if_not_null(&s);
	mc_step();
}
/* ---- search and numbers ---- */
static void search (void) {
	uint8_t d[16]; int n = gen(d, "abA/", 4, mc_tier() ? 8 : 7);
	static const char *const ND[] = { "ab", "aab", "//", "a", "aba", "b/", "abab" };
	char *x = malloc((size_t) n + (n == 0)); memcpy(x, d, (size_t) n);
	for (int k = 0; k < N(ND); k++) {
		int nl = (int) strlen(ND[k]), at = -1;
		for (int i = 0; i + nl <= n && at < 0; i++) if (!strncasecmp(x + i, ND[k], (size_t) nl)) at = i;
		const char *p = NULL; rrr_length l = 0;
		int ret = rrr_http_util_strcasestr(&p, &l, x, x + n, ND[k]);
		mc_check(at < 0 ? ret != 0 : ret == 0 && p == x + at && (int) l == nl, "search for '%s' in '%s': %d at %d, expected %d", ND[k], show(d, n), ret, p ? (int) (p - x) : -1, at);
		mc_step();
	}
	free(x);
}
static void number (void) {
	static const char al[] = "019aFg -"; uint8_t d[30]; int n, base = mc_bool("hex") ? 16 : 10;
	int big = mc_choose(8, "long");
	static const char *const BIG[] = { "18446744073709551615", "18446744073709551616", "99999999999999999999", "ffffffffffffffff", "10000000000000000", "00000000000000000000001", "18446744073709551614" };
	if (big) { n = (int) strlen(BIG[big - 1]); memcpy(d, BIG[big - 1], (size_t) n); } else n = gen(d, al, 8, 5);
	char *x = malloc((size_t) n + (n == 0)); memcpy(x, d, (size_t) n);
	int l = 0; unsigned __int128 v = 0;
	while (l < n && (base == 10 ? d[l] >= '0' && d[l] <= '9' : hexv(d[l]) >= 0)) { v = v * (unsigned) base + (unsigned) hexv(d[l]); l++; }
	unsigned long long r = 77; rrr_length rl = 0;
	int ret = rrr_http_util_strtoull_raw(&r, &rl, x, x + n, base);
	if (!l || v > UINT64_MAX) mc_check(ret != 0, "'%s' accepted as number %llu", show(d, n), r);
	else mc_check(ret == 0 && r == (unsigned long long) v && (int) rl == l, "'%s' parsed as number %llu length %u", show(d, n), r, rl);
	free(x);
	mc_step();
}

static const struct mc_scenario sc[] = {
	{ "pct", pct, -1, -1, MC_LEAKCHECK, NULL },
	{ "pctdec", pctdec, -1, -1, MC_LEAKCHECK, NULL },
	{ "form", form, -1, -1, MC_LEAKCHECK, NULL },
	{ "formdec", formdec, -1, -1, MC_LEAKCHECK, NULL },
	{ "quote", quote, -1, -1, MC_LEAKCHECK, NULL },
	{ "unquote", unquote, -1, -1, MC_LEAKCHECK, NULL },
	{ "query", query, -1, -1, MC_LEAKCHECK, NULL },
	{ "uri", uri, -1, -1, MC_LEAKCHECK, NULL },
	{ "hostport", hostport, -1, -1, MC_LEAKCHECK, NULL },
	{ "urifuzz", urifuzz, -1, -1, MC_LEAKCHECK, NULL },
	{ "split", split, -1, -1, MC_LEAKCHECK, NULL },
	{ "search", search, -1, -1, 0, NULL },
	{ "number", number, -1, -1, 0, NULL },
};
int main (int c, char **v) { return mc_main(c, v, "C13", sc, sizeof(sc) / sizeof(*sc)); }
