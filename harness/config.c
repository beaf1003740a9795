// FLAVOR: asan
/* C26: configuration text, typed settings, command line and environment file against independent readers. */
#include "mc.h"
#include <ctype.h>
#include <errno.h>
#include "lib/rrr_types.h"
#include "lib/allocator.h"
#include "lib/settings.h"
#include "lib/configuration.h"
#include "lib/instance_config.h"
#include "lib/array_tree.h"
#include "lib/discern_stack.h"
#include "lib/map.h"
#include "lib/environment_file.h"
#include "lib/cmdlineparser/cmdline.h"
#include "lib/util/readfile.h"

#define MAXS 8
#define MAXK 6
struct sect { char name[8], sub[8]; int has_sub, nk; char k[MAXK][8], v[MAXK][16]; };
struct doc { int ns; struct sect s[MAXS]; };

static int isname (int c) { return isalnum(c) || c == '_' || c == '-'; }
static int isnl (int c) { return c == '\r' || c == '\n'; }
static int isst (int c) { return c == ' ' || c == '\t'; }

/* reference reader: 0 refused, 1 accepted, 2 layout which the manual does not describe (line break within a definition) */
static int ref_read (const char *t, size_t n, struct doc *d) {
	size_t p = 0; int und = 0; struct sect *s = NULL; memset(d, 0, sizeof *d);
	#define SK(cond) while (p < n && (cond)) p++
	#define SKN() while (p < n && (isst(t[p]) || isnl(t[p]))) { if (isnl(t[p])) und = 1; p++; }
	#define NAME(dst) do { size_t l = 0; SKN(); while (p < n && isname((unsigned char) t[p])) { if (l < sizeof dst - 1) dst[l++] = t[p]; p++; } if (!l) return 0; dst[l] = 0; SKN(); } while (0)
	for (;;) {
		SK(isst(t[p]) || isnl(t[p]));
		if (p == n) break;
		if (t[p] == '#') { if (p + 1 == n && !s) und = 1; SK(!isnl(t[p])); continue; }
		if (t[p] == '[') {
			if (d->ns == MAXS) mc_error("too many sections"); s = &d->s[d->ns++]; p++;
			NAME(s->name);
			if (p < n && t[p] == '[') { p++; NAME(s->sub); if (p >= n || t[p++] != ']') return 0; SKN(); s->has_sub = 1; }
			if (p >= n || t[p++] != ']') return 0;
			if (p == n) return 0;   /* nothing, not even a line break, follows the section name */
			for (int i = 0; i < d->ns - 1; i++) if (!strcmp(d->s[i].name, s->name) && d->s[i].has_sub == s->has_sub && !strcmp(d->s[i].sub, s->sub)) return 0;
			continue;
		}
		if (!s || !isname((unsigned char) t[p])) return 0;
		if (s->nk == MAXK) mc_error("too many keys");
		char *k = s->k[s->nk], *v = s->v[s->nk]; size_t l = 0;
		while (p < n && isname((unsigned char) t[p])) { if (l < 7) k[l++] = t[p]; p++; } k[l] = 0;
		SKN(); if (p >= n || t[p++] != '=') return 0;
		SK(isst(t[p])); size_t b = p; SK(!isnl(t[p])); size_t e = p; while (e > b && isst(t[e - 1])) e--;
		if (e == b) return 0;
		if (e - b > 15) mc_error("value"); memcpy(v, t + b, e - b); v[e - b] = 0;
		for (int i = 0; i < s->nk; i++) if (!strcmp(s->k[i], k)) return 0;
		s->nk++;
	}
	for (int i = 0; i < d->ns; i++) if (d->s[i].has_sub) { int ok = 0; for (int j = 0; j < d->ns; j++) if (!d->s[j].has_sub && !strcmp(d->s[j].name, d->s[i].name)) ok = 1; if (!ok) return 0; }
	return und ? 2 : 1;
}
static struct rrr_instance_config_collection *parse (const char *t, size_t n) {
	char *x = malloc(n ? n : 1); memcpy(x, t, n); struct rrr_instance_config_collection *c = (void *) 1;
	int r = rrr_instance_config_parse_string(&c, x, (rrr_length) n); mc_step();
	free(x);
	if (r != 0) { mc_check(c == NULL, "a result was given along with an error"); return NULL; }
	mc_check(c != NULL, "no result"); return c;
}
static void compare (struct rrr_instance_config_collection *c, const struct doc *d, const char *t) {
	int i = 0;
	RRR_LL_ITERATE_BEGIN(c, struct rrr_instance_config_data);
		mc_check(i < d->ns, "more sections than written in: %s", t);
		const struct sect *s = &d->s[i++];
		mc_check(!strcmp(node->name_main, s->name), "section is %s, not %s", node->name_main, s->name);
		mc_check(s->has_sub == (node->sub_name != NULL) && (!s->has_sub || !strcmp(node->sub_name, s->sub)), "sub section name of %s differs", s->name);
		mc_check((int) node->settings->settings_count == s->nk, "%s has %u settings, not %d", s->name, node->settings->settings_count, s->nk);
		for (int k = 0; k < s->nk; k++) { char *v = NULL; mc_check(rrr_settings_get_string_noconvert(&v, NULL, node->settings, s->k[k]) == 0, "setting %s not found", s->k[k]); mc_check(!strcmp(v, s->v[k]), "setting %s is '%s', not '%s'", s->k[k], v, s->v[k]); rrr_free(v); }
		/* parents and order of sub sections */
		if (s->has_sub) mc_check(node->sub_parent && node->sub_parent->sub_name == NULL && !strcmp(node->sub_parent->name_main, s->name), "sub section has wrong parent");
		else {
			mc_check(node->sub_parent == NULL, "main section has a parent");
			struct rrr_instance_config_data *x = node->sub_next;
			for (int j = 0; j < d->ns; j++) if (d->s[j].has_sub && !strcmp(d->s[j].name, s->name)) { mc_check(x && !strcmp(x->sub_name, d->s[j].sub) && !strcmp(x->name_main, s->name), "sub sections of %s differ", s->name); x = x->sub_next; }
			mc_check(x == NULL, "section %s has too many sub sections", s->name);
		}
	RRR_LL_ITERATE_END();
	mc_check(i == d->ns, "%d sections, not %d in: %s", i, d->ns, t);
}
static void check_text (const char *t, size_t n) {
	struct doc d; int r = ref_read(t, n, &d); struct rrr_instance_config_collection *c = parse(t, n);
	mc_obs((uint64_t) (r * 2 + (c != NULL)));
	if (r == 1 && !c) mc_fail("a valid configuration was refused");
	if (r == 0 && c) mc_fail("a malformed configuration was accepted");
	if (c && r == 1) compare(c, &d, t);
	if (c) rrr_instance_config_collection_destroy(c);
}
static void text (void) {
	static const char tok[] = "[]ab=#\n\r 1\t";
	int th = mc_tier(), max = th ? 7 : 6, nt = th ? 11 : 10;
	static const char *const pre[] = { "", "[a]\n", "[a]\nk=v", "[a[b]]", "[a]\n#" };
	int pi = mc_choose(5, "prefix"); char t[64]; strcpy(t, pre[pi]); size_t n = strlen(t); if (pi) max--;
	for (int i = 0; i < max; i++) { int c = mc_choose(nt + 1, "char"); if (c == nt) break; t[n++] = tok[c]; }
	t[n] = 0; check_text(t, n);
}
/* every arrangement of whole lines, with all line endings and comments */
static void lines (void) {
	static const char *const item[] = { "[a]", "[b]", "[a[b]]", "[a[c]]", "[b[a]]", "k=v", " \tl \t=\t v w \t", "k=#v", "# x=[", "", " ", "k-_1=v=w", "x", "=x", "[ a [ d ] ]", "]" };
	static const char *const eol[] = { "\n", "\r\n", "\r" };
	int th = mc_tier(), N = (int) (sizeof item / sizeof *item); char t[256] = ""; const char *e = eol[mc_choose(3, "eol")];
	int last = mc_bool("newline at end"), max = th ? 5 : 4;
	for (int i = 0; i < max; i++) { int c = mc_choose(N + 1, "line"); if (c == N) break; if (i) strcat(t, e); strcat(t, item[c]); }
	if (last) strcat(t, e);
	check_text(t, strlen(t));
}
/* ---- definitions in front of, between and after sections ---- */
static void defs (void) {
	static const char *const item[] = { "{t}\nfixp#q;\n", "{u}\nbe2#a,str#b;", "<r>\nTRUE D x APPLY POP\n", "(m)\nTRUE D x APPLY POP", "[a]\nk={t}\n", "[b]\nk=v\n", "#c\n", "{}\nfixp;\n", "()", "<>\n", "{", "(", "<", "{t", "(m", "<r", "[", "[]", "[]\n", "[a[]]\n", "{x}", "(x)", "<x>", "{ v }str#s;" };
	int N = (int) (sizeof item / sizeof *item), max = mc_tier() ? 4 : 3; char t[256] = ""; int seq[8], n = 0;
	for (int i = 0; i < max; i++) { int c = mc_choose(N + 1, "item"); if (c == N) break; seq[n++] = c; strcat(t, item[c]); }
	int bad = 0, und = 0, nr = 0, nm = 0, na = 0, nb = 0, nt = 0; const char *tn[8];
	for (int i = 0; i < n; i++) switch (seq[i]) {
		case 0: tn[nt++] = "t"; break; case 1: tn[nt++] = "u"; break; case 23: tn[nt++] = "v"; break;
		case 2: nr++; break; case 3: nm++; if (i + 1 < n && seq[i + 1] >= 4) und = 1; else if (i + 1 < n) und = 1; break;
		case 4: na++; break; case 5: nb++; break; case 6: break;
		case 21: case 22: if (i + 1 < n && seq[i + 1] == 6) und = 1; bad = 1; break;   /* a definition with no program but a comment: not decided */
		default: bad = 1;
	}
	if (nr > 1 || nm > 1 || na > 1 || nb > 1) bad = 1;
	struct rrr_instance_config_collection *c = parse(t, strlen(t));
	mc_obs((uint64_t) (c != NULL));
	if (c && und == 0) {
		mc_check(!bad, "malformed or duplicate definitions were accepted: %s", t);
		int i = 0; RRR_LL_ITERATE_BEGIN(rrr_config_get_array_tree_list(c->config), const struct rrr_array_tree); mc_check(i < nt && !strcmp(node->name, tn[i]), "array definition name"); i++; RRR_LL_ITERATE_END(); mc_check(i == nt, "array definitions");
		mc_check(RRR_LL_COUNT(rrr_config_get_routes(c->config)) == nr && RRR_LL_COUNT(rrr_config_get_methods(c->config)) == nm, "route or method definitions");
		mc_check((rrr_discern_stack_collection_get(rrr_config_get_routes(c->config), "r") != NULL) == nr && (rrr_discern_stack_collection_get(rrr_config_get_methods(c->config), "m") != NULL) == nm, "names of route or method definitions");
		mc_check(RRR_LL_COUNT(c) == na + nb, "sections");
	}
	if (!c && !bad && !und) mc_fail("valid definitions were refused");
	if (c) rrr_instance_config_collection_destroy(c);
}
/* ---- typed reads ---- */
static struct rrr_instance_config_collection *one (const char *v) { char t[512]; snprintf(t, sizeof t, "{t}be1#x;\n{u}be2#y;\n<r>TRUE D x APPLY POP\n<s>TRUE D y APPLY POP\n[a]\nk=%s\n", v); struct rrr_instance_config_collection *c = parse(t, strlen(t)); mc_check(c && RRR_LL_COUNT(c) == 1, "value '%s' was refused", v); return c; }
static int ref_uint (const char *v, unsigned long long *o) {
	unsigned __int128 x = 0; if (!*v) return 0;
	for (; *v; v++) { if (!isdigit((unsigned char) *v)) return 0; x = x * 10 + (unsigned) (*v - '0'); if (x > UINT64_MAX) return 0; }
	*o = (unsigned long long) x; return 1;
}
static void values (const char *v) {
	struct rrr_instance_config_collection *c = one(v); struct rrr_instance_config_data *a = RRR_LL_FIRST(c);
	unsigned long long ref = 0; int ok = ref_uint(v, &ref); int r;
	rrr_setting_uint u = 77; r = rrr_settings_read_unsigned_integer(&u, &a->settings_used, a->settings, "k"); mc_step();
	mc_check((r == 0) == ok, "unsigned integer '%s' %s", v, r ? "was refused" : "was accepted"); if (ok) mc_check(u == ref, "'%s' was read as %llu", v, (unsigned long long) u);
	mc_check(r != RRR_SETTING_NOT_FOUND, "existing setting not found");
	int dots = 0, dig = 0, okd = 1; for (const char *q = v; *q; q++) { if (*q == '.') dots++; else if (isdigit((unsigned char) *q)) dig++; else okd = 0; } okd = okd && dots <= 1 && dig > 0;
	rrr_setting_double d = 77; r = rrr_settings_read_double(&d, &a->settings_used, a->settings, "k"); mc_step();
	mc_check((r == 0) == okd, "decimal number '%s' %s", v, r ? "was refused" : "was accepted"); if (okd) mc_check(d == (rrr_setting_double) strtod(v, NULL), "'%s' was read as %Lf", v, d);
	uint16_t port = 77; r = rrr_instance_config_read_port_number(&port, a, "k"); mc_check((r == 0) == (ok && ref >= 1 && ref <= 65535), "port '%s' %s", v, r ? "was refused" : "was accepted"); if (r == 0) mc_check(port == ref, "port is %u", port);
	port = 77; r = rrr_instance_config_read_optional_port_number(&port, a, "k"); mc_check((r == 0) == (ok && ref <= 65535), "optional port '%s' %s", v, r ? "was refused" : "was accepted"); if (r == 0) mc_check(port == ref, "port is %u", port);
	mc_check(rrr_instance_config_read_optional_port_number(&port, a, "m") == 0 && port == 0, "missing optional port"); mc_check(rrr_instance_config_read_port_number(&port, a, "m") != 0, "missing port"); 
	int y = 7; r = rrr_settings_check_yesno(&y, &a->settings_used, a->settings, "k"); int f = tolower((unsigned char) *v);
	int known = !strcasecmp(v, "y") || !strcasecmp(v, "yes") || !strcmp(v, "1") ? 1 : !strcasecmp(v, "n") || !strcasecmp(v, "no") || !strcmp(v, "0") ? 0 : f == 'y' || f == 'n' || f == '0' || f == '1' ? -2 : -1;
	if (known >= 0) mc_check(r == 0 && y == known, "yes/no value '%s' was read as %d", v, r ? -1 : y); if (known == -1) mc_check(r != 0, "'%s' was accepted as yes or no", v);
	mc_check(rrr_settings_check_yesno(&y, &a->settings_used, a->settings, "m") == RRR_SETTING_NOT_FOUND && y == -1, "missing yes/no");
	char *s = NULL; mc_check(rrr_settings_read_string(&s, &a->settings_used, a->settings, "k") == 0 && !strcmp(s, v), "string"); rrr_free(s);
	int cmp = 5; mc_check(rrr_settings_cmpto(&cmp, &a->settings_used, a->settings, "k", v) == 0 && cmp == 0, "comparison"); mc_obs((uint64_t) u);
	/* command line conversions share the rules; signs, spaces and prefixes accepted by the C library are not decided */
	uint64_t x = 0; r = cmd_convert_uint64_10(v, &x); if (ok) mc_check(r == 0 && x == ref, "cmd_convert_uint64_10(%s)", v); else if (*v != '+' && *v != ' ') mc_check(r != 0, "cmd_convert_uint64_10 accepted '%s'", v);
	long l = 0; r = cmd_convert_integer_10(v, &l); const char *q = *v == '-' ? v + 1 : v; unsigned long long m = 0; int okl = ref_uint(q, &m) && (*v == '-' ? m <= (1ULL << 63) : m <= INT64_MAX);
	if (okl) mc_check(r == 0 && (*v == '-' ? (unsigned long long) l == 0 - m : (unsigned long long) l == m), "cmd_convert_integer_10(%s)", v); else if (*v != '+' && *v != ' ') mc_check(r != 0, "cmd_convert_integer_10 accepted '%s'", v);
	int okh = *v != 0, big = 0; unsigned __int128 h = 0; for (q = v; *q; q++) { if (!isxdigit((unsigned char) *q)) { okh = 0; break; } h = h * 16 + (unsigned) (isdigit((unsigned char) *q) ? *q - '0' : tolower(*q) - 'a' + 10); if (h > UINT64_MAX) big = 1; if (big) h = 0; }
	if (okh && !big) { mc_check(cmd_convert_hex_64(v, &x) == 0 && x == (uint64_t) h, "cmd_convert_hex_64(%s)", v); char b = 0; r = cmd_convert_hex_byte(v, &b); mc_check((r == 0) == (h <= 255) && (r || (unsigned char) b == (unsigned char) h), "cmd_convert_hex_byte(%s)", v); }
	else if (big || (*v != '+' && *v != ' ' && strncasecmp(v, "0x", 2))) { mc_check(cmd_convert_hex_64(v, &x) != 0, "cmd_convert_hex_64 accepted '%s'", v); char b; mc_check(*v == '-' || cmd_convert_hex_byte(v, &b) != 0, "cmd_convert_hex_byte accepted '%s'", v); }
	if (!ok) { float fl; if (!strcmp(v, ".") || !strcmp(v, "x")) mc_check(cmd_convert_float(v, &fl) != 0, "cmd_convert_float accepted '%s'", v); }
	rrr_instance_config_collection_destroy(c);
}
static void numbers (void) {
	if (mc_bool("limits")) {
		static const char *const base[] = { "18446744073709551615", "9223372036854775807", "65535", "4294967295", "255", "99999999999999999999999", "1844674407370955161", "3689348814741910323" };
		char v[64] = ""; int z = mc_choose(3, "zeros"); for (int i = 0; i < z; i++) strcat(v, "0"); int neg = mc_bool("minus"); if (neg) { memmove(v + 1, v, strlen(v) + 1); v[0] = '-'; }
		strcat(v, base[mc_choose(8, "base")]); if (mc_bool("more digits")) strcat(v, "0");
		for (int i = 0; i < 2; i++) { int dl = mc_choose(5, "delta") - 2; char *e = v + strlen(v) - 1 - i; if (*e + dl >= '0' && *e + dl <= '9') *e = (char) (*e + dl); else if (dl) mc_prune(); }
		if (mc_bool("fraction")) strcat(v, ".5");
		values(v); return;
	}
	static const char ch[] = "019.-+xayYnNeEosS "; char v[8]; int n = 0, max = mc_tier() ? 5 : 4;
	for (int i = 0; i < max; i++) { int c = mc_choose((int) strlen(ch) + (i > 0), "char"); if (c == (int) strlen(ch)) break; v[n++] = ch[c]; } v[n] = 0;
	if (v[0] == ' ' || v[n - 1] == ' ') mc_prune(); values(v);
}
static void none (void) {   /* empty strings never become numbers */
	uint64_t u; long l; char b; float f;
	mc_check(cmd_convert_uint64_10("", &u) && cmd_convert_integer_10("", &l) && cmd_convert_hex_64("", &u) && cmd_convert_hex_byte("", &b) && cmd_convert_float("", &f), "the empty string was accepted as a number"); mc_step();
	char big[400]; memset(big, '9', 399); big[399] = 0; struct rrr_instance_config_collection *c = one(big); struct rrr_instance_config_data *a = RRR_LL_FIRST(c); rrr_setting_double d; mc_check(rrr_settings_read_double(&d, &a->settings_used, a->settings, "k") != 0, "a decimal number out of range was accepted"); rrr_instance_config_collection_destroy(c);
}
/* ---- lists ---- */
struct lst { int n; char e[16][16]; };
static int lst_cb (const char *v, void *arg) { struct lst *l = arg; strcpy(l->e[l->n++], v); return 0; }
static void list (void) {
	static const char ch[] = "ab,="; char v[16]; int n = 0, max = mc_tier() ? 9 : 7; do { int c = mc_choose(4 + (n > 0), "char"); if (c == 4) break; v[n++] = ch[c]; } while (n < max); v[n] = 0;
	struct rrr_instance_config_collection *c = one(v); struct rrr_instance_config_data *a = RRR_LL_FIRST(c);
	struct lst ref = {0}, got = {0}; const char *s = v; while (*s) { size_t l = strcspn(s, ","); memcpy(ref.e[ref.n], s, l); ref.e[ref.n++][l] = 0; s += l; if (*s) s++; }
	mc_check(rrr_settings_traverse_split_commas(&a->settings_used, a->settings, "k", lst_cb, &got) == 0, "traverse"); mc_step();
	mc_check(got.n == ref.n, "%d elements, not %d in '%s'", got.n, ref.n, v); for (int i = 0; i < ref.n; i++) mc_check(!strcmp(got.e[i], ref.e[i]), "element %d is '%s'", i, got.e[i]);
	struct rrr_settings_list *sl = NULL; mc_check(rrr_settings_split_commas_to_array(&sl, &a->settings_used, a->settings, "k") == 0, "split"); mc_check((int) sl->length == ref.n, "array of %u elements, not %d", sl->length, ref.n); for (int i = 0; i < ref.n; i++) mc_check(!strcmp(sl->list[i], ref.e[i]), "array element %d is '%s'", i, sl->list[i]);
	rrr_free(sl->data); rrr_free(sl->list); rrr_free(sl);
	mc_check(rrr_settings_traverse_split_commas_silent_fail(&a->settings_used, a->settings, "m", lst_cb, &got) == 0 && rrr_settings_traverse_split_commas(&a->settings_used, a->settings, "m", lst_cb, &got) != 0 && got.n == ref.n, "missing list");
	struct rrr_map m = {0}; mc_check(rrr_instance_config_parse_comma_separated_to_map(&m, a, "k") == 0, "map"); int i = 0;
	RRR_MAP_ITERATE_BEGIN(&m); (void) node_value; mc_check(i < ref.n && !strcmp(node_tag, ref.e[i]), "map element %d is '%s'", i, node_tag); i++; RRR_MAP_ITERATE_END(); mc_check(i == ref.n, "map has %d elements, not %d", i, ref.n); rrr_map_clear(&m);
	rrr_instance_config_collection_destroy(c);
}
static void assoc (void) {   /* a=b,c=d */
	static const char ch[] = "ab,=>"; static const char *const dl[] = { "=", "->" , "=>" }; const char *D = dl[mc_choose(3, "delimiter")]; char v[16]; int n = 0, max = mc_tier() ? 8 : 7;
	do { int c = mc_choose(5 + (n > 0), "char"); if (c == 5) break; v[n++] = D[0] == '-' && ch[c] == '=' ? '-' : ch[c]; } while (n < max); v[n] = 0;
	struct rrr_instance_config_collection *c = one(v); struct rrr_instance_config_data *a = RRR_LL_FIRST(c); struct rrr_map m = {0};
	int bad = 0; struct lst rk = {0}, rv = {0}; const char *s = v;
	while (*s) { size_t l = strcspn(s, ","); char e[16]; memcpy(e, s, l); e[l] = 0; char *q = strstr(e, D); if (q) { *q = 0; strcpy(rv.e[rv.n++], q + strlen(D)); } else rv.e[rv.n++][0] = 0; strcpy(rk.e[rk.n++], e); if (!*e || (q && !*(q + strlen(D)))) bad = 1; s += l; if (*s) s++; }
	int r = rrr_instance_config_parse_comma_separated_associative_to_map(&m, a, "k", D); mc_step(); mc_obs((uint64_t) (r == 0));
	if (r == 0) { int i = 0; RRR_MAP_ITERATE_BEGIN(&m); mc_check(i < rk.n && !strcmp(node_tag, rk.e[i]), "key %d is '%s' in '%s'", i, node_tag, v); mc_check(!strcmp(node_value ? node_value : "", rv.e[i]), "value %d is '%s' in '%s'", i, node_value ? node_value : "", v); i++; RRR_MAP_ITERATE_END(); mc_check(i == rk.n, "map has %d elements, not %d", i, rk.n); }
	else mc_check(bad, "valid list '%s' was refused", v);
	rrr_map_clear(&m); rrr_instance_config_collection_destroy(c);
}
/* references to named definitions */
static void nm_cb (const char *v, void *arg) { struct lst *l = arg; strcpy(l->e[l->n++], v); }
static void refs (void) {
	static const char *const tok[] = { "{t}", "{u}", "{x}", ",", " ", "{", "}", "t", "<r>", "<s>", "<x>", ";", "str#z" , "{ t }"}; char v[64] = ""; int max = mc_tier() ? 5 : 4, k[8], n = 0, N = 14;
	do { int c = mc_choose(N + (n > 0), "token"); if (c == N) break; k[n++] = c; strcat(v, tok[c]); } while (n < max);
	if (v[0] == ' ' || v[strlen(v) - 1] == ' ') mc_prune();
	struct rrr_instance_config_collection *c = one(v); struct rrr_instance_config_data *a = RRR_LL_FIRST(c);
	struct rrr_array_tree *t = NULL; int r = rrr_instance_config_parse_array_tree_definition_from_config_silent_fail(&t, a, "k"); mc_step(); mc_obs((uint64_t) (r == 0));
	int f = 0; int named = k[f] == 0 || k[f] == 1 || k[f] == 2 || k[f] == 5 || k[f] == 13;
	if (named) { int ok = n == 1 && (k[0] == 0 || k[0] == 1 || k[0] == 13); if (n == 3 && k[0] == 5 && k[1] == 7 && k[2] == 6) ok = 1; int sp = 0; for (int i = 0; i < n; i++) if (k[i] == 4) sp = 1; if (!sp) mc_check((r == 0) == ok, "'%s' %s", v, r ? "was refused" : "was accepted"); else if (r == 0) for (int i = 0; i < n; i++) mc_check(k[i] == 0 || k[i] == 1 || k[i] == 13 || (k[i] >= 4 && k[i] <= 7), "'%s' was accepted", v); if (r == 0) mc_check(!strcmp(t->name, k[0] == 1 ? "u" : "t"), "wrong definition"); }
	if (r == 0 && !strcmp(v, "str#z")) mc_check(!strcmp(t->name, "-"), "anonymous definition name");
	if (!strcmp(v, "str#z") || !strcmp(v, "str#z;")) mc_check(r == 0, "valid definition '%s' refused", v);
	if (r == 0) rrr_array_tree_destroy(t); else mc_check(t == NULL, "definition given along with an error");
	struct rrr_discern_stack_collection ds = {0}; r = rrr_instance_config_parse_route_definition_from_config_silent_fail(&ds, a, "k");
	if (k[0] >= 8 && k[0] <= 10) {
		/* <n>{,<n>} with optional blanks */
		int ok = 1, want = 1, cnt = 0; const char *names[8]; for (int i = 0; i < n; i++) { if (k[i] == 4) continue; if (want) { if (k[i] != 8 && k[i] != 9) ok = 0; else { names[cnt++] = k[i] == 8 ? "r" : "s"; } want = 0; } else { if (k[i] != 3) ok = 0; want = 1; } if (!ok) break; } if (want) ok = 0;
		int dup = ok && cnt > 1 && !strcmp(names[0], names[1]);
		if (!dup) mc_check((r == 0) == ok, "route '%s' %s", v, r ? "was refused" : "was accepted");
		if (r == 0 && !dup) { struct lst l = {0}; mc_check(RRR_LL_COUNT(&ds) == cnt, "%d routes, not %d", RRR_LL_COUNT(&ds), cnt); rrr_discern_stack_collection_iterate_names(&ds, nm_cb, &l); mc_check(l.n == cnt, "names"); for (int i = 0; i < cnt; i++) mc_check(!strcmp(l.e[i], names[i]), "wrong route definition"); }
	}
	rrr_discern_stack_collection_clear(&ds); rrr_instance_config_collection_destroy(c);
}
/* ---- use of settings ---- */
static void used (void) {
	struct rrr_settings *s = rrr_settings_new(2); struct rrr_settings_used u = {0}; mc_check(rrr_settings_used_init(&u, s) == 0, "init");
	static const char *const nm[] = { "a", "b", "ab" }, *const val[] = { "1", "x" }; int cnt = 0, mu[2] = {0}, mt[2] = {0}; const char *mn[2] = {0}; int mv[2] = {0};
	int depth = mc_tier() ? 5 : 4;
	for (int i = 0; i < depth; i++) {
		int op = mc_choose(10, "op"); if (op == 9) break;
		int n = mc_choose(3, "name"), at = -1; for (int j = 0; j < cnt; j++) if (!strcmp(mn[j], nm[n])) at = j;
		mc_step();
		switch (op) {
		case 0: case 1: case 2: {
			int v = mc_choose(2, "value"), r = op == 0 ? rrr_settings_add_string(s, nm[n], val[v]) : op == 1 ? rrr_settings_replace_string(s, nm[n], val[v]) : rrr_settings_add_unsigned_integer(s, nm[n], (rrr_setting_uint) v + 5);
			int ok = at < 0 ? cnt < 2 : op == 1; mc_check((r == 0) == ok, "setting %s %s", nm[n], r ? "was refused" : "was accepted");
			if (ok) { if (at < 0) { at = cnt++; mn[at] = nm[n]; mu[at] = 0; } mt[at] = op == 2 ? 2 : 1; mv[at] = op == 2 ? v + 5 : v; } break; }
		case 3: { rrr_setting_uint x = 0; int r = rrr_settings_read_unsigned_integer(&x, &u, s, nm[n]); if (at < 0) mc_check(r == RRR_SETTING_NOT_FOUND, "not found"); else { mu[at] = 1; int want = mt[at] == 2 ? mv[at] : mv[at] == 0 ? 1 : -1; mc_check(want < 0 ? r != 0 && r != RRR_SETTING_NOT_FOUND : r == 0 && (int) x == want, "value of %s", nm[n]); } break; }
		case 4: { char *x = NULL; int r = rrr_settings_read_string(&x, &u, s, nm[n]); if (at < 0) mc_check(r == RRR_SETTING_NOT_FOUND && !x, "not found"); else { mu[at] = 1; char b[8]; snprintf(b, sizeof b, "%d", mv[at]); mc_check(r == 0 && !strcmp(x, mt[at] == 2 ? b : val[mv[at]]), "value of %s is %s", nm[n], x); } free(x); break; }
		case 5: mc_check(rrr_settings_exists(&u, s, nm[n]) == (at >= 0), "exists"); if (at >= 0) mu[at] = 1; break;
		case 6: rrr_settings_set_unused(&u, s, nm[n]); if (at >= 0) mu[at] = 0; break;
		case 7: { rrr_setting_double x = 0; int r = rrr_settings_read_double(&x, &u, s, nm[n]); if (at < 0) mc_check(r == RRR_SETTING_NOT_FOUND, "not found"); else { mu[at] = 1; int want = mt[at] == 2 ? mv[at] : mv[at] == 0 ? 1 : -1; mc_check(want < 0 ? r != 0 && r != RRR_SETTING_NOT_FOUND : r == 0 && (int) x == want, "value of %s", nm[n]); } break; }
		case 8: { struct rrr_settings *d = rrr_settings_copy(s); struct rrr_settings_used e = {0}; mc_check(d && rrr_settings_used_copy(&e, &u, s) == 0, "copy"); rrr_settings_destroy(s); rrr_settings_used_cleanup(&u); s = d; u = e; break; }
		}
		int all = 1; for (int j = 0; j < cnt; j++) if (!mu[j]) all = 0;
		mc_check((rrr_settings_check_all_used(s, &u) == 0) == all, "unused settings were %s", all ? "reported although all are used" : "not reported");
	}
	rrr_settings_used_cleanup(&u); rrr_settings_destroy(s);
}
static const char *pk_name; static size_t pk_n; static int pk_cb (const struct rrr_setting_packed *p, void *arg) {
	struct rrr_setting_packed q = *p; (void) arg; mc_check(!strcmp(q.name, pk_name) && q.data_size == pk_n + 1 && q.was_used == 1, "packed setting differs");
	rrr_settings_packed_prepare_for_network(&q); rrr_settings_packed_to_host(&q); mc_check(!memcmp(&q, p, sizeof q), "packed setting changed"); mc_check(rrr_settings_packed_validate(&q) == 0, "packed setting was refused"); mc_check(strlen(q.data) == pk_n, "data"); return 0;
}
static void packed (void) {
	static const int nl[] = { 1, 2, 100, 241, 242, 243, 244, 300 }, dl[] = { 1, 2, 1000, 1022, 1023, 1024, 1025 }; int n = nl[mc_choose(8, "name")], d = dl[mc_choose(7, "data")]; char name[512], data[2048]; memset(name, 'n', sizeof name); name[n] = 0; memset(data, 'd', sizeof data); data[d] = 0;
	struct rrr_settings *s = rrr_settings_new(2); struct rrr_settings_used u = {0}; mc_check(rrr_settings_used_init(&u, s) == 0, "init"); int r = rrr_settings_add_string(s, name, data); mc_step();
	mc_check((r == 0) == (n < RRR_SETTINGS_MAX_NAME_SIZE), "name of %d characters %s", n, r ? "was refused" : "was accepted");
	if (r == 0) { mc_check(rrr_settings_exists(&u, s, name), "not found"); pk_name = name; pk_n = (size_t) d; r = rrr_settings_iterate_packed(s, &u, pk_cb, NULL); mc_check((r == 0) == (d + 1 <= RRR_SETTINGS_MAX_DATA_SIZE), "data of %d characters", d); }
	rrr_settings_used_cleanup(&u); rrr_settings_destroy(s);
}
/* ---- command line ---- */
static const struct cmd_arg_rule rules[] = { { CMD_ARG_FLAG_NO_FLAG, '\0', "pos", "" }, { CMD_ARG_FLAG_HAS_ARGUMENT, 'a', "arg", "" }, { CMD_ARG_FLAG_HAS_ARGUMENT | CMD_ARG_FLAG_SPLIT_COMMA, 'l', "list", "" }, { CMD_ARG_FLAG_HAS_ARGUMENT | CMD_ARG_FLAG_ALLOW_EMPTY, 'e', "emp", "" }, { CMD_ARG_FLAG_NO_ARGUMENT, 'h', "help", "" }, { CMD_ARG_FLAG_NO_ARGUMENT, 'v', "ver", "" }, { CMD_ARG_FLAG_NO_FLAG_MULTI, '\0', "multi", "" }, { 0, '\0', NULL, NULL } };
struct rp { int rule, nv; char v[4][16]; };
static int ref_cmd (int argc, const char **argv, int nomulti, struct rp *out, int *nout) {   /* 1 accepted, 0 refused */
	int n = 0, end = 0, pos = 0;
	for (int i = 0; i < argc; i++) {
		const char *a = argv[i]; int rule = -1; const char *val = NULL;
		if (!end && !strcmp(a, "--")) { end = 1; continue; }
		if (!end && a[0] == '-') {
			int two = a[1] == '-'; const char *k = a + 1 + two, *eq = strchr(k, '='); size_t kl = eq ? (size_t) (eq - k) : strlen(k);
			if (kl == 0) return 0;
			if (two) { for (int r = 1; r < 6; r++) if (strlen(rules[r].longname) == kl && !memcmp(rules[r].longname, k, kl)) rule = r; if (rule < 0) return 0; }
			else {
				for (size_t j = 0; j < kl; j++) { int q = -1; for (int r = 1; r < 6; r++) if (rules[r].shortname == k[j]) q = r; if (q < 0) return 0; if (q < 4) { if (kl != 1) return 0; rule = q; } else { if (eq) return 0; out[n].rule = q; out[n++].nv = 0; } }
				if (rule < 0) continue;
			}
			if (rule >= 4) { if (eq) return 0; out[n].rule = rule; out[n++].nv = 0; continue; }
			if (eq) val = eq + 1; else { if (++i == argc) return 0; val = argv[i]; }
			if (!*val && rule != 3) return 0;
		}
		else { rule = pos++ == 0 ? 0 : 6; if (rule == 6 && nomulti) return 0; val = a; if (!*val) return 0; }
		out[n].rule = rule; out[n].nv = 0;
		if (rule == 2) { const char *s = val; while (*s) { size_t l = strcspn(s, ","); memcpy(out[n].v[out[n].nv], s, l); out[n].v[out[n].nv++][l] = 0; s += l; if (*s) s++; } }
		else strcpy(out[n].v[out[n].nv++], val);
		n++;
	}
	*nout = n; return 1;
}
static int it_cb (const char *v, void *arg) { struct lst *l = arg; strcpy(l->e[l->n++], v); return 0; }
static void args (void) {
	static const char *const tok[] = { "-h", "--help", "-hv", "-a", "x", "-a=y", "--arg", "--arg=z", "--arg=", "--", "-", "-ha", "", "--list", "p,q", "--list=r,,s", "-h=x", "--unk", "-z", "--multi", "-e", "--emp=", "--=x", "-=x", "--pos", "-l", "--help=1", "--ar", "--args", "a=b", "-vh=" };
	int N = (int) (sizeof tok / sizeof *tok), max = mc_tier() ? 5 : 4; const char *argv[8]; int argc = 0; argv[argc++] = "prog"; int cmd = mc_bool("command"), nomulti = mc_bool("no multi"); if (cmd) argv[argc++] = "cmd";
	int b = argc; for (int i = 0; i < max - (cmd || nomulti); i++) { int c = mc_choose(N + 1, "argument"); if (c == N) break; argv[argc++] = tok[c]; }
	struct cmd_arg_rule rl[8]; memcpy(rl, rules, sizeof rules); if (nomulti) memset(&rl[6], 0, sizeof rl[6]);
	struct rp ref[16]; int nr = 0, ok = ref_cmd(argc - b, argv + b, nomulti, ref, &nr);
	struct cmd_data d; cmd_init(&d, rl, argc, argv); fflush(stderr); int r = cmd_parse(&d, cmd ? CMD_CONFIG_COMMAND : CMD_CONFIG_DEFAULTS); mc_step();
	mc_obs((uint64_t) (r == 0)); mc_check((r == 0) == ok, "arguments were %s", r ? "refused" : "accepted");
	if (r == 0) {
		mc_check(!strcmp(d.program, "prog") && cmd_match(&d, cmd ? "cmd" : ""), "program or command");
		for (int q = 0; q < (nomulti ? 6 : 7); q++) {
			cmd_arg_count k = 0; struct lst want = {0}, got = {0}; int broken = 0;
			for (int i = 0; i < nr; i++) if (ref[i].rule == q) {
				mc_check(cmd_exists(&d, rules[q].longname, k), "%s number %lu is missing", rules[q].longname, k);
				for (int j = 0; j < ref[i].nv; j++) { const char *v = cmd_get_subvalue(&d, rules[q].longname, k, (cmd_arg_count) j); mc_check(v && !strcmp(v, ref[i].v[j]), "value %d of %s is %s, not %s", j, rules[q].longname, v ? v : "(none)", ref[i].v[j]); if (!broken) strcpy(want.e[want.n++], ref[i].v[j]); }
				if (!ref[i].nv) broken = 1;
				mc_check(cmd_get_subvalue(&d, rules[q].longname, k, (cmd_arg_count) ref[i].nv) == NULL, "%s has too many values", rules[q].longname); k++;
			}
			mc_check(!cmd_exists(&d, rules[q].longname, k) && cmd_get_value(&d, rules[q].longname, k) == NULL, "%s was given too many times", rules[q].longname);
			mc_check(cmd_iterate_subvalues_if_exists(&d, rules[q].longname, it_cb, &got) == 0 && got.n == want.n, "iterating %s", rules[q].longname); for (int i = 0; i < want.n; i++) mc_check(!strcmp(got.e[i], want.e[i]), "iterating %s", rules[q].longname);
		}
	}
	struct cmd_argv_copy *cp = NULL; cmd_get_argv_copy(&cp, &d); for (int i = 0; i < argc; i++) mc_check(!strcmp(cp->argv[i], argv[i]), "copy"); mc_check((int) cp->argc == argc && !cp->argv[argc], "copy"); cmd_destroy_argv_copy(cp);
	cmd_destroy(&d);
}
/* ---- environment file ---- */
static const char *env_t; static size_t env_n; int rrr_readfile_read (char **target, rrr_biglength *size, const char *fn, size_t max, int enoent_ok) { (void) fn; (void) max; (void) enoent_ok; *target = rrr_allocate(env_n ? env_n : 1); memcpy(*target, env_t, env_n); *size = env_n; return 0; }
static void env (void) {
	static const char ch[] = "A=#\n\r B\t"; char t[16]; size_t n = 0; int th = mc_tier(), max = th ? 8 : 7, N = th ? 8 : 7; for (int i = 0; i < max; i++) { int c = mc_choose(N + 1, "char"); if (c == N) break; t[n++] = ch[c]; } t[n] = 0;
	struct lst rk = {0}, rv = {0}; int bad = 0, und = 0;
	for (size_t p = 0; p < n && !bad;) {
		while (p < n && (isst(t[p]) || isnl(t[p]))) p++;
		if (p == n) break;
		size_t e = p; while (e < n && !isnl(t[e])) e++;
		if (t[p] == '#') { p = e; continue; }
		size_t q = p; while (q < e && t[q] != '=') q++;
		if (q == p) und = 1;
		size_t ke = q; while (ke > p && isst(t[ke - 1])) ke--; memcpy(rk.e[rk.n], t + p, ke - p); rk.e[rk.n++][ke - p] = 0;
		if (q == e) strcpy(rv.e[rv.n++], "1"); else { size_t vb = q + 1; while (vb < e && isst(t[vb])) vb++; size_t ve = e; while (ve > vb && isst(t[ve - 1])) ve--; if (ve == vb) bad = 1; memcpy(rv.e[rv.n], t + vb, ve - vb); rv.e[rv.n++][ve - vb] = 0; }
		p = e;
	}
	struct rrr_map m = {0}; env_t = t; env_n = n; int r = rrr_environment_file_parse(&m, "e"); mc_step(); mc_obs((uint64_t) (r == 0));
	if (!und) { mc_check((r == 0) == !bad, "environment file was %s", r ? "refused" : "accepted"); if (!r) { int i = 0; RRR_MAP_ITERATE_BEGIN(&m); mc_check(i < rk.n && !strcmp(node_tag, rk.e[i]) && !strcmp(node_value, rv.e[i]), "variable %d is %s=%s", i, node_tag, node_value); i++; RRR_MAP_ITERATE_END(); mc_check(i == rk.n, "%d variables, not %d", i, rk.n); } }
	rrr_map_clear(&m);
}
static void quiet (void) { mc_scratch(); }
static const struct mc_scenario sc[] = {
	{ "text", text, -1, -1, MC_LEAKCHECK, NULL }, { "lines", lines, -1, -1, MC_LEAKCHECK, NULL }, { "defs", defs, -1, -1, MC_LEAKCHECK, NULL },
	{ "numbers", numbers, -1, -1, MC_LEAKCHECK, NULL }, { "none", none, -1, -1, 0, NULL }, { "list", list, -1, -1, MC_LEAKCHECK, NULL }, { "assoc", assoc, -1, -1, MC_LEAKCHECK, NULL }, { "refs", refs, -1, -1, MC_LEAKCHECK, NULL },
	{ "used", used, -1, -1, MC_LEAKCHECK, NULL }, { "packed", packed, -1, -1, MC_LEAKCHECK, NULL }, { "args", args, -1, -1, MC_LEAKCHECK, NULL }, { "env", env, -1, -1, MC_LEAKCHECK, NULL },
};
int main (int c, char **v) { (void) quiet; return mc_main(c, v, "C26", sc, (int) (sizeof sc / sizeof *sc)); }
