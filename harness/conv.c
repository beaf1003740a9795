// FLAVOR: asan
/* C21: type conversion. Every source value of an alphabet x every list of up to three methods x every flag
 * combination, compared with an independent model of each method. */
#include "mc.h"
#include <inttypes.h>
#include "lib/rrr_types.h"
#include "lib/type.h"
#include "lib/type_conversion.h"
#include "lib/map.h"
#include "lib/allocator.h"

enum { H, HS, BLOB, STR, SEP, NSEP, STX, MSG, HDLC, VAIN, FIXP };
struct val { int t; int n; int len; unsigned char d[1024]; int any; /* numeric value is documented as undefined */ };

static const struct rrr_type_definition *def_of (int t) {
	switch (t) {
		case H: case HS: return &rrr_type_definition_h; case BLOB: return &rrr_type_definition_blob;
		case STR: return &rrr_type_definition_str; case SEP: return &rrr_type_definition_sep; case NSEP: return &rrr_type_definition_nsep;
		case STX: return &rrr_type_definition_stx; case MSG: return &rrr_type_definition_msg; case HDLC: return &rrr_type_definition_hdlc;
		case VAIN: return &rrr_type_definition_vain; default: return &rrr_type_definition_fixp;
	}
}
static int is_h (int t) { return t == H || t == HS; }
static int is_str (int t, int strict) { return t == STR || (!strict && (t == SEP || t == NSEP || t == STX)); }
static int is_blob (int t, int strict) { return t == BLOB || (!strict && (t == SEP || t == MSG || t == STR || t == NSEP || t == STX || t == HDLC)); }

static const char *names[] = { "h2str","h2vain","blob2str","blob2blob","blob2hex","str2str","str2blob","str2h","str2vain","msg2blob","vain2h","vain2str","hchar2str" };
static const int to[] = { STR, VAIN, STR, BLOB, STR, STR, BLOB, H, VAIN, BLOB, H, STR, STR };
#define NM 13

static uint64_t hv (const struct val *v, int i) { uint64_t x; memcpy(&x, v->d + 8 * i, 8); return x; }
/* decimal by hand */
static int dec (char *o, uint64_t x, int neg) {
	char t[24]; int n = 0, k = 0;
	do { t[n++] = (char) ('0' + x % 10); x /= 10; } while (x);
	if (neg) o[k++] = '-';
	while (n) o[k++] = t[--n];
	return k;
}
/* returns 0 = ok, 1 = not possible */
static int model (struct val *o, const struct val *s, int m, int sb, int ss) {
	int tt = to[m];
	if (s->t == tt || (is_h(s->t) && tt == H)) { *o = *s; return 0; }
	memset(o, 0, sizeof(*o));
	switch (m) {
		case 0: {
			if (!is_h(s->t)) return 1;
			o->t = STR; o->n = s->n; o->any = s->any;
			for (int i = 0; i < s->n; i++) {
				uint64_t x = hv(s, i); int neg = s->t == HS && (x >> 63);
				char b[32]; int l = dec(b, neg ? (uint64_t) 0 - x : x, neg);
				if (s->n > 1) { memset(o->d + o->len, ' ', (size_t) (20 - l)); o->len += 20 - l; }
				memcpy(o->d + o->len, b, (size_t) l); o->len += l;
			}
			return 0; }
		case 1: if (!is_h(s->t) || s->n > 1 || hv(s, 0) != 0) return 1; o->t = VAIN; o->n = 1; o->any = s->any; return 0;
		case 2: if (!is_blob(s->t, sb)) return 1; *o = *s; o->t = STR; return 0;
		case 3: if (!is_blob(s->t, sb)) return 1; *o = *s; o->t = BLOB; return 0;
		case 4: if (!is_blob(s->t, sb)) return 1; o->t = STR; o->n = s->n; o->any = s->any;
			for (int i = 0; i < s->len; i++) { o->d[o->len++] = (unsigned char) "0123456789abcdef"[s->d[i] >> 4]; o->d[o->len++] = (unsigned char) "0123456789abcdef"[s->d[i] & 15]; }
			return 0;
		case 5: if (!is_str(s->t, ss)) return 1; *o = *s; o->t = STR; return 0;
		case 6: if (!is_str(s->t, ss) || s->len == 0) return 1; *o = *s; o->t = BLOB; return 0;
		case 7: {
			if (!is_str(s->t, ss) || s->len == 0) return 1;
			int el = s->len / s->n, neg = 0;
			if (el > 64) return 1;
			for (int i = 0; i < s->len; i++) if (s->d[i] == '-') neg = 1;
			o->t = neg ? HS : H; o->n = s->n; o->len = 8 * s->n; o->any = s->any;
			for (int i = 0; i < s->n; i++) {
				const unsigned char *p = s->d + i * el, *e = p + el;
				while (p < e && *p == ' ') p++;
				int minus = 0, digits = 0;
				if (p < e && (*p == '+' || *p == '-')) minus = *p++ == '-';
				unsigned __int128 x = 0;
				while (p < e && *p >= '0' && *p <= '9') { if (x < ((unsigned __int128) 1 << 100)) x = x * 10 + (*p - '0'); p++; digits++; }
				if (!digits || p != e) return 1;
				/* documented: overflow is not handled */
				if (x > (neg ? (minus ? (unsigned __int128) 1 << 63 : ((unsigned __int128) 1 << 63) - 1) : (unsigned __int128) UINT64_MAX)) o->any = 1;
				uint64_t v = minus ? (uint64_t) 0 - (uint64_t) x : (uint64_t) x;
				memcpy(o->d + 8 * i, &v, 8);
			}
			return 0; }
		case 8: if (!is_str(s->t, ss) || s->n > 1 || s->len) return 1; o->t = VAIN; o->n = 1; return 0;
		case 9: if (s->t != MSG) return 1; *o = *s; o->t = BLOB; return 0;
		case 10: if (s->t != VAIN) return 1; o->t = H; o->n = 1; o->len = 8; return 0;
		case 11: if (s->t != VAIN) return 1; o->t = STR; o->n = 1; return 0;
		default:
			if (!is_h(s->t)) return 1;
			o->t = STR; o->n = 1; o->any = s->any;
			for (int i = 0; i < s->n; i++) { if (hv(s, i) > 255) return 1; o->d[o->len++] = (unsigned char) hv(s, i); }
			return 0;
	}
}

static struct rrr_type_value *make (const struct val *v, int tag, int refs) {
	struct rrr_type_value *r = NULL;
	if (rrr_type_value_new(&r, def_of(v->t), v->t == HS ? RRR_TYPE_FLAG_SIGNED : 0, tag ? 3 : 0, tag ? "tag" : NULL, 0, refs ? (char *) "ref" : NULL, (rrr_length) v->n, refs ? "cref" : NULL, (rrr_length) v->len) != 0)
		mc_error("value_new failed");
	if (v->len) memcpy(r->data, v->d, (size_t) v->len);
	return r;
}
static void same (const struct rrr_type_value *r, const struct val *o, int tag, const char *what) {
	mc_check(r->definition == def_of(o->t), "%s: result has type %s instead of %s", what, r->definition->identifier, def_of(o->t)->identifier);
	mc_check((int) r->element_count == o->n, "%s: %d elements instead of %d", what, (int) r->element_count, o->n);
	if (is_h(o->t) && !o->any) mc_check(!!(r->flags & RRR_TYPE_FLAG_SIGNED) == (o->t == HS), "%s: signedness is wrong", what);
	if (!is_h(o->t)) mc_check(r->flags == 0, "%s: flags %d", what, (int) r->flags);
	mc_check((tag ? 3 : 0) == (int) r->tag_length && (tag ? r->tag && !strcmp(r->tag, "tag") : r->tag == NULL || !*r->tag), "%s: tag has changed", what);
	if (o->any) return;
	mc_check((int) r->total_stored_length == o->len, "%s: length %d instead of %d", what, (int) r->total_stored_length, o->len);
	mc_check(o->len == 0 || !memcmp(r->data, o->d, (size_t) o->len), "%s: data is wrong: '%.*s' expected '%.*s'", what, o->len, r->data, o->len, o->d);
}

static const uint64_t nums[] = { 0, 1, 5, 255, 256, 65536, 0xffffffffULL, 0x7fffffffffffffffULL, 0x8000000000000000ULL, 0x8000000000000001ULL, 0xffffffffffffffffULL, 9999999999999999999ULL, 0x100000000000000ULL };
#define NN ((int) (sizeof(nums) / sizeof(*nums)))
static const char *strs[] = { "", "0", "7", "-1", "+5", " 42", "  0", "-0", "--1", "1-", "1 ", " ", "-", "+", "007", "12a", "0x1", "1,2", "18446744073709551615", "9223372036854775807", "-9223372036854775808",
	"18446744073709551616", "9223372036854775808", "-9223372036854775809", "+-1", "- 1", "1 2", "\t1", "\"", "\\", "\x80\xff", "12.5",
	"                                                             123", "                                                              1234", "0000000000000000000000000000000000000000000000000000000000000042", "00000000000000000000000000000000000000000000000000000000000000042" };
#define NS ((int) (sizeof(strs) / sizeof(*strs)))
/* equal sized elements */
static const struct { int n; const char *s; } multi[] = { {2, "12"}, {2, " 1-2"}, {2, "1a"}, {2, "0112"}, {3, "  1 22333"}, {2, "  -1   5"}, {2, "-118446744073709551615"}, {2, "00000000000000000001-0000000000000000002"}, {2, " 1  "}, {3, "1-2"}, {3, "ABC"}, {2, "AABB"},
	{2, "                   118446744073709551615"}, {2, "18446744073709551615                  -1"}, {2, "99999999999999999999                   1"} };
#define NMUL ((int) (sizeof(multi) / sizeof(*multi)))

static void gen (struct val *v) {
	memset(v, 0, sizeof(*v));
	v->t = mc_choose(11, "type");
	v->n = 1;
	if (is_h(v->t)) {
		v->n = 1 + mc_choose(3, "elements");
		v->len = 8 * v->n;
		for (int i = 0; i < v->n; i++) { uint64_t x = nums[mc_choose(i ? (mc_tier() ? NN : 4) : NN, "number") * (i && !mc_tier() ? 3 : 1)]; memcpy(v->d + 8 * i, &x, 8); }
	} else if (v->t == VAIN) { }
	else if (v->t == FIXP) { v->len = 8; v->d[2] = 1; }
	else {
		int k = mc_choose(NS + NMUL + 2, "data");
		if (k < NS) { v->len = (int) strlen(strs[k]); memcpy(v->d, strs[k], (size_t) v->len); if (!v->len && v->t != STR) { v->d[0] = 0; v->len = 1; } }
		else if (k < NS + NMUL) { v->n = multi[k - NS].n; v->len = (int) strlen(multi[k - NS].s); memcpy(v->d, multi[k - NS].s, (size_t) v->len); if (v->len % v->n) mc_error("bad alphabet %d", k); }
		else if (k == NS + NMUL) { v->len = 4; memcpy(v->d, "1\0\0002", 4); v->n = 2; }
		else { v->len = 16; for (int i = 0; i < 16; i++) v->d[i] = (unsigned char) (i * 17); }
	}
}

static void run (int maxlist) {
	struct val s; gen(&s);
	int flags = mc_choose(8, "flags");
	int n = mc_choose(maxlist + 1, "methods");
	int list[3];
	struct rrr_map map = {0};
	char what[128] = "";
	for (int i = 0; i < n; i++) {
		list[i] = mc_choose(NM, "method");
		if (rrr_map_item_add_new(&map, names[list[i]], NULL) != 0) mc_error("map");
		strcat(what, i ? "," : ""); strcat(what, names[list[i]]);
	}
	int tag = (s.len + n) & 1, refs = (flags & 1);
	struct rrr_type_conversion_collection *col = NULL;
	mc_check(rrr_type_conversion_collection_new_from_map(&col, &map) == 0, "list %s was refused", what);
	struct rrr_type_value *src = make(&s, tag, refs), *res = NULL;
	int f = ((flags & 1) ? RRR_TYPE_CONVERT_F_ON_ERROR_TRY_NEXT : 0) | ((flags & 2) ? RRR_TYPE_CONVERT_F_STRICT_BLOBS : 0) | ((flags & 4) ? RRR_TYPE_CONVERT_F_STRICT_STRINGS : 0);
	int ret = rrr_type_convert_using_list(&res, src, col, f);
	/* model */
	struct val cur = s, nx; int hit = 0, fail = 0, undefined = 0;
	for (int i = 0; i < n && !fail; i++) {
		if (model(&nx, &cur, list[i], !!(flags & 2), !!(flags & 4)) == 0) { cur = nx; hit = 1; if (cur.any) undefined = 1; }
		else if (!(flags & 1)) fail = 1;
	}
	if (!hit) fail = 1;
	mc_step();
	mc_log("%s %d elements '%.*s' through %s flags %d -> %d", def_of(s.t)->identifier, s.n, s.len, s.d, what, f, ret);
	if (!undefined) {
		if (fail) mc_check(ret == RRR_TYPE_CONVERSION_NOT_POSSIBLE && res == NULL, "%s of %s was not refused, return value %d", what, src->definition->identifier, ret);
		else {
			mc_check(ret == 0 && res != NULL, "%s of %s failed with %d", what, src->definition->identifier, ret);
			same(res, &cur, tag, what);
			mc_obs_mem(res->data, res->total_stored_length);
		}
	}
	same(src, &s, tag, "source");
	rrr_type_value_destroy(res); rrr_type_value_destroy(src);
	rrr_type_conversion_collection_destroy(col);
	rrr_map_clear(&map);
}
static void single (void) { run(1); }
static void chains (void) { run(2); }
static void chains3 (void) { run(3); }
static void unknown (void) {
	static const char *bad[] = { "h2", "H2STR", "h2strx", "str2msg", "hchar2strs", "hex2blob", "str2fixp" };
	struct rrr_map map = {0}; struct rrr_type_conversion_collection *col = NULL;
	int pre = mc_choose(2, "before");
	if (pre) rrr_map_item_add_new(&map, "h2str", NULL);
	rrr_map_item_add_new(&map, bad[mc_choose(7, "name")], NULL);
	mc_check(rrr_type_conversion_collection_new_from_map(&col, &map) != 0 && col == NULL, "unknown method was accepted");
	rrr_map_clear(&map);
}
/* to_str, to_64 and to_ull of values */
static void tostr (void) {
	struct val s; gen(&s);
	if (s.t == FIXP) mc_prune();
	struct rrr_type_value *v = make(&s, 0, 0);
	if (s.len || s.t == STR || s.t == VAIN) {
		char *o = NULL; mc_check(rrr_type_value_to_str(&o, v) == 0, "to_str failed");
		char e[1024]; int l = 0;
		if (is_h(s.t)) for (int i = 0; i < s.n; i++) { uint64_t x = hv(&s, i); int neg = s.t == HS && (x >> 63); if (i) e[l++] = ','; l += dec(e + l, neg ? (uint64_t) 0 - x : x, neg); }
		else if (s.t == BLOB || s.t == MSG || s.t == HDLC) for (int i = 0; i < s.len; i++) l += sprintf(e + l, "%02x", s.d[i]);
		else { memcpy(e, s.d, (size_t) s.len); l = s.len; }
		e[l] = 0;
		mc_check(!memcmp(o, e, (size_t) l + 1), "to_str gives '%s' instead of '%s'", o, e);
		rrr_free(o);
		mc_step();
	}
	if (s.len && s.t != VAIN && s.t != HDLC) {
		uint64_t x = v->definition->to_64(v), e = 0;
		if (is_h(s.t)) e = hv(&s, 0);
		else for (int i = s.len > 8 ? s.len - 8 : 0; i < s.len; i++) e = (e << 8) | s.d[i];
		mc_check(x == e, "to_64 gives %" PRIu64 " instead of %" PRIu64, x, e);
		mc_step();
	}
	if (s.len && is_h(s.t)) mc_check(v->definition->to_ull(v) == hv(&s, 0), "to_ull of h");
	rrr_type_value_destroy(v);
}
static const struct mc_scenario sc[] = {
	{ "single", single, -1, -1, MC_LEAKCHECK, NULL },
	{ "chains", chains, -1, -1, MC_LEAKCHECK, NULL },
	{ "chains3", chains3, -1, -1, MC_LEAKCHECK | MC_THOROUGH_ONLY, NULL },
	{ "unknown", unknown, -1, -1, MC_LEAKCHECK, NULL },
	{ "tostr", tostr, -1, -1, MC_LEAKCHECK, NULL },
};
int main (int c, char **v) { return mc_main(c, v, "C21", sc, sizeof(sc) / sizeof(*sc)); }
