// FLAVOR: asan
/* C19: array definitions against an independent interpreter of the definition language, packing into messages and back, raw export, damaged messages. */
#include "mc.h"
#include <ctype.h>
#include <math.h>
#include "lib/rrr_types.h"
#include "lib/allocator.h"
#include "lib/array.h"
#include "lib/array_tree.h"
#include "lib/map.h"
#include "lib/fixed_point.h"
#include "lib/messages/msg_msg.h"
#include "lib/messages/msg.h"

enum { BE, LE, H, BLOB, USTR, ISTR, FIXP, SEP, STX, STR, NSEP, HDLC, VAIN, ERRT };
enum { OK, INC, ERR, ANY };
typedef struct { const char *t; int k, n, cnt, sg, rlen, rcnt; } Form;   /* rlen, rcnt: length or count taken from the value tagged n */
static const Form forms[] = {
	{ "be1", BE, 1, 1 }, { "be2", BE, 2, 1 }, { "le1s", LE, 1, 1, 1 }, { "le3u", LE, 3, 1, 0 }, { "h1", H, 1, 1 }, { "h2s", H, 2, 1, 1 }, { "be3s", BE, 3, 1, 1 }, { "le2s", LE, 2, 1, 1 }, { "be1s@2", BE, 1, 2, 1 }, { "le1@3", LE, 1, 3 }, { "be2@2", BE, 2, 2 },
	{ "blob1", BLOB, 1, 1 }, { "blob2", BLOB, 2, 1 }, { "blob1@2", BLOB, 1, 2 }, { "ustr", USTR, 0, 1 }, { "istr", ISTR, 0, 1, 1 }, { "fixp", FIXP, 0, 1 }, { "sep1", SEP, 1, 1 }, { "sep2", SEP, 2, 1 }, { "sep1@2", SEP, 1, 2 }, { "stx1", STX, 1, 1 }, { "stx1@2", STX, 1, 2 },
	{ "str", STR, 0, 1 }, { "nsep", NSEP, 0, 1 }, { "hdlc", HDLC, 0, 1 }, { "vain", VAIN, 0, 1 }, { "err", ERRT, 0, 1 },
	/* only after a value tagged n */
	{ "blob{n}", BLOB, 0, 1, 0, 1, 0 }, { "be1@{n}", BE, 1, 0, 0, 0, 1 }, { "sep1@{n}", SEP, 1, 0, 0, 0, 1 }, { "le2s@{n}", LE, 2, 0, 1, 0, 1 }, { "blob{n}@2", BLOB, 0, 2, 0, 1, 0 }, { "blob1@{n}", BLOB, 1, 0, 0, 0, 1 },
};
enum { NF = sizeof forms / sizeof *forms, NREF = 6, NPLAIN = NF - NREF };
typedef struct { int type, sg; unsigned cnt, len; uint8_t b[96]; uint64_t v; int fuzzy; } Val;

static int is_sep (int c) { return (c > 0 && c < 256 && strchr("!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~\n\r\t", c) != NULL) || c == 0 || c == 3 || c == 4; }
/* the value of ascii digits with an optional single sign in front, 0: not a number or out of range */
static int number (const uint8_t *s, int n, int sg, uint64_t *out) {
	int neg = 0, i = 0; unsigned __int128 v = 0;
	if (n && (s[0] == '+' || s[0] == '-')) { neg = s[0] == '-'; i = 1; }
	if (i == n) return 0;
	for (; i < n; i++) { if (!isdigit(s[i])) return 0; v = v * 10 + (unsigned) (s[i] - '0'); if (v >> 64) return 0; }
	if (sg && v > ((unsigned __int128) 1 << 63) - !neg) return 0;
	*out = neg ? -(uint64_t) v : (uint64_t) v; return 1;
}
static int ref (const Form *f, const uint8_t *d, int n, int *used, Val *o, int have, uint64_t nv) {
	unsigned size = (unsigned) f->n, cnt = (unsigned) f->cnt; memset(o, 0, sizeof *o); o->cnt = 1; *used = 0;
	if (f->rlen || f->rcnt) { if (have == 2) return ANY; if (!have || nv == 0 || nv > 0xffffffff || (f->rlen && nv > 1024)) return ERR; if (f->rlen) size = (unsigned) nv; else cnt = (unsigned) nv; }
	switch (f->k) {
	case BE: case LE: case H:
		if ((uint64_t) size * cnt > (uint64_t) n) return INC;
		o->type = RRR_TYPE_H; o->sg = f->sg; o->cnt = cnt; o->len = 8 * cnt;
		for (unsigned i = 0; i < cnt; i++) {
			uint64_t v = 0; for (unsigned k = 0; k < size; k++) v |= (uint64_t) d[i * size + k] << 8 * (f->k == BE ? size - 1 - k : k);
			if (f->sg && size < 8 && v >> (8 * size - 1)) v |= ~0ull << 8 * size;
			if (!i) o->v = v; memcpy(o->b + 8 * i, &v, 8);
		}
		*used = (int) (size * cnt); return OK;
	case BLOB: case SEP: case STX:
		if ((uint64_t) size * cnt > (uint64_t) n) return INC;
		if (f->k != BLOB) for (unsigned i = 0; i < size * cnt; i++) if (f->k == SEP ? !is_sep(d[i]) : d[i] != 1 && d[i] != 2) return ERR;
		o->type = f->k == BLOB ? RRR_TYPE_BLOB : f->k == SEP ? RRR_TYPE_SEP : RRR_TYPE_STX; o->cnt = cnt; o->len = size * cnt; memcpy(o->b, d, o->len); *used = (int) o->len; return OK;
	case USTR: case ISTR: {
		int i = 0, b; if (n == 0) return INC;
		while (i < n && (d[i] == ' ' || d[i] == '\t')) i++;
		for (b = i; i < n && (isdigit(d[i]) || d[i] == '+' || (f->sg && d[i] == '-')); i++) if (i - b >= 63) return ERR;
		if (i == n) return INC;
		if (i == b || !number(d + b, i - b, f->sg, &o->v)) return ERR;
		o->type = RRR_TYPE_H; o->sg = f->sg; o->len = 8; memcpy(o->b, &o->v, 8); *used = i; return OK;
	}
	case FIXP: {
		int i = 0, base = 10, neg = 0, dot = -1, b; if (n == 0) return INC;
		if (n >= 3 && (d[0] == '1') && (d[1] == '6' || d[1] == '0') && d[2] == '#') { base = d[1] == '6' ? 16 : 10; i = 3; }
		if (i == n) return INC;
		if (d[i] == '-' || d[i] == '+') { neg = d[i] == '-'; if (++i == n) return INC; }
		for (b = i; i < n && (d[i] == '.' || (base == 16 ? isxdigit(d[i]) : isdigit(d[i]))); i++) if (d[i] == '.') { if (dot >= 0 || i == b) return ERR; dot = i; }
		if (i == b) return ERR;
		unsigned __int128 in = 0, fr = 0, den = 1; int e = dot < 0 ? i : dot;
		for (int k = b; k < e; k++) { in = in * (unsigned) base + (unsigned) (isdigit(d[k]) ? d[k] - '0' : tolower(d[k]) - 'a' + 10); if (in > 0x7fffffffffull) return ERR; }
		if (i == n) return INC;
		for (int k = e + 1; k < i && k < e + 13; k++) { fr = fr * (unsigned) base + (unsigned) (isdigit(d[k]) ? d[k] - '0' : tolower(d[k]) - 'a' + 10); den *= (unsigned) base; }
		uint64_t v = ((uint64_t) in << 24) | (uint64_t) ((fr << 24) / den); v &= ~(1ull << 63); if (neg) v = -v;
		o->type = RRR_TYPE_FIXP; o->v = v; o->len = 8; memcpy(o->b, &v, 8); o->fuzzy = base == 10 && fr != 0; *used = i; return OK;
	}
	case STR:
		if (n == 0) return INC;
		if (d[0] != '"') return ERR;
		for (int i = 1; ; i++) { if (i >= n) return INC; if (d[i] == '"') { *used = i + 1; break; } if (d[i] == '\\' && ++i >= n) return INC; o->b[o->len++] = d[i]; }
		o->type = RRR_TYPE_STR; return OK;
	case NSEP: {
		int i = 0; while (i < n && d[i] != '\n' && d[i] != '\r' && d[i] != '\t' && d[i] != 0 && d[i] != 3 && d[i] != 4 && d[i] != 1 && d[i] != 2) i++;
		if (i == n) return INC;
		if (!i) return ERR;
		o->type = RRR_TYPE_NSEP; o->len = (unsigned) i; memcpy(o->b, d, (size_t) i); *used = i; return OK;
	}
	case HDLC: {
		int i = 0; while (i < n && d[i] != 0x7e) i++;
		while (i < n && d[i] == 0x7e) i++;
		for (;;) { if (i >= n) return INC; int c = d[i++]; if (c == 0x7e) break; if (c == 0x7d) { if (i >= n) return INC; c = d[i++] ^ 0x20; } o->b[o->len++] = (uint8_t) c; }
		o->type = RRR_TYPE_HDLC; *used = i; return OK;
	}
	case VAIN: o->type = RRR_TYPE_VAIN; return OK;
	}
	return ERR;
}
static const char *hex (const uint8_t *d, int n) { static char s[4][200]; static int k; char *o = s[k++ & 3], *p = o; for (int i = 0; i < n && i < 60; i++) p += sprintf(p, "%02x ", d[i]); *p = 0; return o; }
static const char *def; static const uint8_t *dat; static int dlen;
#define AT "definition %s data %s(%d bytes)"
static struct rrr_array *kept;
static int cb (struct rrr_array *a, void *arg) { (void)(arg); kept = malloc(sizeof *kept); memset(kept, 0, sizeof *kept); mc_check(rrr_array_append_from(kept, a) == 0, "copy"); kept->version = a->version; return 0; }
static void drop (struct rrr_array *a) { rrr_array_clear(a); free(a); }
static void same_value (const struct rrr_type_value *a, int type, int sg, unsigned cnt, unsigned len, const void *b, const char *tag, size_t tl, const char *what) {
	mc_check((int) a->definition->type == type, "%s: type %u instead of %d, " AT, what, a->definition->type, type, def, hex(dat, dlen), dlen);
	mc_check(a->flags == sg, "%s: flags %u instead of %d, definition %s data %s", what, a->flags, sg, def, hex(dat, dlen));
	mc_check(a->element_count == cnt, "%s: %u elements instead of %u, definition %s data %s", what, (unsigned) a->element_count, cnt, def, hex(dat, dlen));
	mc_check(a->total_stored_length == len && (len == 0 || !memcmp(a->data, b, len)), "%s: value of %u bytes (%s) instead of %u bytes (%s), definition %s data %s", what, (unsigned) a->total_stored_length, a->data ? hex((uint8_t *) a->data, (int) a->total_stored_length) : "", len, hex(b, (int) len), def, hex(dat, dlen));
	mc_check(a->tag_length == tl && (tl == 0 || !memcmp(a->tag, tag, tl)), "%s: tag of %u bytes '%.*s' instead of '%.*s'", what, (unsigned) a->tag_length, (int) a->tag_length, a->tag ? a->tag : "", (int) tl, tag ? tag : "");
}
static void same_array (const struct rrr_array *x, const struct rrr_array *y, const char *what) {
	mc_check(RRR_LL_COUNT(x) == RRR_LL_COUNT(y), "%s: %d values instead of %d", what, RRR_LL_COUNT(x), RRR_LL_COUNT(y));
	const struct rrr_type_value *q = RRR_LL_FIRST(y);
	for (const struct rrr_type_value *p = RRR_LL_FIRST(x); p; p = p->ptr_next, q = q->ptr_next) same_value(p, q->definition->type, q->flags, q->element_count, q->total_stored_length, q->data, q->tag, q->tag_length, what);
}
static struct rrr_msg_msg *exact (const struct rrr_msg_msg *m) { size_t s = MSG_TOTAL_SIZE(m); struct rrr_msg_msg *e = malloc(s); memcpy(e, m, s); return e; }
static const struct rrr_type_value *seen; static int nseen;
static int val_cb (const struct rrr_type_value *v, void *arg) { const struct rrr_array *a = arg; int i = 0; for (const struct rrr_type_value *p = RRR_LL_FIRST(a); p; p = p->ptr_next, i++) if (i == nseen) { same_value(v, p->definition->type, p->flags, p->element_count, p->total_stored_length, p->data, p->tag, p->tag_length, "iterate"); } nseen++; return 0; }
/* pack, unpack, pack: identity, with the documented layout in between */
static void roundtrip (const struct rrr_array *a, const char *topic) {
	struct rrr_msg_msg *m = NULL, *m2 = NULL; uint16_t tl = (uint16_t) strlen(topic), ver = 0;
	int r = rrr_array_new_message_from_array(&m, a, 77, topic, tl); mc_check(r == 0 && m, "packing returns %d, definition %s data %s", r, def, hex(dat, dlen));
	mc_check(MSG_CLASS(m) == MSG_CLASS_ARRAY && m->timestamp == 77 && MSG_TOPIC_LENGTH(m) == tl && !memcmp(MSG_TOPIC_PTR(m), topic, tl), "message fields");
	struct rrr_msg_msg *e = exact(m); const uint8_t *p = (const uint8_t *) MSG_DATA_PTR(e), *end = p + MSG_DATA_LENGTH(e);
	for (const struct rrr_type_value *v = RRR_LL_FIRST(a); v; v = v->ptr_next) {
		uint32_t tgl, ttl, el; mc_check(end - p >= 14, "packed value is cut"); memcpy(&tgl, p + 2, 4); memcpy(&ttl, p + 6, 4); memcpy(&el, p + 10, 4); tgl = __builtin_bswap32(tgl); ttl = __builtin_bswap32(ttl); el = __builtin_bswap32(el);
		int wt = v->definition->type == RRR_TYPE_H ? RRR_TYPE_BE : v->definition->type;
		mc_check(p[0] == wt && p[1] == v->flags && tgl == v->tag_length && ttl == v->total_stored_length && el == v->element_count, "packed header %s, definition %s data %s", hex(p, 14), def, hex(dat, dlen));
		p += 14; mc_check(end - p >= (long) (tgl + ttl) && (!tgl || !memcmp(p, v->tag, tgl)), "packed tag"); p += tgl;
		if (wt == RRR_TYPE_BE || wt == RRR_TYPE_FIXP) for (unsigned i = 0; i < ttl; i += 8) { uint64_t x, y; memcpy(&x, p + i, 8); memcpy(&y, v->data + i, 8); mc_check(__builtin_bswap64(x) == y, "packed integer"); }
		else mc_check(ttl == 0 || !memcmp(p, v->data, ttl), "packed data");
		p += ttl;
	}
	mc_check(p == end, "trailing packed data");
	struct rrr_array b = {0}; r = rrr_array_message_append_to_array(&ver, &b, e); mc_check(r == 0 && ver == 7, "unpacking returns %d, definition %s data %s", r, def, hex(dat, dlen)); same_array(&b, a, "unpacked");
	mc_check(rrr_array_new_message_from_array(&m2, &b, 77, topic, tl) == 0 && MSG_TOTAL_SIZE(m2) == MSG_TOTAL_SIZE(e) && !memcmp(MSG_DATA_PTR(m2), MSG_DATA_PTR(e), MSG_DATA_LENGTH(e)), "packed again");
	nseen = 0; mc_check(rrr_array_message_iterate_values(e, val_cb, (void *) a) == 0 && nseen == RRR_LL_COUNT(a), "iterate"); (void)(seen);
	for (const struct rrr_type_value *v = RRR_LL_FIRST(a); v; v = v->ptr_next) if (v->tag_length) {
		mc_check(rrr_array_message_has_tag(e, v->tag) == 1, "has_tag %s", v->tag); struct rrr_type_value *c = NULL; mc_check(rrr_array_message_clone_value_by_tag(&c, e, v->tag) == 0 && c, "clone by tag");
		const struct rrr_type_value *f = rrr_array_value_get_by_tag_const(a, v->tag); same_value(c, f->definition->type, f->flags, f->element_count, f->total_stored_length, f->data, f->tag, f->tag_length, "clone by tag"); rrr_type_value_destroy(c);
	}
	mc_check(rrr_array_message_has_tag(e, "nosuch") == 0, "has_tag");
	free(e); rrr_free(m); rrr_free(m2); rrr_array_clear(&b);
}
static void export (const struct rrr_array *a) {
	uint8_t x[800]; int n = 0, bad = 0;
	for (const struct rrr_type_value *v = RRR_LL_FIRST(a); v; v = v->ptr_next) {
		const uint8_t *d = (const uint8_t *) v->data; unsigned l = v->total_stored_length;
		switch (v->definition->type) {
		case RRR_TYPE_H: for (unsigned i = 0; i < l; i++) x[n++] = d[(i & ~7u) + 7 - (i & 7)]; break;
		case RRR_TYPE_FIXP: bad = 1; break;
		case RRR_TYPE_STR: x[n++] = '"'; for (unsigned i = 0; i < l; i++) { if (d[i] == '"' || d[i] == '\\') x[n++] = '\\'; x[n++] = d[i]; } x[n++] = '"'; break;
		case RRR_TYPE_HDLC: x[n++] = 0x7e; for (unsigned i = 0; i < l; i++) { if (d[i] == 0x7e || d[i] == 0x7d) { x[n++] = 0x7d; x[n++] = d[i] ^ 0x20; } else x[n++] = d[i]; } x[n++] = 0x7e; break;
		default: memcpy(x + n, d ? d : x, l); n += (int) l;
		}
	}
	char *t = NULL; rrr_biglength tl = 0; int found = 0; int r = rrr_array_selected_tags_export(&t, &tl, &found, a, NULL);
	if (bad) mc_check(r != 0 && !t, "fixp is exported");
	else mc_check(r == 0 && tl == (rrr_biglength) n && found == RRR_LL_COUNT(a) && (!n || !memcmp(t, x, (size_t) n)), "exported %s(%d) instead of %s(%d), definition %s data %s", t ? hex((uint8_t *) t, (int) tl) : "", (int) tl, hex(x, n), n, def, hex(dat, dlen));
	rrr_free(t);
}
static struct rrr_array_tree *tree_of (const char *s) { struct rrr_array_tree *t = NULL; size_t l = strlen(s); char *b = malloc(l); memcpy(b, s, l); mc_check(rrr_array_tree_interpret_raw(&t, b, (rrr_length) l, "d") == 0, "definition %s is refused", s); free(b); return t; }
/* one definition on one piece of data, returns the verdict */
static int one (const struct rrr_array_tree *tree, const Form *const *f, const char *const *tag, int nf, const uint8_t *d, int n, int deep) {
	Val v[4]; int used = 0, e = OK, u; uint64_t nv = 0; int have = 0; dat = d; dlen = n;
	for (int i = 0; i < nf && !e; i++) { e = ref(f[i], d + used, n - used, &u, &v[i], have, nv); used += u; if (tag[i] && *tag[i] == 'n') { have = v[i].type == RRR_TYPE_H ? 1 : 2; nv = v[i].v; } }   /* lengths and counts from values which are not integers are not decided */
	uint8_t *b = malloc((size_t) n + !n); memcpy(b, d, (size_t) n); rrr_length pb = 99; kept = NULL;
	int r = rrr_array_tree_import_from_buffer(&pb, (char *) b, (rrr_length) n, tree, cb, NULL); free(b); mc_step();
	if (e == ANY) { mc_check(r != RRR_ARRAY_TREE_HARD_ERROR && (r == 0) == (kept != NULL), "returns %d, definition %s data %s", r, def, hex(d, n)); if (kept) drop(kept); return ANY; }
	mc_check(e == OK ? r == 0 && kept && pb == (rrr_length) used : e == INC ? r == RRR_ARRAY_TREE_PARSE_INCOMPLETE && !kept : r == RRR_ARRAY_TREE_SOFT_ERROR && !kept, "returns %d and %u bytes instead of %s and %d bytes, " AT, r, (unsigned) pb, e == OK ? "ok" : e == INC ? "incomplete" : "error", used, def, hex(d, n), n);
	if (!kept) return e;
	mc_check(RRR_LL_COUNT(kept) == nf, "%d values, " AT, RRR_LL_COUNT(kept), def, hex(d, n), n); int i = 0;
	for (const struct rrr_type_value *p = RRR_LL_FIRST(kept); p; p = p->ptr_next, i++) {
		if (v[i].fuzzy) { uint64_t g; memcpy(&g, p->data, 8); if (g - v[i].v + 1 <= 2) memcpy(v[i].b, &g, 8); }   /* decimal fractions: one unit in the last place */
		same_value(p, v[i].type, v[i].sg, v[i].cnt, v[i].len, v[i].b, tag[i], tag[i] ? strlen(tag[i]) : 0, "parsed");
	}
	if (deep) { roundtrip(kept, "a/b"); export(kept); }
	drop(kept); return e;
}
struct ctx { const struct rrr_array_tree *t; const Form *const *f; const char *const *tag; int nf; const uint8_t *al; int na, max; uint8_t *d; };
/* all data, to one byte beyond the deciding one; the verdict on a prefix is the verdict on everything that begins with it, unless it is incomplete */
static void rec (const struct ctx *c, int n, int prev) {
	int v = one(c->t, c->f, c->tag, c->nf, c->d, n, prev == INC); mc_check(prev == INC || v == prev, "reference is not monotonous");
	if (n < c->max && (v == INC || prev == INC)) for (int i = 0; i < c->na; i++) { c->d[n] = c->al[i]; rec(c, n + 1, v); }
}
static void all (const Form *const *f, const char *const *tag, int nf, const uint8_t *al, int na, int max) {
	static char text[300]; char *p = text; for (int i = 0; i < nf; i++) p += sprintf(p, "%s%s%s%s", i ? "," : "", f[i]->t, tag[i] ? "#" : "", tag[i] ? tag[i] : ""); strcpy(p, ";"); def = text;
	struct rrr_array_tree *t = tree_of(text); uint8_t d[16]; struct ctx c = { t, f, tag, nf, al, na, max, d }; rec(&c, 0, INC);
	rrr_array_tree_destroy(t); mc_obs((uint64_t) nf);
}
static const uint8_t al17[] = { '1', '9', '-', '+', '.', ' ', '"', '\\', ';', 0x7e, 0x7d, 1, 0xff, '\n', 'A', '#', '6' };
static void pairs (void) {
	static const uint8_t al9[] = { '1', '-', '"', '\\', 0x7e, 1, 0xff, '\n', '7' };
	const Form *f[2]; const char *tag[2] = { "n", "x" }; int a = mc_choose(NPLAIN, "first"), b = mc_choose(NF, "second"); f[0] = &forms[a]; f[1] = &forms[b]; if (mc_tier()) all(f, tag, 2, al17, 17, 4); else all(f, tag, 2, al9, 9, 4);
}
static void triples (void) {
	static const uint8_t al[] = { '1', ';', '"', 2, 0xff, '\n', 0x7e };
	const Form *f[3]; const char *tag[3] = { "n", NULL, "yy" }; int a = mc_choose(NPLAIN, "first"), b = mc_choose(NPLAIN, "second"), c = mc_choose(NF, "third"); f[0] = &forms[a]; f[1] = &forms[b]; f[2] = &forms[c]; all(f, tag, 3, al, mc_tier() ? 7 : 4, mc_tier() ? 5 : 4);
}
static void single (void) {
	const Form *f[1]; const char *tag[2] = { "t", NULL }; int a = mc_choose(NPLAIN, "type"); f[0] = &forms[a]; all(f, tag + mc_choose(2, "tag"), 1, al17, 17, mc_tier() ? 5 : 4);
}
/* text numbers, deeper */
static void numbers (void) {
	static const char *const al[] = { "0189+- \t;", "019-+ .\n", "016#.aF-+;g", "019.-x#" };
	const Form *f[1]; const char *tag[1] = { "t" }; int w = mc_choose(4, "type"); f[0] = &forms[w < 2 ? 14 + w : 16]; int max = mc_tier() ? 7 : 5, k = mc_choose((int) strlen(al[w]), "first"); 
	/* the first byte is chosen here, so that the work divides */
	static uint8_t x[16]; memcpy(x, al[w], strlen(al[w])); (void)(k); if (k) mc_prune(); all(f, tag, 1, x, (int) strlen(al[w]), max);
}
static void longtext (void) {   /* limits: digits around the range of 64 bits, number lengths around 63 */
	static const char *const v[] = { "18446744073709551615", "18446744073709551616", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "00000000000000000000000000000000000000000000000000000000000001", "000000000000000000000000000000000000000000000000000000000000001", "0000000000000000000000000000000000000000000000000000000000000001", "549755813887", "549755813888", "549755813887.99999999999", "-549755813887.5", "16#7FFFFFFFFF.FFFFFF", "16#8000000000", "16#-7fffffffff.000001", "0.00000005960464477539", "1.0000000000000000000000000000000000000000000000000000000000001", "16#.8", "10#1.5", "16#", "-.5", "1..5", "18446744073709551615184467440737095516151844674407370955161518446", "340282366920938463463374607431768211457", "+5", "--5", "+-5", "5-5", "5+", "  7" };
	int w = mc_choose((int) (sizeof v / sizeof *v), "text"), t = mc_choose(3, "type"), term = mc_choose(4, "after"); static const char af[] = "\0;\nx"; const Form *f[1] = { &forms[14 + t] }; const char *tag[1] = { "q" };
	char s[120]; strcpy(s, v[w]); size_t l = strlen(s); if (term) s[l++] = af[term]; static char text[40]; sprintf(text, "%s#q;", f[0]->t); def = text; struct rrr_array_tree *tr = tree_of(text); int last = INC; for (int n = 0; n <= (int) l; n++) { int e = one(tr, f, tag, 1, (uint8_t *) s, n, 1); mc_check(last == INC || last == e, "prefix verdict"); last = e; } rrr_array_tree_destroy(tr);
}
/* values put together by modules: every kind, also shapes that parsing does not produce */
static void push (struct rrr_array *a, int k, const char *tag) {
	int r = 0;
	switch (k) {
	case 0: r = rrr_array_push_value_vain_with_tag(a, tag); break;
	case 1: r = rrr_array_push_value_u64_with_tag(a, tag, 0xfedcba9876543210ull); break;
	case 2: r = rrr_array_push_value_i64_with_tag(a, tag, -2); break;
	case 3: r = rrr_array_push_value_fixp_with_tag(a, tag, -0x1800000); break;
	case 4: r = rrr_array_push_value_str_with_tag(a, tag, "a\"\\\n"); break;
	case 5: r = rrr_array_push_value_str_with_tag(a, tag, ""); break;
	case 6: r = rrr_array_push_value_blob_with_tag_with_size(a, tag, "\0\xff", 2); break;
	case 7: r = rrr_array_push_value_str_with_tag_with_size_with_flags(a, tag, "{}", 2, RRR_TYPE_FLAG_JSON); break;
	case 8: r = rrr_array_push_value_str_with_tag_with_size(a, tag, "\0x\0", 3); break;
	}
	mc_check(r == 0, "push %d", k);
}
static void pushed (void) {
	static const char *const tags[] = { "", NULL, "a", "a", "bb" }; struct rrr_array *a = calloc(1, sizeof *a); int n = mc_choose(mc_tier() ? 5 : 4, "values"); def = "pushed"; dat = NULL; dlen = 0; int tk[5], kk[5];
	for (int i = 0; i < n; i++) { kk[i] = mc_choose(9, "kind"); tk[i] = mc_choose(5, "tag"); if (tk[i] == 3) mc_prune(); push(a, kk[i], tags[tk[i]]); }
	roundtrip(a, ""); roundtrip(a, "topic/x"); export(a);
	/* lookup and removal by tag take the values of exactly that tag */
	for (int t = 2; t < 5; t += 2) {
		int c = 0, first = -1; for (int i = 0; i < n; i++) if (tk[i] == t) { c++; if (first < 0) first = i; }
		mc_check(rrr_array_has_tag(a, tags[t]) == (c > 0), "has_tag"); const struct rrr_type_value *v = rrr_array_value_get_by_tag_const(a, tags[t]); mc_check((v != NULL) == (c > 0) && (!v || v == rrr_array_value_get_by_index(a, first)), "get_by_tag");
		uint64_t u = 5; int64_t s = 5; char *str = NULL;
		if (v) {
			int k = kk[first]; int r = rrr_array_get_value_unsigned_64_by_tag(&u, a, tags[t], 0);
			if (k == 1) mc_check(r == 0 && u == 0xfedcba9876543210ull, "unsigned"); if (k == 2) { mc_check(rrr_array_get_value_signed_64_by_tag(&s, a, tags[t], 0) == 0 && s == -2, "signed"); }
			mc_check(rrr_array_get_value_unsigned_64_by_tag(&u, a, tags[t], 1) != 0 || k == 6, "index out of range is accepted, kind %d", k);
			r = rrr_array_get_value_str_by_tag(&str, a, tags[t]); if (k == 4) mc_check(r == 0 && !strcmp(str, "a\"\\\n"), "string"); if (k == 2) mc_check(r == 0 && !strcmp(str, "-2"), "string of number: %s", r ? "" : str); rrr_free(str);
		}
		struct rrr_map map = {0}; mc_check(rrr_map_item_add_new(&map, tags[t], "") == 0, "map"); char *x = NULL; rrr_biglength xl = 0; int found = 0; rrr_array_selected_tags_export(&x, &xl, &found, a, &map); rrr_free(x); rrr_map_clear(&map);
		struct rrr_array *cl = NULL; mc_check(rrr_array_clone(&cl, a) == 0, "clone"); same_array(cl, a, "clone"); unsigned cleared = 0; rrr_array_clear_by_tag_checked(&cleared, cl, tags[t]); mc_check((int) cleared == c && RRR_LL_COUNT(cl) == n - c && !rrr_array_has_tag(cl, tags[t]), "clear by tag"); rrr_array_destroy(cl);
	}
	/* rotation and trimming */
	struct rrr_array *r1 = NULL; mc_check(rrr_array_clone(&r1, a) == 0, "clone"); rrr_array_rotate_forward(r1); rrr_array_rotate_reverse(r1); same_array(r1, a, "rotated there and back"); for (int i = 0; i < n; i++) rrr_array_rotate_forward(r1); same_array(r1, a, "rotated all the way"); if (n) { rrr_array_trim(r1, 1); mc_check(RRR_LL_COUNT(r1) == 1, "trim"); } rrr_array_destroy(r1);
	drop(a);
}
static void use_value (const struct rrr_type_value *v) {
	char *s = NULL; if (v->definition->to_str && v->definition->to_str(&s, v) == 0) { mc_check(s != NULL, "to_str"); mc_obs(strlen(s)); } rrr_free(s);
	if (v->definition->to_64) mc_obs(v->definition->to_64(v)); if (v->definition->to_ull) mc_obs(v->definition->to_ull(v));
}
static int use_cb (const struct rrr_type_value *v, void *arg) { (void)(arg); use_value(v); return 0; }
static int split_cb (const struct rrr_type_value *o, const struct rrr_array *vals, void *arg) { (void)(arg); mc_check((unsigned) RRR_LL_COUNT(vals) == o->element_count, "split into %d of %u", RRR_LL_COUNT(vals), (unsigned) o->element_count); for (const struct rrr_type_value *v = RRR_LL_FIRST(vals); v; v = v->ptr_next) use_value(v); return 0; }
static void use (const struct rrr_msg_msg *m) {
	struct rrr_array a = {0}; uint16_t ver; mc_step();
	rrr_array_message_has_tag(m, "a"); rrr_array_message_has_tag(m, "bcd"); struct rrr_type_value *c = NULL; rrr_array_message_clone_value_by_tag(&c, m, "a"); if (c) { use_value(c); rrr_type_value_destroy(c); }
	rrr_array_message_iterate_values(m, use_cb, NULL);
	if (rrr_array_message_append_to_array(&ver, &a, m) == 0) {
		for (const struct rrr_type_value *v = RRR_LL_FIRST(&a); v; v = v->ptr_next) use_value(v);
		uint64_t u; int64_t i; unsigned long long ull; char *s = NULL; rrr_array_get_value_unsigned_64_by_tag(&u, &a, "a", 0); rrr_array_get_value_signed_64_by_tag(&i, &a, "a", 1); rrr_array_get_value_ull_by_tag(&ull, &a, "a"); rrr_array_get_value_str_by_tag(&s, &a, "a"); rrr_free(s);
		struct rrr_msg_msg *m2 = NULL; if (rrr_array_new_message_from_array(&m2, &a, 1, NULL, 0) == 0) { struct rrr_array b = {0}; mc_check(rrr_array_message_append_to_array(&ver, &b, m2) == 0, "own message is refused"); same_array(&b, &a, "repacked"); rrr_array_clear(&b); } rrr_free(m2);
		char *x = NULL; rrr_biglength xl; int found; if (rrr_array_selected_tags_export(&x, &xl, &found, &a, NULL) == 0) rrr_free(x);
		unsigned long most = 0; for (const struct rrr_type_value *v = RRR_LL_FIRST(&a); v; v = v->ptr_next) if (v->element_count > most) most = v->element_count;
		if (most < 1000) rrr_array_selected_tags_split(&found, &a, NULL, split_cb, NULL);
		rrr_array_dump(&a);
	}
	rrr_array_clear(&a);
}
/* damaged messages from other machines: one or two bytes replaced, cut off, lengthened */
static void damaged (void) {
	static const int8_t sets[][3] = { { 0, -1, -1 }, { 1, 4, -1 }, { 3, -1, -1 }, { 5, 6, -1 }, { 7, 1, -1 }, { 8, -1, -1 } };
	struct rrr_array a = {0}; int w = mc_choose(6, "source"); for (int i = 0; i < 3 && sets[w][i] >= 0; i++) push(&a, sets[w][i], i ? "bcd" : "a");
	struct rrr_msg_msg *m = NULL; rrr_array_new_message_from_array(&m, &a, 1, "t", 1); rrr_array_clear(&a);
	size_t l = MSG_DATA_LENGTH(m), head = MSG_TOTAL_SIZE(m) - l; int how = mc_choose(3, "one|two|cut");
	if (how == 0) { size_t p = (size_t) mc_choose((int) l, "byte"); struct rrr_msg_msg *e = exact(m); for (int c = 0; c < 256; c++) { ((uint8_t *) e)[head + p] = (uint8_t) c; use(e); } free(e); }
	else if (how == 1) { static const uint8_t val[] = { 0, 1, 3, 5, 7, 8, 9, 10, 12, 13, 14, 15, 16, 17, 0x7f, 0x80, 0xff, '"', '9' }; size_t p = (size_t) mc_choose((int) l, "byte"), q; struct rrr_msg_msg *e = exact(m); uint8_t *d = (uint8_t *) e + head; uint8_t o = d[p]; for (q = p + 1; q < l && (q < p + 30 || mc_tier()); q++) { uint8_t o2 = d[q]; for (size_t i = 0; i < sizeof val; i++) for (size_t k = 0; k < sizeof val; k++) { d[p] = val[i]; d[q] = val[k]; use(e); } d[q] = o2; } d[p] = o; free(e); }
	else { int cut = mc_choose((int) l + 20, "length"); size_t nl = (size_t) cut; struct rrr_msg_msg *e = malloc(head + nl); memcpy(e, m, head + (nl < l ? nl : l)); if (nl > l) memset((uint8_t *) e + head + l, 0x08, nl - l); e->msg_size = (rrr_u32) (head + nl); use(e); free(e); }
	rrr_free(m);
}
/* messages as values */
static void msgs (void) {
	struct rrr_array a = {0}; push(&a, 1, "in"); struct rrr_msg_msg *m = NULL; rrr_array_new_message_from_array(&m, &a, 9, "tp", 2); rrr_array_clear(&a);
	size_t l = MSG_TOTAL_SIZE(m); struct rrr_msg_msg *net = exact(m); rrr_msg_msg_prepare_for_network(net); rrr_msg_checksum_and_to_network_endian((struct rrr_msg *) net);
	struct rrr_array_tree *t = tree_of("be1,msg#m,be1;"); def = "be1,msg#m,be1;"; uint8_t *d = malloc(l + 2); d[0] = 1; memcpy(d + 1, net, l); d[l + 1] = 2; dat = d; dlen = (int) l + 2;
	int p = mc_choose((int) l + 3, "length or damage"), dmg = mc_bool("damage"); size_t n = dmg ? l + 2 : (size_t) p; if (dmg) { if (p == 0 || p > (int) l) mc_prune(); d[p] ^= (uint8_t) (1 << mc_choose(8, "bit")); }
	uint8_t *b = malloc(n + !n); memcpy(b, d, n); rrr_length pb = 0; kept = NULL; int r = rrr_array_tree_import_from_buffer(&pb, (char *) b, (rrr_length) n, t, cb, NULL); free(b);
	if (!dmg) {
		if (n < l + 2) mc_check(r == RRR_ARRAY_TREE_PARSE_INCOMPLETE && !kept, "%d bytes of %d: returns %d", (int) n, (int) l + 2, r);
		else { mc_check(r == 0 && kept && RRR_LL_COUNT(kept) == 3 && pb == l + 2, "returns %d", r); const struct rrr_type_value *v = rrr_array_value_get_by_tag_const(kept, "m"); struct rrr_msg_msg *got = (void *) v->data; mc_check(v->total_stored_length == l && MSG_TOTAL_SIZE(got) == l && got->timestamp == m->timestamp && MSG_TOPIC_LENGTH(got) == 2 && !memcmp(MSG_TOPIC_PTR(got), "tp", 2) && !memcmp(MSG_DATA_PTR(got), MSG_DATA_PTR(m), MSG_DATA_LENGTH(m)), "message value");
			struct rrr_msg_msg *o = NULL; mc_check(rrr_array_new_message_from_array(&o, kept, 1, NULL, 0) == 0, "pack"); struct rrr_array b2 = {0}; uint16_t ver; struct rrr_msg_msg *e = exact(o); mc_check(rrr_array_message_append_to_array(&ver, &b2, e) == 0, "unpack"); mc_check(RRR_LL_COUNT(&b2) == 3, "count"); v = rrr_array_value_get_by_tag_const(&b2, "m"); got = (void *) v->data; mc_check(v->total_stored_length == l && got->timestamp == m->timestamp && MSG_TOPIC_LENGTH(got) == 2 && !memcmp(MSG_DATA_PTR(got), MSG_DATA_PTR(m), MSG_DATA_LENGTH(m)), "message value after packing"); use(e);
			for (size_t i = 0; i < MSG_DATA_LENGTH(e); i++) { ((uint8_t *) MSG_DATA_PTR(e))[i] ^= 1; use(e); ((uint8_t *) MSG_DATA_PTR(e))[i] ^= 0x81; use(e); ((uint8_t *) MSG_DATA_PTR(e))[i] ^= 0x80; }
			rrr_array_clear(&b2); rrr_free(o); free(e); }
	}
	else mc_check(r != 0 && !kept, "damaged message is accepted");
	if (kept) drop(kept); free(d); free(net); rrr_free(m); rrr_array_tree_destroy(t);
}
static const struct mc_scenario sc[] = {
	{ "single", single, -1, -1, MC_LEAKCHECK, NULL },
	{ "numbers", numbers, -1, -1, MC_LEAKCHECK, NULL },
	{ "longtext", longtext, -1, -1, MC_LEAKCHECK, NULL },
	{ "pairs", pairs, -1, -1, MC_LEAKCHECK, NULL },
	{ "triples", triples, -1, -1, MC_LEAKCHECK, NULL },
	{ "pushed", pushed, -1, -1, MC_LEAKCHECK, NULL },
	{ "damaged", damaged, -1, -1, MC_LEAKCHECK, NULL },
	{ "msgs", msgs, -1, -1, MC_LEAKCHECK, NULL },
};
int main (int c, char **v) { return mc_main(c, v, "C19", sc, (int) (sizeof sc / sizeof *sc)); }
