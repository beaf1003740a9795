// FLAVOR: asan
/* C31: base64, base64url, hex, UTF-8, CRC32, SHA-1, SHA-256, byte order and gzip vs independent references */
#include "mc.h"
#include "lib/rrr_types.h"
#include "lib/allocator.h"
#include "lib/util/base64.h"
#include "lib/util/hex.h"
#include "lib/util/utf8.h"
#include "lib/util/crc32.h"
#include "lib/util/sha256.h"
#include "lib/util/rrr_endian.h"
#include "lib/sha1/sha1.h"
#include "lib/zlib/rrr_zlib.h"
#include "lib/helpers/nullsafe_str.h"
#include <openssl/sha.h>
#include <zlib.h>

static const char B64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static const char B64U[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
static int v64 (int c, const char *t) { if (!c) return -1; const char *p = strchr(t, c); return p ? (int) (p - t) : -1; }

/* straight bit by bit encoding */
static int ref_enc (char *o, const uint8_t *d, int n, int url) {
	const char *t = url ? B64U : B64; int l = 0, col = 0;
	for (int b = 0; b < n * 8; b += 6) {
		int v = 0;
		for (int k = 0; k < 6; k++) { int i = b + k; v = v * 2 + (i < n * 8 ? (d[i / 8] >> (7 - i % 8)) & 1 : 0); }
		o[l++] = t[v]; col++;
		if (!url && col == 72 && b + 6 < n * 8) { o[l++] = '\n'; col = 0; }
	}
	if (!url) { while (col % 4) { o[l++] = '='; col++; } if (col) o[l++] = '\n'; }
	o[l] = 0; return l;
}
/* -1: refused */
static int ref_dec (uint8_t *o, const uint8_t *s, int n, int url) {
	int c = 0; uint8_t e[600];
	for (int i = 0; i < n; i++) if (v64(s[i], url ? B64U : B64) >= 0 || (!url && s[i] == '=')) e[c++] = s[i];
	if (!c) return -1;
	if (url ? c % 4 == 1 : c % 4) return -1;
	int used = c, out = 0;
	for (int i = 0; i < c; i++) if (e[i] == '=') { used = i; break; }
	if (used < c) {
		int blk = used / 4 * 4;
		if (used - blk < 2) return -1;
		for (int i = used; i < blk + 4; i++) if (e[i] != '=') return -1;
	}
	int nb = used * 6 / 8;
	for (int i = 0; i < nb; i++) { int v = 0; for (int k = 0; k < 8; k++) { int b = i * 8 + k; v = v * 2 + ((v64(e[b / 6], url ? B64U : B64) >> (5 - b % 6)) & 1); } o[out++] = (uint8_t) v; }
	return out;
}
static uint8_t *exact (const void *d, int n) { uint8_t *p = malloc((size_t) n + (n == 0)); memcpy(p, d, (size_t) n); return p; }
static void enc_one (const uint8_t *d, int n) {
	uint8_t *in = exact(d, n);
	char e[1000]; uint8_t dd[1000];
	for (int url = 0; url < 2; url++) {
		rrr_biglength l = 999;
		int el = ref_enc(e, d, n, url);
		unsigned char *r = url ? rrr_base64url_encode(in, (rrr_biglength) n, &l) : rrr_base64_encode(in, (rrr_biglength) n, &l);
		mc_check(r && (int) l == el && !memcmp(r, e, (size_t) el + 1), "base64%s encode of %d bytes gives '%s' instead of '%s'", url ? "url" : "", n, r, e);
		uint8_t *ex = exact(r, (int) l);
		rrr_biglength l2 = 0;
		unsigned char *b = url ? rrr_base64url_decode(ex, l, &l2) : rrr_base64_decode(ex, l, &l2);
		if (n == 0) mc_check(b == NULL, "decode of nothing");
		else mc_check(b && l2 == (rrr_biglength) n && !memcmp(b, d, (size_t) n), "base64%s encode and decode of %d bytes is not the identity", url ? "url" : "", n);
		(void) dd;
		if (b) rrr_free(b);
		free(ex); rrr_free(r);
		mc_step();
	}
	char *h; rrr_biglength hl;
	mc_check(rrr_hex_bin_to_hex(&h, &hl, in, (rrr_length) n) == 0 && hl == (rrr_biglength) n * 2, "hex length");
	for (int i = 0; i < n; i++) mc_check(h[2 * i] == "0123456789abcdef"[d[i] >> 4] && h[2 * i + 1] == "0123456789abcdef"[d[i] & 15], "hex digit");
	mc_check(h[hl] == 0, "hex end");
	rrr_free(h);
	free(in);
}
static void b64enc (void) {
	uint8_t d[300];
	int mode = mc_choose(2, "mode");
	if (mode == 0) {
		/* all strings of 0-2 bytes, 3 bytes with a coarse third */
		int a = mc_choose(256, "first");
		d[0] = (uint8_t) a;
		if (a == 0) enc_one(d, 0);
		enc_one(d, 1);
		for (int b = 0; b < 256; b++) { d[1] = (uint8_t) b; enc_one(d, 2); if (mc_tier() || b % 17 == 0) for (int c = 0; c < 256; c += mc_tier() ? 3 : 17) { d[2] = (uint8_t) c; enc_one(d, 3); } }
	}
	else {
		int n = mc_choose(300, "length"), p = mc_choose(4, "pattern");
		for (int i = 0; i < n; i++) d[i] = (uint8_t) (p == 0 ? 0 : p == 1 ? 255 : p == 2 ? i * 37 + 11 : (i * i) ^ (i >> 3));
		enc_one(d, n);
	}
}
static void b64dec (void) {
	static const uint8_t al[] = { 'A', 'Z', '/', '=', '\n', '+', '-', '_', '9', 0x80, 0 };
	int url = mc_bool("url"), max = mc_tier() ? 8 : 7, k = url ? 11 : 6, n = 0; uint8_t s[16], e[32];
	while (n < max) { int c = mc_choose(n < 2 || !url ? k + 1 : 7 + 1, "char"); if (!c) break; s[n++] = al[c - 1]; }
	uint8_t *in = exact(s, n);
	rrr_biglength l = 77;
	unsigned char *r = url ? rrr_base64url_decode(in, (rrr_biglength) n, &l) : rrr_base64_decode(in, (rrr_biglength) n, &l);
	int el = ref_dec(e, s, n, url);
	if (el < 0) mc_check(r == NULL, "invalid input of %d bytes was decoded", n);
	else mc_check(r && (int) l == el && !memcmp(r, e, (size_t) el), "decoded %d bytes, expected %d", r ? (int) l : -1, el);
	mc_obs((uint64_t) (el + 1));
	if (r) rrr_free(r);
	free(in);
	mc_step();
}

/* ---- UTF-8 (table 3-7 of the Unicode standard) ---- */
static int ref_utf8 (const uint8_t *s, int n, uint32_t *c) {
	if (s[0] < 0x80) { *c = s[0]; return 1; }
	int l = s[0] >= 0xf0 ? 4 : s[0] >= 0xe0 ? 3 : 2;
	if (s[0] < 0xc0 || s[0] > 0xf7 || l > n) return 0;
	uint32_t v = s[0] & (0xffu >> (l + 1));
	for (int i = 1; i < l; i++) { if ((s[i] & 0xc0) != 0x80) return 0; v = v << 6 | (s[i] & 0x3fu); }
	if (v < (l == 2 ? 0x80u : l == 3 ? 0x800u : 0x10000u) || v > 0x10ffff || (v >= 0xd800 && v <= 0xdfff)) return 0;
	*c = v; return l;
}
static uint32_t got[16]; static int gotn;
static int u_cb (uint32_t c, void *a) { (void) a; got[gotn++] = c; return 0; }
static char *ubuf[8];
static void utf_one (const uint8_t *s, int n) {
	uint32_t e[8]; int en = 0, ok = 1;
	for (int i = 0; i < n; ) { int l = ref_utf8(s + i, n - i, &e[en]); if (!l) { ok = 0; break; } i += l; en++; }
	if (!ubuf[n]) ubuf[n] = malloc((size_t) n + (n == 0));
	char *in = ubuf[n]; memcpy(in, s, (size_t) n);
	int r = rrr_utf8_validate(in, (rrr_length) n);
	if ((r == 0) != ok) mc_fail("validate of %02x %02x %02x %02x (%d bytes) gives %d", s[0], s[1], s[2], s[3], n, r);
	gotn = 0; r = rrr_utf8_validate_and_iterate(in, (rrr_length) n, u_cb, NULL);
	if ((r == 0) != ok) mc_fail("iteration of %02x %02x %02x %02x (%d bytes) gives %d", s[0], s[1], s[2], s[3], n, r);
	if (gotn != en || memcmp(got, e, sizeof(*e) * (size_t) en)) mc_fail("characters of %02x %02x %02x %02x (%d bytes)", s[0], s[1], s[2], s[3], n);
}
static void utf (void) {
	static const uint8_t rep[] = { 0, 'a', 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf8, 0xff };
	int a = mc_choose(256, "first"), b = mc_choose(256, "second");
	uint8_t s[8] = { (uint8_t) a, (uint8_t) b };
	if (!b) utf_one(s, 1);
	if (!b && !a) utf_one(s, 0);
	utf_one(s, 2);
	int step = mc_tier() ? 1 : 1;
	for (int c = 0; c < 256; c += step) { s[2] = (uint8_t) c; utf_one(s, 3); }
	for (int i = 0; i < 26; i++) for (int j = 0; j < 26; j++) {
		s[2] = rep[i]; s[3] = rep[j]; utf_one(s, 4);
		if (mc_tier()) for (int k = 0; k < 26; k++) { s[4] = rep[k]; utf_one(s, 5); }
	}
	mc_step();
}
/* every code point */
static void utf_all (void) {
	uint32_t base = (uint32_t) mc_choose(0x110, "plane") << 12;
	for (uint32_t c = base; c < base + 0x1000; c++) {
		if (c >= 0xd800 && c <= 0xdfff) continue;
		uint8_t s[8] = {0}; int n;
		if (c < 0x80) { s[0] = (uint8_t) c; n = 1; }
		else if (c < 0x800) { s[0] = (uint8_t) (0xc0 | c >> 6); s[1] = 0x80 | (c & 63); n = 2; }
		else if (c < 0x10000) { s[0] = (uint8_t) (0xe0 | c >> 12); s[1] = 0x80 | (c >> 6 & 63); s[2] = 0x80 | (c & 63); n = 3; }
		else { s[0] = (uint8_t) (0xf0 | c >> 18); s[1] = 0x80 | (c >> 12 & 63); s[2] = 0x80 | (c >> 6 & 63); s[3] = 0x80 | (c & 63); n = 4; }
		const char *p = (char *) s; uint32_t r = 0;
		mc_check(rrr_utf8_get_character(&r, &p, (char *) s + n) == 0 && r == c && p == (char *) s + n, "U+%04X", c);
		utf_one(s, n);
		mc_step();
	}
}

/* ---- checksums ---- */
static uint32_t ref_crc (const uint8_t *d, int n) {
	uint32_t c = 0xffffffffu;
	for (int i = 0; i < n; i++) { c ^= d[i]; for (int k = 0; k < 8; k++) c = c & 1 ? (c >> 1) ^ 0xedb88320u : c >> 1; }
	return ~c;
}
static void sums_one (const uint8_t *d, int n, int splits) {
	uint8_t *in = exact(d, n);
	uint32_t c = rrr_crc32buf((char *) in, (rrr_biglength) n), e = ref_crc(d, n);
	mc_check(c == e, "crc32 of %d bytes is %08x instead of %08x", n, c, e);
	mc_check(rrr_crc32cmp((char *) in, (rrr_biglength) n, e) == 0, "crc32cmp refuses");
	for (int b = 0; b < 32; b++) mc_check(rrr_crc32cmp((char *) in, (rrr_biglength) n, e ^ 1u << b) != 0, "crc32cmp accepts a wrong checksum");
	uint8_t h[32], eh[32];
	rrr_sha256_calculate(h, in, (size_t) n); SHA256(d, (size_t) n, eh);
	mc_check(!memcmp(h, eh, 32), "sha256 of %d bytes", n);
	SHA1(d, (size_t) n, eh);
	for (int s = 0; s <= (splits ? n : 0); s++) {
		rrr_SHA1Context x; rrr_SHA1Reset(&x);
		rrr_SHA1Input(&x, in, (unsigned) s); rrr_SHA1Input(&x, in + s, (unsigned) (n - s));
		mc_check(rrr_SHA1Result(&x) == 1, "sha1 failed");
		rrr_SHA1toBE(&x);
		mc_check(!memcmp(x.Message_Digest, eh, 20), "sha1 of %d bytes in two parts, the first of %d", n, s);
		mc_check(rrr_SHA1Result(&x) == 1, "second result");
		mc_step();
	}
	free(in);
}
static void sums (void) {
	uint8_t d[5000];
	int mode = mc_choose(3, "mode");
	if (mode == 0) { d[0] = (uint8_t) mc_choose(256, "byte"); sums_one(d, 1, 1); for (int b = 0; b < 256; b++) { d[1] = (uint8_t) b; sums_one(d, 2, 0); } return; }
	int n = mode == 1 ? mc_choose(mc_tier() ? 400 : 200, "length") : 64 * mc_choose(70, "blocks") + mc_choose(3, "off"), p = mc_choose(4, "pattern");
	for (int i = 0; i < n; i++) d[i] = (uint8_t) (p == 0 ? 0 : p == 1 ? 255 : p == 2 ? i * 37 + 11 : (i * i) ^ (i >> 3));
	sums_one(d, n, mode == 1);
}
static void endian (void) {
	int a = mc_choose(256, "a"), b = mc_choose(256, "b");
	uint8_t p[8] = { (uint8_t) a, (uint8_t) b, (uint8_t) (a + 1), (uint8_t) (b ^ 0x5a), (uint8_t) (b + 7), (uint8_t) ~a, 0x80, 3 };
	uint64_t be = 0, le = 0, x; uint32_t y; uint16_t z;
	for (int i = 0; i < 8; i++) { be = be << 8 | p[i]; le |= (uint64_t) p[i] << (8 * i); }
	memcpy(&x, p, 8); memcpy(&y, p, 4); memcpy(&z, p, 2);
	uint32_t be4 = (uint32_t) (be >> 32), le4 = (uint32_t) le; uint16_t be2 = (uint16_t) (be >> 48), le2 = (uint16_t) le;
	mc_check(rrr_be64toh(x) == be && rrr_le64toh(x) == le && rrr_htobe64(be) == x && rrr_htole64(le) == x, "64 bits");
	mc_check(rrr_be32toh(y) == be4 && rrr_le32toh(y) == le4 && rrr_htobe32(be4) == y && rrr_htole32(le4) == y, "32 bits");
	mc_check(rrr_be16toh(z) == be2 && rrr_le16toh(z) == le2 && rrr_htobe16(be2) == z && rrr_htole16(le2) == z, "16 bits");
	mc_step();
}
/* ---- gzip ---- */
static int inf (const uint8_t *d, int n, uint8_t *o, int max) {
	z_stream s = {0}; if (inflateInit2(&s, 47) != Z_OK) mc_error("inflateInit");
	s.next_in = (Bytef *) d; s.avail_in = (uInt) n; s.next_out = o; s.avail_out = (uInt) max;
	int r = inflate(&s, Z_FINISH), l = (int) s.total_out; inflateEnd(&s);
	return r == Z_STREAM_END ? l : -1;
}
static void gz (void) {
	static const int lens[] = { 0, 1, 2, 3, 4, 5, 15, 16, 17, 31, 64, 100, 255, 1000, 1024, 4096, 5000 };
	static const unsigned outs[] = { 1, 2, 3, 7, 16, 64, 1024, 4096, 100000 };
	static uint8_t d[5000], o[6000];
	int n = mc_pick(lens, 17, "length"), p = mc_choose(3, "pattern");
	unsigned so = outs[mc_choose(9, "compress buffer step")], sd = outs[mc_choose(9, "decompress buffer step")];
	uint32_t rnd = 12345;
	for (int i = 0; i < n; i++) { rnd = rnd * 1103515245u + 12345u; d[i] = (uint8_t) (p == 0 ? 'a' : p == 1 ? i / 3 : rnd >> 16); }
	uint8_t *in = exact(d, n);
	char *z = NULL, *u = NULL; rrr_biglength zl = 0, ul = 0;
	mc_check(rrr_zlib_gzip_compress_with_outsize(&z, &zl, (char *) in, (rrr_length) n, so) == 0 && z, "compression of %d bytes with buffer step %u failed", n, so);
	mc_check(inf((uint8_t *) z, (int) zl, o, sizeof(o)) == n && !memcmp(o, d, (size_t) n), "zlib does not decompress to the same data");
	uint8_t *ze = exact(z, (int) zl);
	mc_check(rrr_zlib_gzip_decompress_with_outsize(&u, &ul, (char *) ze, (rrr_length) zl, sd) == 0 && ul == (rrr_biglength) n && !memcmp(u, d, (size_t) n), "decompression with buffer step %u gives %" PRIu64 " bytes instead of %d", sd, (uint64_t) ul, n);
	rrr_free(u); free(ze); rrr_free(z); free(in);
	mc_obs(zl); mc_step();
}
static void gzbad (void) {
	static const int lens[] = { 0, 1, 5, 40, 300 };
	static const unsigned outs[] = { 1, 7, 64, 4096 };
	static uint8_t d[5000], o[20000];
	int n = mc_pick(lens, 5, "length"), p = mc_choose(2, "pattern"); unsigned sd = outs[mc_choose(4, "buffer step")];
	uint32_t rnd = 12345;
	for (int i = 0; i < n; i++) { rnd = rnd * 1103515245u + 12345u; d[i] = (uint8_t) (p ? rnd >> 16 : 'a' + i % 3); }
	char *z = NULL; rrr_biglength zl = 0;
	mc_check(rrr_zlib_gzip_compress(&z, &zl, (char *) d, (rrr_length) n) == 0, "compress");
	int what = mc_choose(2, "truncate or change"), l = (int) zl;
	int pos = mc_choose(l, "position");
	uint8_t *ze;
	if (what == 0) { ze = exact(z, pos); l = pos; }
	else { ze = exact(z, l); static const uint8_t x[] = { 1, 2, 4, 8, 16, 32, 64, 128, 255 }; ze[pos] ^= x[mc_choose(9, "xor")]; }
	char *u = (char *) 1; rrr_biglength ul = 7;
	int e = inf(ze, l, o, sizeof(o));
	int viaz = mc_bool("nullsafe");
	int r;
	if (viaz) {
		struct rrr_nullsafe_str *a = NULL, *b = NULL;
		if (rrr_nullsafe_str_new_or_replace_raw(&a, ze, (rrr_nullsafe_len) l) || rrr_nullsafe_str_new_or_replace_raw(&b, "", 0)) mc_error("nullsafe");
		r = rrr_zlib_gzip_decompress_nullsafe(b, a);
		if (r == 0) { ul = rrr_nullsafe_str_len(b); u = malloc(ul + 1); rrr_biglength wl = 0; rrr_nullsafe_str_copyto(&wl, u, ul, b); }
		rrr_nullsafe_str_destroy_if_not_null(&a); rrr_nullsafe_str_destroy_if_not_null(&b);
	}
	else r = rrr_zlib_gzip_decompress_with_outsize(&u, &ul, (char *) ze, (rrr_length) l, sd);
	if (e < 0) mc_check(r != 0, "damaged data (%s at %d of %d) was decompressed to %" PRIu64 " bytes", what ? "changed" : "cut", pos, (int) zl, (uint64_t) ul);
	else mc_check(r == 0 && (int) ul == e && (e == 0 || !memcmp(u, o, (size_t) e)), "decompression gives %d", r);
	if (r == 0) { if (viaz) free(u); else rrr_free(u); }
	free(ze); rrr_free(z);
	mc_obs((uint64_t) (e + 1)); mc_step();
}
static const struct mc_scenario sc[] = {
	{ "b64enc", b64enc, -1, -1, MC_LEAKCHECK, NULL },
	{ "b64dec", b64dec, -1, -1, MC_LEAKCHECK, NULL },
	{ "utf8", utf, -1, -1, 0, NULL },
	{ "utf8all", utf_all, -1, -1, 0, NULL },
	{ "sums", sums, -1, -1, MC_LEAKCHECK, NULL },
	{ "endian", endian, -1, -1, MC_LEAKCHECK, NULL },
	{ "gzip", gz, -1, -1, MC_LEAKCHECK, NULL },
	{ "gzbad", gzbad, -1, -1, MC_LEAKCHECK, NULL },
};
int main (int c, char **v) { return mc_main(c, v, "C31", sc, sizeof(sc) / sizeof(*sc)); }
