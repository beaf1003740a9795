// FLAVOR: asan
/* C16: HDLC framing. Exhaustive enumeration of byte streams over the special octets, with every
 * fragmentation, compared with an independent decoder. */
#include "mc.h"
#include "lib/rrr_types.h"
#include "lib/parse.h"
#include "lib/hdlc/hdlc.h"

#define MAXF 40
struct frames { int n; int len[MAXF]; unsigned char d[MAXF][64]; int err; int consumed; };

/* Reference: delimiter 7e, escape 7d with xor 20, empty frames ignored, everything before the
 * first delimiter is noise. After a frame both its delimiters are consumed. */
static void ref_decode (struct frames *f, const unsigned char *s, int n) {
	memset(f, 0, sizeof(*f));
	int i = 0;
	for (;;) {
		while (i < n && s[i] != 0x7e) i++;
		if (i >= n) return;
		while (i < n && s[i] == 0x7e) i++;
		unsigned char b[64]; int l = 0;
		for (;;) {
			if (i >= n) return;
			unsigned char c = s[i++];
			if (c == 0x7e) break;
			if (c == 0x7d) {
				if (i >= n) return;
				c = s[i++] ^ 0x20;
			}
			b[l++] = c;
		}
		f->len[f->n] = l; memcpy(f->d[f->n], b, (size_t) l); f->n++;
		f->consumed = i;
	}
}

static void take (struct frames *f, const struct rrr_hdlc_parse_state *st, struct rrr_parse_pos *pos) {
	int l = (int) RRR_HDLC_DATA_SIZE(st);
	mc_check(f->n < MAXF && l < 64, "too much output");
	f->len[f->n] = l; memcpy(f->d[f->n], RRR_HDLC_DATA(st), (size_t) l); f->n++;
	f->consumed = (int) pos->pos;
}
static void cmp (const struct frames *a, const struct frames *b, const char *how) {
	mc_step();
	mc_check(a->n == b->n, "%s: %d frames instead of %d", how, a->n, b->n);
	for (int i = 0; i < a->n; i++)
		mc_check(a->len[i] == b->len[i] && !memcmp(a->d[i], b->d[i], (size_t) a->len[i]), "%s: frame %d has other data (%d bytes, expected %d)", how, i, a->len[i], b->len[i]);
	mc_check(a->n == 0 || a->consumed == b->consumed, "%s: position %d after the last frame instead of %d", how, a->consumed, b->consumed);
}

/* As the array importer does: parse from the start of the unconsumed data, whole buffer present */
static void dec_whole (struct frames *f, const unsigned char *s, int n, int avail) {
	memset(f, 0, sizeof(*f));
	static struct rrr_hdlc_parse_state st;
	unsigned char *buf = malloc((size_t) avail + 1); memcpy(buf, s, (size_t) avail);
	unsigned char *ex = malloc((size_t) (avail ? avail : 1)); memcpy(ex, s, (size_t) avail);
	free(buf);
	struct rrr_parse_pos pos;
	rrr_parse_pos_init(&pos, (char *) ex, (rrr_length) avail);
	for (;;) {
		memset(&st, 0xa5, sizeof(st.result_wpos) + 64);
		rrr_hdlc_parse_state_init(&st, &pos);
		int r = rrr_hdlc_parse_frame(&st);
		if (r == RRR_HDLC_INCOMPLETE) { mc_check(pos.pos == pos.size, "incomplete, but input was left"); break; }
		mc_check(r == RRR_HDLC_OK, "return value %d", r);
		take(f, &st, &pos);
	}
	free(ex);
}
/* Incremental with one state: more and more data becomes available; cut bitmap gives the fragmentation */
static void dec_frag (struct frames *f, const unsigned char *s, int n, unsigned cuts) {
	memset(f, 0, sizeof(*f));
	static struct rrr_hdlc_parse_state st;
	struct rrr_parse_pos pos;
	unsigned char *ex = malloc((size_t) n + 1); 
	memset(ex, 0x7e, (size_t) n + 1);  /* bytes which are not there yet */
	rrr_parse_pos_init(&pos, (char *) ex, 0);
	memset(&st, 0xa5, sizeof(st.result_wpos) + 64);
	rrr_hdlc_parse_state_init(&st, &pos);
	for (int i = 0; i < n; i++) {
		ex[i] = s[i];
		if (!(cuts & (1u << i)) && i != n - 1) continue;
		pos.size = (rrr_length) i + 1;
		for (;;) {
			int r = rrr_hdlc_parse_frame(&st);
			if (r == RRR_HDLC_INCOMPLETE) break;
			mc_check(r == RRR_HDLC_OK, "return value %d", r);
			take(f, &st, &pos);
			rrr_hdlc_parse_state_init(&st, &pos);
		}
	}
	free(ex);
}

static void s_stream (void) {
	static const unsigned char A[] = {0x7e, 0x7d, 0x5e, 0x41, 0x5d, 0xff};
	int max = mc_tier() ? 8 : 7;
	int n = mc_choose(max + 1, "len");
	unsigned char s[16];
	for (int i = 0; i < n; i++) s[i] = A[mc_choose(6, "byte")];
	struct frames want, got;
	ref_decode(&want, s, n);
	dec_whole(&got, s, n, n); cmp(&want, &got, "whole");
	for (unsigned cuts = 0; cuts < (1u << (n > 1 ? n - 1 : 0)); cuts++) { dec_frag(&got, s, n, cuts); cmp(&want, &got, "fragmented"); }
	mc_obs((uint64_t) want.n); for (int i = 0; i < want.n; i++) mc_obs_mem(want.d[i], (size_t) want.len[i]);
	if (mc_logging()) { mc_log("stream:"); for (int i = 0; i < n; i++) mc_log(" %02x", s[i]); mc_log("-> %d frames", want.n); }
}

static int export (unsigned char *out, const unsigned char *d, int n) {
	rrr_length want = 0, wr = 0;
	mc_check(rrr_hdlc_get_export_length(&want, (const char *) d, (rrr_length) n) == 0, "export length failed");
	char *b = malloc(want);
	rrr_hdlc_export_frame(b, &wr, (const char *) d, (rrr_length) n);
	mc_check(wr == want, "exported %u bytes, announced %u", (unsigned) wr, (unsigned) want);
	int e = 2; for (int i = 0; i < n; i++) e += (d[i] == 0x7e || d[i] == 0x7d) ? 2 : 1;
	mc_check((int) wr == e, "exported length %u, expected %d", (unsigned) wr, e);
	mc_check((unsigned char) b[0] == 0x7e && (unsigned char) b[wr-1] == 0x7e, "delimiters");
	for (rrr_length i = 1; i + 1 < wr; i++) mc_check((unsigned char) b[i] != 0x7e, "delimiter inside exported frame");
	memcpy(out, b, wr);
	free(b);
	return (int) wr;
}
/* noise + frame + noise + frame: both payloads come back */
static void s_roundtrip (void) {
	static const unsigned char A[] = {0x7e, 0x7d, 0x5e, 0x00};
	unsigned char p[2][8], s[128]; int pl[2], n = 0;
	struct frames got;
	for (int k = 0; k < 2; k++) {
		int nn = mc_choose(3, "noise");
		for (int i = 0; i < nn; i++) s[n++] = i ? 0x7d : 0x41;
		pl[k] = 1 + mc_choose(mc_tier() ? 5 : 4, "plen");
		for (int i = 0; i < pl[k]; i++) p[k][i] = A[mc_choose(4, "byte")];
		n += export(s + n, p[k], pl[k]);
	}
	dec_whole(&got, s, n, n);
	mc_check(got.n == 2, "%d frames received of 2", got.n);
	for (int k = 0; k < 2; k++) mc_check(got.len[k] == pl[k] && !memcmp(got.d[k], p[k], (size_t) pl[k]), "payload %d differs", k);
	/* every prefix gives a prefix of the frames */
	int last = 0;
	for (int a = 0; a <= n; a++) {
		struct frames g2; dec_whole(&g2, s, n, a);
		mc_check(g2.n >= last && g2.n <= 2, "frames disappear with more data");
		for (int k = 0; k < g2.n; k++) mc_check(g2.len[k] == pl[k] && !memcmp(g2.d[k], p[k], (size_t) pl[k]), "payload %d differs with a prefix of the stream", k);
		last = g2.n;
		mc_step();
	}
	mc_obs((uint64_t) n); mc_obs_mem(s, (size_t) n);
}
/* every pair of byte values */
static void s_bytes (void) {
	unsigned char p[3], s[16]; struct frames got;
	p[0] = (unsigned char) mc_choose(256, "b0"); p[1] = (unsigned char) mc_choose(256, "b1"); p[2] = 0x11;
	int n = export(s, p, 3);
	dec_whole(&got, s, n, n);
	mc_check(got.n == 1 && got.len[0] == 3 && !memcmp(got.d[0], p, 3), "payload %02x %02x differs", p[0], p[1]);
	mc_obs_mem(s, (size_t) n); mc_step();
}
/* sizes around the maximum: a frame which fits is delivered, others are refused and never overflow */
static void s_size (void) {
	int size = 4085 + mc_choose(20, "size");
	int esc = mc_choose(3, "escapes");
	unsigned char *d = malloc((size_t) size), *s = malloc(2 * (size_t) size + 16);
	memset(d, 'a', (size_t) size);
	if (esc) memset(d, esc == 1 ? 0x7e : 0x7d, 7);
	int n = 0;
	s[n++] = 0x7e;
	for (int i = 0; i < size; i++) { if (d[i] == 0x7e || d[i] == 0x7d) { s[n++] = 0x7d; s[n++] = d[i] ^ 0x20; } else s[n++] = d[i]; }
	s[n++] = 0x7e;
	struct rrr_hdlc_parse_state *st = malloc(sizeof(*st)); struct rrr_parse_pos pos;
	rrr_parse_pos_init(&pos, (char *) s, (rrr_length) n);
	rrr_hdlc_parse_state_init(st, &pos);
	int r = rrr_hdlc_parse_frame(st);
	if (size < RRR_HDLC_MAX) mc_check(r == RRR_HDLC_OK && (int) RRR_HDLC_DATA_SIZE(st) == size && !memcmp(RRR_HDLC_DATA(st), d, (size_t) size), "frame of %d bytes is not delivered (%d)", size, r);
	else if (size > RRR_HDLC_MAX) mc_check(r == RRR_HDLC_SOFT_ERROR, "oversized frame of %d bytes gives %d", size, r);
	else mc_check(r == RRR_HDLC_SOFT_ERROR || (r == RRR_HDLC_OK && (int) RRR_HDLC_DATA_SIZE(st) == size), "size %d", size);
	rrr_length l = 0;
	int e = rrr_hdlc_get_export_length(&l, (char *) d, (rrr_length) size);
	mc_check((e != 0) == (n > RRR_HDLC_MAX), "export length of %d stuffed bytes: %d", n, e);
	mc_check(e != 0 || (int) l == n, "export length %u, expected %d", (unsigned) l, n);
	free(st); free(d); free(s);
	mc_obs((uint64_t) r); mc_obs((uint64_t) size); mc_step();
}

int main (int argc, char **argv) {
	static const struct mc_scenario s[] = {
		{"stream", s_stream, -1, -1, MC_LEAKCHECK},
		{"roundtrip", s_roundtrip, -1, -1, MC_LEAKCHECK},
		{"bytes", s_bytes, -1, -1, MC_LEAKCHECK},
		{"size", s_size, -1, -1, MC_LEAKCHECK},
	};
	return mc_main(argc, argv, "C16", s, 4);
}
