// FLAVOR: asan
/* C10: topic filters vs topics (tokenized, string, linear and message matchers) and access control lists,
 * every filter/topic over a small alphabet, every small ACL, compared with an independent level-list model. */
#include "mc.h"
#include <unistd.h>
#include <fcntl.h>
#include "lib/rrr_types.h"
#include "lib/mqtt/mqtt_topic.h"
#include "lib/mqtt/mqtt_acl.h"
#include "lib/messages/msg_msg.h"
#include "lib/allocator.h"

/* ---- model ---- */
static int split (const char *s, char lv[][16]) {
	int n = 0, l = 0;
	for (;; s++) {
		if (*s == '/' || !*s) { lv[n][l] = 0; n++; l = 0; if (!*s) return n; }
		else lv[n][l++] = *s;
	}
}
static int ref_filter_ok (const char *f) {
	char lv[16][16]; int n = split(f, lv);
	for (int i = 0; i < n; i++) {
		if (strchr(lv[i], '+') && strcmp(lv[i], "+")) return 0;
		if (strchr(lv[i], '#') && (strcmp(lv[i], "#") || i != n - 1)) return 0;
	}
	return 1;
}
static int ref_topic_ok (const char *t) { return *t && !strpbrk(t, "+#"); }
/* A wildcard does not match a level which begins with $ and # needs at least one level (this is how RRR defines it) */
static int ref_match (const char *f, const char *t) {
	char a[16][16], b[16][16]; int n = split(f, a), m = split(t, b);
	for (int i = 0; i < n; i++) {
		if (i >= m) return 0;
		if (!strcmp(a[i], "#")) return b[i][0] != '$';
		if (!strcmp(a[i], "+")) { if (b[i][0] == '$') return 0; }
		else if (strcmp(a[i], b[i])) return 0;
	}
	return n == m;
}
/* Rule (master) against a subscription filter */
static int ref_match_acl (const char *f, const char *t) {
	char a[16][16], b[16][16]; int n = split(f, a), m = split(t, b);
	for (int i = 0; i < n; i++) {
		if (i >= m) return 0;
		if (!strcmp(a[i], "#")) return 1;
		if (!strcmp(b[i], "#")) return 0;
		if (!strcmp(a[i], "+") || !strcmp(b[i], "+")) { if (a[i][0] == '$') return 0; }
		else if (strcmp(a[i], b[i])) return 0;
	}
	return n == m;
}

static void gen (char *o, const char *alpha, int max, const char *label) {
	int n = 0, k = (int) strlen(alpha);
	while (n < max) { int c = mc_choose(k + 1, label); if (c == 0) break; o[n++] = alpha[c - 1]; }
	o[n] = 0;
}

static struct rrr_mqtt_topic_token *tokens (const char *s) {
	struct rrr_mqtt_topic_token *t = NULL;
	mc_check(rrr_mqtt_topic_tokenize(&t, s) == 0, "tokenize failed");
	char lv[16][16]; int n = *s ? split(s, lv) : 0, i = 0;
	for (struct rrr_mqtt_topic_token *p = t; p; p = p->next, i++) {
		mc_check(i < n && !strcmp(p->data, lv[i]), "'%s': level %d is '%s'", s, i, p->data);
	}
	mc_check(i == n, "'%s': %d levels instead of %d", s, i, n);
	return t;
}

static void one_match (const char *f, const char *t) {
	int e = ref_match(f, t);
	mc_step();
	struct rrr_mqtt_topic_token *a = tokens(f), *b = tokens(t);
	int r = rrr_mqtt_topic_match_tokens_recursively(a, b);
	mc_check((r == RRR_MQTT_TOKEN_MATCH) == e, "filter '%s' topic '%s': tokenized match gives %d, expected %s", f, t, r, e ? "match" : "mismatch");
	struct rrr_mqtt_topic_token *c = NULL;
	mc_check(rrr_mqtt_topic_tokens_clone(&c, a) == 0, "clone failed");
	r = rrr_mqtt_topic_match_tokens_recursively(c, b);
	mc_check((r == RRR_MQTT_TOKEN_MATCH) == e, "filter '%s' topic '%s': cloned match gives %d", f, t, r);
	r = rrr_mqtt_topic_match_tokens_recursively_acl(a, b);
	mc_check((r == RRR_MQTT_TOKEN_MATCH) == ref_match_acl(f, t), "rule '%s' topic '%s': %d", f, t, r);
	rrr_mqtt_topic_token_destroy(a); rrr_mqtt_topic_token_destroy(b); rrr_mqtt_topic_token_destroy(c);
	r = rrr_mqtt_topic_match_str(f, t);
	mc_check((r == RRR_MQTT_TOKEN_MATCH) == e, "filter '%s' topic '%s': string match gives %d", f, t, r);
	/* In a message the topic is followed by data, which may be anything */
	static const char *after[] = { NULL, "$", "/", "a", "#" };
	for (int k = 0; k < 5; k++) {
		size_t tl = strlen(t), al = after[k] ? 1 : 0;
		char *ex = malloc(tl + al); memcpy(ex, t, tl); if (al) ex[tl] = after[k][0];
		r = rrr_mqtt_topic_match_topic_and_linear_with_end(ex, ex + tl, f, f + strlen(f));
		mc_check((r == RRR_MQTT_TOKEN_MATCH) == e, "filter '%s' topic '%s' followed by '%s': linear match gives %d, expected %s", f, t, after[k] ? after[k] : "", r, e ? "match" : "mismatch");
		r = rrr_mqtt_topic_match_str_with_end(f, ex, ex + tl);
		mc_check((r == RRR_MQTT_TOKEN_MATCH) == e, "filter '%s' topic '%s' followed by '%s': string match gives %d", f, t, after[k] ? after[k] : "", r);
		free(ex);
	}
	mc_obs((uint64_t) e);
}
static void msg_match (const char *f, const char *t) {
	struct rrr_msg_msg *msg = NULL;
	mc_check(rrr_msg_msg_new_with_data(&msg, MSG_TYPE_MSG, MSG_CLASS_DATA, 1, t, (rrr_u16) strlen(t), "$$", 2) == 0, "message");
	struct rrr_mqtt_topic_token *a = tokens(f);
	int m = 7;
	mc_check(rrr_msg_msg_topic_match(&m, msg, a) == 0, "message match failed");
	mc_check(m == (ref_topic_ok(t) && ref_match(f, t)), "filter '%s' topic '%s': message match gives %d", f, t, m);
	mc_check(rrr_msg_msg_topic_equals(msg, f) == !strcmp(f, t), "topic equals");
	rrr_mqtt_topic_token_destroy(a);
	rrr_free(msg);
}
static void match (void) {
	char f[16], t[16];
	gen(f, "a/+#$", mc_tier() ? 6 : 5, "filter");
	if (!*f || !ref_filter_ok(f)) mc_prune();
	gen(t, "a/$", mc_tier() ? 6 : 5, "topic");
	if (!*t) mc_prune();
	mc_log("'%s' '%s'", f, t);
	one_match(f, t);
	msg_match(f, t);
}
static void match2 (void) {
	char f[16], t[16];
	gen(f, "ab/+", mc_tier() ? 6 : 5, "filter");
	if (!*f || !ref_filter_ok(f)) mc_prune();
	gen(t, "ab/", mc_tier() ? 6 : 4, "topic");
	if (!*t) mc_prune();
	one_match(f, t);
}
static void validate (void) {
	char f[16];
	gen(f, "a/+#$\xc3", mc_tier() ? 7 : 6, "text");
	int utf = !strchr(f, '\xc3');
	mc_step();
	if (*f) mc_check((rrr_mqtt_topic_filter_validate_name(f) == 0) == (utf && ref_filter_ok(f)), "filter '%s': expected %s", f, utf && ref_filter_ok(f) ? "valid" : "invalid");
	mc_check((rrr_mqtt_topic_validate_name(f) == 0) == (utf && ref_topic_ok(f)), "topic '%s': expected %s", f, utf && ref_topic_ok(f) ? "valid" : "invalid");
	size_t l = strlen(f); char *ex = malloc(l + 1); memcpy(ex, f, l); ex[l] = '#';
	mc_check((rrr_mqtt_topic_validate_name_with_end(ex, ex + l) == 0) == (utf && ref_topic_ok(f)), "topic '%s' with end", f);
	free(ex);
}
static void acl_match (void) {
	char f[16], t[16];
	gen(f, "a/+#$", mc_tier() ? 5 : 4, "rule");
	if (!*f || !ref_filter_ok(f)) mc_prune();
	gen(t, "a/+#$", mc_tier() ? 5 : 4, "subscription");
	if (!*t || !ref_filter_ok(t)) mc_prune();
	mc_step();
	struct rrr_mqtt_topic_token *a = tokens(f), *b = tokens(t);
	int r = rrr_mqtt_topic_match_tokens_recursively_acl(a, b);
	mc_check((r == RRR_MQTT_TOKEN_MATCH) == ref_match_acl(f, t), "rule '%s' subscription '%s': %d", f, t, r);
	rrr_mqtt_topic_token_destroy(a); rrr_mqtt_topic_token_destroy(b);
}

/* ---- ACL files ---- */
static const char *rules[] = { "#", "a", "a/b", "a/+", "a/#", "$S/#", "+/b" };
static const char *query[] = { "a", "b", "a/b", "a/c", "a/b/c", "$S/x", "b/b", "a/+", "a/#", "#", "+/+", "$S/#" };
static const char *users[] = { NULL, "", "u1", "u2", "sys9", "u", "u11", "U1", "u1 " };
static const char *acts[3][3] = { { "DENY", "deny", "Deny" }, { "READ", "read", "rEAD" }, { "WRITE", "write", "Write" } };
struct blk { int topic, def, nu; int user[2], act[2]; };

static int load (struct rrr_mqtt_acl *acl, const char *text, int len) {
	char path[256]; snprintf(path, sizeof(path), "%s/acl", mc_scratch());
	int fd = open(path, O_CREAT | O_TRUNC | O_WRONLY, 0600);
	if (fd < 0 || write(fd, text, (size_t) len) != len) mc_error("scratch file");
	close(fd);
	memset(acl, 0, sizeof(*acl));
	return rrr_mqtt_acl_entry_collection_populate_from_file(acl, path);
}
static int render (char *o, const struct blk *b, int n, int style) {
	static const char *nl[] = { "\n", "\r\n", "\n\n", "\n# c TOPIC x\n", "\n\t # c\n\n" };
	static const char *ind[] = { "\t", "", "  ", " \t", "" };
	int l = 0;
	if (style >= 3) l += sprintf(o + l, "# comment\n\n");
	for (int i = 0; i < n; i++) {
		l += sprintf(o + l, "%s %s%s", style == 1 ? "topic" : "TOPIC", rules[b[i].topic], nl[style]);
		int first = style & 1;
		for (int k = 0; k < 2; k++) {
			if (k == first && b[i].def) l += sprintf(o + l, "%s%s%s%s%s", ind[style], style == 1 ? "default" : "DEFAULT", style == 2 ? " \t " : " ", acts[b[i].def - 1][style % 3], nl[style]);
			if (k != first) for (int u = 0; u < b[i].nu; u++) l += sprintf(o + l, "%sUSER %s%s%s%s", ind[style], users[2 + b[i].user[u]], style == 2 ? "\t" : " ", acts[b[i].act[u]][(style + u) % 3], nl[style]);
		}
	}
	if (style == 2) while (l && (o[l - 1] == '\n')) l--; /* no newline at the end */
	o[l] = 0;
	return l;
}
static void acl_run (int nblk, int maxu) {
	struct blk b[3]; int n = 1 + mc_choose(nblk, "blocks");
	for (int i = 0; i < n; i++) {
		b[i].topic = mc_choose(7, "topic"); b[i].def = mc_choose(4, "default"); b[i].nu = mc_choose(maxu + 1, "users");
		for (int u = 0; u < b[i].nu; u++) { b[i].user[u] = mc_choose(n == 1 ? 3 : 2, "user"); b[i].act[u] = mc_choose(3, "action"); }
	}
	int style = n == 1 ? mc_choose(5, "style") : (b[0].topic + b[1].topic + b[0].def) % 5;
	char text[2048]; int l = render(text, b, n, style);
	struct rrr_mqtt_acl acl;
	mc_check(load(&acl, text, l) == 0, "file was refused:\n%s", text);
	for (int q = 0; q < 12; q++) {
		struct rrr_mqtt_topic_token *t = tokens(query[q]);
		int sub = !!strpbrk(query[q], "+#");
		for (int u = 0; u < 9; u++) for (int lv = 1; lv <= 2; lv++) for (int m = sub; m < 2; m++) {
			int act = 0;
			for (int i = 0; i < n; i++) {
				if (!(m ? ref_match_acl(rules[b[i].topic], query[q]) : ref_match(rules[b[i].topic], query[q]))) continue;
				act = b[i].def ? b[i].def - 1 : 0;
				for (int k = 0; k < b[i].nu; k++) if (u >= 2 && b[i].user[k] == u - 2) act = b[i].act[k];
			}
			int r = rrr_mqtt_acl_check_access(&acl, t, lv, users[u], m ? rrr_mqtt_topic_match_tokens_recursively_acl : rrr_mqtt_topic_match_tokens_recursively);
			mc_step();
			mc_check(r == (act >= lv ? RRR_MQTT_ACL_RESULT_ALLOW : RRR_MQTT_ACL_RESULT_DENY), "user '%s' level %d topic '%s'%s: %d, in effect is %s. File:\n%s", users[u] ? users[u] : "(none)", lv, query[q], m ? " (subscribe)" : "", r, acts[act][0], text);
		}
		rrr_mqtt_topic_token_destroy(t);
	}
	rrr_mqtt_acl_entry_collection_clear(&acl);
}
static void acl1 (void) { acl_run(1, 2); }
static void acl2 (void) { acl_run(2, 1); }
static void acl3 (void) { acl_run(2, 2); }

static const char *bad[] = {
	"DEFAULT WRITE\n", "USER u1 READ\n", "TOPIC\n", "TOPIC", "TOPIC \n", "TOPIC a\nDEFAULT\n", "TOPIC a\nDEFAULT", "TOPIC a\nDEFAULT\nWRITE\n", "TOPIC a\nDEFAULT WRITE READ\n",
	"TOPIC a\nDEFAULT WRITEX\n", "TOPIC a\nDEFAULT WRITE\nDEFAULT READ\n", "TOPIC a\nUSER\n", "TOPIC a\nUSER u1\n", "TOPIC a\nUSER u1", "TOPIC a\nUSER u1\nREAD\n", "TOPIC a\nUSER u1 READ junk\n",
	"TOPIC a\nUSER u1 REED\n", "TOPIC a\nUSER - READ\n", "TOPIC a\nFOO\n", "TOPIC a\nDEFAULT ALLOW\n", "TOPIC a+\n", "TOPIC #/a\n", "TOPIC a/#/b\n", "TOPIC +a\n", "TOPIC \xc3\n", "FOO\n", "TOPIC a\nDEFAULT READ\nTOPIC ++\n",
	"TOPICa\n", "TOPIC a\nDEFAULTWRITE\n", "TOPIC a\nUSER u1READ\n", "TOPIC a\nDEFAULT WRITE # x\n", "TOPIC\n# c\na\n", "TOPIC a\n# c\nUSER\n", "TOPIC a\nDEFAULT READ\n\nDEFAULT READ\n",
};
static const char *empty[] = { "", "\n", "# only a comment", "# only a comment\n", "\n\n \t\n", "# TOPIC #\n# DEFAULT WRITE\n" };
static void acl_bad (void) {
	struct rrr_mqtt_acl acl;
	int k = mc_choose((int) (sizeof(bad) / sizeof(*bad)) + 6, "file");
	int nb = (int) (sizeof(bad) / sizeof(*bad));
	const char *txt = k < nb ? bad[k] : empty[k - nb];
	char t2[256]; int pre = mc_choose(2, "valid block first");
	snprintf(t2, sizeof(t2), "%s%s", pre ? "TOPIC #\nDEFAULT WRITE\n" : "", txt);
	if (k < nb && pre && (!strncmp(txt, "USER u1 READ", 12))) mc_prune();
	int r = load(&acl, t2, (int) strlen(t2));
	mc_step();
	struct rrr_mqtt_topic_token *t = tokens("x");
	int acc = rrr_mqtt_acl_check_access(&acl, t, 1, "u1", rrr_mqtt_topic_match_tokens_recursively);
	if (k < nb) {
		mc_check(r != 0, "malformed file was accepted:\n%s", t2);
		mc_check(acc == RRR_MQTT_ACL_RESULT_DENY, "a refused file grants access");
	} else {
		mc_check(r == 0, "file was refused:\n%s", t2);
		mc_check(acc == (pre ? RRR_MQTT_ACL_RESULT_ALLOW : RRR_MQTT_ACL_RESULT_DENY), "access %d", acc);
	}
	rrr_mqtt_topic_token_destroy(t);
	rrr_mqtt_acl_entry_collection_clear(&acl);
}
static void acl_all (void) {
	struct rrr_mqtt_acl acl = {0};
	mc_check(rrr_mqtt_acl_entry_collection_push_allow_all(&acl) == 0, "push");
	struct rrr_mqtt_topic_token *t = tokens(query[mc_choose(5, "topic")]);
	int lv = 1 + mc_choose(2, "level");
	mc_check(rrr_mqtt_acl_check_access(&acl, t, lv, users[mc_choose(6, "user")], mc_choose(2, "fn") ? rrr_mqtt_topic_match_tokens_recursively : rrr_mqtt_topic_match_tokens_recursively_acl) == 0, "denied");
	rrr_mqtt_topic_token_destroy(t);
	rrr_mqtt_acl_entry_collection_clear(&acl);
}
static const struct mc_scenario sc[] = {
	{ "match", match, -1, -1, MC_LEAKCHECK, NULL },
	{ "match2", match2, -1, -1, MC_LEAKCHECK, NULL },
	{ "validate", validate, -1, -1, MC_LEAKCHECK, NULL },
	{ "acl_match", acl_match, -1, -1, MC_LEAKCHECK, NULL },
	{ "acl1", acl1, -1, -1, MC_LEAKCHECK, NULL },
	{ "acl2", acl2, -1, -1, MC_LEAKCHECK, NULL },
	{ "acl3", acl3, -1, -1, MC_LEAKCHECK | MC_THOROUGH_ONLY, NULL },
	{ "acl_bad", acl_bad, -1, -1, MC_LEAKCHECK, NULL },
	{ "acl_all", acl_all, -1, -1, MC_LEAKCHECK, NULL },
};
int main (int c, char **v) { return mc_main(c, v, "C10", sc, sizeof(sc) / sizeof(*sc)); }
