// FLAVOR: asan
// OVERRIDE: src/rrr_passwd.c -Dmain=rrr_passwd_main
// REPO: src/main.c
// Password file: edits made by the real rrr_passwd program and authentication against the real file.
// Every operation on the file system is a crash point; the file must hold either the old or the new contents there.
#include "mc.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <dirent.h>
#include <dlfcn.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include "lib/log.h"
#include "lib/allocator.h"
#include "lib/rrr_types.h"
#include "lib/passwd.h"
#include "lib/parse.h"
#include "lib/util/base64.h"

int rrr_passwd_main (int argc, const char **argv, const char **env);

static int real_hash;
static unsigned rnd;

// Cheap but complete stand-in for the key derivation; every bit of password and salt matters
int PKCS5_PBKDF2_HMAC (const char *pass, int passlen, const unsigned char *salt, int saltlen, int iter, const void *digest, int keylen, unsigned char *out) {
	if (real_hash) {
		static int (*real)(const char *, int, const unsigned char *, int, int, const void *, int, unsigned char *);
		if (!real) real = dlsym(RTLD_NEXT, "PKCS5_PBKDF2_HMAC");
		return real(pass, passlen, salt, saltlen, iter, digest, keylen, out);
	}
	uint64_t h = 1469598103934665603ull;
	for (int i = 0; i < passlen; i++) h = (h ^ (unsigned char) pass[i]) * 1099511628211ull;
	h = (h ^ 0x100) * 1099511628211ull;
	for (int i = 0; i < saltlen; i++) h = (h ^ salt[i]) * 1099511628211ull;
	for (int i = 0; i < keylen; i++) { h = (h ^ (h >> 29) ^ (uint64_t) i) * 6364136223846793005ull + 1442695040888963407ull; out[i] = (unsigned char) (h >> 56); }
	return 1;
}
int RAND_bytes (unsigned char *b, int n) { for (int i = 0; i < n; i++) b[i] = (unsigned char) (rnd = rnd * 1103515245u + 12345u) >> 0; return 1; }

// ---------------------------------------------------------------- file system
static char dir[256], path[300], oldpath[320];
static int fs_active, fs_faults, fs_ops;
static char before[8192]; static int before_n;         // contents before the edit
static char seen[8192]; static int seen_n;             // contents which differ from before, as seen at a crash point
static int seen_changed;

static int slurp (const char *p, char *b, int max) {
	int fd = syscall(SYS_openat, AT_FDCWD, p, O_RDONLY, 0);
	if (fd < 0) return -1;
	int n = 0, r;
	while (n < max && (r = syscall(SYS_read, fd, b + n, max - n)) > 0) n += r;
	syscall(SYS_close, fd);
	return n;
}
static void spit (const char *p, const char *b, int n) {
	int fd = syscall(SYS_openat, AT_FDCWD, p, O_WRONLY|O_CREAT|O_TRUNC, 0600);
	if (fd < 0 || (n && syscall(SYS_write, fd, b, n) != n)) mc_error("could not write %s", p);
	syscall(SYS_close, fd);
}
static void crashpoint (const char *what) {
	static char now[8192];
	if (!fs_active) return;
	fs_ops++;
	int n = slurp(path, now, sizeof now);
	mc_check(n >= 0, "a crash after %s (operation %d) leaves no password file", what, fs_ops);
	if (n == before_n && !memcmp(now, before, n)) {
		mc_check(!seen_changed, "password file changed back after %s", what);
		return;
	}
	if (!seen_changed) { seen_changed = 1; seen_n = n; memcpy(seen, now, n); }
	else mc_check(seen_n == n && !memcmp(seen, now, n), "password file was changed more than once, a crash after %s (operation %d) leaves partial contents", what, fs_ops);
}
static int in_dir (const char *p) { return strncmp(p, dir, strlen(dir)) == 0; }
static int fault (const char *what) { return fs_active && fs_faults && mc_dev(2, what); }
static char out1[8192]; static int out1_n;
ssize_t write (int fd, const void *b, size_t n) {
	if (!fs_active) return syscall(SYS_write, fd, b, n);
	if (fd == 1) { if (out1_n + n < sizeof out1) { memcpy(out1 + out1_n, b, n); out1_n += n; } return n; }
	if (fd == 0) mc_fail("data was written to standard input");
	if (fd == 2) return n;
	int f = fs_faults ? mc_dev(n > 1 ? 3 : 2, "write") : 0;
	if (f == 1) { errno = ENOSPC; return -1; }
	if (f == 2) n = n / 2;
	ssize_t r = syscall(SYS_write, fd, b, n);
	crashpoint("write");
	return r;
}
int rename (const char *a, const char *b) {
	if (!in_dir(a) || !in_dir(b)) mc_error("rename %s %s", a, b);
	if (fault("rename")) { errno = EACCES; return -1; }
	int r = syscall(SYS_renameat, AT_FDCWD, a, AT_FDCWD, b);
	crashpoint("rename");
	return r;
}
int unlink (const char *a) {
	if (!fs_active) return syscall(SYS_unlinkat, AT_FDCWD, a, 0);
	if (!in_dir(a)) mc_error("unlink %s", a);
	int r = syscall(SYS_unlinkat, AT_FDCWD, a, 0);
	crashpoint("unlink");
	return r;
}
int fsync (int fd) { if (fault("fsync")) { errno = EIO; return -1; } return 0; }
int fdatasync (int fd) { return fsync(fd); }
int ftruncate (int fd, off_t n) { int r = syscall(SYS_ftruncate, fd, n); crashpoint("ftruncate"); return r; }
static int terminal_asked;
int rrr_passwd_read_password_from_terminal (char **result, int do_confirm) {
	(void)(do_confirm);
	terminal_asked++;
	*result = rrr_strdup("tty");
	return 0;
}

static void setup_dir (void) {
	snprintf(dir, sizeof dir, "%s/pw", mc_scratch());
	mkdir(dir, 0700);
	DIR *d = opendir(dir);
	struct dirent *e;
	while ((e = readdir(d))) if (e->d_name[0] != '.') { char p[600]; snprintf(p, sizeof p, "%s/%s", dir, e->d_name); syscall(SYS_unlinkat, AT_FDCWD, p, 0); }
	closedir(d);
	snprintf(path, sizeof path, "%s/F", dir);
	snprintf(oldpath, sizeof oldpath, "%s.old", path);
	rnd = 1;
}
static int dir_count (void) {
	int n = 0;
	DIR *d = opendir(dir);
	struct dirent *e;
	while ((e = readdir(d))) if (e->d_name[0] != '.') n++;
	closedir(d);
	return n;
}

// Run the program. Returns its exit code, contents before and after are in before[] and after[].
static char after[8192]; static int after_n;
static int edit (const char **args) {
	const char *argv[24] = { "rrr_passwd" }; int argc = 1;
	const char *env[] = { NULL };
	while (*args) argv[argc++] = *args++;
	argv[argc] = NULL;
	before_n = slurp(path, before, sizeof before); if (before_n < 0) { spit(path, "", 0); before_n = 0; }
	int files = dir_count();
	seen_changed = 0; fs_ops = 0; terminal_asked = 0; out1_n = 0;
	fs_active = 1;
	int ret = rrr_passwd_main(argc, argv, env);
	fs_active = 0;
	after_n = slurp(path, after, sizeof after - 1);
	if (after_n >= 0) after[after_n] = 0;
	mc_check(after_n >= 0, "no password file left after edit");
	mc_check(dir_count() == files, "%d files in the directory after the edit, %d before", dir_count(), files);
	if (ret) mc_check(after_n == before_n && !memcmp(after, before, after_n), "password file was changed although the edit failed");
	mc_step();
	return ret;
}

// ---------------------------------------------------------------- model
#define MAXU 6
#define MAXP 40
struct user { char name[16]; char perm[MAXP][12]; int np; char pass[16]; int has_pass; char hash[600]; };
struct db { struct user u[MAXU]; int n; };
static struct user *db_find (struct db *d, const char *n) { for (int i = 0; i < d->n; i++) if (!strcmp(d->u[i].name, n)) return &d->u[i]; return NULL; }
static void add_perm (struct user *u, const char *p) {
	if (!*p) return;
	for (int i = 0; i < u->np; i++) if (!strcmp(u->perm[i], p)) return;
	strcpy(u->perm[u->np++], p);
}
static char *enc (const char *pass) { char *h = NULL; if (rrr_passwd_encrypt(&h, pass) || !h) mc_fail("could not encrypt"); rrr_parse_str_strip_newlines(h); return h; }
// compare file with model. Entries must be in order, and unmodified ones must have their bytes unchanged.
static void compare (struct db *d, const char *f, int n, const char *modified) {
	int pos = 0;
	for (int i = 0; i < d->n; i++) {
		struct user *u = &d->u[i];
		char line[2000]; int l = 0;
		while (pos < n && f[pos] != '\n') { if (l < (int) sizeof line - 1) line[l++] = f[pos]; pos++; }
		mc_check(pos < n, "entry %d (%s) is missing in the file", i, u->name);
		pos++; line[l] = 0;
		char *c1 = strchr(line, ':'), *c2 = c1 ? strchr(c1 + 1, ':') : NULL;
		mc_check(c2 && !strchr(c2 + 1, ':'), "malformed entry '%s' in the file", line);
		*c1 = *c2 = 0;
		mc_check(!strcmp(line, u->name), "entry %d has name '%s', expected '%s'", i, line, u->name);
		int np = 0; char *save;
		for (char *t = strtok_r(c1 + 1, ",", &save); t; t = strtok_r(NULL, ",", &save)) {
			int f = 0;
			for (int k = 0; k < u->np; k++) if (!strcmp(u->perm[k], t)) f = 1;
			mc_check(f, "user '%s' has permission '%s' which was not given", u->name, t);
			np++;
		}
		mc_check(np == u->np, "user '%s' has %d permissions, expected %d", u->name, np, u->np);
		if (modified && !strcmp(modified, u->name)) {
			snprintf(u->hash, sizeof u->hash, "%s", c2 + 1);
			mc_check(u->has_pass == (*u->hash != 0), "user '%s' %s password", u->name, *u->hash ? "has a" : "has no");
		}
		else mc_check(!strcmp(c2 + 1, u->hash), "hash of user '%s' was changed", u->name);
	}
	mc_check(pos == n, "%d extra bytes in the file", n - pos);
}
static const char *names[] = { "a", "b", "ab", "", "a:", "c" };
static const char *passes[] = { "x", "xy", "", "X", "tty" };
static const char *perms[] = { NULL, "p", "q", "pq", "" };
static void auth_one (struct db *d, const char *n, const char *pw, const char *pm) {
	struct user *u = *n ? db_find(d, n) : NULL;
	int expect = u && u->has_pass && *pw && !strcmp(u->pass, pw);
	if (expect && pm) { expect = 0; for (int i = 0; i < u->np; i++) if (!strcmp(u->perm[i], pm)) expect = 1; }
	if (pm && !*pm && u && u->np == 0) expect = 0;
	int r = rrr_passwd_authenticate(path, n, pw, pm);
	mc_check((r == 0) == expect, "user '%s' password '%s' permission '%s' %s", n, pw, pm ? pm : "(none)", r ? "was refused" : "was authenticated");
	mc_step();
}
static void auth_all (struct db *d) {
	for (unsigned i = 0; i < sizeof names / sizeof *names; i++) for (unsigned j = 0; j < sizeof passes / sizeof *passes; j++)
	for (unsigned k = 0; k < sizeof perms / sizeof *perms; k++) auth_one(d, names[i], passes[j], perms[k]);
}
static uint64_t hash_db (struct db *d) {
	uint64_t h = 7;
	for (int i = 0; i < d->n; i++) {
		struct user *u = &d->u[i];
		for (char *c = u->name; *c; c++) h = h * 31 + (unsigned char) *c;
		h = h * 31 + u->has_pass; if (u->has_pass) for (char *c = u->pass; *c; c++) h = h * 31 + (unsigned char) *c;
		for (int k = 0; k < u->np; k++) { h = h * 33; for (char *c = u->perm[k]; *c; c++) h = h * 31 + (unsigned char) *c; }
		h = h * 37;
	}
	return h;
}

// All combinations the first time a state is seen, otherwise those of the users only
static void auth_some (struct db *d) {
	if (!mc_state(hash_db(d) ^ 0x5555)) { auth_all(d); return; }
	for (int i = 0; i < d->n; i++) for (unsigned j = 0; j < sizeof passes / sizeof *passes; j++) auth_one(d, d->u[i].name, passes[j], NULL);
}

// One edit, chosen freely, against model and program
static struct db D;
static int one_edit (int small) {
	static const char *vn[] = { "a", "b", "ab" };
	const char *n = vn[mc_choose(small ? 2 : 3, "user")];
	const char *args[16]; int k = 0;
	args[k++] = path; args[k++] = n;
	struct db N = D;
	struct user *u = db_find(&N, n);
	int op = mc_choose(3, "operation");
	int bad = 0;
	const char *pp = NULL, *pw = NULL; int append = 0;
	static char pbuf[40];
	if (op == 2) {
		args[k++] = "-r";
		// may not be combined
		if (!small && mc_bool("combine")) { bad = 1; args[k++] = "-P"; args[k++] = "x"; }
	}
	else {
		static const char *vp[] = { NULL, "", "p", "q", "p,q", "q,q,p" };
		static const char *vpw[] = { NULL, "x", "xy", "" };
		pp = vp[mc_choose(small ? 3 : 6, "permissions")];
		pw = vpw[mc_choose(small ? 2 : 4, "password")];
		append = mc_bool("append");
		if (op == 1) args[k++] = "-c";
		if (pp) { args[k++] = "-p"; args[k++] = pp; }
		if (append) args[k++] = "-a";
		if (pw) { args[k++] = "-P"; args[k++] = pw; }
		if (append && !pp) bad = 1;
	}
	args[k] = NULL;
	// model
	if (op == 1 && u) bad = 1;
	if (op != 1 && !u) bad = 1;
	if (!bad) {
		if (op == 2) { int i = u - N.u; memmove(u, u + 1, sizeof *u * (N.n - i - 1)); N.n--; }
		else {
			if (!u) { u = &N.u[N.n++]; memset(u, 0, sizeof *u); strcpy(u->name, n); }
			if (pp) {
				if (!append) u->np = 0;
				strcpy(pbuf, pp);
				char *s; for (char *t = strtok_r(pbuf, ",", &s); t; t = strtok_r(NULL, ",", &s)) add_perm(u, t);
			}
			const char *set = pw;
			// Password asked for when creating users or when nothing else is specified
			if (!pw && (op == 1 || !pp)) set = "tty";
			if (set) { u->has_pass = *set != 0; strcpy(u->pass, set); }
		}
	}
	mc_log("edit user %s op %d perm %s append %d pass %s", n, op, pp ? pp : "-", append, pw ? pw : "-");
	int r = edit(args);
	int faulted = 0;
	if (!fs_faults) mc_check((r == 0) == !bad, "edit %s, expected %s", r ? "failed" : "succeeded", bad ? "failure" : "success");
	else {
		if (bad) mc_check(r != 0, "invalid edit succeeded");
		faulted = r != 0;
	}
	if (!bad && !faulted) {
		D = N;
		compare(&D, after, after_n, n);
		if (seen_changed) mc_check(seen_n == after_n && !memcmp(seen, after, after_n), "final contents differ from contents at crash point");
	}
	return r;
}

static void init_d (void) { setup_dir(); spit(path, "", 0); memset(&D, 0, sizeof D); fs_faults = 0; real_hash = 0; }

static void s_edits (void) {
	init_d();
	int depth = mc_tier() ? 4 : 3;
	for (int i = 0; i < depth; i++) {
		if (one_edit(1)) break; // File was not changed
		mc_state(hash_db(&D) * 8 + i);
	}
	auth_some(&D);
	mc_obs(hash_db(&D));
}
static void s_edits_wide (void) {
	init_d();
	int depth = 2;
	for (int i = 0; i < depth; i++) {
		if (one_edit(0)) break;
		mc_state(hash_db(&D) * 8 + i);
	}
	auth_some(&D);
	mc_obs(hash_db(&D));
}
// faults of the file system: short writes, failing writes, failing renames
static void s_faults (void) {
	init_d();
	const char *a1[] = { path, "a", "-c", "-p", "p", "-P", "x", NULL };
	const char *a2[] = { path, "ab", "-c", "-P", "xy", NULL };
	if (edit(a1) || edit(a2)) mc_fail("could not create users");
	D.n = 2; strcpy(D.u[0].name, "a"); strcpy(D.u[0].pass, "x"); D.u[0].has_pass = 1; add_perm(&D.u[0], "p");
	strcpy(D.u[1].name, "ab"); strcpy(D.u[1].pass, "xy"); D.u[1].has_pass = 1;
	char *p = strrchr(after, ':'); // hash of ab
	snprintf(D.u[1].hash, sizeof D.u[1].hash, "%.*s", (int) strcspn(p + 1, "\n"), p + 1);
	p = strchr(strchr(after, ':') + 1, ':');
	snprintf(D.u[0].hash, sizeof D.u[0].hash, "%.*s", (int) strcspn(p + 1, "\n"), p + 1);
	compare(&D, after, after_n, NULL);
	fs_faults = 1;
	one_edit(1);
	fs_faults = 0;
	if (mc_tier()) auth_all(&D); else { auth_one(&D, "a", "x", "p"); auth_one(&D, "ab", "xy", NULL); auth_one(&D, "b", "x", NULL); }
	mc_obs(hash_db(&D));
}
// unrelated files, -s option
static void s_stdout (void) {
	init_d();
	const char *a1[] = { path, "a", "-c", "-p", "p", "-P", "x", NULL };
	if (edit(a1)) mc_fail("could not create user");
	char b[2000]; int n = after_n; memcpy(b, after, n);
	if (mc_bool("old file present")) spit(oldpath, "unrelated", 9);
	struct stat st;
	int had = stat(oldpath, &st) == 0;
	int op = mc_choose(4, "operation");
	int s = mc_bool("stdout");
	const char *args[10]; int k = 0;
	args[k++] = path; args[k++] = op == 3 ? "nobody" : "a"; if (s) args[k++] = "-s";
	if (op == 0) { args[k++] = "-p"; args[k++] = "q"; }
	if (op == 1) args[k++] = "-r";
	if (op == 2) args[k++] = "-c", args[k++] = "-P", args[k++] = "y";
	if (op == 3) args[k++] = "-r";
	args[k] = NULL;
	int r = edit(args);
	mc_check((r == 0) == (op < 2), "operation %d returned %d", op, r);
	if (s) {
		mc_check(after_n == n && !memcmp(after, b, n), "file was changed although output to stdout was requested");
		if (op == 0) mc_check(memmem(out1, out1_n, "a:q:$", 5) != NULL, "new entry was not printed");
	}
	mc_check((stat(oldpath, &st) == 0) == had, "unrelated file with suffix .old was removed");
	mc_obs(r * 16 + op);
}
// names and permissions with special characters
static void s_names (void) {
	init_d();
	const char *a1[] = { path, "a", "-c", "-p", "p", "-P", "x", NULL };
	if (edit(a1)) mc_fail("could not create user");
	char name[8] = { 0 }; static const char al[] = { 'b', ':', ',', '\n', '\r', ' ', '\t', '$', '\x80', '\xff', '-' };
	int len = 1 + mc_choose(mc_tier() ? 3 : 2, "length");
	for (int i = 0; i < len; i++) name[i] = al[mc_choose(sizeof al, "character")];
	if (name[0] == '-') return; // an option
	int where = mc_choose(2, "name or permission");
	const char *args[] = { path, where ? "c" : name, "-c", "-p", where ? name : "q", "-P", "y", NULL };
	int r = edit(args);
	const char *user = where ? "c" : name;
	mc_check(rrr_passwd_authenticate(path, "a", "x", "p") == 0, "existing user can not authenticate any more");
	mc_check(rrr_passwd_authenticate(path, "b", "y", NULL) == (r == 0 && !where && !strcmp(name, "b") ? 0 : 1), "user b");
	if (r == 0) {
		if (!where) mc_check(rrr_passwd_authenticate(path, user, "y", "q") == 0, "user was created but can not authenticate");
		else {
			int comma = strchr(name, ',') != NULL; // splits into more than one
			if (!comma && *name) mc_check(rrr_passwd_authenticate(path, user, "y", name) == 0, "permission was given but is not found");
			mc_check(rrr_passwd_authenticate(path, user, "y", NULL) == 0, "user was created but can not authenticate");
		}
		// further edits are possible
		const char *a3[] = { path, user, "-r", NULL };
		mc_check(edit(a3) == 0, "user was created but can not be removed");
		mc_check(rrr_passwd_authenticate(path, user, "y", NULL) != 0, "removed user was authenticated");
		mc_check(rrr_passwd_authenticate(path, "a", "x", "p") == 0, "existing user can not authenticate any more");
	}
	else {
		int plain = 1;
		for (char *c = name; *c; c++) if (*c != 'b' && *c != '$') plain = 0;
		mc_check(!plain, "plain name was refused");
	}
	mc_obs((uint64_t) r);
}
// many permissions
static void s_perm_count (void) {
	init_d();
	int n = 28 + mc_choose(10, "permissions"), m = mc_choose(8, "appended");
	char p1[400] = "", p2[100] = "";
	for (int i = 0; i < n; i++) sprintf(p1 + strlen(p1), "%sp%d", i ? "," : "", i);
	for (int i = 0; i < m; i++) sprintf(p2 + strlen(p2), "%sr%d", i ? "," : "", i);
	const char *a1[] = { path, "a", "-c", "-p", p1, "-P", "x", NULL };
	const char *a2[] = { path, "a", "-a", "-p", p2, NULL };
	const char *a3[] = { path, "b", "-c", "-P", "y", NULL };
	int r1 = edit(a1);
	int r2 = r1 || !m ? 1 : edit(a2);
	int r3 = edit(a3);
	mc_check(r3 == 0, "could not create another user");
	for (int i = 0; i < n; i++) { char t[10]; sprintf(t, "p%d", i); mc_check(rrr_passwd_authenticate(path, "a", "x", t) == (r1 ? 1 : 0), "permission %s after creating user with %d permissions and appending %d", t, n, m); }
	for (int i = 0; i < m; i++) { char t[10]; sprintf(t, "r%d", i); mc_check(rrr_passwd_authenticate(path, "a", "x", t) == (r2 ? 1 : 0), "permission %s after creating user with %d permissions and appending %d", t, n, m); }
	mc_check(rrr_passwd_authenticate(path, "b", "y", NULL) == 0, "second user");
	mc_check(n > 32 || !r1, "%d permissions were refused", n);
	mc_obs((uint64_t) r1 * 2 + r2);
}
// arbitrary files: lines from a set of good, malformed and duplicate entries
static char good_hash[600];
static void s_files (void) {
	static const char *lines[] = { "a:p:H", "b::H", "ab:p,q:", "a:q:H", "a", "a:p", "b:p:H:", "", "  b:p:H", ":p:H", "b:p:zz", "a\tb:p:H" };
	init_d();
	char *h = enc("x"); snprintf(good_hash, sizeof good_hash, "%s", h); rrr_free(h);
	int n = 1 + mc_choose(mc_tier() ? 4 : 3, "lines");
	int li[4]; int malformed = 0, na = 0, nb = 0, f_a = -1;
	static char f[8192]; int p = 0;
	for (int i = 0; i < n; i++) {
		li[i] = mc_choose(12, "line");
		for (const char *c = lines[li[i]]; *c; c++) { if (*c == 'H') p += sprintf(f + p, "%s", good_hash); else f[p++] = *c; }
		int end = i == n - 1 ? mc_choose(3, "end") : mc_choose(mc_tier() ? 3 : 1, "end");
		if (end == 0 || (end == 1 && i < n - 1)) { if (end == 1) f[p++] = '\r'; f[p++] = '\n'; }
		else if (end == 1) ;               // no newline at end of file
		else { f[p++] = 0; f[p++] = 'x'; f[p++] = '\n'; malformed = 1; }
		if (li[i] >= 4 && li[i] <= 6) malformed = 1;
		if (li[i] == 0 || li[i] == 3) { if (!na) f_a = li[i]; na++; }
		if (li[i] == 1 || li[i] == 8 || li[i] == 10) nb++;
	}
	char *exact = malloc(p ? p : 1); memcpy(exact, f, p);
	spit(path, exact, p); free(exact);
	if (!malformed) {
		if (na < 2) {
			mc_check(rrr_passwd_authenticate(path, "a", "x", NULL) == (na ? 0 : 1), "user a authentication");
			mc_check(rrr_passwd_authenticate(path, "a", "x", "p") == (f_a == 0 ? 0 : 1), "user a authentication with permission p");
			mc_check(rrr_passwd_authenticate(path, "a", "x", "q") == (f_a == 3 ? 0 : 1), "user a authentication with permission q");
		}
		mc_check(rrr_passwd_authenticate(path, "ab", "x", NULL) == 1, "user without password was authenticated");
		mc_check(rrr_passwd_authenticate(path, "ab", "", NULL) == 1, "user without password was authenticated");
		mc_check(rrr_passwd_authenticate(path, "zz", "x", NULL) == 1, "missing user was authenticated");
	}
	mc_check(rrr_passwd_authenticate(path, "a", "y", NULL) == 1, "wrong password was accepted");
	mc_check(rrr_passwd_authenticate(path, "a", "y", "p") == 1, "wrong password was accepted");
	// add a user
	int op = mc_choose(3, "edit");
	const char *a1[] = { path, "n", "-c", "-P", "y", NULL }, *a2[] = { path, "a", "-r", NULL }, *a3[] = { path, "a", "-a", "-p", "r", NULL };
	int r = edit(op == 0 ? a1 : op == 1 ? a2 : a3);
	if (malformed) mc_check(r != 0, "malformed file was rewritten");
	else if (op) mc_check((r == 0) == (na == 1), "edit with %d matching entries returned %d", na, r);
	else mc_check(r == 0, "could not add user");
	if (r == 0) {
		// all other lines are unchanged
		int q = 0;
		for (int i = 0; i < n; i++) {
			char want[1200]; int w = 0; const char *c = lines[li[i]];
			while (*c == ' ') c++;
			for (; *c; c++) { if (*c == 'H') w += sprintf(want + w, "%s", good_hash); else want[w++] = *c; }
			if (!w) continue;
			if (op && (li[i] == 0 || li[i] == 3)) {
				if (op == 2) { w = 0; w = sprintf(want, "a:%s,r:%s", li[i] ? "q" : "p", good_hash); }
				else continue;
			}
			want[w++] = '\n';
			mc_check(q + w <= after_n && !memcmp(after + q, want, w), "line %d was changed", i);
			q += w;
		}
		if (!op) { mc_check(q + 5 < after_n && !memcmp(after + q, "n::$", 4), "new user not found"); mc_check(rrr_passwd_authenticate(path, "n", "y", NULL) == 0, "new user can not authenticate"); }
		else mc_check(q == after_n, "%d extra bytes", after_n - q);
	}
	mc_obs((uint64_t) r * 2 + malformed);
}
// stored hashes: a hash differing in any way from one made from the password is refused
static void s_hashes (void) {
	rnd = 1 + mc_choose(2, "salt") ; real_hash = 0;
	char *h = enc("xy");
	mc_check(rrr_passwd_check(h, "xy") == 0, "password does not match its own hash");
	int l = strlen(h), way = mc_choose(9, "way");
	char *m = calloc(1, l + 64);
	switch (way) {
		case 0: memcpy(m, h, mc_choose(l, "prefix")); break;
		case 1: { int i = mc_choose(l, "position"); memcpy(m, h, l); m[i] = m[i] == 'A' ? 'B' : 'A'; break; }
		case 2: { int i = mc_choose(l, "removed"); memcpy(m, h, i); strcpy(m + i, h + i + 1); break; }
		case 3: { int i = mc_choose(l + 1, "inserted"); memcpy(m, h, i); m[i] = "$A="[mc_choose(3, "character")]; strcpy(m + i + 1, h + i); break; }
		case 4: sprintf(m, "$1$%.*s$", (int) strcspn(h + 3, "$"), h + 3); break;
		case 5: sprintf(m, "$1$$%s", strrchr(h, '$') + 1); break;
		case 6: sprintf(m, "$%c%s", "23 \t"[mc_choose(4, "type")], h + 2); break;
		case 7: sprintf(m, "$1$QUFB%s", strrchr(h, '$')); break;
		case 8: sprintf(m, "%s%s", h, mc_bool("extra") ? "QUFB" : "$"); break;
	}
	char *e = strdup(m); free(m); // exact size
	int eq = !strcmp(e, h);
	int r = rrr_passwd_check(e, "xy");
	if (eq) mc_check(r == 0, "hash was refused");
	if (!eq && r == 0) {
		// The encoding may differ, but not the values
		int same = !strncmp(e, "$1$", 3) && strchr(e + 3, '$') && strrchr(e, '$') == strchr(e + 3, '$');
		const char *s1 = h + 3, *s2 = e + 3; rrr_biglength n1, n2;
		for (int k = 0; k < 2 && same; k++) {
			int len1 = strcspn(s1, "$"), len2 = strcspn(s2, "$");
			unsigned char *d1 = rrr_base64_decode((unsigned char *) s1, len1, &n1), *d2 = rrr_base64_decode((unsigned char *) s2, len2, &n2);
			if (!d1 || !d2 || n1 != n2 || memcmp(d1, d2, n1)) same = 0;
			if (d1) rrr_free(d1);
			if (d2) rrr_free(d2);
			s1 += len1 + 1; s2 += len2 + 1;
		}
		mc_check(same, "altered hash (way %d) was accepted: %.500s", way, e);
	}
	mc_check(rrr_passwd_check(e, "x") != 0, "wrong password was accepted with hash %.80s", e);
	mc_check(rrr_passwd_check(e, "") != 0, "empty password was accepted");
	free(e); rrr_free(h);
	mc_obs((uint64_t) r);
	mc_step();
}
// plaintext storage format
static void s_base64 (void) {
	static const char *pw[] = { "x", "xy", "xyz", "xyzw", "xyzwv" };
	int i = mc_choose(5, "stored"), j = mc_choose(5, "given");
	char h[100]; rrr_biglength n;
	unsigned char *b = rrr_base64_encode((unsigned char *) pw[i], strlen(pw[i]), &n);
	rrr_parse_str_strip_newlines((char *) b);
	int cut = mc_choose((int) strlen((char *) b) + 1, "cut"), extra = mc_choose(4, "extra")  , ty = mc_choose(3, "type");
	sprintf(h, "$%s$%s$%.*s%s", ty == 0 ? "0" : ty == 1 ? "0x" : "0", ty == 2 ? "s" : "", (int) strlen((char *) b) - cut, (char *) b, extra == 0 ? "" : extra == 1 ? "A" : extra == 2 ? "AAAA" : "$");
	rrr_free(b);
	char *e = strdup(h), *p = strdup(pw[j]);
	int r = rrr_passwd_check(e, p);
	rrr_biglength n2; unsigned char *b2 = rrr_base64_encode((unsigned char *) pw[j], strlen(pw[j]), &n2); rrr_parse_str_strip_newlines((char *) b2);
	char want[100]; sprintf(want, "$0$$%s", (char *) b2); rrr_free(b2);
	int expect = !strcmp(want, e);
	mc_check((r == 0) == expect, "hash '%s' password '%s' %s", e, p, r ? "was refused" : "was accepted");
	free(e); free(p);
	mc_obs((uint64_t) r); mc_step();
}
static void s_real (void) {
	init_d(); real_hash = 1;
	const char *pw[] = { "x", "xy", "", "a long password with \xc3\xb8 in it" };
	int i = mc_choose(4, "password");
	const char *a1[] = { path, "a", "-c", "-p", "p", "-P", pw[i], NULL };
	mc_check(edit(a1) == 0, "could not create user");
	for (int j = 0; j < 4; j++) mc_check(rrr_passwd_authenticate(path, "a", pw[j], "p") == (i == j && *pw[i] ? 0 : 1), "password %d stored, %d given", i, j);
	real_hash = 0;
	mc_obs((uint64_t) i);
}

static const struct mc_scenario sc[] = {
	{ "edits", s_edits, -1, -1, 0, NULL },
	{ "edits-wide", s_edits_wide, -1, -1, 0, NULL },
	{ "faults", s_faults, 1, 2, 0, NULL },
	{ "stdout", s_stdout, -1, -1, 0, NULL },
	{ "names", s_names, -1, -1, 0, NULL },
	{ "permission-count", s_perm_count, -1, -1, 0, NULL },
	{ "files", s_files, -1, -1, 0, NULL },
	{ "hashes", s_hashes, -1, -1, MC_LEAKCHECK, NULL },
	{ "plain", s_base64, -1, -1, MC_LEAKCHECK, NULL },
	{ "real-hash", s_real, -1, -1, 0, NULL },
};
int main (int c, char **v) { return mc_main(c, v, "C32", sc, (int) (sizeof sc / sizeof *sc)); }
