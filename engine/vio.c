/* Virtual time and controlled I/O for single threaded harnesses. Defines libc functions in the executable so that
 * also libevent uses them (the executable is linked with -rdynamic). */
#include <stdarg.h>
#include <errno.h>
#include <time.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/select.h>
#include <unistd.h>
#include "mc.h"
#include "vio.h"

#define BASE 1700000000000000ULL
static uint64_t vt = BASE;
static int vio_on;
int vio_time_off;
int (*vio_on_wait)(int64_t);
long (*vio_io)(int, int, size_t);
int (*vio_datagram)(int, const void *, size_t, const struct sockaddr *, socklen_t);
int (*vio_connect)(int, const struct sockaddr *, socklen_t);
unsigned long vio_polls;

void vio_reset (void) { vt = BASE; vio_on = 1; vio_on_wait = NULL; vio_io = NULL; vio_datagram = NULL; vio_connect = NULL; vio_polls = 0; }
uint64_t vio_now (void) { return vt; }
void vio_advance (uint64_t us) { vt += us; }
static int virt (void) { return vio_on && !vio_time_off; }

int clock_gettime (clockid_t id, struct timespec *ts) {
	if (!virt() || id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID) return (int) syscall(SYS_clock_gettime, id, ts);
	ts->tv_sec = (time_t) (vt / 1000000); ts->tv_nsec = (long) (vt % 1000000) * 1000;
	return 0;
}
int gettimeofday (struct timeval *restrict tv, void *restrict tz) {
	(void)tz;
	if (!virt()) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
	tv->tv_sec = (time_t) (vt / 1000000); tv->tv_usec = (suseconds_t) (vt % 1000000);
	return 0;
}
time_t time (time_t *t) {
	time_t r;
	if (virt()) r = (time_t) (vt / 1000000);
	else { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); r = ts.tv_sec; }
	if (t) *t = r;
	return r;
}
/* libevent seeds its random start position in the poll set with the pid and the time */
pid_t getpid (void) { return virt() ? 4242 : (pid_t) syscall(SYS_getpid); }
static void vsleep (uint64_t us) {
	if (vio_on_wait) vio_on_wait((int64_t) us);
	vt += us;
}
int usleep (useconds_t us) {
	if (virt()) { vsleep(us); return 0; }
	struct timespec ts = {us / 1000000, (us % 1000000) * 1000}; return (int) syscall(SYS_nanosleep, &ts, NULL);
}
unsigned int sleep (unsigned int s) { usleep(s * 1000000); return 0; }
int nanosleep (const struct timespec *req, struct timespec *rem) {
	if (virt()) { vsleep((uint64_t) req->tv_sec * 1000000 + (uint64_t) req->tv_nsec / 1000); return 0; }
	return (int) syscall(SYS_nanosleep, req, rem);
}
int clock_nanosleep (clockid_t id, int fl, const struct timespec *req, struct timespec *rem) { (void)id; (void)fl; return nanosleep(req, rem) ? errno : 0; }
static int vpoll (struct pollfd *p, nfds_t n, int64_t timeout_us) {
	uint64_t end = timeout_us < 0 ? 0 : vt + (uint64_t) timeout_us;
	for (;;) {
		vio_polls++;
		int r = (int) syscall(SYS_poll, p, n, 0);
		if (r != 0 || timeout_us == 0) return r;
		int64_t left = timeout_us < 0 ? -1 : (int64_t) (end > vt ? end - vt : 0);
		if (left == 0) return 0;
		if (vio_on_wait && vio_on_wait(left)) continue;
		if (left < 0) { if (vio_on_wait) return 0; mc_fail("stall: waiting forever with nothing to wait for"); }
		if (end > vt) vt = end;
		return (int) syscall(SYS_poll, p, n, 0);
	}
}
int poll (struct pollfd *p, nfds_t n, int timeout) {
	if (!virt()) return (int) syscall(SYS_poll, p, n, timeout);
	return vpoll(p, n, timeout < 0 ? -1 : (int64_t) timeout * 1000);
}
int ppoll (struct pollfd *p, nfds_t n, const struct timespec *ts, const sigset_t *s) {
	if (!virt()) return (int) syscall(SYS_ppoll, p, n, ts, s, sizeof(*s));
	return vpoll(p, n, ts ? (int64_t) ts->tv_sec * 1000000 + ts->tv_nsec / 1000 : -1);
}
int __poll_chk (struct pollfd *p, nfds_t n, int timeout, size_t l) { (void)l; return poll(p, n, timeout); }

static long lim (int op, int fd, size_t n) {
	if (!vio_io) return (long) n;
	long r = vio_io(op, fd, n);
	if (r < 0) { errno = (int) -r; return -1; }
	return r > (long) n ? (long) n : r;
}
ssize_t read (int fd, void *b, size_t n) { long l = lim(VIO_READ, fd, n); return l < 0 ? -1 : syscall(SYS_read, fd, b, l); }
ssize_t write (int fd, const void *b, size_t n) { long l = lim(VIO_WRITE, fd, n); return l < 0 ? -1 : syscall(SYS_write, fd, b, l); }
ssize_t recvfrom (int fd, void *restrict b, size_t n, int f, struct sockaddr *restrict a, socklen_t *restrict al) {
	long l = lim(VIO_READ, fd, n);
	return l < 0 ? -1 : syscall(SYS_recvfrom, fd, b, l, f, a, al);
}
ssize_t recv (int fd, void *b, size_t n, int f) { return recvfrom(fd, b, n, f, NULL, NULL); }
ssize_t sendto (int fd, const void *b, size_t n, int f, const struct sockaddr *a, socklen_t al) {
	if (vio_datagram && vio_datagram(fd, b, n, a, al)) return (ssize_t) n;
	long l = lim(VIO_WRITE, fd, n);
	return l < 0 ? -1 : syscall(SYS_sendto, fd, b, l, f, a, al);
}
ssize_t send (int fd, const void *b, size_t n, int f) { return sendto(fd, b, n, f, NULL, 0); }
ssize_t sendmsg (int fd, const struct msghdr *m, int f) {
	if (m->msg_iovlen == 1 && vio_datagram && vio_datagram(fd, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, m->msg_name, m->msg_namelen)) return (ssize_t) m->msg_iov[0].iov_len;
	if (m->msg_iovlen >= 1) {
		long l = lim(VIO_WRITE, fd, m->msg_iov[0].iov_len);
		if (l < 0) return -1;
		if (m->msg_iovlen == 1) { struct iovec v = {m->msg_iov[0].iov_base, (size_t) l}; struct msghdr h = *m; h.msg_iov = &v; return syscall(SYS_sendmsg, fd, &h, f); }
	}
	return syscall(SYS_sendmsg, fd, m, f);
}
ssize_t recvmsg (int fd, struct msghdr *m, int f) {
	if (m->msg_iovlen == 1) {
		long l = lim(VIO_READ, fd, m->msg_iov[0].iov_len);
		if (l < 0) return -1;
		size_t old = m->msg_iov[0].iov_len; m->msg_iov[0].iov_len = (size_t) l;
		ssize_t r = syscall(SYS_recvmsg, fd, m, f); m->msg_iov[0].iov_len = old; return r;
	}
	return syscall(SYS_recvmsg, fd, m, f);
}
int connect (int fd, const struct sockaddr *a, socklen_t al) {
	if (vio_connect) { int r = vio_connect(fd, a, al); if (r < 0) { errno = -r; return -1; } }
	return (int) syscall(SYS_connect, fd, a, al);
}
