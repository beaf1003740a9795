/* Virtual time and controlled I/O, see vio.c */
#ifndef VERIF_VIO_H
#define VERIF_VIO_H
#include <stdint.h>
#include <sys/types.h>
#include <sys/socket.h>
#include <poll.h>

void vio_reset (void);                        /* virtual time to its base, hooks off */
uint64_t vio_now (void);                      /* us since the epoch of the virtual clock */
void vio_advance (uint64_t us);
extern int vio_time_off;                      /* use the real clock */
/* Called when poll()/sleep would wait and nothing is ready. timeout_us is -1 for ever. Return 1 to look at the
 * descriptors again, 0 to let virtual time pass (for an infinite wait this is a stall and mc_fail is called) */
extern int (*vio_on_wait)(int64_t timeout_us);
/* The largest advance per wait which is made without asking again, default unlimited */
enum { VIO_READ, VIO_WRITE };
/* Called before data is transferred on a descriptor. Return the number of bytes which may be transferred (<= n),
 * or -errno. */
extern long (*vio_io)(int op, int fd, size_t n);
/* Called for sendto/sendmsg with an address or on datagram sockets if set. Return 1 when taken over. */
extern int (*vio_datagram)(int fd, const void *data, size_t n, const struct sockaddr *to, socklen_t tolen);
/* Called for connect() if set: return 0 to let it through, -errno otherwise */
extern int (*vio_connect)(int fd, const struct sockaddr *to, socklen_t len);
extern unsigned long vio_polls;
#endif
