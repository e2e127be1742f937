// drives the real event loop; the demonstration may hook the system calls it makes
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "poller.h"
int __real_poll(struct pollfd *, nfds_t, int);
ssize_t __real_read(int, void *, size_t);
ssize_t __real_write(int, const void *, size_t);
static void (*on_poll)(void), (*on_read)(int, ssize_t), (*on_write)(int);
int __wrap_poll(struct pollfd *p, nfds_t n, int to) {
	if (on_poll) {
		on_poll();
	}
	// never wait for long: a demonstration that would block has failed
	return __real_poll(p, n, to < 0 ? 1000 : to);
}
ssize_t __wrap_read(int fd, void *b, size_t n) {
	ssize_t r = __real_read(fd, b, n);
	if (on_read) {
		int e = errno;
		on_read(fd, r);
		errno = e;
	}
	return r;
}
ssize_t __wrap_write(int fd, const void *b, size_t n) {
	if (on_write) {
		on_write(fd);
	}
	return __real_write(fd, b, n);
}
#define NEED(c)                                                                                                  \
	do {                                                                                                         \
		if (!(c)) {                                                                                              \
			fprintf(stderr, "demo: line %d: %s\n", __LINE__, #c);                                                \
			_exit(1);                                                                                            \
		}                                                                                                        \
	} while (0)
