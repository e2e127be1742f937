// drives the real connection code over a socketpair; the demonstration supplies what the socket calls do
#define _GNU_SOURCE
#include <assert.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <unistd.h>
#include "connection.h"
ssize_t __real_sendmsg(int, const struct msghdr *, int);
ssize_t __real_recvmsg(int, struct msghdr *, int);
int __real_close(int);
static int closed[4096];
int __wrap_close(int fd) {
	if (fd >= 0 && fd < 4096) {
		closed[fd]++;
	}
	return __real_close(fd);
}
#define NEED(c)                                                                                                  \
	do {                                                                                                         \
		if (!(c)) {                                                                                              \
			fprintf(stderr, "demo: line %d: %s\n", __LINE__, #c);                                                \
			exit(1);                                                                                             \
		}                                                                                                        \
	} while (0)
#pragma GCC diagnostic ignored "-Wunused-function"
