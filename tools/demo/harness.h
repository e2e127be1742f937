// Drives the real daemon code (seat, client, server, poller, connection) in one process. Device nodes, terminals and their
// ioctls are stand-ins that only record what they were asked to do; nothing outside the process is touched.
#define _GNU_SOURCE
#include <assert.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/kd.h>
#include <linux/vt.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <unistd.h>

#include "client.h"
#include "connection.h"
#include "linked_list.h"
#include "poller.h"
#include "protocol.h"
#include "seat.h"
#include "server.h"

static char trace[1 << 16];
static void tr(const char *f, ...) {
	va_list ap;
	va_start(ap, f);
	size_t l = strlen(trace);
	vsnprintf(trace + l, sizeof trace - l, f, ap);
	va_end(ap);
}
static char fdname[1024][64];
static int cur_vt = 1;           // what VT_GETSTATE reports
static int fail_open, fail_ioctl; // errno for the next open()/every ioctl
static unsigned long fail_req;   // only this ioctl fails
static int nopen;
int __real_open(const char *p, int fl, ...);
int __real_close(int fd);
int __real_poll(struct pollfd *, nfds_t, int);
int __real_dup(int);

int __wrap_open(const char *p, int fl, ...) {
	(void)fl;
	if (strncmp(p, "/dev/", 5) != 0) {
		errno = ENOENT;
		return -1;
	}
	if (fail_open) {
		errno = fail_open;
		fail_open = 0;
		tr("openfail(%s) ", p);
		return -1;
	}
	int fd = memfd_create("x", MFD_CLOEXEC);
	snprintf(fdname[fd], 64, "%s", p);
	nopen++;
	tr("open(%s) ", p);
	return fd;
}
int __wrap_open64(const char *p, int fl, ...) { return __wrap_open(p, fl); }
int __wrap_close(int fd) {
	if (fd >= 0 && fd < 1024 && fdname[fd][0]) {
		tr("close(%s) ", fdname[fd]);
		fdname[fd][0] = 0;
		nopen--;
	}
	return __real_close(fd);
}
// "/alias/x" canonicalises to "/dev/x"
char *__wrap_realpath(const char *p, char *out) {
	if (strncmp(p, "/alias/", 7) == 0) {
		sprintf(out, "/dev/%s", p + 7);
	} else {
		strcpy(out, p);
	}
	return out;
}
int __wrap_ioctl(int fd, unsigned long req, ...) {
	va_list ap;
	va_start(ap, req);
	void *arg = va_arg(ap, void *);
	va_end(ap);
	if (fd < 0 || fd >= 1024 || !fdname[fd][0]) {
		tr("ioctl(?) ");
		errno = EBADF;
		return -1;
	}
	if (fail_ioctl && (!fail_req || fail_req == req)) {
		errno = fail_ioctl;
		tr("fail(%s,%lx) ", fdname[fd], req);
		return -1;
	}
	switch (req) {
	case VT_GETSTATE: {
		struct vt_stat *s = arg;
		memset(s, 0, sizeof *s);
		s->v_active = cur_vt;
		break;
	}
	case VT_SETMODE: tr("mode(%s,%d) ", fdname[fd], ((struct vt_mode *)arg)->mode); break;
	case VT_ACTIVATE: tr("switch(%d) ", (int)(long)arg); break;
	case VT_RELDISP: tr("reldisp(%d) ", (int)(long)arg); break;
	case KDSKBMODE: tr("kb(%s,%s) ", fdname[fd], (int)(long)arg == K_OFF ? "off" : "on"); break;
	case KDSETMODE: tr("gfx(%s,%d) ", fdname[fd], (int)(long)arg); break;
	case 0x641e: tr("setmaster(%s) ", fdname[fd]); break;
	case 0x641f: tr("dropmaster(%s) ", fdname[fd]); break;
	default:
		tr("ioctl(%s,%lx) ", fdname[fd], req);
	}
	return 0;
}
int __wrap_poll(struct pollfd *p, nfds_t n, int t) {
	(void)t;
	int r = __real_poll(p, n, 0);
	return r;
}

static int failcalloc, failstrdup; // the next allocation fails
void *__real_calloc(size_t n, size_t s);
char *__real_strdup(const char *s);
void *__wrap_calloc(size_t n, size_t s) {
	if (failcalloc) {
		failcalloc = 0;
		errno = ENOMEM;
		return NULL;
	}
	return __real_calloc(n, s);
}
char *__wrap_strdup(const char *s) {
	if (failstrdup) {
		failstrdup = 0;
		errno = ENOMEM;
		return NULL;
	}
	return __real_strdup(s);
}

static struct server srv;
static int err_of;   // error code of the last SERVER_ERROR
static int last_id;  // id in the last SERVER_DEVICE_OPENED
static int last_fd = -1;

static void start(bool vt) {
	setenv("SEATD_VTBOUND", vt ? "1" : "0", 1);
	assert(server_init(&srv) == 0);
}
static int newclient(void) {
	int sv[2];
	assert(socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sv) == 0);
	if (server_add_client(&srv, sv[0]) != 0) {
		close(sv[1]);
		return -1;
	}
	return sv[1];
}
static void pump(void) {
	for (int i = 0; i < 4; i++) {
		poller_poll(&srv.poller);
	}
}
static void sendmsg_(int c, int op, const void *d, int n) {
	char b[512];
	struct proto_header h = {.opcode = op, .size = n};
	memcpy(b, &h, sizeof h);
	if (n > 0) {
		memcpy(b + sizeof h, d, n);
	}
	assert(send(c, b, sizeof h + n, MSG_NOSIGNAL) == (ssize_t)sizeof h + n);
}
// next message waiting for the client; -1 if none, -2 if the connection is closed
static int next(int c) {
	struct proto_header h;
	char ctl[CMSG_SPACE(sizeof(int) * 8)];
	struct iovec iov = {&h, sizeof h};
	struct msghdr m = {.msg_iov = &iov, .msg_iovlen = 1, .msg_control = ctl, .msg_controllen = sizeof ctl};
	ssize_t r = recvmsg(c, &m, MSG_DONTWAIT | MSG_WAITALL);
	if (r == 0 || (r < 0 && errno == ECONNRESET)) {
		return -2;
	}
	if (r < 0) {
		return -1;
	}
	struct cmsghdr *cm = CMSG_FIRSTHDR(&m);
	last_fd = -1;
	if (cm) {
		memcpy(&last_fd, CMSG_DATA(cm), sizeof last_fd);
	}
	char b[512];
	if (h.size) {
		assert(recv(c, b, h.size, MSG_DONTWAIT) == h.size);
	}
	if (h.opcode == SERVER_ERROR) {
		memcpy(&err_of, b, sizeof err_of);
	}
	if (h.opcode == SERVER_DEVICE_OPENED) {
		memcpy(&last_id, b, sizeof last_id);
	}
	return h.opcode;
}
// send a request, let the server run, return the next message
static int rq(int c, int op, const void *d, int n) {
	sendmsg_(c, op, d, n);
	pump();
	return next(c);
}
static int opendev(int c, const char *path) {
	char b[300];
	struct proto_client_open_device m = {.path_len = strlen(path) + 1};
	memcpy(b, &m, sizeof m);
	strcpy(b + sizeof m, path);
	return rq(c, CLIENT_OPEN_DEVICE, b, sizeof m + m.path_len);
}
static int closedev(int c, int id) { return rq(c, CLIENT_CLOSE_DEVICE, &id, sizeof id); }
static int switchto(int c, int s) { return rq(c, CLIENT_SWITCH_SESSION, &s, sizeof s); }
static void reset(void) { trace[0] = 0; }
static void bye(int c) {
	close(c);
	pump();
}
static void vtsig(int sig) {
	raise(sig);
	pump();
}
#define NEED(c)                                                                                                  \
	do {                                                                                                         \
		if (!(c)) {                                                                                              \
			fprintf(stderr, "demo: line %d: %s\n  trace: %s\n", __LINE__, #c, trace);                            \
			exit(1);                                                                                             \
		}                                                                                                        \
	} while (0)
#pragma GCC diagnostic ignored "-Wunused-function"
