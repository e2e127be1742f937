From 053585da6ce33f159a7aa4f7a4c7b710aa3e2330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 01/34] fix: return the existing device when it is already open

seat_open_device returned the still-NULL device variable for a path the client
had open already: the open was refused with a stale errno although the
reference count had been increased, so the device could not be closed again.
---
 seatd/seat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seatd/seat.c b/seatd/seat.c
index 700bb63..d81f839 100644
--- a/seatd/seat.c
+++ b/seatd/seat.c
@@ -360,7 +360,7 @@ struct seat_device *seat_open_device(struct client *client, const char *path) {
 
 		if (strcmp(old_device->path, sanitized_path) == 0) {
 			old_device->ref_cnt++;
-			return device;
+			return old_device;
 		}
 
 		if (old_device->device_id >= device_id) {
-- 
2.43.0


From b73f9850d47bb0decb679a066d180605bcdc155f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:43 +0000
Subject: [PATCH 02/34] fix: do not open a negative VT when the current VT is
 unknown

cur_vt is -1 after a VT was released and when VT_GETSTATE fails. Acking a VT
signal or switching VT then passed -1 to terminal_open, which asserts that the
number is not negative, and the server aborted. Use tty0 in that case.
---
 seatd/seat.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seatd/seat.c b/seatd/seat.c
index d81f839..b3e554c 100644
--- a/seatd/seat.c
+++ b/seatd/seat.c
@@ -102,7 +102,7 @@ static int vt_close(int vt) {
 }
 
 static int vt_switch(struct seat *seat, int vt) {
-	int ttyfd = terminal_open(seat->cur_vt);
+	int ttyfd = terminal_open(seat->cur_vt == -1 ? 0 : seat->cur_vt);
 	if (ttyfd == -1) {
 		log_errorf("Could not open terminal to switch to VT %d: %s", vt, strerror(errno));
 		return -1;
@@ -114,7 +114,7 @@ static int vt_switch(struct seat *seat, int vt) {
 }
 
 static int vt_ack(struct seat *seat, bool release) {
-	int tty0fd = terminal_open(seat->cur_vt);
+	int tty0fd = terminal_open(seat->cur_vt == -1 ? 0 : seat->cur_vt);
 	if (tty0fd == -1) {
 		log_errorf("Could not open tty0 to ack VT signal: %s", strerror(errno));
 		return -1;
-- 
2.43.0


From 5bef5bf380771e122b49e65e8917d8cb8b187a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:58 +0000
Subject: [PATCH 03/34] fix: clean up the VT of a removed client, not the
 current VT

When the active client of a VT-bound seat left, seat_remove_client cleaned up
cur_vt. After a VT release that is -1, so terminal_open aborted the server, and
after a takeover by a client on another VT nothing was cleaned up at all. When
an inactive client left, its VT was put back into text mode even if the active
client was running on it. Clean up the client's own VT unless the active client
runs there.
---
 seatd/seat.c | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/seatd/seat.c b/seatd/seat.c
index b3e554c..72b5b9d 100644
--- a/seatd/seat.c
+++ b/seatd/seat.c
@@ -270,18 +270,12 @@ void seat_remove_client(struct client *client) {
 		seat_activate(seat);
 	}
 
-	if (seat->vt_bound) {
-		if (was_current && seat->active_client == NULL) {
-			// This client was current, but there were no clients
-			// waiting to take this VT, so clean it up.
-			log_debug("Closing active VT");
-			vt_close(seat->cur_vt);
-		} else if (!was_current && client->state != CLIENT_CLOSED) {
-			// This client was not current, but as the client was
-			// running, we need to clean up the VT.
-			log_debug("Closing inactive VT");
-			vt_close(client->session);
-		}
+	if (seat->vt_bound && client->state != CLIENT_CLOSED &&
+	    (seat->active_client == NULL || seat->active_client->session != client->session)) {
+		// The client was running and no other client is running on its
+		// VT, so clean it up.
+		log_debug("Closing VT");
+		vt_close(client->session);
 	}
 
 	client->state = CLIENT_CLOSED;
-- 
2.43.0


From b92208c117d317331ddea881792c4879a05e8df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 04/34] fix: wait for writability when an event cannot be sent
 immediately

client_send_enable_seat and client_send_disable_seat treated a full socket as a
failure and did not watch it for writability: the event stayed queued, and on a
VT-bound seat the VT of the client that had just become active was closed.
---
 seatd/client.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seatd/client.c b/seatd/client.c
index ef5d625..02aed36 100644
--- a/seatd/client.c
+++ b/seatd/client.c
@@ -464,7 +464,7 @@ int client_send_disable_seat(struct client *client) {
 		.size = 0,
 	};
 	if (connection_put(&client->connection, &header, sizeof header) == -1 ||
-	    connection_flush(&client->connection) == -1) {
+	    client_flush(client) == -1) {
 		log_errorf("Could not send event: %s", strerror(errno));
 		return -1;
 	}
@@ -477,7 +477,7 @@ int client_send_enable_seat(struct client *client) {
 		.size = 0,
 	};
 	if (connection_put(&client->connection, &header, sizeof header) == -1 ||
-	    connection_flush(&client->connection) == -1) {
+	    client_flush(client) == -1) {
 		log_errorf("Could not send event: %s", strerror(errno));
 		return -1;
 	}
-- 
2.43.0


From fe16693e8108f24a03861df49372ab25d9120278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:52 +0000
Subject: [PATCH 05/34] fix: report end of file even when unread input is
 buffered

connection_read returned the amount of buffered input on a zero-length
read, so a peer that closed in the middle of a message was never noticed
by the reader and the descriptor stayed readable forever.
---
 common/connection.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/connection.c b/common/connection.c
index ab79e0e..dcb89fd 100644
--- a/common/connection.c
+++ b/common/connection.c
@@ -207,6 +207,9 @@ int connection_read(struct connection *connection) {
 	if (decode_cmsg(&connection->fds_in, &msg) != 0) {
 		return -1;
 	}
+	if (len == 0) {
+		return 0;
+	}
 	connection->in.head += len;
 
 	return connection_buffer_size(&connection->in);
-- 
2.43.0


From a69cddc035312deec282dffadcd2f2bcf9ab6276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:59 +0000
Subject: [PATCH 06/34] fix: do not lose signals raised during a signal
 callback

---
 seatd/poller.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seatd/poller.c b/seatd/poller.c
index ceadb24..a414eb4 100644
--- a/seatd/poller.c
+++ b/seatd/poller.c
@@ -287,8 +287,8 @@ static void dispatch(struct poller *poller) {
 			if (!bps->raised || bps->killed) {
 				continue;
 			}
-			bps->func(bps->signal, bps->data);
 			bps->raised = false;
+			bps->func(bps->signal, bps->data);
 		}
 	}
 
-- 
2.43.0


From 1b691ef4e26b50e66cb60a5a5b7d00a08967b95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:59 +0000
Subject: [PATCH 07/34] fix: restore the default action of a signal with its
 last source

---
 seatd/poller.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/seatd/poller.c b/seatd/poller.c
index a414eb4..22bc131 100644
--- a/seatd/poller.c
+++ b/seatd/poller.c
@@ -178,6 +178,9 @@ int event_source_signal_destroy(struct event_source_signal *event_source) {
 	struct event_source_signal *bps = (struct event_source_signal *)event_source;
 	struct poller *poller = bps->poller;
 
+	poller->dirty = true;
+	bps->killed = true;
+
 	int refcnt = 0;
 	for (struct linked_list *elem = poller->signals.next; elem != &poller->signals;
 	     elem = elem->next) {
@@ -195,8 +198,6 @@ int event_source_signal_destroy(struct event_source_signal *event_source) {
 		sigaction(bps->signal, &sa, NULL);
 	}
 
-	poller->dirty = true;
-	bps->killed = true;
 	return 0;
 }
 
-- 
2.43.0


From ec7928547d11ce7b575e85e8b02d2b6185b4ce47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:59 +0000
Subject: [PATCH 08/34] fix: close the signal pipe of the poller

---
 seatd/poller.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/seatd/poller.c b/seatd/poller.c
index 22bc131..0d4eb5e 100644
--- a/seatd/poller.c
+++ b/seatd/poller.c
@@ -74,10 +74,10 @@ int poller_init(struct poller *poller) {
 	if (pipe(poller->signal_fds) == -1) {
 		return -1;
 	}
-	if (set_nonblock(poller->signal_fds[0]) == -1) {
-		return -1;
-	}
-	if (set_nonblock(poller->signal_fds[1]) == -1) {
+	if (set_nonblock(poller->signal_fds[0]) == -1 ||
+	    set_nonblock(poller->signal_fds[1]) == -1) {
+		close(poller->signal_fds[0]);
+		close(poller->signal_fds[1]);
 		return -1;
 	}
 
@@ -112,6 +112,8 @@ int poller_finish(struct poller *poller) {
 	}
 	free(poller->pollfds);
 	global_poller = NULL;
+	close(poller->signal_fds[0]);
+	close(poller->signal_fds[1]);
 	return 0;
 }
 
-- 
2.43.0


From 81035616900dc1ff7f0da1db70c257302fc0fc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:13 +0000
Subject: [PATCH 09/34] fix: stop waiting for a daemon that no longer exists

---
 seatd-launch/seatd-launch.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seatd-launch/seatd-launch.c b/seatd-launch/seatd-launch.c
index 65d4f33..a157c28 100644
--- a/seatd-launch/seatd-launch.c
+++ b/seatd-launch/seatd-launch.c
@@ -78,7 +78,7 @@ int main(int argc, char *argv[]) {
 		if (p == seatd_child) {
 			fprintf(stderr, "seatd exited prematurely\n");
 			goto error_seatd;
-		} else if (p == -1 && (errno != EINTR && errno != ECHILD)) {
+		} else if (p == -1 && errno != EINTR) {
 			perror("Could not wait for seatd process");
 			goto error_seatd;
 		}
-- 
2.43.0


From 8ac750d383803afa650218f17f8484519dabbff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:40 +0000
Subject: [PATCH 10/34] fix: remove the socket if it cannot be set up

---
 seatd/seatd.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/seatd/seatd.c b/seatd/seatd.c
index f88e6c9..07c243b 100644
--- a/seatd/seatd.c
+++ b/seatd/seatd.c
@@ -37,20 +37,22 @@ static int open_socket(const char *path, int uid, int gid) {
 	}
 	if (listen(fd, LISTEN_BACKLOG) == -1) {
 		log_errorf("Could not listen on socket: %s", strerror(errno));
-		goto error;
+		goto error_unlink;
 	}
 	if (uid != -1 || gid != -1) {
 		if (chmod(path, 0770) == -1) {
 			log_errorf("Could not chmod socket: %s", strerror(errno));
-			goto error;
+			goto error_unlink;
 		}
 		if (chown(path, uid, gid) == -1) {
 			log_errorf("Could not chown socket to uid %d, gid %d: %s", uid, gid,
 				   strerror(errno));
-			goto error;
+			goto error_unlink;
 		}
 	}
 	return fd;
+error_unlink:
+	unlink(path);
 error:
 	close(fd);
 	return -1;
-- 
2.43.0


From 139822687e7aa5db5632c7f7f653922c838601f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:36 +0000
Subject: [PATCH 11/34] fix: do not close the connection twice when opening a
 seat fails

---
 libseat/backend/seatd.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index 90dd7f7..c813305 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -424,6 +424,8 @@ static struct libseat *_open_seat(const struct libseat_seat_listener *listener,
 
 backend_error:
 	destroy(backend);
+	return NULL;
+
 alloc_error:
 	close(fd);
 	return NULL;
-- 
2.43.0


From e9dd2142b286a2de35f33c102547c1afe22c9f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:36 +0000
Subject: [PATCH 12/34] fix: deliver seat events in the order they were
 received

---
 libseat/backend/seatd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index c813305..d0fa40d 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -187,7 +187,7 @@ static int queue_event(struct backend_seatd *backend, int opcode) {
 	}
 
 	ev->opcode = opcode;
-	linked_list_insert(&backend->pending_events, &ev->link);
+	linked_list_insert(backend->pending_events.prev, &ev->link);
 	return 0;
 }
 
-- 
2.43.0


From a15ccdb52bed01410d4c01cfd348d6ff0e0093c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:36 +0000
Subject: [PATCH 13/34] fix: do not wait forever for a reply after a message
 with opcode zero

---
 libseat/backend/seatd.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index d0fa40d..423696e 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -299,12 +299,12 @@ static int read_until_response(struct backend_seatd *backend) {
 		return -1;
 	}
 	while (true) {
-		int opcode = 0;
+		int opcode = -1;
 		if (read_and_queue(backend, &opcode) == -1) {
 			log_errorf("Could not dispatch pending messages: %s", strerror(errno));
 			return -1;
 		}
-		if (opcode != 0) {
+		if (opcode != -1) {
 			break;
 		}
 		if (poll_connection(backend, -1) == -1) {
-- 
2.43.0


From 3ceb7eff1ff069c109dbeb4fc5bec78d414a9a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:36 +0000
Subject: [PATCH 14/34] fix: keep the error of a failed request when looking
 for events

---
 libseat/backend/seatd.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index 423696e..4856434 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -483,14 +483,20 @@ static int send_ping(struct backend_seatd *backend) {
 }
 
 static void check_pending_events(struct backend_seatd *backend) {
-	if (read_and_queue(backend, NULL) == -1) {
+	if (backend->error) {
 		return;
 	}
+
+	// The caller may be about to fail with the error of its own request.
+	int saved_errno = errno;
+	if (read_and_queue(backend, NULL) == -1) {
+		goto done;
+	}
 	if (linked_list_empty(&backend->pending_events)) {
-		return;
+		goto done;
 	}
 	if (backend->awaiting_pong) {
-		return;
+		goto done;
 	}
 
 	// We have events pending execution, so a dispatch is required.
@@ -499,9 +505,12 @@ static void check_pending_events(struct backend_seatd *backend) {
 	// user will be woken up by its response.
 	if (send_ping(backend) == -1) {
 		log_errorf("Could not send ping request: %s", strerror(errno));
-		return;
+		goto done;
 	}
 	backend->awaiting_pong = true;
+
+done:
+	errno = saved_errno;
 }
 
 static int open_device(struct libseat *base, const char *path, int *fd) {
-- 
2.43.0


From cb7a06841a6f6bbf242a2a007f0d430c652854fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:36 +0000
Subject: [PATCH 15/34] fix: wake the application for events received while
 opening the seat

---
 libseat/backend/seatd.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index 4856434..a017ab4 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -364,6 +364,8 @@ error:
 	return -1;
 }
 
+static void check_pending_events(struct backend_seatd *backend);
+
 static struct libseat *_open_seat(const struct libseat_seat_listener *listener, void *data, int fd) {
 	assert(listener != NULL);
 	assert(listener->enable_seat != NULL && listener->disable_seat != NULL);
@@ -420,6 +422,7 @@ static struct libseat *_open_seat(const struct libseat_seat_listener *listener,
 	}
 
 	execute_events(backend);
+	check_pending_events(backend);
 	return &backend->base;
 
 backend_error:
-- 
2.43.0


From bf8e4a5aacb0ff78c6d9f952a5acf6c012141151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:36 +0000
Subject: [PATCH 16/34] fix: give up the connection when it cannot be polled

---
 libseat/backend/seatd.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index a017ab4..ce5702f 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -269,7 +269,11 @@ static int poll_connection(struct backend_seatd *backend, int timeout) {
 	};
 
 	if (poll(&fd, 1, timeout) == -1) {
-		return (errno == EAGAIN || errno == EINTR) ? 0 : -1;
+		if (errno == EAGAIN || errno == EINTR) {
+			return 0;
+		}
+		set_error(backend);
+		return -1;
 	}
 
 	if (fd.revents & (POLLERR | POLLHUP)) {
@@ -285,7 +289,10 @@ static int poll_connection(struct backend_seatd *backend, int timeout) {
 			set_error(backend);
 			errno = EIO;
 			return -1;
-		} else if (len == -1 && errno != EAGAIN) {
+		} else if (len == -1) {
+			if (errno == EAGAIN) {
+				return 0;
+			}
 			set_error(backend);
 			return -1;
 		}
-- 
2.43.0


From 0aadae52dae174b9e2fbc3f3332021c52097a916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:36 +0000
Subject: [PATCH 17/34] fix: notice a departed server in dispatch without a
 timeout

---
 libseat/backend/seatd.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index ce5702f..e1ab58c 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -344,16 +344,10 @@ static int dispatch(struct libseat *base, int timeout) {
 	// We don't want to block if we dispatched something, as the
 	// caller might be waiting for the result. However, we'd also
 	// like to read anything pending.
-	int read = 0;
-	if (predispatch > 0 || timeout == 0) {
-		read = connection_read(&backend->connection);
-	} else {
-		read = poll_connection(backend, timeout);
-	}
-
+	int read = poll_connection(backend, predispatch > 0 ? 0 : timeout);
 	if (read == 0) {
 		return predispatch;
-	} else if (read == -1 && errno != EAGAIN) {
+	} else if (read == -1) {
 		log_errorf("Could not read from connection: %s", strerror(errno));
 		goto error;
 	}
-- 
2.43.0


From 4eda957edde6654ac4ade53552e05c810efd489c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:36 +0000
Subject: [PATCH 18/34] fix: report why closing the seat failed

---
 libseat/backend/seatd.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index e1ab58c..7b966ef 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -448,6 +448,7 @@ static int close_seat(struct libseat *base) {
 	int res = 0;
 	struct backend_seatd *backend = backend_seatd_from_libseat_backend(base);
 	if (backend->error) {
+		errno = ENOTCONN;
 		res = -1;
 		goto done;
 	}
@@ -456,11 +457,8 @@ static int close_seat(struct libseat *base) {
 		.opcode = CLIENT_CLOSE_SEAT,
 		.size = 0,
 	};
-	if (conn_put(backend, &header, sizeof header) == -1 || read_until_response(backend) == -1) {
-		res = -1;
-	}
-
-	if (read_header(backend, SERVER_SEAT_CLOSED, 0, false) == SIZE_MAX) {
+	if (conn_put(backend, &header, sizeof header) == -1 || read_until_response(backend) == -1 ||
+	    read_header(backend, SERVER_SEAT_CLOSED, 0, false) == SIZE_MAX) {
 		res = -1;
 	}
 
-- 
2.43.0


From 0f72730ce25767b62a53d017236363041f96b0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:36 +0000
Subject: [PATCH 19/34] fix: set errno when the descriptor of a broken
 connection is asked for

---
 libseat/backend/seatd.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index 7b966ef..c1110a3 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -324,6 +324,10 @@ static int read_until_response(struct backend_seatd *backend) {
 
 static int get_fd(struct libseat *base) {
 	struct backend_seatd *backend = backend_seatd_from_libseat_backend(base);
+	if (backend->error) {
+		errno = ENOTCONN;
+		return -1;
+	}
 	return backend->connection.fd;
 }
 
-- 
2.43.0


From 032beeb4853af468c5048b8da1cc02e32482549a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:36 +0000
Subject: [PATCH 20/34] fix: reject negative device ids sent by the server

---
 libseat/backend/seatd.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index c1110a3..1bf6a5e 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -547,7 +547,14 @@ static int open_device(struct libseat *base, const char *path, int *fd) {
 	int res = 0;
 	struct proto_server_device_opened rmsg;
 	if (read_header(backend, SERVER_DEVICE_OPENED, sizeof rmsg, false) == SIZE_MAX ||
-	    conn_get(backend, &rmsg, sizeof rmsg) == -1 || conn_get_fd(backend, fd)) {
+	    conn_get(backend, &rmsg, sizeof rmsg) == -1) {
+		res = -1;
+	} else if (rmsg.device_id < 0) {
+		log_errorf("Invalid message: negative device id (%d)", rmsg.device_id);
+		set_error(backend);
+		errno = EBADMSG;
+		res = -1;
+	} else if (conn_get_fd(backend, fd) == -1) {
 		res = -1;
 	} else {
 		res = rmsg.device_id;
-- 
2.43.0


From cc38737e56b3fd230f1a3b32871d48a0fb0f0c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:36 +0000
Subject: [PATCH 21/34] fix: make the longest device path fit into the
 connection's buffer

---
 include/connection.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/connection.h b/include/connection.h
index d32e766..a726f48 100644
--- a/include/connection.h
+++ b/include/connection.h
@@ -4,7 +4,7 @@
 #include <stddef.h>
 #include <stdint.h>
 
-#define CONNECTION_BUFFER_SIZE 256
+#define CONNECTION_BUFFER_SIZE 512
 
 #define MAX_FDS (CONNECTION_BUFFER_SIZE / sizeof(int))
 
-- 
2.43.0


From a63d83b16dd95a7ae3375aadb01952fff365d820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:10 +0000
Subject: [PATCH 22/34] fix: logind: read D-Bus booleans into an int

sd-bus stores the value of a 'b' as an int, which overran the bools that
were passed.
---
 libseat/backend/logind.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index b5eeed2..bfba236 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -280,11 +280,14 @@ static const char *seat_name(struct libseat *base) {
 
 static int session_get_active(struct backend_logind *session, bool *active) {
 	sd_bus_error error = SD_BUS_ERROR_NULL;
+	int value = 0;
 	int ret = sd_bus_get_property_trivial(session->bus, "org.freedesktop.login1", session->path,
 					      "org.freedesktop.login1.Session", "Active", &error,
-					      'b', active);
+					      'b', &value);
 	if (ret < 0) {
 		log_errorf("Could not check if session is active: %s", error.message);
+	} else {
+		*active = value;
 	}
 
 	sd_bus_error_free(&error);
@@ -434,7 +437,7 @@ static int handle_properties_changed(sd_bus_message *msg, void *userdata, sd_bus
 				goto error;
 			}
 
-			bool value;
+			int value;
 			ret = sd_bus_message_read_basic(msg, 'b', &value);
 			if (ret < 0) {
 				goto error;
@@ -479,7 +482,7 @@ static int handle_properties_changed(sd_bus_message *msg, void *userdata, sd_bus
 			sd_bus_error error = SD_BUS_ERROR_NULL;
 			const char *obj = "org.freedesktop.login1.Session";
 			const char *field = "Active";
-			bool value;
+			int value;
 			ret = sd_bus_get_property_trivial(session->bus, "org.freedesktop.login1",
 							  session->path, obj, field, &error, 'b',
 							  &value);
-- 
2.43.0


From 3563b96cd4ef4de5a11b694014d867a61b6d695a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:10 +0000
Subject: [PATCH 23/34] fix: logind: do not leak the reply to
 PauseDeviceComplete

The reply overwrote the handler's borrowed message and was never released.
---
 libseat/backend/logind.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index bfba236..0ebb0af 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -391,7 +391,7 @@ static int handle_pause_device(sd_bus_message *msg, void *userdata, sd_bus_error
 		set_active(session, false);
 		ret = sd_bus_call_method(session->bus, "org.freedesktop.login1", session->path,
 					 "org.freedesktop.login1.Session", "PauseDeviceComplete",
-					 ret_error, &msg, "uu", major, minor);
+					 ret_error, NULL, "uu", major, minor);
 		if (ret < 0) {
 			log_errorf("Could not send PauseDeviceComplete signal: %s",
 				   ret_error->message);
-- 
2.43.0


From 2a738782b5783aab023542de2c2406e3e0c1a305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:10 +0000
Subject: [PATCH 24/34] fix: logind: release the error when a property cannot
 be read

---
 libseat/backend/logind.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index 0ebb0af..7073e45 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -488,6 +488,7 @@ static int handle_properties_changed(sd_bus_message *msg, void *userdata, sd_bus
 							  &value);
 			if (ret < 0) {
 				log_errorf("Could not get '%s' property: %s", field, error.message);
+				sd_bus_error_free(&error);
 				continue;
 			}
 
-- 
2.43.0


From 34e075e081224beffb05885d0c75295bfbde4438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:10 +0000
Subject: [PATCH 25/34] fix: logind: handle allocation failure when opening a
 seat

---
 libseat/backend/logind.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index 7073e45..df9721d 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -558,6 +558,9 @@ static int manager_get_session_path(struct backend_logind *session, char **sessi
 	}
 	free(*session_path);
 	*session_path = strdup(path);
+	if (*session_path == NULL) {
+		ret = -ENOMEM;
+	}
 
 out:
 	sd_bus_error_free(&error);
@@ -587,6 +590,9 @@ static int manager_get_seat_path(struct backend_logind *session, char **seat_pat
 	}
 	free(*seat_path);
 	*seat_path = strdup(path);
+	if (*seat_path == NULL) {
+		ret = -ENOMEM;
+	}
 
 out:
 	sd_bus_error_free(&error);
@@ -608,6 +614,10 @@ static int get_display_session(char **session_id) {
 			goto error;
 		}
 		*session_id = strdup(xdg_session_id);
+		if (*session_id == NULL) {
+			ret = -ENOMEM;
+			goto error;
+		}
 		goto success;
 	}
 
-- 
2.43.0


From 359fcd7217382e80d2b6dd84612ca352270b4306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:10 +0000
Subject: [PATCH 26/34] fix: logind: set errno when a request fails

---
 libseat/backend/logind.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index df9721d..4af80f4 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -138,6 +138,7 @@ static int open_device(struct libseat *base, const char *path, int *fd) {
 	// so we just clone it.
 	tmpfd = fcntl(tmpfd, F_DUPFD_CLOEXEC, 0);
 	if (tmpfd < 0) {
+		ret = -errno;
 		log_errorf("Could not duplicate fd: %s", strerror(errno));
 		tmpfd = -1;
 		goto out;
@@ -149,6 +150,9 @@ out:
 	sd_bus_error_free(&error);
 	sd_bus_message_unref(msg);
 	check_pending_events(session);
+	if (ret < 0) {
+		errno = -ret;
+	}
 	return tmpfd;
 }
 
@@ -179,7 +183,11 @@ static int close_device(struct libseat *base, int device_id) {
 	sd_bus_error_free(&error);
 	sd_bus_message_unref(msg);
 	check_pending_events(session);
-	return ret < 0 ? -1 : 0;
+	if (ret < 0) {
+		errno = -ret;
+		return -1;
+	}
+	return 0;
 }
 
 static int switch_session(struct libseat *base, int s) {
@@ -202,7 +210,11 @@ static int switch_session(struct libseat *base, int s) {
 	sd_bus_error_free(&error);
 	sd_bus_message_unref(msg);
 	check_pending_events(session);
-	return ret < 0 ? -1 : 0;
+	if (ret < 0) {
+		errno = -ret;
+		return -1;
+	}
+	return 0;
 }
 
 static int disable_seat(struct libseat *base) {
-- 
2.43.0


From dd36a7fa5d70ed65cd01381ddd28c8a4d92f3cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:10 +0000
Subject: [PATCH 27/34] fix: logind: fail dispatch when the bus connection is
 lost

Errors from sd_bus_process were ignored, and the invalid file descriptor of
a closed bus was then polled, possibly forever.
---
 libseat/backend/logind.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index 4af80f4..cfdc7df 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -235,9 +235,12 @@ static int get_fd(struct libseat *base) {
 
 static int poll_connection(struct backend_logind *backend, int timeout) {
 	struct pollfd fd = {
-		.fd = sd_bus_get_fd(backend->bus),
+		.fd = get_fd(&backend->base),
 		.events = POLLIN,
 	};
+	if (fd.fd == -1) {
+		return -1;
+	}
 
 	if (poll(&fd, 1, timeout) == -1) {
 		if (errno == EAGAIN || errno == EINTR) {
@@ -272,7 +275,7 @@ static int dispatch_and_execute(struct libseat *base, int timeout) {
 	while ((dispatched = sd_bus_process(backend->bus, NULL)) > 0) {
 		total_dispatched += dispatched;
 	}
-	if (total_dispatched == 0 && timeout != 0) {
+	if (total_dispatched == 0 && dispatched == 0 && timeout != 0) {
 		if (poll_connection(backend, timeout) == -1) {
 			log_errorf("Could not poll connection: %s", strerror(errno));
 			return -1;
@@ -282,6 +285,10 @@ static int dispatch_and_execute(struct libseat *base, int timeout) {
 		}
 	}
 	check_pending_events(backend);
+	if (dispatched < 0) {
+		errno = -dispatched;
+		return -1;
+	}
 	return total_dispatched;
 }
 
-- 
2.43.0


From a07c36d219b2355f6313ec90547ead03efbfb2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:10 +0000
Subject: [PATCH 28/34] fix: logind: do not use queue lengths that could not be
 read

---
 libseat/backend/logind.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index cfdc7df..1677ff3 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -84,7 +84,7 @@ static int send_ping(struct backend_logind *backend) {
 }
 
 static void check_pending_events(struct backend_logind *backend) {
-	uint64_t queued_read, queued_write;
+	uint64_t queued_read = 0, queued_write = 0;
 	sd_bus_get_n_queued_read(backend->bus, &queued_read);
 	sd_bus_get_n_queued_write(backend->bus, &queued_write);
 
-- 
2.43.0


From 532abe1ea850a910852ff06def8a9f218df9dae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:10 +0000
Subject: [PATCH 29/34] fix: logind: do not wait after delivering the initial
 event

The first dispatch delivered the state of the seat, but then waited for
more and did not count the event.
---
 libseat/backend/logind.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index 1677ff3..94b47d9 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -259,8 +259,11 @@ static int poll_connection(struct backend_logind *backend, int timeout) {
 
 static int dispatch_and_execute(struct libseat *base, int timeout) {
 	struct backend_logind *backend = backend_logind_from_libseat_backend(base);
+	int total_dispatched = 0;
+	int dispatched = 0;
 	if (backend->initial_setup) {
 		backend->initial_setup = false;
+		total_dispatched++;
 		if (backend->active) {
 			backend->seat_listener->enable_seat(&backend->base,
 							    backend->seat_listener_data);
@@ -270,8 +273,6 @@ static int dispatch_and_execute(struct libseat *base, int timeout) {
 		}
 	}
 
-	int total_dispatched = 0;
-	int dispatched = 0;
 	while ((dispatched = sd_bus_process(backend->bus, NULL)) > 0) {
 		total_dispatched += dispatched;
 	}
-- 
2.43.0


From 1972e5c8db87ddb27101532db28e83cdfc3012b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:10 +0000
Subject: [PATCH 30/34] fix: logind: remove signal matches when the seat is
 closed

The bus is shared, so it can outlive the seat, whose handlers were then
called with a freed seat.
---
 libseat/backend/logind.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index 94b47d9..ab51090 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -34,6 +34,8 @@ struct backend_logind {
 	void *seat_listener_data;
 
 	sd_bus *bus;
+	sd_bus_slot *pause_slot;
+	sd_bus_slot *properties_slot;
 	char *id;
 	char *seat;
 	char *path;
@@ -52,6 +54,8 @@ static struct backend_logind *backend_logind_from_libseat_backend(struct libseat
 
 static void destroy(struct backend_logind *backend) {
 	assert(backend);
+	sd_bus_slot_unref(backend->pause_slot);
+	sd_bus_slot_unref(backend->properties_slot);
 	if (backend->bus != NULL) {
 		sd_bus_unref(backend->bus);
 	}
@@ -540,15 +544,16 @@ static int add_signal_matches(struct backend_logind *backend) {
 	static const char *property_interface = "org.freedesktop.DBus.Properties";
 	int ret;
 
-	ret = sd_bus_match_signal(backend->bus, NULL, logind, backend->path, session_interface,
-				  "PauseDevice", handle_pause_device, backend);
+	ret = sd_bus_match_signal(backend->bus, &backend->pause_slot, logind, backend->path,
+				  session_interface, "PauseDevice", handle_pause_device, backend);
 	if (ret < 0) {
 		log_errorf("Could not add D-Bus match: %s", strerror(-ret));
 		return ret;
 	}
 
-	ret = sd_bus_match_signal(backend->bus, NULL, logind, backend->path, property_interface,
-				  "PropertiesChanged", handle_properties_changed, backend);
+	ret = sd_bus_match_signal(backend->bus, &backend->properties_slot, logind, backend->path,
+				  property_interface, "PropertiesChanged", handle_properties_changed,
+				  backend);
 	if (ret < 0) {
 		log_errorf("Could not add D-Bus match: %s", strerror(-ret));
 		return ret;
-- 
2.43.0


From f8c4f3ce9041ef06276a737bd8127a917d8a185c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:10 +0000
Subject: [PATCH 31/34] fix: noop: set errno when switching sessions

---
 libseat/backend/noop.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libseat/backend/noop.c b/libseat/backend/noop.c
index 18f26c3..7d07281 100644
--- a/libseat/backend/noop.c
+++ b/libseat/backend/noop.c
@@ -72,6 +72,7 @@ static int switch_session(struct libseat *base, int s) {
 	(void)base;
 	(void)s;
 	log_errorf("No-op backend cannot switch to session %d", s);
+	errno = ENOSYS;
 	return -1;
 }
 
-- 
2.43.0


From 57c541aef9726ff5f7712982b0f1344755012d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:10 +0000
Subject: [PATCH 32/34] fix: noop: do not wait after enabling the seat

The first dispatch enabled the seat, but then waited for something that
never comes and did not count the event.
---
 libseat/backend/noop.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libseat/backend/noop.c b/libseat/backend/noop.c
index 7d07281..378bcd5 100644
--- a/libseat/backend/noop.c
+++ b/libseat/backend/noop.c
@@ -87,6 +87,7 @@ static int dispatch_background(struct libseat *base, int timeout) {
 	if (backend->initial_setup) {
 		backend->initial_setup = false;
 		backend->seat_listener->enable_seat(&backend->base, backend->seat_listener_data);
+		return 1;
 	}
 
 	struct pollfd fd = {
-- 
2.43.0


From 0bda739218590ecda639443bf5eaa1f1ad78bf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:10 +0000
Subject: [PATCH 33/34] fix: builtin: do not close the client's socket twice

The server owns the socket once the client was added to it.
---
 libseat/backend/seatd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index 1bf6a5e..db7e46d 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -685,6 +685,7 @@ static struct libseat *builtin_open_seat(const struct libseat_seat_listener *lis
 		struct server server = {0};
 		if (server_init(&server) == -1) {
 			log_errorf("Could not init embedded seatd server: %s", strerror(errno));
+			close(fd);
 			res = 1;
 			goto error;
 		}
@@ -705,7 +706,6 @@ static struct libseat *builtin_open_seat(const struct libseat_seat_listener *lis
 	server_error:
 		server_finish(&server);
 	error:
-		close(fd);
 		log_info("Stopped embedded seatd");
 		exit(res);
 	} else {
-- 
2.43.0


From 8b09bbfc215d80dba3fd160d83ff3539dd1c25ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:11 +0000
Subject: [PATCH 34/34] fix: logind: release the device when opening it fails
 halfway

---
 libseat/backend/logind.c | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index ab51090..9a7c4f2 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -107,6 +107,21 @@ static void check_pending_events(struct backend_logind *backend) {
 	}
 }
 
+static int release_device(struct backend_logind *session, dev_t dev) {
+	sd_bus_message *msg = NULL;
+	sd_bus_error error = SD_BUS_ERROR_NULL;
+	int ret = sd_bus_call_method(session->bus, "org.freedesktop.login1", session->path,
+				     "org.freedesktop.login1.Session", "ReleaseDevice", &error,
+				     &msg, "uu", major(dev), minor(dev));
+	if (ret < 0) {
+		log_errorf("Could not close device: %s", error.message);
+	}
+
+	sd_bus_error_free(&error);
+	sd_bus_message_unref(msg);
+	return ret;
+}
+
 static int open_device(struct libseat *base, const char *path, int *fd) {
 	struct backend_logind *session = backend_logind_from_libseat_backend(base);
 
@@ -134,6 +149,7 @@ static int open_device(struct libseat *base, const char *path, int *fd) {
 	ret = sd_bus_message_read(msg, "hb", &tmpfd, &paused);
 	if (ret < 0) {
 		log_errorf("Could not parse D-Bus response: %s", strerror(-ret));
+		release_device(session, st.st_rdev);
 		tmpfd = -1;
 		goto out;
 	}
@@ -144,6 +160,7 @@ static int open_device(struct libseat *base, const char *path, int *fd) {
 	if (tmpfd < 0) {
 		ret = -errno;
 		log_errorf("Could not duplicate fd: %s", strerror(errno));
+		release_device(session, st.st_rdev);
 		tmpfd = -1;
 		goto out;
 	}
@@ -175,17 +192,7 @@ static int close_device(struct libseat *base, int device_id) {
 		return -1;
 	}
 
-	sd_bus_message *msg = NULL;
-	sd_bus_error error = SD_BUS_ERROR_NULL;
-	int ret = sd_bus_call_method(session->bus, "org.freedesktop.login1", session->path,
-				     "org.freedesktop.login1.Session", "ReleaseDevice", &error,
-				     &msg, "uu", major(st.st_rdev), minor(st.st_rdev));
-	if (ret < 0) {
-		log_errorf("Could not close device: %s", error.message);
-	}
-
-	sd_bus_error_free(&error);
-	sd_bus_message_unref(msg);
+	int ret = release_device(session, st.st_rdev);
 	check_pending_events(session);
 	if (ret < 0) {
 		errno = -ret;
-- 
2.43.0

