#!/usr/bin/env python3
"""Generates properties.jsonl from the table below (kept as code so that ids, anchors and texts stay in step)."""
import json,os
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
NT="The 29 tests exercise only the ring buffer, the linked list and the poller with hand-picked values; "
SC=["seatd/seat.c","seatd/client.c","seatd/server.c"]

p("S01","Clients can only open canonical, allow-listed device nodes",
 "The server opens a device for a client only if the fully resolved path (symlinks, '.' and '..' removed) belongs to a supported device class (on Linux: below /dev/dri/, or starting with /dev/input/event or /dev/hidraw), and the path it opens is that resolved path, not the one the client sent. The open never follows a final symlink, never acquires a controlling terminal, does not block and is close-on-exec.",
 ["inputs","histories"],"every path string any client can send, at every point of every client history",
 NT+"no test opens a device; all possible path strings cannot be sampled.",
 ["seatd/seat.c","common/drm.c","common/evdev.c","common/hidraw.c","common/wscons.c"],
 [("path sanitising and device open","seat_open_device"),("class predicates","path_is_drm, path_is_evdev, path_is_hidraw, path_is_wscons")],["open(2), realpath(3)"])
p("S02","A device is handed out only to a client that currently holds the seat",
 "A request to open a device succeeds only while the requesting client's seat is enabled: never before the server enabled it, never after the server told it to disable, and never after it closed the seat. Otherwise no device node is opened and no descriptor is queued to the client.",
 ["inputs","histories","schedules"],"every interleaving of requests of several clients, VT signals and disconnects",
 NT+"the seat state machine has no test at all.",SC,[("state gate","seat_open_device"),("reply with descriptor","handle_open_device")],["open(2), descriptors queued with the DEVICE_OPENED reply"])
p("S03","Losing the seat revokes every device before anyone is told",
 "Before the server tells a client that its seat is disabled, before it acknowledges a VT release to the kernel, and before another client is enabled, revocation has been requested from the kernel for every device that client still has open, with the mechanism of the device's class (DRM master drop, evdev revoke, hidraw revoke). A failing revocation of one device does not stop the others from being revoked.",
 ["histories","fault_sequences","schedules"],"every order of opens, closes, switches, VT signals and ioctl failures, for any mix of device classes",
 NT+"no test reaches an ioctl.",["seatd/seat.c","common/drm.c","common/evdev.c","common/hidraw.c"],
 [("revocation","seat_deactivate_device, seat_disable_client"),("VT release","seat_vt_release")],["ioctl(2), disable event, VT_RELDISP"],
 [("seat_device.active","device currently has its privileged access")])
p("S04","Dropping the last reference to a device revokes and closes it",
 "Opening a device path that the client already has open yields the same device id and adds a reference; each close removes one. When the last reference goes, or the client closes the seat or disconnects, the server requests revocation of a device that still has access and then closes its own descriptor, exactly once, whatever errors occurred before.",
 ["histories","fault_sequences"],"every sequence of opens, re-opens, closes and disconnects with any syscall failing",
 NT+"device reference counting has no test.",["seatd/seat.c","seatd/client.c"],
 [("close","seat_close_device"),("reuse","seat_open_device"),("teardown","seat_remove_client")],["ioctl(2), close(2), DEVICE_OPENED reply"],[("seat_device.ref_cnt","number of opens not yet closed")])
p("S05","At most one client holds the seat at any time",
 "A client is sent the enable event only when no other client of the seat is enabled or still has to acknowledge a disable.",
 ["histories","schedules"],"every interleaving of any clients' requests, disconnects and VT signals",
 NT+"no test has two clients.",SC,[("single active client","seat_open_client, seat_activate, seat_ack_disable_client, seat_remove_client")],["ENABLE_SEAT / DISABLE_SEAT events"],[("seat.active_client","the client holding the seat")])
p("S06","Enable and disable follow the handshake and the seat is passed on",
 "A client is told to disable only while it is enabled, and is enabled again only after it acknowledged the disable; an acknowledgement nobody asked for is refused with an error. When the active client acknowledges, closes its seat or disconnects, an eligible waiting client (the queued one, else on a VT-bound seat one of the current VT, else any) is enabled in the same step, and a client that never acknowledges blocks only the seat, not the server.",
 ["histories","schedules"],"every interleaving of requests, acknowledgements, disconnects and VT signals",
 NT+"the seat state machine has no test.",SC,[("handshake","seat_disable_client, seat_ack_disable_client, seat_open_client"),("hand-over","seat_activate")],["ENABLE_SEAT / DISABLE_SEAT events and replies"],[("client.state","NEW, ACTIVE, PENDING_DISABLE, DISABLED, CLOSED")])
p("S07","Session switch requests obey the switching rules",
 "A switch request is refused with an error from a client that does not hold the seat or for a session number below one, and has no effect but success when it names the client's own session or another switch is already queued. On a VT-bound seat an accepted request only asks the kernel to activate that VT; on any other seat it disables the requester and makes the named session, and no other, the next one enabled, or is refused if there is no such session.",
 ["inputs","histories"],"every session number, from every client, in every seat state",
 NT+"switching has no test.",["seatd/seat.c","seatd/client.c"],[("switch","seat_set_next_session, vt_switch")],["VT_ACTIVATE ioctl, DISABLE_SEAT/ENABLE_SEAT events, reply"])
p("S08","The VT is configured for graphics on activation and restored on exit",
 "On a VT-bound seat a client is enabled only after its VT was put under process switching with keyboard off and graphics mode on; when the client on the current VT goes away and nobody takes over, keyboard and text mode of that VT are restored. A client's VT is the one that was current when it opened the seat. Every VT release signal is answered with a release acknowledgement and every acquire signal with an acquire acknowledgement; no VT of another client is switched back to text mode.",
 ["histories","schedules","fault_sequences"],"every interleaving of VT signals, client requests and failing tty opens",
 NT+"the terminal layer has no test.",["seatd/seat.c","common/terminal.c","seatd/server.c"],[("VT set-up and restore","vt_open, vt_close, seat_open_client, seat_remove_client"),("VT signals","seat_vt_activate, seat_vt_release")],["tty ioctls"])
p("S09","No client, signal or failing system call can abort the server",
 "No sequence of client messages, disconnects, VT signals and failing system calls makes the server reach an assertion failure or abort.",
 ["inputs","histories","fault_sequences","schedules"],"every reachable server state, every message, every errno",
 NT+"none of them drives the server.",SC+["common/terminal.c"],[("assertions","seat_open_device, seat_disable_client, seat_set_next_session, client_destroy, get_tty_path")],["abort(3), __assert_fail"])
p("S10","The server never touches memory it does not own",
 "In every reachable server state no freed object, null pointer, out-of-range index or uninitialised value is used, nothing is freed twice, and no object still referenced by a live one is freed.",
 ["inputs","histories","fault_sequences","schedules"],"every reachable server state, message, disconnect order and failing allocation",
 NT+"they run a few fixed histories of two leaf modules.",SC,[("lifetime","client_destroy, seat_remove_client, seat_close_device, server_finish")],["memory accesses"])
p("S11","Every request gets exactly one matching reply or the client is dropped",
 "For each complete request the server sends exactly one reply, of the kind belonging to that request or an error carrying a non-zero error code, and sends it to the requester; otherwise it disconnects that client. A request refused with an error leaves no partial effect: no device stays open and no session stays queued.",
 ["inputs","histories","fault_sequences"],"every request in every state with every failure",
 NT+"no test speaks the protocol.",["seatd/client.c","include/protocol.h"],[("dispatch","client_handle_opcode"),("handlers","handle_open_seat, handle_close_seat, handle_open_device, handle_close_device, handle_switch_session, handle_disable_seat, handle_ping")],["messages put on the connection"])
p("S12","Everything sent is a well-formed protocol message",
 "Each message the server or the client library sends consists of a header whose opcode is one its peer knows and whose size field equals the number of payload bytes that follow, of the layout the peer expects; descriptors accompany exactly the messages that announce one.",
 ["inputs","histories","fault_sequences"],"every request and event, every path length, every failure between header and payload",
 NT+"no test checks a protocol message.",["seatd/client.c","libseat/backend/seatd.c","include/protocol.h"],[("writers","client_send_error, handle_*, open_device, close_device, switch_session, send_ping")],["messages put on the connection"])
p("S13","Incoming requests are validated and consumed exactly",
 "The server acts on a message only when all of it has arrived, consumes exactly the header and the announced payload, and disconnects the sender when the opcode is unknown or the size does not fit the request. A device path is used only if its announced length fits the buffer and it is terminated exactly at that length.",
 ["inputs","schedules"],"every byte sequence, split in every way",
 NT+"the ring-buffer tests never go through message parsing.",["seatd/client.c"],[("parser","client_handle_connection, client_handle_opcode")],["bytes taken from the connection"])
p("S14","A client can only affect itself",
 "Handling input from one client never disconnects another client, closes or references another client's devices, or acknowledges on another client's behalf; device ids are looked up only among the requester's own devices and are unique among them.",
 ["inputs","histories"],"every pair of clients and every message",
 NT+"no test has two clients.",SC,[("lookup","seat_find_device, seat_open_device"),("dispatch","client_handle_connection")],["connections closed, devices closed"])
p("S15","The message buffer is a bounded lossless FIFO",
 "For every fill level and every wrap position, putting, getting, flushing, receiving and restoring never read or write outside the buffer, keep bytes in order without losing or duplicating any, refuse what does not fit, and leave the buffer unchanged when they fail.",
 ["inputs","histories"],"all 32-bit cursor values, all fill levels 0..capacity, all request sizes, all partial transfers",
 NT+"they try a handful of cursor positions and never a partial sendmsg.",["common/connection.c","include/connection.h"],[("ring arithmetic","connection_buffer_*"),("I/O","connection_read, connection_flush")],["memory copies, iovecs"],[("head, tail","free-running 32-bit cursors")])
p("S16","Passed descriptors are queued, delivered or closed, never lost",
 "Every descriptor received is either queued for the application or closed, with all of them examined even on overflow; every descriptor queued for sending is sent once with the next bytes and then closed locally, or closed when the connection is torn down; control-message construction and parsing stay in bounds.",
 ["inputs","histories"],"every number of descriptors and control messages, every fill level",
 NT+"one fixed exchange of a few descriptors is tested.",["common/connection.c"],[("control messages","build_cmsg, decode_cmsg"),("teardown","connection_close_fds")],["close(2), sendmsg(2), recvmsg(2)"])
p("S17","Socket I/O never blocks the server, raises SIGPIPE or loses an interrupted call",
 "All reads, writes and accepts on client and listening sockets are non-blocking and cannot raise SIGPIPE; an interrupted send, receive or poll is retried rather than treated as failure; a would-block result is not treated as an error of the peer.",
 ["fault_sequences","schedules"],"every EINTR/EAGAIN/partial result at every I/O call",
 NT+"tests use ready socket pairs only.",["common/connection.c","seatd/server.c","seatd/client.c","seatd/poller.c","seatd/seatd.c"],[("I/O","connection_read, connection_flush, server_add_client, poller_poll, open_socket")],["recvmsg, sendmsg, accept, fcntl, poll flags"])
p("S18","The server neither leaks nor double-closes descriptors or memory",
 "After every event each descriptor and heap object the server holds is owned by a live client, device, seat, connection queue or the event loop; everything else has been released, and no descriptor is closed twice or used after it was closed.",
 ["histories","fault_sequences"],"every event in every reachable state with every failing call",
 NT+"no test observes resource use of the server.",SC+["seatd/poller.c"],[("ownership","client_create, client_destroy, server_add_client, seat_open_device, handle_open_device")],["close(2), free(3)"])
p("S19","Descriptors do not leak into other programs",
 "Every descriptor that the client library opens or receives in the application's process, and every device descriptor the server opens, is close-on-exec from the moment it exists or before control returns to the caller.",
 ["histories"],"every descriptor-creating call of every backend",
 NT+"no test looks at descriptor flags.",["libseat/backend/seatd.c","libseat/backend/logind.c","libseat/backend/noop.c","common/connection.c","seatd/seat.c"],[("creation","seatd_connect, builtin_open_seat, noop_open_seat, open_device, connection_read")],["flags of socket, socketpair, open, fcntl, recvmsg"])
p("S20","Event sources stay valid while the poller may use them",
 "The poller calls a callback only for a registered, not yet destroyed source, and only with an event that was reported for that source's descriptor, and calls it for each source that is ready and still registered; sources may be added, changed or destroyed from inside any callback without any use of freed memory or access outside the poll array, and after any change the next wait uses the updated set.",
 ["histories","schedules"],"every sequence of adds, updates, destroys and dispatches, including from callbacks",
 NT+"the poller tests use one or two sources and a few fixed sequences.",["seatd/poller.c"],[("rebuild","regenerate"),("dispatch","dispatch, poller_poll")],["callbacks, poll(2)"],[("poller.dirty","the poll array must be rebuilt")])
p("S21","Signals are never lost and the handler is async-signal-safe",
 "A signal that arrives at any moment after its source was registered leads to its callback being run after that moment; the asynchronous handler only touches memory valid at any time, only calls async-signal-safe functions, preserves errno and cannot block. When the last source of a signal is destroyed its default disposition is restored.",
 ["schedules"],"every instruction at which a signal can arrive",
 NT+"tests raise a signal synchronously, at one point.",["seatd/poller.c"],[("handler","signal_handler"),("dispatch","dispatch"),("disposition","poller_add_signal, event_source_signal_destroy, poller_finish")],["sigaction, callback order"])
p("S22","The daemon starts safely and signals readiness only when reachable",
 "The server refuses to start if its socket path is occupied by something that is not a socket, or by any socket when run in launcher mode; it never removes anything else. It restricts mode and then ownership of the socket when a user or group was given, notifies readiness exactly once and only after it listens and watches the socket, and on every exit after creating it removes the socket and exits non-zero on failure.",
 ["configurations","fault_sequences"],"every option combination and every failing call during start-up",
 NT+"no test runs the daemon.",["seatd/seatd.c"],[("startup","main, open_socket")],["lstat, unlink, bind, listen, chmod, chown, write, exit status"])
p("S23","The launcher runs the command only with dropped privileges",
 "The launched command is executed only after the socket was restricted to the real user and group and after the group and then the user id were set to the real ones, each step having succeeded; otherwise the command is not run at all and the launcher exits non-zero. The daemon is started from the fixed install path with an empty environment, and the command finds the socket's path in SEATD_SOCK.",
 ["fault_sequences","configurations"],"every failing call, every point of failure",
 NT+"no test runs the launcher.",["seatd-launch/seatd-launch.c"],[("privilege drop","main")],["chown, chmod, setgid, setuid, execve, execvp"])
p("S24","The launcher stops the daemon and reports the command's status",
 "Once the daemon was started, every exit of the launcher terminates it; the launcher's exit status is the command's exit code, or 128 plus the signal number that killed it, and non-zero for any failure of its own. It waits for the readiness notification before running the command and does not wait forever when the daemon died.",
 ["fault_sequences","schedules"],"every wait status, every failing or interrupted call",
 NT+"no test runs the launcher.",["seatd-launch/seatd-launch.c"],[("supervision","main")],["waitpid, kill, exit status"])
p("S25","Backend selection honours the request and never falls back to noop",
 "Opening a seat with an incomplete listener fails with EINVAL before any backend is tried; a backend named in the environment is the only one tried; otherwise the seatd, logind and built-in backends are tried in that order, as far as they are compiled in, until one succeeds, the no-op backend never being chosen implicitly. Each API call is forwarded to the backend that opened the seat with the caller's arguments, and every backend provides every operation.",
 ["configurations","inputs"],"every environment value and every combination of backend failures",
 NT+"libseat itself has no test.",["libseat/libseat.c","libseat/backend/seatd.c","libseat/backend/logind.c","libseat/backend/noop.c"],[("selection","libseat_open_seat"),("tables","seatd_impl, logind_impl, builtin_impl, noop_impl")],["backend calls, return value, errno"])
p("S26","A failing library call reports why",
 "Each client-library call returns what its contract says and, when it fails because the server or bus refused or broke, leaves the reason in errno: the error code sent by the server, the bus error, or the error that broke the connection; success is never reported after a failure and outputs are set exactly on success.",
 ["inputs","fault_sequences"],"every server reply and failing call, in every library state",
 NT+"no test calls the library API.",["libseat/backend/seatd.c","libseat/backend/logind.c","libseat/backend/noop.c"],[("error paths","read_header, read_until_response, open_device, close_device, switch_session, disable_seat, close_seat, dispatch")],["return values, errno"])
p("S27","Seat events reach the application in order, once, and only from dispatch",
 "The library delivers every enable and disable event the server sent exactly once, in the order sent, through the listener with the caller's data, and only while the application is in an open, close or dispatch call. If a request leaves events or bus messages undelivered the library makes its descriptor readable so that the application will dispatch them; a dispatch that delivered an event does not wait for another one and counts it in its result; the initial state of a logind or no-op seat is delivered by the first dispatch.",
 ["histories","schedules","inputs"],"every interleaving of replies and events, any number of queued events, listeners that re-enter the library",
 NT+"no test delivers an event.",["libseat/backend/seatd.c","libseat/backend/logind.c","libseat/backend/noop.c"],[("queue","queue_event, execute_events, read_and_queue"),("wake-up","check_pending_events, send_ping")],["listener calls, ping messages"],[("pending_events","events read but not delivered"),("awaiting_pong","a wake-up is already on its way")])
p("S28","A broken connection stays broken",
 "Once the library detects a protocol violation or loses the server, the connection is closed once, queued descriptors and events are released, every later request and dispatch fails with ENOTCONN without any I/O, and closing the seat still releases everything.",
 ["histories","fault_sequences","inputs"],"every malformed reply and every failing call, followed by every API call",
 NT+"no test breaks a connection.",["libseat/backend/seatd.c"],[("sticky error","set_error, cleanup, destroy")],["I/O calls, return values"],[("error","the connection is unusable")])
p("S29","The library trusts nothing the server sends",
 "Whatever bytes the server sends (and whatever logind answers or signals), the library never reads or writes outside its objects, never aborts, accepts a reply only if its opcode and size are the expected ones, and waits only while the reply is incomplete.",
 ["inputs","schedules"],"every byte sequence from the server, split in every way",
 NT+"no test parses a reply.",["libseat/backend/seatd.c","libseat/backend/logind.c"],[("parser","read_header, read_and_queue, _open_seat, open_device")],["memory accesses, abort"])
p("S30","Library backends neither leak nor double-release resources",
 "Over every sequence of library calls, each descriptor, allocation, bus message, bus error and bus connection a backend acquires is released exactly once or handed to the caller or the open seat, and closing the seat, or failing to open it, releases all of it; a device taken from logind is released again when opening it fails, and control of the logind session is given back.",
 ["histories","fault_sequences"],"every call sequence with every failing call",
 NT+"no test calls the library API.",["libseat/backend/seatd.c","libseat/backend/logind.c","libseat/backend/noop.c"],[("teardown","destroy, cleanup, close_seat, logind_open_seat, _open_seat")],["close, free, unref"])
p("S31","Bus messages are read and written with matching types",
 "Each value exchanged with logind is read into and passed as an object of exactly the type its D-Bus signature demands, in the number the signature demands, and values read are used only when the read succeeded. Each request is sent to the right object and interface and names the device, session or seat it is about.",
 ["inputs","fault_sequences"],"every message logind can send and every failing call",
 NT+"the logind backend has no test and cannot run in the sandbox.",["libseat/backend/logind.c"],[("bus I/O","handle_pause_device, handle_properties_changed, session_get_active, open_device, manager_get_session_path, manager_get_seat_path")],["sd-bus calls"])
p("S32","Under logind the application is disabled before a pause is acknowledged",
 "A graceful device pause is acknowledged, for exactly that device, only after the application was told its seat is disabled; a removed device causes no seat event; the application is told about activation changes only when the state really changed, with the latest state, and the initial state is reported on the first dispatch.",
 ["histories","schedules","inputs"],"every order of pause, property-change and dispatch events",
 NT+"the logind backend has no test.",["libseat/backend/logind.c"],[("pause","handle_pause_device, set_active"),("properties","handle_properties_changed"),("initial state","dispatch_and_execute")],["listener calls, PauseDeviceComplete"],[("active","last state told to the application")])
p("S33","Log level and handler are honoured and logging never changes errno",
 "A message reaches the log handler exactly if its level is not above the configured level (initially silent) and never when silenced; the configured handler is used and a null handler restores the default; producing a message leaves errno unchanged and never indexes outside the level tables. The daemon and the launcher take the level from their -l option.",
 ["inputs","configurations"],"every level, message and handler",
 NT+"logging has no test.",["common/log.c"],[("filter","_logf"),("settings","libseat_set_log_handler, libseat_set_log_level")],["handler calls, errno"],[("current_log_level","most verbose level let through")])
p("S34","Output that could not be sent is sent later",
 "Whenever output to a client remains unsent because its socket was full, the server keeps watching that socket for writability and resumes sending, stops watching once all is sent, and does not treat the full socket as a failure of the client.",
 ["schedules","fault_sequences"],"every point at which a socket can be full",
 NT+"no test fills a client socket.",["seatd/client.c","common/connection.c"],[("write interest","client_flush, client_handle_connection, client_send_enable_seat, client_send_disable_seat")],["event-source updates"])
p("S35","A departed peer is always noticed",
 "When a client hangs up, its socket fails or reaches end of file, the server drops that client and releases its session in the same step, whatever data is still buffered; when the server or the logind bus goes away every waiting or dispatching library call notices and fails.",
 ["schedules","fault_sequences"],"every point at which the peer can disappear",
 NT+"no test closes one end under a running server or library.",["seatd/client.c","libseat/backend/seatd.c","common/connection.c","libseat/backend/logind.c"],[("end of file","connection_read, client_handle_connection, poll_connection, dispatch")],["client teardown, return values"])
p("S36","Client and server agree on the protocol",
 "Every request the library can send is understood by the server with the same payload layout, and every reply and event the server can send in answer is accepted by the library with the same layout, for every opcode; path and name limits agree on both sides.",
 ["inputs","programs"],"all opcodes and payloads of both sides",
 NT+"no test connects the two sides.",["seatd/client.c","libseat/backend/seatd.c","include/protocol.h"],[("writers and readers","client_handle_opcode, read_header, read_and_queue")],["messages put and taken on both sides"])
p("S37","The server keeps running until told to stop and then releases everything",
 "The server leaves its event loop only after a termination signal, a failure of the listening socket or of polling, or (embedded in an application) the departure of its only client; when it leaves, all clients are disconnected, all devices revoked and closed, and the seat and poller are freed.",
 ["histories","fault_sequences"],"every event history",
 NT+"no test runs the server.",["seatd/seatd.c","seatd/server.c","seatd/seat.c","libseat/backend/seatd.c"],[("loop","main, builtin_open_seat"),("teardown","server_finish, seat_destroy")],["loop exit, close, free"])
p("S38","A revoked client's descriptor really loses access in the kernel",
 "After a revocation request succeeded, operations on every duplicate of the device's descriptor held by the client fail until access is granted again.",
 ["histories"],"every duplicate and every later operation",
 "It is a statement about the kernel's drivers; no test and no part of this repository decides it.",["common/drm.c","common/evdev.c","common/hidraw.c"],[("ioctl wrappers","drm_drop_master, evdev_revoke, hidraw_revoke")])
p("S39","Switching and replies complete in bounded time",
 "A session switch completes, and each request is answered, within a bounded time under any load.",
 ["schedules"],"every load and scheduling",
 "No test measures latency; it depends on run-time quantities.",["seatd/poller.c","seatd/server.c"],[("event loop","poller_poll")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+"\n")
print(len(P))
