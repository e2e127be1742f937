"""Analysis of the seat server (seatd): the whole program from main() is interpreted abstractly; the event loop's
poll call is the point where every possible next event is explored.  Monitors attached to the system-call, protocol
and poller boundaries decide the server properties."""
import time
from dom import *
from engine import Engine, Obj, Frame, PUSHED, AnalysisError
from models import Models, EAGAIN, EINTR, ENOMEM, MAXERR

R, W, E, H = 1, 4, 8, 0x10

CLIENT_OPS = {1: "OPEN_SEAT", 2: "CLOSE_SEAT", 3: "OPEN_DEVICE", 4: "CLOSE_DEVICE", 5: "DISABLE_SEAT",
              6: "SWITCH_SESSION", 7: "PING"}
SV = 1 << 15
SERVER_OPS = {SV + 1: "SEAT_OPENED", SV + 2: "SEAT_CLOSED", SV + 3: "DEVICE_OPENED", SV + 4: "DEVICE_CLOSED",
              SV + 5: "DISABLE_SEAT", SV + 6: "ENABLE_SEAT", SV + 7: "PONG", SV + 8: "SESSION_SWITCHED",
              SV + 9: "SEAT_DISABLED", SV + 0x7FFF: "ERROR"}
EVENTS = ("DISABLE_SEAT", "ENABLE_SEAT")
REPLY_FOR = {"SEAT_OPENED": 1, "SEAT_CLOSED": 2, "DEVICE_OPENED": 3, "DEVICE_CLOSED": 4, "SEAT_DISABLED": 5,
             "SESSION_SWITCHED": 6, "PONG": 7}
REQ_SIZE = {1: 0, 2: 0, 4: 4, 5: 0, 6: 4, 7: 0}

DROP_MASTER, SET_MASTER, EVIOCREVOKE, HIDIOCREVOKE = 0x641f, 0x641e, 0x40044591, 0x4004480d
VT_SETMODE, VT_GETSTATE, VT_RELDISP, VT_ACTIVATE, KDSKBMODE, KDSETMODE = 0x5602, 0x5603, 0x5605, 0x5606, 0x4B45, 0x4B3A

ALLOWED = ((b"/dev/dri/", "drm"), (b"/dev/input/event", "evdev"), (b"/dev/hidraw", "hidraw"))

NEEDED = ("connection_read", "connection_flush", "connection_put", "connection_put_fd", "connection_get",
          "connection_pending", "connection_close_fds", "poller_init", "poller_finish", "poller_add_fd",
          "poller_add_signal", "poller_poll", "event_source_fd_destroy", "event_source_fd_update", "_logf")


class ConnModels(Models):
    """the connection_* interface (its implementation is decided separately, see conn.py)"""
    boundary = frozenset(["connection_read", "connection_flush", "connection_put", "connection_put_fd",
                          "connection_get", "connection_get_fd", "connection_pending", "connection_restore",
                          "connection_close_fds", "_logf", "log_init", "libseat_set_log_level"])

    def conn_oid(self, eng, st, p, what):
        if not eng.check_ptr(st, p, self.conn_size, what):
            return None
        return p.oid

    def cg(self, st, oid, k, d=None):
        return st.mem[oid].ghost.get(k, d)

    def conn_fd(self, eng, st, p):
        return st.getcell(p.oid, p.off + self.fd_off, 4)


class ServerModels(ConnModels):
    boundary = ConnModels.boundary | frozenset(
        ["poller_init", "poller_finish", "poller_add_fd", "poller_add_signal", "poller_poll",
         "event_source_fd_destroy", "event_source_fd_update", "event_source_signal_destroy"])

    def __init__(self, prog):
        super().__init__()
        self.conn_size = prog.sizeof("connection")
        self.ring = prog.field("connection_buffer", "data")[1]
        self.fd_off = prog.field("connection", "fd")[0]
        self.wf_off = prog.field("connection", "want_flush")[0]
        self.sess_off = prog.field("client", "session")[0]
        self.client_size = prog.sizeof("client")
        self.cnt_off = prog.field("seat", "session_cnt")[0]
        self.seat_size = prog.sizeof("seat")
        self.devid_off = prog.field("seat_device", "device_id")[0]
        self.dev_size = prog.sizeof("seat_device")
        for n in NEEDED:
            if n not in prog.funcs:
                raise AnalysisError(f"interface function {n} not found")

    def f_getopt(self, eng, st, ins, a):
        return [(st, -1)]

    # ---------------------------------------------------------- small helpers
    def ev(self, st, flag):
        f = st.mon.get("~ev", ())
        if flag not in f:
            st.mon["~ev"] = f + (flag,)

    def has(self, st, flag):
        return flag in st.mon.get("~ev", ())

    def evp(self, st, name):
        return [f for f in st.mon.get("~ev", ()) if f.__class__ is tuple and f[0] == name]

    def conns(self, st):
        return [p.oid for p in st.mon.get("~conns", ())]

    def seatst(self, st, oid):
        return st.mem[oid].ghost.get("~seat", "none")

    def session(self, st, oid):
        return st.getcell(oid, self.sess_off, 4)

    def vtbound(self, eng):
        return eng.opts.get("vt", True)

    def cname(self, st, oid):
        c = self.conns(st)
        return f"client {c.index(oid) + 1}" if oid in c else "a client"

    # ---------------------------------------------------------- poller
    def f_poller_init(self, eng, st, ins, a):
        if not eng.check_ptr(st, a[0], eng.prog.sizeof("poller"), "poller_init", True):
            return []
        out = self.io_fail(eng, st, "poller")
        st.mon["sources"] = ()
        st.mon["sigs"] = ()
        st.mon["~poller"] = 1
        out.append((st, 0))
        return out

    def f_poller_finish(self, eng, st, ins, a):
        self.finish_check(eng, st)
        st.mon["sources"] = ()
        st.mon["sigs"] = ()
        st.mon["~poller"] = 2
        return [(st, 0)]

    def f_poller_add_fd(self, eng, st, ins, a):
        _, fd, mask, fn, data = a
        out = []
        if self.ok(eng, "poller"):
            s = self.failed(eng, st, val=ENOMEM, note="poller_add_fd fails")
            out.append((s, 0))
        i = self.use_fd(eng, st, fd, "poller_add_fd")
        if i == "bad":
            eng.report("S20.fd", st, "an invalid or closed descriptor is handed to the poller")
            return out
        if i and i[0] in ("conn", "listen"):
            if not i[2]:
                eng.report("S17.nonblock", st, f"a {'client' if i[0] == 'conn' else 'listening'} socket is polled without being non-blocking")
            eng.count("polled_sockets")
        if not (mask.__class__ is int and mask & R):
            eng.report("S35.mask", st, "a socket is watched without its readability")
        src = st.new("source", "event source of " + ("a client" if i and i[0] == "conn" else "the listening socket"), 8, "zero")
        g = st.mem[src].ghost
        g["fd"], g["mask"], g["fn"], g["data"], g["role"] = fd, mask, fn, data, i[0] if i else "ext"
        st.mon["sources"] = st.mon.get("sources", ()) + (Ptr(src, 0),)
        if i and i[0] == "conn" and data.__class__ is Ptr:
            if data.oid not in self.conns(st):
                st.mon["~conns"] = st.mon.get("~conns", ()) + (Ptr(data.oid, 0),)
            self.ev(st, ("new", Ptr(data.oid, 0)))
            st.setg(data.oid, "~fd", fd)
            st.setg(data.oid, "~seat", "none")
            st.mem[data.oid].tag = "the client"
        out.append((st, Ptr(src, 0)))
        return out

    def source(self, eng, st, p, what):
        if p.__class__ is not Ptr:
            eng.check_ptr(st, p, 1, what)
            return None
        o = st.mem.get(p.oid)
        if o is None or o.kind != "source":
            eng.report("S20.source", st, f"{what} on something that is not an event source")
            return None
        if not o.alive:
            eng.report("mem.uaf", st, f"{what} of {o.tag} after it was destroyed", key="src")
            return None
        return o

    def f_event_source_fd_destroy(self, eng, st, ins, a):
        if self.source(eng, st, a[0], "event_source_fd_destroy") is None:
            return []
        st.mon["sources"] = tuple(s for s in st.mon.get("sources", ()) if s.oid != a[0].oid)
        self.kill(st, a[0].oid)
        return [(st, 0)]

    def f_event_source_fd_update(self, eng, st, ins, a):
        if self.source(eng, st, a[0], "event_source_fd_update") is None:
            return []
        m = a[1]
        if m.__class__ is not int:
            rs = []
            raise AnalysisError("event mask is not a constant")
        st.setg(a[0].oid, "mask", m)
        return [(st, 0)]

    def f_poller_add_signal(self, eng, st, ins, a):
        _, sig, fn, data = a
        out = []
        if self.ok(eng, "poller"):
            out.append((self.failed(eng, st, val=ENOMEM, note="poller_add_signal fails"), 0))
        src = st.new("source", "signal source", 8, "zero")
        g = st.mem[src].ghost
        g["sig"], g["fn"], g["data"] = sig, fn, data
        st.mon["sigs"] = st.mon.get("sigs", ()) + (Ptr(src, 0),)
        out.append((st, Ptr(src, 0)))
        return out

    def f_event_source_signal_destroy(self, eng, st, ins, a):
        if self.source(eng, st, a[0], "event_source_signal_destroy") is None:
            return []
        st.mon["sigs"] = tuple(s for s in st.mon.get("sigs", ()) if s.oid != a[0].oid)
        self.kill(st, a[0].oid)
        return [(st, 0)]

    # ---------------------------------------------------------- the event point
    def f_poller_poll(self, eng, st, ins, a):
        if not st.mon.get("~poller") == 1:
            eng.report("S20.poller", st, "poll without an initialised poller")
            return []
        if "~stop" in st.mon:
            eng.report("S37.stop", st, "the server waits for further events after it was told to stop")
            return []
        st.mon["~inloop"] = 1
        self.boundary_alpha(eng, st)
        key = eng.canon(st, full=True)
        if key in eng.seen_ev:
            return []
        eng.seen_ev.add(key)
        if eng.opts.get("startup_only"):
            eng.count("event_states")
            s = st.copy()
            s.mon["~why"] = "poll"
            self.set_errno(eng, s, s.fresh(1, MAXERR))
            out = [(s, -1)]
            st.mon["~started"] = 1
            for q in st.mon.get("sigs", ()):
                sig = st.g(q.oid, "sig")
                if sig in (2, 15):
                    s = st.copy()
                    s.mon["~ev"] = (("sig", sig),)
                    out.append(self.fire(eng, s, q.oid, [sig, s.g(q.oid, "data")], ins))
            return out
        eng.pending.append((key, st))
        return []

    def resume(self, eng, st):
        ins = st.fr.blk.ins[st.fr.ip]
        return eng.cont(self.events(eng, st, ins), ins)

    def events(self, eng, st, ins):
        out = []
        if eng.opts.get("stop", True):
            s = st.copy()
            s.mon["~why"] = "poll"
            self.set_errno(eng, s, s.fresh(1, MAXERR, ne=[EINTR]))
            s.note("event: poll fails")
            out.append((s, -1))
        for q in st.mon.get("sources", ()):
            g = st.mem[q.oid].ghost
            mask = g["mask"] if g["mask"].__class__ is int else R
            role = g["role"]
            opts = []
            if mask & R:
                opts += [R, R | H] if role == "conn" and eng.opts.get("rh") else [R]
            if mask & W:
                opts.append(W)
                if mask & R and eng.opts.get("rw", False):
                    opts.append(R | W)
            if role == "conn" or eng.opts.get("stop", True):
                opts += [H, E] if eng.opts.get("errev", True) or role != "conn" else [H]
            for m in opts:
                s = st.copy()
                subj = g["data"].oid if role == "conn" and g["data"].__class__ is Ptr else None
                s.mon["~ev"] = (("src", role, m, Ptr(subj, 0) if subj else 0),)
                if role == "listen" and m & (H | E):
                    s.mon["~why"] = "listen"
                s.note(f"event: {self.cname(s, subj) if subj else 'listening socket'} " +
                       "/".join(n for b, n in ((R, "readable"), (W, "writable"), (H, "hangup"), (E, "error")) if m & b))
                self.snapshot(eng, s)
                out.append(self.fire(eng, s, q.oid, [g["fd"], m, g["data"]], ins))
        for q in st.mon.get("sigs", ()):
            g = st.mem[q.oid].ghost
            if g["sig"] in (2, 15) and not eng.opts.get("stop", True):
                continue
            s = st.copy()
            s.mon["~ev"] = (("sig", g["sig"]),)
            if g["sig"] in (2, 15):
                s.mon["~why"] = "signal"
                s.mon["~stop"] = 1
            s.note(f"event: signal {g['sig']}")
            self.snapshot(eng, s)
            out.append(self.fire(eng, s, q.oid, [g["sig"], g["data"]], ins))
        return out

    def fire(self, eng, s, soid, args, ins=None):
        fn = s.g(soid, "fn")
        if fn.__class__ is not Fn:
            raise AnalysisError("event callback is not a known function")
        eng.count("events")
        eng.call(s, fn.name, args, ins, post=PostEvent(self, eng))
        return (s, PUSHED)

    def snapshot(self, eng, st):
        st.mon["~st0"] = tuple((Ptr(o, 0), self.seatst(st, o)) for o in self.conns(st))
        st.mon["~dev0"] = tuple((d[0], d[1], d[2]) for d in st.mon.get("~devs", ()))

    def st0(self, st, oid):
        for p, v in st.mon.get("~st0", ()):
            if p.oid == oid:
                return v
        return None

    # ---------------------------------------------------------- connections
    def f_connection_read(self, eng, st, ins, a):
        oid = self.conn_oid(eng, st, a[0], "connection_read")
        if oid is None:
            return []
        if self.use_fd(eng, st, self.conn_fd(eng, st, a[0]), "read") == "bad":
            return []
        out = []
        s = st.copy()
        self.set_errno(eng, s, s.fresh(1, MAXERR, ne=[EINTR]))
        s.setg(oid, "c.fdin", 1)
        s.note("reading from the client fails")
        out.append((s, -1))
        s = st.copy()
        self.ev(s, ("eof", Ptr(oid, 0)))
        s.setg(oid, "c.fdin", 1)
        s.note("end of file on the client's socket")
        out.append((s, 0))
        av = st.fresh(1, self.ring)
        st.setg(oid, "c.avail", av)
        st.setg(oid, "c.fdin", 1)
        out.append((st, av))
        return out

    def avail(self, st, oid):
        v = st.mem[oid].ghost.get("c.avail")
        if v is None:
            v = st.fresh(0, self.ring)
            st.setg(oid, "c.avail", v)
        return st.norm(v)

    def f_connection_pending(self, eng, st, ins, a):
        oid = self.conn_oid(eng, st, a[0], "connection_pending")
        if oid is None:
            return []
        return [(st, self.avail(st, oid))]

    def f_connection_get(self, eng, st, ins, a):
        oid = self.conn_oid(eng, st, a[0], "connection_get")
        if oid is None:
            return []
        dst = a[1]
        out = []
        todo = []
        for st, n in eng.resolve(st, a[2], 64, False):
            z = st.eq0(n) if n.__class__ is Lin else n == 0
            if z is None:
                s = st.copy()
                if s.assume_eq0(n):
                    out.append((s, 0))
                todo += [(x, x.norm(n)) for x in st.assume_ne0(n)]
            elif z:
                out.append((st, 0))
            else:
                todo.append((st, n))
        for st, n in todo:
            av = self.avail(st, oid)
            s = st.copy()
            if s.assume_ge0(sub(add(n, -1), av)):
                self.set_errno(eng, s, EAGAIN)
                out.append((s, -1))
            if not st.assume_ge0(sub(av, n)):
                continue
            if n != 0 and not eng.check_ptr(st, dst, n, "copy of received data", True):
                continue
            msg = st.mem[oid].ghost.get("c.msg")
            if msg is not None:
                # message boundary?
                rem = sub(add(msg[1], 4), msg[2])
                z = st.eq0(rem)
                if z is None:
                    s = st.copy()
                    if s.assume_eq0(s.norm(rem)):
                        out += self.next_header(eng, s, oid, n)
                    sp = st.assume_ne0(st.norm(rem))
                    if not sp:
                        continue
                    if len(sp) > 1 or sp[0] is not st:
                        todo += [(x, x.norm(n)) for x in sp if x is not st]
                        if st not in sp:
                            continue
                elif z:
                    out += self.next_header(eng, st, oid, n)
                    continue
                # payload
                if not st.ge0(sub(rem, n)):
                    eng.report("S13.overrun", st, "more payload is consumed than the request announced")
                pos = msg[2]
                st.setg(oid, "c.avail", sub(self.avail(st, oid), n))
                v = None
                if n != 0:
                    eng.drop_content(st, dst.oid)
                    if n.__class__ is int and dst.off.__class__ is int and n in (1, 2, 4, 8):
                        v = st.fresh(0, 65535) if n == 2 else (st.fresh(0, 255) if n == 1 else st.unk(n))
                        st.setcell(dst.oid, dst.off, n, v)
                    else:
                        st.havoc(dst.oid, dst.off, n)
                args = msg[4] + ((pos, n, v),) if len(msg[4]) < 6 else msg[4]
                st.setg(oid, "c.msg", (msg[0], msg[1], add(pos, n), msg[3], args))
                out.append((st, n))
                continue
            # header
            if n.__class__ is not int or n < 4:
                raise AnalysisError("unsupported partial header read")
            if self.has(st, "handled"):
                continue  # bounded: one message per wake-up; the remaining ones arrive with the next event
            variants = [(st, st.fresh(0, 65535), st.fresh(0, 65535))]
            ops = eng.opts.get("ops")
            if ops:
                variants = []
                for k in ops:
                    s = st.copy()
                    if k in REQ_SIZE:
                        variants.append((s, k, REQ_SIZE[k]))
                        if not s.assume_ge0(add(self.avail(s, oid), -4 - REQ_SIZE[k])):
                            variants.pop()
                    else:
                        variants.append((s, k, s.fresh(2, 65535)))
            for s, op, size in variants:
                r = self.header(eng, s, oid, dst, n, op, size)
                if r is not None:
                    out.append(r)
        return out

    def header(self, eng, st, oid, dst, n, op, size):
            eng.drop_content(st, dst.oid)
            st.setcell(dst.oid, dst.off, 2, op)
            st.setcell(dst.oid, dst.off + 2, 2, size)
            args = ()
            if n > 4:
                v = st.unk(n - 4) if n - 4 in (1, 2, 4, 8) else None
                if v is not None:
                    st.setcell(dst.oid, dst.off + 4, n - 4, v)
                    args = ((4, n - 4, v),)
                else:
                    st.havoc(dst.oid, dst.off + 4, n - 4)
            av = sub(self.avail(st, oid), 4)
            st.setg(oid, "c.avail", sub(self.avail(st, oid), n))
            st.setg(oid, "c.msg", (op, size, n, av, args))
            st.mon["~req"] = (Ptr(oid, 0), op, size, 0)
            eng.count("request_headers")
            return (st, n)

    def next_header(self, eng, st, oid, n):
        """the previous message was consumed completely; the analysis handles one message per event"""
        self.end_request(eng, st, oid)
        st.setg(oid, "c.msg", None)
        self.ev(st, "handled")
        self.set_errno(eng, st, EAGAIN)
        return [(st, -1)]

    def f_connection_restore(self, eng, st, ins, a):
        oid = self.conn_oid(eng, st, a[0], "connection_restore")
        if oid is None:
            return []
        n = a[1]
        msg = st.mem[oid].ghost.get("c.msg")
        if msg is None:
            eng.report("S13.restore", st, "data is put back although no message was started")
            return [(st, None)]
        if not st.eq0(sub(msg[2], n)):
            eng.report("S13.restore", st, "an incomplete request is not put back exactly as it was read")
        st.setg(oid, "c.avail", add(self.avail(st, oid), n))
        st.setg(oid, "c.msg", None)
        if st.ge0(sub(msg[3], msg[1])):
            eng.report("S13.defer", st, "a complete request is put back instead of being handled")
        st.mon.pop("~req", None)
        self.ev(st, "handled")
        self.ev(st, "deferred")
        return [(st, None)]

    def f_connection_close_fds(self, eng, st, ins, a):
        oid = self.conn_oid(eng, st, a[0], "connection_close_fds")
        if oid is None:
            return []
        self.drop_fdq(eng, st, oid)
        st.setg(oid, "c.fdin", 0)
        return [(st, None)]

    def drop_fdq(self, eng, st, oid):
        for fd in st.mem[oid].ghost.get("c.fdq", ()):
            at = self.fdatom(st, fd)
            if at is not None:
                if at not in st.fds:
                    eng.report("fd.double", st, "a queued descriptor was closed while still queued")
                else:
                    i = st.fds.pop(at)
                    self.on_close(eng, st, at, i)
        st.setg(oid, "c.fdq", ())

    def f_connection_put_fd(self, eng, st, ins, a):
        oid = self.conn_oid(eng, st, a[0], "connection_put_fd")
        if oid is None:
            return []
        i = self.use_fd(eng, st, a[1], "queueing a descriptor")
        if i == "bad":
            eng.report("S12.fd", st, "an invalid descriptor is queued for a client")
            return []
        q = st.mem[oid].ghost.get("c.fdq", ())
        st.setg(oid, "c.fdq", q + (a[1],))
        if len(q) + 1 > eng.opts.get("maxq", 1):
            st.mon["~prune"] = 1
        st.setg(oid, "c.newfds", st.mem[oid].ghost.get("c.newfds", 0) + 1)
        if i:
            if i[0] == "dup" and i[3]:
                st.setg(oid, "~lastdev", i[3][0])
            elif i[0] == "dev":
                eng.report("S04.handout", st, "the server's own device descriptor, not a duplicate, is queued for the client")
            dev = self.dev_of(st, i[3][0]) if i[0] == "dup" and i[3] else None
            if dev is None:
                eng.report("S01.handout", st, "a descriptor that is not a duplicate of an opened device is queued for a client")
            elif dev[0].oid != oid:
                eng.report("S14.handout", st, "a descriptor of another client's device is queued")
            if self.seatst(st, oid) != "enabled":
                eng.report("S02.handout", st, f"a device descriptor is queued for a client whose seat is {self.seatst(st, oid)}, not enabled")
        return [(st, 0)]

    def f_connection_flush(self, eng, st, ins, a):
        oid = self.conn_oid(eng, st, a[0], "connection_flush")
        if oid is None:
            return []
        if self.use_fd(eng, st, self.conn_fd(eng, st, a[0]), "flush") == "bad":
            return []
        if not st.mem[oid].ghost.get("c.unsent"):
            return [(st, 0)]
        out = []
        fr = st.mem[oid].ghost.get("c.frame")
        if fr is not None:
            eng.report("S12.partial", st, "a partially written message is flushed to the client")
        if self.ok(eng, "flush"):
            s = st.copy()
            self.set_errno(eng, s, EAGAIN)
            self.ev(s, ("eagain", Ptr(oid, 0)))
            s.note("the client's socket is full")
            out.append((s, -1))
        if self.ok(eng, "flusherr"):
            s = self.failed(eng, st, ne=[EAGAIN, EINTR], note="sending to the client fails")
            s.setg(oid, "~dead", 1)
            self.ev(s, ("senderr", Ptr(oid, 0)))
            out.append((s, -1))
        st.setg(oid, "c.unsent", 0)
        st.setcell(oid, a[0].off + self.wf_off, 1, 0)
        self.drop_fdq(eng, st, oid)
        out.append((st, st.fresh(1, self.ring)))
        return out

    def f_connection_put(self, eng, st, ins, a):
        oid = self.conn_oid(eng, st, a[0], "connection_put")
        if oid is None:
            return []
        out = []
        for st, n in eng.resolve(st, a[2], 64, False):
            if n == 0:
                out.append((st, 0))
                continue
            if not eng.check_ptr(st, a[1], n, "message source"):
                continue
            fr = st.mem[oid].ghost.get("c.frame")
            if fr == "broken":
                eng.report("S12.broken", st, "data is sent after a message was only written partially")
                continue
            # parse
            if fr is None:
                if n.__class__ is not int or n < 4:
                    raise AnalysisError("unsupported partial header write")
                op = st.getcell(a[1].oid, a[1].off, 2)
                size = st.getcell(a[1].oid, a[1].off + 2, 2)
                if op is UNDEF or size is UNDEF:
                    eng.report("mem.uninit", st, "an uninitialised message header is sent")
                    continue
                opv = op & 0xffff if op.__class__ is int else None
                szs = eng.resolve(st, size, 16, False)
            else:
                opv = fr[0]
                szs = [(st, fr[1])]
            for s2, size in szs:
                s2.note(f"put {SERVER_OPS.get(opv, opv) if fr is None else 'payload'} -> {self.cname(s2, oid)}")
                if fr is None:
                    self.attempt(eng, s2, oid, opv)
                    got, pay, skip = 0, (), 4
                else:
                    got, pay, skip = fr[2], fr[3], 0
                if self.ok(eng, "put"):
                    s = self.failed(eng, s2, note="queueing output fails")
                    self.ev(s, ("putfail", Ptr(oid, 0)))
                    if fr is not None:
                        s.setg(oid, "c.frame", "broken")
                    out.append((s, -1))
                body = sub(n, skip)
                if body != 0:
                    v = None
                    if body.__class__ is int and body in (1, 2, 4, 8):
                        v = s2.getcell(a[1].oid, add(a[1].off, skip), body)
                    elif body.__class__ is int and a[1].off.__class__ is int:
                        for i in range(0, body):
                            if s2.getcell(a[1].oid, a[1].off + skip + i, 1) is UNDEF:
                                v = UNDEF
                                break
                    if v is UNDEF:
                        eng.report("mem.uninit", s2, "uninitialised bytes are sent to the client")
                        continue
                    pay = pay + ((got, body, v),)
                    got = add(got, body)
                rem = sub(size, got)
                z = s2.eq0(rem)
                g = s2.ge0(rem)
                if g is False or (z is not True and g is not True):
                    eng.report("S12.size", s2, f"message {SERVER_OPS.get(opv, opv)}: more payload is written than the header announces")
                    s2.setg(oid, "c.frame", "broken")
                    out.append((s2, 0))
                    continue
                s2.setg(oid, "c.unsent", 1)
                s2.setcell(oid, a[0].off + self.wf_off, 1, 1)
                if z is True:
                    s2.setg(oid, "c.frame", None)
                    if self.message(eng, s2, oid, opv, size, pay):
                        out.append((s2, 0))
                else:
                    s2.setg(oid, "c.frame", (opv, size, got, pay))
                    out.append((s2, 0))
        return out

    # ---------------------------------------------------------- protocol monitors
    def attempt(self, eng, st, oid, op):
        """header of a message is about to be queued"""
        name = SERVER_OPS.get(op)
        eng.count("messages_sent")
        if name is None:
            eng.report("S12.opcode", st, f"a message with unknown opcode {op} is sent")
            return
        if name == "ENABLE_SEAT":
            self.mon_enable(eng, st, oid)
        elif name == "DISABLE_SEAT":
            self.mon_disable(eng, st, oid)
        elif name == "SEAT_OPENED":
            st.setg(oid, "~seat", "opened")
            st.setg(oid, "~sess", self.session(st, oid))
            if self.vtbound(eng):
                cur = st.mon.get("~curvt", 0)
                if cur == -1 or st.eq0(sub(self.session(st, oid), cur)) is not True:
                    eng.report("S08.bind", st, "a client is bound to another VT than the current one when it opens the seat")

    def message(self, eng, st, oid, op, size, pay):
        """a complete message was queued"""
        name = SERVER_OPS.get(op)
        if name is None:
            return True
        newfds = st.mem[oid].ghost.get("c.newfds", 0)
        if name == "DEVICE_OPENED":
            if newfds != 1:
                eng.report("S12.fdcount", st, f"DEVICE_OPENED is sent with {newfds} descriptors queued instead of one")
        elif newfds:
            eng.report("S12.fdcount", st, f"{name} is sent while an unannounced descriptor is queued")
        st.setg(oid, "c.newfds", 0)
        want = {"DEVICE_OPENED": 4, "ERROR": 4}.get(name, 0)
        if name == "SEAT_OPENED":
            L = pay[0][2] if pay and pay[0][1] == 2 else None
            if L is None or not st.eq0(sub(size, add(L & 0xffff if L.__class__ is int else L, 2))):
                eng.report("S12.layout", st, "SEAT_OPENED: the announced name length does not match the payload")
        elif size != want:
            eng.report("S12.layout", st, f"{name}: payload is {size} bytes, its layout has {want}")
        if name in EVENTS:
            return True
        # replies
        req = st.mon.get("~req")
        if req is None:
            eng.report("S11.noreq", st, f"reply {name} is sent although no request is being handled")
            return True
        conn, rop, rsize, cnt = req
        if conn.oid != oid:
            eng.report("S11.wrongclient", st, f"reply {name} is sent to another client than the requester")
            return True
        if cnt >= 1:
            eng.report("S11.twice", st, f"a second reply ({name}) is sent for one request")
        st.mon["~req"] = (conn, rop, rsize, cnt + 1)
        if name == "ERROR":
            v = pay[0][2] if pay else 0
            v = st.norm(v) if v is not None else None
            lo_hi = st.rng(v) if v.__class__ in (int, Lin) else (0, 0)
            if v is None or st.eq0(v) is not False:
                eng.report("S11.zero", st, "an error reply can carry error code zero")
        else:
            want = REPLY_FOR[name]
            if not st.eq0(sub(rop, want)):
                eng.report("S11.kind", st, f"reply {name} is sent for another kind of request")
                return True
        self.complete_check(eng, st, oid)
        opc = st.norm(rop)
        if opc.__class__ is int:
            self.mon_reply(eng, st, oid, opc, name, pay)
        eng.count("replies")
        return True

    def complete_check(self, eng, st, oid):
        msg = st.mem[oid].ghost.get("c.msg")
        if msg is None:
            return
        if not st.ge0(sub(msg[3], msg[1])):
            eng.report("S13.incomplete", st, "a request is answered before all of it has arrived")

    def arg(self, st, oid, n=4):
        msg = st.mem[oid].ghost.get("c.msg")
        if msg:
            for pos, k, v in msg[4]:
                if pos == 4 and k == n:
                    return st.norm(v)
        return None

    def mon_reply(self, eng, st, oid, op, name, pay):
        s0 = self.st0(st, oid)
        err = name == "ERROR"
        if op == 5:
            if s0 == "disabling":
                if err:
                    eng.report("S06.ack", st, "the acknowledgement of a requested disable is refused")
                else:
                    if self.seatst(st, oid) == "disabling":
                        st.setg(oid, "~seat", "disabled")
            elif not err:
                eng.report("S06.spurious", st, f"a disable acknowledgement is accepted from a client that was not asked to disable (its seat is {s0})")
        elif op == 6:
            self.mon_switch(eng, st, oid, err)
        elif op == 3:
            devs = st.mon.get("~devs", ())
            if not err:
                ido = pay[0][2] if pay else None
                ido = st.norm(ido) if ido is not None else None
                dv = st.mem[oid].ghost.get("~lastdev")
                d = self.dev_of(st, dv) if dv is not None else None
                if d is None:
                    eng.report("S04.opened", st, "DEVICE_OPENED is sent without an open device")
                else:
                    if s0 != "enabled":
                        eng.report("S02.open", st, f"a device is handed to a client whose seat is {s0}, not enabled")
                    if d[1] is None:
                        for o in devs:
                            if o[0].oid == oid and o is not d and o[1] is not None and not o[4] and ido is not None and st.eq0(sub(o[1], ido)) is not False:
                                eng.report("S14.ids", st, "two devices of a client get the same device id")
                        if ido is None or st.ge0(add(ido, -1)) is not True:
                            eng.report("S14.ids", st, "a device id that is not positive is given to a client")
                        nd = (d[0], ido, 1, d[3], d[4])
                    else:
                        if ido is None or not st.eq0(sub(d[1], ido)):
                            eng.report("S04.sameid", st, "opening an already open device does not yield its device id")
                        nd = (d[0], d[1], d[2] + 1, d[3], d[4])
                    st.mon["~devs"] = tuple(nd if x is d else x for x in devs)
                    if nd[2] > eng.opts.get("maxrefs", 2):
                        st.mon["~prune"] = 1
            else:
                if s0 == "enabled" and False:
                    pass
        elif op == 4:
            v = self.arg(st, oid)
            devs = st.mon.get("~devs", ())
            if not err:
                m = [d for d in devs if d[0].oid == oid and d[1] is not None and v is not None and st.eq0(sub(d[1], v)) and d[2] > 0]
                if len(m) != 1:
                    eng.report("S14.close", st, "closing a device is confirmed for an id that names none of the requester's devices")
                else:
                    d = m[0]
                    st.mon["~devs"] = tuple((d[0], d[1], d[2] - 1, d[3], d[4]) if x is d else x for x in devs)
            else:
                if any(d[0].oid == oid and d[1] is not None and v is not None and st.eq0(sub(d[1], v)) and not d[4] for d in devs):
                    eng.report("S04.refuse", st, "closing an open device is refused")
        elif op == 2:
            if not err:
                if s0 in (None, "none"):
                    eng.report("S11.close", st, "closing a seat is confirmed although none was open")
                st.setg(oid, "~seat", "none")
        elif op == 1:
            if not err and s0 not in (None, "none"):
                eng.report("S06.reopen", st, "a second seat is opened for a client that already has one")

    def others(self, st, oid):
        return [o for o in self.conns(st) if o != oid]

    def acked(self, st, o):
        """the client is acknowledging its disable, closing its seat or leaving in the current request"""
        req = st.mon.get("~req")
        if req is not None and req[0].oid == o:
            op = st.norm(req[1])
            return op in (5, 2)
        return False

    def mon_enable(self, eng, st, oid):
        eng.count("enables")
        s = self.seatst(st, oid)
        if s not in ("opened", "disabled"):
            acked = self.acked(st, oid) and s == "disabling" and st.norm(st.mon["~req"][1]) == 5
            if not acked:
                eng.report("S06.enable", st, f"{self.cname(st, oid)} is enabled although its seat is {s}")
            else:
                pass
        for o in self.others(st, oid):
            so = self.seatst(st, o)
            if so == "enabled" and not (self.acked(st, o) and st.norm(st.mon["~req"][1]) == 2):
                if self.leaving(st, o):
                    continue
                eng.report("S05.two", st, "a client is enabled while another client of the seat is enabled")
            elif so == "disabling" and not self.acked(st, o) and not self.leaving(st, o):
                eng.report("S05.pending", st, "a client is enabled while another client still has to acknowledge its disable")
            for d in st.mon.get("~devs", ()):
                if d[0].oid == o and self.dev_on(st, d):
                    eng.report("S03.enable", st, "another client is enabled while a previous client's device was not revoked")
        q = st.mon.get("~queued")
        if q is not None and q.oid != oid and q.oid in self.conns(st) and self.seatst(st, q.oid) in ("opened", "disabled"):
            eng.report("S07.other", st, "a session switch was queued, but another session is enabled next")
        st.mon.pop("~queued", None)
        if self.vtbound(eng):
            sess = st.mem[oid].ghost.get("~sess")
            cfg = [f for f in self.evp(st, "vtcfg") if st.eq0(sub(f[1], sess)) is True] if sess is not None else []
            kinds = {f[2] for f in cfg}
            if not {"proc", "kboff", "gfx"} <= kinds:
                miss = {"proc": "process switching", "kboff": "keyboard off", "gfx": "graphics mode"}
                eng.report("S08.setup", st, "a client is enabled although its VT was not configured: missing " +
                           ", ".join(miss[k] for k in ("proc", "kboff", "gfx") if k not in kinds))
        st.setg(oid, "~seat", "enabled")
        self.ev(st, ("enabled", Ptr(oid, 0)))

    def leaving(self, st, o):
        """o is being destroyed in this event: its socket is closed already"""
        fd = st.mem[o].ghost.get("~fd")
        at = self.fdatom(st, fd) if fd is not None else None
        return at is not None and at not in st.fds

    def mon_disable(self, eng, st, oid):
        eng.count("disables")
        s = self.seatst(st, oid)
        if s != "enabled":
            eng.report("S06.disable", st, f"{self.cname(st, oid)} is told to disable although its seat is {s}")
        for d in st.mon.get("~devs", ()):
            if d[0].oid == oid and self.dev_on(st, d):
                eng.report("S03.disable", st, f"the disable event is sent before revocation of an open {self.dev_cls(st, d)} device was requested")
        st.setg(oid, "~seat", "disabling")
        self.ev(st, ("disabled", Ptr(oid, 0)))

    def mon_switch(self, eng, st, oid, err):
        s0 = self.st0(st, oid)
        v = self.arg(st, oid)
        if v is None:
            eng.report("S13.args", st, "a session switch is answered without reading the requested session")
            return
        own = st.mem[oid].ghost.get("~sess")
        dis = self.evp(st, "disabled")
        act = self.evp(st, "vtact")
        q0 = st.mon.get("~queued")
        if s0 != "enabled":
            if not err:
                eng.report("S07.holder", st, f"a session switch is accepted from a client whose seat is {s0}")
            elif dis or act:
                eng.report("S07.effect", st, "a refused session switch has an effect")
            return
        if err:
            if dis:
                eng.report("S07.effect", st, "a refused session switch disabled a client")
            ge1 = st.ge0(add(v, -1))
            if ge1 and own is not None and st.eq0(sub(v, own)):
                eng.report("S07.own", st, "a switch to the client's own session is refused")
            if ge1 and q0 is not None:
                eng.report("S07.queued", st, "a switch request is refused because another switch is queued")
            if not self.vtbound(eng) and ge1:
                for o in self.others(st, oid):
                    if self.member(st, o) and st.eq0(sub(v, st.mem[o].ghost.get("~sess", 0))):
                        eng.report("S07.refused", st, "a switch to an existing session is refused")
            if self.vtbound(eng) and act and not self.has(st, "ioctlfail"):
                eng.report("S07.refused", st, "a VT switch was requested but reported as failed")
            return
        if st.ge0(add(v, -1)) is not True:
            eng.report("S07.invalid", st, "a switch to a session below one is accepted")
            return
        if own is not None and st.eq0(sub(v, own)) is True:
            if dis or act:
                eng.report("S07.own", st, "a switch to the client's own session has an effect")
            return
        if q0 is not None and not dis and not act:
            return
        if self.vtbound(eng):
            if dis:
                eng.report("S07.vt", st, "a switch on a VT-bound seat disables the client directly")
            if not any(st.eq0(sub(f[1], v)) is True for f in act):
                eng.report("S07.vt", st, "an accepted switch on a VT-bound seat does not ask the kernel to activate that VT")
            return
        tgt = [o for o in self.conns(st) if self.member(st, o) and st.eq0(sub(v, st.mem[o].ghost.get("~sess", 0))) is True]
        if not tgt:
            eng.report("S07.unknown", st, "a switch to a session that does not exist is accepted")
            return
        if not any(f[1].oid == oid for f in dis):
            eng.report("S07.nodisable", st, "an accepted session switch does not disable the requester")
        if q0 is None:
            st.mon["~queued"] = Ptr(tgt[0], 0)

    def member(self, st, o):
        return self.seatst(st, o) in ("opened", "enabled", "disabling", "disabled")

    # ---------------------------------------------------------- devices
    def dev_of(self, st, fd):
        at = self.fdatom(st, fd)
        for d in st.mon.get("~devs", ()):
            if self.fdatom(st, d[3]) == at and at is not None:
                return d
        return None

    def dev_on(self, st, d):
        i = self.fdinfo(st, d[3])
        return i is not None and i[3][1] == 1 and not d[4]

    def dev_cls(self, st, d):
        i = self.fdinfo(st, d[3])
        return i[3][0] if i else "?"

    def char_prefix(self, st, p):
        """the leading characters of a string that comparisons of single characters have established"""
        b = b""
        if p.__class__ is not Ptr or p.off.__class__ is not int or p.oid not in st.mem:
            return b
        while len(b) < 64:
            cell = st.mem[p.oid].cells.get(p.off + len(b))
            v = st.norm(cell[1]) if cell is not None and cell[0] == 1 and cell[1].__class__ is Lin else cell[1] if cell else None
            if cell is None or cell[0] != 1 or v.__class__ is not int or v == 0:
                return b
            b += bytes([v & 255])
        return b

    def opened(self, eng, st, p, fl):
        c = self.content(st, p)
        eng.count("opens")
        flags = fl if fl.__class__ is int else None
        tty = c is not None and (c[0] == "fmt" and c[1].startswith(b"/dev/tty") or c[0] == "const" and c[1].startswith(b"/dev/tty"))
        out = []
        if tty:
            vt = c[2][0] if c[0] == "fmt" and len(c[2]) == 1 else 0
            if self.ok(eng, "tty"):
                s = self.failed(eng, st, note="opening the terminal fails")
                self.ev(s, "ttyfail")
                out.append((s, -1))
            v = self.newfd(st, "tty", 1 if flags and flags & 0o2000000 else 0, 0, (vt,))
            out.append((st, v))
            return out
        facts = frozenset()
        if c is not None and c[0] == "atom":
            facts = st.atoms[st.norm(c[1]).t[0][0]].facts
        cls = None
        known = [f[1] for f in facts if f[0] == "pfx"] + [self.char_prefix(st, p)]
        for f in known:
            for pre, k in ALLOWED:
                if f.startswith(pre):
                    cls = k
        if cls is None:
            eng.report("S01.allow", st, "a path is opened that was not checked to belong to a supported device class")
        if ("canonical",) not in facts:
            eng.report("S01.canonical", st, "the path that is opened is not the fully resolved path")
        need = {"O_NOFOLLOW": 0o400000, "O_NOCTTY": 0o400, "O_CLOEXEC": 0o2000000, "O_NONBLOCK": 0o4000}
        if flags is None:
            eng.report("S01.flags", st, "device open flags are not constant")
        else:
            for n, b in need.items():
                if not flags & b:
                    eng.report("S01.flags" if n != "O_CLOEXEC" else "S19.dev", st, f"a device is opened without {n}")
                    if n == "O_CLOEXEC":
                        eng.report("S01.flags", st, f"a device is opened without {n}")
        req = st.mon.get("~req")
        if req is None:
            eng.report("S02.norequest", st, "a device is opened while no client asked for it")
            return []
        owner = req[0].oid
        s0 = self.st0(st, owner)
        if self.seatst(st, owner) != "enabled":
            eng.report("S02.opennode", st, f"a device node is opened for a client whose seat is {self.seatst(st, owner)}, not enabled")
        self.complete_check(eng, st, owner)
        if self.ok(eng, "dev"):
            out.append((self.failed(eng, st, note="opening the device fails"), -1))
        live = [d for d in st.mon.get("~devs", ()) if not d[4]]
        mine = [d for d in live if d[0].oid == owner]
        if len(mine) >= eng.opts.get("maxdev", 1) or len(live) >= eng.opts.get("maxdev_total", 9):
            return out
        classes = eng.opts.get("classes")
        if classes and cls and cls not in classes:
            return out
        v = self.newfd(st, "dev", 1 if flags and flags & 0o2000000 else 0, 1, (cls or "drm", 1))
        st.mon["~devs"] = st.mon.get("~devs", ()) + ((Ptr(owner, 0), None, 0, v, 0),)
        st.note(f"{cls} device opened")
        out.append((st, v))
        return out

    def on_close(self, eng, st, at, info):
        if info[0] == "dev":
            d = None
            for x in st.mon.get("~devs", ()):
                if self.fdatom(st, x[3]) == at:
                    d = x
            if d is not None:
                if d[1] is not None and info[3][1] == 1:
                    eng.report("S04.norevoke", st, f"a {info[3][0]} device is closed without requesting its revocation first")
                st.mon["~devs"] = tuple((x[0], x[1], x[2], x[3], 1) if x is d else x for x in st.mon["~devs"])
                subj = self.subject(st)
                if subj is not None and d[0].oid != subj:
                    eng.report("S14.closeother", st, "handling one client closes another client's device")

    def f_close(self, eng, st, ins, a):
        at = self.fdatom(st, st.norm(a[0])) if a[0] is not UNDEF else None
        i = st.fds.get(at) if at is not None else None
        r = Models.f_close(self, eng, st, ins, a)
        if i is None or i[0] != "conn" or not self.in_event(st):
            return r
        # the client whose socket is closed leaves: what its request was no longer matters
        subj = self.subject(st)
        for st, v in r:
            fd = st.mem[subj].ghost.get("~fd") if subj in self.conns(st) else None
            if fd is None or self.fdatom(st, fd) != at:
                continue
            req = st.mon.get("~req")
            if req is not None and req[0].oid == subj:
                st.mon.pop("~req")
            g = st.w(subj).ghost
            for k in ("c.msg", "c.avail", "c.frame", "c.newfds", "c.unsent", "~lastdev"):
                g.pop(k, None)
            st.mon["~ev"] = tuple(f for f in st.mon["~ev"] if not (f.__class__ is tuple and f[0] == "eof"))
            self.set_errno(eng, st, st.fresh(1, MAXERR))
        return [(st, v) for st, v in r if eng.merge(st)]

    def in_event(self, st):
        f = st.mon.get("~ev", ())
        return bool(f) and f[0].__class__ is tuple and f[0][0] in ("src", "sig")

    def subject(self, st):
        for f in st.mon.get("~ev", ()):
            if f.__class__ is tuple and f[0] == "src" and f[1] == "conn":
                return f[3].oid if f[3].__class__ is Ptr else None
        return None

    def f_ioctl(self, eng, st, ins, a):
        i = self.use_fd(eng, st, a[0], "ioctl")
        if i == "bad":
            return self.bad(eng, st)
        at = self.fdatom(st, a[0])
        req = a[1] & 0xffffffff if a[1].__class__ is int else None
        arg = a[2] if len(a) > 2 else 0
        eng.count("ioctls")
        if i and i[0] == "dup" and i[3]:
            at = self.fdatom(st, i[3][0])
            i = st.fds.get(at, i)
        out = []
        if i and i[0] == "dev":
            cls, on = i[3][0], i[3][1]
            if req in (DROP_MASTER, EVIOCREVOKE, HIDIOCREVOKE):
                ok = {"drm": DROP_MASTER, "evdev": EVIOCREVOKE, "hidraw": HIDIOCREVOKE}[cls] == req
                if req != DROP_MASTER and not (arg.__class__ is int and arg == 0):
                    ok = False
                if ok:
                    st.fds[at] = i[:3] + ((cls, 0),)
                    st.note(f"revocation of a {cls} device requested")
                    eng.count("revocations")
                else:
                    eng.report("S03.class", st, f"a {cls} device is revoked with the mechanism of another class")
            elif req == SET_MASTER:
                if cls == "drm":
                    st.fds[at] = i[:3] + ((cls, 1),)
            if self.ok(eng, "ioctl"):
                out.append((self.failed(eng, st, note="the ioctl fails"), -1))
                self.ev(out[-1][0], "ioctlfail")
            out.append((st, 0))
            return out
        if i and i[0] == "tty":
            vt = st.norm(i[3][0]) if i[3] else 0
            if req == VT_GETSTATE:
                if not eng.check_ptr(st, arg, 6, "VT_GETSTATE", True):
                    return []
                if self.ok(eng, "vtstate"):
                    out.append((self.failed(eng, st, note="VT state cannot be read"), -1))
                    self.ev(out[-1][0], "vtfail")
                vals = eng.opts.get("vts", (1, 2))
                cur = self.getv(st, "~active")
                for k in vals:
                    s = st.copy()
                    s.setcell(arg.oid, arg.off, 2, k)
                    s.setcell(arg.oid, arg.off + 2, 4, 0)
                    s.mon["~curvt"] = k
                    s.note(f"VT {k} is active")
                    out.append((s, 0))
                return out
            if req == VT_SETMODE:
                if not eng.check_ptr(st, arg, 8, "VT_SETMODE"):
                    return []
                mode = st.getcell(arg.oid, arg.off, 1)
                rel = st.getcell(arg.oid, arg.off + 2, 2)
                acq = st.getcell(arg.oid, arg.off + 4, 2)
                if UNDEF in (mode, rel, acq):
                    eng.report("mem.uninit", st, "an uninitialised VT mode is set")
                    return []
                if mode == 1:
                    regs = {st.g(q.oid, "sig"): st.g(q.oid, "fn") for q in st.mon.get("sigs", ())}
                    if rel not in regs or acq not in regs or rel == acq:
                        eng.report("S08.signals", st, "VT switching is set up with signals the server does not handle")
                    elif (rel, acq) != (10, 12):
                        eng.report("S08.signals", st, "the VT release and acquire signals do not match the handlers registered for them")
                    self.vtset(st, vt, "proc", 1)
            elif req == KDSKBMODE:
                off = arg == 4
                self.vtset(st, vt, "kboff", 1 if off else 0)
            elif req == KDSETMODE:
                gfx = arg == 1
                self.vtset(st, vt, "gfx", 1 if gfx else 0)
                if not gfx:
                    for o in self.conns(st):
                        if self.seatst(st, o) == "enabled" and not self.leaving(st, o) and st.eq0(sub(st.mem[o].ghost.get("~sess", -5), vt)) is True:
                            if self.acked(st, o) or self.has(st, ("senderr", Ptr(o, 0))) or self.has(st, ("putfail", Ptr(o, 0))):
                                continue
                            eng.report("S08.textother", st, f"the VT of an enabled client is switched back to text mode")
            elif req == VT_RELDISP:
                if arg == 1:
                    self.ev(st, "relack")
                    for d in st.mon.get("~devs", ()):
                        if self.dev_on(st, d) and self.seatst(st, d[0].oid) != "none":
                            eng.report("S03.release", st, f"a VT release is acknowledged before revocation of an open {self.dev_cls(st, d)} device was requested")
                    st.mon["~curvt"] = -1
                elif arg == 2:
                    self.ev(st, "acqack")
                else:
                    eng.report("S08.ack", st, "a VT switch is refused or acknowledged with a wrong value")
            elif req == VT_ACTIVATE:
                self.ev(st, ("vtact", arg))
            if self.ok(eng, "ioctl"):
                s = self.failed(eng, st, note="the terminal ioctl fails")
                self.ev(s, "ioctlfail")
                out.append((s, -1))
            out.append((st, 0))
            return out
        return self.io_fail(eng, st, "ioctl") + [(st, 0)]

    def getv(self, st, k):
        return st.mon.get(k)

    def vtset(self, st, vt, k, v):
        m = dict((x[0], dict(x[1])) for x in st.mon.get("~vtm", ()))
        if vt.__class__ is not int:
            return
        d = m.setdefault(vt, {})
        d[k] = v
        st.mon["~vtm"] = tuple((x, tuple(sorted(q for q in m[x].items() if q[1] and q[0] != "proc")))
                               for x in sorted(m) if m[x].get("kboff") or m[x].get("gfx"))
        if v:
            self.ev(st, ("vtcfg", vt, k))

    # ---------------------------------------------------------- accept
    def f_accept(self, eng, st, ins, a):
        if len(self.conns(st)) >= eng.opts.get("K", 2):
            if st.mon.get("~nclosed"):
                pass
            self.set_errno(eng, st, st.fresh(1, MAXERR))
            return [(st, -1)]
        return Models.f_accept(self, eng, st, ins, a)

    f_accept4 = f_accept

    # ---------------------------------------------------------- object death
    def on_free(self, eng, st, oid):
        if oid in self.conns(st):
            subj = self.subject(st)
            if st.mem[oid].ghost.get("c.fdq"):
                eng.report("S16.lost", st, "a connection is released while descriptors are still queued for sending")
                self.drop_fdq(eng, st, oid)
            if st.mem[oid].ghost.get("c.fdin"):
                eng.report("S16.lost", st, "a connection is released without closing descriptors received from the peer")
            if self.in_event(st) and subj != oid and not self.has(st, ("new", Ptr(oid, 0))):
                eng.report("S14.disconnect", st, "handling one client or signal disconnects another client")
            for s in st.mon.get("sources", ()):
                if st.g(s.oid, "data").__class__ is Ptr and st.g(s.oid, "data").oid == oid:
                    eng.report("S20.dangling", st, "a client is freed while its event source stays registered")
            for d in st.mon.get("~devs", ()):
                if d[0].oid == oid and not d[4]:
                    eng.report("S04.left", st, "a client is released while one of its devices stays open")
            st.mon["~devs"] = tuple(d for d in st.mon.get("~devs", ()) if d[0].oid != oid)
            fd = st.mem[oid].ghost.get("~fd")
            at = self.fdatom(st, fd) if fd is not None else None
            if at is not None and at in st.fds:
                eng.report("S18.leakfd", st, "a client is released without closing its socket")
            q = st.mon.get("~queued")
            if q is not None and q.oid == oid:
                st.mon.pop("~queued")
            if self.member(st, oid) or self.st0(st, oid) in ("enabled", "disabling"):
                self.ev(st, "departed")
            self.ev(st, ("died", self.st0(st, oid) or "none"))
            req = st.mon.get("~req")
            if req is not None and req[0].oid == oid:
                if subj == oid and self.wellformed(st, oid, req):
                    self.ev(st, "rejected")
                st.mon.pop("~req")
            st.mon["~conns"] = tuple(p for p in st.mon["~conns"] if p.oid != oid)

    # ---------------------------------------------------------- end of request / event
    def end_request(self, eng, st, oid):
        req = st.mon.get("~req")
        msg = st.mem[oid].ghost.get("c.msg")
        if req is None or req[0].oid != oid:
            return
        if msg is not None:
            if not st.eq0(sub(add(msg[1], 4), msg[2])):
                eng.report("S13.consume", st, "a request is finished without consuming exactly its header and announced payload")
            self.complete_check(eng, st, oid)
        op, size, cnt = st.norm(req[1]), st.norm(req[2]), req[3]
        if cnt != 1:
            eng.report("S11.none", st, f"the client stays connected although its request ({CLIENT_OPS.get(op, op)}) got {cnt} replies")
        if op.__class__ is int:
            want = REQ_SIZE.get(op)
            if want is not None and st.eq0(add(size, -want)) is not True:
                eng.report("S13.size", st, f"a {CLIENT_OPS[op]} request with a wrong size is accepted")
            if op == 3:
                L = self.arg(st, oid, 2)
                if L is None or st.eq0(sub(size, add(L, 2))) is not True:
                    eng.report("S13.size", st, "an OPEN_DEVICE request whose path length does not match its size is accepted")
        else:
            eng.report("S13.unknown", st, "a request with an unknown opcode does not disconnect the client")
        st.mon.pop("~req", None)

    def wellformed(self, st, oid, req):
        """could this request be one the library sends?"""
        op, size = st.norm(req[1]), st.norm(req[2])
        if op.__class__ is not int or op not in CLIENT_OPS:
            return False
        want = REQ_SIZE.get(op)
        if want is not None:
            return st.eq0(add(size, -want)) is not False
        L = self.arg(st, oid, 2)
        if L is None:
            return st.ge0(add(size, -3)) is not False and st.ge0(sub(258, size)) is not False
        s = st.copy()
        if not s.assume_eq0(s.norm(sub(sub(size, 2), L))) or not s.assume_ge0(s.norm(add(L, -2))) or not s.assume_ge0(s.norm(sub(256, L))):
            return False
        for o in s.mem.values():
            f = o.ghost.get("$strn")
            if f is not None and s.eq0(sub(f[1], L)) is True and s.eq0(sub(add(L, -1), f[2])) is False:
                return False     # not terminated where it has to be
        return True

    def f_realpath(self, eng, st, ins, a):
        # S13: the path must be terminated exactly at its announced length
        req = st.mon.get("~req")
        if req is not None and a[0].__class__ is Ptr:
            oid = req[0].oid
            L = self.arg(st, oid, 2)
            f = st.mem[a[0].oid].ghost.get("$strn") if a[0].oid in st.mem else None
            if L is not None:
                eng.count("path_terminations")
                if f is None or f[0] != a[0].off or st.eq0(sub(add(L, -1), f[2])) is not True:
                    eng.report("S13.term", st, "a device path is used that was not checked to be terminated exactly at its announced length")
        return Models.f_realpath(self, eng, st, ins, a)

    def end_event(self, eng, st):
        evs = st.mon.get("~ev", ())
        src = evs[0] if evs else ()
        subj = self.subject(st)
        conns = self.conns(st)
        alive = subj in conns if subj is not None else False
        self.fr_none = None
        # a request that is still open
        req = st.mon.get("~req")
        if req is not None and req[0].oid in conns:
            self.end_request(eng, st, req[0].oid)
        st.mon.pop("~req", None)
        for o in conns:
            g = st.mem[o].ghost
            fr = g.get("c.frame")
            if fr is not None:
                eng.report("S12.partial", st, "a message is left partially written on a connection that stays open")
            if g.get("c.newfds"):
                eng.report("S12.fdcount", st, "a descriptor is queued without a message announcing it")
        # S35
        if src and src[0] == "src" and src[1] == "conn" and alive:
            if src[2] & (H | E):
                eng.report("S35.kept", st, "a client that hung up or whose socket failed stays connected")
            if self.evp(st, "eof"):
                eng.report("S35.kept", st, "a client at end of file stays connected")
        # S34
        for q in st.mon.get("sources", ()):
            g = st.mem[q.oid].ghost
            if g["role"] != "conn" or g["data"].__class__ is not Ptr or g["data"].oid not in conns:
                if g["role"] == "conn":
                    eng.report("S20.dangling", st, "an event source of a released client stays registered")
                continue
            o = g["data"].oid
            un = st.mem[o].ghost.get("c.unsent")
            m = g["mask"]
            if un and not m & W and not st.mem[o].ghost.get("~dead"):
                eng.report("S34.arm", st, "output stays unsent, but the client's socket is not watched for writability")
            if src and src[0] == "src" and subj == o and src[2] & W and not un and m & W:
                eng.report("S34.disarm", st, "the socket is still watched for writability after everything was sent")
            if not m & R:
                eng.report("S35.mask", st, "a connected client's socket is no longer watched for readability")
            at = self.fdatom(st, g["fd"])
            if at is None or at not in st.fds:
                eng.report("S20.fd", st, "an event source stays registered for a closed descriptor")
        if src and src[0] == "src" and subj is not None and not alive and self.has(st, ("eagain", src[3])):
            if not self.evp(st, "putfail") and not self.evp(st, "senderr"):
                eng.report("S34.drop", st, "a client is disconnected because its socket was full")
        if src and src[0] == "src" and subj is not None and not alive and self.has(st, "deferred"):
            eng.report("S13.partial", st, "a client is disconnected because its request has not arrived completely yet")
        if src and src[0] == "src" and self.has(st, "rejected") and not (src[2] & (H | E)):
            if not any(self.evp(st, k) for k in ("putfail", "senderr", "eof")):
                eng.report("S36.reject", st, "a client that sent a well-formed request is disconnected")
        # devices
        devs = st.mon.get("~devs", ())
        for d in devs:
            o, i, refs, fd, closed = d
            st_o = self.seatst(st, o.oid) if o.oid in conns else "none"
            if not closed:
                if st_o == "none":
                    eng.report("S04.left", st, "a device stays open after its client closed the seat")
                elif i is None:
                    eng.report("S11.partial", st, "a device stays open although the client's request was refused")
                elif refs <= 0:
                    eng.report("S04.left", st, "a device stays open after its last reference was dropped")
                if self.dev_on(st, d) and st_o != "enabled":
                    eng.report("S03.left", st, f"a client whose seat is {st_o} keeps access to a device")
            elif refs > 0 and st_o != "none":
                eng.report("S04.early", st, "a device is closed although the client still holds references to it")
        st.mon["~devs"] = tuple(d for d in devs if not d[4])
        # VT
        if self.vtbound(eng) and src:
            if src[0] == "sig" and not self.has(st, "ttyfail"):
                if src[1] == 10 and not self.has(st, "relack"):
                    eng.report("S08.relack", st, "a VT release signal is not acknowledged")
                if src[1] == 12 and not self.has(st, "acqack"):
                    eng.report("S08.acqack", st, "a VT acquire signal is not acknowledged")
            vtm = st.mon.get("~vtm", ())
            if self.has(st, "ttyfail"):
                # nothing can be demanded of a terminal that cannot be opened
                own = [st.mem[o].ghost.get("~sess") for o in conns if self.member(st, o)]
                st.mon["~vtm"] = tuple(x for x in vtm if x[0] in own)
            else:
                for vt, m in vtm:
                    if not any(self.member(st, o) and st.eq0(sub(st.mem[o].ghost.get("~sess", -5), vt)) for o in conns):
                        eng.report("S08.restore", st, "a VT keeps graphics mode or a disabled keyboard after its client left")
                md = dict(vtm)
                for o in conns:
                    if self.seatst(st, o) == "enabled" and not st.mem[o].ghost.get("~dead") and not st.mem[o].ghost.get("~vtlost"):
                        m = dict(md.get(st.mem[o].ghost.get("~sess"), ()))
                        if not (m.get("gfx") and m.get("kboff")) and not self.evp(st, "putfail"):
                            eng.report("S08.lost", st, "an enabled client's VT is not in graphics mode with the keyboard off")
            for o in conns:
                if self.has(st, "ttyfail") or self.evp(st, "putfail"):
                    if self.seatst(st, o) == "enabled":
                        st.setg(o, "~vtlost", 1)
                if self.seatst(st, o) != "enabled" and st.mem[o].ghost.get("~vtlost"):
                    st.setg(o, "~vtlost", 0)
        # hand-over
        freed = any(v in ("enabled", "disabling") for _, v in st.mon.get("~st0", ()))
        if src and (freed or (src[0] == "sig" and src[1] == 12)) and "~stop" not in st.mon and not self.has(st, "ttyfail"):
            busy = [o for o in conns if self.seatst(st, o) in ("enabled", "disabling")]
            if not busy:
                cur = st.mon.get("~curvt", 0)
                for o in conns:
                    if self.seatst(st, o) in ("opened", "disabled"):
                        if not self.vtbound(eng):
                            eng.report("S06.handover", st, "the seat is free and a client waits for it, but none is enabled")
                        elif cur != -1 and not self.has(st, "vtfail") and st.eq0(sub(st.mem[o].ghost.get("~sess", -5), cur)) is True:
                            eng.report("S06.handover", st, "the seat is free and a client of the current VT waits for it, but it is not enabled")
        if self.has(st, "vtfail") or src and src[:2] == ("sig", 10):
            st.mon["~curvt"] = -1
        self.leak_check(eng, st)
        # reset
        st.mon["~ev"] = ()
        st.mon.pop("~st0", None)
        st.mon.pop("~dev0", None)
        for o in conns:
            w = st.w(o).ghost
            w.pop("c.avail", None)
            w.pop("c.msg", None)
            w.pop("~lastdev", None)
            w.pop("c.frame", None)
            w.pop("c.newfds", None)
            for k in ("c.fdq", "c.unsent", "~vtlost", "~dead"):
                if not w.get(k):
                    w.pop(k, None)

    def leak_check(self, eng, st):
        oids, ats = eng.reachable(st)
        eng.count("leak_checks")
        for oid, o in st.mem.items():
            if o.kind == "heap" and o.alive and oid not in oids:
                eng.report("S18.leak", st, f"{o.tag} is neither freed nor reachable any more", key=o.tag)
        for at, i in st.fds.items():
            if at not in ats:
                eng.report("S18.leakfd", st, f"an open descriptor ({i[0]}) is not owned by anything any more", key=i[0])

    def finish_check(self, eng, st):
        pass

    def boundary_alpha(self, eng, st):
        """normalise numbering: device ids and session numbers are compressed preserving order"""
        conns = self.conns(st)
        st.memo = {}
        # device ids
        for o in conns:
            ds = [d for d in st.mon.get("~devs", ()) if d[0].oid == o]
            ids = sorted({st.norm(d[1]) for d in ds if st.norm(d[1]).__class__ is int} if all(d[1] is not None for d in ds) else set())
            if ids and ids != list(range(1, len(ids) + 1)):
                ren = {v: k + 1 for k, v in enumerate(ids)}
                ok = True
                cells = []
                for oid2, ob in st.mem.items():
                    if ob.kind == "heap" and ob.alive and ob.size == self.dev_size:
                        c = ob.cells.get(self.devid_off)
                        if c and c[0] == 4:
                            cells.append(oid2)
                mine = self.list_devs(st, o, cells)
                if len(mine) == len(ids):
                    for oid2 in mine:
                        v = st.norm(st.mem[oid2].cells[self.devid_off][1])
                        st.setcell(oid2, self.devid_off, 4, ren.get(v, v))
                    st.mon["~devs"] = tuple((d[0], ren.get(st.norm(d[1]), d[1]), d[2], d[3], d[4]) if d[0].oid == o else d
                                            for d in st.mon["~devs"])
        if not self.vtbound(eng):
            seats = [oid for oid, ob in st.mem.items() if ob.kind == "heap" and ob.alive and ob.size == self.seat_size]
            if len(seats) == 1:
                cnt = st.getcell(seats[0], self.cnt_off, 4)
                vals = sorted({self.session(st, o) for o in conns if self.session(st, o).__class__ is int and self.session(st, o) > 0})
                if cnt.__class__ is int and cnt > 0 and all(v < cnt for v in vals):
                    ren = {v: k + 1 for k, v in enumerate(vals)}
                    for o in conns:
                        v = self.session(st, o)
                        if v in ren and ren[v] != v:
                            st.setcell(o, self.sess_off, 4, ren[v])
                            if st.mem[o].ghost.get("~sess") == v:
                                st.setg(o, "~sess", ren[v])
                    st.setcell(seats[0], self.cnt_off, 4, len(vals) + 1)
        # clients and sources in an order independent of their history
        if len(conns) > 1:
            srcs = st.mon.get("sources", ())

            def ck(o):
                g = st.mem[o].ghost
                x = self.session(st, o)
                return (str(g.get("~seat")), x if x.__class__ is int else -9, repr(sorted((k, v) for k, v in g.items() if v.__class__ is int or v.__class__ is str)))
            order = sorted(conns, key=ck)
            st.mon["~conns"] = tuple(Ptr(o, 0) for o in order)

            def sk(q):
                d = st.g(q.oid, "data")
                return order.index(d.oid) if d.__class__ is Ptr and d.oid in order else -1
            st.mon["sources"] = tuple(sorted(srcs, key=sk))
            st.mon["~devs"] = tuple(sorted(st.mon.get("~devs", ()), key=lambda d: (order.index(d[0].oid) if d[0].oid in order else -1, repr(d[1]))))
        # garbage
        oids, ats = eng.reachable(st)
        keep = set(oids)
        for k, v in st.mon.items():
            stack = [v]
            while stack:
                x = stack.pop()
                if x.__class__ is Ptr:
                    keep.add(x.oid)
                elif x.__class__ is tuple:
                    stack += x
        keep.add(eng.errno_oid)
        for oid in [q for q in st.mem if q not in keep]:
            del st.mem[oid]
        self.set_errno(eng, st, st.fresh(0, MAXERR))
        st.cons = tuple(c for c in st.cons if all(a in ats for a, _ in c.t))
        eng.compact(st)

    def list_devs(self, st, o, cells):
        """device objects belonging to client o: reachable from it through list links without passing other clients"""
        out = []
        seen = set()
        stack = [o]
        others = set(self.conns(st)) - {o}
        while stack:
            x = stack.pop()
            if x in seen or x in others or x not in st.mem:
                continue
            seen.add(x)
            if x in cells:
                out.append(x)
            for n, v in st.mem[x].cells.values():
                if v.__class__ is Ptr and (v.oid in cells or v.oid == o):
                    stack.append(v.oid)
        return out


class PostEvent:
    def __init__(self, m, eng):
        self.m, self.eng = m, eng

    def __call__(self, st, v):
        if "~prune" in st.mon:
            return []
        if not self.eng.merge(st):
            return []
        self.m.end_event(self.eng, st)
        return [(st, 0)]


class Exit:
    def __init__(self, m, eng):
        self.m, self.eng = m, eng

    def __call__(self, st, v):
        eng, m = self.eng, self.m
        eng.count("exits")
        started = st.mon.get("~poller")
        why = st.mon.get("~why")
        if m.final:
            m.final(eng, st, v)
        if eng.opts.get("startup_only"):
            return
        if started and eng.counts.get("event_states") and st.mon.get("~inloop") and why is None:
            eng.report("S37.why", st, "the server leaves its event loop although nothing told it to")
        if m.conns(st):
            eng.report("S37.clients", st, "the server exits with clients still connected")
        for d in st.mon.get("~devs", ()):
            if not d[4]:
                eng.report("S37.devices", st, "the server exits with devices still open")
        for oid, o in st.mem.items():
            if o.kind == "heap" and o.alive:
                eng.report("S37.leak", st, f"{o.tag} is not released when the server stops", key=o.tag)
        if started == 1:
            eng.report("S37.poller", st, "the server exits without releasing the poller")


def run_server(prog, opts):
    m = ServerModels(prog)
    m.final = opts.get("final")
    eng = Engine(prog, m, "server", opts)
    eng.stop_on = opts.get("stop_on")
    if opts.get("budget"):
        eng.deadline = time.time() + opts["budget"]
    st = eng.initial()
    main = [f for f in prog.find("main")]
    if len(main) != 1:
        raise AnalysisError("main not found")
    argv = st.new("ext", "argv", None, "sym")
    eng.call(st, main[0].name, [1, Ptr(argv, 0)])
    eng.run([st], Exit(m, eng), nproc=opts.get("nproc", 1))
    if eng.counts.get("event_states", 0) < 1 and not opts.get("startup_only") and not eng.reports:
        raise AnalysisError("the event loop was never reached")
    return eng


class BuiltinModels(ServerModels):
    """the server embedded in an application: libseat's built-in backend after fork"""

    def f_socketpair(self, eng, st, ins, a):
        """the application's side of a failure is analysed with the library"""
        r = [x for x in Models.f_socketpair(self, eng, st, ins, a) if x[1] == 0]
        for s, _ in r:
            s.mon["~pair"] = tuple(k for k, i in s.fds.items() if i[0] == "conn")
        return r

    def f_fork(self, eng, st, ins, a):
        eng.count("forks")
        return [(st, 0)]

    def f_poller_poll(self, eng, st, ins, a):
        kept = [k for k, i in st.fds.items() if i[0] == "conn" and not any(
            self.fdatom(st, st.mem[o].ghost.get("~fd")) == k for o in self.conns(st) if st.mem[o].ghost.get("~fd") is not None)]
        if kept:
            eng.report("S35.kept", st, "the embedded server keeps the application's end of the socket open: it never notices that the application left")
            return []
        if not self.conns(st):
            eng.report("S37.stop", st, "the embedded server waits for further events although it has no client and cannot get one")
            return []
        return super().f_poller_poll(eng, st, ins, a)

    def on_free(self, eng, st, oid):
        mine = oid in self.conns(st)
        super().on_free(eng, st, oid)
        if mine and not st.mon.get("~why"):
            st.mon["~why"] = "departure"


def run_builtin(prog, opts):
    m = BuiltinModels(prog)
    m.final = opts.get("final")
    eng = Engine(prog, m, "builtin", opts)
    eng.stop_on = opts.get("stop_on")
    if opts.get("budget"):
        eng.deadline = time.time() + opts["budget"]
    st = eng.initial()
    listener = st.new("ext", "listener", prog.sizeof("libseat_seat_listener"), "zero")
    for f in ("enable_seat", "disable_seat"):
        cb = st.new("ext", f, 8, "sym")
        st.setcell(listener, prog.field("libseat_seat_listener", f)[0], 8, Ptr(cb, 0))
    if "libseat_open_seat" not in prog.funcs:
        raise AnalysisError("library function libseat_open_seat not found")
    eng.call(st, "libseat_open_seat", [Ptr(listener, 0), 0])
    eng.run([st], Exit(m, eng), nproc=opts.get("nproc", 1))
    if eng.counts.get("event_states", 0) < 1 and not eng.reports:
        raise AnalysisError("the event loop was never reached")
    return eng
