"""Analysis of the client library with the seatd backend (libseat/libseat.c, libseat/backend/seatd.c): every sequence of API calls,
also from inside the listener, against a server that may send anything at any time or disappear, with every system call failing.
The connection layer is summarised by models (its implementation is decided separately, see conn.py)."""
import time
from dom import *
from engine import Engine, AnalysisError, PUSHED
from models import Models, ENOMEM, EINTR, EAGAIN, EINVAL, MAXERR
from server import ConnModels

ENOTCONN = 107
SRV = 0x8000
OPENED, CLOSED, DEVOPENED, DEVCLOSED, DISABLE, ENABLE, PONG, SWITCHED, DISABLED, ERROR = (
    SRV + 1, SRV + 2, SRV + 3, SRV + 4, SRV + 5, SRV + 6, SRV + 7, SRV + 8, SRV + 9, SRV + 0x7fff)
NAMES = {OPENED: "SEAT_OPENED", CLOSED: "SEAT_CLOSED", DEVOPENED: "DEVICE_OPENED", DEVCLOSED: "DEVICE_CLOSED", DISABLE: "DISABLE_SEAT",
         ENABLE: "ENABLE_SEAT", PONG: "PONG", SWITCHED: "SESSION_SWITCHED", DISABLED: "SEAT_DISABLED", ERROR: "ERROR"}
# request -> (payload size or None, reply, reply size or None)
REQ = {1: (0, OPENED, None), 2: (0, CLOSED, 0), 3: (None, DEVOPENED, 4), 4: (4, DEVCLOSED, 0), 5: (0, DISABLED, 0), 6: (4, SWITCHED, 0),
       7: (0, PONG, 0)}
OPREQ = {"open": 1, "close": 2, "open_device": 3, "close_device": 4, "disable": 5, "switch": 6}
MAXNAME = 64
POLLIN, POLLERR, POLLHUP, POLLNVAL = 1, 8, 16, 32
PEROP = ("~op", "~stale", "~srverr", "~causes", "~fatal", "~req", "~reply", "~hdr", "~delivered", "~eintr", "~edown", "~timeout", "~args",
         "~pay", "~gonepoll", "~spur", "~late", "~byhdr")


class LibEngine(Engine):
    pass


class LibModels(ConnModels):
    def __init__(self, prog, opts):
        super().__init__()
        self.prog = prog
        self.opts = opts
        self.fd_off = prog.field("connection", "fd")[0]
        self.wf_off = prog.field("connection", "want_flush")[0]
        self.conn_size = prog.sizeof("connection")
        self.ring = prog.field("connection_buffer", "data")[1]
        self.api = {}
        for k, n in (("open", "libseat_open_seat"), ("close", "libseat_close_seat"), ("open_device", "libseat_open_device"),
                     ("close_device", "libseat_close_device"), ("disable", "libseat_disable_seat"), ("switch", "libseat_switch_session"),
                     ("dispatch", "libseat_dispatch"), ("get_fd", "libseat_get_fd"), ("name", "libseat_seat_name")):
            if n not in prog.funcs:
                raise AnalysisError(f"library function {n} not found")
            self.api[k] = n

    # ---- helpers
    def cause(self, eng, st, v):
        st.mon["~causes"] = st.mon.get("~causes", ()) + (v,)

    def violation(self, st, what):
        k = "~late" if self.complete(st) else "~fatal"
        if not st.mon.get(k):
            st.note(what)
        st.mon[k] = 1

    def complete(self, st):
        """the reply of the current call was taken completely"""
        return st.mon.get("~reply")

    def broken(self, st, oid, base):
        return st.norm(st.getcell(oid, base + self.fd_off, 4)) == -1

    def io(self, eng, st, p, what):
        """descriptor of the connection is used; False if that is not possible"""
        if st.mon.get("~edown"):
            eng.report("S28.io", st, f"{what} although the connection was broken before this call")
            return False
        v = st.norm(self.conn_fd(eng, st, p))
        if v == -1:
            eng.report("S28.closed", st, f"{what} after the connection was closed")
            return False
        return self.use_fd(eng, st, v, what) != "bad"

    def avail(self, st, oid):
        v = st.mem[oid].ghost.get("c.avail")
        if v is None:
            v = 0
            st.setg(oid, "c.avail", v)
        return st.norm(v)

    def alloc(self, eng, st, size, fill, what):
        r = Models.alloc(self, eng, st, size, fill, what)
        for s, v in r:
            if v == 0:
                self.cause(eng, s, ENOMEM)
                if s.mon.get("~op") not in ("open",):
                    s.mon["~oom"] = 1
        return r

    def io_fail(self, eng, st, cls="io", ne=()):
        r = Models.io_fail(self, eng, st, cls, ne)
        for s, v in r:
            self.cause(eng, s, s.norm(self.errno(eng, s)))
        return r

    # ---- writing
    def f_connection_put(self, eng, st, ins, a):
        oid = self.conn_oid(eng, st, a[0], "connection_put")
        if oid is None:
            return []
        if st.mon.get("~edown"):
            eng.report("S28.io", st, "a request is sent although the connection was broken before this call")
            return []
        out = []
        for st, n in eng.resolve(st, a[2], 64, False):
            if n == 0:
                out.append((st, 0))
                continue
            if not eng.check_ptr(st, a[1], n, "message source"):
                continue
            fr = st.mem[oid].ghost.get("c.frame")
            if self.ok(eng, "put"):
                s = self.failed(eng, st, note="queueing output fails")
                e = s.norm(self.errno(eng, s))
                self.cause(eng, s, e)
                self.violation(s, "the connection fails")
                out.append((s, -1))
            if fr is None:
                if n.__class__ is not int or n < 4:
                    raise AnalysisError("unsupported partial header write")
                op, size = st.getcell(a[1].oid, a[1].off, 2), st.getcell(a[1].oid, a[1].off + 2, 2)
                if op is UNDEF or size is UNDEF:
                    eng.report("mem.uninit", st, "an uninitialised message header is sent")
                    continue
                op = st.norm(op)
                op = op & 0xffff if op.__class__ is int else None
                if op not in REQ:
                    eng.report("S36.request", st, f"a request with the unknown opcode {op} is sent")
                    continue
                self.started(eng, st, op)
                got, pay, skip = 0, (), 4
                szs = eng.resolve(st, size, 16, False)
            else:
                op, size, got, pay = fr
                skip = 0
                szs = [(st, size)]
            for s, size in szs:
                g, p = got, pay
                body = sub(n, skip)
                if body != 0:
                    v = None
                    if body.__class__ is int and body in (1, 2, 4, 8):
                        v = s.getcell(a[1].oid, add(a[1].off, skip), body)
                    elif a[1].off.__class__ is int:
                        v = self.content(s, Ptr(a[1].oid, add(a[1].off, skip)))
                        v = ("str", v, Ptr(a[1].oid, add(a[1].off, skip)))
                    if v is UNDEF:
                        eng.report("mem.uninit", s, "uninitialised bytes are sent to the server")
                        continue
                    p = p + ((g, body, v),)
                    g = add(g, body)
                rem = sub(size, g)
                z = s.eq0(rem)
                if z is not True and s.ge0(add(rem, -1)) is not True:
                    eng.report("S36.size", s, "a request is written with a payload that does not match the size in its header")
                    continue
                if z is True:
                    s.setg(oid, "c.frame", None)
                    if not self.request(eng, s, oid, op, size, p):
                        continue
                else:
                    s.setg(oid, "c.frame", (op, size, g, p))
                s.setg(oid, "c.unsent", 1)
                s.setcell(oid, a[0].off + self.wf_off, 1, 1)
                out.append((s, 0))
        return out

    def started(self, eng, st, op):
        pass

    def request(self, eng, st, oid, op, size, pay):
        """a request was written completely"""
        eng.count("requests")
        st.note(f"request {op} is queued")
        want = REQ[op][0]
        if want is not None and st.eq0(sub(size, want)) is not True:
            eng.report("S36.size", st, f"request {op} does not have the size the server demands")
            return False
        if op == 7:
            st.mon["~newping"] = st.mon.get("~newping", 0) + 1
            return True
        cur = st.mon.get("~op")
        if OPREQ.get(cur) != op:
            eng.report("S25.request", st, f"request {op} is sent for a call that asks for something else")
            return False
        if st.mon.get("~req"):
            eng.report("S26.twice", st, "the same request is sent twice for one call")
            return False
        if st.mon.get("~lost"):
            eng.report("S26.sync", st, "a request is sent while the reply of an earlier, failed request is still to come: its reply will be "
                       "taken for the new request's")
            return False
        st.mon["~req"] = op
        args = st.mon.get("~args")
        flat = {g: (n, v) for g, n, v in pay if g.__class__ is int}
        if op in (4, 6):
            n, v = flat.get(0, (None, None))
            if n != 4 or v.__class__ not in (int, Lin) or st.eq0(sub(st.norm(v), st.norm(args[0]))) is not True:
                eng.report("S25.argument", st, "the number sent to the server is not the one given by the caller")
                return False
        if op == 3:
            n, v = flat.get(0, (None, None))
            if n != 2 or v.__class__ not in (int, Lin) or st.eq0(sub(add(st.norm(v), 2), st.norm(size))) is not True:
                eng.report("S36.path", st, "the path length in an open request does not match the size of the request")
                return False
            rest = [x for x in pay if x[0] == 2]
            ok = len(rest) == 1 and len(pay) == 2 and rest[0][2].__class__ is tuple and rest[0][2][1] == args[0]
            if not ok:
                eng.report("S25.argument", st, "the path sent to the server is not the one given by the caller")
                return False
            if st.eq0(sub(add(self.length(eng, st, args[1]), 1), st.norm(v))) is not True:
                eng.report("S36.path", st, "the path in an open request is not sent up to and including its terminator")
                return False
            if st.ge0(sub(256, st.norm(v))) is not True:
                eng.report("S36.path", st, "a path longer than the server accepts is sent")
                return False
            if st.ge0(sub(self.ring - 4, st.norm(size))) is not True:
                eng.report("S36.fit", st, "a request is sent that does not fit into the receiving buffer: the server can never read it "
                           "completely")
                return False
        return True

    def f_connection_put_fd(self, eng, st, ins, a):
        eng.report("S36.fd", st, "a descriptor is sent to the server")
        return []

    def f_connection_flush(self, eng, st, ins, a):
        oid = self.conn_oid(eng, st, a[0], "connection_flush")
        if oid is None or not self.io(eng, st, a[0], "sending"):
            return []
        eng.count("flushes")
        if not st.mem[oid].ghost.get("c.unsent"):
            return [(st, 0)]
        out = []
        if st.mem[oid].ghost.get("c.frame") is not None:
            eng.report("S36.partial", st, "a partially written request is sent")
        if self.ok(eng, "flush"):
            s = self.failed(eng, st, note="sending fails")
            self.cause(eng, s, s.norm(self.errno(eng, s)))
            self.violation(s, "the connection fails")
            out.append((s, -1))
        st.setg(oid, "c.unsent", 0)
        st.setcell(oid, a[0].off + self.wf_off, 1, 0)
        n = st.mon.pop("~newping", 0)
        if n:
            st.mon["~ping"] = st.mon.get("~ping", 0) + n
            eng.count("pings")
        out.append((st, st.fresh(1, self.ring)))
        return out

    # ---- reading
    def f_connection_read(self, eng, st, ins, a):
        oid = self.conn_oid(eng, st, a[0], "connection_read")
        if oid is None or not self.io(eng, st, a[0], "reading"):
            return []
        eng.count("reads")
        out = []
        av = self.avail(st, oid)
        if self.opts.get("overflow", 1):
            s = st.copy()
            if s.assume_ge0(add(av, -self.ring)):
                self.set_errno(eng, s, 75)
                self.cause(eng, s, 75)
                self.violation(s, "the input buffer is full")
                out.append((s, -1))
        if self.ok(eng, "read"):
            s = self.failed(eng, st, ne=[EAGAIN, EINTR], note="reading fails")
            self.cause(eng, s, s.norm(self.errno(eng, s)))
            self.violation(s, "the connection fails")
            s.mon["~gone"] = 1
            s.setg(oid, "c.fdin", 1)
            out.append((s, -1))
        ready = st.mon.pop("~ready", None)
        if st.mon.get("~gone"):
            s = st
            if s.mon.get("~eofs", 0) >= 2:
                eng.report("S35.spin", s, "the end of file of the connection is read again and again")
                return out
            s.mon["~eofs"] = s.mon.get("~eofs", 0) + 1
            s.setg(oid, "c.fdin", 1)
            self.violation(s, "the server is gone")
            out.append((s, 0))
            return out
        if self.opts.get("spurious", 1):
            s = st.copy()
            self.set_errno(eng, s, EAGAIN)
            s.note("nothing can be read")
            out.append((s, -1))
        if ready is None or ready == "eof":
            s = st.copy()
            s.mon["~gone"] = 1
            s.mon["~eofs"] = 1
            s.setg(oid, "c.fdin", 1)
            s.note("end of file")
            self.violation(s, "the server is gone")
            out.append((s, 0))
        s = st
        lo = s.rng(av)[0] if av.__class__ is Lin else av
        if lo < self.ring:
            v = s.fresh(4 if s.mem[oid].ghost.get("c.push") is not None else 1, self.ring)
            s.setg(oid, "c.avail", v)
            s.setg(oid, "c.fdin", 1)
            s.setg(oid, "c.new", 1)
            out.append((s, v))
        return out

    def f_connection_pending(self, eng, st, ins, a):
        oid = self.conn_oid(eng, st, a[0], "connection_pending")
        if oid is None:
            return []
        return [(st, self.avail(st, oid))]

    def f_connection_get(self, eng, st, ins, a):
        oid = self.conn_oid(eng, st, a[0], "connection_get")
        if oid is None:
            return []
        out = []
        for st, n in eng.resolve(st, a[2], 64, False):
            if n == 0 or st.eq0(n) is True:
                out.append((st, 0))
                continue
            av = self.avail(st, oid)
            s = st.copy()
            if s.assume_ge0(sub(add(n, -1), av)):
                self.set_errno(eng, s, EAGAIN)
                s.setg(oid, "c.last", None)
                body = s.mem[oid].ghost.get("c.body")
                if body is not None:
                    y = s.copy()
                    if y.assume_ge0(sub(sub(body[1], body[2]), n)):
                        eng.report("S29.early", y, "a reply is read although only a part of it has arrived")
                    if not s.assume_ge0(sub(add(n, -1), sub(body[1], body[2]))):
                        s = None
                    else:
                        self.violation(s, "a message is shorter than announced")
                if s is not None:
                    out.append((s, -1))
            if not st.assume_ge0(sub(av, n)):
                continue
            for s, n in eng.resolve(st, n, 64, False):
                if not eng.check_ptr(s, a[1], n, "copy of received data", True):
                    continue
                out += self.take(eng, s, oid, a[1], n)
        return out

    def take(self, eng, st, oid, dst, n):
        g = st.mem[oid].ghost
        body = g.get("c.body")
        eng.drop_content(st, dst.oid)
        st.mon.pop("~byhdr", None)
        st.setg(oid, "c.avail", sub(self.avail(st, oid), n))
        if body is not None:
            return self.payload(eng, st, oid, dst, n, body)
        if n != 4:
            st.havoc(dst.oid, dst.off, n)
            st.setg(oid, "c.last", None)
            self.violation(st, "the message framing is lost")
            return [(st, n)]
        p = g.get("c.push")
        if p is not None:
            st.setg(oid, "c.push", None)
            return self.header(eng, st, oid, dst, p[0], p[1])
        out = []
        evq = st.mon.get("~evq", ())
        hostile = self.opts.get("hostile")
        cand = []
        if len(evq) + st.mon.get("~nev", 0) < self.opts.get("maxev", 2):
            cand += [DISABLE, ENABLE]
        if st.mon.get("~ping", 0) > 0 or (hostile and st.mon.get("~npong", 0) < 1):
            cand.append(PONG)
        exp = None
        if st.mon.get("~req") and not st.mon.get("~reply"):
            exp = REQ[st.mon["~req"]][1]
            cand += [exp, ERROR]
        if hostile:
            cand += [x for x in (ERROR, 0) if x not in cand] + [None]
        for c in cand:
            s = st.copy()
            if c is None:
                op = s.fresh(0, 65535, ne=[0, DISABLE, ENABLE, PONG, ERROR] + ([exp] if exp else []))
            else:
                op = c
            if c in (DISABLE, ENABLE, PONG):
                sizes = [0]
            elif (c == exp and exp) or (c == ERROR and exp):
                w = 4 if c == ERROR else REQ[st.mon["~req"]][2]
                if w is None:
                    sizes = [("name",)] + ([("short",), ("bad",)] if hostile else [])
                else:
                    sizes = [w] + ([("ne", w)] if hostile else [])
            else:
                sizes = [("any",)]
            for z in sizes:
                x = s.copy()
                if z.__class__ is int:
                    size = z
                elif z[0] == "name":
                    size = x.fresh(3, 2 + MAXNAME)
                elif z[0] == "short":
                    size = x.fresh(0, 1)
                elif z[0] == "bad":
                    size = x.fresh(2, 65535)
                elif z[0] == "ne":
                    size = x.fresh(0, 65535, ne=[z[1]])
                else:
                    size = x.fresh(0, 65535)
                if z == ("bad",):
                    x.mon["~hostile"] = 1
                out += self.header(eng, x, oid, dst, op, size)
        return out

    def expected(self, st, op, size):
        """does this header violate the protocol in the current situation?"""
        if op in (DISABLE, ENABLE, PONG):
            return True
        r = st.mon.get("~req")
        if not r or st.mon.get("~reply"):
            return False
        if op == ERROR:
            return st.eq0(sub(size, 4)) is True
        if op == REQ[r][1]:
            w = REQ[r][2]
            return st.eq0(sub(size, w)) is True if w is not None else st.ge0(add(size, -2)) is True
        return False

    def header(self, eng, st, oid, dst, op, size):
        st.setcell(dst.oid, dst.off, 2, op if op.__class__ is not int else st._ext(op, 2))
        st.setcell(dst.oid, dst.off + 2, 2, size)
        st.setg(oid, "c.last", (op, size))
        eng.count("headers")
        nm = NAMES.get(op, op if op.__class__ is int else "an unknown opcode") if op.__class__ is int else "an unknown opcode"
        st.note(f"header of {nm} is taken from the connection")
        if op in (DISABLE, ENABLE):
            st.mon["~evq"] = st.mon.get("~evq", ()) + (op,)
            st.mon["~nev"] = st.mon.get("~nev", 0) + 1
        elif op == PONG:
            if st.mon.get("~ping", 0) > 0:
                st.mon["~ping"] -= 1
            else:
                st.mon["~npong"] = 1
                st.mon["~hostile"] = 1
        else:
            if not self.expected(st, op, size):
                st.mon["~hostile"] = 1
                self.violation(st, "the server violates the protocol")
            st.setg(oid, "c.body", (op, size, 0))
            if st.eq0(size) is True if size.__class__ is Lin else size == 0:
                st.setg(oid, "c.body", None)
                if op != ERROR and self.expected(st, op, size):
                    st.mon["~reply"] = 1
                    st.mon["~byhdr"] = 1
        return [(st, 4)]

    def payload(self, eng, st, oid, dst, n, body):
        op, size, got = body
        rem = sub(size, got)
        st.setg(oid, "c.last", None)
        if st.ge0(sub(rem, n)) is not True:
            s = st.copy()
            bad = True
            if s.assume_ge0(sub(sub(add(n, -1), rem), 0)):
                if op == OPENED:
                    # a name longer than the message
                    self.violation(s, "the server violates the protocol")
                    s.mon["~hostile"] = 1
                    bad = False
                if bad:
                    eng.report("S29.overrun", st, "more is read than the message holds")
                    return []
            if not st.assume_ge0(sub(rem, n)):
                st.havoc(dst.oid, dst.off, n)
                st.setg(oid, "c.body", None)
                return [(st, n)]
        out = []
        vs = [(st, None)]
        if n == 4 and op == ERROR and got == 0:
            vs = []
            s = st.copy()
            v = s.fresh(1, MAXERR)
            s.mon["~srverr"] = v
            vs.append((s, v))
        elif n == 4 and op == DEVOPENED and got == 0:
            vs = []
            s = st.copy()
            v = s.fresh(0, (1 << 31) - 1)
            s.mon["~pay"] = v
            vs.append((s, v))
            if self.opts.get("hostile"):
                v = st.fresh(-(1 << 31), -1)
                st.mon["~hostile"] = 1
                self.violation(st, "the server violates the protocol")
                vs.append((st, v))
        elif n == 2 and op == OPENED and got == 0:
            vs = []
            s = st.copy()
            if not s.mon.get("~hostile"):
                vs.append((s, s.norm(add(size, -2))))
                if s.ge0(sub(MAXNAME, add(size, -2))) is not True:
                    raise AnalysisError("name length")
            if self.opts.get("hostile"):
                st.mon["~hostile"] = 1
                vs.append((st, st.fresh(0, 65535)))
        elif n in (1, 2, 4, 8):
            vs = [(st, st.unk(n))]
        for s, v in vs:
            if v is None:
                s.havoc(dst.oid, dst.off, n)
                if op == OPENED and not s.mon.get("~hostile") and s.eq0(sub(rem, n)) is True:
                    s.setg(dst.oid, "~name", (dst.off, n))
            else:
                s.setcell(dst.oid, dst.off, n, v)
            r = s.norm(sub(rem, n))
            if s.eq0(r) is True:
                s.setg(oid, "c.body", None)
                s.mon["~reply"] = 1
            else:
                s.setg(oid, "c.body", (op, size, add(got, n)))
            out.append((s, n))
        return out

    def f_strnlen(self, eng, st, ins, a):
        p, n = a
        if p.__class__ is Ptr and p.oid in st.mem and "~name" in st.mem[p.oid].ghost and not st.mon.get("~hostile"):
            off, ln = st.mem[p.oid].ghost["~name"]
            if off == p.off and st.eq0(sub(st.norm(n), ln)) is True:
                # a well-behaved server terminates the name
                if not eng.check_ptr(st, p, n, "strnlen"):
                    return []
                r = st.norm(add(ln, -1))
                st.setg(p.oid, "$strn", (p.off, n, r))
                return [(st, r)]
        return Models.f_strnlen(self, eng, st, ins, a)

    def f_connection_restore(self, eng, st, ins, a):
        oid = self.conn_oid(eng, st, a[0], "connection_restore")
        if oid is None:
            return []
        l = st.mem[oid].ghost.get("c.last")
        n = st.norm(a[1])
        if l is None or n != 4:
            eng.report("S29.restore", st, "something else than the header just read is put back")
            return []
        op, size = l
        st.setg(oid, "c.push", l)
        st.setg(oid, "c.last", None)
        st.setg(oid, "c.body", None)
        if st.mon.pop("~byhdr", None):
            st.mon.pop("~reply", None)
        st.setg(oid, "c.avail", add(self.avail(st, oid), 4))
        if op in (DISABLE, ENABLE):
            st.mon["~evq"] = st.mon["~evq"][:-1]
            st.mon["~nev"] -= 1
        elif op == PONG:
            st.mon["~ping"] = st.mon.get("~ping", 0) + 1
        return [(st, None)]

    def f_connection_get_fd(self, eng, st, ins, a):
        oid = self.conn_oid(eng, st, a[0], "connection_get_fd")
        if oid is None or not eng.check_ptr(st, a[1], 4, "received descriptor", True):
            return []
        eng.count("received_fds")
        out = []
        good = st.mon.get("~req") == 3 and not st.mon.get("~hostile")
        if self.opts.get("hostile") or not good:
            s = st.copy()
            s.mon["~hostile"] = 1
            self.violation(s, "a descriptor is missing")
            self.set_errno(eng, s, EAGAIN)
            out.append((s, -1))
        if st.mem[oid].ghost.get("c.fdin"):
            v = self.newfd(st, "dev", 1, 0, ())
            st.setcell(a[1].oid, a[1].off, 4, v)
            st.mon["~gotfd"] = v
            out.append((st, 0))
        elif good:
            v = self.newfd(st, "dev", 1, 0, ())
            st.setcell(a[1].oid, a[1].off, 4, v)
            st.mon["~gotfd"] = v
            out.append((st, 0))
        return out

    def f_connection_close_fds(self, eng, st, ins, a):
        oid = self.conn_oid(eng, st, a[0], "connection_close_fds")
        if oid is None:
            return []
        st.setg(oid, "c.fdin", 0)
        return [(st, None)]

    # ---- waiting
    def f_poll(self, eng, st, ins, a):
        arr, n, to = a
        if st.norm(n) != 1:
            eng.report("S29.poll", st, "something else than the connection is waited for")
            return []
        if not eng.check_ptr(st, arr, 8, "poll", True):
            return []
        eng.count("waits")
        fd, ev = st.norm(st.getcell(arr.oid, arr.off, 4)), st.norm(st.getcell(arr.oid, arr.off + 4, 2))
        to = st.norm(to)
        if to.__class__ is int and to >= 1 << 31:
            to -= 1 << 32
        if fd is UNDEF or ev is UNDEF:
            eng.report("mem.uninit", st, "poll on an uninitialised entry")
            return []
        if st.mon.get("~edown"):
            eng.report("S28.io", st, "the connection is waited for although it was broken before this call")
            return []
        if fd == -1:
            if to != 0:
                eng.report("S35.hang", st, "waiting for a connection that is closed")
                return []
            st.setcell(arr.oid, arr.off + 6, 2, 0)
            return [(st, 0)]
        if self.use_fd(eng, st, fd, "poll") == "bad":
            return []
        if ev.__class__ is not int or not ev & POLLIN:
            eng.report("S35.poll", st, "input of the connection is not waited for")
            return []
        op = st.mon.get("~op")
        block = not (to.__class__ is int and to == 0)
        conn = self.conn_of(st, fd)
        if conn is not None:
            g = st.mem[conn].ghost
            if g.get("c.unsent") and block:
                eng.report("S29.unsent", st, "a reply is waited for although the request was not sent")
                return []
            if block:
                av = self.avail(st, conn)
                p = g.get("c.push")
                if p is not None:
                    if st.ge0(add(sub(p[1], av), 3)) is not True:
                        eng.report("S29.wait", st, "the library waits although the reply was already received completely")
                        return []
                elif st.ge0(sub(3, av)) is not True:
                    eng.report("S29.wait", st, "the library waits although received data was not looked at")
                    return []
        if op == "dispatch":
            t0 = st.mon["~timeout"]
            if t0 == 0 and block:
                eng.report("S27.block", st, "dispatching without a timeout waits")
                return []
            if st.mon.get("~delivered") and block:
                eng.report("S27.block", st, "dispatch waits for more although it already delivered an event")
                return []
            if block and st.eq0(sub(to, t0)) is not True and not st.mon.get("~eintr"):
                eng.report("S27.block", st, "dispatch does not wait for the time the caller allows")
                return []
        elif to != -1 and st.mon.get("~req"):
            pass
        out = []
        if st.mon.get("~gone"):
            if st.mon.get("~gonepoll"):
                eng.report("S35.spin", st, "a connection whose server is gone is waited for again and again")
                return []
            st.mon["~gonepoll"] = 1
            st.setcell(arr.oid, arr.off + 6, 2, POLLIN | POLLHUP)
            self.violation(st, "the server is gone")
            return [(st, 1)]
        if self.opts.get("spurious", 1):
            s = st.copy()
            if op == "dispatch":
                s.mon["~eintr"] = 1
            self.set_errno(eng, s, EINTR)
            s.note("poll is interrupted")
            out.append((s, -1))
        if self.ok(eng, "poll"):
            s = self.failed(eng, st, val=ENOMEM, note="poll fails")
            self.cause(eng, s, ENOMEM)
            out.append((s, -1))
        if not (to.__class__ is int and to == -1) or self.opts.get("pollzero"):
            s = st.copy()
            s.setcell(arr.oid, arr.off + 6, 2, 0)
            s.note("nothing arrives in time")
            out.append((s, 0))
        for r in (POLLIN, POLLHUP, POLLIN | POLLHUP, POLLERR):
            s = st.copy()
            s.setcell(arr.oid, arr.off + 6, 2, r)
            s.note(f"poll reports {r}")
            if r & (POLLHUP | POLLERR):
                s.mon["~gone"] = 1
                self.violation(s, "the server is gone")
            else:
                s.mon["~ready"] = 1
                y = s.copy()
                y.mon["~ready"] = "eof"
                out.append((y, 1))
            out.append((s, 1))
        return out

    f_ppoll = f_poll

    def conn_of(self, st, fd):
        for oid, o in st.mem.items():
            if "c.avail" in o.ghost or "c.unsent" in o.ghost:
                return oid
        return None

    def f_socket(self, eng, st, ins, a):
        r = Models.f_socket(self, eng, st, ins, a)
        for s, v in r:
            i = self.fdinfo(s, v)
            if i is not None:
                eng.count("sockets")
                if not i[1]:
                    eng.report("S19.socket", s, "the connection's descriptor is inherited by other programs (not close-on-exec)")
                if not i[2]:
                    eng.report("S17.socket", s, "the connection is not made non-blocking")
        return r

    def f_socketpair(self, eng, st, ins, a):
        r = Models.f_socketpair(self, eng, st, ins, a)
        for s, v in r:
            if v == 0:
                eng.count("sockets")
                for at, i in s.fds.items():
                    if i[0] == "conn" and not i[1]:
                        eng.report("S19.socket", s, "the connection's descriptors are inherited by other programs (not close-on-exec)")
                    if i[0] == "conn" and not i[2]:
                        eng.report("S17.socket", s, "the connection is not made non-blocking")
        return r

    def f_fork(self, eng, st, ins, a):
        """the child, which is the embedded server, is analysed by server.run_builtin"""
        s = st.copy()
        self.set_errno(eng, s, EAGAIN)
        self.cause(eng, s, EAGAIN)
        s.note("fork fails")
        eng.count("forks")
        return [(s, -1), (st, st.fresh(2, 1 << 22))]

    def f_getenv(self, eng, st, ins, a):
        return Models.f_getenv(self, eng, st, ins, a)

    # ---- listener
    def callback(self, eng, st, ins, cb, vals):
        which = cb[1]
        eng.count("callbacks")
        want = ENABLE if which == "enable" else DISABLE
        q = st.mon.get("~evq", ())
        if st.mon.get("~op") not in ("open", "close", "dispatch"):
            eng.report("S27.when", st, f"the application's {which} callback is called from a {st.mon.get('~op')} call")
            return []
        if not q:
            eng.report("S27.invented", st, f"the application's {which} callback is called although no such event is undelivered")
            return []
        if q[0] != want:
            eng.report("S27.order", st, f"the application's {which} callback is called while the oldest undelivered event is another one")
            return []
        if len(vals) != 2 or vals[1] != Ptr(eng.data, 0):
            eng.report("S27.data", st, "a callback does not get the caller's data")
            return []
        seat = st.mon.get("seat")
        if vals[0].__class__ is not Ptr or (seat is not None and vals[0] != seat):
            eng.report("S27.data", st, "a callback does not get the application's seat")
            return []
        if vals[0].oid not in st.mem or not st.mem[vals[0].oid].alive:
            eng.report("mem.uaf", st, "a callback gets a seat that was already freed")
            return []
        st.mon["~evq"] = q[1:]
        st.mon["~delivered"] = 1
        st.note(f"{which} callback")
        out = [(st.copy(), None)]
        if st.mon.get("~cb", 0) > 0 and seat is not None and st.mon.get("~op") == "dispatch":
            st.mon["~cb"] -= 1
            for x in self.ops(eng, st, ins, True):
                out.append((x, PUSHED))
        return out

    # ---- the application
    def ops(self, eng, st, ins, nested):
        seat = st.mon.get("seat")
        out = []
        allow = self.opts.get("ops")

        def go(op, args, fin, margs=None, prep=None):
            if allow and op not in allow and op not in ("open", "close"):
                return
            s = st.copy()
            saved = tuple((k, s.mon.pop(k)) for k in PEROP if k in s.mon)
            if nested:
                s.mon["~saved"] = saved
            e0 = s.fresh(0, MAXERR)
            self.set_errno(eng, s, e0)
            s.mon["~op"] = op
            s.mon["~stale"] = e0
            s.mon["~edown"] = 1 if s.mon.get("~down") else 0
            if margs is not None:
                s.mon["~args"] = margs
            if prep:
                args = prep(s) or args
            if not nested:
                s.mon["~cb"] = self.opts.get("nested", 1)
                s.mon["~nev"] = 0
                s.mon.pop("~eofs", None)
            s.note(f"call of libseat_{op}")
            eng.count("api_calls")

            def post(x, v):
                ok = fin(x, x.norm(v) if v.__class__ is Lin else v)
                if not ok:
                    return []
                for k in PEROP + ("~gotfd", "~oom"):
                    x.mon.pop(k, None)
                if nested:
                    for k, q in x.mon.pop("~saved", ()):
                        x.mon[k] = q
                    self.set_errno(eng, x, x.fresh(0, MAXERR))
                    return [(x, None)]
                return self.end(eng, x)
            eng.call(s, self.api[op], args, ins, post)
            out.append(s)

        if seat is None:
            go("open", [Ptr(eng.listener, 0), Ptr(eng.data, 0)], lambda x, v: self.opened(eng, x, v))
            return out
        go("disable", [seat], lambda x, v: self.answered(eng, x, "disable", v))
        n = st.fresh(-(1 << 31), (1 << 31) - 1)
        go("switch", [seat, n], lambda x, v: self.answered(eng, x, "switch", v), (n,))
        go("close_device", [seat, n], lambda x, v: self.answered(eng, x, "close_device", v), (n,))

        def prep(s):
            f0 = s.fresh(-(1 << 31), (1 << 31) - 1)
            s.setcell(eng.fdcell, 0, 4, f0)
            s.mon["~fd0"] = f0
        p = self.extstr(eng, st, "device path")
        go("open_device", [seat, p, Ptr(eng.fdcell, 0)], lambda x, v: self.answered(eng, x, "open_device", v),
           (self.content(st, p), p), prep)
        if not nested:
            for t in (0, -1, 1):
                s0 = st
                tv = t if t <= 0 else 500

                def pt(s, tv=tv):
                    s.mon["~timeout"] = tv
                go("dispatch", [seat, tv], lambda x, v: self.dispatched(eng, x, v), None, pt)
            go("close", [seat], lambda x, v: self.closed(eng, x, v))
            go("get_fd", [seat], lambda x, v: self.gotfd(eng, x, v))
            go("name", [seat], lambda x, v: self.named(eng, x, v))
        return out

    def at(self, eng, op, st, kind, msg, key=None):
        name = self.opname(op)
        f = self.prog.funcs[name]
        eng.exit_at = (f"{eng.short(f.file)}:{f.line}", f.src)
        fr, st.fr = st.fr, None
        eng.report(kind, st, msg, key)
        st.fr = fr
        eng.exit_at = ("", "")

    def opname(self, op):
        impl = self.impl.get(op)
        return impl if impl in self.prog.funcs else self.api[op]

    impl = {}

    def conn(self, st, seat):
        """(object, offset) of the connection inside the seat"""
        return seat.oid, self.prog.field("backend_seatd", "connection")[0]

    def isdown(self, st, seat):
        o, off = self.conn(st, seat)
        return st.norm(st.getcell(o, off + self.fd_off, 4)) == -1

    def failure(self, eng, st, op):
        """errno rules for a call that failed"""
        e = st.norm(self.errno(eng, st))
        if e is UNDEF or e == 0 or st.eq0(sub(e, st.norm(st.mon["~stale"]))) is True:
            self.at(eng, op, st, "S26.errno", f"{op} fails without setting errno", key=op + str(bool(st.mon.get("~edown"))))
            return False
        if st.mon.get("~edown"):
            if op != "close" and e != ENOTCONN:
                self.at(eng, op, st, "S28.errno", f"{op} on a broken connection does not fail with ENOTCONN", key=op)
                return False
            return True
        causes = st.mon.get("~causes", ())
        se = st.mon.get("~srverr")
        if se is not None and not st.mon.get("~fatal"):
            if st.eq0(sub(e, st.norm(se))) is not True:
                self.at(eng, op, st, "S26.code", f"{op} fails because the server refused, but errno is not the error the server sent", key=op)
                return False
            return True
        if causes:
            if not any(st.eq0(sub(e, st.norm(c))) is True for c in causes):
                self.at(eng, op, st, "S26.cause", f"errno is not the error that made {op} fail", key=op)
                return False
            return True
        if e == EAGAIN:
            self.at(eng, op, st, "S26.again", f"{op} fails with EAGAIN although nothing is to be retried", key=op)
            return False
        return True

    def settle(self, eng, st, op):
        """what holds after every call while the seat stays open"""
        seat = st.mon["seat"]
        down = self.isdown(st, seat)
        if st.mon.get("~edown") and not down:
            raise AnalysisError("a broken connection is open again")
        if (st.mon.get("~fatal") or st.mon.get("~late")) and not down:
            self.at(eng, op, st, "S28.broken", f"{op} detects that the connection is unusable but keeps using it", key=op)
            return False
        if down and not st.mon.get("~down"):
            if not st.mon.get("~fatal") and not st.mon.get("~late") and not st.mon.get("~hostile") and not st.mon.get("~causes") and st.mon.get("~op") != "dispatch":
                self.at(eng, op, st, "S36.refused", f"{op} breaks the connection although the server kept to the protocol", key=op)
                return False
        o, off = self.conn(st, seat)
        if down:
            st.mon["~down"] = 1
            if st.mem[o].ghost.get("c.fdin"):
                self.at(eng, op, st, "S28.fds", "received descriptors are kept although the connection is broken")
                return False
            if not st.mon.get("~saved") and not self.noevents(st, seat):
                self.at(eng, op, st, "S28.events", "queued events are kept although the connection is broken")
                return False
            st.mon["~evq"] = st.mon.get("~evq", ()) if st.mon.get("~saved") is not None else ()
        else:
            req = st.mon.get("~req")
            body = st.mem[o].ghost.get("c.body")
            if body is not None:
                if st.eq0(sub(body[1], body[2])) is True:
                    st.setg(o, "c.body", None)
                    st.mon["~reply"] = 1
                else:
                    self.at(eng, op, st, "S29.frame", f"{op} leaves a part of a message in the connection", key=op)
                    return False
            if req and not st.mon.get("~reply"):
                st.mon["~lost"] = 1
            if st.mem[o].ghost.get("c.frame") is not None:
                self.at(eng, op, st, "S36.partial", f"{op} leaves a partially written request", key=op)
                return False
        return True

    def noevents(self, st, seat):
        off = self.prog.field("backend_seatd", "pending_events")[0]
        return st.getcell(seat.oid, off, 8) == Ptr(seat.oid, off)

    def opened(self, eng, st, v):
        if v == 0:
            if not self.failure(eng, st, "open"):
                return False
            for at, i in st.fds.items():
                self.at(eng, "open", st, "S30.open", f"a descriptor ({i[0]}) stays open after opening the seat failed")
                return False
            for oid, o in st.mem.items():
                if o.kind == "heap" and o.alive:
                    self.at(eng, "open", st, "S30.open", f"{o.tag} is not released after opening the seat failed")
                    return False
            for k in ("~evq", "~ping", "~gone", "~down", "~hostile", "~lost", "~nev", "~npong", "~newping", "~ready", "~eofs"):
                st.mon.pop(k, None)
            eng.count("open_failures")
            return True
        if v.__class__ is not Ptr:
            self.at(eng, "open", st, "S26.result", "opening a seat returns neither a seat nor NULL")
            return False
        eng.count("seats")
        if st.mon.get("~fatal") or st.mon.get("~srverr") is not None or not st.mon.get("~reply"):
            body = st.mem[v.oid].ghost.get("c.body") if v.oid in st.mem else None
            if st.mon.get("~fatal") or body is None or st.eq0(sub(body[1], body[2])) is not True:
                self.at(eng, "open", st, "S26.success", "opening the seat succeeds although the server did not open it")
                return False
        st.mon["seat"] = v
        return self.settle(eng, st, "open")

    def answered(self, eng, st, op, v):
        seat = st.mon["seat"]
        good = st.mon.get("~reply") and not st.mon.get("~fatal") and st.mon.get("~srverr") is None and not st.mon.get("~edown") \
            and st.mon.get("~req")
        fd0 = st.mon.pop("~fd0", None)
        if v.__class__ not in (int, Lin):
            self.at(eng, op, st, "S26.result", f"{op} does not return a number", key=op)
            return False
        fail = st.eq0(add(v, 1)) is True
        if not fail and st.ge0(v) is not True:
            self.at(eng, op, st, "S26.result", f"{op} can return something else than -1 and a non-negative number", key=op)
            return False
        if fail:
            if good and not st.mon.get("~causes") and not st.mon.get("~hostile"):
                self.at(eng, op, st, "S36.refused", f"{op} fails although the server agreed", key=op)
                return False
            if not self.failure(eng, st, op):
                return False
            eng.count("failures")
        else:
            if not good:
                self.at(eng, op, st, "S26.success", f"{op} reports success although the request failed or was not answered", key=op)
                return False
            eng.count("successes")
            want = st.mon.get("~pay", 0) if op == "open_device" else 0
            if st.eq0(sub(v, st.norm(want))) is not True:
                self.at(eng, op, st, "S26.result", f"{op} does not return the server's answer", key=op)
                return False
        if op == "open_device":
            c = st.norm(st.getcell(eng.fdcell, 0, 4))
            got = st.mon.get("~gotfd")
            if fail:
                if st.eq0(sub(c, st.norm(fd0))) is not True:
                    self.at(eng, op, st, "S26.output", "a failing open_device stores a descriptor")
                    return False
            else:
                if got is None or self.fdatom(st, c) is None or st.eq0(sub(c, got)) is not True or self.fdatom(st, c) not in st.fds:
                    self.at(eng, op, st, "S26.output", "open_device succeeds without handing out the descriptor it received")
                    return False
                i = st.fds.pop(self.fdatom(st, c))
                if not i[1]:
                    self.at(eng, op, st, "S19.device", "the descriptor handed to the application is not close-on-exec")
            st.setcell(eng.fdcell, 0, 4, 0)
        return self.settle(eng, st, op)

    def dispatched(self, eng, st, v):
        if v.__class__ not in (int, Lin) or (st.eq0(add(v, 1)) is not True and st.ge0(v) is not True):
            self.at(eng, "dispatch", st, "S26.result", "dispatch returns something else than -1 and a number of messages")
            return False
        fail = st.eq0(add(v, 1)) is True
        if fail:
            if not st.mon.get("~fatal") and not st.mon.get("~causes") and not st.mon.get("~edown") and not self.isdown(st, st.mon["seat"]):
                self.at(eng, "dispatch", st, "S26.spurious", "dispatch fails although nothing went wrong")
                return False
            if not (self.isdown(st, st.mon["seat"]) and not st.mon.get("~fatal") and not st.mon.get("~causes") and not st.mon.get("~edown")):
                if not self.failure(eng, st, "dispatch"):
                    return False
        else:
            if st.mon.get("~edown"):
                self.at(eng, "dispatch", st, "S28.success", "dispatch succeeds on a broken connection")
                return False
            if st.mon.get("~fatal") and not st.mon.get("~delivered"):
                self.at(eng, "dispatch", st, "S35.unnoticed", "dispatch succeeds although the server is gone or misbehaves")
                return False
            if st.mon.get("~delivered") and v == 0:
                self.at(eng, "dispatch", st, "S26.count", "dispatch returns 0 although it delivered an event")
                return False
            if st.mon.get("~gone"):
                eng.count("gone")
        eng.count("dispatches")
        return self.settle(eng, st, "dispatch")

    def closed(self, eng, st, v):
        seat = st.mon.pop("seat")
        good = st.mon.get("~reply") and not st.mon.get("~fatal") and st.mon.get("~srverr") is None and not st.mon.get("~edown")
        fail = st.eq0(add(v, 1)) is True
        if not fail and v != 0:
            self.at(eng, "close", st, "S26.result", "close returns neither 0 nor -1")
            return False
        if fail:
            if not self.failure(eng, st, "close"):
                return False
        elif not good:
            self.at(eng, "close", st, "S26.success", "close reports success although the server did not close the seat")
            return False
        for at, i in st.fds.items():
            self.at(eng, "close", st, "S30.close", f"a descriptor ({i[0]}) stays open after the seat was closed")
            return False
        for oid, o in st.mem.items():
            if o.kind == "heap" and o.alive:
                self.at(eng, "close", st, "S30.close", f"{o.tag} is not released when the seat is closed")
                return False
        for k in ("~evq", "~ping", "~gone", "~down", "~hostile", "~lost", "~nev", "~npong", "~newping", "~ready", "~eofs"):
            st.mon.pop(k, None)
        eng.count("closings")
        return True

    def gotfd(self, eng, st, v):
        seat = st.mon["seat"]
        o, off = self.conn(st, seat)
        fd = st.norm(st.getcell(o, off + self.fd_off, 4))
        if fd == -1:
            if v != -1:
                self.at(eng, "get_fd", st, "S28.fd", "get_fd returns a descriptor although the connection is broken")
                return False
            return self.failure(eng, st, "get_fd")
        if st.eq0(sub(fd, v)) is not True:
            self.at(eng, "get_fd", st, "S27.fd", "get_fd does not return the connection's descriptor")
            return False
        return True

    def named(self, eng, st, v):
        if v.__class__ is not Ptr or v.oid not in st.mem or not st.mem[v.oid].alive or self.terminated(st, v) is None:
            self.at(eng, "name", st, "S29.name", "the seat's name is not a terminated string")
            return False
        eng.count("names")
        return True

    def on_close(self, eng, st, at, info):
        if info[0] != "conn":
            return
        # what is still buffered does not matter any more
        c = self.conn_of(st, None)
        if c is not None:
            st.setg(c, "c.avail", st.fresh(0, self.ring))
            for k in ("c.push", "c.body", "c.frame"):
                st.setg(c, k, None)
            st.setg(c, "c.unsent", 0)
        for k in ("~ping", "~newping", "~ready"):
            st.mon.pop(k, None)
        if "~saved" not in st.mon:
            st.mon["~evq"] = ()

    def on_free(self, eng, st, oid):
        g = st.mem[oid].ghost
        if g.get("c.fdin"):
            eng.report("S30.fds", st, "a connection is released with received descriptors still queued")

    def end(self, eng, st):
        eng.count("operations")
        for k in ("~cb", "~nev", "~ready", "~eofs", "~npong", "~newping"):
            st.mon.pop(k, None)
        seat = st.mon.get("seat")
        if seat is not None:
            o, off = self.conn(st, seat)
            g = st.mem[o].ghost
            if not st.mon.get("~down") and not st.mon.get("~lost"):
                av = self.avail(st, o)
                if st.mon.get("~evq") and st.mon.get("~ping", 0) == 0:
                    self.at(eng, "open_device", st, "S27.wake", "an event stays undelivered and nothing makes the descriptor readable")
                    return []
                if g.get("c.push") is None and st.ge0(sub(3, av)) is not True and not st.mon.get("~gone"):
                    self.at(eng, "open_device", st, "S27.unread", "messages may stay unnoticed in the connection's buffer: nothing makes the "
                            "descriptor readable")
                    return []
            if st.mon.get("~down"):
                st.setg(o, "c.avail", None)
                st.setg(o, "c.push", None)
                st.setg(o, "c.body", None)
                st.setg(o, "c.frame", None)
                st.setg(o, "c.unsent", 0)
                for k in ("~ping", "~lost", "~gone", "~hostile"):
                    st.mon.pop(k, None)
            st.setg(o, "c.last", None)
            st.setg(o, "c.new", 0)
            if not st.mon.get("~down"):
                av = self.avail(st, o)
                if av != 0:
                    st.setg(o, "c.avail", st.fresh(0, 3 if st.ge0(sub(3, av)) is True else self.ring))
            noff, n, _ = self.prog.field("backend_seatd", "seat_name")
            if n == MAXNAME and self.terminated(st, Ptr(o, noff)) is not None:
                # the name is only handed out: keep that it is terminated, forget what it is
                cells = st.w(o).cells
                for c in [c for c in cells if noff <= c < noff + n]:
                    del cells[c]
                st.havoc(o, noff, n - 1)
                st.setcell(o, noff + n - 1, 1, 0)
                for k in ("$strn", "~name"):
                    st.w(o).ghost.pop(k, None)
        self.set_errno(eng, st, 0)
        oids, ats = eng.reachable(st)
        keep = set(oids) | {eng.errno_oid, eng.listener, eng.data, eng.fdcell, eng.cb_en, eng.cb_dis}
        for oid in [q for q in st.mem if q not in keep]:
            ob = st.mem[oid]
            if ob.kind == "heap" and ob.alive:
                self.at(eng, "dispatch", st, "S30.leak", f"{ob.tag} is neither freed nor reachable any more")
                return []
            if not ob.const:
                del st.mem[oid]
        for at, i in st.fds.items():
            if at not in ats:
                self.at(eng, "open_device", st, "S30.fd", f"a descriptor ({i[0]}) is neither closed nor reachable any more")
                return []
        st.memo = {}
        if not self.opts.get("history"):
            st.mon.pop("~hostile", None)
        eng.compact(st)
        st.mon["~root"] = (Ptr(eng.listener, 0), Ptr(eng.fdcell, 0))
        key = eng.canon(st, full=True)
        if key not in eng.seen_ev:
            eng.seen_ev.add(key)
            eng.pending.append((key, st))
        return []

    def resume(self, eng, st):
        return self.ops(eng, st, None, False)


def run_lib(prog, opts):
    m = LibModels(prog, opts)
    for op, src in (("open", "_open_seat"), ("close", "close_seat"), ("open_device", "open_device"), ("close_device", "close_device"),
                    ("disable", "disable_seat"), ("switch", "switch_session"), ("dispatch", "dispatch"), ("get_fd", "get_fd"),
                    ("name", "seat_name")):
        for f in prog.find(src):
            if f.file.endswith("backend/seatd.c"):
                m.impl = dict(m.impl)
                m.impl[op] = f.name
    eng = LibEngine(prog, m, "libseat", opts)
    eng.exit_at = ("", "")
    eng.stop_on = opts.get("stop_on")
    if opts.get("budget"):
        eng.deadline = time.time() + opts["budget"]
    st = eng.initial()
    eng.listener = st.new("ext", "listener", prog.sizeof("libseat_seat_listener"), "zero")
    eng.data = st.new("ext", "user data", 8, "sym")
    eng.fdcell = st.new("ext", "descriptor result", 4, "zero")
    eng.cb_en = st.new("ext", "enable callback", 8, "sym")
    eng.cb_dis = st.new("ext", "disable callback", 8, "sym")
    st.mem[eng.cb_en].ghost["$callback"] = ("cb", "enable")
    st.mem[eng.cb_dis].ghost["$callback"] = ("cb", "disable")
    st.setcell(eng.listener, prog.field("libseat_seat_listener", "enable_seat")[0], 8, Ptr(eng.cb_en, 0))
    st.setcell(eng.listener, prog.field("libseat_seat_listener", "disable_seat")[0], 8, Ptr(eng.cb_dis, 0))
    eng.seen_ev.add(eng.canon(st, full=True))
    eng.pending.append((None, st))
    eng.run([], lambda s, v: None, nproc=opts.get("nproc", 1))
    return eng
