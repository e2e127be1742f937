"""Analysis of the client library with the logind and no-op backends (libseat/backend/logind.c, noop.c): every sequence of API calls,
also from inside the listener, against a bus that delivers any signal at any time, answers or refuses every request, or disappears.
sd-bus and sd-login are modelled by their documented interface; nothing is executed."""
import time
from dom import *
from engine import Engine, AnalysisError, PUSHED
from models import Models, ENOMEM, EINTR, EAGAIN, EINVAL, MAXERR

LOGIND = b"org.freedesktop.login1"
MANAGER = b"/org/freedesktop/login1"
# method -> (object, interface, signature)
METHODS = {
    b"GetSession": ("manager", b"org.freedesktop.login1.Manager", b"s"),
    b"GetSeat": ("manager", b"org.freedesktop.login1.Manager", b"s"),
    b"TakeDevice": ("session", b"org.freedesktop.login1.Session", b"uu"),
    b"ReleaseDevice": ("session", b"org.freedesktop.login1.Session", b"uu"),
    b"PauseDeviceComplete": ("session", b"org.freedesktop.login1.Session", b"uu"),
    b"TakeControl": ("session", b"org.freedesktop.login1.Session", b"b"),
    b"ReleaseControl": ("session", b"org.freedesktop.login1.Session", b""),
    b"SetType": ("session", b"org.freedesktop.login1.Session", b"s"),
    b"SwitchTo": ("seat", b"org.freedesktop.login1.Seat", b"u"),
    b"Ping": ("manager", b"org.freedesktop.DBus.Peer", b""),
}
SIGNALS = {b"PauseDevice": b"org.freedesktop.login1.Session", b"PropertiesChanged": b"org.freedesktop.DBus.Properties"}
SESSION_IF = b"org.freedesktop.login1.Session"
MAIN = {"open": (b"GetSession", b"GetSeat", b"TakeControl"), "open_device": (b"TakeDevice",), "close_device": (b"ReleaseDevice",),
        "switch": (b"SwitchTo",)}
WIDTH = {"b": 4, "u": 4, "i": 4, "h": 4, "s": 8, "o": 8, "g": 8, "x": 8, "t": 8, "d": 8, "y": 1, "q": 2, "n": 2}
POLLIN, POLLERR, POLLHUP = 1, 8, 16
RDEV = 40          # offset of st_rdev in struct stat (x86-64)
PEROP = ("~op", "~stale", "~causes", "~args", "~fd0", "~devs", "~taken", "~done", "~rel", "~delivered", "~eintr", "~timeout", "~pfail",
         "~edead", "~down")
OUTER = ("~handling", "~hfail", "~need")   # of the signal whose handler called the listener


def itemsig(it):
    if it[0] == "a":
        return "a" + it[1]
    if it[0] == "e":
        return "{" + it[1] + "}"
    return it[0]


class BusModels(Models):
    boundary = frozenset(["_logf", "log_init"])

    def __init__(self, prog, opts):
        super().__init__()
        self.prog = prog
        self.opts = opts
        self.backend = opts["backend"]
        self.api = {}
        self.impl = {}
        for k, n in (("open", "libseat_open_seat"), ("close", "libseat_close_seat"), ("open_device", "libseat_open_device"),
                     ("close_device", "libseat_close_device"), ("disable", "libseat_disable_seat"), ("switch", "libseat_switch_session"),
                     ("dispatch", "libseat_dispatch"), ("get_fd", "libseat_get_fd"), ("name", "libseat_seat_name")):
            if n not in prog.funcs:
                raise AnalysisError(f"library function {n} not found")
            self.api[k] = n

    def setup(self, eng, st):
        """the functions of the backend's table, for the location of reports"""
        g = self.backend + "_impl"
        if g not in self.prog.globals:
            raise AnalysisError(f"backend table {g} not found")
        t = eng.global_ptr(st, g)
        for k, s in (("open", "open_seat"), ("close", "close_seat"), ("open_device", "open_device"), ("close_device", "close_device"),
                     ("disable", "disable_seat"), ("switch", "switch_session"), ("dispatch", "dispatch"), ("get_fd", "get_fd"),
                     ("name", "seat_name")):
            v = st.getcell(t.oid, self.prog.field("seat_impl", s)[0], 8)
            if v.__class__ is Fn:
                self.impl[k] = v.name

    # ---- helpers
    def at(self, eng, op, st, kind, msg, key=None):
        n = self.impl.get(op, self.api.get(op))
        f = self.prog.funcs[n]
        eng.exit_at = (f"{eng.short(f.file)}:{f.line}", f.src)
        fr, st.fr = st.fr, None
        eng.report(kind, st, msg, key)
        st.fr = fr
        eng.exit_at = ("", "")

    def cause(self, eng, st, v):
        st.mon["~causes"] = st.mon.get("~causes", ()) + (v,)

    def clobber(self, eng, st):
        self.set_errno(eng, st, st.fresh(0, MAXERR))

    def alloc(self, eng, st, size, fill, what):
        r = Models.alloc(self, eng, st, size, fill, what)
        for s, v in r:
            if v == 0:
                self.cause(eng, s, ENOMEM)
        return r

    def io_fail(self, eng, st, cls="io", ne=()):
        r = Models.io_fail(self, eng, st, cls, ne)
        for s, v in r:
            self.cause(eng, s, s.norm(self.errno(eng, s)))
            s.note(f"{cls} fails")
        return r

    def sdfail(self, eng, st, note, cause=True):
        """(state, -errno) of a failing sd-bus or sd-login call"""
        s = st.copy()
        e = s.fresh(1, MAXERR)
        self.clobber(eng, s)
        if cause:
            self.cause(eng, s, e)
        s.note(note + " fails")
        return s, sub(0, e)

    def obj(self, eng, st, p, kind, what):
        """the sd object p points to, or None"""
        if not eng.check_ptr(st, p, 1, what):
            return None
        if p.off != 0 or st.mem[p.oid].ghost.get("sd") != kind:
            eng.report("S31.handle", st, f"{what} gets something that is not a {kind}")
            return None
        return p.oid

    def newsd(self, st, kind, tag):
        oid = st.new("ext", tag, None, "sym")
        st.setg(oid, "sd", kind)
        st.setg(oid, "rc", 1)
        return oid

    def unref(self, eng, st, oid):
        """drop one reference; True if it was the last"""
        n = st.mem[oid].ghost["rc"] - 1
        st.setg(oid, "rc", n)
        return n == 0

    def put(self, eng, st, p, n, v, what):
        """store a value of exactly n bytes"""
        if p.__class__ is Ptr and p.oid in st.mem and st.mem[p.oid].alive and p.off.__class__ is int:
            o = st.mem[p.oid]
            w = None
            if o.kind == "stack" and o.size.__class__ is int and o.size <= 8:
                w = o.size - p.off
            elif o.kind == "heap":
                for nm, s in self.prog.structs.items():
                    if s[0] == o.size and nm.startswith("backend_"):
                        for fn, (off, sz, _) in s[1].items():
                            if off <= p.off < off + sz:
                                w = sz if off == p.off else -1
            if w is not None and w != n:
                eng.report("S31.width", st, f"{what} stores {n} bytes into an object of {max(w, 0)} bytes")
                return False
        if not eng.check_ptr(st, p, n, what, True):
            return False
        eng.count("stores")
        st.setcell(p.oid, p.off, n, v)
        return True

    def mkstr(self, st, content, tag):
        oid = st.new("ext", tag, None, "sym")
        st.setg(oid, "$str", content)
        return oid

    # ---- errors
    def err_set(self, eng, st, p):
        if p.__class__ is int and p == 0:
            return True
        if not eng.check_ptr(st, p, 24, "error of a bus call", True):
            return False
        v = st.getcell(p.oid, p.off, 8)
        if v is UNDEF:
            eng.report("mem.uninit", st, "a bus call gets an uninitialised error object")
            return False
        if v != 0:
            eng.report("S31.error", st, "a bus call gets an error object that already holds an error")
            return False
        st.setcell(p.oid, p.off, 8, self.extstr(eng, st, "error name"))
        st.setcell(p.oid, p.off + 8, 8, self.extstr(eng, st, "error message"))
        st.setcell(p.oid, p.off + 16, 4, 1)
        if (p.oid, p.off) not in st.mon.get("~errs", ()):
            st.mon["~errs"] = st.mon.get("~errs", ()) + ((p.oid, p.off),)
        return True

    def err_check(self, eng, st, p):
        if p.__class__ is int and p == 0:
            return True
        if not eng.check_ptr(st, p, 24, "error of a bus call", True):
            return False
        v = st.getcell(p.oid, p.off, 8)
        if v is UNDEF:
            eng.report("mem.uninit", st, "a bus call gets an uninitialised error object")
            return False
        if v != 0:
            eng.report("S31.error", st, "a bus call gets an error object that already holds an error")
            return False
        return True

    def f_sd_bus_error_free(self, eng, st, ins, a):
        p = a[0]
        if p.__class__ is int and p == 0:
            return [(st, None)]
        if not eng.check_ptr(st, p, 24, "sd_bus_error_free", True):
            return []
        if st.getcell(p.oid, p.off, 8) is UNDEF:
            eng.report("mem.uninit", st, "an uninitialised error object is released")
            return []
        eng.count("errors_released")
        st.mon["~errs"] = tuple(x for x in st.mon.get("~errs", ()) if x != (p.oid, p.off))
        for o, n in ((0, 8), (8, 8), (16, 4)):
            st.setcell(p.oid, p.off + o, n, 0)
        self.clobber(eng, st)
        return [(st, None)]

    def f_sd_bus_error_is_set(self, eng, st, ins, a):
        if a[0].__class__ is int and a[0] == 0:
            return [(st, 0)]
        if not eng.check_ptr(st, a[0], 24, "sd_bus_error_is_set"):
            return []
        v = st.getcell(a[0].oid, a[0].off, 8)
        if v is UNDEF:
            eng.report("mem.uninit", st, "an uninitialised error object is looked at")
            return []
        return [(st, 0 if v == 0 else 1)]

    # ---- the bus
    def f_sd_bus_default_system(self, eng, st, ins, a, shared=1):
        if not eng.check_ptr(st, a[0], 8, "new bus", True):
            return []
        out = [self.sdfail(eng, st, "opening the bus")]
        self.clobber(eng, st)
        oid = self.newsd(st, "bus", "bus connection")
        st.setg(oid, "shared", shared)
        st.setg(oid, "fd", self.newfd(st, "bus", 1, 1, ()))
        st.setcell(a[0].oid, a[0].off, 8, Ptr(oid, 0))
        eng.count("buses")
        out.append((st, 1))
        return out

    def f_sd_bus_open_system(self, eng, st, ins, a):
        return self.f_sd_bus_default_system(eng, st, ins, a, 0)

    def f_sd_bus_unref(self, eng, st, ins, a):
        if a[0].__class__ is int and a[0] == 0:
            return [(st, 0)]
        oid = self.obj(eng, st, a[0], "bus", "sd_bus_unref")
        if oid is None:
            return []
        self.clobber(eng, st)
        eng.count("bus_releases")
        if self.unref(eng, st, oid):
            g = st.mem[oid].ghost
            at = self.fdatom(st, g["fd"])
            if at not in st.fds:
                eng.report("fd.double", st, "the bus is released after its descriptor was closed by somebody else")
                return []
            del st.fds[at]
            if not g["shared"]:
                st.mon["~slots"] = tuple(x for x in st.mon.get("~slots", ()) if x[3] is not None)
                st.mon.pop("~ping", None)
            st.w(oid).alive = False
        return [(st, 0)]

    f_sd_bus_flush_close_unref = f_sd_bus_unref
    f_sd_bus_close_unref = f_sd_bus_unref

    def f_sd_bus_flush(self, eng, st, ins, a):
        if self.obj(eng, st, a[0], "bus", "sd_bus_flush") is None:
            return []
        s, v = self.sdfail(eng, st, "flushing", False)
        self.clobber(eng, st)
        return [(s, v), (st, 0)]

    def f_sd_bus_get_fd(self, eng, st, ins, a):
        oid = self.obj(eng, st, a[0], "bus", "sd_bus_get_fd")
        if oid is None:
            return []
        s, v = self.sdfail(eng, st, "getting the bus's descriptor")
        s.mon["dead"] = 1
        s.mon["~down"] = 1
        out = [(s, v)]
        if not st.mon.get("dead"):
            self.clobber(eng, st)
            out.append((st, st.norm(st.mem[oid].ghost["fd"])))
        return out

    def queued(self, eng, st, a, vals, what):
        if self.obj(eng, st, a[0], "bus", what) is None:
            return []
        if not eng.check_ptr(st, a[1], 8, what, True):
            return []
        s, v = self.sdfail(eng, st, what, False)
        s.mon["nowake"] = 1
        out = [(s, v)]
        for q in vals:
            y = st.copy()
            self.clobber(eng, y)
            y.setcell(a[1].oid, a[1].off, 8, q)
            out.append((y, 0))
        return out

    def f_sd_bus_get_n_queued_read(self, eng, st, ins, a):
        return self.queued(eng, st, a, [st.mon.get("rq", 0)], "sd_bus_get_n_queued_read")

    def f_sd_bus_get_n_queued_write(self, eng, st, ins, a):
        return self.queued(eng, st, a, [0, 3] if self.opts.get("wq") else [0], "sd_bus_get_n_queued_write")

    # ---- requests
    def types(self, ins, i):
        """type string of the variadic arguments of a call, as passed"""
        r = ""
        for t, _ in ins.a[1][i:]:
            r += {"ptr": "p"}.get(t.k, {32: "4", 64: "8"}.get(t.n, "?") if t.k == "i" else "?")
        return r

    def target(self, eng, st, a, what):
        """destination, object and interface of a call; (member) or None"""
        names = []
        for p, w in ((a[1], "destination"), (a[3], "interface"), (a[4], "member")):
            if not self.check_str(eng, st, p, what + " " + w):
                return None
            names.append(self.cstr(st, p))
        dest, iface, member = names
        if dest != LOGIND:
            eng.report("S31.object", st, f"{what}: the request is not sent to logind")
            return None
        return member, iface

    def onobject(self, eng, st, p, obj, member):
        if p.__class__ is int and p == 0:
            eng.report("S31.object", st, f"{member.decode()} is called on no object")
            return False
        if not self.check_str(eng, st, p, "object path"):
            return False
        c = self.content(st, p)
        want = ("const", MANAGER) if obj == "manager" else ("ext", obj + " path")
        if c != want:
            eng.report("S31.object", st, f"{member.decode()} is not called on the {obj}'s object")
            return False
        return True

    def f_sd_bus_call_method(self, eng, st, ins, a):
        bus = self.obj(eng, st, a[0], "bus", "sd_bus_call_method")
        if bus is None:
            return []
        t = self.target(eng, st, a, "sd_bus_call_method")
        if t is None:
            return []
        member, iface = t
        if member not in METHODS:
            eng.report("S31.object", st, f"logind has no method {(member or b'?').decode()}")
            return []
        obj, want, sig = METHODS[member]
        name = member.decode()
        if iface != want:
            eng.report("S31.object", st, f"{name} is not called on interface {want.decode()}")
            return []
        if not self.onobject(eng, st, a[2], obj, member):
            return []
        if not self.err_check(eng, st, a[5]):
            return []
        rep = a[6]
        if not (rep.__class__ is int and rep == 0) and not eng.check_ptr(st, rep, 8, "reply", True):
            return []
        va = self.variadic(eng, st, ins, a, 7, sig, name)
        if va is None or not self.semantics(eng, st, member, va):
            return []
        eng.count("requests")
        main = member in MAIN.get(st.mon.get("~op"), ())
        s, v = self.sdfail(eng, st, name, main)
        if not self.err_set(eng, s, a[5]):
            return []
        if member == b"ReleaseDevice":
            s.mon["~taken"] = 0          # everything that can be done about it was done
        if rep.__class__ is Ptr:
            s.setcell(rep.oid, rep.off, 8, 0)
        out = [(s, v)]
        if st.mon.get("dead"):
            return out
        self.clobber(eng, st)
        self.succeeded(eng, st, member, va)
        if rep.__class__ is Ptr:
            m = self.newsd(st, "msg", f"reply to {name}")
            body = ()
            if member in (b"GetSession", b"GetSeat"):
                tag = "session path" if member == b"GetSession" else "seat path"
                body = (("o", self.mkstr(st, ("ext", tag), tag)),)
            elif member == b"TakeDevice":
                body = (("h", self.newfd(st, "msgfd", 1, 1, ())), ("b", st.fresh(0, 1)))
            st.setg(m, "cur", (("", body, 0),))
            st.setg(m, "body", body)
            st.setg(m, "reply", name)
            st.setcell(rep.oid, rep.off, 8, Ptr(m, 0))
        st.note(f"{name} succeeds")
        if st.mon.get("rq", 0) + st.mon.get("~nmsg", 0) < self.opts.get("maxev", 1):
            y = st.copy()
            y.mon["rq"] = y.mon.get("rq", 0) + 1
            y.note("a signal is queued while waiting for the reply")
            out.append((y, 1))
        out.append((st, 1))
        return out

    def variadic(self, eng, st, ins, a, i, sig, name):
        """the arguments of a request, checked against its signature"""
        if a[i].__class__ is int and a[i] == 0:
            have = b""
        else:
            if not self.check_str(eng, st, a[i], "signature"):
                return None
            have = self.cstr(st, a[i])
        if have != sig:
            eng.report("S31.signature", st, f"{name} takes '{sig.decode()}' but '{(have or b'?').decode()}' is sent")
            return None
        pas = self.types(ins, i + 1)
        exp = "".join("p" if c in "sog" else "8" if c in "xtd" else "4" for c in sig.decode())
        if pas[:len(exp)] != exp:
            eng.report("S31.signature", st, f"the arguments of {name} do not have the types and the number its signature demands")
            return None
        va = a[i + 1:i + 1 + len(exp)]
        for v, c in zip(va, sig.decode()):
            if v is UNDEF:
                eng.report("mem.uninit", st, f"{name} is sent an uninitialised value")
                return None
            if c in "so" and not self.check_str(eng, st, v, name):
                return None
        eng.count("signatures")
        return va

    def eq(self, st, x, y):
        if x.__class__ not in (int, Lin) or y.__class__ not in (int, Lin):
            return False
        return st.eq0(sub(st.norm(x), st.norm(y))) is True

    def semantics(self, eng, st, member, va):
        """is this the request the current call, or the signal being handled, is about?"""
        m = st.mon
        op = m.get("~op")
        name = member.decode()

        def bad(kind, msg):
            eng.report(kind, st, msg)
            return False
        if member == b"GetSession":
            if self.content(st, va[0]) != m.get("~id", 0):
                return bad("S31.argument", "the session asked for is not the process's session")
        elif member == b"GetSeat":
            if self.content(st, va[0]) != ("ext", "seat name"):
                return bad("S31.argument", "the seat asked for is not the session's seat")
        elif member == b"SetType":
            if self.content(st, va[0]) != m.get("~type", 0):
                return bad("S31.argument", "the session type set is not the one in the environment")
        elif member == b"TakeControl":
            if va[0] != 0:
                return bad("S31.argument", "control of the session is taken by force")
        elif member in (b"TakeDevice", b"ReleaseDevice"):
            if member == b"TakeDevice" and op != "open_device" or op not in ("open_device", "close_device"):
                return bad("S25.request", f"{name} is sent for a call that asks for something else")
            src = "path" if op == "open_device" else "fd"
            d = [x for x in m.get("~devs", ()) if x[3] == src]
            if not any(self.eq(st, va[0], x[1]) and self.eq(st, va[1], x[2]) for x in d):
                return bad("S31.argument", f"{name} is not sent the major and minor number of the device the caller gave")
            if member == b"TakeDevice" and m.get("~taken"):
                return bad("S26.twice", "the same device is taken twice for one call")
            if member == b"ReleaseDevice" and op == "open_device" and not m.get("~taken"):
                return bad("S26.release", "a device is released that was not taken")
        elif member == b"SwitchTo":
            if op != "switch":
                return bad("S25.request", "a switch is requested in a call that asks for something else")
            if m.get("~done"):
                return bad("S26.twice", "the switch is requested twice")
            if not self.eq(st, va[0], m["~args"][0]):
                return bad("S31.argument", "the session switched to is not the one the caller gave")
            if st.ge0(va[0]) is not True:
                return bad("S31.argument", "a negative session number is sent as an unsigned one")
        elif member == b"PauseDeviceComplete":
            h = m.get("~handling")
            if h is None or h[0] != "PauseDevice" or h[1] != "pause":
                return bad("S32.ack", "a pause is acknowledged although no graceful pause is being handled")
            if h[4]:
                return bad("S32.ack", "a pause is acknowledged twice")
            if not (self.eq(st, va[0], h[2]) and self.eq(st, va[1], h[3])):
                return bad("S32.ack", "the pause of another device is acknowledged")
            if m.get("told") != 0:
                return bad("S32.early", "a pause is acknowledged before the application was told that its seat is disabled")
            m["~handling"] = h[:4] + (1,)
            eng.count("acks")
        elif member == b"ReleaseControl":
            m["control"] = 0
            if op != "close" and op != "open":
                return bad("S31.argument", "control of the session is released while the seat stays open")
        elif member == b"Ping":
            return True
        return True

    def succeeded(self, eng, st, member, va):
        m = st.mon
        if member == b"TakeControl":
            m["control"] = 1
        elif member == b"TakeDevice":
            m["~taken"] = 1
        elif member == b"ReleaseDevice":
            m["~taken"] = 0
            if m.get("~op") == "close_device":
                m["~done"] = 1
        elif member == b"SwitchTo":
            m["~done"] = 1

    def f_sd_bus_call_method_async(self, eng, st, ins, a):
        # bus, slot, destination, path, interface, member, callback, userdata, types, ...
        bus = self.obj(eng, st, a[0], "bus", "sd_bus_call_method_async")
        if bus is None:
            return []
        b = [a[0], a[2], a[3], a[4], a[5]]
        t = self.target(eng, st, b, "sd_bus_call_method_async")
        if t is None:
            return []
        member, iface = t
        if member != b"Ping":
            raise AnalysisError("asynchronous request " + str(member))
        if a[3].__class__ is int or not self.check_str(eng, st, a[3], "object path"):
            eng.report("S31.object", st, "Ping is called on no object")
            return []
        if iface is None or not iface.endswith(b"DBus.Peer"):
            eng.report("S31.object", st, "Ping is not called on the peer interface")
            return []
        if self.variadic(eng, st, ins, a, 8, b"", "Ping") is None:
            return []
        s, v = self.sdfail(eng, st, "Ping", False)
        s.mon["nowake"] = 1
        out = [(s, v)]
        if st.mon.get("dead"):
            return out
        self.clobber(eng, st)
        eng.count("pings")
        cb = a[6].name if a[6].__class__ is Fn else None
        slot = None
        if not (a[1].__class__ is int and a[1] == 0):
            if not eng.check_ptr(st, a[1], 8, "slot", True):
                return []
            slot = self.newsd(st, "slot", "slot of a request")
            st.setcell(a[1].oid, a[1].off, 8, Ptr(slot, 0))
        st.mon["~ping"] = (cb, a[7], None if slot is None else Ptr(slot, 0))
        st.note("a ping is sent")
        out.append((st, 1))
        return out

    def f_sd_bus_get_property_trivial(self, eng, st, ins, a):
        # bus, destination, path, interface, member, error, type, ptr
        if self.obj(eng, st, a[0], "bus", "sd_bus_get_property_trivial") is None:
            return []
        t = self.target(eng, st, a, "sd_bus_get_property_trivial")
        if t is None:
            return []
        member, iface = t
        if member != b"Active" or iface != SESSION_IF:
            eng.report("S31.object", st, "the property read is not the session's activity")
            return []
        if not self.onobject(eng, st, a[2], "session", b"Get(Active)") or not self.err_check(eng, st, a[5]):
            return []
        c = a[6]
        if c != ord("b"):
            eng.report("S31.signature", st, "the session's activity is not read as a boolean")
            return []
        if not any(x[0] == "PropertiesChanged" for x in st.mon.get("~slots", ())):
            eng.report("S32.race", st, "the activity of the session is read before changes of it are listened for: a change in between is lost")
            return []
        eng.count("property_reads")
        s, v = self.sdfail(eng, st, "reading the property", st.mon.get("~op") == "open")
        if not self.err_set(eng, s, a[5]):
            return []
        h = s.mon.get("~handling")
        if h is not None:
            s.mon["~hfail"] = 1
        out = [(s, v)]
        if st.mon.get("dead"):
            return out
        for val in (0, 1):
            y = st.copy()
            self.clobber(eng, y)
            if not self.put(eng, y, a[7], 4, val, "reading a boolean property"):
                return out
            y.mon["truth"] = val
            y.mon.pop("~need", None)
            y.note(f"the session is {'active' if val else 'inactive'}")
            out.append((y, 1))
        return out

    # ---- signals
    def f_sd_bus_match_signal(self, eng, st, ins, a):
        # bus, slot, sender, path, interface, member, callback, userdata
        if self.obj(eng, st, a[0], "bus", "sd_bus_match_signal") is None:
            return []
        for p, w in ((a[4], "interface"), (a[5], "member")):
            if not self.check_str(eng, st, p, w):
                return []
        member, iface = self.cstr(st, a[5]), self.cstr(st, a[4])
        if member not in SIGNALS:
            eng.report("S32.match", st, f"a signal {(member or b'?').decode()} that logind does not send is listened for")
            return []
        if iface != SIGNALS[member]:
            eng.report("S32.match", st, f"{member.decode()} is listened for on another interface than the one logind sends it on")
            return []
        if a[2].__class__ is Ptr and self.cstr(st, a[2]) != LOGIND:
            eng.report("S32.match", st, f"{member.decode()} is not listened for from logind")
            return []
        if not self.onobject(eng, st, a[3], "session", member):
            return []
        if a[6].__class__ is not Fn:
            raise AnalysisError("signal handler is not known")
        s, v = self.sdfail(eng, st, "adding a match")
        out = [(s, v)]
        self.clobber(eng, st)
        slot = None
        if not (a[1].__class__ is int and a[1] == 0):
            if not eng.check_ptr(st, a[1], 8, "slot", True):
                return out
            slot = self.newsd(st, "slot", f"match for {member.decode()}")
            st.setcell(a[1].oid, a[1].off, 8, Ptr(slot, 0))
        st.mon["~slots"] = st.mon.get("~slots", ()) + ((member.decode(), a[6].name, a[7], None if slot is None else Ptr(slot, 0)),)
        eng.count("matches")
        out.append((st, 1))
        return out

    def f_sd_bus_slot_unref(self, eng, st, ins, a):
        if a[0].__class__ is int and a[0] == 0:
            return [(st, 0)]
        oid = self.obj(eng, st, a[0], "slot", "sd_bus_slot_unref")
        if oid is None:
            return []
        self.clobber(eng, st)
        if self.unref(eng, st, oid):
            st.mon["~slots"] = tuple(x for x in st.mon.get("~slots", ()) if x[3] != Ptr(oid, 0))
            p = st.mon.get("~ping")
            if p is not None and p[2] == Ptr(oid, 0):
                del st.mon["~ping"]
            st.w(oid).alive = False
        return [(st, 0)]

    # ---- incoming messages
    def newmsg(self, st, tag, body):
        m = self.newsd(st, "msg", tag)
        st.setg(m, "cur", (("", body, 0),))
        st.setg(m, "body", body)
        return m

    def release(self, eng, st, oid):
        """the last reference of a message is gone"""
        def walk(items):
            for it in items:
                if it[0] in ("s", "o"):
                    if it[1] in st.mem:
                        st.w(it[1]).alive = False
                elif it[0] == "h":
                    at = self.fdatom(st, it[1])
                    if at not in st.fds:
                        eng.report("fd.double", st, "a descriptor that belongs to a bus message was closed before the message is released")
                        return False
                    del st.fds[at]
                elif it[0] in ("a", "e", "v"):
                    if not walk(it[2]):
                        return False
            return True
        if not walk(st.mem[oid].ghost["body"]):
            return False
        o = st.w(oid)
        o.alive = False
        o.ghost = {"sd": "msg", "rc": 0}
        return True

    def f_sd_bus_message_unref(self, eng, st, ins, a):
        if a[0].__class__ is int and a[0] == 0:
            return [(st, 0)]
        oid = self.obj(eng, st, a[0], "msg", "sd_bus_message_unref")
        if oid is None:
            return []
        self.clobber(eng, st)
        eng.count("messages_released")
        if self.unref(eng, st, oid):
            if "handled" in st.mem[oid].ghost:
                eng.report("S30.borrowed", st, "a signal handler releases the message that belongs to the bus")
                return []
            if not self.release(eng, st, oid):
                return []
        return [(st, 0)]

    def f_sd_bus_message_ref(self, eng, st, ins, a):
        oid = self.obj(eng, st, a[0], "msg", "sd_bus_message_ref")
        if oid is None:
            return []
        st.setg(oid, "rc", st.mem[oid].ghost["rc"] + 1)
        return [(st, a[0])]

    def rdfail(self, eng, st, what):
        s, v = self.sdfail(eng, st, what, st.mon.get("~handling") is None)
        if s.mon.get("~handling") is not None:
            s.mon["~hfail"] = 1
        return s, v

    def step(self, st, oid, n=1):
        cur = st.mem[oid].ghost["cur"]
        k, items, i = cur[-1]
        st.setg(oid, "cur", cur[:-1] + ((k, items, i + n),))

    def store_item(self, eng, st, it, p, what):
        v = it[1]
        if it[0] in ("s", "o"):
            v = Ptr(v, 0)
        if p.__class__ is int and p == 0:
            return True
        return self.put(eng, st, p, WIDTH[it[0]], v, what)

    def f_sd_bus_message_read(self, eng, st, ins, a):
        oid = self.obj(eng, st, a[0], "msg", "sd_bus_message_read")
        if oid is None or not self.check_str(eng, st, a[1], "signature"):
            return []
        sig = self.cstr(st, a[1])
        if sig is None:
            raise AnalysisError("signature of a read is not constant")
        sig = sig.decode()
        if any(c not in WIDTH for c in sig):
            raise AnalysisError("unsupported signature " + sig)
        eng.count("message_reads")
        s, v = self.rdfail(eng, st, "reading the message")
        out = [(s, v)]
        k, items, i = st.mem[oid].ghost["cur"][-1]
        if k == "a" and i == len(items):
            out.append((st, 0))
            return out
        have = "".join(itemsig(x) for x in items[i:])
        if not have.startswith(sig):
            eng.report("S31.signature", st, f"'{sig}' is read where the message holds '{have}'")
            return out
        if self.types(ins, 2)[:len(sig)] != "p" * len(sig) or len(a) < 2 + len(sig):
            eng.report("S31.signature", st, f"reading '{sig}' does not get one object for each value")
            return out
        for it, p in zip(items[i:], a[2:]):
            if it[0] in "sobuixthg" and not self.store_item(eng, st, it, p, f"reading '{it[0]}'"):
                return out
            if len(a) <= 2:
                break
        self.step(st, oid, len(sig))
        self.clobber(eng, st)
        out.append((st, 1))
        return out

    def f_sd_bus_message_read_basic(self, eng, st, ins, a):
        oid = self.obj(eng, st, a[0], "msg", "sd_bus_message_read_basic")
        if oid is None:
            return []
        if a[1].__class__ is not int:
            raise AnalysisError("type of a read is not constant")
        c = chr(a[1] & 255)
        eng.count("message_reads")
        s, v = self.rdfail(eng, st, "reading the message")
        out = [(s, v)]
        k, items, i = st.mem[oid].ghost["cur"][-1]
        if i == len(items):
            if k == "a":
                self.clobber(eng, st)
                out.append((st, 0))
            else:
                eng.report("S31.signature", st, f"'{c}' is read where nothing is left")
            return out
        it = items[i]
        if it[0] != c:
            eng.report("S31.signature", st, f"'{c}' is read where the message holds '{itemsig(it)}'")
            return out
        if not self.store_item(eng, st, it, a[2], f"reading '{c}'"):
            return out
        self.step(st, oid)
        self.clobber(eng, st)
        out.append((st, 1))
        return out

    def f_sd_bus_message_enter_container(self, eng, st, ins, a):
        oid = self.obj(eng, st, a[0], "msg", "sd_bus_message_enter_container")
        if oid is None:
            return []
        if a[1].__class__ is not int:
            raise AnalysisError("type of a container is not constant")
        c = chr(a[1] & 255)
        want = None
        if a[2].__class__ is Ptr:
            if not self.check_str(eng, st, a[2], "container contents"):
                return []
            want = (self.cstr(st, a[2]) or b"?").decode()
        s, v = self.rdfail(eng, st, "entering the container")
        out = [(s, v)]
        cur = st.mem[oid].ghost["cur"]
        k, items, i = cur[-1]
        if i == len(items):
            if k == "a":
                self.clobber(eng, st)
                out.append((st, 0))
            else:
                eng.report("S31.signature", st, "a container is entered where nothing is left")
            return out
        it = items[i]
        if it[0] != c or (want is not None and it[1] != want):
            eng.report("S31.signature", st, f"'{c}' of '{want}' is entered where the message holds '{itemsig(it)}'")
            return out
        eng.count("containers")
        st.setg(oid, "cur", cur + ((c, it[2], 0),))
        self.clobber(eng, st)
        out.append((st, 1))
        return out

    def f_sd_bus_message_exit_container(self, eng, st, ins, a):
        oid = self.obj(eng, st, a[0], "msg", "sd_bus_message_exit_container")
        if oid is None:
            return []
        s, v = self.rdfail(eng, st, "leaving the container")
        out = [(s, v)]
        cur = st.mem[oid].ghost["cur"]
        if len(cur) == 1:
            eng.report("S31.signature", st, "a container is left where none was entered")
            return out
        k, items, i = cur[-1]
        if i != len(items):
            eng.report("S31.signature", st, "a container is left before everything in it was read")
            return out
        st.setg(oid, "cur", cur[:-1])
        self.step(st, oid)
        self.clobber(eng, st)
        out.append((st, 1))
        return out

    def f_sd_bus_message_skip(self, eng, st, ins, a):
        oid = self.obj(eng, st, a[0], "msg", "sd_bus_message_skip")
        if oid is None:
            return []
        sig = None
        if a[1].__class__ is Ptr:
            if not self.check_str(eng, st, a[1], "signature"):
                return []
            sig = (self.cstr(st, a[1]) or b"?").decode()
        s, v = self.rdfail(eng, st, "skipping")
        out = [(s, v)]
        k, items, i = st.mem[oid].ghost["cur"][-1]
        n, have = 0, ""
        for it in items[i:]:
            n += 1
            have += itemsig(it)
            if sig is None or len(have) >= len(sig):
                break
        if sig is not None and have != sig or n == 0:
            eng.report("S31.signature", st, f"'{sig}' is skipped where the message holds '{have}'")
            return out
        self.step(st, oid, n)
        self.clobber(eng, st)
        out.append((st, 1))
        return out

    def f_sd_bus_message_at_end(self, eng, st, ins, a):
        oid = self.obj(eng, st, a[0], "msg", "sd_bus_message_at_end")
        if oid is None:
            return []
        k, items, i = st.mem[oid].ghost["cur"][-1]
        return [(st, 1 if i == len(items) else 0)]

    def f_sd_bus_message_is_method_error(self, eng, st, ins, a):
        oid = self.obj(eng, st, a[0], "msg", "sd_bus_message_is_method_error")
        if oid is None:
            return []
        return [(st, 1 if st.mem[oid].ghost.get("iserr") else 0)]

    def f_sd_bus_message_get_error(self, eng, st, ins, a):
        oid = self.obj(eng, st, a[0], "msg", "sd_bus_message_get_error")
        if oid is None:
            return []
        if not st.mem[oid].ghost.get("iserr"):
            return [(st, 0)]
        e = st.new("ext", "error of a message", 24, "zero")
        st.setcell(e, 0, 8, self.extstr(eng, st, "error name"))
        st.setcell(e, 8, 8, self.extstr(eng, st, "error message"))
        return [(st, Ptr(e, 0))]

    def bodies(self, st, member):
        """(description, info, state, body) of the messages logind can send"""
        if member == "PauseDevice":
            for t in ("pause", "force", "gone", "?"):
                s = st.copy()
                ma, mi = s.fresh(0, (1 << 32) - 1), s.fresh(0, (1 << 32) - 1)
                c = ("const", t.encode()) if t != "?" else ("atom", s.fresh(0, 1 << 62, kind="str", facts=[
                    ("neqc", b"pause"), ("neqc", b"force"), ("neqc", b"gone")]))
                so = self.mkstr(s, c, "type of the pause")
                yield f"PauseDevice({t})", (member, t, ma, mi, 0), s, (("u", ma), ("u", mi), ("s", so))
            return

        def name(s, x):
            return ("s", self.mkstr(s, ("const", x), "name of a property"))

        def ent(s, x, v=None):
            if v is None:
                var = ("v", "t", (("t", s.fresh(0, 1 << 40)),))
            else:
                var = ("v", "b", (("b", v),))
            return ("e", "sv", (name(s, x), var))
        A, O = b"Active", b"IdleSinceHint"
        lists = [((), ()), (((A, 0),), ()), (((A, 1),), ()), (((O, None), (A, 1)), ()), (((A, 0), (O, None)), ()),
                 ((), (A,)), (((O, None),), (O, A)), ((), (A, O))]
        for d, inv in lists:
            s = st.copy()
            iface = ("s", self.mkstr(s, ("const", SESSION_IF), "interface"))
            body = (iface, ("a", "{sv}", tuple(ent(s, k, v) for k, v in d)), ("a", "s", tuple(name(s, x) for x in inv)))
            for k, v in d:
                if k == A:
                    s.mon["truth"] = v
            if A in inv:
                s.mon["~need"] = 1
            yield f"PropertiesChanged({[k.decode() + ('' if v is None else '=' + str(v)) for k, v in d]}, {[x.decode() for x in inv]})", \
                (member,), s, body
        s = st.copy()
        iface = ("s", self.mkstr(s, ("const", b"org.freedesktop.login1.Other"), "interface"))
        yield "PropertiesChanged(other interface)", (member,), s, (iface, ("a", "{sv}", (ent(s, A, 1 - (s.mon.get("truth") or 0)),)),
                                                                   ("a", "s", ()))

    def f_sd_bus_process(self, eng, st, ins, a):
        if self.obj(eng, st, a[0], "bus", "sd_bus_process") is None:
            return []
        if not (a[1].__class__ is int and a[1] == 0):
            raise AnalysisError("the processed message is asked for")
        m = st.mon
        if m.get("~op") not in ("dispatch",):
            eng.report("S27.when", st, f"bus messages are processed in a {m.get('~op')} call")
            return []
        eng.count("processed")
        out = []
        s, v = self.sdfail(eng, st, "processing the bus")
        s.mon["~pfail"] = 1
        s.mon["dead"] = 1
        out.append((s, v))
        if not m.get("dead"):
            y = s.copy()
            y.mon.pop("dead", None)
            out.append((y, v))
        else:
            return out
        if m.get("rq", 0) == 0:
            y = st.copy()
            self.clobber(eng, y)
            out.append((y, 0))
        p = m.get("~ping")
        if p is not None:
            for err in (0, 1):
                s = st.copy()
                s.mon.pop("~ping")
                s.note("the ping is answered" + (" with an error" if err else ""))
                self.pong(eng, s, ins, p, err, lambda x: [(x, 1)])
                out.append((s, PUSHED))
        if m.get("rq", 0) > 0 or m.get("~nmsg", 0) < self.opts.get("maxev", 1):
            base = st.copy()
            base.mon["rq"] = max(0, m.get("rq", 0) - 1)
            base.mon["~nmsg"] = m.get("~nmsg", 0) + 1
            y = base.copy()
            y.note("an unrelated message is processed")
            self.clobber(eng, y)
            out.append((y, 1))
            for member, fn, ud, slot in m.get("~slots", ()):
                for what, info, s, body in self.bodies(base, member):
                    s.note(f"{what} arrives")
                    mo = self.newmsg(s, what.split("(")[0], body)
                    s.setg(mo, "handled", 1)
                    eo = s.new("ext", "error of a handler", 24, "zero")
                    s.mon["~handling"] = info
                    self.clobber(eng, s)
                    eng.count("signals")

                    def post(x, v, mo=mo, eo=eo):
                        return self.handled(eng, x, v, mo, eo)
                    eng.call(s, fn, [Ptr(mo, 0), ud, Ptr(eo, 0)], ins, post)
                    out.append((s, PUSHED))
        return out

    def pong(self, eng, s, ins, p, err, done):
        cb, ud, slot = p
        if cb is None:
            raise AnalysisError("handler of the ping's reply")
        mo = self.newmsg(s, "reply to Ping", ())
        s.setg(mo, "iserr", err)
        s.setg(mo, "handled", 1)
        eo = s.new("ext", "error of a handler", 24, "zero")
        self.clobber(eng, s)
        eng.count("pongs")

        def post(x, v):
            x.mon["~errs"] = tuple(q for q in x.mon.get("~errs", ()) if q[0] != eo)
            if x.mem[mo].ghost.get("rc") == 1 and not self.release(eng, x, mo):
                return []
            return done(x)
        eng.call(s, cb, [Ptr(mo, 0), ud, Ptr(eo, 0)], ins, post)

    def handled(self, eng, st, v, mo, eo):
        """a signal handler returned"""
        m = st.mon
        h = m.pop("~handling")
        fail = m.pop("~hfail", None)
        need = m.pop("~need", None)
        m["~errs"] = tuple(q for q in m.get("~errs", ()) if q[0] != eo)
        g = st.mem[mo].ghost
        if g["rc"] != 1:
            eng.report("S30.leak", st, "a signal handler keeps a reference to the message it was given")
            return []
        if not self.release(eng, st, mo):
            return []
        if v is UNDEF:
            eng.report("mem.uninit", st, "a signal handler returns an uninitialised value")
            return []
        if h[0] == "PauseDevice":
            if h[1] == "pause" and not h[4] and not fail:
                eng.report("S32.noack", st, "a graceful pause is not acknowledged")
                return []
        elif not fail:
            if need:
                eng.report("S32.unread", st, "the session's activity was invalidated, but its new value is not read")
                return []
        if not fail and m.get("told") is not None and m.get("truth") != m["told"] and not (h[0] == "PauseDevice"):
            eng.report("S32.missed", st, f"the session became {'active' if m.get('truth') else 'inactive'}, but the application is not told")
            return []
        eng.count("handled")
        if fail and m.get("told") is not None:
            # the state could not be read: nothing is known about it any more
            m["truth"] = m["told"]
        return [(st, 1)] if self.new(eng, st, "handler") else []

    def new(self, eng, st, where):
        """False if the same state was reached here before"""
        key = (where, eng.canon(st))
        if key in eng.seen_post:
            eng.stats["merged"] += 1
            return False
        eng.seen_post.add(key)
        return True

    # ---- login
    def login(self, eng, st, p, tag, content, what):
        if not eng.check_ptr(st, p, 8, what, True):
            return []
        out = [self.sdfail(eng, st, what)]
        self.clobber(eng, st)
        oid = st.new("heap", tag, None, "sym")
        st.setg(oid, "$str", content)
        st.setcell(p.oid, p.off, 8, Ptr(oid, 0))
        out.append((st, 0))
        return out

    def f_sd_pid_get_session(self, eng, st, ins, a):
        if a[0] != st.mon.get("~pid", 0) and a[0] != 0:
            eng.report("S31.argument", st, "the session of another process is looked up")
            return []
        out = self.login(eng, st, a[1], "session id", ("ext", "session id"), "sd_pid_get_session")
        for s, v in out:
            if v == 0:
                s.mon["~id"] = ("ext", "session id")
            else:
                # not a reason to fail: the user's session is tried next
                pass
        return out

    def f_sd_uid_get_display(self, eng, st, ins, a):
        if a[0] != st.mon.get("~uid", 0):
            eng.report("S31.argument", st, "the session of another user is looked up")
            return []
        out = self.login(eng, st, a[1], "session id", ("ext", "display session id"), "sd_uid_get_display")
        for s, v in out:
            if v == 0:
                s.mon["~id"] = ("ext", "display session id")
        return out

    def f_getpid(self, eng, st, ins, a):
        st.mon["~pid"] = v = st.fresh(1, 1 << 22)
        return [(st, v)]

    def f_getuid(self, eng, st, ins, a):
        st.mon["~uid"] = v = st.fresh(0, (1 << 32) - 2)
        return [(st, v)]

    def f_sd_session_is_active(self, eng, st, ins, a):
        if not self.check_str(eng, st, a[0], "sd_session_is_active"):
            return []
        out = [self.sdfail(eng, st, "sd_session_is_active")]
        self.clobber(eng, st)
        st.mon["~valid"] = self.content(st, a[0])
        out.append((st, st.fresh(0, 1)))
        return out

    def f_sd_session_get_seat(self, eng, st, ins, a):
        if not self.check_str(eng, st, a[0], "sd_session_get_seat"):
            return []
        c = self.content(st, a[0])
        if c[0] == "atom" and c == st.mon.get("~envid") and c == st.mon.get("~valid"):
            st.mon["~id"] = c
        if c != st.mon.get("~id", 0):
            eng.report("S31.argument", st, "the seat of another session is looked up, or of one that was not checked")
            return []
        return self.login(eng, st, a[1], "seat name", ("ext", "seat name"), "sd_session_get_seat")

    def f_getenv(self, eng, st, ins, a):
        r = Models.f_getenv(self, eng, st, ins, a)
        n = self.cstr(st, a[0])
        for s, v in r:
            if v.__class__ is Ptr and n == b"XDG_SESSION_ID":
                s.mon["~envid"] = self.content(s, v)
            elif v.__class__ is Ptr and n == b"XDG_SESSION_TYPE":
                s.mon["~type"] = self.content(s, v)
        return r

    f_secure_getenv = f_getenv

    # ---- devices
    def statted(self, eng, st, buf, src):
        if not eng.check_ptr(st, buf, 144, "stat", True):
            return False
        st.havoc(buf.oid, buf.off, 144)
        v = st.fresh(0, (1 << 62))
        st.setcell(buf.oid, buf.off + RDEV, 8, v)
        st.mon["~devs"] = st.mon.get("~devs", ()) + ((v, st.fresh(0, (1 << 32) - 1), st.fresh(0, (1 << 32) - 1), src),)
        eng.count("device_numbers")
        return True

    def f_stat(self, eng, st, ins, a):
        if not self.check_str(eng, st, a[0], "stat"):
            return []
        out = self.io_fail(eng, st, "stat")
        src = "path" if st.mon.get("~op") == "open_device" and self.content(st, a[0]) == st.mon["~args"][0] else "?"
        if self.statted(eng, st, a[1], src):
            out.append((st, 0))
        return out

    def f_fstat(self, eng, st, ins, a):
        out = self.io_fail(eng, st, "fstat")
        v = st.norm(a[0])
        if v.__class__ is int and v < 0:
            return out
        src = "fd" if st.mon.get("~op") == "close_device" and self.eq(st, v, st.mon["~args"][0]) else "?"
        if self.statted(eng, st, a[1], src):
            out.append((st, 0))
        return out

    def devnum(self, eng, st, v, k):
        v = st.norm(v)
        for d in st.mon.get("~devs", ()):
            if self.eq(st, v, d[0]):
                return [(st, st.norm(d[k]))]
        return [(st, st.fresh(0, (1 << 32) - 1))]

    def f_gnu_dev_major(self, eng, st, ins, a):
        return self.devnum(eng, st, a[0], 1)

    def f_gnu_dev_minor(self, eng, st, ins, a):
        return self.devnum(eng, st, a[0], 2)

    def opened(self, eng, st, p, fl):
        if self.content(st, p) != (st.mon.get("~args") or (0,))[0]:
            eng.report("S25.argument", st, "the path opened is not the one the caller gave")
            return []
        out = self.io_fail(eng, st, "open")
        fl = fl if fl.__class__ is int else 0
        v = self.newfd(st, "file", 1 if fl & 0o2000000 else 0, 1 if fl & 0o4000 else 0, ())
        out.append((st, v))
        eng.count("opens")
        return out

    def f_socketpair(self, eng, st, ins, a):
        r = Models.f_socketpair(self, eng, st, ins, a)
        t = a[1] if a[1].__class__ is int else 0
        eng.count("sockets")
        if not t & 0o2000000:
            eng.report("S19.socket", st, "a socket pair is inherited by other programs (not close-on-exec)")
        return r

    # ---- waiting
    def f_poll(self, eng, st, ins, a):
        arr, n, to = a
        if st.norm(n) != 1:
            eng.report("S27.poll", st, "something else than the seat's descriptor is waited for")
            return []
        if not eng.check_ptr(st, arr, 8, "poll", True):
            return []
        eng.count("waits")
        fd, ev = st.norm(st.getcell(arr.oid, arr.off, 4)), st.norm(st.getcell(arr.oid, arr.off + 4, 2))
        to = st.norm(to)
        if to.__class__ is int and to >= 1 << 31:
            to -= 1 << 32
        if fd is UNDEF or ev is UNDEF:
            eng.report("mem.uninit", st, "poll on an uninitialised entry")
            return []
        op = st.mon.get("~op")
        block = not (to.__class__ is int and to == 0)
        if st.rng(fd)[0] < 0:
            if block:
                eng.report("S35.hang", st, "an invalid descriptor is waited for, which never becomes readable")
                return []
            st.setcell(arr.oid, arr.off + 6, 2, 0)
            return [(st, 0)]
        if self.use_fd(eng, st, fd, "poll") == "bad":
            return []
        if ev.__class__ is not int or not ev & POLLIN:
            eng.report("S35.poll", st, "input is not waited for")
            return []
        if op == "dispatch":
            t0 = st.mon["~timeout"]
            if t0 == 0 and block:
                eng.report("S27.block", st, "dispatching without a timeout waits")
                return []
            if st.mon.get("~delivered") and block:
                eng.report("S27.block", st, "dispatch waits for more although it already delivered an event")
                return []
            if block and st.eq0(sub(to, t0)) is not True and not st.mon.get("~eintr"):
                eng.report("S27.block", st, "dispatch does not wait for the time the caller allows")
                return []
            if block and st.mon.get("~pfail"):
                eng.report("S35.hang", st, "dispatch waits for a bus that has just failed")
                return []
        elif block:
            eng.report("S27.block", st, f"{op} waits for the seat's descriptor")
            return []
        out = []
        s = st.copy()
        s.mon["~eintr"] = 1
        self.set_errno(eng, s, EINTR)
        s.note("poll is interrupted")
        out.append((s, -1))
        s = self.failed(eng, st, val=ENOMEM, note="poll fails")
        self.cause(eng, s, ENOMEM)
        out.append((s, -1))
        if not (to.__class__ is int and to == -1):
            s = st.copy()
            s.setcell(arr.oid, arr.off + 6, 2, 0)
            s.note("nothing arrives in time")
            out.append((s, 0))
        if self.backend == "noop":
            # nothing ever arrives on the no-op backend's descriptor: an endless wait never ends
            return out
        for r in (POLLIN, POLLHUP, POLLIN | POLLHUP, POLLERR):
            s = st.copy()
            s.setcell(arr.oid, arr.off + 6, 2, r)
            s.note(f"poll reports {r}")
            if r != POLLIN:
                s.mon["dead"] = 1
                s.mon["~down"] = 1
            out.append((s, 1))
        return out

    f_ppoll = f_poll

    # ---- listener
    def callback(self, eng, st, ins, cb, vals):
        which = cb[1]
        m = st.mon
        eng.count("callbacks")
        if m.get("~op") != "dispatch":
            eng.report("S27.when", st, f"the application's {which} callback is called from a {m.get('~op')} call")
            return []
        seat = m.get("seat")
        if len(vals) != 2 or vals[1] != Ptr(eng.data, 0) or vals[0].__class__ is not Ptr or vals[0] != seat:
            eng.report("S27.data", st, "a callback does not get the application's seat and data")
            return []
        val = 1 if which == "enable" else 0
        told = m.get("told")
        if self.backend == "noop":
            if told is not None or val == 0:
                eng.report("S27.invented", st, f"the application's {which} callback is called although nothing changed")
                return []
        elif told is not None and told == val:
            eng.report("S32.same", st, f"the application is told that its seat is {which}d, but it was told so before")
            return []
        else:
            h = m.get("~handling")
            if h is not None and h[0] == "PauseDevice" and h[1] == "pause" and val == 0:
                m["truth"] = 0
            elif h is not None and h[0] == "PauseDevice":
                eng.report("S32.gone", st, f"a device that is {'removed' if h[1] == 'gone' else 'paused'} makes the seat {which}d")
                return []
            if m.get("truth") != val:
                eng.report("S32.wrong", st, f"the application is told that its seat is {which}d, but the session is "
                           f"{'active' if m.get('truth') else 'inactive'}")
                return []
            if m.get("~need"):
                eng.report("S32.wrong", st, f"the application is told that its seat is {which}d before the new state is read")
                return []
        m["told"] = val
        m["~delivered"] = 1
        st.note(f"{which} callback")
        out = [(st.copy(), None)]
        for s, _ in out:
            self.clobber(eng, s)
        if m.get("~cb", 0) > 0:
            m["~cb"] -= 1
            for x in self.ops(eng, st, ins, True):
                out.append((x, PUSHED))
        return out

    # ---- the application
    def ops(self, eng, st, ins, nested):
        seat = st.mon.get("seat")
        out = []

        def go(op, args, fin, margs=None, prep=None):
            s = st.copy()
            saved = tuple((k, s.mon.pop(k)) for k in PEROP + OUTER if k in s.mon)
            if nested:
                s.mon["~saved"] = saved
            e0 = s.fresh(0, MAXERR)
            self.set_errno(eng, s, e0)
            s.mon["~op"] = op
            s.mon["~stale"] = e0
            s.mon["~edead"] = 1 if s.mon.get("dead") else 0
            if margs is not None:
                s.mon["~args"] = margs
            if prep:
                prep(s)
            if not nested:
                s.mon["~cb"] = self.opts.get("nested", 1)
                s.mon["~nmsg"] = 0
            s.note(f"call of libseat_{op}")
            eng.count("api_calls")

            def post(x, v):
                if not fin(x, x.norm(v) if v.__class__ is Lin else v):
                    return []
                for k in PEROP:
                    x.mon.pop(k, None)
                if nested:
                    for k, q in x.mon.pop("~saved", ()):
                        x.mon[k] = q
                    self.clobber(eng, x)
                    return [(x, None)] if self.new(eng, x, "op") else []
                return self.after(eng, x)
            eng.call(s, self.api[op], args, ins, post)
            out.append(s)

        if seat is None:
            go("open", [Ptr(eng.listener, 0), Ptr(eng.data, 0)], lambda x, v: self.opened_seat(eng, x, v))
            return out
        n = st.fresh(-(1 << 31), (1 << 31) - 1)
        go("disable", [seat], lambda x, v: self.answered(eng, x, "disable", v))
        go("switch", [seat, n], lambda x, v: self.answered(eng, x, "switch", v), (n,))
        go("close_device", [seat, n], lambda x, v: self.answered(eng, x, "close_device", v), (n,))

        def prep(s):
            f0 = s.fresh(-(1 << 31), (1 << 31) - 1)
            s.setcell(eng.fdcell, 0, 4, f0)
            s.mon["~fd0"] = f0
        p = self.extstr(eng, st, "device path")
        go("open_device", [seat, p, Ptr(eng.fdcell, 0)], lambda x, v: self.answered(eng, x, "open_device", v), (self.content(st, p), p), prep)
        if not nested:
            for tv in (0, -1, 500):
                def pt(s, tv=tv):
                    s.mon["~timeout"] = tv
                go("dispatch", [seat, tv], lambda x, v: self.dispatched(eng, x, v), None, pt)
            go("close", [seat], lambda x, v: self.closed(eng, x, v))
            go("get_fd", [seat], lambda x, v: self.gotfd(eng, x, v))
            go("name", [seat], lambda x, v: self.named(eng, x, v))
        return out

    def failure(self, eng, st, op):
        e = st.norm(self.errno(eng, st))
        causes = st.mon.get("~causes", ())
        arg = (st.mon.get("~args") or (0,))[0]
        if e.__class__ in (int, Lin) and any(self.eq(st, e, c) for c in causes):
            return True
        if op in ("switch", "close_device") and arg.__class__ in (int, Lin) and st.ge0(sub(-1, st.norm(arg))) is True and e == EINVAL:
            return True
        if self.backend == "noop" and op == "switch" and e.__class__ is int and e > 0:
            return True
        if st.mon.get("~down") and e.__class__ is int and e > 0 and e not in (EAGAIN, EINTR):
            return True
        if e is UNDEF or e == 0 or self.eq(st, e, st.mon["~stale"]):
            self.at(eng, op, st, "S26.errno", f"{op} fails without setting errno", key=op)
        elif causes:
            self.at(eng, op, st, "S26.cause", f"errno is not the error that made {op} fail", key=op)
        else:
            self.at(eng, op, st, "S26.spurious", f"{op} fails although nothing went wrong", key=op)
        return False

    def quiet(self, eng, st, op):
        """what holds after every call"""
        m = st.mon
        if m.get("~errs"):
            self.at(eng, op, st, "S30.leak", f"{op} does not release the error a bus call returned", key=op)
            return False
        for oid, o in st.mem.items():
            if o.ghost.get("sd") == "msg" and o.alive and "handled" not in o.ghost:
                self.at(eng, op, st, "S30.leak", f"{op} does not release the {o.tag}", key=(op, o.tag))
                return False
        return True

    def clear(self, st):
        for k in ("told", "truth", "rq", "dead", "control", "seat", "nowake", "~id", "~envid", "~valid", "~type", "~pid", "~uid", "~nmsg"):
            st.mon.pop(k, None)

    def nothing_left(self, eng, st, op):
        m = st.mon
        what = "the seat was closed" if op == "close" else "opening the seat failed"
        for member, fn, ud, slot in m.get("~slots", ()):
            if ud.__class__ is Ptr and (ud.oid not in st.mem or not st.mem[ud.oid].alive):
                self.at(eng, op, st, "S29.handler", f"the handler for {member} stays registered on the shared bus with the freed seat after {what}")
                return False
        m.pop("~slots", None)
        if m.get("control"):
            self.at(eng, op, st, "S30.control", f"control of the session is not given back after {what}")
            return False
        for at, i in st.fds.items():
            self.at(eng, op, st, "S30." + op, f"a descriptor ({i[0]}) stays open after {what}")
            return False
        for oid, o in st.mem.items():
            if o.alive and (o.kind == "heap" or o.ghost.get("sd") in ("bus", "slot")):
                self.at(eng, op, st, "S30." + op, f"the {o.tag} is not released after {what}", key=(op, o.tag))
                return False
        return True

    def opened_seat(self, eng, st, v):
        if not self.quiet(eng, st, "open"):
            return False
        if v == 0:
            if not self.failure(eng, st, "open") or not self.nothing_left(eng, st, "open"):
                return False
            self.clear(st)
            eng.count("open_failures")
            return True
        if v.__class__ is not Ptr:
            self.at(eng, "open", st, "S26.result", "opening a seat returns neither a seat nor NULL")
            return False
        if self.backend == "logind":
            if not st.mon.get("control"):
                self.at(eng, "open", st, "S26.success", "opening the seat succeeds without control of the session")
                return False
            if st.mon.get("truth") is None:
                self.at(eng, "open", st, "S32.initial", "opening the seat succeeds without knowing whether the session is active")
                return False
            have = {x[0] for x in st.mon.get("~slots", ()) if x[2] == v}
            for s in SIGNALS:
                if s.decode() not in have:
                    self.at(eng, "open", st, "S32.match", f"opening the seat succeeds without listening for {s.decode()}", key=s)
                    return False
        st.mon["seat"] = v
        eng.count("seats")
        return True

    def answered(self, eng, st, op, v):
        m = st.mon
        if not self.quiet(eng, st, op):
            return False
        fd0 = m.pop("~fd0", None)
        if v.__class__ not in (int, Lin):
            self.at(eng, op, st, "S26.result", f"{op} does not return a number", key=op)
            return False
        fail = st.eq0(add(v, 1)) is True
        if not fail and st.ge0(v) is not True:
            self.at(eng, op, st, "S26.result", f"{op} can return something else than -1 and a non-negative number", key=op)
            return False
        if fail:
            if not self.failure(eng, st, op):
                return False
            if m.get("~taken"):
                self.at(eng, op, st, "S30.device", "opening the device fails but the device stays taken")
                return False
            eng.count("failures")
        else:
            eng.count("successes")
            if self.backend == "logind" and op in ("switch", "close_device") and not m.get("~done") or \
                    self.backend == "noop" and op == "switch":
                self.at(eng, op, st, "S26.success", f"{op} reports success although it was not done", key=op)
                return False
            if op != "open_device" and v != 0:
                self.at(eng, op, st, "S26.result", f"{op} does not return 0", key=op)
                return False
        if op == "open_device":
            c = st.norm(st.getcell(eng.fdcell, 0, 4))
            if fail:
                if not self.eq(st, c, fd0):
                    self.at(eng, op, st, "S26.output", "a failing open_device stores a descriptor")
                    return False
            else:
                i = self.fdinfo(st, c)
                if i is None or i[0] not in ("dup", "file") or not self.eq(st, c, v):
                    self.at(eng, op, st, "S26.output", "open_device succeeds without handing out a descriptor of the device that stays open")
                    return False
                if self.backend == "logind" and not m.get("~taken"):
                    self.at(eng, op, st, "S26.success", "open_device succeeds although the device was not taken")
                    return False
                if not i[1]:
                    self.at(eng, op, st, "S19.device", "the descriptor handed to the application is not close-on-exec")
                    return False
                del st.fds[self.fdatom(st, c)]
                eng.count("devices")
            st.setcell(eng.fdcell, 0, 4, 0)
        return True

    def dispatched(self, eng, st, v):
        m = st.mon
        if not self.quiet(eng, st, "dispatch"):
            return False
        if v.__class__ not in (int, Lin) or (st.eq0(add(v, 1)) is not True and st.ge0(v) is not True):
            self.at(eng, "dispatch", st, "S26.result", "dispatch returns something else than -1 and a number of messages")
            return False
        fail = st.eq0(add(v, 1)) is True
        if fail:
            if not self.failure(eng, st, "dispatch"):
                return False
        else:
            if m.get("told") is None:
                self.at(eng, "dispatch", st, "S32.initial" if self.backend == "logind" else "S27.initial",
                        "the first dispatch does not report the initial state of the seat")
                return False
            if m.get("~delivered") and st.ge0(add(v, -1)) is not True:
                self.at(eng, "dispatch", st, "S26.count", "dispatch returns 0 although it delivered an event")
                return False
            if (m.get("~pfail") or m.get("~edead") or m.get("~down")) and not m.get("~delivered"):
                self.at(eng, "dispatch", st, "S35.unnoticed", "dispatch succeeds although the bus failed")
                return False
        eng.count("dispatches")
        return True

    def closed(self, eng, st, v):
        if not self.quiet(eng, st, "close"):
            return False
        st.mon.pop("seat")
        if v != 0 and not (st.eq0(add(v, 1)) is True and self.failure(eng, st, "close")):
            self.at(eng, "close", st, "S26.result", "close returns neither 0 nor -1")
            return False
        if not self.nothing_left(eng, st, "close"):
            return False
        self.clear(st)
        eng.count("closings")
        return True

    def gotfd(self, eng, st, v):
        if self.backend == "noop":
            i = self.fdinfo(st, v)
            if i is None:
                self.at(eng, "get_fd", st, "S27.fd", "get_fd does not return a descriptor of the seat")
                return False
            return True
        if st.eq0(add(v, 1)) is True if v.__class__ in (int, Lin) else False:
            return self.failure(eng, st, "get_fd")
        i = self.fdinfo(st, v)
        if i is None or i[0] != "bus":
            self.at(eng, "get_fd", st, "S27.fd", "get_fd does not return the bus's descriptor")
            return False
        return True

    def named(self, eng, st, v):
        if v.__class__ is not Ptr or v.oid not in st.mem or not st.mem[v.oid].alive or self.terminated(st, v) is None:
            self.at(eng, "name", st, "S29.name", "the seat's name is not a terminated string")
            return False
        if self.backend == "logind" and self.content(st, v) != ("ext", "seat name"):
            self.at(eng, "name", st, "S25.name", "the seat's name is not the one logind gave")
            return False
        eng.count("names")
        return True

    def after(self, eng, st):
        p = st.mon.get("~ping")
        if st.mon.get("seat") is None and p is not None:
            # the shared bus answers the ping after the seat is gone
            out = []
            for err in (0, 1):
                s = st.copy()
                s.mon.pop("~ping")
                s.mon["~op"] = "close"
                s.note("the ping is answered after the seat was closed")
                self.pong(eng, s, None, p, err, lambda x: self.end(eng, x))
                out.append((s, PUSHED))
            return out
        return self.end(eng, st)

    def end(self, eng, st):
        m = st.mon
        eng.count("operations")
        for k in ("~cb", "~nmsg", "~op"):
            m.pop(k, None)
        seat = m.get("seat")
        if seat is not None and m.get("rq", 0) > 0 and m.get("~ping") is None and not m.get("dead") and not m.get("nowake"):
            self.at(eng, "open_device", st, "S27.wake", "a signal is queued and nothing makes the descriptor readable")
            return []
        if not m.get("rq"):
            m.pop("nowake", None)
        self.set_errno(eng, st, 0)
        oids, ats = eng.reachable(st)
        keep = set(oids) | {eng.errno_oid, eng.listener, eng.data, eng.fdcell, eng.cb_en, eng.cb_dis}
        for oid in [q for q in st.mem if q not in keep]:
            ob = st.mem[oid]
            if ob.alive and (ob.kind == "heap" or ob.ghost.get("sd") in ("bus", "slot")):
                self.at(eng, "dispatch", st, "S30.leak", f"the {ob.tag} is neither released nor reachable any more", key=ob.tag)
                return []
            if not ob.const:
                del st.mem[oid]
        for at, i in st.fds.items():
            if at not in ats:
                self.at(eng, "open_device", st, "S30.fd", f"a descriptor ({i[0]}) is neither closed nor reachable any more", key=i[0])
                return []
        if not m.get("~errs"):
            m.pop("~errs", None)
        st.memo = {}
        eng.compact(st)
        m["~root"] = (Ptr(eng.listener, 0), Ptr(eng.fdcell, 0))
        key = eng.canon(st, full=True)
        if key not in eng.seen_ev:
            eng.seen_ev.add(key)
            eng.pending.append((key, st))
        return []

    def resume(self, eng, st):
        return self.ops(eng, st, None, False)


def run_bus(prog, opts):
    m = BusModels(prog, opts)
    eng = Engine(prog, m, "libseat-" + opts["backend"], opts)
    eng.exit_at = ("", "")
    eng.seen_post = set()
    eng.stop_on = opts.get("stop_on")
    if opts.get("budget"):
        eng.deadline = time.time() + opts["budget"]
    st = eng.initial()
    m.setup(eng, st)
    eng.listener = st.new("ext", "listener", prog.sizeof("libseat_seat_listener"), "zero")
    eng.data = st.new("ext", "user data", 8, "sym")
    eng.fdcell = st.new("ext", "descriptor result", 4, "zero")
    eng.cb_en = st.new("ext", "enable callback", 8, "sym")
    eng.cb_dis = st.new("ext", "disable callback", 8, "sym")
    st.mem[eng.cb_en].ghost["$callback"] = ("cb", "enable")
    st.mem[eng.cb_dis].ghost["$callback"] = ("cb", "disable")
    st.setcell(eng.listener, prog.field("libseat_seat_listener", "enable_seat")[0], 8, Ptr(eng.cb_en, 0))
    st.setcell(eng.listener, prog.field("libseat_seat_listener", "disable_seat")[0], 8, Ptr(eng.cb_dis, 0))
    eng.seen_ev.add(eng.canon(st, full=True))
    eng.pending.append((None, st))
    eng.run([], lambda s, v: None, nproc=opts.get("nproc", 1))
    return eng
