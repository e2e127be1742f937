"""Analysis of the daemon's start and end: main() with every command line, every state of the socket path and every outcome of
every system call; typestate of the socket file, the listening socket and the readiness descriptor."""
from dom import *
from engine import Engine, AnalysisError
from models import MAXERR, ENOENT
from server import ServerModels
from launch import LaunchModels

# names of the log levels and some that are none
LEVELS = {"silent": 0, "error": 1, "info": 2, "debug": 3, "": None, "debugx": None, "inf": None, "Error": None}
S_IFSOCK = 0o140000


class StartModels(ServerModels):
    def __init__(self, prog, defs):
        ServerModels.__init__(self, prog)
        self.defs = defs

    prog_global = LaunchModels.prog_global

    def f_getopt(self, eng, st, ins, a):
        out = []
        for s, v in LaunchModels.f_getopt(self, eng, st, ins, a):
            if v != ord("l"):
                out.append((s, v))
                continue
            p = self.prog_global(eng, s, "optarg")
            for lvl in LEVELS:
                x = s.copy()
                q = self.extstr(eng, x, "level " + lvl)
                x.mem[q.oid].ghost["$str"] = ("const", lvl.encode())
                x.setcell(p.oid, 0, 8, q)
                x.mon["~lvl"] = lvl
                out.append((x, v))
        return out

    def f_libseat_set_log_level(self, eng, st, ins, a):
        st.mon["~level"] = st.norm(a[0])
        return [(st, None)]

    def argstr(self, eng, s, c):
        return self.extstr(eng, s, "argument of -" + c)

    def mark(self, st):
        st.mon["~failed"] = 1
        return st

    def f_atoi(self, eng, st, ins, a):
        r = ServerModels.f_atoi(self, eng, st, ins, a)
        out = []
        for s, v in r:
            s.mon["~readyfd"] = v
            n = s.copy()
            if n.assume_ge0(sub(-1, v)):
                self.mark(n)
                out.append((n, n.norm(v)))
            if s.assume_ge0(s.norm(v)):
                out.append((s, s.norm(v)))
        return out

    def f_strtol(self, eng, st, ins, a):
        if a[1].__class__ is Ptr:
            p = st.new("ext", "rest of the number", None, "sym")
            st.mem[p].ghost["$str"] = ("ext", "rest")
            st.setcell(a[1].oid, a[1].off, 8, Ptr(p, 0))
        return self.f_atoi(eng, st, ins, a)

    def who(self, eng, st, k):
        eng.count("lookups")
        f = self.mark(st.copy())
        oid = st.new("ext", "entry of " + k, 64, "sym")
        st.mem[oid].ghost["~who"] = k
        v = st.fresh(0, (1 << 32) - 2)
        # uid and gid of struct passwd, gid of struct group
        st.setcell(oid, 16, 4, v)
        if k == "user":
            st.setcell(oid, 20, 4, st.fresh(0, (1 << 32) - 2))
        st.mon["~want" + k] = v
        return [(f, 0), (st, Ptr(oid, 0))]

    def f_getpwnam(self, eng, st, ins, a):
        return self.who(eng, st, "user") if self.check_str(eng, st, a[0], "getpwnam") else []

    def f_getgrnam(self, eng, st, ins, a):
        return self.who(eng, st, "group") if self.check_str(eng, st, a[0], "getgrnam") else []

    # ---- the socket path
    def path(self, eng, st, p):
        return self.cstr(st, p) == self.defs["SEATD_DEFAULTPATH"].encode()

    def state(self, st):
        """None unknown, 'absent', 'socket', 'other', 'ours'"""
        return st.mon.get("~path")

    def f_lstat(self, eng, st, ins, a):
        if not self.check_str(eng, st, a[0], "lstat") or not eng.check_ptr(st, a[1], 144, "lstat", True):
            return []
        eng.count("stats")
        if not self.path(eng, st, a[0]):
            eng.report("S22.path", st, "something else than the socket path is examined")
        st.havoc(a[1].oid, a[1].off, 144)
        out = []
        for k in ("absent", "socket", "other") if self.state(st) is None else (self.state(st),):
            s = st.copy()
            if k == "absent":
                self.set_errno(eng, s, ENOENT)
                s.mon["~path"] = k
                s.mon["~seen"] = k
                out.append((s, -1))
                continue
            for t in ((0o14,) if k in ("socket", "ours") else (0o1, 0o2, 0o4, 0o6, 0o10, 0o12)):
                x = s.copy()
                x.mon["~path"] = k
                x.mon["~seen"] = k
                x.note("the socket path holds " + {"socket": "a socket", "ours": "the server's socket", "other": "something else"}[k])
                x.setcell(a[1].oid, a[1].off + 24, 4, (t << 12) | 0o755)
                out.append((x, 0))
        return out

    def f_stat(self, eng, st, ins, a):
        eng.report("S22.follow", st, "a symbolic link at the socket path is followed")
        return self.f_lstat(eng, st, ins, a)

    def f_unlink(self, eng, st, ins, a):
        if not self.check_str(eng, st, a[0], "unlink"):
            return []
        eng.count("unlinks")
        if not self.path(eng, st, a[0]):
            eng.report("S22.unlink", st, "something else than the socket is removed")
            return []
        k = st.mon.get("~seen")
        if self.state(st) != "ours":
            if k is None or k == "other":
                eng.report("S22.unlink", st, "whatever occupies the socket path is removed although it is not known to be a socket")
                return []
            if st.mon.get("~flag_z"):
                eng.report("S22.launcher", st, "an existing socket is removed in launcher mode")
                return []
        out = []
        s = st.copy()
        self.set_errno(eng, s, s.fresh(1, MAXERR))
        if self.state(st) == "ours":
            s.mon["~tried"] = 1
            out.append((s, -1))
        else:
            out.append((self.mark(s), -1))
        st.mon["~path"] = "absent"
        st.mon["~seen"] = "absent"
        out.append((st, 0))
        return out

    f_remove = f_unlink

    def f_rename(self, eng, st, ins, a):
        eng.report("S22.unlink", st, "a file is renamed")
        return [(st, st.fresh(-1, 0))]

    def f_bind(self, eng, st, ins, a):
        i = self.use_fd(eng, st, a[0], "bind")
        if i == "bad":
            return self.bad(eng, st)
        if not eng.check_ptr(st, a[1], a[2], "bind address"):
            return []
        eng.count("binds")
        c = self.cstr(st, Ptr(a[1].oid, add(a[1].off, 2))) if a[1].__class__ is Ptr else None
        if c is not None and c != self.defs["SEATD_DEFAULTPATH"].encode():
            eng.report("S22.path", st, "the socket is created at another path")
        eng.count("bind_paths", 1 if c is not None else 0)
        k = self.state(st)
        if k is None:
            eng.report("S22.unchecked", st, "the socket is created without having looked at what is at its path")
        elif k in ("socket", "other"):
            eng.report("S22.occupied", st, "the server goes on although its socket path is occupied" +
                       (" by something that is not a socket" if k == "other" else ""))
            return []
        f = st.copy()
        self.set_errno(eng, f, f.fresh(1, MAXERR))
        self.mark(f)
        f.note("bind fails")
        st.mon["~path"] = "ours"
        st.mon["~seen"] = "ours"
        return [(f, -1), (st, 0)]

    def f_listen(self, eng, st, ins, a):
        out = []
        for s, v in ServerModels.f_listen(self, eng, st, ins, a):
            if v == -1:
                self.mark(s)
                s.note("listen fails")
            else:
                eng.count("listens")
                if self.state(s) != "ours":
                    eng.report("S22.listen", s, "a socket that was not bound listens")
                s.mon["~listen"] = 1
            out.append((s, v))
        return out

    def f_chmod(self, eng, st, ins, a):
        if not self.check_str(eng, st, a[0], "chmod"):
            return []
        eng.count("chmods")
        if not self.path(eng, st, a[0]) or self.state(st) != "ours":
            eng.report("S22.other", st, "the mode of something else than the server's socket is changed")
        m = st.norm(a[1])
        if m.__class__ is not int or m & 0o7 or m & 0o7000:
            eng.report("S22.mode", st, "the socket's mode is not restricted to its owner and group")
        elif m & 0o660 != 0o660:
            eng.report("S22.mode", st, "the socket's owner or group cannot use it")
        else:
            if st.mon.get("~chown"):
                eng.report("S22.order", st, "the socket's owner is changed before its mode was restricted")
        f = self.mark(st.copy())
        self.set_errno(eng, f, f.fresh(1, MAXERR))
        f.note("chmod fails")
        st.mon["~chmod"] = 1
        return [(f, -1), (st, 0)]

    def f_fchmod(self, eng, st, ins, a):
        return [(self.mark(self.failed(eng, st)), -1), (st, 0)]

    def f_chown(self, eng, st, ins, a):
        if not self.check_str(eng, st, a[0], "chown"):
            return []
        eng.count("chowns")
        if not self.path(eng, st, a[0]) or self.state(st) != "ours":
            eng.report("S22.other", st, "the owner of something else than the server's socket is changed")
        if not st.mon.get("~chmod"):
            eng.report("S22.order", st, "the socket's owner is changed before its mode was restricted")
        for v, k in ((a[1], "user"), (a[2], "group")):
            w = st.mon.get("~want" + k)
            v = st.norm(v)
            if w is None:
                if v.__class__ is not int or v & 0xffffffff != 0xffffffff:
                    eng.report("S22.owner", st, f"the socket's {k} is changed although none was given")
            else:
                d = st.norm(sub(v, w))
                if not (st.eq0(d) is True or st.eq0(add(d, 1 << 32)) is True or self.same32(st, v, w)):
                    eng.report("S22.owner", st, f"the socket is not given to the {k} asked for")
        f = self.mark(st.copy())
        self.set_errno(eng, f, f.fresh(1, MAXERR))
        f.note("chown fails")
        st.mon["~chown"] = 1
        return [(f, -1), (st, 0)]

    f_lchown = f_chown

    def same32(self, st, v, w):
        d = st.norm(sub(v, w))
        lo, hi = st.rng(d)
        return all(st.eq0(add(d, -k * (1 << 32))) is not False for k in (0,)) and d.__class__ is int and d % (1 << 32) == 0

    # ---- readiness
    def f_write(self, eng, st, ins, a):
        w = st.mon.get("~readyfd")
        v = st.norm(a[0])
        if w is not None and st.eq0(sub(v, w)) is True:
            eng.count("notifications")
            if st.mon.get("~notified"):
                eng.report("S22.twice", st, "readiness is notified twice")
            if not st.mon.get("~listen"):
                eng.report("S22.early", st, "readiness is notified before the server listens")
            if not self.watched(st):
                eng.report("S22.early", st, "readiness is notified before the server watches its socket")
            if (st.mon.get("~wantuser") is not None or st.mon.get("~wantgroup") is not None) and not (st.mon.get("~chmod") and st.mon.get("~chown")):
                eng.report("S22.early", st, "readiness is notified before the socket was given to its owner")
            if st.norm(a[2]) == 0:
                eng.report("S22.empty", st, "the notification is empty")
            st.mon["~notified"] = 1
            f = st.copy()
            self.set_errno(eng, f, f.fresh(1, MAXERR))
            return [(f, -1), (st, a[2])]
        if v.__class__ is int and v in (1, 2):
            return [(st, a[2])]
        eng.report("S22.stray", st, "something is written to a descriptor that is not the readiness descriptor")
        return [(st, st.fresh(-1, 1))]

    def close_other(self, eng, st, v):
        w = st.mon.get("~readyfd")
        if w is not None and st.eq0(sub(st.norm(v), w)) is True:
            if not st.mon.get("~notified"):
                eng.report("S22.noready", st, "the readiness descriptor is closed without a notification")
            if st.mon.get("~rclosed"):
                eng.report("S22.twice", st, "the readiness descriptor is closed twice")
            st.mon["~rclosed"] = 1
            return [(st, 0)]
        return ServerModels.close_other(self, eng, st, v)

    def watched(self, st):
        for q in st.mon.get("sources", ()):
            v = st.g(q.oid, "fd")
            i = self.fdinfo(st, v) if v is not None else None
            if i is not None and i[0] == "listen":
                return True
        return False

    def f_poller_add_fd(self, eng, st, ins, a):
        out = []
        for s, v in ServerModels.f_poller_add_fd(self, eng, st, ins, a):
            if v == 0:
                self.mark(s)
            out.append((s, v))
        return out

    def f_poller_init(self, eng, st, ins, a):
        return [(self.mark(s) if v == -1 else s, v) for s, v in ServerModels.f_poller_init(self, eng, st, ins, a)]

    def f_poller_poll(self, eng, st, ins, a):
        if not st.mon.get("~polled"):
            eng.count("started")
            st.mon["~polled"] = 1
            lvl = st.mon.get("~lvl")
            if lvl is not None:
                eng.count("levels")
                if LEVELS[lvl] is None:
                    eng.report("S33.option", st, f"the server runs although the log level asked for ('{lvl}') does not exist")
                elif st.mon.get("~level") != LEVELS[lvl]:
                    eng.report("S33.option", st, f"the log level '{lvl}' asked for is not the one that is set")
            if not self.watched(st) or not st.mon.get("~listen"):
                eng.report("S22.deaf", st, "the server runs without listening for clients")
            if st.mon.get("~readyfd") is not None and not st.mon.get("~notified"):
                eng.report("S22.noready", st, "the server runs without having notified readiness")
            if (st.mon.get("~wantuser") is not None or st.mon.get("~wantgroup") is not None) and not (st.mon.get("~chmod") and st.mon.get("~chown")):
                eng.report("S22.unrestricted", st, "the server runs although the socket was not given to its owner")
        return ServerModels.f_poller_poll(self, eng, st, ins, a)


class Exit:
    def __init__(self, m, eng):
        self.m, self.eng = m, eng

    def __call__(self, st, v):
        eng, m = self.eng, self.m
        eng.count("exits")
        code = st.norm(v[1] if v.__class__ is tuple else v)
        zero = st.eq0(code)
        if m.state(st) == "ours" and not st.mon.get("~tried"):
            eng.report("S22.leftover", st, "the server exits and leaves its socket behind")
        if zero is not False and (st.mon.get("~failed") or st.mon.get("~why") == "poll"):
            eng.report("S22.success", st, "the server exits successfully although something failed")
        if zero is not False and not st.mon.get("~info") and not st.mon.get("~polled"):
            eng.report("S22.success", st, "the server exits successfully without having started")
        for oid, o in st.mem.items():
            if o.kind == "heap" and o.alive:
                eng.report("S18.startleak", st, f"{o.tag} is not released when the server stops", key=o.tag)


def run_startup(prog, defs, opts):
    m = StartModels(prog, defs)
    m.final = None
    opts = dict(opts, startup_only=1)
    eng = Engine(prog, m, "startup", opts)
    eng.stop_on = opts.get("stop_on")
    st = eng.initial()
    main = prog.find("main")
    if len(main) != 1:
        raise AnalysisError("main not found")
    argv = st.new("ext", "argv", None, "sym")
    arg0 = m.extstr(eng, st, "argv[0]")
    st.setcell(argv, 0, 8, arg0)
    eng.call(st, main[0].name, [st.fresh(1, 1 << 20), Ptr(argv, 0)])
    eng.run([st], Exit(m, eng))
    return eng
