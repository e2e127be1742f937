"""Analysis of seatd-launch: main() interpreted over every outcome of every system call; typestate of the daemon child, the
command child, the privileges, the socket's ownership and the readiness pipe."""
import time
from dom import *
from engine import Engine, AnalysisError
from models import Models, EINTR, ENOENT, EINVAL, MAXERR

ECHILD = 10
WNOHANG = 1
EPERM, EACCES, ENOMEM, EAGAIN, EFAULT, EIO = 1, 13, 12, 11, 14, 5


class LaunchModels(Models):
    def __init__(self, prog, defs):
        super().__init__()
        self.prog = prog
        self.defs = defs

    def anyerr(self, eng, st, vals):
        out = []
        for e in vals:
            s = st.copy()
            self.set_errno(eng, s, e)
            s.mon["~failed"] = 1
            out.append(s)
        return out

    def role(self, st):
        return st.mon.get("~role", "launcher")

    # ---- options
    def f_getopt(self, eng, st, ins, a):
        out = []
        spec = self.cstr(st, a[2])
        if spec is None:
            raise AnalysisError("getopt option string is not constant")
        eng.count("getopts")
        g = self.prog_global(eng, st, "optind")
        if g is not None:
            st.setcell(g.oid, 0, 4, st.fresh(1, 1 << 20))
        opts = [c for c in spec.decode() if c not in ":+-"] + ["?"]
        for c in opts:
            s = st.copy()
            i = spec.decode().find(c)
            if c != "?" and spec.decode()[i + 1:i + 2] == ":":
                p = self.prog_global(eng, s, "optarg")
                if p is not None:
                    s.setcell(p.oid, 0, 8, self.argstr(eng, s, c))
            s.mon["~flag_" + c] = 1
            if c == "l":
                s.mon["~lvl"] = 1
            if c in "vh":
                s.mon["~info"] = 1
            if c == "?":
                s.mon["~failed"] = 1
            out.append((s, ord(c)))
        out.append((st, -1))
        return out

    def argstr(self, eng, s, c):
        if c == "l":
            p = self.extstr(eng, s, "argument of -l")
            s.mem[p.oid].ghost["$str"] = ("const", b"silent")
            return p
        return self.extstr(eng, s, "argument of -" + c)

    def prog_global(self, eng, st, name):
        try:
            return eng.global_ptr(st, name)
        except KeyError:
            return None

    # ---- processes
    def f_fork(self, eng, st, ins, a):
        eng.count("forks")
        out = []
        for s in self.anyerr(eng, st, [EAGAIN]):
            out.append((s, -1))
        if self.role(st) != "launcher":
            eng.report("S24.fork", st, "a child process forks again")
            return out
        p = st.copy()
        c = st
        n = p.mon.get("~nchild", 0) + 1
        pid = p.fresh(2, (1 << 22), kind="pid")
        p.mon["~nchild"] = n
        p.mon["~pid%d" % n] = pid
        p.note(f"child {n} is forked")
        out.append((p, pid))
        c.mon["~role"] = "child"
        c.mon["~cn"] = n
        c.note(f"in child {n}")
        out.append((c, 0))
        return out

    f_vfork = f_fork

    def exec(self, eng, st, path, argv, envp, search):
        if self.role(st) != "child":
            eng.report("S24.exec", st, "the launcher itself is replaced by another program, nothing stops the daemon")
            return
        inst = self.defs["SEATD_INSTALLPATH"].encode()
        p = self.cstr(st, path)
        if p is not None and p == inst:
            eng.count("daemon_execs")
            st.mon["~what"] = "daemon"
            if search:
                eng.report("S23.path", st, "the daemon is searched in PATH")
            if envp is None:
                eng.report("S23.env", st, "the daemon inherits the environment")
            else:
                if not eng.check_ptr(st, envp, 8, "environment of the daemon"):
                    return
                e = st.getcell(envp.oid, envp.off, 8)
                if e is UNDEF:
                    eng.report("mem.uninit", st, "uninitialised environment")
                elif e != 0:
                    eng.report("S23.env", st, "the daemon is not started with an empty environment")
            args = self.args(eng, st, argv)
            if args is None:
                return
            if st.mon.get("~cn") != 1:
                eng.report("S23.first", st, "the daemon is not the first program that is started")
            v = [self.content(st, x) for x in args]
            if ("const", b"-z") not in v:
                eng.report("S23.launchermode", st, "the daemon is not told that it runs under the launcher (-z)")
            if st.mon.get("~lvl"):
                eng.count("levels")
                i = [j for j, x in enumerate(v) if x == ("const", b"-l")]
                if not i or i[-1] + 1 >= len(v) or v[i[-1] + 1] != ("const", b"silent"):
                    eng.report("S33.option", st, "the daemon does not get the log level the launcher was given")
            if ("const", b"-n") not in v or v.index(("const", b"-n")) + 1 >= len(v):
                eng.report("S24.noready", st, "the daemon is not told where to notify readiness")
            else:
                c = v[v.index(("const", b"-n")) + 1]
                ok = False
                if c is not None and c[0] == "fmt" and c[1] == b"%d" and len(c[2]) == 1:
                    at = self.fdatom(st, c[2][0])
                    i = st.fds.get(at) if at is not None else None
                    if i is None:
                        eng.report("S24.noready", st, "the daemon's readiness descriptor is closed before it is started")
                        return
                    if i[1]:
                        eng.report("S24.noready", st, "the daemon's readiness descriptor does not survive exec")
                    ok = i[0] == "pipew"
                if not ok:
                    eng.report("S24.noready", st, "the daemon is not given the write end of the readiness pipe")
            return
        # anything else is the command
        eng.count("command_execs")
        st.mon["~what"] = "command"
        if path.__class__ is Ptr and (st.mem[path.oid].const):
            eng.report("S23.path", st, f"something else than the daemon or the command is executed: {p}")
            return
        if st.mon.get("~cn", 0) < 2:
            eng.report("S24.nodaemon", st, "the command is run without a daemon")
        if not st.mon.get("~ready"):
            eng.report("S24.early", st, "the command is run before the daemon notified readiness")
        if not st.mon.get("~chown"):
            eng.report("S23.socket", st, "the command is run although the socket was not given to the real user and group")
        if not st.mon.get("~chmod"):
            eng.report("S23.socket", st, "the command is run although access to the socket was not restricted")
        if not st.mon.get("~gid"):
            eng.report("S23.priv", st, "the command is run with the launcher's effective group")
        if not st.mon.get("~uid"):
            eng.report("S23.priv", st, "the command is run with the launcher's effective user")
        if not st.mon.get("~sock"):
            eng.report("S23.sockenv", st, "the command is not told the daemon's socket (SEATD_SOCK)")

    def args(self, eng, st, argv):
        out = []
        if argv.__class__ is not Ptr:
            eng.check_ptr(st, argv, 8, "argument vector")
            return None
        for i in range(64):
            if not eng.check_ptr(st, Ptr(argv.oid, add(argv.off, 8 * i)), 8, "argument vector"):
                return None
            v = st.getcell(argv.oid, argv.off + 8 * i, 8)
            if v is UNDEF:
                eng.report("mem.uninit", st, "the argument vector is not terminated")
                return None
            if v == 0:
                return out
            if not self.check_str(eng, st, v, "argument"):
                return None
            out.append(v)
        return None

    def f_execve(self, eng, st, ins, a):
        self.exec(eng, st, a[0], a[1], a[2] if len(a) > 2 else None, False)
        return [(s, -1) for s in self.anyerr(eng, st, [ENOENT])]

    def f_execvp(self, eng, st, ins, a):
        self.exec(eng, st, a[0], a[1], None, True)
        return [(s, -1) for s in self.anyerr(eng, st, [ENOENT])]

    def f_execv(self, eng, st, ins, a):
        self.exec(eng, st, a[0], a[1], None, False)
        return [(s, -1) for s in self.anyerr(eng, st, [ENOENT])]

    def f_execvpe(self, eng, st, ins, a):
        self.exec(eng, st, a[0], a[1], a[2], True)
        return [(s, -1) for s in self.anyerr(eng, st, [ENOENT])]

    def which(self, st, v):
        v = st.norm(v)
        for n in (1, 2):
            p = st.mon.get("~pid%d" % n)
            if p is not None and st.eq0(sub(v, p)) is True:
                return n
        return None

    def f_waitpid(self, eng, st, ins, a):
        eng.count("waits")
        n = self.which(st, a[0])
        any_ = st.norm(a[0]) == -1
        out = []
        if n is None and not any_:
            eng.report("S24.wait", st, "something else than the two children is waited for")
            return out
        hang = st.norm(a[2]) == WNOHANG
        if self.role(st) != "launcher":
            eng.report("S24.wait", st, "a child waits for its sibling")
            return out

        def status(s, kinds):
            r = []
            for k in kinds:
                x = s.copy()
                if k == "exit":
                    c = x.fresh(0, 255)
                    v = scale(c, 256)
                    want = c
                else:
                    c = x.fresh(1, 64)
                    v = add(c, 128 if k == "core" else 0)
                    want = add(c, 128)
                r.append((x, v, want))
            return r
        for m in ([n] if n else [1, 2]):
            if "~pid%d" % m not in st.mon or st.mon.get("~reaped%d" % m):
                continue
            if m == 1 and not hang and not st.mon.get("~killed"):
                if st.mon.get("~nchild", 0) < 2 or n == 1:
                    eng.report("S24.forever", st, "the launcher waits for the daemon to exit without having stopped it")
                    continue
            for x, v, want in status(st, ("exit", "signal", "core") if m == 2 else ("exit", "signal")):
                x.mon["~reaped%d" % m] = 1
                x.mon.pop("~polls", None)
                if m == 1:
                    x.mon["~died"] = 1
                    if not x.mon.get("~killed") and x.mon.get("~nchild", 0) < 2:
                        x.mon["~failed"] = 1
                else:
                    x.mon["~status"] = want
                if a[1].__class__ is Ptr:
                    if not eng.check_ptr(x, a[1], 4, "waitpid status", True):
                        continue
                    x.setcell(a[1].oid, a[1].off, 4, v)
                x.note(f"child {m} is gone")
                out.append((x, x.mon["~pid%d" % m]))
        if hang and not st.mon.get("~died"):
            out.append((st.copy(), 0))
        if not hang:
            s = st.copy()
            self.set_errno(eng, s, EINTR)
            if not s.mon.get("~eintr"):
                s.mon["~eintr"] = 1
                out.append((s, -1))
        # no such child any more (reaped automatically), or another failure
        for e in (ECHILD, EINVAL):
            if e == ECHILD and st.mon.get("~echild", 0) >= 3:
                eng.report("S24.forever", st, "the launcher goes on waiting although its child is gone")
                continue
            for s in self.anyerr(eng, st, [e]):
                if e == ECHILD and n is not None:
                    s.mon["~echild"] = s.mon.get("~echild", 0) + 1
                    if n == 1:
                        s.mon["~died"] = 1
                out.append((s, -1))
        return out

    def f_kill(self, eng, st, ins, a):
        sig = st.norm(a[1])
        n = self.which(st, a[0])
        eng.count("kills")
        if n is None:
            eng.report("S24.kill", st, "a signal is sent to something else than the daemon or the command")
        elif self.role(st) != "launcher":
            eng.report("S24.kill", st, "a child stops its sibling")
        elif n == 1 and sig in (15, 9, 2, 1, 3):
            st.mon["~killed"] = 1
            if not st.mon.get("~failed") and st.mon.get("~nchild", 0) >= 2 and not st.mon.get("~reaped2"):
                eng.report("S24.killearly", st, "the daemon is stopped while the command runs")
        s = st.copy()
        self.set_errno(eng, s, 3)
        return [(s, -1), (st, 0)]

    # ---- readiness
    def f_poll(self, eng, st, ins, a):
        eng.count("polls")
        n = st.norm(a[1])
        if n.__class__ is not int or not eng.check_ptr(st, a[0], 8 * n, "poll", True):
            return []
        st.note("poll")
        fd = st.getcell(a[0].oid, a[0].off, 4)
        ev = st.norm(st.getcell(a[0].oid, a[0].off + 4, 2))
        i = self.use_fd(eng, st, fd, "poll")
        if i == "bad":
            return []
        if not i or i[0] != "piper":
            eng.report("S24.ready", st, "something else than the readiness pipe is polled")
            return []
        if self.role(st) == "launcher" and any(x[0] == "pipew" for x in st.fds.values()):
            eng.report("S24.forever", st, "the launcher waits for the daemon while it holds the pipe's write end itself")
        out = []
        for s in self.anyerr(eng, st, [ENOMEM, EFAULT]):
            out.append((s, -1))
        if not st.mon.get("~eintrp"):
            s = st.copy()
            self.set_errno(eng, s, EINTR)
            s.mon["~eintrp"] = 1
            out.append((s, -1))
        to = st.norm(a[2])
        if not st.mon.get("~died"):
            s = st.copy()
            s.setcell(a[0].oid, a[0].off + 6, 2, 1)      # the daemon is ready
            s.mon["~data"] = 1
            out.append((s, 1))
            if not (to.__class__ is int and to < 0):
                s = st.copy()
                s.setcell(a[0].oid, a[0].off + 6, 2, 0)
                out.append((s, 0))
        # the daemon dies now, or is dead already
        k = st.mon.get("~polls", 0) + 1
        if k > 3:
            eng.report("S24.forever", st, "the launcher goes on waiting for a daemon that is gone")
            return out
        st.mon["~died"] = 1
        st.mon["~polls"] = k
        for ev in (16, 17):
            s = st.copy()
            s.setcell(a[0].oid, a[0].off + 6, 2, ev)
            out.append((s, 1))
        return out

    def f_read(self, eng, st, ins, a):
        i = self.use_fd(eng, st, a[0], "read")
        if i == "bad":
            return self.bad(eng, st)
        if not eng.check_ptr(st, a[1], a[2], "read buffer", True):
            return []
        eng.count("reads")
        if self.role(st) == "launcher" and any(x[0] == "pipew" for x in st.fds.values()):
            eng.report("S24.forever", st, "the launcher waits for the daemon while it holds the pipe's write end itself")
        out = []
        if not st.mon.get("~died") or st.mon.get("~data"):
            s = st.copy()
            s.havoc(a[1].oid, a[1].off, a[2])
            s.mon["~ready"] = 1
            s.note("the daemon is ready")
            out.append((s, s.fresh(1, st.rng(a[2])[1])))
        if not st.mon.get("~eintrr"):
            s = st.copy()
            self.set_errno(eng, s, EINTR)
            s.mon["~eintrr"] = 1
            out.append((s, -1))
        for s in self.anyerr(eng, st, [EIO]):
            out.append((s, -1))
        if not st.mon.get("~data"):
            k = st.mon.get("~polls", 0) + 1
            if k > 4:
                eng.report("S24.forever", st, "the launcher goes on waiting for a daemon that is gone")
                return out
            st.mon["~polls"] = k
            st.mon["~died"] = 1
            out.append((st, 0))
        return out

    # ---- identity
    def f_getuid(self, eng, st, ins, a):
        return self.ident(eng, st, "uid")

    def f_getgid(self, eng, st, ins, a):
        return self.ident(eng, st, "gid")

    def f_geteuid(self, eng, st, ins, a):
        return self.ident(eng, st, "euid")

    def f_getegid(self, eng, st, ins, a):
        return self.ident(eng, st, "egid")

    def ident(self, eng, st, k):
        v = st.mon.get("~id" + k)
        if v is None:
            v = st.fresh(0, (1 << 32) - 2)
            st.mon["~id" + k] = v
        return [(st, v)]

    def real(self, st, v, k):
        r = st.mon.get("~id" + k)
        return r is not None and st.eq0(sub(st.norm(v), r)) is True

    def sockpath(self, eng, st, p):
        return self.cstr(st, p) == self.defs["SEATD_DEFAULTPATH"].encode()

    def fail(self, eng, st):
        return [(s, -1) for s in self.anyerr(eng, st, [EPERM])]

    def f_chown(self, eng, st, ins, a):
        if not self.check_str(eng, st, a[0], "chown"):
            return []
        eng.count("chowns")
        out = self.fail(eng, st)
        if not self.sockpath(eng, st, a[0]):
            eng.report("S23.other", st, "the owner of something else than the socket is changed")
        if self.real(st, a[1], "uid") and self.real(st, a[2], "gid"):
            st.mon["~chown"] = 1
        else:
            eng.report("S23.socket", st, "the socket is not given to the real user and group")
        if st.mon.get("~uid"):
            eng.report("S23.order", st, "the socket is handed over after the privileges needed for that were dropped")
        if not st.mon.get("~ready"):
            eng.report("S23.order", st, "the socket is changed before the daemon is known to have created it")
        out.append((st, 0))
        return out

    f_lchown = f_chown

    def f_chmod(self, eng, st, ins, a):
        if not self.check_str(eng, st, a[0], "chmod"):
            return []
        eng.count("chmods")
        out = self.fail(eng, st)
        if not self.sockpath(eng, st, a[0]):
            eng.report("S23.other", st, "the mode of something else than the socket is changed")
        m = st.norm(a[1])
        if m.__class__ is not int or m & 0o7 or (m & 0o600) != 0o600:
            eng.report("S23.mode", st, "the socket's mode lets others in, or the user out")
        else:
            st.mon["~chmod"] = 1
        if not st.mon.get("~ready"):
            eng.report("S23.order", st, "the socket is changed before the daemon is known to have created it")
        out.append((st, 0))
        return out

    def setid(self, eng, st, k, vs):
        eng.count("setids")
        out = self.fail(eng, st)
        if not all(self.real(st, v, k) for v in vs):
            eng.report("S23.id", st, f"the process does not change to the real {'user' if k == 'uid' else 'group'}")
        if k == "gid" and st.mon.get("~uid"):
            eng.report("S23.order", st, "the user is changed before the group, whose change then needs privileges already dropped")
        st.mon["~" + k] = 1
        out.append((st, 0))
        return out

    def f_setuid(self, eng, st, ins, a):
        return self.setid(eng, st, "uid", a[:1])

    def f_setgid(self, eng, st, ins, a):
        return self.setid(eng, st, "gid", a[:1])

    def f_setresuid(self, eng, st, ins, a):
        return self.setid(eng, st, "uid", a[:3])

    def f_setresgid(self, eng, st, ins, a):
        return self.setid(eng, st, "gid", a[:3])

    def f_setreuid(self, eng, st, ins, a):
        return self.setid(eng, st, "uid", a[:2])

    def f_setregid(self, eng, st, ins, a):
        return self.setid(eng, st, "gid", a[:2])

    def f_seteuid(self, eng, st, ins, a):
        eng.report("S23.saved", st, "only the effective user is changed; the command can get the privileges back")
        return [(st, 0)]

    def f_setegid(self, eng, st, ins, a):
        eng.report("S23.saved", st, "only the effective group is changed; the command can get the privileges back")
        return [(st, 0)]

    def f_setenv(self, eng, st, ins, a):
        if not self.check_str(eng, st, a[0], "setenv") or not self.check_str(eng, st, a[1], "setenv"):
            return []
        if self.cstr(st, a[0]) == b"SEATD_SOCK":
            if self.sockpath(eng, st, a[1]) and st.norm(a[2]) != 0:
                st.mon["~sock"] = 1
        return [(st, 0)]

    def f_pipe(self, eng, st, ins, a):
        out = self.fail(eng, st)
        r = [x for x in Models.f_pipe(self, eng, st, ins, a) if x[1] == 0]
        return out + r

    f_pipe2 = f_pipe

    def f_strncpy(self, eng, st, ins, a):
        return Models.f_strncpy(self, eng, st, ins, a)

    def f_signal(self, eng, st, ins, a):
        return [(st, 0)]

    def f_sigaction(self, eng, st, ins, a):
        return [(st, 0)]


class Exit:
    def __init__(self, m, eng):
        self.m, self.eng = m, eng

    def __call__(self, st, v):
        eng, m = self.eng, self.m
        eng.count("exits")
        if m.role(st) == "child":
            code = v[1] if v.__class__ is tuple else v
            if st.mon.get("~what") is None:
                eng.report("S24.child", st, "a child process ends without having tried to run its program")
            if v.__class__ is not tuple:
                eng.report("S24.child", st, "a child process whose program cannot be run goes on as the launcher")
            elif st.norm(code) == 0:
                eng.report("S24.child", st, "a child process reports success although its program could not be run")
            return
        code = v[1] if v.__class__ is tuple else v
        code = st.norm(code)
        if st.mon.get("~pid1") is not None and not st.mon.get("~killed") and not st.mon.get("~died"):
            eng.report("S24.survive", st, "the launcher exits without stopping the daemon")
        if st.mon.get("~reaped2"):
            eng.count("statuses")
            if st.eq0(st.norm(sub(code, st.mon["~status"]))) is not True:
                eng.report("S24.status", st, "the launcher's exit status is not the command's")
            return
        if st.mon.get("~info") and "~pid1" not in st.mon:
            return
        if st.eq0(code) is True or (code.__class__ is int and code & 255 == 0):
            eng.report("S24.zero", st, "the launcher reports success although the command was not run")


def run_launch(prog, defs, opts):
    m = LaunchModels(prog, defs)
    eng = Engine(prog, m, "launch", opts)
    eng.stop_on = opts.get("stop_on")
    st = eng.initial()
    main = prog.find("main")
    if len(main) != 1:
        raise AnalysisError("main not found")
    argv = st.new("ext", "argv", None, "sym")
    eng.call(st, main[0].name, [st.fresh(1, 1 << 20), Ptr(argv, 0)])
    eng.run([st], Exit(m, eng))
    return eng
